//! Controlled scheduling of two real threads, one instruction at a time.
//!
//! A worker process single-steps call A with the trap flag. At each
//! instruction boundary it forks; the copy starts a second thread that runs
//! call B while A stands still, then lets A finish.

use super::{right, Cx, Shared};
use crate::checks::heartbeat;
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// Cases into which the pairs of one system are divided.
pub const PARTS: u128 = 16;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn sigaction(n: i32, act: *const LibcAction, old: *mut LibcAction) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn alarm(s: u32) -> u32;
    fn fork() -> i32;
    fn prctl(what: i32, ...) -> i32;
}
#[repr(C)]
struct LibcAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SYS_FORK: i64 = 57;
const SIGTRAP: i32 = 5;
const TF: u64 = 0x100;
/// Offset of the flags register within the `ucontext_t` of a signal.
const EFL: usize = 40 + 17 * 8;

/// Results of the copies, shared with the process that started the worker.
#[repr(C)]
struct Board {
    steps: AtomicU64,
    schedules: AtomicU64,
    waited: AtomicU64,
    lost: AtomicU64,
    /// 0: fine; otherwise what went wrong, and at which instructions.
    bad: AtomicU32,
    at: AtomicU64,
    at_b: AtomicU64,
}

static COUNT: AtomicU64 = AtomicU64::new(0);
static IN_COPY: AtomicBool = AtomicBool::new(false);
static B_DONE: AtomicBool = AtomicBool::new(false);
/// B stands at its chosen instruction / may go on.
static B_PAUSED: AtomicBool = AtomicBool::new(false);
static B_GO: AtomicBool = AtomicBool::new(false);
static B_RIGHT: AtomicBool = AtomicBool::new(false);
static B_STEPS: AtomicU64 = AtomicU64::new(0);
static WAITED: AtomicBool = AtomicBool::new(false);
static mut JOB: Option<Job> = None;
static BOARD: std::sync::atomic::AtomicPtr<Board> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
thread_local! {
    static I_AM_B: Cell<bool> = const { Cell::new(false) };
}
/// B's chosen instruction; `u64::MAX` lets B run to its end.
static B_STOP: AtomicU64 = AtomicU64::new(u64::MAX);
/// Where the worker starts and how it strides over A's instructions.
static FROM: AtomicU64 = AtomicU64::new(0);
static STRIDE: AtomicU64 = AtomicU64::new(1);

#[derive(Clone, Copy)]
struct Job {
    a: &'static Shared,
    na: u128,
    b: &'static Shared,
    nb: u128,
    /// Try every stopping point of B, not only its end.
    both: bool,
}

fn job() -> Job {
    unsafe { (*std::ptr::addr_of!(JOB)).unwrap() }
}

fn board() -> &'static Board {
    unsafe { &*BOARD.load(Relaxed) }
}

#[inline(always)]
fn trap_on() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn trap_off() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}

fn spin(until: &AtomicBool, limit: Duration) -> bool {
    let mut n = 0u32;
    let mut start = None;
    while !until.load(Acquire) {
        n += 1;
        if n < 2000 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
            if n % 64 == 0 {
                let s = *start.get_or_insert_with(Instant::now);
                if s.elapsed() > limit {
                    return false;
                }
            }
        }
    }
    true
}

fn run_b() {
    let j = job();
    let stop = B_STOP.load(Relaxed);
    if stop != u64::MAX {
        I_AM_B.with(|b| b.set(true));
        trap_on();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.b.call)(j.nb)));
    trap_off();
    I_AM_B.with(|b| b.set(false));
    let ok = r.is_ok_and(|r| right(j.b, j.nb, &r));
    B_RIGHT.store(ok, Release);
    B_DONE.store(true, Release);
    B_PAUSED.store(true, Release);
}

/// In the copy, at A's chosen instruction: let B run.
fn switch_to_b() {
    std::mem::forget(std::thread::Builder::new().stack_size(1 << 18).spawn(run_b).expect("thread"));
    // Waiting is not a fault; once it is known to happen, less time is given.
    let patience = if board().waited.load(Relaxed) < 3 { 300 } else { 3 };
    if !spin(&B_PAUSED, Duration::from_millis(patience)) {
        WAITED.store(true, Relaxed);
    }
}

extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    let efl = unsafe { &mut *(ctx.add(EFL).cast::<u64>()) };
    if IN_COPY.load(Relaxed) {
        if I_AM_B.with(Cell::get) {
            let n = B_STEPS.fetch_add(1, Relaxed);
            if n == B_STOP.load(Relaxed) {
                *efl &= !TF;
                B_PAUSED.store(true, Release);
                spin(&B_GO, Duration::from_secs(5));
            }
        } else {
            *efl &= !TF;
        }
        return;
    }
    let at = COUNT.fetch_add(1, Relaxed);
    if at < FROM.load(Relaxed) || (at - FROM.load(Relaxed)) % STRIDE.load(Relaxed) != 0 || board().bad.load(Relaxed) != 0 {
        return;
    }
    if copy(at, u64::MAX, efl) {
        return;
    }
    if job().both {
        let mut stop = 0;
        loop {
            if copy(at, stop, efl) {
                return;
            }
            // The copy reports that B ended before reaching `stop`.
            if board().at_b.swap(0, Relaxed) == u64::MAX {
                break;
            }
            stop += 1;
        }
    }
}

/// Forks a copy for one schedule. True in the copy.
fn copy(at: u64, stop: u64, efl: &mut u64) -> bool {
    let pid = unsafe { syscall(SYS_FORK) };
    if pid == 0 {
        IN_COPY.store(true, Relaxed);
        B_STOP.store(stop, Relaxed);
        *efl &= !TF;
        unsafe { alarm(10) };
        switch_to_b();
        return true;
    }
    if pid < 0 {
        board().lost.fetch_add(1, Relaxed);
        return false;
    }
    let mut st = 0;
    while unsafe { waitpid(pid as i32, &mut st, 0) } < 0 {}
    let b = board();
    b.schedules.fetch_add(1, Relaxed);
    let code = if st & 0x7f == 0 { (st >> 8) & 0xff } else { 1000 + (st & 0x7f) };
    match code {
        0 => {}
        // B had ended before its stopping point.
        1 => b.at_b.store(u64::MAX, Relaxed),
        2 => {
            b.waited.fetch_add(1, Relaxed);
            b.at_b.store(u64::MAX, Relaxed);
        }
        // The copy ran into its time limit: the machine, not the code.
        1014 | 1009 => {
            b.lost.fetch_add(1, Relaxed);
            b.at_b.store(u64::MAX, Relaxed);
        }
        c => {
            b.at.store(at, Relaxed);
            b.at_b.store(stop, Relaxed);
            b.bad.store(c as u32, Relaxed);
        }
    }
    false
}

/// The worker process: never returns.
fn work() -> ! {
    let j = job();
    let act = LibcAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
    unsafe { sigaction(SIGTRAP, &act, std::ptr::null_mut()) };
    trap_on();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.a.call)(j.na)));
    trap_off();
    let a_ok = r.is_ok_and(|r| right(j.a, j.na, &r));
    if IN_COPY.load(Relaxed) {
        // A has finished; B may still stand somewhere.
        let ended_early = B_STOP.load(Relaxed) != u64::MAX && B_DONE.load(Acquire);
        B_GO.store(true, Release);
        if !spin(&B_DONE, Duration::from_secs(4)) {
            unsafe { kill(syscall(39) as i32, 9) };
        }
        let b_ok = B_RIGHT.load(Acquire);
        let later = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            [(j.a, j.na), (j.b, j.nb), (j.a, j.a.values[2]), (j.b, j.b.values[2]), (j.b, j.nb), (j.a, j.na)]
                .iter()
                .all(|(s, n)| right(s, *n, &(s.call)(*n)))
        }))
        .unwrap_or(false);
        let code = match (a_ok, b_ok, later) {
            (false, _, _) => 10,
            (_, false, _) => 11,
            (_, _, false) => 12,
            _ if WAITED.load(Relaxed) => 2,
            _ if ended_early => 1,
            _ => 0,
        };
        unsafe { _exit(code) }
    }
    if !a_ok && board().bad.load(Relaxed) == 0 {
        board().bad.store(13, Relaxed);
    }
    board().steps.store(COUNT.load(Relaxed), Relaxed);
    unsafe { _exit(0) }
}

fn explore(j: Job, from: u64, stride: u64, cx: &mut Cx) -> Result<(), String> {
    let len = 4096;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    if p as isize == -1 {
        return Err("mmap failed".into());
    }
    // The first use of either system happens before the fork, so that only
    // the calls under test are stepped.
    for (s, n) in [(j.a, j.na), (j.b, j.nb)] {
        if !right(s, n, &(s.call)(n)) {
            unsafe { munmap(p, len) };
            return Err(format!("{} of {n} is wrong when run alone", s.name));
        }
    }
    // The library's own fork leaves the allocator and the thread bookkeeping usable.
    let pid = i64::from(unsafe { fork() });
    if pid == 0 {
        // Nothing outlives the process that looks at the results.
        unsafe { prctl(1, 9u64) };
        unsafe { JOB = Some(j) };
        BOARD.store(p.cast(), Relaxed);
        FROM.store(from, Relaxed);
        STRIDE.store(stride, Relaxed);
        work();
    }
    let mut st = 0;
    let b = unsafe { &*p.cast::<Board>() };
    if pid > 0 {
        let mut last = (u64::MAX, Instant::now());
        loop {
            let w = unsafe { waitpid(pid as i32, &mut st, 1) };
            if w == pid as i32 {
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
            let n = b.schedules.load(Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
                heartbeat();
            } else if last.1.elapsed() > Duration::from_secs(30) {
                unsafe { kill(pid as i32, 9) };
            }
        }
    }
    let (steps, schedules, waited, lost) = (b.steps.load(Relaxed), b.schedules.load(Relaxed), b.waited.load(Relaxed), b.lost.load(Relaxed));
    let (bad, at, at_b) = (b.bad.load(Relaxed), b.at.load(Relaxed), b.at_b.load(Relaxed));
    unsafe { munmap(p, len) };
    cx.calls += schedules * 8;
    cx.transitions += schedules * 2;
    cx.extra_states += schedules;
    *cx.tags.entry("schedules").or_insert(0) += schedules;
    if waited > 0 {
        *cx.tags.entry("schedules in which the second call waited").or_insert(0) += waited;
    }
    if lost > 0 {
        *cx.tags.entry("schedules lost to the machine").or_insert(0) += lost;
    }
    let place = || {
        let b_at = if at_b == u64::MAX { "to its end".to_owned() } else { format!("up to instruction {at_b}") };
        format!("{} of {} stopped at instruction {at}, {} of {} run {b_at} in another thread", j.a.name, j.na, j.b.name, j.nb)
    };
    match bad {
        0 => {}
        10 => return Err(format!("{}: the interrupted call's result is wrong", place())),
        11 => return Err(format!("{}: the second call's result is wrong", place())),
        12 => return Err(format!("{}: later calls are wrong", place())),
        13 => return Err(format!("{} of {}: wrong when single-stepped", j.a.name, j.na)),
        c if c >= 1000 => return Err(format!("{}: the process died with signal {}", place(), c - 1000)),
        c => return Err(format!("{}: the process ended with {c}", place())),
    }
    if pid < 0 || st != 0 || steps == 0 {
        *cx.tags.entry("interleavings not explored (no process)").or_insert(0) += 1;
    }
    if cx.trace {
        cx.note = format!("{} of {} against {} of {}: {steps} instructions, {schedules} schedules", j.a.name, j.na, j.b.name, j.nb);
    }
    Ok(())
}

pub fn single(a: &'static Shared, na: u128, b: &'static Shared, nb: u128, cx: &mut Cx) -> Result<(), String> {
    explore(Job { a, na, b, nb, both: false }, 0, 1, cx)
}

pub fn double(a: &'static Shared, na: u128, b: &'static Shared, nb: u128, part: u64, cx: &mut Cx) -> Result<(), String> {
    explore(Job { a, na, b, nb, both: true }, part, PARTS as u64, cx)
}
