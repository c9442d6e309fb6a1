//! Partial-order exploration of two calls over their accesses to shared memory.
//!
//! Two calls can influence each other only through memory that outlives them:
//! statics of the program, or the system objects themselves. A process of its
//! own write-protects both and runs calls at full speed; every write traps and
//! is noted (`foot`). Calls that write nothing shared commute with every other
//! call, so one schedule stands for all. For calls that do write, every
//! interleaving of their accesses to the words written (reads included, found
//! by taking all access rights away) is executed, up to a number of
//! preemptions, each in a process of its own (`sched`).

use super::*;
use std::cell::Cell;
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn sigaction(n: i32, act: *const Action, old: *mut Action) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn fork() -> i32;
    fn prctl(what: i32, ...) -> i32;
}
#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SIGTRAP: i32 = 5;
const SIGSEGV: i32 = 11;
const TF: u64 = 0x100;
const EFL: usize = 40 + 17 * 8;
const PAGE: usize = 4096;
/// Accesses are told apart by words of this many bytes.
const WORD: usize = 16;

// ---------------------------------------------------------------- subjects

/// A system as both threads use it, with every integer type.
pub struct Subject {
    pub name: String,
    pub call: Box<dyn Fn(usize, u128) -> Raw + Send + Sync>,
    pub ok: Box<dyn Fn(u128, &Raw) -> bool + Send + Sync>,
    pub values: Box<dyn Fn() -> Vec<Dom> + Send + Sync>,
    pub limit: u128,
}

const ARENA: usize = 64 * PAGE;
static ARENA_AT: AtomicUsize = AtomicUsize::new(0);
static ARENA_USED: AtomicUsize = AtomicUsize::new(0);

/// Puts a system object where its memory can be watched.
fn place<S>(s: S) -> &'static S {
    if ARENA_AT.load(Relaxed) == 0 {
        let p = unsafe { mmap(std::ptr::null_mut(), ARENA, 3, 0x22, -1, 0) };
        assert!(p as isize != -1, "mmap failed");
        ARENA_AT.store(p as usize, Relaxed);
    }
    let a = std::mem::align_of::<S>().max(WORD);
    let at = (ARENA_USED.load(Relaxed) + a - 1) / a * a;
    ARENA_USED.store(at + std::mem::size_of::<S>(), Relaxed);
    assert!(ARENA_USED.load(Relaxed) <= ARENA, "arena too small");
    unsafe {
        let p = (ARENA_AT.load(Relaxed) + at) as *mut S;
        p.write(s);
        &*p
    }
}

pub fn subjects(level: u32) -> Vec<Subject> {
    let mut v = vec![];
    // The harness's own lazy state is settled before anything is watched.
    systems();
    for (i, s) in systems().iter().enumerate() {
        v.push(Subject {
            name: s.name.clone(),
            call: Box::new(move |w, n| (systems()[i].tryf[w])(n)),
            ok: Box::new(move |n, r| {
                let mut want = String::new();
                let m = systems()[i].model.render(n, &mut want);
                same(r, m, &want, n)
            }),
            values: Box::new(move || dom::values(s, Depth { bits: if level > 0 { 14 } else { 12 }, level: level.min(1) })),
            limit: s.limit,
        });
    }
    macro_rules! object {
        ($name:expr, $s:expr, $limit:expr, $ok:expr) => {{
            let s = place($s);
            let want: fn(u128, &mut String) -> Result<(), ModelErr> = $ok;
            v.push(Subject {
                name: $name.into(),
                call: Box::new(move |w, n| custom::try_w(s, w, n)),
                ok: Box::new(move |n, r| {
                    let mut o = String::new();
                    let m = want(n, &mut o);
                    same(r, m, &o, n)
                }),
                values: Box::new(|| dom::compose(12, &[dom::boundaries(10)], $limit)),
                limit: $limit,
            });
        }};
    }
    fn list(len: u128, zero: bool, one: bool, n: u128, o: &mut String) -> Result<(), ModelErr> {
        ListModel { len, symbols: None, zero, one_based: one, fixed: false, fallback: None }.render(n, o).unwrap()
    }
    fn sum(n: u128, o: &mut String) -> Result<(), ModelErr> {
        let mut rest = n;
        for (s, x) in [("X", 10), ("V", 5), ("I", 1)] {
            for _ in 0..rest / x {
                o.push_str(s);
            }
            rest %= x;
        }
        if n == 0 {
            return Err(ModelErr::NoZero);
        }
        Ok(())
    }
    let digit = custom::virt_digit;
    object!("a shared AdditiveSet", AdditiveSet::<3>::new([("X", 10), ("V", 5), ("I", 1)]), 5000, sum);
    object!("a shared EnumeratedSet", EnumeratedSet::<3, true>::new(["a", "bb", "c"]), u128::MAX, |n, o| {
        let s = ["a", "bb", "c"].get(usize::try_from(n).unwrap_or(usize::MAX)).ok_or(ModelErr::OutOfBounds)?;
        o.push_str(s);
        Ok(())
    });
    object!("a shared DigitSet with zero", DigitSet::<10, true>::new(std::array::from_fn(digit)), u128::MAX, |n, o| list(10, true, false, n, o));
    object!("a shared DigitSet without zero", DigitSet::<26, false>::zeroless(std::array::from_fn(digit)), u128::MAX, |n, o| list(26, false, false, n, o));
    object!("a shared OneBased", OneBased::new(DigitSet::<26, false>::zeroless(std::array::from_fn(digit))), u128::MAX, |n, o| list(26, false, true, n, o));
    object!("a shared Restrict", Restrict::new(7, DigitSet::<26, false>::zeroless(std::array::from_fn(digit))), u128::MAX, |n, o| list(7, false, false, n, o));
    object!("a shared Chain", Chain::new(DigitSet::<5, true>::new(std::array::from_fn(digit)), DigitSet::<4, false>::zeroless(std::array::from_fn(|i| digit(i + 5)))), u128::MAX, |n, o| list(9, true, false, n, o));
    object!("a shared Chinese system", TraditionalChineseFormal::default().mid_scale().financial(), u128::MAX, |n, o| {
        static I: OnceLock<usize> = OnceLock::new();
        let i = *I.get_or_init(|| systems().iter().position(|x| x.name == "TraditionalChineseFormal.mid.financial").unwrap());
        systems()[i].model.render(n, o)
    });
    self_test::add(&mut v);
    v
}

/// Harness-owned systems with hidden state: the exploration has to notice it.
mod self_test {
    use super::*;
    static CELL: AtomicUsize = AtomicUsize::new(0);
    static LOCK: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
    pub const RACY: &str = "self-test: a racy system";
    pub const LOCKED: &str = "self-test: a system with a lock";
    pub const TIRED: &str = "self-test: a system whose later calls go wrong";
    pub const GATED: &str = "self-test: a system with one bad state";
    static SEEN: AtomicU8 = AtomicU8::new(0);
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    fn text(n: usize) -> Raw {
        Ok(NominalString::from(if n % 2 == 0 { "even" } else { "odd" }))
    }
    pub fn add(v: &mut Vec<Subject>) {
        let mut push = |name: &str, call: fn(usize, u128) -> Raw| {
            v.push(Subject {
                name: name.into(),
                call: Box::new(call),
                ok: Box::new(|n, r| matches!(r, Ok(s) if **s == *if n % 2 == 0 { "even" } else { "odd" })),
                values: Box::new(|| vec![Dom::Range(0, 50)]),
                limit: 50,
            });
        };
        push(RACY, |_, n| {
            CELL.store(n as usize, SeqCst);
            text(CELL.load(SeqCst))
        });
        push(LOCKED, |_, n| {
            let mut l = LOCK.lock().unwrap();
            *l = n as usize;
            text(*l)
        });
        push(GATED, |_, n| {
            let seen = if n == 16 { SEEN.fetch_add(1, SeqCst) } else { SEEN.load(SeqCst) };
            text(n as usize + usize::from(n == 17 && seen == 200))
        });
        push(TIRED, |_, n| text(n as usize + usize::from(CALLS.fetch_add(1, SeqCst) > 1 << 20)));
    }
}

pub fn is_self_test(name: &str) -> bool {
    name.starts_with("self-test")
}

/// The calls whose pairs are explored, if they depend on each other.
fn alphabet(s: &Subject, small: bool) -> Vec<(usize, u128)> {
    let mut v: Vec<(usize, u128)> = if small { vec![(W128, 15), (W128, 16), (2, 42)] } else { (0..=16).map(|n| (W128, n)).collect() };
    if !small {
        v.extend([(W128, 42), (W128, 99), (W128, 10_203), (W128, s.limit), (W128, 42 + (1 << 64)), (0, 15), (0, 42), (2, 16)]);
    }
    v.retain(|&(_, n)| n <= s.limit);
    v
}

// ---------------------------------------------------------------- board

const MAXT: usize = 1024;
/// Everything the signal handlers need, outside of the watched memory.
#[repr(C)]
struct Board {
    /// 0: note writes. 1: scheduling.
    mode: AtomicU32,
    npages: AtomicUsize,
    pages: [(usize, usize); 64],
    nwords: AtomicUsize,
    words: [AtomicUsize; 512],
    faults: AtomicU64,
    /// The operation that is running, and whether it wrote.
    wrote: AtomicU32,
    turn: AtomicU32,
    ready: AtomicU32,
    done: [AtomicU32; 2],
    release: AtomicU32,
    /// 1 + whether B's result was right.
    b_right: AtomicU32,
    points: AtomicUsize,
    streak: AtomicU32,
    nsched: AtomicUsize,
    sched: [AtomicU8; MAXT],
    trace: [AtomicU8; MAXT],
    waited: AtomicU32,
}
static BOARD: std::sync::atomic::AtomicPtr<Board> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
thread_local! {
    static MINE: Cell<*const Board> = const { Cell::new(std::ptr::null()) };
    /// 0: not a thread under test; otherwise 1 + its number.
    static ME: Cell<u8> = const { Cell::new(0) };
}

fn new_board() -> &'static Board {
    let len = (std::mem::size_of::<Board>() + PAGE - 1) / PAGE * PAGE;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    BOARD.store(p.cast(), Relaxed);
    unsafe { &*p.cast::<Board>() }
}

/// Writable memory of the program itself, and the arena.
fn regions() -> (usize, Vec<(usize, usize)>) {
    let exe = std::fs::read_link("/proc/self/exe").expect("exe");
    let exe = exe.to_string_lossy().into_owned();
    let text = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let (mut base, mut v, mut end_of_exe) = (usize::MAX, vec![], 0);
    for l in text.lines() {
        let mut f = l.split_whitespace();
        let (range, perms) = (f.next().unwrap(), f.next().unwrap());
        let path = f.nth(3).unwrap_or("");
        let (a, b) = range.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let of_exe = path == exe;
        if of_exe {
            base = base.min(a);
        }
        if (of_exe || (path.is_empty() && a == end_of_exe)) && perms.as_bytes()[1] == b'w' {
            v.push((a, b - a));
        }
        if of_exe {
            end_of_exe = b;
        }
    }
    let arena = ARENA_AT.load(Relaxed);
    if arena != 0 {
        v.push((arena, ARENA));
    }
    (base, v)
}

/// Addresses as they are in every process of this program.
fn portable(base: usize, a: usize) -> u64 {
    let arena = ARENA_AT.load(Relaxed);
    if arena != 0 && (arena..arena + ARENA).contains(&a) {
        1 << 48 | (a - arena) as u64
    } else {
        a.wrapping_sub(base) as u64
    }
}
fn local(base: usize, p: u64) -> usize {
    if p >> 48 == 1 {
        ARENA_AT.load(Relaxed) + (p & 0xffff_ffff) as usize
    } else {
        base.wrapping_add(p as usize)
    }
}

#[inline(always)]
fn protect(b: &Board, prot: i32) {
    for (a, len) in &b.pages[..b.npages.load(Relaxed)] {
        unsafe { mprotect(*a as *mut u8, *len, prot) };
    }
}

fn handlers() {
    for (sig, f) in [(SIGSEGV, on_fault as *const () as usize), (SIGTRAP, on_step as *const () as usize)] {
        let act = Action { handler: f, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        unsafe { sigaction(sig, &act, std::ptr::null_mut()) };
    }
}

extern "C" fn on_fault(sig: i32, info: *const u8, ctx: *mut u8) {
    let b = MINE.with(Cell::get);
    let me = ME.with(Cell::get);
    let addr = unsafe { *info.add(16).cast::<usize>() };
    let known = !b.is_null() && {
        let b = unsafe { &*b };
        b.pages[..b.npages.load(Relaxed)].iter().any(|(a, l)| (*a..a + l).contains(&addr))
    };
    if me == 0 || !known {
        let act = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
        unsafe { sigaction(sig, &act, std::ptr::null_mut()) };
        return;
    }
    let b = unsafe { &*b };
    let word = addr / WORD * WORD;
    if b.mode.load(Relaxed) == 0 {
        b.wrote.store(1, Relaxed);
        b.faults.fetch_add(1, Relaxed);
        let n = b.nwords.load(Relaxed);
        if !b.words[..n].iter().any(|w| w.load(Relaxed) == word) && n < b.words.len() {
            b.words[n].store(word, Relaxed);
            b.nwords.store(n + 1, Relaxed);
        }
    } else if b.words[..b.nwords.load(Relaxed)].iter().any(|w| w.load(Relaxed) == word) {
        point(b, me - 1);
    }
    protect(b, 3);
    unsafe { *ctx.add(EFL).cast::<u64>() |= TF };
}

extern "C" fn on_step(_sig: i32, _info: *const u8, ctx: *mut u8) {
    unsafe { *ctx.add(EFL).cast::<u64>() &= !TF };
    let b = MINE.with(Cell::get);
    if !b.is_null() && ME.with(Cell::get) != 0 {
        let b = unsafe { &*b };
        protect(b, if b.mode.load(Relaxed) == 0 { 1 } else { 0 });
    }
}

// ---------------------------------------------------------------- footprints

/// What the calls of one subject write that outlives them.
#[derive(Default, Clone)]
pub struct Foot {
    pub words: Vec<u64>,
    /// Members of the alphabet that write.
    pub ops: Vec<(usize, u128)>,
    pub calls: u64,
    pub writes: u64,
    /// Some calls that write.
    pub examples: Vec<(usize, u128)>,
}

impl Foot {
    fn writers(&self) -> Vec<(usize, u128)> {
        let mut v = self.ops.clone();
        v.extend(self.examples.iter().filter(|e| !self.ops.contains(e)));
        v
    }
}

/// `nomcheck foot <subject> <level>`: runs in a fresh process.
pub fn foot_main(i: usize, level: u32) {
    let all = subjects(level);
    let s = &all[i];
    let b = new_board();
    let (base, pages) = regions();
    let bm = b as *const Board as *mut Board;
    unsafe { (&mut (*bm).pages)[..pages.len()].copy_from_slice(&pages) };
    b.npages.store(pages.len(), Relaxed);
    handlers();
    MINE.with(|m| m.set(b));
    let values = (s.values)();
    let mut ops = vec![];
    let mut examples: Vec<(usize, u128)> = vec![];
    let mut calls = 0u64;
    let alpha = alphabet(s, false);
    ME.with(|m| m.set(1));
    protect(b, 1);
    let mut run = |w: usize, n: u128| -> bool {
        b.wrote.store(0, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop((s.call)(w, n))));
        calls += 1;
        if r.is_err() || b.wrote.load(Relaxed) != 0 {
            if examples.len() < 12 && !examples.iter().any(|e| e.1 == n) {
                examples.push((w, n));
            }
            return true;
        }
        false
    };
    for (w, n) in alpha {
        if run(w, n) {
            ops.push((w, n));
        }
    }
    'all: for d in &values {
        for k in 0..d.len() {
            let n = d.get(k);
            for w in [4usize, 0, 1, 2, 3, 5] {
                if n <= MAXES[w] {
                    run(w, n);
                }
            }
            // Each write costs two signals; after many there is nothing new.
            if b.faults.load(Relaxed) > 60_000 {
                break 'all;
            }
        }
    }
    protect(b, 3);
    ME.with(|m| m.set(0));
    println!("calls {calls}");
    println!("writes {}", b.faults.load(Relaxed));
    for w in &b.words[..b.nwords.load(Relaxed)] {
        println!("word {}", portable(base, w.load(Relaxed)));
    }
    for (w, n) in ops {
        println!("op {w} {n}");
    }
    for (w, n) in examples {
        println!("example {w} {n}");
    }
    println!("end");
}

fn run_self(args: &[String]) -> Result<String, String> {
    static SEQ: AtomicU64 = AtomicU64::new(0);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    // A file, not a pipe: other processes forked meanwhile would hold it open.
    let path = std::env::temp_dir().join(format!("nomcheck-{}-{}", std::process::id(), SEQ.fetch_add(1, Relaxed)));
    let file = std::fs::File::create(&path).map_err(|e| e.to_string())?;
    let c = std::process::Command::new(exe).args(args).env("LD_BIND_NOW", "1").stdin(std::process::Stdio::null()).stdout(file).spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(e) => {
            let _ = std::fs::remove_file(&path);
            return Err(e.to_string());
        }
    };
    let start = Instant::now();
    while let Ok(None) = c.try_wait() {
        if start.elapsed() > Duration::from_secs(300) {
            let _ = c.kill();
        }
        heartbeat();
        std::thread::sleep(Duration::from_millis(2));
    }
    let out = std::fs::read_to_string(&path).map_err(|e| e.to_string());
    let _ = std::fs::remove_file(&path);
    out
}

pub fn foot(i: usize, level: u32) -> Result<Foot, String> {
    let out = run_self(&["foot".into(), i.to_string(), level.to_string()])?;
    let mut f = Foot::default();
    let mut whole = false;
    for l in out.lines() {
        let mut p = l.split(' ');
        let key = p.next().unwrap_or("");
        let mut num = || p.next().and_then(|x| x.parse::<u128>().ok()).unwrap_or(0);
        match key {
            "calls" => f.calls = num() as u64,
            "writes" => f.writes = num() as u64,
            "word" => f.words.push(num() as u64),
            "op" => f.ops.push((num() as usize, num())),
            "example" => f.examples.push((num() as usize, num())),
            "end" => whole = true,
            _ => {}
        }
    }
    f.words.sort_unstable();
    if whole {
        Ok(f)
    } else {
        Err("incomplete".into())
    }
}

// ---------------------------------------------------------------- long histories

/// `nomcheck long <subject> <calls> <ops>`: one long history of calls that
/// leave something behind, every result checked.
fn long_main(i: usize, calls: u64, ops: &[(usize, u128)]) {
    let all = subjects(0);
    let s = &all[i];
    let started = Instant::now();
    let mut done = 0;
    while done < calls {
        for &(w, n) in ops {
            done += 1;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.ok)(n, &(s.call)(w, n))));
            if !matches!(r, Ok(true)) {
                println!("bad {} of {n} as {} is wrong in call {done} of a history of calls that change what outlives them", s.name, WIDTHS[w]);
                println!("calls {done}");
                return;
            }
        }
        if started.elapsed() > Duration::from_secs(200) {
            break;
        }
    }
    println!("calls {done}");
    println!("end");
}

// ---------------------------------------------------------------- hidden states

/// What the processes of the walk tell each other.
#[repr(C)]
struct Notes {
    /// How far the probes got, and which one is wrong.
    at: AtomicUsize,
    bad: AtomicU32,
    hash: [AtomicU64; 64],
}

/// `nomcheck walk <subject> <states> <seconds> <ops> <words>`: explores the
/// states of the memory that the calls of a subject leave behind, by the
/// content of its words. Every state is a process (a fork); in each new one
/// the values 0 to 1100 and the boundaries of every type are asked for, and
/// after a probe that itself changes the state, the next one starts from the
/// state again.
fn walk_main(i: usize, states: usize, seconds: u64, ops: &[(usize, u128)], words: &[u64]) {
    let all = subjects(0);
    let s = &all[i];
    let (base, pages) = regions();
    let words: Vec<usize> = words.iter().map(|w| local(base, *w)).filter(|w| pages.iter().any(|(p, l)| (*p..p + l).contains(w))).collect();
    let p = unsafe { mmap(std::ptr::null_mut(), PAGE, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    let notes: &'static Notes = unsafe { &*p.cast::<Notes>() };
    let content = || -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for w in &words {
            for k in 0..WORD / 8 {
                let x = unsafe { ((w + 8 * k) as *const u64).read_volatile() };
                h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                h ^= h >> 29;
            }
        }
        h
    };
    let mut probes: Vec<(usize, usize, u128)> = vec![];
    for n in 0..=1100u128 {
        probes.extend([4usize, 0].iter().filter(|w| n <= MAXES[**w]).map(|w| (i, *w, n)));
    }
    let mut far: Vec<u128> = vec![s.limit];
    for k in 0..128 {
        far.extend([(1u128 << k) - 1, 1 << k, 3 << k.min(126)]);
    }
    let mut ten = 1u128;
    while ten < u128::MAX / 10 {
        far.extend([ten - 1, ten, ten * 9 / 8]);
        ten *= 10;
    }
    for n in far {
        let w = (0..5).rev().find(|w| n <= MAXES[*w]).unwrap_or(4);
        probes.push((i, w, n));
    }
    probes.retain(|p| p.2 <= s.limit);
    for (k, x) in all.iter().enumerate() {
        if k != i && !is_self_test(&x.name) && !is_self_test(&s.name) {
            probes.extend([0u128, 1, 7, 15, 16, 42, 99, 100, 115, 999, 10_203].map(|n| (k, W128, n)).into_iter().filter(|p| p.2 <= x.limit));
        }
    }
    let right = |&(k, w, n): &(usize, usize, u128)| -> bool { matches!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (all[k].ok)(n, &(all[k].call)(w, n)))), Ok(true)) };
    // Runs `f` in a copy of this process.
    let child = |f: &dyn Fn() -> i32| -> i32 {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { alarm(30) };
            let c = f();
            unsafe { _exit(c) }
        }
        let mut st = 0;
        if pid < 0 {
            return 40;
        }
        while unsafe { waitpid(pid, &mut st, 0) } < 0 {}
        if st & 0x7f == 0 { (st >> 8) & 0xff } else { 1000 + (st & 0x7f) }
    };
    let started = Instant::now();
    let late = || started.elapsed() > Duration::from_secs(seconds);
    let path_name = |path: &[u16]| -> String {
        let mut v: Vec<(u16, usize)> = vec![];
        for &o in path {
            match v.last_mut() {
                Some(l) if l.0 == o => l.1 += 1,
                _ => v.push((o, 1)),
            }
        }
        v.iter().map(|(o, k)| format!("{}{}", ops[*o as usize].1, if *k > 1 { format!(" (times {k})") } else { String::new() })).collect::<Vec<_>>().join(", ")
    };
    let replay = |path: &[u16]| -> bool { path.iter().all(|&o| right(&(i, ops[o as usize].0, ops[o as usize].1))) };
    let mut seen = std::collections::HashSet::new();
    let (mut probed, mut edges, mut longest) = (0u64, 0u64, 0usize);
    // Ends the process in case of a violation.
    let mut probe = |path: &[u16]| {
        let mut from = 0;
        let mut dirty = 0;
        while from < probes.len() {
            notes.bad.store(0, Relaxed);
            notes.at.store(from, Relaxed);
            // A system that every call changes: only the first probes start from the state itself.
            let careful = dirty < 60;
            let code = child(&|| {
                if !replay(path) {
                    notes.bad.store(2, Relaxed);
                    return 0;
                }
                let h = content();
                for (k, p) in probes.iter().enumerate().skip(from) {
                    notes.at.store(k, Relaxed);
                    if !right(p) {
                        notes.bad.store(1, Relaxed);
                        return 0;
                    }
                    if careful && content() != h {
                        break;
                    }
                }
                0
            });
            let at = notes.at.load(Relaxed);
            let bad = notes.bad.load(Relaxed);
            if bad != 0 || (code >= 1000 && code != 1014 && code != 1009) {
                let (k, w, n) = probes[at];
                if bad == 2 {
                    println!("bad {}: a call is wrong in the history {}", s.name, path_name(path));
                } else {
                    println!("bad {} of {n} as {} is wrong after the history {} of {}{}", all[k].name, WIDTHS[w], path_name(path), s.name, if code >= 1000 { " (the process died)" } else { "" });
                }
                println!("end");
                std::process::exit(0);
            }
            if code != 0 {
                break;
            }
            probed += (at + 1 - from) as u64;
            dirty += 1;
            from = at + 1;
            if late() {
                break;
            }
        }
    };
    let step = |path: &[u16], o: u16| -> Option<u64> {
        let k = o as usize % notes.hash.len();
        let code = child(&|| {
            let ok = replay(path) && replay(&[o]);
            notes.hash[k].store(content(), Relaxed);
            i32::from(!ok)
        });
        (code == 0).then(|| notes.hash[k].load(Relaxed))
    };
    seen.insert(content());
    probe(&[]);
    // One call again and again.
    let all_ops: Vec<u16> = (0..ops.len() as u16).collect();
    for &o in &all_ops {
        let mut path = vec![];
        while path.len() < 1100 && seen.len() < states && !late() {
            let Some(h) = step(&path, o) else {
                path.push(o);
                probe(&path);
                break;
            };
            edges += 1;
            path.push(o);
            if !seen.insert(h) {
                break;
            }
            longest = longest.max(path.len());
            probe(&path);
        }
    }
    // All histories, states with the same content once.
    let mut visited: std::collections::HashSet<u64> = [content()].into();
    let mut todo: std::collections::VecDeque<Vec<u16>> = [vec![]].into();
    let mut total = 0usize;
    while let Some(path) = todo.pop_front() {
        total += 1;
        if total > states || late() {
            println!("cut 1");
            break;
        }
        for &o in &all_ops {
            edges += 1;
            let mut p = path.clone();
            p.push(o);
            match step(&path, o) {
                Some(h) => {
                    if visited.insert(h) {
                        longest = longest.max(p.len());
                        if seen.insert(h) {
                            probe(&p);
                        }
                        todo.push_back(p);
                    }
                }
                None => probe(&p),
            }
        }
    }
    println!("states {}", seen.len());
    println!("calls {}", probed);
    println!("edges {edges}");
    println!("longest {longest}");
    println!("end");
}

// ---------------------------------------------------------------- schedules

fn wait_for(b: &Board, what: &AtomicU32, value: u32, limit: Duration) -> bool {
    let (mut n, mut seen, mut since) = (0u32, usize::MAX, Instant::now());
    while what.load(Acquire) != value {
        n += 1;
        if n < 500 {
            std::hint::spin_loop();
            continue;
        }
        unsafe { syscall(24) };
        let p = b.points.load(Relaxed);
        if p != seen {
            (seen, since) = (p, Instant::now());
        } else if since.elapsed() > limit {
            return false;
        }
    }
    true
}

/// The next access belongs to `me`; decides who goes first.
fn point(b: &Board, me: u8) {
    let k = b.points.fetch_add(1, Relaxed);
    let alive = b.done[usize::from(1 - me)].load(Acquire) == 0;
    let mut choice = me;
    if k < b.nsched.load(Relaxed) {
        choice = b.sched[k].load(Relaxed);
    }
    let mut forced = false;
    if alive && choice == me && b.streak.fetch_add(1, Relaxed) > 60 {
        // A thread that waits for the other one must not wait forever.
        (choice, forced) = (1 - me, true);
    }
    if !alive {
        choice = me;
    }
    if k < MAXT {
        b.trace[k].store(0x80 | me | choice << 1 | u8::from(alive) << 2 | u8::from(forced) << 3, Relaxed);
    }
    if choice != me {
        b.streak.store(0, Relaxed);
        b.turn.store(u32::from(choice), Release);
        if !wait_for(b, &b.turn, u32::from(me), Duration::from_millis(if b.waited.load(Relaxed) < 3 { 300 } else { 20 })) {
            // The other thread waits for this one in some other way.
            b.waited.fetch_add(1, Relaxed);
            b.turn.store(u32::from(me), Release);
        }
    }
}

fn finish(b: &Board, me: u8) {
    b.done[usize::from(me)].store(1, Release);
    b.turn.store(u32::from(1 - me), Release);
}

type Op = (&'static Subject, usize, u128);

fn run_op(o: Op) -> Option<Raw> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.0.call)(o.1, o.2))).ok()
}
fn right_op(o: Op, r: &Option<Raw>) -> bool {
    r.as_ref().is_some_and(|r| (o.0.ok)(o.2, r))
}

/// One schedule, in a process of its own. Never returns.
fn execute(b: &'static Board, x: Op, y: Op, warm: bool) -> ! {
    unsafe { alarm(20) };
    if warm {
        run_op(x);
        run_op(y);
    }
    let t = std::thread::Builder::new().stack_size(1 << 18).spawn(move || {
        MINE.with(|m| m.set(b));
        b.ready.store(1, Release);
        wait_for(b, &b.turn, 1, Duration::from_secs(15));
        ME.with(|m| m.set(2));
        let r = run_op(y);
        ME.with(|m| m.set(0));
        finish(b, 1);
        wait_for(b, &b.release, 1, Duration::from_secs(15));
        b.b_right.store(1 + u32::from(right_op(y, &r)), Release);
        loop {
            std::thread::sleep(Duration::from_secs(20));
        }
    });
    if t.is_err() || !wait_for(b, &b.ready, 1, Duration::from_secs(10)) {
        unsafe { _exit(40) }
    }
    MINE.with(|m| m.set(b));
    protect(b, 0);
    ME.with(|m| m.set(1));
    point(b, 0);
    let r = run_op(x);
    ME.with(|m| m.set(0));
    finish(b, 0);
    if !wait_for(b, &b.done[1], 1, Duration::from_secs(10)) {
        // Both stand still.
        unsafe { _exit(14) }
    }
    protect(b, 3);
    b.release.store(1, Release);
    let a_ok = right_op(x, &r);
    if !wait_for(b, &b.b_right, 2, Duration::from_millis(2500)) {
        unsafe { _exit(11) }
    }
    let later = [x, y, y, x].iter().all(|o| right_op(*o, &run_op(*o)));
    unsafe { _exit(if !a_ok { 10 } else if !later { 12 } else { 0 }) }
}

struct Outcome {
    code: i32,
    trace: Vec<u8>,
}

fn one(b: &'static Board, sched: &[u8], x: Op, y: Op, warm: bool) -> Outcome {
    b.turn.store(0, Relaxed);
    for a in [&b.ready, &b.done[0], &b.done[1], &b.release, &b.b_right, &b.streak] {
        a.store(0, Relaxed);
    }
    b.points.store(0, Relaxed);
    b.nsched.store(sched.len(), Relaxed);
    for (i, c) in sched.iter().enumerate() {
        b.sched[i].store(*c, Relaxed);
    }
    let pid = unsafe { fork() };
    if pid == 0 {
        execute(b, x, y, warm);
    }
    let mut st = 0;
    if pid < 0 {
        return Outcome { code: 40, trace: vec![] };
    }
    while unsafe { waitpid(pid, &mut st, 0) } < 0 {}
    let code = if st & 0x7f == 0 { (st >> 8) & 0xff } else { 1000 + (st & 0x7f) };
    let n = b.points.load(Relaxed).min(MAXT);
    Outcome { code, trace: b.trace[..n].iter().map(|t| t.load(Relaxed)).collect() }
}

/// `nomcheck sched <i> <j> <small> <words...>`: explores the pairs of two subjects.
pub fn sched_main(i: usize, j: usize, small: bool, bound: u32, ops: [Vec<(usize, u128)>; 2], words: &[u64], limit: Duration) {
    let all: &'static Vec<Subject> = Box::leak(Box::new(subjects(0)));
    let b = new_board();
    let (base, pages) = regions();
    let words: Vec<usize> = words.iter().map(|w| local(base, *w)).collect();
    for (k, w) in words.iter().take(b.words.len()).enumerate() {
        b.words[k].store(*w, Relaxed);
    }
    b.nwords.store(words.len().min(b.words.len()), Relaxed);
    let mut mine: Vec<(usize, usize)> = words.iter().map(|w| (w / PAGE * PAGE, PAGE)).collect();
    mine.sort_unstable();
    mine.dedup();
    mine.retain(|(a, _)| pages.iter().any(|(p, l)| (*p..p + l).contains(a)));
    mine.truncate(64);
    let bm = b as *const Board as *mut Board;
    unsafe { (&mut (*bm).pages)[..mine.len()].copy_from_slice(&mine) };
    b.npages.store(mine.len(), Relaxed);
    b.mode.store(1, Relaxed);
    handlers();
    let pick = |k: usize, s: &Subject, given: &Vec<(usize, u128)>| -> Vec<(usize, u128)> {
        let _ = k;
        let mut v = alphabet(s, small);
        if !given.is_empty() {
            let both: Vec<_> = v.iter().copied().filter(|o| given.contains(o)).collect();
            if !both.is_empty() {
                v = both;
            }
        }
        v
    };
    let (xs, ys) = (pick(0, &all[i], &ops[0]), pick(1, &all[j], &ops[1]));
    let started = Instant::now();
    let (mut schedules, mut pairs, mut cut, mut odd) = (0u64, 0u64, 0u64, 0u64);
    let mut longest = 0;
    'pairs: for (xi, &x) in xs.iter().enumerate() {
        for (yi, &y) in ys.iter().enumerate() {
            if i == j && yi < xi {
                continue;
            }
            if started.elapsed() > limit {
                cut += 1;
                continue;
            }
            pairs += 1;
            let (ox, oy): (Op, Op) = ((&all[i], x.0, x.1), (&all[j], y.0, y.1));
            for warm in [false, true] {
                let mut todo: Vec<Vec<u8>> = vec![vec![]];
                let mut n = 0;
                while let Some(prefix) = todo.pop() {
                    let r = one(b, &prefix, ox, oy, warm);
                    schedules += 1;
                    n += 1;
                    longest = longest.max(r.trace.len());
                    if matches!(r.code, 10..=13) || (r.code >= 1000 && r.code != 1014 && r.code != 1009) {
                        let what = match r.code {
                            10 => "the first call's result is wrong".to_owned(),
                            11 => "the second call's result is wrong".to_owned(),
                            12 => "later calls are wrong".to_owned(),
                            c => format!("the process died with signal {}", c - 1000),
                        };
                        let order: String = r.trace.iter().map(|t| if t >> 1 & 1 == 0 { 'A' } else { 'B' }).collect();
                        println!(
                            "bad {} of {} as {} (A) with {} of {} as {} (B) in two threads, {}, accesses to shared memory in the order {}: {what}",
                            all[i].name, x.1, WIDTHS[x.0], all[j].name, y.1, WIDTHS[y.0], if warm { "after both had been called before" } else { "as first calls" }, order
                        );
                        break 'pairs;
                    }
                    if r.code != 0 {
                        // Both stood still, or no process: counted, not judged.
                        odd += 1;
                        continue;
                    }
                    let cost = |t: &[u8]| t.iter().enumerate().filter(|(k, c)| *k > 0 && *c >> 2 & 1 == 1 && *c >> 3 & 1 == 0 && (*c & 1) != (*c >> 1 & 1)).count() as u32;
                    for k in (prefix.len()..r.trace.len().min(MAXT - 1)).rev() {
                        let c = r.trace[k];
                        if c >> 2 & 1 == 0 || c >> 3 & 1 == 1 {
                            continue;
                        }
                        let other = 1 - (c >> 1 & 1);
                        let step = u32::from(k > 0 && other != c & 1);
                        if cost(&r.trace[..k]) + step <= bound {
                            let mut p: Vec<u8> = r.trace[..k].iter().map(|t| t >> 1 & 1).collect();
                            p.push(other);
                            todo.push(p);
                        }
                    }
                    if n > 1500 {
                        cut += 1;
                        break;
                    }
                }
            }
            if pairs % 16 == 0 {
                let _ = std::io::stdout().flush();
            }
        }
    }
    println!("schedules {schedules}");
    println!("pairs {pairs}");
    println!("longest {longest}");
    println!("cut {cut}");
    println!("odd {odd}");
    println!("end");
}

// ---------------------------------------------------------------- spaces

fn feet(n: usize, level: u32) -> &'static Vec<Mutex<Option<Result<Foot, String>>>> {
    let _ = level;
    static F: OnceLock<Vec<Mutex<Option<Result<Foot, String>>>>> = OnceLock::new();
    F.get_or_init(|| (0..n).map(|_| Mutex::new(None)).collect())
}
use std::sync::Mutex;

fn foot_of(i: usize, n: usize, level: u32) -> Result<Foot, String> {
    let mut f = feet(n, level)[i].lock().unwrap_or_else(|e| e.into_inner());
    f.get_or_insert_with(|| foot(i, level)).clone()
}

/// How many subjects leave something behind, and how many pairs of them meet.
fn dependent(n: usize, level: u32) -> (usize, usize) {
    static D: OnceLock<(usize, usize)> = OnceLock::new();
    *D.get_or_init(|| {
        let f: Vec<Foot> = (0..n).filter_map(|i| foot_of(i, n, level).ok()).filter(|f| !f.words.is_empty()).collect();
        let pairs = (0..f.len()).map(|i| (i..f.len()).filter(|j| f[i].words.iter().any(|w| f[*j].words.contains(w))).count()).sum();
        (f.len(), pairs)
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let level = u32::from(t == Tier::Thorough);
    // Processor seconds for each of the spaces that only dependent calls need.
    let pool: usize = if t == Tier::Quick { 480 } else { 4800 };
    let names: Vec<String> = subjects(0).into_iter().map(|s| s.name).collect();
    let n = names.len();
    let names = Arc::new(names);
    let bound = if t == Tier::Quick { 2 } else { 4 };
    let mut v = vec![];
    let nm = names.clone();
    v.push(
        Space::new("writes that outlive a call", vec![Dom::Range(0, n as u128)], move |case, cx| {
            let i = case as usize;
            match foot_of(i, n, level) {
                Ok(f) => {
                    cx.calls += f.calls;
                    cx.extra_states += f.calls;
                    *cx.tags.entry("calls with every write watched").or_insert(0) += f.calls;
                    if !is_self_test(&nm[i]) {
                        *cx.tags.entry("writes that outlive a call").or_insert(0) += f.writes;
                    }
                    if cx.trace || case < 2 {
                        cx.note = format!("{}: {} calls, {} writes that outlive them", nm[i], f.calls, f.writes);
                    }
                }
                Err(_) => cx.tag("systems whose writes could not be watched"),
            }
            Ok(())
        })
        .chunk(1),
    );
    let nm = names.clone();
    let long = if t == Tier::Quick { 1u64 << 25 } else { 1 << 29 };
    v.push(
        Space::new("long histories of calls that leave something behind", vec![Dom::Range(0, n as u128)], move |case, cx| {
            let i = case as usize;
            let Ok(f) = foot_of(i, n, level) else { return Ok(()) };
            let ops = f.writers();
            if ops.is_empty() {
                cx.tag("systems on which no earlier call can have an effect");
                return Ok(());
            }
            let list = ops.iter().map(|(w, n)| format!("{w}:{n}")).collect::<Vec<_>>().join(",");
            let long = long / (1 + dependent(n, level).0 as u64 / 24);
            let out = run_self(&["long".into(), i.to_string(), if is_self_test(&nm[i]) { 1u64 << 21 } else { long }.to_string(), list])?;
            let bad = out.lines().find_map(|l| l.strip_prefix("bad "));
            if is_self_test(&nm[i]) {
                cx.tag(if bad.is_some() == (nm[i] == self_test::TIRED) { "self-tests of the exploration passed" } else { "self-tests of the exploration FAILED" });
                return Ok(());
            }
            cx.calls += out.lines().find_map(|l| l.strip_prefix("calls ")?.parse::<u64>().ok()).unwrap_or(0);
            match bad {
                Some(b) => Err(b.to_owned()),
                None => Ok(()),
            }
        })
        .chunk(1),
    );
    let nm = names.clone();
    let thorough = t == Tier::Thorough;
    v.push(
        Space::new("hidden states", vec![Dom::Range(0, n as u128)], move |case, cx| {
            let i = case as usize;
            let Ok(f) = foot_of(i, n, level) else { return Ok(()) };
            let ops = f.writers();
            if ops.is_empty() {
                return Ok(());
            }
            let list = ops.iter().map(|(w, n)| format!("{w}:{n}")).collect::<Vec<_>>().join(",");
            let own_test = is_self_test(&nm[i]);
            let seconds = if own_test { 20 } else { (pool / dependent(n, level).0).clamp(5, if thorough { 250 } else { 60 }) };
            let states = if own_test { 300 } else { 5000 };
            let words = f.words.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
            let out = run_self(&["walk".into(), i.to_string(), states.to_string(), seconds.to_string(), list, words])?;
            let num = |key: &str| out.lines().find_map(|l| l.strip_prefix(key)?.strip_prefix(' ')?.parse::<u64>().ok()).unwrap_or(0);
            let bad = out.lines().find_map(|l| l.strip_prefix("bad "));
            if own_test {
                if nm[i] == self_test::GATED {
                    cx.tag(if bad.is_some() { "self-tests of the exploration passed" } else { "self-tests of the exploration FAILED" });
                } else if nm[i] != self_test::TIRED && bad.is_some() {
                    cx.tag("self-tests of the exploration FAILED");
                }
                cx.note = out.clone();
                return Ok(());
            }
            cx.calls += num("calls");
            cx.extra_states += num("states");
            cx.transitions += num("edges");
            *cx.tags.entry("hidden states explored").or_insert(0) += num("states");
            if num("cut") > 0 {
                cx.tag("systems with more hidden states than explored");
            }
            match bad {
                Some(b) => Err(b.to_owned()),
                None => Ok(()),
            }
        })
        .chunk(1),
    );
    let nm = names;
    v.push(
        Space::new("interleavings of the accesses of dependent calls", vec![Dom::Range(0, (n * n) as u128)], move |case, cx| {
            let (i, j) = (case as usize / n, case as usize % n);
            if j < i {
                return Ok(());
            }
            cx.extra_states += 1;
            let (Ok(f), Ok(g)) = (foot_of(i, n, level), foot_of(j, n, level)) else { return Ok(()) };
            let both: Vec<u64> = f.words.iter().copied().filter(|w| g.words.contains(w)).collect();
            if both.is_empty() {
                cx.tag("pairs of systems that cannot influence each other");
                return Ok(());
            }
            let own_test = is_self_test(&nm[i]) || is_self_test(&nm[j]);
            // Where everything depends on everything, a part of it has to do.
            let (_, pairs) = dependent(n, level);
            if pairs > 1000 && j > i + 2 && i > 0 {
                cx.tag("dependent pairs of systems not explored");
                return Ok(());
            }
            let weight = if i == j { 10 } else { 1 };
            let ms = (pool * 1000 * weight / (pairs.min(500) + 10 * n)).clamp(500, 10_000 * weight);
            let list = |o: &[(usize, u128)]| o.iter().map(|(w, n)| format!("{w}:{n}")).collect::<Vec<_>>().join(",");
            let mut words: Vec<u64> = f.words.iter().chain(&g.words).copied().collect();
            words.sort_unstable();
            words.dedup();
            let out = run_self(&[
                "sched".into(), i.to_string(), j.to_string(), u8::from(i != j || own_test).to_string(), (if own_test { 1 } else { bound }).to_string(),
                list(&f.ops), list(&g.ops), words.iter().map(u64::to_string).collect::<Vec<_>>().join(","), ms.to_string(),
            ])?;
            let num = |key: &str| out.lines().find_map(|l| l.strip_prefix(key)?.strip_prefix(' ')?.parse::<u64>().ok()).unwrap_or(0);
            let s = num("schedules");
            if own_test {
                let found = out.lines().any(|l| l.starts_with("bad "));
                if i == j && found == (nm[i] == self_test::RACY) && s > 0 {
                    cx.tag("self-tests of the exploration passed");
                } else if i == j {
                    cx.tag("self-tests of the exploration FAILED");
                }
                if cx.trace {
                    cx.note = out;
                }
                return Ok(());
            }
            cx.calls += s * 6;
            cx.transitions += s * num("longest");
            cx.extra_states += s;
            *cx.tags.entry("schedules over shared accesses").or_insert(0) += s;
            for (k, t) in [("cut", "pairs of calls not explored completely"), ("odd", "schedules in which both calls stood still")] {
                if num(k) > 0 {
                    *cx.tags.entry(t).or_insert(0) += num(k);
                }
            }
            if let Some(bad) = out.lines().find_map(|l| l.strip_prefix("bad ")) {
                return Err(bad.to_owned());
            }
            cx.note = format!("{} and {}: {s} schedules, {} accesses", nm[i], nm[j], num("longest"));
            Ok(())
        })
        .chunk(16),
    );
    v
}

/// Entry points of the processes started above.
pub fn main(a: &[String]) -> bool {
    unsafe { prctl(1, 9u64) };
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    match a.first().map(String::as_str) {
        Some("foot") => foot_main(num(1), num(2) as u32),
        Some("long") => {
            let ops: Vec<(usize, u128)> = a.get(3).map_or("", |s| s.as_str()).split(',').filter_map(|o| o.split_once(':')).filter_map(|(w, n)| Some((w.parse().ok()?, n.parse().ok()?))).collect();
            long_main(num(1), num(2) as u64, &ops);
        }
        Some("walk") => {
            let ops: Vec<(usize, u128)> = a.get(4).map_or("", |s| s.as_str()).split(',').filter_map(|o| o.split_once(':')).filter_map(|(w, n)| Some((w.parse().ok()?, n.parse().ok()?))).collect();
            let words: Vec<u64> = a.get(5).map_or("", |s| s.as_str()).split(',').filter_map(|w| w.parse().ok()).collect();
            walk_main(num(1), num(2), num(3) as u64, &ops, &words);
        }
        Some("sched") => {
            let ops = |i: usize| -> Vec<(usize, u128)> {
                a.get(i).map_or("", |s| s.as_str()).split(',').filter_map(|o| o.split_once(':')).filter_map(|(w, n)| Some((w.parse().ok()?, n.parse().ok()?))).collect()
            };
            let words: Vec<u64> = a.get(7).map_or("", |s| s.as_str()).split(',').filter_map(|w| w.parse().ok()).collect();
            sched_main(num(1), num(2), num(3) == 1, num(4) as u32, [ops(5), ops(6)], &words, Duration::from_millis(num(8) as u64));
        }
        _ => return false,
    }
    true
}
