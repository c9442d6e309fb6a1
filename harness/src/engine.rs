//! Bounded exhaustive exploration: spaces of cases, parallel workers, crash /
//! hang / allocation guards, violation artefacts and evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

pub struct CountingAlloc;

/// A single allocation above this, made while a case is running, is a runaway.
pub const ALLOC_CAP: usize = 1 << 29;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

fn on_alloc(size: usize) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    if size > ALLOC_CAP && GUARDED.try_with(|g| g.replace(false)).unwrap_or(false) {
        runaway(size);
    }
}

fn live(blocks: i64, bytes: i64) {
    let _ = LIVE.try_with(|c| c.set((c.get().0 + blocks, c.get().1 + bytes)));
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        live(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        live(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        live(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Heap blocks and bytes this thread has taken and not given back.
pub fn balance() -> (i64, i64) {
    LIVE.with(|c| c.get())
}

/// Number of heap allocations made so far by this thread.
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

/// Lifts the allocation cap for this thread while `f` runs (harness-side work).
pub fn unguarded<R>(f: impl FnOnce() -> R) -> R {
    let old = GUARDED.with(|g| g.replace(false));
    let r = f();
    GUARDED.with(|g| g.set(old));
    r
}

// ---------------------------------------------------------------- slots

/// What a worker is doing right now, in memory shared with the parent process
/// so that it survives a crash of the worker process.
#[repr(C)]
pub struct Slot {
    seq: AtomicU64,
    active: AtomicU64,
    space: AtomicU64,
    lo: AtomicU64,
    hi: AtomicU64,
    plo: AtomicU64,
    phi: AtomicU64,
    has_prev: AtomicU64,
}

pub const MAX_SLOTS: usize = 64;
pub const SLOT_BYTES: usize = MAX_SLOTS * std::mem::size_of::<Slot>();
static SLOTS: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// The clock of the processor time of the calling thread (0 if there is none).
fn my_cpu_clock() -> i32 {
    let mut c = 0;
    if unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0 { c } else { 0 }
}

/// Seconds of processor time on a clock; zero for a thread that has ended.
fn cpu_secs(clock: i32) -> u64 {
    let mut t = [0i64; 2];
    if clock != 0 && unsafe { clock_gettime(clock, &mut t) } == 0 { t[0] as u64 } else { 0 }
}

/// Maps `file` (shared) as the slot table.
pub fn map_slots(file: &std::fs::File) {
    use std::os::fd::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT_BYTES, 3, 1, file.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    SLOTS.store(p.cast(), SeqCst);
}

pub fn slot(i: usize) -> &'static Slot {
    let p = SLOTS.load(Relaxed);
    assert!(!p.is_null() && i < MAX_SLOTS);
    unsafe { &*p.add(i) }
}

impl Slot {
    pub fn current(&self) -> Option<(usize, u128, Option<u128>)> {
        if self.active.load(SeqCst) == 0 {
            return None;
        }
        let n = u128::from(self.lo.load(SeqCst)) | u128::from(self.hi.load(SeqCst)) << 64;
        let p = u128::from(self.plo.load(SeqCst)) | u128::from(self.phi.load(SeqCst)) << 64;
        let prev = (self.has_prev.load(SeqCst) != 0).then_some(p);
        Some((self.space.load(SeqCst) as usize, n, prev))
    }
    fn enter(&self, space: usize, n: u128, prev: Option<u128>) {
        self.space.store(space as u64, Relaxed);
        self.lo.store(n as u64, Relaxed);
        self.hi.store((n >> 64) as u64, Relaxed);
        let p = prev.unwrap_or(0);
        self.plo.store(p as u64, Relaxed);
        self.phi.store((p >> 64) as u64, Relaxed);
        self.has_prev.store(prev.is_some().into(), Relaxed);
        self.active.store(1, Relaxed);
        self.seq.fetch_add(1, Relaxed);
    }
    fn leave(&self) {
        self.active.store(0, Relaxed);
    }
}

/// Tells the watchdog that a long case is still making progress.
pub fn heartbeat() {
    let i = MY_SLOT.with(|s| s.get());
    if i < MAX_SLOTS {
        slot(i).seq.fetch_add(1, Relaxed);
    }
}

/// Makes this thread's cases appear in slot `i`.
pub fn use_slot(i: usize) {
    MY_SLOT.with(|s| s.set(i));
}

thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

// ---------------------------------------------------------------- cases

/// Per-worker scratch and counters handed to every case.
#[derive(Default)]
pub struct Cx {
    /// Scratch for the model's label.
    pub buf: String,
    /// Second scratch.
    pub buf2: String,
    /// Label of this case, set by spaces that compare neighbours.
    pub label: String,
    /// The previously explored case of the same chunk and its label.
    pub prev: Option<u128>,
    pub prev_label: String,
    /// Executions of the real implementation compared with the model.
    pub calls: u64,
    /// Model edges examined.
    pub transitions: u64,
    /// Extra states discovered inside a case (histories, ...).
    pub extra_states: u64,
    /// Coverage tags: distinct observed outcomes.
    pub tags: BTreeMap<&'static str, u64>,
    /// When set, the case describes itself in `note`.
    pub trace: bool,
    pub note: String,
}

impl Cx {
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
}

pub type CaseFn = Box<dyn Fn(u128, &mut Cx) -> Result<(), String> + Send + Sync>;

#[derive(Clone)]
pub enum Dom {
    /// `lo..hi`
    Range(u128, u128),
    /// Sorted and without duplicates.
    List(Arc<Vec<u128>>),
}

impl Dom {
    pub fn len(&self) -> u64 {
        match self {
            Dom::Range(a, b) => (b - a) as u64,
            Dom::List(l) => l.len() as u64,
        }
    }
    pub fn get(&self, i: u64) -> u128 {
        match self {
            Dom::Range(a, _) => a + u128::from(i),
            Dom::List(l) => l[i as usize],
        }
    }
}

/// One enumerable set of cases, with the function that decides one case.
pub struct Space {
    pub name: String,
    /// Which of the cases are explored. All of them are.
    pub doms: Vec<Dom>,
    pub chunk: u64,
    pub f: CaseFn,
}

impl Space {
    pub fn new(
        name: impl Into<String>,
        doms: Vec<Dom>,
        f: impl Fn(u128, &mut Cx) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self {
        Space { name: name.into(), doms, chunk: 8192, f: Box::new(f) }
    }
    pub fn chunk(mut self, c: u64) -> Self {
        self.chunk = c;
        self
    }
}

#[derive(Clone)]
pub struct Violation {
    pub space: usize,
    pub n: u128,
    pub prev: Option<u128>,
    pub what: String,
}

pub struct Plan {
    pub spaces: Vec<Space>,
    /// Text for the evidence: how states and transitions are defined.
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: String,
    pub started: Instant,
    pub plan: Plan,
    pub variant: &'static str,
}

pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub calls: u64,
    pub tags: BTreeMap<&'static str, u64>,
    pub per_space: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub exhaustive: bool,
}

static RUN: AtomicPtr<Run> = AtomicPtr::new(std::ptr::null_mut());
static REPORTED: AtomicBool = AtomicBool::new(false);

fn run_ref() -> Option<&'static Run> {
    let p = RUN.load(SeqCst);
    (!p.is_null()).then(|| unsafe { &*p })
}

#[cold]
fn runaway(size: usize) {
    let what = format!("a single allocation of {size} bytes was requested: runaway label");
    abort_with_current(MY_SLOT.with(|s| s.get()), &what);
}

fn abort_with_current(slot_index: usize, what: &str) {
    if slot_index < MAX_SLOTS {
        if let (Some((space, n, prev)), Some(run)) = (slot(slot_index).current(), run_ref()) {
            if !REPORTED.swap(true, SeqCst) {
                report(run, &Violation { space, n, prev, what: what.to_owned() }, None);
            }
            unsafe { _exit(1) }
        }
    }
    eprintln!("error: {what} (no case active)");
    unsafe { _exit(2) }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the replay artefact and the VIOLATION line.
pub fn report(run: &Run, v: &Violation, totals: Option<&Totals>) {
    let dir = format!("{}/out/{}", run.root, run.prop);
    let _ = std::fs::create_dir_all(&dir);
    let space = run.plan.spaces.get(v.space).map_or("?", |s| s.name.as_str());
    let path = format!("{dir}/replay.json");
    let prev = v.prev.map_or("null".to_owned(), |p| format!("\"{p}\""));
    let text = format!(
        "{{\n \"property\": {},\n \"variant\": {},\n \"space\": {},\n \"case\": \"{}\",\n \"prev\": {},\n \"what\": {},\n \"replay\": {}\n}}\n",
        json_str(&run.prop), json_str(run.variant), json_str(space), v.n, prev, json_str(&v.what),
        json_str(&format!("cd /verif && ./replay.sh {path}"))
    );
    let _ = std::fs::write(&path, text);
    println!("{}: space {space}, case {}: {}", run.prop, v.n, v.what);
    println!("VIOLATION property={} replay={}", run.prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let empty = Totals {
        states: 0, transitions: 0, calls: 0, tags: BTreeMap::new(), per_space: vec![],
        samples: vec![format!("{space} case {}: {}", v.n, v.what)], exhaustive: false,
    };
    write_evidence(run, totals.unwrap_or(&empty), 1);
}

pub fn write_evidence(run: &Run, t: &Totals, violations: u64) {
    let dir = format!("{}/evidence", run.root);
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let tier = if run.tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = write!(s, "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(&run.prop), run.seed);
    let _ = write!(s, " \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"bounds\": {},\n",
        t.states, t.transitions, t.calls, t.exhaustive, json_str(&run.plan.rule), json_str(&run.plan.bounds));
    let _ = write!(s, "  \"build\": {},\n  \"observed_outcomes\": {{", json_str(run.variant));
    for (i, (k, v)) in t.tags.iter().enumerate() {
        let _ = write!(s, "{}{}: {v}", if i > 0 { ", " } else { "" }, json_str(k));
    }
    s.push_str("},\n  \"spaces\": {");
    for (i, (k, v)) in t.per_space.iter().enumerate() {
        let _ = write!(s, "{}{}: {v}", if i > 0 { ", " } else { "" }, json_str(k));
    }
    s.push_str("},\n  \"samples\": [");
    for (i, k) in t.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ",\n    " } else { "\n    " }, json_str(k));
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, k) in run.plan.assumptions.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, json_str(k));
    }
    let _ = write!(s, "],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n", run.started.elapsed().as_secs_f64());
    let name = if run.variant == "alloc" || run.variant == "no-alloc" { run.prop.clone() } else { format!("{}.{}", run.prop, run.variant) };
    let _ = std::fs::write(format!("{dir}/{name}.json"), s);
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
        .unwrap_or_else(|| "panic".into())
}

/// Runs one case with the guards on.
pub fn run_one(space: &Space, si: usize, n: u128, cx: &mut Cx, slot_i: usize) -> Result<(), String> {
    slot(slot_i).enter(si, n, cx.prev);
    GUARDED.with(|g| g.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (space.f)(n, cx)));
    GUARDED.with(|g| g.set(false));
    slot(slot_i).leave();
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_text(&*p))),
    }
}

/// Explores the whole plan. Exits the process on a violation.
pub fn explore(run: Run, threads: usize, hang_secs: u64) -> (&'static Run, Totals) {
    let run: &'static Run = Box::leak(Box::new(run));
    RUN.store(run as *const Run as *mut Run, SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
    struct Job {
        space: usize,
        dom: usize,
        from: u64,
        to: u64,
    }
    let mut jobs = Vec::new();
    for (si, s) in run.plan.spaces.iter().enumerate() {
        for (di, d) in s.doms.iter().enumerate() {
            let len = d.len();
            let mut i = 0;
            while i < len {
                let to = (i + s.chunk).min(len);
                jobs.push(Job { space: si, dom: di, from: i, to });
                i = to;
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let merged: Mutex<(u64, u64, u64, BTreeMap<&'static str, u64>)> = Mutex::new((0, 0, 0, BTreeMap::new()));
    let done = AtomicUsize::new(0);
    let clocks: Vec<AtomicI32> = (0..threads).map(|_| AtomicI32::new(0)).collect();
    let clocks = &clocks;
    let jobs = &jobs;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, found, merged, done) = (&next, &stop, &found, &merged, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    MY_SLOT.with(|s| s.set(t));
                    clocks[t].store(my_cpu_clock(), SeqCst);
                    let mut cx = Cx::default();
                    let mut states = 0u64;
                    'jobs: while !stop.load(Relaxed) {
                        let j = next.fetch_add(1, Relaxed);
                        let Some(job) = jobs.get(j) else { break };
                        let space = &run.plan.spaces[job.space];
                        let dom = &space.doms[job.dom];
                        // The overlap by one case with the previous chunk keeps
                        // edges between chunks covered.
                        cx.prev = None;
                        let start = if job.from > 0 { job.from - 1 } else { 0 };
                        let mut first_is_overlap = job.from > 0;
                        let guard_slot = slot(t);
                        GUARDED.with(|g| g.set(true));
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            for i in start..job.to {
                                let n = dom.get(i);
                                guard_slot.enter(job.space, n, cx.prev);
                                if let Err(what) = (space.f)(n, &mut cx) {
                                    return Some((n, what));
                                }
                                if first_is_overlap {
                                    first_is_overlap = false;
                                } else {
                                    states += 1;
                                }
                                cx.prev = Some(n);
                                std::mem::swap(&mut cx.label, &mut cx.prev_label);
                            }
                            None
                        }));
                        GUARDED.with(|g| g.set(false));
                        let bad = match r {
                            Ok(b) => b,
                            Err(p) => slot(t).current().map(|(_, n, _)| (n, format!("panicked: {}", panic_text(&*p)))),
                        };
                        let prev = cx.prev;
                        slot(t).leave();
                        if let Some((n, what)) = bad {
                            found.lock().unwrap().push(Violation { space: job.space, n, prev, what });
                            stop.store(true, Relaxed);
                            break 'jobs;
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0 += states + cx.extra_states;
                    m.1 += cx.transitions;
                    m.2 += cx.calls;
                    for (k, v) in cx.tags {
                        *m.3.entry(k).or_insert(0) += v;
                    }
                    done.fetch_add(1, SeqCst);
                })
                .expect("spawn");
        }
        // Watchdog. A case hangs when it has used that much processor time, or
        // five times as much real time (waiting): a busy machine is no hang.
        let mut last = vec![(0u64, Instant::now(), 0u64); threads];
        while done.load(SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for (t, l) in last.iter_mut().enumerate() {
                let s = slot(t);
                let q = s.seq.load(Relaxed);
                if q != l.0 || s.active.load(Relaxed) == 0 {
                    *l = (q, Instant::now(), cpu_secs(clocks[t].load(SeqCst)));
                } else if l.1.elapsed() > Duration::from_secs(hang_secs)
                    && (l.1.elapsed() > Duration::from_secs(5 * hang_secs) || cpu_secs(clocks[t].load(SeqCst)) > l.2 + hang_secs)
                {
                    abort_with_current(t, &format!("no result after {hang_secs} s: formatting does not terminate"));
                }
            }
        }
    });
    let (states, transitions, calls, tags) = merged.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|v| (v.space, v.n));
    let exhaustive = found.is_empty();
    let mut totals = Totals {
        states, transitions, calls, tags,
        per_space: run.plan.spaces.iter().map(|s| (s.name.clone(), s.doms.iter().map(Dom::len).sum())).collect(),
        samples: vec![], exhaustive,
    };
    if let Some(v) = found.first() {
        // A failure must reproduce on its own before it is believed.
        let mut cx = Cx::default();
        MY_SLOT.with(|s| s.set(0));
        let space = &run.plan.spaces[v.space];
        if let Some(p) = v.prev {
            let _ = run_one(space, v.space, p, &mut cx, 0);
            cx.prev = Some(p);
            std::mem::swap(&mut cx.label, &mut cx.prev_label);
        }
        let again = run_one(space, v.space, v.n, &mut cx, 0);
        let mut v = v.clone();
        if again.is_ok() {
            v.what.push_str(" (only after the preceding calls of this run: depends on history)");
        }
        if !REPORTED.swap(true, SeqCst) {
            report(run, &v, Some(&totals));
        }
        std::process::exit(1);
    }
    // Samples: actual cases of this run, described by re-running them.
    let step = (run.plan.spaces.len() / 12).max(1);
    for si in (0..run.plan.spaces.len()).step_by(step) {
        let s = &run.plan.spaces[si];
        if let Some(d) = s.doms.iter().rfind(|d| d.len() > 0) {
            let mut cx = Cx { trace: true, ..Cx::default() };
            let n = d.get(d.len() * 2 / 3);
            let _ = run_one(s, si, n, &mut cx, 0);
            totals.samples.push(if cx.note.is_empty() { format!("{} case {n}: ok", s.name) } else { cx.note });
        }
    }
    (run, totals)
}
