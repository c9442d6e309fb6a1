//! C18: calls never influence each other — in sequence, re-entrantly, or
//! concurrently with a preemption at every machine instruction.

use super::custom::{ListModel, Virt};
use super::value::{same, show, show_model};
use super::*;
use nominals::*;
use std::cell::Cell;
use std::sync::OnceLock;

fn systems() -> &'static [Sys] {
    static S: OnceLock<Vec<Sys>> = OnceLock::new();
    S.get_or_init(all_systems)
}

/// Values that collide in every truncation or hash a cache might use.
fn keys(s: &Sys) -> Vec<u128> {
    let mut v = vec![0, 1, 7, 10, 15, 42, 42 + (1 << 8), 42 + (1 << 16), 42 + (1 << 32), 42 + (1 << 64), 99, 100, 10_203, u128::MAX];
    v.retain(|&x| x <= s.limit);
    v
}

fn judge(s: &Sys, w: usize, n: u128, r: &Raw, cx: &mut Cx) -> Result<(), String> {
    cx.buf.clear();
    let m = s.model.render(n, &mut cx.buf);
    cx.calls += 1;
    if same(r, m, &cx.buf, n) {
        Ok(())
    } else {
        Err(format!("{} of {n} as {}: got {}, expected {}", s.name, WIDTHS[w], show(r), show_model(m, &cx.buf, n)))
    }
}

fn call(s: &Sys, w: usize, n: u128, cx: &mut Cx) -> Result<(), String> {
    let r = (s.tryf[w])(n);
    judge(s, w, n, &r, cx)
}

// ---------------------------------------------------------------- sequences

/// Every sequence of calls over a small alphabet of one ordered pair of systems.
fn pair_sequences(depth: u32) -> Space {
    let n = systems().len() as u128;
    Space::new(format!("all sequences of {depth} calls over every pair of systems"), vec![Dom::Range(0, n * n)], move |case, cx| {
        let (a, b) = (&systems()[(case / n) as usize], &systems()[(case % n) as usize]);
        let alphabet = [(a, 42u128), (b, 42), (a, 0), (b, 10_203)];
        for mut code in 0..4u32.pow(depth) {
            for step in 0..depth {
                let (s, v) = alphabet[(code % 4) as usize];
                code /= 4;
                call(s, W128, v, cx).map_err(|e| format!("call {step} of a sequence over {} and {}: {e}", a.name, b.name))?;
                cx.transitions += 1;
            }
            cx.extra_states += 1;
        }
        if cx.trace {
            cx.note = format!("{} and {}: every sequence of {depth} calls", a.name, b.name);
        }
        Ok(())
    })
    .chunk(8)
}

/// Every ordered triple of (integer type, value) calls of one system.
fn own_triples() -> Space {
    Space::new("all triples of calls within one system", vec![Dom::Range(0, systems().len() as u128)], move |case, cx| {
        let s = &systems()[case as usize];
        let mut calls = vec![];
        for &k in &keys(s) {
            for w in [4usize, 0, 2] {
                if k <= MAXES[w] {
                    calls.push((w, k));
                }
            }
        }
        for &(w0, a) in &calls {
            heartbeat();
            for &(w1, b) in &calls {
                for &(w2, c) in &calls {
                    call(s, w0, a, cx)?;
                    call(s, w1, b, cx).map_err(|e| format!("after {a}: {e}"))?;
                    call(s, w2, c, cx).map_err(|e| format!("after {a}, {b}: {e}"))?;
                    cx.transitions += 3;
                    cx.extra_states += 1;
                }
            }
        }
        if cx.trace {
            cx.note = format!("{}: every triple of {} calls", s.name, calls.len());
        }
        Ok(())
    })
    .chunk(1)
}

/// Numbers with digits that formatters like to treat specially.
fn probes(s: &Sys, full: bool) -> Vec<u128> {
    let mut v: Vec<u128> = (0..if full { 60 } else { 30 }).collect();
    let tens = std::iter::successors(Some(1u128), |p| p.checked_mul(10));
    for p in tens {
        let ones = (p - 1) / 9 * 10 + 1;
        for x in [p.checked_mul(1), p.checked_add(1), p.checked_sub(1), p.checked_mul(2), p.checked_mul(11), Some(ones), ones.checked_mul(5)] {
            v.extend(x);
        }
        if full {
            for x in [p.checked_mul(9), p.checked_mul(15), p.checked_mul(16), p.checked_mul(101), p.checked_add(p / 10 * 5), ones.checked_mul(9)] {
                v.extend(x);
            }
        }
    }
    for k in (1..=127).step_by(if full { 1 } else { 9 }).chain([8, 16, 32, 64]) {
        v.extend([1 << k, (1 << k) - 1, 42 | 1 << k]);
    }
    v.push(u128::MAX);
    v.retain(|&x| x <= s.limit);
    v.sort_unstable();
    v.dedup();
    v
}

/// Every ordered pair of calls, the same call twice included.
fn own_pairs(t: Tier) -> Space {
    Space::new("all pairs of calls within one system", vec![Dom::Range(0, systems().len() as u128 * 8)], move |case, cx| {
        let (s, part) = (&systems()[(case / 8) as usize], (case % 8) as usize);
        let mut known: Vec<(u128, Result<(), crate::model::ModelErr>, String)> = vec![];
        for n in probes(s, t == Tier::Thorough) {
            let mut want = String::new();
            let m = s.model.render(n, &mut want);
            known.push((n, m, want));
        }
        let f = &s.tryf[W128];
        for (a, ma, wa) in known.iter().skip(part).step_by(8) {
            heartbeat();
            for (b, mb, wb) in &known {
                let (ra, rb) = (f(*a), f(*b));
                cx.calls += 2;
                cx.transitions += 2;
                cx.extra_states += 1;
                if !same(&ra, *ma, wa, *a) {
                    return Err(format!("{} of {a} among calls with {b}: got {}, expected {}", s.name, show(&ra), show_model(*ma, wa, *a)));
                }
                if !same(&rb, *mb, wb, *b) {
                    return Err(format!("{} of {b} right after {a}: got {}, expected {}", s.name, show(&rb), show_model(*mb, wb, *b)));
                }
            }
        }
        if cx.trace {
            cx.note = format!("{}: every pair of {} calls", s.name, known.len());
        }
        Ok(())
    })
    .chunk(1)
}

/// Every value again, and again after a value that agrees with it modulo 2^64.
fn repeated(t: Tier) -> Space {
    Space::new("every value repeatedly, in every integer type", vec![Dom::Range(0, systems().len() as u128 * 8)], move |case, cx| {
        let (s, part) = (&systems()[(case / 8) as usize], (case % 8) as usize);
        let depth = if t == Tier::Quick { Depth { bits: 12, level: 0 } } else { Depth { bits: 16, level: 1 } };
        let mut k = 0usize;
        for d in dom::values(s, depth) {
            for i in 0..d.len() {
                k += 1;
                if k % 8 != part {
                    continue;
                }
                if k % 4096 == part {
                    heartbeat();
                }
                let n = d.get(i);
                if s.limit < n {
                    continue;
                }
                let mut want = String::new();
                let m = s.model.render(n, &mut want);
                let low = n & u128::from(u64::MAX);
                let mut wlow = String::new();
                let mlow = if low == n { m } else { s.model.render(low, &mut wlow) };
                let check = |w: usize, v: u128, m: Result<(), crate::model::ModelErr>, want: &str, cx: &mut Cx| {
                    let r = (s.tryf[w])(v);
                    cx.calls += 1;
                    cx.transitions += 1;
                    if same(&r, m, want, v) {
                        Ok(())
                    } else {
                        Err(format!("{} of {v} as {} during repeated calls with {n}: got {}, expected {}", s.name, WIDTHS[w], show(&r), show_model(m, want, v)))
                    }
                };
                check(W128, n, m, &want, cx)?;
                check(W128, n, m, &want, cx)?;
                let wl: &str = if low == n { &want } else { &wlow };
                for w in [3usize, 2, 1, 0] {
                    if low <= MAXES[w] {
                        check(w, low, mlow, wl, cx)?;
                        check(w, low, mlow, wl, cx)?;
                    }
                }
                check(W128, n, m, &want, cx)?;
                cx.extra_states += 1;
            }
        }
        if cx.trace {
            cx.note = format!("{}: {k} values repeatedly", s.name);
        }
        Ok(())
    })
    .chunk(1)
}

/// One system, then one value of another in a fresh process: whatever the
/// first call of a process is, later calls are right.
pub fn first_call(case: u128) -> Result<(), String> {
    let (si, k) = (case as usize / 5, case as usize % 5);
    let s = &systems()[si];
    let ks = keys(s);
    let first = [0, 42, u128::MAX, 10_203, 1][k];
    let first = if ks.contains(&first) { first } else { ks[ks.len() - 1] };
    let mut cx = Cx::default();
    call(s, W128, first, &mut cx).map_err(|e| format!("as the first call of a process: {e}"))?;
    for o in systems() {
        for n in keys(o) {
            for w in 0..6 {
                if n <= MAXES[w] {
                    call(o, w, n, &mut cx).map_err(|e| format!("in a process whose first call was {} of {first}: {e}", s.name))?;
                }
            }
        }
    }
    Ok(())
}

fn first_calls() -> Space {
    Space::new("every first call of a process", vec![Dom::Range(0, systems().len() as u128 * 5)], move |case, cx| {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let out = std::process::Command::new(exe).args(["first", &case.to_string()]).output().map_err(|e| e.to_string())?;
        cx.calls += 1;
        cx.transitions += 1;
        match out.status.code() {
            Some(0) => Ok(()),
            Some(3) => Err(String::from_utf8_lossy(&out.stdout).trim().to_owned()),
            _ => Err(format!("the process with first call {case} ended with {}", out.status)),
        }
    })
    .chunk(4)
}

// ---------------------------------------------------------------- re-entrancy

thread_local! {
    /// What the callbacks do: a list of (system, value), consumed one per call.
    static INNER: Cell<Option<(usize, u128)>> = const { Cell::new(None) };
    static INNER_BAD: Cell<Option<(usize, u128)>> = const { Cell::new(None) };
    static INNER_RUNS: Cell<u64> = const { Cell::new(0) };
    static BOOM: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

fn reenter() {
    if let Some((si, n)) = INNER.with(Cell::get) {
        let d = DEPTH.with(|d| d.replace(d.get() + 1));
        if d < 2 {
            let s = &systems()[si];
            let mut cx = Cx::default();
            if call(s, W128, n, &mut cx).is_err() {
                INNER_BAD.with(|b| b.set(Some((si, n))));
            }
            if d == 0 {
                // And once more through a collection that re-enters again.
                let c = Nosy::<NoFallback>(Virt::new(10, true, true, false));
                let mut want = String::new();
                let m = ListModel { len: 10, symbols: None, zero: true, one_based: false, fixed: false, fallback: None };
                let ok = m.render(120, &mut want) == Some(Ok(()));
                if !ok || 120u32.try_to_nominal(&c).map_or(true, |l| *l != *want) {
                    INNER_BAD.with(|b| b.set(Some((si, n))));
                }
            }
            INNER_RUNS.with(|r| r.set(r.get() + 1));
        }
        DEPTH.with(|x| x.set(d));
        if BOOM.with(Cell::get) && d == 0 {
            panic!("the symbol collection panics");
        }
    }
}

/// A user-supplied collection whose every method formats something else.
struct Nosy<F = NoFallback>(Virt<F>);
impl<F: DigitCollection + Default> DigitCollection for Nosy<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        reenter();
        self.0.fixed()
    }
    fn has_zero_digit(&self) -> bool {
        reenter();
        self.0.has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        reenter();
        self.0.zero_based()
    }
    fn len(&self) -> usize {
        reenter();
        self.0.len()
    }
    fn digit(&self, i: usize) -> char {
        reenter();
        self.0.digit(i)
    }
}

fn cjk(n: u128, o: &mut String) {
    push_decimal(n, &chars("〇一二三四五六七八九"), o);
}

fn reentrant() -> Space {
    let outer = 6 * 4u128;
    let n = systems().len() as u128 * outer;
    Space::new("every system re-entered from a symbol collection", vec![Dom::Range(0, n)], move |case, cx| {
        let si = (case / outer) as usize;
        let inner = &systems()[si];
        let o = case % outer;
        let value = [0u128, 5, 42, 123_456][(o % 4) as usize];
        let shape = o / 4;
        for k in [0, 7, 42, 10_203] {
            if k > inner.limit {
                continue;
            }
            let run = |cx: &mut Cx| -> Result<(), String> {
                let list = |len, zero, one, fixed, fb| ListModel { len, symbols: None, zero, one_based: one, fixed, fallback: fb };
                match shape {
                    0 => list(10, true, false, false, None).check(&Nosy::<NoFallback>(Virt::new(10, true, true, false)), "a positional collection that re-enters", value, cx),
                    1 => list(26, false, false, false, None).check(&Nosy::<NoFallback>(Virt::new(26, false, true, false)), "an alphabetic collection that re-enters", value, cx),
                    2 => list(26, false, true, false, None).check(&Nosy::<NoFallback>(Virt::new(26, false, false, false)), "a one-based collection that re-enters", value, cx),
                    3 => list(6, false, true, true, Some(cjk)).check(&Nosy::<CjkDecimal>(Virt::new(6, false, false, true)), "a fixed collection with fallback that re-enters", value, cx),
                    4 => list(20, true, false, false, None).check(&Chain::new(Restrict::new(10, Nosy::<NoFallback>(Virt::new(20, true, true, false))), Tail), "a chain that re-enters", value, cx),
                    _ => list(6, false, true, true, None).check(&Nosy::<NoFallback>(Virt::new(6, false, false, true)), "a fixed collection that re-enters", value, cx),
                }
            };
            for boom in [false, true] {
                INNER.with(|i| i.set(Some((si, k))));
                INNER_BAD.with(|i| i.set(None));
                DEPTH.with(|d| d.set(0));
                BOOM.with(|b| b.set(boom));
                let r = if boom {
                    // The callback aborts the outer call by panicking.
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let c = Nosy::<NoFallback>(Virt::new(10, true, true, false));
                        let _ = 77u32.try_to_nominal(&c);
                    }));
                    Ok(())
                } else {
                    run(cx)
                };
                INNER.with(|i| i.set(None));
                BOOM.with(|b| b.set(false));
                r.map_err(|e| format!("while {} of {k} is formatted inside it: {e}", inner.name))?;
                if let Some((_, n)) = INNER_BAD.with(Cell::get) {
                    return Err(format!("{} of {n}, formatted inside a symbol collection, is wrong", inner.name));
                }
                cx.transitions += INNER_RUNS.with(|r| r.replace(0));
                cx.extra_states += 1;
                // And everything is as before afterwards.
                call(inner, W128, k, cx).map_err(|e| format!("after a re-entrant call{}: {e}", if boom { " that panicked" } else { "" }))?;
                call(&systems()[0], W128, value, cx)?;
                run(cx).map_err(|e| format!("after a re-entrant call: {e}"))?;
            }
        }
        if cx.trace {
            cx.note = format!("{} inside outer shape {shape} of {value}: both right", inner.name);
        }
        Ok(())
    })
    .chunk(8)
}

/// The second half of the 20 digits of the chain.
struct Tail;
impl DigitCollection for Tail {
    type Fallback = NoFallback;
    fn fixed(&self) -> bool {
        false
    }
    fn has_zero_digit(&self) -> bool {
        true
    }
    fn zero_based(&self) -> bool {
        true
    }
    fn len(&self) -> usize {
        10
    }
    fn digit(&self, i: usize) -> char {
        custom::virt_digit(i + 10)
    }
}

// ---------------------------------------------------------------- schedules

/// One call of a system instance shared by both threads.
pub struct Shared {
    name: String,
    call: Box<dyn Fn(u128) -> Raw + Send + Sync>,
    expect: Box<dyn Fn(u128, &mut String) -> Result<(), ModelErr> + Send + Sync>,
    /// Two values with inline labels, and one more for later calls.
    values: [u128; 3],
}

fn shared_systems() -> &'static [Shared] {
    static S: OnceLock<Vec<Shared>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Shared> = vec![];
        for (i, s) in all_systems().into_iter().enumerate() {
            let values = match s.kind {
                Kind::Fixed => [3, 9, 1],
                Kind::Hebrew => [16, 123, 7],
                Kind::Chinese => [120, 10_203, 15],
                Kind::Alpha => [57, 703, 5],
                _ => [42, 1903, 7],
            };
            v.push(Shared {
                name: s.name.clone(),
                call: Box::new(move |n| (systems()[i].tryf[W128])(n)),
                expect: Box::new(move |n, o| systems()[i].model.render(n, o)),
                values,
            });
        }
        // Instances that are one object for both threads.
        fn add<S: NominalSystem<u128> + NominalSystem<u32> + Sync + Send + 'static>(v: &mut Vec<Shared>, name: &str, s: S, values: [u128; 3], like: Option<&'static str>, list: Option<Vec<(&'static str, u128)>>) {
            let expect: Box<dyn Fn(u128, &mut String) -> Result<(), ModelErr> + Send + Sync> = match (like, list) {
                (Some(l), _) => {
                    let i = systems().iter().position(|x| x.name == l).unwrap();
                    Box::new(move |n, o| systems()[i].model.render(n, o))
                }
                (_, Some(t)) => Box::new(move |n, o| {
                    let mut rest = n;
                    for (s, x) in &t {
                        while rest >= *x {
                            o.push_str(s);
                            rest -= x;
                        }
                    }
                    Ok(())
                }),
                _ => unreachable!(),
            };
            v.push(Shared { name: name.into(), call: Box::new(move |n| if n % 2 == 0 { raw((n as u32).try_to_nominal(&s)) } else { raw(n.try_to_nominal(&s)) }), expect, values });
        }
        let t = [("X", 10), ("V", 5), ("I", 1)];
        add(&mut v, "one shared AdditiveSet", AdditiveSet::<3>::new(t), [27, 38, 4], None, Some(t.to_vec()));
        add(&mut v, "one shared OneBased(LetterUpper)", LetterUpper.one_based(), [57, 704, 5], Some("LetterUpper.one_based"), None);
        add(&mut v, "one shared SimplifiedChineseInformal", SimplifiedChineseInformal::default(), [120, 10_203, 15], Some("SimplifiedChineseInformal"), None);
        add(&mut v, "one shared TraditionalChineseFormal, mid scale, financial", TraditionalChineseFormal::default().mid_scale().financial(), [120, 10_203, 15], Some("TraditionalChineseFormal.mid.financial"), None);
        add(&mut v, "one boxed Decimal", { let b: Box<dyn Both + Send + Sync> = Box::new(Decimal); Bx(b) }, [42, 1903, 7], Some("Decimal"), None);
        v
    })
}

trait Both: NominalSystem<u128> + NominalSystem<u32> {}
impl<S: NominalSystem<u128> + NominalSystem<u32>> Both for S {}
struct Bx(Box<dyn Both + Send + Sync>);
impl NominalSystem<u128> for Bx {
    fn try_format_nominal(&self, n: u128) -> Result<NominalString, Error<u128>> {
        NominalSystem::<u128>::try_format_nominal(&*self.0, n)
    }
}
impl NominalSystem<u32> for Bx {
    fn try_format_nominal(&self, n: u32) -> Result<NominalString, Error<u32>> {
        NominalSystem::<u32>::try_format_nominal(&*self.0, n)
    }
}

pub fn right(s: &Shared, n: u128, r: &Raw) -> bool {
    let mut want = String::new();
    let m = (s.expect)(n, &mut want);
    same(r, m, &want, n)
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod step;
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
pub mod access;

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
fn schedules(t: Tier) -> Vec<Space> {
    let n = shared_systems().len() as u128;
    let all = shared_systems();
    // Each system against itself, with the two values both ways round, and
    // against its neighbours in the list (relatives share code and tables).
    let offsets: &'static [u128] = if t == Tier::Quick { &[0, 1] } else { &[0, 1, 2, 5, 17, 40] };
    let k = offsets.len() as u128;
    let mut v = vec![Space::new("one preemption at every instruction", vec![Dom::Range(0, n * k)], move |case, cx| {
        let (i, o) = (case / k, offsets[(case % k) as usize]);
        let (a, b) = (&all[i as usize], &all[((i + o) % n) as usize]);
        step::single(a, a.values[0], b, b.values[1], cx)
    })
    .chunk(1)];
    // Both calls interrupted once, at every pair of instructions.
    let few: Vec<usize> = all.iter().enumerate().filter(|(_, s)| match t {
        Tier::Quick => false,
        Tier::Thorough => matches!(s.name.as_str(), "Decimal" | "LetterLower" | "RomanUpper" | "Georgian" | "CircledNumber" | "one shared AdditiveSet"),
    }).map(|(i, _)| i).collect();
    if !few.is_empty() {
        v.push(Space::new("both calls interrupted, at every pair of instructions", vec![Dom::Range(0, few.len() as u128 * step::PARTS)], move |case, cx| {
            let s = &all[few[(case / step::PARTS) as usize]];
            step::double(s, s.values[2], s, s.values[2] + 1, (case % step::PARTS) as u64, cx)
        })
        .chunk(1));
    }
    v
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
fn schedules(_: Tier) -> Vec<Space> {
    vec![]
}

pub fn plan(t: Tier) -> Plan {
    // The schedules go first: a copy of a small process is made faster.
    // The build without debug assertions has the sequences only.
    let mut spaces = if cfg!(debug_assertions) { schedules(t) } else { vec![] };
    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    if cfg!(debug_assertions) {
        spaces.extend(access::spaces(t));
    }
    spaces.extend([first_calls(), own_triples(), own_pairs(t), repeated(t), pair_sequences(if t == Tier::Quick { 4 } else { 6 }), reentrant()]);
    Plan {
        spaces,
        rule: "Sequences: a state is one history of calls; a transition is the next call, whose result on the real code must be the model's. Shared accesses: a process write-protects everything that outlives a call (the program's statics and the shared system objects) and notes every write of millions of calls; calls without such writes commute with all others, so one schedule stands for every interleaving (partial-order reduction); for the rest every order of their accesses to the words written is executed in two threads, up to a number of preemptions. Schedules: a state is one interleaving of two calls on two threads; a transition is one context switch. The first thread is single-stepped with the processor's trap flag; at each machine instruction boundary the process is forked, in the copy the second thread runs its call (to the end, or up to each of its own instructions), then the first finishes; both results and two further calls must be the model's.".into(),
        bounds: "All sequences of 4 (6) calls over a four-call alphabet for every ordered pair of the 91 systems; all triples of up to 40 calls (values colliding modulo 2^8, 2^16, 2^32, 2^64, three integer types) within each system; all ordered pairs of about 200 to 300 (thorough 700) numbers with special digits within each system, and every number below 2^12 (2^16) and structured numeral twice in every integer type; the writes of every call of 91 systems and 8 shared objects on the values of C14's kind, with 2 (4) preemptions where two calls touch the same words; every one of 455 first calls of a fresh process; every system re-entered from every method of 6 kinds of symbol collection, two levels deep, also when the collection panics; one preemption at every instruction for every system against itself and the next (thorough: five other) systems; thorough: both interrupted at every pair of instructions for six systems.".into(),
        assumptions: vec![
            "Schedules are sequentially consistent interleavings at instruction granularity of the code as compiled here (x86-64), with at most one preemption per call where accesses are not tracked.".into(),
            "Partial-order reduction takes memory that is neither the program's static data nor a shared system object to be private to a call, unless a pointer to it is stored in one of these.".into(),
            "A second call that waits for the first (a lock) is allowed to wait; then the first is resumed.".into(),
        ],
    }
}
