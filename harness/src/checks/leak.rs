//! C24: whatever a history of calls took from the heap has been given back
//! when its last label is gone.

use super::*;
use nominals::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Explores the cases of another property's space for what they leave behind.
/// What they find themselves is for that property to report.
fn watched(s: Space) -> Space {
    let Space { name, doms, chunk, f } = s;
    let what = name.clone();
    Space::new(name, doms, move |n, cx| {
        let grown = |cx: &mut Cx| {
            let before = balance();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(f(n, cx))));
            let after = balance();
            (after.0 - before.0, after.1 - before.1)
        };
        let mut all = vec![];
        // Scratch, caches and lazily made tables take memory once; a leak takes
        // some every time.
        for _ in 0..6 {
            let g = grown(cx);
            if g.0 <= 0 && g.1 <= 0 {
                return Ok(());
            }
            all.push(g);
        }
        Err(format!("{what}, case {n}: six repetitions left (blocks, bytes) {all:?} behind"))
    })
    .chunk(chunk)
}

/// A collection whose user code panics at one of its digits.
#[derive(Clone, Copy)]
struct Explosive {
    base: usize,
    at: usize,
    zero: bool,
}
impl DigitCollection for Explosive {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn len(&self) -> usize {
        self.base
    }
    fn digit(&self, index: usize) -> char {
        assert!(index != self.at, "a user's panic");
        ['é', '😀', 'x'][index % 3]
    }
}

fn values(t: Tier) -> Vec<Space> {
    let mut spaces = vec![];
    for s in all_systems() {
        let d = dom::depth(t, (12, 0), (18, 1));
        let mut doms = dom::values(&s, d);
        if cross::linear(s.kind) {
            // Labels of up to about 1000 symbols.
            let hi = (s.limit / 2).max(1);
            doms.push(Dom::List(Arc::new((0..hi).step_by((hi / 3000).max(1) as usize).collect::<Vec<u128>>())));
        }
        let name = s.name.clone();
        spaces.push(Space::new(name, doms, move |n, cx| {
            for w in 0..6 {
                if n <= MAXES[w] {
                    let l = (s.inf[w])(n);
                    let r = (s.tryf[w])(n);
                    cx.calls += 2;
                    cx.transitions += 1;
                    // Every way a label ends.
                    match n % 4 {
                        0 => drop(String::from(l)),
                        1 => drop(l.try_into_string()),
                        2 => {
                            let mut c = l.clone();
                            if let Ok(r) = &r {
                                c.clone_from(r);
                            }
                            c.clone_from(&l);
                        }
                        _ => drop(l),
                    }
                    drop(r);
                }
            }
            Ok(())
        }));
    }
    spaces
}

fn panics() -> Space {
    let mut all = vec![];
    for zero in [false, true] {
        for base in [1usize, 2, 3, 7, 10, 300] {
            for at in [0, 1, 2, 6, 9, 254] {
                if at < base && !(zero && base == 1) {
                    all.push(Explosive { base, at, zero });
                }
            }
        }
    }
    Space::new("collections that panic", vec![Dom::Range(0, all.len() as u128)], move |n, cx| {
        let c = all[n as usize];
        for k in 0..128u32 {
            for v in [u128::MAX >> k, 1 << k, 3 << k.min(126), (1 << k) - 1] {
                if c.base == 1 && v > 2000 {
                    continue;
                }
                cx.calls += 2;
                cx.transitions += 2;
                let _ = catch_unwind(AssertUnwindSafe(|| drop(v.try_to_nominal(&c))));
                let _ = catch_unwind(AssertUnwindSafe(|| drop(v.to_nominal(&c))));
            }
        }
        Ok(())
    })
    .chunk(1)
}

pub fn plan(t: Tier) -> Plan {
    let mut spaces = values(t);
    spaces.extend(strings::plan(t).spaces);
    spaces.extend(cross::plan_paths(t).spaces);
    spaces.extend(custom::plan_total(t).spaces);
    spaces.extend(custom::plan_compose(t).spaces);
    spaces.extend(value::c06(t).spaces);
    spaces.push(panics());
    Plan {
        spaces: spaces.into_iter().map(watched).collect(),
        rule: "A state is a system and a value, or a history of string operations, or a call path; a transition is one call. Each is run on the real code under an allocator that keeps the balance of blocks and bytes per thread; when all of its labels are gone the balance must be what it was, or stop growing when the same case is repeated.".into(),
        bounds: "Every built-in system in every integer type (values below 2^12, thorough 2^18, boundaries and deviation-bounded numerals, labels of up to about 1000 symbols), dropped, converted, cloned and overwritten; all string histories of C01; all wrapper stacks of C19; all user-made collections and sets of C06, C12 and C21; collections of 1 to 300 digits that panic at one of them.".into(),
        assumptions: vec!["Allocations are observed through the Rust global allocator.".into()],
    }
}
