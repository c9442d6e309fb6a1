//! The explored values: contiguous ranges and enumerated digit strings.

use crate::engine::{Dom, Tier};
use crate::systems::{Kind, Sys, MAXES};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// Every numeral of at most `maxlen` digits in `base` that differs from a
/// constant background digit in at most `k` positions.
fn deviations(base: u128, maxlen: usize, k: usize, bgs: &[u128], devs: &[u128], bijective: bool, out: &mut Vec<u128>) {
    fn fold(d: &[u128], base: u128) -> Option<u128> {
        let mut v = 0u128;
        for &x in d {
            v = v.checked_mul(base)?.checked_add(x)?;
        }
        Some(v)
    }
    fn rec(d: &mut Vec<u128>, from: usize, k: usize, devs: &[u128], base: u128, bijective: bool, out: &mut Vec<u128>) {
        if bijective || d[0] != 0 {
            if let Some(v) = fold(d, base) {
                out.push(v);
                if bijective {
                    out.push(v - 1);
                }
            }
        }
        if k == 0 {
            return;
        }
        for p in from..d.len() {
            let old = d[p];
            for &x in devs {
                if x != old {
                    d[p] = x;
                    rec(d, p + 1, k - 1, devs, base, bijective, out);
                }
            }
            d[p] = old;
        }
    }
    for len in 1..=maxlen {
        for &bg in bgs {
            let mut d = vec![bg; len];
            rec(&mut d, 0, k, devs, base, bijective, out);
        }
    }
}

pub fn maxlen(base: u128) -> usize {
    let mut n = u128::MAX;
    let mut l = 0;
    while n > 0 {
        n /= base;
        l += 1;
    }
    l
}

fn finish(mut v: Vec<u128>) -> Arc<Vec<u128>> {
    v.sort_unstable();
    v.dedup();
    v.shrink_to_fit();
    Arc::new(v)
}

fn memo(key: (u32, u128, u32), f: impl FnOnce() -> Vec<u128>) -> Arc<Vec<u128>> {
    static M: OnceLock<Mutex<HashMap<(u32, u128, u32), Arc<Vec<u128>>>>> = OnceLock::new();
    let m = M.get_or_init(Default::default);
    if let Some(v) = m.lock().unwrap().get(&key) {
        return v.clone();
    }
    let v = finish(f());
    m.lock().unwrap().insert(key, v.clone());
    v
}

fn spread(base: u128) -> Vec<u128> {
    // A reduced alphabet: both ends and the middle.
    let mut v = vec![0, 1, 2, base / 2, base - 2, base - 1];
    v.retain(|&x| x < base);
    v.sort_unstable();
    v.dedup();
    v
}

/// Positional numerals in `base`. Level 0: one deviation from any background.
/// Level 1: two deviations over {0,1,mid,max}. Level 2: three.
pub fn numerals(base: u128, level: u32) -> Arc<Vec<u128>> {
    memo((0, base, level), || {
        let mut out = vec![];
        let all: Vec<u128> = (0..base).collect();
        let l = maxlen(base);
        let bg = if base <= 10 { all.clone() } else { spread(base) };
        deviations(base, l, 1, &bg, &all, false, &mut out);
        let few = [0, 1, base / 2, base - 1];
        if level >= 1 {
            deviations(base, l, 2, &[0, 1, base - 1], &few, false, &mut out);
        }
        if level >= 2 {
            deviations(base, l, 2, &bg, if base <= 10 { &all } else { &bg }, false, &mut out);
            deviations(base, l, 3, &[0, 1, base - 1], &[0, 1, base - 1], false, &mut out);
        }
        out
    })
}

/// Words over an alphabet of `base` letters (as value and value - 1).
pub fn words(base: u128, level: u32) -> Arc<Vec<u128>> {
    memo((1, base, level), || {
        let mut out = vec![];
        let all: Vec<u128> = (1..=base).collect();
        let l = maxlen(base) + 1;
        let few: Vec<u128> = vec![1, 2, base - 1, base];
        deviations(base, l, 1, &few, &all, true, &mut out);
        if level >= 1 {
            deviations(base, l, 2, &[1, base], &few, true, &mut out);
        }
        if level >= 2 {
            deviations(base, l, 2, &few, &all, true, &mut out);
            deviations(base, l, 3, &[1, base], &few, true, &mut out);
        }
        out
    })
}

/// Every decimal window of `w` digits over 0..`digits` at every shift, alone
/// and (`ones`) below a leading one.
pub fn windows(w: u32, digits: u128, lead: bool) -> Arc<Vec<u128>> {
    memo((2 + u32::from(lead), digits, w), || {
        let mut base = vec![0u128];
        for _ in 0..w {
            let mut next = vec![];
            for &x in &base {
                for d in 0..digits {
                    next.push(x * 10 + d);
                }
            }
            base = next;
        }
        let mut out = vec![];
        for s in 0..39u32 {
            let p = 10u128.pow(s);
            for &x in &base {
                if let Some(v) = x.checked_mul(p) {
                    out.push(v);
                }
            }
        }
        if lead {
            let mut more = vec![];
            for e in [14u32, 16, 20, 24, 28, 32, 36, 38] {
                for &x in &out {
                    if x < 10u128.pow(e) {
                        more.push(x + 10u128.pow(e));
                    }
                }
            }
            out.extend(more);
        }
        out
    })
}

/// Every way to fill `k` of the ten four-digit groups with a zero/one shape,
/// the others being empty or full.
pub fn groups(k: usize) -> Arc<Vec<u128>> {
    memo((4, k as u128, 0), || {
        let shapes: Vec<u128> = (0..16u128).map(|m| (0..4).map(|b| (m >> b & 1) * 10u128.pow(b as u32)).sum()).collect();
        fn rec(g: &mut [u128; 10], from: usize, k: usize, shapes: &[u128], out: &mut Vec<u128>) {
            let mut v = Some(0u128);
            for x in g.iter().rev() {
                v = v.and_then(|v| v.checked_mul(10_000)).and_then(|v| v.checked_add(*x));
            }
            if let Some(v) = v {
                out.push(v);
            }
            if k == 0 {
                return;
            }
            for p in from..10 {
                let old = g[p];
                for &s in shapes {
                    g[p] = s;
                    rec(g, p + 1, k - 1, shapes, out);
                }
                g[p] = old;
            }
        }
        let mut out = vec![];
        for bg in [0u128, 1111, 2020] {
            for top in 0..=10 {
                let mut g = [0u128; 10];
                for x in g.iter_mut().take(top) {
                    *x = bg;
                }
                rec(&mut g, 0, k, &shapes, &mut out);
                if bg == 0 {
                    break;
                }
            }
        }
        out
    })
}

/// Boundaries: powers of two and ten and their multiples, type limits, and
/// values that alias small ones when truncated to a narrower type.
pub fn boundaries(base: u128) -> Arc<Vec<u128>> {
    memo((5, base, 0), || {
        let mut out = vec![];
        let mut around = |v: u128, r: u128| {
            for d in 0..=r {
                out.extend(v.checked_add(d));
                out.extend(v.checked_sub(d));
            }
        };
        for e in 0..128 {
            around(1 << e, 3);
            around((1u128 << e).saturating_mul(3), 1);
        }
        for b in [10u128, base] {
            let mut p = 1u128;
            loop {
                for m in 1..b.min(50) {
                    if let Some(v) = p.checked_mul(m) {
                        around(v, 2);
                    }
                }
                match p.checked_mul(b) {
                    Some(x) => p = x,
                    None => break,
                }
            }
        }
        // Starts of the word lengths of an alphabet of this size.
        let mut start = 0u128;
        let mut block = base;
        loop {
            around(start, 3);
            let (Some(s), Some(n)) = (start.checked_add(block), block.checked_mul(base)) else { break };
            start = s;
            block = n;
        }
        for m in [8u32, 16, 32, 64] {
            let p = 1u128 << m;
            for mul in [1u128, 2, 3, 255] {
                for j in 0..300 {
                    out.push(p * mul + j);
                }
            }
        }
        for m in MAXES {
            for d in 0..600 {
                out.extend(m.checked_sub(d));
            }
        }
        out
    })
}

/// Values past the 32-bit limit for systems whose labels grow with the value:
/// labels of up to 21 MB, hence only the limits themselves and aliases.
pub fn long_values(k: Kind) -> Dom {
    let mut v = vec![];
    for p in [1u128 << 31, 1 << 32] {
        v.extend([p - 2, p - 1, p, p + 1, p + 4, p + 15]);
    }
    v.extend([(1 << 32) + 416, (1 << 32) + 999_994, 3 << 31, 1 << 33]);
    if k == Kind::Roman {
        v.extend([4_999_999_999, 9_999_999_999, 10_000_000_000, 10_000_000_001, 1 << 36, 123_456_789_012, (1 << 40) - 1, 1 << 40, (1 << 40) + 4]);
    }
    Dom::List(finish(v))
}

fn within(l: &Arc<Vec<u128>>, lo: u128, hi: u128) -> Dom {
    let a = l.partition_point(|&x| x < lo);
    let b = l.partition_point(|&x| x <= hi);
    if a == 0 && b == l.len() {
        Dom::List(l.clone())
    } else {
        Dom::List(Arc::new(l[a..b].to_vec()))
    }
}

/// Range `0..2^bits` plus the lists, all within `limit`.
pub fn compose(bits: u32, lists: &[Arc<Vec<u128>>], limit: u128) -> Vec<Dom> {
    let top = (1u128 << bits).min(limit.saturating_add(1));
    let mut v = vec![Dom::Range(0, top)];
    // One merged list, so that no value is counted twice.
    let mut m: Vec<u128> = Vec::new();
    if lists.len() == 1 {
        v.push(within(&lists[0], top, limit));
        return v;
    }
    for l in lists {
        let a = l.partition_point(|&x| x < top);
        let b = l.partition_point(|&x| x <= limit);
        if a < b {
            m.extend_from_slice(&l[a..b]);
        }
    }
    v.push(Dom::List(finish(m)));
    v
}

/// How deep a check goes for one system.
#[derive(Clone, Copy)]
pub struct Depth {
    pub bits: u32,
    pub level: u32,
}

pub fn values(s: &Sys, d: Depth) -> Vec<Dom> {
    let mut lists = vec![boundaries(s.base)];
    match s.kind {
        Kind::Positional => lists.push(numerals(s.base, d.level)),
        Kind::Alpha => lists.push(words(s.base, d.level)),
        Kind::Chinese => {
            lists.push(numerals(10, if d.level == 3 { 1 } else { d.level }));
            if d.level >= 1 {
                lists.push(groups(2));
                lists.push(windows(12, 2, false));
            }
            // Level 3 lies between 1 and 2.
            if d.level >= 2 {
                lists.push(groups(3));
            }
            if d.level == 2 {
                lists.push(windows(18, 2, true));
                lists.push(windows(11, 3, true));
            }
        }
        Kind::Ethiopic => {
            lists.push(numerals(10, if d.level == 3 { 1 } else { d.level }));
            lists.push(numerals(100, d.level.min(1)));
            if d.level >= 1 {
                lists.push(windows(if d.level == 3 { 15 } else { 12 }, 2, d.level == 3));
            }
            if d.level == 2 {
                lists.push(windows(18, 2, true));
                lists.push(windows(11, 3, true));
            }
        }
        Kind::Fixed => lists.push(numerals(10, d.level)),
        Kind::Additive | Kind::Roman | Kind::Hebrew => lists.push(numerals(10, d.level.min(1))),
    }
    compose(d.bits, &lists, s.limit)
}

pub fn depth(t: Tier, quick: (u32, u32), thorough: (u32, u32)) -> Depth {
    let (bits, level) = if t == Tier::Quick { quick } else { thorough };
    Depth { bits, level }
}
