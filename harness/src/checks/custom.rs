//! User-supplied sets: enumerated, fixed, additive and composed collections.

use super::value::{same, short, show, show_model};
use super::*;
use nominals::{
    AdditiveSet, Chain, CjkDecimal, CjkEarthlyBranch, CjkHeavenlyStem, Decimal, DigitCollection, DigitSet,
    EnumeratedSet, HexUpper, LetterLower, LetterUpper, NoFallback, Nominal, NominalString, NominalSystem, OneBased, Restrict,
};
use std::sync::OnceLock;

pub mod large;

/// A system usable with every integer type.
pub trait All6:
    NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize> + Sized
{
}
impl<S> All6 for S where
    S: NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize>
{
}

pub fn try_w<S: All6>(s: &S, w: usize, n: u128) -> Raw {
    match w {
        0 => raw((n as u8).try_to_nominal(s)),
        1 => raw((n as u16).try_to_nominal(s)),
        2 => raw((n as u32).try_to_nominal(s)),
        3 => raw((n as u64).try_to_nominal(s)),
        4 => raw(n.try_to_nominal(s)),
        _ => raw((n as usize).try_to_nominal(s)),
    }
}

pub fn inf_w<S: All6>(s: &S, w: usize, n: u128) -> NominalString {
    match w {
        0 => (n as u8).to_nominal(s),
        1 => (n as u16).to_nominal(s),
        2 => (n as u32).to_nominal(s),
        3 => (n as u64).to_nominal(s),
        4 => n.to_nominal(s),
        _ => (n as usize).to_nominal(s),
    }
}

/// Compares one value of a system with the expectation in every width.
pub fn check<S: All6>(s: &S, name: &str, n: u128, m: Result<(), ModelErr>, buf: &str, calls: &mut u64) -> Result<(), String> {
    for w in 0..6 {
        if n <= MAXES[w] {
            let r = try_w(s, w, n);
            *calls += 1;
            if !same(&r, m, buf, n) {
                return Err(format!("{name}: {n} as {}: got {}, expected {}", WIDTHS[w], show(&r), show_model(m, buf, n)));
            }
        }
    }
    Ok(())
}

fn space_of<S: All6 + Send + Sync + 'static>(
    name: String,
    s: S,
    doms: Vec<Dom>,
    expect: impl Fn(u128, &mut String) -> Result<(), ModelErr> + Send + Sync + 'static,
) -> Space {
    let nm = name.clone();
    Space::new(name, doms, move |n, cx| {
        cx.buf.clear();
        let m = expect(n, &mut cx.buf);
        check(&s, &nm, n, m, &cx.buf, &mut cx.calls)?;
        cx.tag(if m.is_ok() { "custom label" } else { "custom error" });
        cx.label.clear();
        cx.label.push_str(&cx.buf);
        if cx.prev.is_some() {
            cx.transitions += 1;
        }
        if cx.trace {
            cx.note = format!("{nm} {n} -> {}", show_model(m, &cx.buf, n));
        }
        Ok(())
    })
}

pub fn value_doms() -> Vec<Dom> {
    dom::compose(10, &[dom::boundaries(10), dom::numerals(10, 0)], u128::MAX)
}

fn pool(i: usize) -> &'static str {
    static P: OnceLock<Vec<&'static str>> = OnceLock::new();
    P.get_or_init(|| {
        (0..512)
            .map(|i| {
                let s = match i % 7 {
                    0 => format!("({i})"),
                    1 => format!("⟨{i}⟩"),
                    2 => char::from_u32(0x4E00 + i as u32).unwrap().to_string(),
                    3 => "x".repeat(60 + i % 9) + &i.to_string(),
                    4 => char::from_u32(0x1F300 + i as u32).unwrap().to_string(),
                    _ => format!("s{i}"),
                };
                &*Box::leak(s.into_boxed_str())
            })
            .collect()
    })[i]
}

#[allow(unused_comparisons)]
pub fn enumerated(_t: Tier) -> Vec<Space> {
    let mut v = vec![];
    macro_rules! sizes {
        ($($n:expr),*) => {$(
            v.push(space_of(format!("EnumeratedSet<{}, zero>", $n), EnumeratedSet::<$n, true>::new(std::array::from_fn(pool)), value_doms(), |n, o| {
                if n < $n { o.push_str(pool(n as usize)); Ok(()) } else { Err(ModelErr::OutOfBounds) }
            }));
            v.push(space_of(format!("EnumeratedSet<{}, zeroless>", $n), EnumeratedSet::<$n, false>::zeroless(std::array::from_fn(pool)), value_doms(), |n, o| {
                if n == 0 { return Err(ModelErr::NoZero) }
                if n <= $n { o.push_str(pool(n as usize - 1)); Ok(()) } else { Err(ModelErr::OutOfBounds) }
            }));
        )*};
    }
    sizes!(0, 1, 2, 3, 5, 10, 100, 254, 255, 256, 257, 300, 511);
    v.extend(large::enumerated());
    v
}

// ---------------------------------------------------------------- collections

/// A virtual digit collection of any length with all flags free.
pub struct Virt<F = NoFallback> {
    pub len: usize,
    pub zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
    _f: std::marker::PhantomData<fn() -> F>,
}

pub fn virt_digit(i: usize) -> char {
    // 900,000 distinct characters, then repeating.
    char::from_u32(0x20000 + (i % 900_000) as u32).unwrap()
}

impl<F> Virt<F> {
    pub fn new(len: usize, zero: bool, zero_based: bool, fixed: bool) -> Self {
        Virt { len, zero, zero_based, fixed, _f: std::marker::PhantomData }
    }
}

impl<F: DigitCollection + Default> DigitCollection for Virt<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        self.fixed
    }
    fn has_zero_digit(&self) -> bool {
        self.zero
    }
    fn zero_based(&self) -> bool {
        self.zero_based
    }
    fn len(&self) -> usize {
        self.len
    }
    fn digit(&self, index: usize) -> char {
        assert!(index < self.len, "digit {index} of a collection of {} digits was asked for", self.len);
        virt_digit(index)
    }
}

/// The list a collection stands for.
pub struct ListModel {
    pub len: u128,
    pub symbols: Option<Vec<char>>,
    pub zero: bool,
    pub one_based: bool,
    pub fixed: bool,
    pub fallback: Option<fn(u128, &mut String)>,
}

impl ListModel {
    fn sym(&self, i: u128) -> char {
        match &self.symbols {
            Some(s) => s[i as usize],
            None => virt_digit(i as usize),
        }
    }

    /// Expected result; `None` when two documented errors are both acceptable.
    pub fn render(&self, n: u128, out: &mut String) -> Option<Result<(), ModelErr>> {
        let one = self.one_based && !self.zero;
        if self.fixed && self.len > 0 {
            let Some(i) = n.checked_sub(u128::from(one)) else { return Some(Err(ModelErr::NoZero)) };
            return Some(if i < self.len {
                out.push(self.sym(i));
                Ok(())
            } else if let Some(f) = self.fallback {
                f(n, out);
                Ok(())
            } else {
                Err(ModelErr::OutOfBounds)
            });
        }
        if self.len == 0 {
            // Represents nothing. Zero may be refused for either reason, and
            // whether an empty fixed collection defers zero is unspecified.
            if n == 0 {
                return None;
            }
            if let (true, Some(f)) = (self.fixed, self.fallback) {
                f(n, out);
                return Some(Ok(()));
            }
            return Some(Err(ModelErr::OutOfBounds));
        }
        if self.zero {
            if self.len == 1 {
                if n == 0 {
                    out.push(self.sym(0));
                    return Some(Ok(()));
                }
                return Some(Err(ModelErr::OutOfBounds));
            }
            let mut digits = vec![];
            let mut x = n;
            loop {
                digits.push(x % self.len);
                x /= self.len;
                if x == 0 {
                    break;
                }
            }
            out.extend(digits.iter().rev().map(|&d| self.sym(d)));
            return Some(Ok(()));
        }
        let Some(i) = n.checked_sub(u128::from(one)) else { return Some(Err(ModelErr::NoZero)) };
        // Shortlex: skip whole blocks of equally long words.
        let (mut rest, mut len, mut block) = (i, 1u32, Some(self.len));
        if self.len == 1 {
            for _ in 0..=i {
                out.push(self.sym(0));
            }
            return Some(Ok(()));
        }
        while let Some(b) = block {
            if rest < b {
                break;
            }
            rest -= b;
            len += 1;
            block = b.checked_mul(self.len);
        }
        let mut p = self.len.pow(len - 1);
        for _ in 0..len {
            out.push(self.sym(rest / p));
            rest %= p;
            p = (p / self.len).max(1);
        }
        Some(Ok(()))
    }

    pub fn check<S: All6>(&self, s: &S, name: &str, n: u128, cx: &mut Cx) -> Result<(), String> {
        if self.len == 1 && !self.zero && !self.fixed && n > 1000 {
            return Ok(());
        }
        cx.buf.clear();
        let mut buf = std::mem::take(&mut cx.buf);
        let m = self.render(n, &mut buf);
        let r = match m {
            Some(m) => check(s, name, n, m, &buf, &mut cx.calls),
            None => (0..6).filter(|&w| n <= MAXES[w]).try_for_each(|w| {
                let r = try_w(s, w, n);
                cx.calls += 1;
                match r {
                    Err(E::NoZero) => Ok(()),
                    Err(E::Oob(v)) if v == n => Ok(()),
                    _ => Err(format!("{name}: {n} as {}: got {}, expected NoZeroSymbol or OutOfBounds", WIDTHS[w], show(&r))),
                }
            }),
        };
        cx.buf = buf;
        r
    }
}

pub fn cjk(n: u128, o: &mut String) {
    push_decimal(n, &chars("〇一二三四五六七八九"), o);
}
pub fn upper(n: u128, o: &mut String) {
    let _ = shortlex(n, &('A'..='Z').collect::<Vec<_>>(), o);
}

/// Values interesting for a list of `len` symbols, in every width.
pub fn list_values(len: u128, dense: u128) -> Vec<u128> {
    let mut v: Vec<u128> = (0..dense).collect();
    let mut around = |x: Option<u128>| {
        if let Some(x) = x {
            for d in 0..3 {
                v.extend(x.checked_add(d));
                v.extend(x.checked_sub(d));
            }
        }
    };
    for m in MAXES {
        around(Some(m));
        around(m.checked_add(len));
        around(m.checked_sub(len));
        around(m.checked_add(1));
    }
    let mut p = Some(1u128);
    let mut sum = Some(0u128);
    for _ in 0..40 {
        around(p);
        around(sum);
        sum = sum.zip(p).and_then(|(s, p)| s.checked_add(p));
        p = p.and_then(|p| p.checked_mul(len.max(2)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn fixed_collections(_t: Tier) -> Vec<Space> {
    let mut v = vec![];
    for len in [1usize, 2, 3, 10, 12, 100, 254, 255, 256, 257, 300, 65_535, 65_536, 65_537] {
        for zero in [true, false] {
            for zero_based in [true, false] {
                let m = |fb| ListModel { len: len as u128, symbols: None, zero, one_based: !zero_based, fixed: true, fallback: fb };
                let name = format!("fixed collection of {len}, zero digit {zero}, zero based {zero_based}");
                let mut add = |suffix: &str, doms: Vec<Dom>, f: Box<dyn Fn(u128, &mut Cx) -> Result<(), String> + Send + Sync>| {
                    v.push(Space::new(format!("{name}, {suffix}"), doms, f));
                };
                let doms = || vec![Dom::List(Arc::new({
                    let mut l = list_values(len as u128, 700);
                    l.extend(dom::boundaries(10).iter());
                    l.sort_unstable();
                    l.dedup();
                    l
                }))];
                let (m0, s0, n0) = (m(None), Virt::<NoFallback>::new(len, zero, zero_based, true), name.clone());
                add("no fallback", doms(), Box::new(move |n, cx| m0.check(&s0, &n0, n, cx)));
                let (m1, s1, n1) = (m(Some(cjk)), Virt::<CjkDecimal>::new(len, zero, zero_based, true), name.clone());
                add("falling back to CjkDecimal", doms(), Box::new(move |n, cx| m1.check(&s1, &n1, n, cx)));
                let (m2, s2, n2) = (m(Some(upper)), Virt::<LetterUpper>::new(len, zero, zero_based, true), name.clone());
                add("falling back to LetterUpper", doms(), Box::new(move |n, cx| m2.check(&s2, &n2, n, cx)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- additive

fn with_table<R>(t: &[(&'static str, u128)], f: impl FnOnce(&dyn Fn(usize, u128) -> Raw) -> R) -> R {
    fn go<const N: usize, R>(t: &[(&'static str, u128)], f: impl FnOnce(&dyn Fn(usize, u128) -> Raw) -> R) -> R {
        let a: [(&'static str, u128); N] = t.try_into().unwrap();
        let s = AdditiveSet::new(a);
        f(&|w, n| try_w(&s, w, n))
    }
    match t.len() {
        0 => go::<0, R>(t, f),
        1 => go::<1, R>(t, f),
        2 => go::<2, R>(t, f),
        3 => go::<3, R>(t, f),
        4 => go::<4, R>(t, f),
        5 => go::<5, R>(t, f),
        6 => go::<6, R>(t, f),
        7 => go::<7, R>(t, f),
        8 => go::<8, R>(t, f),
        9 => go::<9, R>(t, f),
        10 => go::<10, R>(t, f),
        11 => go::<11, R>(t, f),
        12 => go::<12, R>(t, f),
        13 => go::<13, R>(t, f),
        _ => unreachable!(),
    }
}

fn additive_expect(t: &[(&'static str, u128)], n: u128, out: &mut String) -> Result<(), ModelErr> {
    if n == 0 {
        return match t.last() {
            Some((z, 0)) => {
                out.push_str(z);
                Ok(())
            }
            _ => Err(ModelErr::NoZero),
        };
    }
    let mut rest = n;
    for &(s, v) in t {
        if v == 0 {
            continue;
        }
        if rest / v > 3000 {
            return Err(ModelErr::Huge);
        }
        for _ in 0..rest / v {
            out.push_str(s);
        }
        rest %= v;
    }
    if rest > 0 {
        Err(ModelErr::OutOfBounds)
    } else {
        Ok(())
    }
}

pub const SMALL: [&str; 14] = ["z", "a", "bb", "c", "dé", "e", "ff", "g", "八", "i", "jj", "k", "十二", "m"];

/// A table of entries at the limits of the integer types: every bit of `case`
/// decides about one entry, the last one about a zero symbol.
fn limit_table(case: u128) -> (Vec<(&'static str, u128)>, Vec<u128>) {
    const BIG: [(&str, u128); 11] = [
        ("A", u128::MAX), ("B", 1 << 127), ("C", 1 << 64), ("D", u64::MAX as u128), ("E", 1 << 32), ("F", u32::MAX as u128),
        ("G", 1 << 16), ("H", 65_535), ("I", 256), ("J", 255), ("K", 1),
    ];
    let mut table: Vec<(&'static str, u128)> = (0..11).filter(|i| case >> i & 1 == 1).map(|i| BIG[i]).collect();
    if case >> 11 & 1 == 1 {
        table.push(("Z", 0));
    }
    let mut values: Vec<u128> = (0..=300).collect();
    for (_, a) in BIG {
        for d in 0..=2 {
            values.extend(a.checked_add(d));
            values.extend(a.checked_sub(d));
        }
        for (_, b) in BIG {
            values.extend(a.checked_add(b));
            values.extend(a.checked_add(b).and_then(|x| x.checked_add(b)));
            values.extend(a.checked_sub(b));
        }
    }
    values.sort_unstable();
    values.dedup();
    (table, values)
}

#[cfg(feature = "alloc")]
/// C14: the same tables and values, compared between the integer types only.
pub fn limit_tables_in_every_type() -> Space {
    Space::new("all additive tables over type limits", vec![Dom::Range(0, 1 << 12)], |case, cx| {
        let (table, values) = limit_table(case);
        with_table(&table, |f| {
            for &n in values.iter().filter(|&&n| n <= u64::MAX as u128) {
                cx.buf.clear();
                if additive_expect(&table, n, &mut cx.buf) == Err(ModelErr::Huge) {
                    continue;
                }
                cx.extra_states += 1;
                let reference = f(W128, n);
                for w in [0, 1, 2, 3, 5] {
                    if n <= MAXES[w] {
                        let r = f(w, n);
                        cx.calls += 1;
                        cx.transitions += 1;
                        if !cross::eq(&reference, &r) {
                            return Err(format!("additive table {table:?}: {n} as u128 gives {}, as {} {}", show(&reference), WIDTHS[w], show(&r)));
                        }
                    }
                }
            }
            Ok(())
        })
    })
    .chunk(16)
}

pub fn additive(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    // Tables over {1..=top}: bit i-1 = value i present; one more bit: zero.
    let top: u32 = if t == Tier::Quick { 7 } else { 12 };
    v.push(Space::new(
        format!("all additive tables over 1..={top}, values 0..=300"),
        vec![Dom::Range(0, 1 << (top + 1))],
        move |case, cx| {
            let mut table: Vec<(&'static str, u128)> = vec![];
            for val in (1..=top).rev() {
                if case >> val & 1 == 1 {
                    table.push((SMALL[val as usize], u128::from(val)));
                }
            }
            if case & 1 == 1 {
                table.push((SMALL[0], 0));
            }
            with_table(&table, |f| {
                for n in 0..=300u128 {
                    cx.buf.clear();
                    let m = additive_expect(&table, n, &mut cx.buf);
                    for w in 0..6 {
                        if n <= MAXES[w] {
                            let r = f(w, n);
                            cx.calls += 1;
                            if !same(&r, m, &cx.buf, n) {
                                return Err(format!("additive table {table:?}: {n} as {}: got {}, expected {}", WIDTHS[w], show(&r), show_model(m, &cx.buf, n)));
                            }
                        }
                    }
                    cx.tag(match m {
                        Ok(()) => "custom label",
                        _ => "custom error",
                    });
                }
                cx.extra_states += 300;
                cx.transitions += 300;
                if cx.trace {
                    cx.note = format!("additive table {table:?}, values 0..=300: as the greedy decomposition");
                }
                Ok(())
            })
        },
    ).chunk(8));
    // Tables around the integer type limits, all subsets.
    v.push(Space::new("all additive tables over type limits", vec![Dom::Range(0, 1 << 12)], move |case, cx| {
        let (table, values) = limit_table(case);
        with_table(&table, |f| {
            for &n in &values {
                cx.buf.clear();
                let m = additive_expect(&table, n, &mut cx.buf);
                if m == Err(ModelErr::Huge) {
                    continue;
                }
                cx.extra_states += 1;
                cx.transitions += 1;
                for w in 0..6 {
                    if n <= MAXES[w] {
                        let r = f(w, n);
                        cx.calls += 1;
                        if !same(&r, m, &cx.buf, n) {
                            return Err(format!("additive table {table:?}: {n} as {}: got {}, expected {}", WIDTHS[w], show(&r), show_model(m, &cx.buf, n)));
                        }
                    }
                }
            }
            if cx.trace {
                cx.note = format!("additive table {table:?}, {} values around type limits", values.len());
            }
            Ok(())
        })
    }).chunk(16));
    // Construction: every table of up to 4 entries over 5 values.
    const CTOR: [u128; 5] = [0, 1, 2, 300, u128::MAX];
    v.push(Space::new("construction of every additive table of up to 5 entries", vec![Dom::Range(0, 6u128.pow(5))], |case, cx| {
        let mut digits = vec![];
        let mut c = case;
        while c > 0 {
            digits.push(c % 6);
            c /= 6;
        }
        if digits.contains(&0) {
            return Ok(()); // not a table: encodes one of another length
        }
        let table: Vec<(&'static str, u128)> = digits.iter().map(|&d| ("x", CTOR[d as usize - 1])).collect();
        let ok = table.windows(2).all(|p| p[0].1 > p[1].1);
        let built = std::panic::catch_unwind(|| with_table(&table, |_| ())).is_ok();
        cx.calls += 1;
        cx.tag(if ok { "table accepted" } else { "table refused" });
        if built != ok {
            return Err(format!("additive table {table:?}: {}", if built { "accepted although not strictly descending" } else { "refused although strictly descending" }));
        }
        Ok(())
    }));
    v.extend(large::tables());
    v
}

/// Tables whose symbols may be empty, composed of several marks, or long.
pub fn additive_symbols() -> Space {
    const KINDS: [&str; 4] = ["", "q", "e\u{301}\u{31e}", "a symbol that is longer than short labels"];
    const VALUES: [u128; 5] = [300, 10, 5, 2, 1];
    Space::new("additive tables with every kind of symbol", vec![Dom::Range(0, 5u128.pow(6))], move |case, cx| {
        let mut table: Vec<(&'static str, u128)> = vec![];
        let mut c = case as usize;
        for v in VALUES.into_iter().chain([0]) {
            if c % 5 > 0 {
                table.push((KINDS[c % 5 - 1], v));
            }
            c /= 5;
        }
        with_table(&table, |f| {
            for n in (0..=24u128).chain([255, 256, 299, 300, 301, 615]) {
                cx.buf.clear();
                let m = additive_expect(&table, n, &mut cx.buf);
                for w in 0..6 {
                    if n <= MAXES[w] {
                        let r = f(w, n);
                        cx.calls += 1;
                        if !same(&r, m, &cx.buf, n) {
                            return Err(format!("additive table {table:?}: {n} as {}: got {}, expected {}", WIDTHS[w], show(&r), show_model(m, &cx.buf, n)));
                        }
                    }
                }
                cx.extra_states += 1;
                cx.transitions += 1;
            }
            if cx.trace {
                cx.note = format!("additive table {table:?}: as the greedy decomposition");
            }
            Ok(())
        })
    })
    .chunk(64)
}

/// Enumerations in which any symbol may be empty.
pub fn enumerated_symbols() -> Space {
    const KINDS: [&str; 3] = ["", "q", "e\u{301}\u{31e}"];
    Space::new("enumerations with every kind of symbol", vec![Dom::Range(0, 81 * 2)], move |case, cx| {
        let (zero, mut c) = (case % 2 == 1, (case / 2) as usize);
        let symbols: [&'static str; 4] = std::array::from_fn(|_| {
            let k = KINDS[c % 3];
            c /= 3;
            k
        });
        let (a, b) = (EnumeratedSet::<4, true>::new(symbols), EnumeratedSet::<4, false>::zeroless(symbols));
        for n in (0..=9u128).chain([255, 256, 65_536, 1 << 32, 1 << 64, u128::MAX]) {
            let i = if zero { Some(n) } else { n.checked_sub(1) };
            let m = match i {
                None => Err(ModelErr::NoZero),
                Some(i) if i < 4 => Ok(()),
                _ => Err(ModelErr::OutOfBounds),
            };
            let want = if m.is_ok() { symbols[i.unwrap() as usize] } else { "" };
            for w in 0..6 {
                if n <= MAXES[w] {
                    let r = if zero { try_w(&a, w, n) } else { try_w(&b, w, n) };
                    cx.calls += 1;
                    if !same(&r, m, want, n) {
                        return Err(format!("enumeration {symbols:?}, with zero {zero}: {n} as {}: got {}, expected {}", WIDTHS[w], show(&r), show_model(m, want, n)));
                    }
                }
            }
            cx.extra_states += 1;
            cx.transitions += 1;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- selectors

pub fn selectors(t: Tier) -> Vec<Space> {
    let maxlen = if t == Tier::Quick { 4 } else { 5 };
    let mut probes: Vec<u128> = vec![
        0, 1, 9, 10, 11, 15, 20, 99, 100, 101, 110, 999, 1000, 1001, 1010, 9999, 10_000, 10_001, 10_010, 11_111, 100_000, 100_100,
        1_000_000, 20_000_000, 100_000_000, 100_001_000, 1_000_000_001, 100_000_000_000, 1_000_000_000_000, 999_999_999_999_999,
        1_000_000_000_000_000, 10u128.pow(16), 10u128.pow(16) + 1, 10u128.pow(24), 10u128.pow(32), 10u128.pow(32) + 10u128.pow(17), 10u128.pow(38),
        u64::MAX as u128, u128::MAX, u128::MAX / 3,
    ];
    if t == Tier::Thorough {
        let b = dom::boundaries(10);
        probes.extend(b.iter().step_by(b.len() / 120));
    }
    let mut v = vec![];
    macro_rules! one {
        ($name:ident, $tr:expr, $formal:expr) => {{
            let probes = probes.clone();
            let models: Vec<(bool, Scale, Model)> = [false, true]
                .into_iter()
                .flat_map(|f| [Scale::Myriad, Scale::Short, Scale::Mid, Scale::Long].map(|s| (f, s, Model::Chinese(chinese($tr, f, $formal, s)))))
                .collect();
            v.push(Space::new(concat!("selector sequences of ", stringify!($name)), vec![Dom::Range(0, 5u128.pow(maxlen))], move |case, cx| {
                let mut c = case;
                let mut sys = nominals::$name::default();
                let (mut fin, mut scale) = (false, Scale::Myriad);
                let mut path = String::new();
                // Digits from the most significant; leading zeros are absent
                // steps, an inner zero is an observation between two steps.
                let mut steps = vec![];
                while c > 0 {
                    steps.push(c % 5);
                    c /= 5;
                }
                for s in steps.iter().rev() {
                    match s {
                        1 => { sys = sys.financial(); fin = true; path.push_str(".financial()"); }
                        2 => { sys = sys.short_scale(); scale = Scale::Short; path.push_str(".short_scale()"); }
                        3 => { sys = sys.mid_scale(); scale = Scale::Mid; path.push_str(".mid_scale()"); }
                        4 => { sys = sys.long_scale(); scale = Scale::Long; path.push_str(".long_scale()"); }
                        _ => { let copy = sys; sys = copy.clone(); path.push_str(".clone()"); }
                    }
                    cx.transitions += 1;
                }
                let (_, _, model) = models.iter().find(|m| m.0 == fin && m.1 == scale).unwrap();
                for &n in &probes {
                    cx.buf.clear();
                    let m = model.render(n, &mut cx.buf);
                    check(&sys, &format!("{}{path}", stringify!($name)), n, m, &cx.buf, &mut cx.calls)?;
                }
                if cx.trace {
                    cx.note = format!("{}{path}: scale {scale:?}, financial {fin}, {} probes", stringify!($name), probes.len());
                }
                Ok(())
            }).chunk(16));
        }};
    }
    one!(SimplifiedChineseInformal, false, false);
    one!(SimplifiedChineseFormal, false, true);
    one!(TraditionalChineseInformal, true, false);
    one!(TraditionalChineseFormal, true, true);
    v
}

// ---------------------------------------------------------------- composition

/// Object-safe mirror of `DigitCollection`.
pub trait Dc: Send + Sync {
    fn d_fixed(&self) -> bool;
    fn d_zero(&self) -> bool;
    fn d_zero_based(&self) -> bool;
    fn d_len(&self) -> usize;
    fn d_empty(&self) -> bool;
    fn d_digit(&self, i: usize) -> char;
}
impl<D: DigitCollection + Send + Sync> Dc for D {
    fn d_fixed(&self) -> bool {
        self.fixed()
    }
    fn d_zero(&self) -> bool {
        self.has_zero_digit()
    }
    fn d_zero_based(&self) -> bool {
        self.zero_based()
    }
    fn d_len(&self) -> usize {
        self.len()
    }
    fn d_empty(&self) -> bool {
        self.is_empty()
    }
    fn d_digit(&self, i: usize) -> char {
        self.digit(i)
    }
}
/// A collection chosen at run time, with fallback `F`.
pub struct Dyn<F = NoFallback>(Box<dyn Dc>, std::marker::PhantomData<fn() -> F>);
impl<F> Dyn<F> {
    pub fn new<D: DigitCollection + Send + Sync + 'static>(d: D) -> Self {
        Dyn(Box::new(d), std::marker::PhantomData)
    }
}
impl<F: DigitCollection + Default> DigitCollection for Dyn<F> {
    type Fallback = F;
    fn fixed(&self) -> bool {
        (*self.0).d_fixed()
    }
    fn has_zero_digit(&self) -> bool {
        (*self.0).d_zero()
    }
    fn zero_based(&self) -> bool {
        (*self.0).d_zero_based()
    }
    fn len(&self) -> usize {
        (*self.0).d_len()
    }
    fn is_empty(&self) -> bool {
        (*self.0).d_empty()
    }
    fn digit(&self, index: usize) -> char {
        (*self.0).d_digit(index)
    }
}

#[derive(Clone, Debug)]
pub enum Tree {
    /// Size, has a zero digit, block of characters.
    Leaf(usize, bool, u32),
    One(Box<Tree>),
    Restrict(usize, Box<Tree>),
    Chain(Box<Tree>, Box<Tree>),
}

fn leaf_chars(size: usize, block: u32) -> Vec<char> {
    (0..size as u32).map(|i| char::from_u32(if size <= 3 { 0x61 + block * 4 + i } else { 0x4E00 + block * 700 + i }).unwrap()).collect()
}

fn leaf(size: usize, zero: bool, block: u32) -> Dyn {
    let c = leaf_chars(size, block);
    macro_rules! sz {
        ($($n:expr),*) => {
            match size {
                $($n => {
                    let a: [char; $n] = c.try_into().unwrap();
                    if zero { Dyn::new(DigitSet::<$n, true>::new(a)) } else { Dyn::new(DigitSet::<$n, false>::zeroless(a)) }
                })*
                _ => unreachable!(),
            }
        };
    }
    sz!(0, 1, 2, 3, 10, 26, 254, 255, 256, 257, 300)
}

impl Tree {
    pub fn build(&self) -> Dyn {
        match self {
            Tree::Leaf(s, z, b) => leaf(*s, *z, *b),
            Tree::One(t) => Dyn::new(OneBased::new(t.build())),
            Tree::Restrict(k, t) => Dyn::new(Restrict::new(*k, t.build())),
            Tree::Chain(a, b) => Dyn::new(Chain::new(a.build(), b.build())),
        }
    }
    pub fn model(&self) -> ListModel {
        match self {
            Tree::Leaf(s, z, b) => ListModel { len: *s as u128, symbols: Some(leaf_chars(*s, *b)), zero: *z, one_based: false, fixed: false, fallback: None },
            Tree::One(t) => ListModel { one_based: true, ..t.model() },
            Tree::Restrict(k, t) => {
                let mut m = t.model();
                m.symbols.as_mut().unwrap().truncate(*k);
                m.len = m.len.min(*k as u128);
                m
            }
            Tree::Chain(a, b) => {
                let mut m = a.model();
                let n = b.model();
                m.symbols.as_mut().unwrap().extend(n.symbols.unwrap());
                m.len += n.len;
                m
            }
        }
    }
    fn relabel(&mut self, next: &mut u32) {
        match self {
            Tree::Leaf(_, _, b) => {
                *b = *next;
                *next += 1;
            }
            Tree::One(t) | Tree::Restrict(_, t) => t.relabel(next),
            Tree::Chain(a, b) => {
                a.relabel(next);
                b.relabel(next);
            }
        }
    }
}

fn size(t: &Tree) -> usize {
    match t {
        Tree::Leaf(s, ..) => *s,
        Tree::One(t) => size(t),
        Tree::Restrict(k, t) => size(t).min(*k),
        Tree::Chain(a, b) => size(a) + size(b),
    }
}

/// One unary combinator over `t`, all ways.
fn unary(t: &Tree) -> Vec<Tree> {
    let n = size(t);
    let mut ks = vec![0, 1, 2, 3, n.saturating_sub(1), n, n + 1, 255, 256, 257, usize::MAX];
    ks.sort_unstable();
    ks.dedup();
    let mut v: Vec<Tree> = ks.into_iter().map(|k| Tree::Restrict(k, Box::new(t.clone()))).collect();
    v.push(Tree::One(Box::new(t.clone())));
    v
}

pub fn trees(depth: usize, sizes: &[usize]) -> Vec<Tree> {
    // by number of combinators used
    let leaves: Vec<Tree> = sizes.iter().flat_map(|&s| [Tree::Leaf(s, true, 0), Tree::Leaf(s, false, 0)]).collect();
    let mut by: Vec<Vec<Tree>> = vec![leaves];
    for d in 1..=depth {
        let mut v = vec![];
        for t in &by[d - 1] {
            v.extend(unary(t));
        }
        for i in 0..d {
            for a in &by[i] {
                for b in &by[d - 1 - i] {
                    v.push(Tree::Chain(Box::new(a.clone()), Box::new(b.clone())));
                }
            }
        }
        by.push(v);
    }
    let mut all: Vec<Tree> = by.into_iter().flatten().collect();
    for t in &mut all {
        t.relabel(&mut 0);
    }
    all
}

fn tree_space(name: &str, trees: Vec<Tree>, dense: u128, judge: fn(&ListModel, &Dyn, &str, u128, &mut Cx) -> Result<(), String>) -> Space {
    let n = trees.len() as u128;
    Space::new(name, vec![Dom::Range(0, n)], move |case, cx| {
        let t = &trees[case as usize];
        let (s, m) = (t.build(), t.model());
        let name = format!("{t:?}");
        let values = list_values(m.len, dense);
        for &v in &values {
            judge(&m, &s, &name, v, cx)?;
        }
        cx.extra_states += values.len() as u64 - 1;
        cx.transitions += values.len() as u64 - 1;
        if cx.trace {
            cx.note = format!("{name}: {} values as the list of {} symbols", values.len(), m.len);
        }
        Ok(())
    })
    .chunk(16)
}

fn judge_exact(m: &ListModel, s: &Dyn, name: &str, v: u128, cx: &mut Cx) -> Result<(), String> {
    m.check(s, name, v, cx)
}

fn judge_total(m: &ListModel, s: &Dyn, name: &str, v: u128, cx: &mut Cx) -> Result<(), String> {
    total(s, m.len, m.zero, name, v, cx)
}

/// C21: a non-empty label or a documented error, in every width.
pub fn total<S: All6>(s: &S, len: u128, zero: bool, name: &str, v: u128, cx: &mut Cx) -> Result<(), String> {
    if len == 1 && !zero && v > 1000 {
        return Ok(());
    }
    for w in 0..6 {
        if v > MAXES[w] {
            continue;
        }
        let r = try_w(s, w, v);
        cx.calls += 1;
        let bad = match &r {
            Ok(l) => l.is_empty() || len == 0 || (len == 1 && zero && v > 0),
            Err(E::Oob(_)) => len > 1 || (len == 1 && (!zero || v == 0)),
            Err(E::NoZero) => v != 0 || (zero && len > 0),
            Err(E::Oom(_)) => true,
        };
        if bad {
            return Err(format!("{name}: {v} as {}: got {}", WIDTHS[w], show(&r)));
        }
        let i = inf_w(s, w, v);
        if i.is_empty() {
            return Err(format!("{name}: {v} as {}: infallible formatting gave an empty label", WIDTHS[w]));
        }
    }
    Ok(())
}

/// Compositions of the crate's own collections with static types.
fn static_spaces() -> Vec<Space> {
    let mut v = vec![];
    let up: Vec<char> = ('A'..='Z').collect();
    let lo: Vec<char> = ('a'..='z').collect();
    let de: Vec<char> = ('0'..='9').collect();
    let stem = chars("甲乙丙丁戊己庚辛壬癸");
    let branch = chars("子丑寅卯辰巳午未申酉戌亥");
    let cat = |a: &[char], b: &[char]| [a, b].concat();
    fn add<S: All6 + Send + Sync + 'static>(v: &mut Vec<Space>, name: &str, s: S, m: ListModel) {
        let name = name.to_owned();
        let mut l = list_values(m.len, 1100);
        l.extend(dom::boundaries(10).iter());
        l.sort_unstable();
        l.dedup();
        v.push(Space::new(name.clone(), vec![Dom::List(Arc::new(l))], move |n, cx| {
            cx.transitions += u64::from(cx.prev.is_some());
            m.check(&s, &name, n, cx)
        }));
    }
    let list = |s: Vec<char>, zero: bool, one: bool| ListModel { len: s.len() as u128, symbols: Some(s), zero, one_based: one, fixed: false, fallback: None };
    let fixed = |s: &[char], one: bool| ListModel { len: s.len() as u128, symbols: Some(s.to_vec()), zero: false, one_based: one, fixed: true, fallback: Some(cjk) };
    add(&mut v, "Decimal.and(LetterUpper)", Decimal.and(LetterUpper), list(cat(&de, &up), true, false));
    add(&mut v, "Chain(Decimal, LetterLower)", Chain::new(Decimal, LetterLower), list(cat(&de, &lo), true, false));
    add(&mut v, "LetterLower.and(LetterUpper)", LetterLower.and(LetterUpper), list(cat(&lo, &up), false, false));
    add(&mut v, "LetterLower.and(LetterUpper).one_based()", LetterLower.and(LetterUpper).one_based(), list(cat(&lo, &up), false, true));
    add(&mut v, "LetterLower.one_based().and(LetterUpper)", LetterLower.one_based().and(LetterUpper), list(cat(&lo, &up), false, true));
    add(&mut v, "LetterLower.and(LetterUpper.one_based())", LetterLower.and(LetterUpper.one_based()), list(cat(&lo, &up), false, false));
    add(&mut v, "LetterUpper.and(Decimal)", LetterUpper.and(Decimal), list(cat(&up, &de), false, false));
    add(&mut v, "Decimal.one_based()", Decimal.one_based(), list(de.clone(), true, true));
    add(&mut v, "HexUpper.one_based()", HexUpper.one_based(), list(cat(&de, &up)[..16].to_vec(), true, true));
    add(&mut v, "HexUpper.and(LetterLower)", HexUpper.and(LetterLower), list(cat(&cat(&de, &up)[..16], &lo), true, false));
    add(&mut v, "OneBased(OneBased(LetterUpper))", OneBased::new(OneBased::new(LetterUpper)), list(up.clone(), false, true));
    for k in [0usize, 1, 2, 3, 8, 9, 10, 11, 300] {
        add(&mut v, &format!("Restrict({k}, Decimal)"), Restrict::new(k, Decimal), list(de[..k.min(10)].to_vec(), true, false));
        add(&mut v, &format!("Restrict({k}, LetterUpper)"), Restrict::new(k, LetterUpper), list(up[..k.min(26)].to_vec(), false, false));
        add(&mut v, &format!("Restrict({k}, LetterUpper).one_based()"), Restrict::new(k, LetterUpper).one_based(), list(up[..k.min(26)].to_vec(), false, true));
        add(&mut v, &format!("Restrict({k}, LetterUpper.one_based())"), Restrict::new(k, LetterUpper.one_based()), list(up[..k.min(26)].to_vec(), false, true));
    }
    for k in [1usize, 2, 9, 10, 11, 12, 13, 40] {
        add(&mut v, &format!("Restrict({k}, CjkHeavenlyStem)"), Restrict::new(k, CjkHeavenlyStem), fixed(&stem[..k.min(10)], true));
        add(&mut v, &format!("Restrict({k}, CjkEarthlyBranch).one_based()"), Restrict::new(k, CjkEarthlyBranch).one_based(), fixed(&branch[..k.min(12)], true));
        add(&mut v, &format!("Restrict({k}, CjkEarthlyBranch.one_based())"), Restrict::new(k, CjkEarthlyBranch.one_based()), fixed(&branch[..k.min(12)], true));
        add(&mut v, &format!("Restrict({k}, Restrict(11, CjkEarthlyBranch))"), Restrict::new(k, Restrict::new(11, CjkEarthlyBranch)), fixed(&branch[..k.min(11)], true));
    }
    add(&mut v, "CjkHeavenlyStem.one_based()", CjkHeavenlyStem.one_based(), fixed(&stem, true));
    add(&mut v, "CjkEarthlyBranch.one_based().one_based()", CjkEarthlyBranch.one_based().one_based(), fixed(&branch, true));
    v
}

/// Combinators over fixed collections chosen at run time.
fn fixed_trees() -> Vec<Space> {
    let mut v = vec![];
    fn run<F: DigitCollection + Default + 'static>(case: u128, cx: &mut Cx, fb: Option<fn(u128, &mut String)>) -> Result<(), String> {
        let lens = [1usize, 2, 3, 10, 12, 255, 256, 257, 300];
        let len = lens[(case % 9) as usize];
        let mut c = case / 9;
        let (zero, zero_based) = (c & 1 == 1, c >> 1 & 1 == 1);
        c >>= 2;
        let mut d: Dyn<F> = Dyn::new(Virt::<F>::new(len, zero, zero_based, true));
        let mut m = ListModel { len: len as u128, symbols: None, zero, one_based: !zero_based, fixed: true, fallback: fb };
        let mut name = format!("fixed {len} zero {zero} zero based {zero_based}");
        for _ in 0..3 {
            let op = c % 8;
            c /= 8;
            match op {
                0 => {}
                1 => {
                    d = Dyn::new(OneBased::new(d));
                    m.one_based = true;
                    name.push_str(" -> one based");
                }
                k => {
                    let cur = m.len as usize;
                    let k = [1, 2, cur.saturating_sub(1).max(1), cur, cur + 1, usize::MAX][k as usize - 2];
                    d = Dyn::new(Restrict::new(k, d));
                    m.len = m.len.min(k as u128);
                    name.push_str(&format!(" -> restrict {k}"));
                }
            }
        }
        let values = list_values(m.len, 320);
        for &v in &values {
            m.check(&d, &name, v, cx)?;
        }
        cx.extra_states += values.len() as u64 - 1;
        cx.transitions += values.len() as u64 - 1;
        if cx.trace {
            cx.note = format!("{name}: {} values", values.len());
        }
        Ok(())
    }
    let cases = 9 * 4 * 512;
    v.push(Space::new("fixed collections under up to 3 combinators, no fallback", vec![Dom::Range(0, cases)], |c, cx| run::<NoFallback>(c, cx, None)).chunk(16));
    v.push(Space::new("fixed collections under up to 3 combinators, falling back to CjkDecimal", vec![Dom::Range(0, cases)], |c, cx| run::<CjkDecimal>(c, cx, Some(cjk))).chunk(16));
    v.push(Space::new("fixed collections under up to 3 combinators, falling back to LetterUpper", vec![Dom::Range(0, cases)], |c, cx| run::<LetterUpper>(c, cx, Some(upper))).chunk(16));
    v
}

/// Collections longer than the narrower integer types can count.
fn virtual_spaces() -> Vec<Space> {
    let mut v = vec![];
    for len in [254usize, 255, 256, 257, 300, 512, 65_534, 65_535, 65_536, 65_537, 70_000, 1 << 24, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, usize::MAX - 1, usize::MAX] {
        for zero in [true, false] {
            for zero_based in [true, false] {
                let name = format!("collection of {len} digits, zero digit {zero}, zero based {zero_based}");
                let m = ListModel { len: len as u128, symbols: None, zero, one_based: !zero_based, fixed: false, fallback: None };
                let s = Virt::<NoFallback>::new(len, zero, zero_based, false);
                let mut l = list_values(len as u128, 1100);
                l.extend(dom::boundaries(10).iter());
                l.sort_unstable();
                l.dedup();
                v.push(Space::new(name.clone(), vec![Dom::List(Arc::new(l))], move |n, cx| {
                    cx.transitions += u64::from(cx.prev.is_some());
                    m.check(&s, &name, n, cx)
                }));
            }
        }
    }
    v
}

const SIZES: [usize; 11] = [0, 1, 2, 3, 10, 26, 254, 255, 256, 257, 300];

pub fn plan_compose(t: Tier) -> Plan {
    let mut spaces = vec![];
    if t == Tier::Quick {
        spaces.push(tree_space("trees of up to 2 combinators", trees(2, &[0, 1, 2, 3, 10, 255, 256, 257]), 270, judge_exact));
    } else {
        spaces.push(tree_space("trees of up to 2 combinators", trees(2, &SIZES), 700, judge_exact));
        spaces.push(tree_space("trees of up to 3 combinators", trees(3, &[0, 1, 2, 254]), 270, judge_exact));
    }
    spaces.extend(fixed_trees());
    spaces.extend(virtual_spaces());
    spaces.extend(static_spaces());
    spaces.extend(large::digit_spaces());
    Plan {
        spaces,
        rule: "A state is one (composed collection, value) pair; a transition is the step to the next value of the same collection. The model flattens the composition to its symbol list and formats the value over that list; the real collection is built from the crate's own combinators and formats the value in every integer type that holds it.".into(),
        bounds: "Every tree of up to 2 (thorough: also 3 over four leaf sizes) combinators out of chain, one-based and restriction to 0, 1, 2, 3, len-1, len, len+1, 255, 256, 257 and usize::MAX, over digit sets of 0 to 300 symbols with and without zero; every chain of up to 3 one-based/restrict steps over fixed collections with three kinds of fallback; virtual collections of up to usize::MAX digits; the crate's own sets combined statically. Values: all below 270 (700), type limits, powers and word-length starts of the list length with neighbours. One-symbol tally lists up to 1000.".into(),
        assumptions: vec!["Chains of fixed collections are unspecified and not explored.".into(), "For zero in an empty collection either documented error is accepted.".into()],
    }
}

// ---------------------------------------------------------------- description

/// A user's collection that knows its digits only through the accessors of
/// another one.
struct Fwd<C>(C);
impl<C: DigitCollection> DigitCollection for Fwd<C> {
    type Fallback = C::Fallback;
    fn fixed(&self) -> bool {
        self.0.fixed()
    }
    fn has_zero_digit(&self) -> bool {
        self.0.has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        self.0.zero_based()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn digit(&self, index: usize) -> char {
        assert!(index < self.0.len(), "digit {index} of {} was asked for", self.0.len());
        self.0.digit(index)
    }
}

/// What a collection says about itself against the list it stands for.
fn describe<C: DigitCollection>(c: &C, m: &ListModel, name: &str, cx: &mut Cx) -> Result<(), String> {
    let fail = |what: String| Err(format!("{name}, a list of {} symbols: {what}", m.len));
    cx.calls += 2;
    if c.len() as u128 != m.len {
        return fail(format!("len() is {}", c.len()));
    }
    if c.is_empty() != (m.len == 0) {
        return fail(format!("is_empty() is {}", c.is_empty()));
    }
    if m.len == 0 {
        // What an empty collection says about its digits means nothing.
        return Ok(());
    }
    cx.calls += 2;
    if c.fixed() != m.fixed {
        return fail(format!("fixed() is {}", c.fixed()));
    }
    if c.has_zero_digit() != m.zero {
        return fail(format!("has_zero_digit() is {}", c.has_zero_digit()));
    }
    // Documented to be of no interest when there is a zero digit.
    if !m.zero && c.zero_based() == m.one_based {
        return fail(format!("zero_based() is {}", c.zero_based()));
    }
    let mut at: Vec<u128> = (0..m.len.min(1 << 17)).collect();
    if m.len > 1 << 17 {
        at.extend((0..64).map(|i| m.len - 1 - i));
        at.extend((18..64).map(|e| 1u128 << e).filter(|&x| x < m.len));
    }
    cx.extra_states += at.len() as u64;
    cx.transitions += at.len() as u64;
    for &i in &at {
        cx.calls += 1;
        let d = c.digit(i as usize);
        if d != m.sym(i) {
            return fail(format!("digit({i}) is {d:?}, expected {:?}", m.sym(i)));
        }
    }
    Ok(())
}

pub fn plan_describe(t: Tier) -> Plan {
    let mut spaces = vec![];
    let all = trees(if t == Tier::Quick { 2 } else { 3 }, if t == Tier::Quick { &SIZES } else { &[0, 1, 2, 3, 26, 256, 300] });
    let n = all.len() as u128;
    spaces.push(Space::new("trees of combinators", vec![Dom::Range(0, n)], move |case, cx| {
        let t = &all[case as usize];
        let (m, name) = (t.model(), format!("{t:?}"));
        describe(&t.build(), &m, &name, cx)?;
        if cx.trace {
            cx.note = format!("{name}: described as a list of {} symbols", m.len);
        }
        Ok(())
    }).chunk(16));
    // Restrictions and one-based counting over collections a user wrote.
    let lens = [1usize, 2, 3, 10, 12, 254, 255, 256, 257, 300, 65_535, 65_536, 65_537, 1 << 24, (1 << 32) - 1, 1 << 32, 1 << 40, usize::MAX - 1, usize::MAX];
    spaces.push(Space::new("adaptors over user collections", vec![Dom::Range(0, 19 * 8 * 8 * 8)], move |case, cx| {
        let len = lens[(case % 19) as usize];
        let mut c = case / 19;
        let (zero, zero_based, fixed) = (c & 1 == 1, c & 2 == 2, c & 4 == 4);
        c >>= 3;
        let mut d: Dyn<CjkDecimal> = Dyn::new(Virt::<CjkDecimal>::new(len, zero, zero_based, fixed));
        let mut m = ListModel { len: len as u128, symbols: None, zero, one_based: !zero_based, fixed, fallback: Some(cjk) };
        let mut name = format!("user collection of {len}, zero {zero}, zero based {zero_based}, fixed {fixed}");
        for _ in 0..2 {
            match c % 8 {
                0 => {}
                1 => {
                    d = Dyn::new(OneBased::new(d));
                    m.one_based = true;
                    name.push_str(" -> one based");
                }
                2 => {
                    d = Dyn::new(d.one_based());
                    m.one_based = true;
                    name.push_str(".one_based()");
                }
                k => {
                    let cur = m.len as usize;
                    let k = [1, cur.saturating_sub(1).max(1), cur, cur.saturating_add(1), usize::MAX][k as usize - 3];
                    d = Dyn::new(Restrict::new(k, d));
                    m.len = m.len.min(k as u128);
                    name.push_str(&format!(" -> restrict {k}"));
                }
            }
            c /= 8;
        }
        describe(&d, &m, &name, cx)?;
        if cx.trace {
            cx.note = format!("{name}: described as a list of {} symbols", m.len);
        }
        Ok(())
    }).chunk(16));
    // The crate's own collections, described and used through a forwarding one.
    let values: Arc<Vec<u128>> = Arc::new({
        let mut l = list_values(10, 3000);
        l.extend(list_values(26, 0));
        l.extend(dom::boundaries(10).iter());
        l.sort_unstable();
        l.dedup();
        l
    });
    fn own<C: All6 + DigitCollection + Send + Sync + 'static>(name: String, c: C, m: ListModel, values: Arc<Vec<u128>>) -> Space
    where
        Fwd<C>: All6,
    {
        let f = Fwd(c);
        Space::new(name.clone(), vec![Dom::Range(0, values.len() as u128 + 1)], move |case, cx| {
            if case == 0 {
                return describe(&f.0, &m, &name, cx);
            }
            let n = values[case as usize - 1];
            cx.transitions += u64::from(cx.prev.is_some());
            m.check(&f, &format!("a collection forwarding to {name}"), n, cx)
        })
    }
    for s in positional_systems().into_iter().chain(alpha_systems()).chain(fixed_systems()) {
        let m = match s.model {
            Model::Positional(d) => ListModel { len: d.len() as u128, symbols: Some(d), zero: true, one_based: false, fixed: false, fallback: None },
            Model::Alpha(d, one) => ListModel { len: d.len() as u128, symbols: Some(d), zero: false, one_based: one, fixed: false, fallback: None },
            Model::Fixed { symbols, fallback: Some(_), .. } => ListModel { len: symbols.len() as u128, symbols: Some(symbols), zero: false, one_based: true, fixed: true, fallback: Some(cjk) },
            _ => continue,
        };
        macro_rules! by_name {
            ($($n:ident),*; $($o:ident),*) => {
                match s.name.as_str() {
                    $(stringify!($n) => spaces.push(own(s.name.clone(), nominals::$n, m, values.clone())),)*
                    $(stringify!($o) => spaces.push(own(s.name.clone(), nominals::$o, m, values.clone())),
                    concat!(stringify!($o), ".one_based") => spaces.push(own(s.name.clone(), nominals::$o.one_based(), m, values.clone())),)*
                    other => unreachable!("{other}"),
                }
            };
        }
        by_name!(Decimal, EasternArabic, Persian, Urdu, Bengali, Cambodian, Khmer, CjkDecimal, Devanagari, Gujarati, Gurmukhi, Kannada, Lao, Malayalam, Mongolian, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan, HexUpper, HexLower, CjkHeavenlyStem, CjkEarthlyBranch;
            LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable);
    }
    for (name, s, m) in large::digit_sets() {
        spaces.push(Space::new(name.clone(), vec![Dom::Range(0, 1)], move |_, cx| describe(&s, &m, &name, cx)));
    }
    spaces.push(Space::new("NoFallback", vec![Dom::Range(0, 1)], |_, cx| {
        let m = ListModel { len: 0, symbols: Some(vec![]), zero: false, one_based: false, fixed: false, fallback: None };
        describe(&NoFallback, &m, "NoFallback", cx)
    }));
    Plan {
        spaces,
        rule: "A state is one (collection, index) or (built-in collection, value) pair; a transition is one step to the next index or value. Everything a collection says about itself (length, emptiness, flags, the digit at every index) is compared with the model's flattened list, and every built-in collection is used through a user collection that sees it only through those accessors, in every integer type.".into(),
        bounds: "Every tree of up to 2 combinators (thorough 3, over seven leaf sizes) over digit sets of 0 to 300 symbols; every chain of up to 2 adaptors over user collections of 19 lengths up to usize::MAX with every flag, with every index below 2^17 and the last 64; all 45 built-in collections (alphabets also one-based) with every index, and all values below 3000, type limits, powers of two and ten with neighbours.".into(),
        assumptions: vec!["The flags and digits of an empty collection and the base of a list with a zero digit are documented as unused and are not judged.".into(), "Chains of fixed collections are unspecified and not explored.".into()],
    }
}

// ---------------------------------------------------------------- totality

pub fn plan_total(t: Tier) -> Plan {
    let mut spaces = vec![];
    // Every built-in system, all values of the value domains.
    for s in all_systems() {
        let s = Arc::new(s);
        let d = match s.kind {
            Kind::Additive | Kind::Roman | Kind::Hebrew => dom::depth(t, (16, 0), (22, 1)),
            _ => dom::depth(t, (14, 0), (20, 1)),
        };
        let doms = dom::values(&s, d);
        spaces.push(Space::new(s.name.clone(), doms, move |n, cx| {
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let r = (s.tryf[w])(n);
                let i = (s.inf[w])(n);
                cx.calls += 2;
                let bad = match &r {
                    Ok(l) => l.is_empty(),
                    Err(E::Oom(_)) => true,
                    Err(E::NoZero) => n != 0,
                    Err(E::Oob(_)) => false,
                };
                if bad || i.is_empty() {
                    return Err(format!("{} of {n} as {}: got {}, infallible \"{}\"", s.name, WIDTHS[w], show(&r), short(&i)));
                }
                cx.tag(if r.is_ok() { "label" } else { "error" });
            }
            cx.transitions += u64::from(cx.prev.is_some());
            if cx.trace {
                cx.note = format!("{} {n}: returned in every width", s.name);
            }
            Ok(())
        }));
    }
    // The whole 32-bit range ends of the additive systems: long labels.
    if t == Tier::Thorough {
        for s in additive_systems().into_iter().chain(roman_systems()) {
            let s = Arc::new(s);
            let mut l: Vec<u128> = (0..4).flat_map(|i| [u32::MAX as u128 - i, (1u128 << 31) + i]).collect();
            l.sort_unstable();
            spaces.push(Space::new(format!("{} near the 32-bit limit", s.name), vec![Dom::List(Arc::new(l))], move |n, cx| {
                for w in [2usize, 3, 4] {
                    let r = (s.tryf[w])(n);
                    cx.calls += 1;
                    if r.is_err() {
                        return Err(format!("{} of {n} as {}: got {}", s.name, WIDTHS[w], show(&r)));
                    }
                }
                Ok(())
            }));
        }
    }
    let sizes: &[usize] = if t == Tier::Quick { &[0, 1, 2, 10, 255, 256, 257] } else { &SIZES };
    spaces.push(tree_space("trees of up to 2 combinators", trees(2, sizes), if t == Tier::Quick { 40 } else { 300 }, judge_total));
    if t == Tier::Thorough {
        spaces.push(tree_space("trees of up to 3 combinators", trees(3, &[0, 1, 2]), 20, judge_total));
    }
    // Virtual collections, all flags, fixed or not, any size.
    fn virt<F: DigitCollection + Default + 'static>(name: &str, empty_fallback: bool) -> Space {
        let nm = name.to_owned();
        Space::new(format!("collections with every flag, fallback {name}"), vec![Dom::Range(0, 8 * 24)], move |case, cx| {
            let lens = [0usize, 1, 2, 3, 10, 127, 128, 254, 255, 256, 257, 300, 65_534, 65_535, 65_536, 65_537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 1, usize::MAX, 16, 26];
            let len = lens[(case / 8) as usize];
            let (zero, zero_based, fixed) = (case & 1 == 1, case >> 1 & 1 == 1, case >> 2 & 1 == 1);
            let s = Virt::<F>::new(len, zero, zero_based, fixed);
            for v in list_values(len as u128, 300) {
                if len == 1 && !zero && !fixed && v > 1000 {
                    continue;
                }
                for w in 0..6 {
                    if v > MAXES[w] {
                        continue;
                    }
                    let r = try_w(&s, w, v);
                    cx.calls += 1;
                    let represented = len > 1 || (len == 1 && (!zero || v == 0));
                    let bad = match &r {
                        Ok(l) => l.is_empty() || (!represented && (!fixed || empty_fallback)),
                        Err(E::Oom(_)) => true,
                        Err(E::NoZero) => v != 0,
                        Err(E::Oob(x)) => *x != v || (represented && !fixed),
                    };
                    if bad {
                        return Err(format!("collection of {len} digits, zero {zero}, zero based {zero_based}, fixed {fixed}, fallback {nm}: {v} as {}: got {}", WIDTHS[w], show(&r)));
                    }
                }
                cx.extra_states += 1;
                cx.transitions += 1;
            }
            if cx.trace {
                cx.note = format!("collection of {len} digits, zero {zero}, zero based {zero_based}, fixed {fixed}, fallback {nm}");
            }
            Ok(())
        })
        .chunk(2)
    }
    spaces.push(virt::<NoFallback>("none", true));
    spaces.push(virt::<CjkDecimal>("CjkDecimal", false));
    spaces.push(virt::<CjkHeavenlyStem0>("a fixed collection that falls back again", false));
    // Collections without any digit, and sets without any symbol.
    fn nothing<S: All6 + Send + Sync + 'static>(name: &str, s: S, zero_ok: bool) -> Space {
        let nm = name.to_owned();
        Space::new(name, dom::compose(9, &[dom::boundaries(10)], u128::MAX), move |n, cx| {
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let r = try_w(&s, w, n);
                cx.calls += 1;
                let ok = match &r {
                    Ok(l) => n == 0 && zero_ok && !l.is_empty(),
                    // Zero of an empty set may be refused for either reason.
                    Err(E::NoZero) => n == 0 && !zero_ok,
                    Err(E::Oob(x)) => *x == n && !(n == 0 && zero_ok),
                    Err(E::Oom(_)) => false,
                };
                if !ok || inf_w(&s, w, n).is_empty() {
                    return Err(format!("{nm}: {n} as {}: got {}", WIDTHS[w], show(&r)));
                }
            }
            cx.transitions += u64::from(cx.prev.is_some());
            Ok(())
        })
    }
    spaces.push(nothing("NoFallback", NoFallback, false));
    spaces.push(nothing("NoFallback.one_based()", NoFallback.one_based(), false));
    spaces.push(nothing("Restrict(5, NoFallback)", Restrict::new(5, NoFallback), false));
    spaces.push(nothing("NoFallback.and(NoFallback)", NoFallback.and(NoFallback), false));
    spaces.push(nothing("Restrict(0, Decimal)", Restrict::new(0, Decimal), false));
    spaces.push(nothing("Restrict(1, Decimal)", Restrict::new(1, Decimal), true));
    spaces.push(nothing("Restrict(1, HexUpper).one_based()", Restrict::new(1, HexUpper).one_based(), true));
    spaces.push(nothing("Restrict(0, LetterLower).one_based()", Restrict::new(0, LetterLower).one_based(), false));
    spaces.push(nothing("EnumeratedSet<0, true>", EnumeratedSet::<0, true>::new([]), false));
    spaces.push(nothing("EnumeratedSet<0, false>", EnumeratedSet::<0, false>::zeroless([]), false));
    spaces.push(nothing("EnumeratedSet<1, true>", EnumeratedSet::<1, true>::new(["z"]), true));
    spaces.push(nothing("AdditiveSet<0>", AdditiveSet::<0>::new([]), false));
    spaces.push(nothing("AdditiveSet of zero only", AdditiveSet::<1>::new([("z", 0)]), true));
    spaces.push(nothing("DigitSet<0, true>", DigitSet::<0, true>::new([]), false));
    spaces.push(nothing("DigitSet<0, false>", DigitSet::<0, false>::zeroless([]), false));
    spaces.push(nothing("DigitSet<1, true>", DigitSet::<1, true>::new(['z']), true));
    spaces.extend(additive(Tier::Quick).into_iter().take(2));
    spaces.extend([additive_symbols(), enumerated_symbols()]);
    Plan {
        spaces,
        rule: "A state is one (system or constructed set, value) pair, executed on the real code in every integer type that holds the value under a watchdog, an allocation cap, overflow checks and panic capture; a transition is the step to the next value of the same system. The oracle: the call returned, with a non-empty label or an error that is documented for that state.".into(),
        bounds: "All built-in systems and configurations on all values below 2^14 (2^16 for additive systems; thorough 2^20, 2^22), type limits, boundaries and deviation-bounded numerals; every tree of up to 2 (3) combinators including empty leaves and restrictions to 0 and to more than there is; every combination of zero digit, base, fixed flag and fallback for virtual collections of 24 lengths from 0 to usize::MAX; all additive tables over 1..=7 and over the type limits, and every assignment of empty, plain, composed and long symbols to tables over {300, 10, 5, 2, 1, 0} and enumerations of four; sets without symbols.".into(),
        assumptions: vec![
            "Additive, Roman, Hebrew and tally systems write labels that grow linearly with the value by definition; they are explored up to labels of about 2000 symbols (thorough: up to the 32-bit limit for the additive ones).".into(),
            "A call that gives no result within the watchdog's time is taken not to terminate.".into(),
        ],
    }
}

/// Like the heavenly stems but constructible by default: a fixed fallback.
#[derive(Default)]
pub struct CjkHeavenlyStem0;
impl DigitCollection for CjkHeavenlyStem0 {
    type Fallback = CjkDecimal;
    fn fixed(&self) -> bool {
        true
    }
    fn has_zero_digit(&self) -> bool {
        false
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        10
    }
    fn digit(&self, index: usize) -> char {
        chars("甲乙丙丁戊己庚辛壬癸")[index]
    }
}
