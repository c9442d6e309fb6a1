//! C13, C14, C16, C17, C19, C20: relations between calls.

use super::custom::{inf_w, list_values, try_w, Dyn, Virt};
use super::value::{short, show};
use super::*;
use nominals::*;
use std::rc::Rc;

pub fn eq(a: &Raw, b: &Raw) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => **a == **b,
        (Err(E::NoZero), Err(E::NoZero)) => true,
        (Err(E::Oom(a)), Err(E::Oom(b))) | (Err(E::Oob(a)), Err(E::Oob(b))) => a == b,
        _ => false,
    }
}

pub fn linear(k: Kind) -> bool {
    matches!(k, Kind::Additive | Kind::Roman | Kind::Hebrew)
}

// ---------------------------------------------------------------- C13

/// A user system that fails in a chosen way for every value.
struct Failing(u8);
impl<T: Nominal> NominalSystem<T> for Failing {
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
        match self.0 {
            0 => Err(Error::OutOfBounds(n)),
            1 => Err(Error::OutOfMemory(n)),
            2 => Err(OutOfMemoryError).with_nominal(n),
            _ => Err(Error::NoZeroSymbol),
        }
    }
}

fn errors_of<T: Wide + std::fmt::Debug + PartialEq>(name: &str, n: T, r: Result<NominalString, Error<T>>, inf: &NominalString, plain: &str) -> Result<bool, String> {
    let v = n.wide();
    match r {
        Ok(s) => {
            if *s != **inf {
                return Err(format!("{name} of {v}: fallible \"{}\" but infallible \"{}\"", short(&s), short(inf)));
            }
            let u = Ok::<_, Error<T>>(s.clone()).unwrap_or_decimal();
            if *u != *s {
                return Err(format!("{name} of {v}: unwrap_or_decimal changed the label"));
            }
            Ok(true)
        }
        Err(e) => {
            let carried = match e {
                Error::NoZeroSymbol => {
                    if v != 0 {
                        return Err(format!("{name} of {v}: NoZeroSymbol for a value that is not zero"));
                    }
                    0
                }
                Error::OutOfBounds(x) | Error::OutOfMemory(x) => x.wide(),
                _ => return Err(format!("{name} of {v}: undocumented error {e:?}")),
            };
            if carried != v {
                return Err(format!("{name} of {v}: the error carries {carried}"));
            }
            let d = e.into_decimal();
            let u = Err::<NominalString, _>(e).unwrap_or_decimal();
            for (what, s) in [("infallible formatting", &**inf), ("into_decimal", &*d), ("unwrap_or_decimal", &*u)] {
                if *s != *plain {
                    return Err(format!("{name} of {v}: failed, but {what} gives \"{}\" instead of \"{plain}\"", short(s)));
                }
            }
            Ok(false)
        }
    }
}

fn raw_back<T: Wide>(r: Raw) -> Result<NominalString, Error<T>> {
    r.map_err(|e| match e {
        E::NoZero => Error::NoZeroSymbol,
        E::Oob(n) => Error::OutOfBounds(T::narrow(n)),
        E::Oom(n) => Error::OutOfMemory(T::narrow(n)),
    })
}

fn errors_case(name: &str, n: u128, w: usize, r: Raw, inf: &NominalString, plain: &str) -> Result<bool, String> {
    if let Err(E::Oob(x) | E::Oom(x)) = &r {
        if *x != n {
            return Err(format!("{name} of {n} as {}: the error carries {x}", WIDTHS[w]));
        }
    }
    let name = format!("{name} as {}", WIDTHS[w]);
    match w {
        0 => errors_of(&name, n as u8, raw_back(r), inf, plain),
        1 => errors_of(&name, n as u16, raw_back(r), inf, plain),
        2 => errors_of(&name, n as u32, raw_back(r), inf, plain),
        3 => errors_of(&name, n as u64, raw_back(r), inf, plain),
        4 => errors_of(&name, n, raw_back(r), inf, plain),
        _ => errors_of(&name, n as usize, raw_back(r), inf, plain),
    }
}

fn generic_errors<S: custom::All6 + Send + Sync + 'static>(name: String, s: S, doms: Vec<Dom>) -> Space {
    let nm = name.clone();
    Space::new(name, doms, move |n, cx| {
        cx.buf.clear();
        push_decimal(n, ascii_digits(), &mut cx.buf);
        for w in 0..6 {
            if n <= MAXES[w] {
                let r = try_w(&s, w, n);
                let i = inf_w(&s, w, n);
                cx.calls += 2;
                cx.transitions += 1;
                let ok = errors_case(&nm, n, w, r, &i, &cx.buf)?;
                cx.tag(if ok { "label" } else { "error" });
            }
        }
        if cx.trace {
            cx.note = format!("{nm} {n}: truthful, falls back to {}", cx.buf);
        }
        Ok(())
    })
}

pub fn plan_errors(t: Tier) -> Plan {
    let mut spaces = vec![];
    for s in all_systems() {
        let s = Arc::new(s);
        let d = match s.kind {
            Kind::Fixed => dom::depth(t, (17, 1), (24, 2)),
            Kind::Chinese if s.name.contains("short") => dom::depth(t, (14, 1), (20, 2)),
            _ => dom::depth(t, (13, 0), (20, 1)),
        };
        let doms = dom::values(&s, d);
        spaces.push(Space::new(s.name.clone(), doms, move |n, cx| {
            cx.buf.clear();
            push_decimal(n, ascii_digits(), &mut cx.buf);
            // Whether a label is truncated is decided against the model.
            cx.buf2.clear();
            let m = s.model.render(n, &mut cx.buf2);
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let r = (s.tryf[w])(n);
                let i = (s.inf[w])(n);
                cx.calls += 2;
                cx.transitions += 1;
                if r.is_ok() != m.is_ok() || (m.is_ok() && *i != *cx.buf2) {
                    return Err(format!("{} of {n} as {}: got {} / \"{}\"", s.name, WIDTHS[w], show(&r), short(&i)));
                }
                let ok = errors_case(&s.name, n, w, r, &i, &cx.buf)?;
                cx.tag(if ok { "label" } else { "error" });
            }
            if cx.trace {
                cx.note = format!("{} {n}: fallible and infallible agree", s.name);
            }
            Ok(())
        }));
    }
    let wide = || dom::compose(16, &[dom::numerals(10, 1), dom::boundaries(10)], u128::MAX);
    for (k, what) in ["OutOfBounds", "OutOfMemory", "OutOfMemoryError.with_nominal"].iter().enumerate() {
        spaces.push(generic_errors(format!("a user system failing with {what}"), Failing(k as u8), wide()));
    }
    spaces.push(generic_errors("a user system failing with NoZeroSymbol".into(), Failing(3), vec![Dom::Range(0, 1)]));
    let small = || dom::compose(12, &[dom::boundaries(10), dom::numerals(10, 0)], u128::MAX);
    spaces.push(generic_errors("EnumeratedSet<3, true>".into(), EnumeratedSet::<3, true>::new(["a", "b", "c"]), small()));
    spaces.push(generic_errors("EnumeratedSet<256, false>".into(), EnumeratedSet::<256, false>::zeroless(["s"; 256]), small()));
    spaces.push(generic_errors("AdditiveSet with 100, 7".into(), AdditiveSet::<2>::new([("C", 100), ("s", 7)]), dom::compose(12, &[], u128::MAX)));
    spaces.push(generic_errors("AdditiveSet with 2^100, 0".into(), AdditiveSet::<2>::new([("big", 1 << 100), ("z", 0)]), dom::compose(12, &[dom::boundaries(10)], 1 << 108)));
    spaces.push(generic_errors("AdditiveSet with 2^64 + 1, 2^64".into(), AdditiveSet::<2>::new([("p", (1 << 64) + 1), ("q", 1 << 64)]), dom::compose(12, &[dom::boundaries(10)], 1 << 72)));
    spaces.push(generic_errors("NoFallback".into(), NoFallback, small()));
    spaces.push(generic_errors("Restrict(1, Decimal)".into(), Restrict::new(1, Decimal), small()));
    spaces.push(generic_errors("a fixed collection of 300 without fallback".into(), Virt::<NoFallback>::new(300, false, false, true), small()));
    Plan {
        spaces,
        rule: "A state is one (system, value) pair; a transition is the step from the fallible to the infallible call of one pair in one integer type. In each, the fallible result, its error's payload, infallible formatting, Error::into_decimal and unwrap_or_decimal are executed on the real code and compared with each other, with the plain western decimal numeral computed independently, and with the model's decision whether a label exists.".into(),
        bounds: "Every built-in system: all values below 2^13 (fixed sets 2^17, short scale 2^14; thorough 2^20, 2^24), boundaries, type limits, truncation aliases and deviation-bounded numerals up to u128::MAX. User-defined systems that fail in each documented way, on all values below 2^16 and deviation-bounded numerals; enumerated, additive and fixed sets with unreachable values.".into(),
        assumptions: vec!["Out-of-memory errors of the built-in systems exist only without alloc; see C15 for those.".into()],
    }
}

// ---------------------------------------------------------------- C14

fn types_space<S: custom::All6 + Send + Sync + 'static>(name: String, s: S, doms: Vec<Dom>) -> Space {
    let nm = name.clone();
    Space::new(name, doms, move |n, cx| {
        let reference = try_w(&s, W128, n);
        let inf = inf_w(&s, W128, n);
        for w in [0, 1, 2, 3, 5] {
            if n <= MAXES[w] {
                let r = try_w(&s, w, n);
                let i = inf_w(&s, w, n);
                cx.calls += 2;
                cx.transitions += 1;
                if !eq(&reference, &r) || *inf != *i {
                    return Err(format!("{nm}: {n} as u128 gives {} / \"{}\", as {} {} / \"{}\"", show(&reference), short(&inf), WIDTHS[w], show(&r), short(&i)));
                }
            }
        }
        cx.tag(if reference.is_ok() { "label" } else { "error" });
        if cx.trace {
            cx.note = format!("{nm} {n}: {} in every width", show(&reference));
        }
        Ok(())
    })
}

pub fn plan_types(t: Tier) -> Plan {
    let mut spaces = vec![];
    let top = u64::MAX as u128;
    for s in all_systems() {
        let s = Arc::new(s);
        let d = if linear(s.kind) { dom::depth(t, (16, 1), (21, 1)) } else { dom::depth(t, (16, 0), (22, 2)) };
        let mut doms = dom::values(&s, d);
        // The comparison is between types, so only values of at least two.
        for dm in &mut doms {
            if let Dom::List(l) = dm {
                let k = l.partition_point(|&x| x <= top);
                if k < l.len() {
                    *dm = Dom::List(Arc::new(l[..k].to_vec()));
                }
            }
        }
        if linear(s.kind) {
            let s = s.clone();
            let (name, long) = (format!("{}, long labels", s.name), dom::long_values(s.kind));
            spaces.push(Space::new(name, vec![long], move |n, cx| {
                let reference = (s.tryf[W128])(n);
                for w in [2, 3, 5] {
                    if n <= MAXES[w] {
                        let r = (s.tryf[w])(n);
                        cx.calls += 1;
                        cx.transitions += 1;
                        if !eq(&reference, &r) {
                            return Err(format!("{}: {n} as u128 gives {}, as {} {}", s.name, show(&reference), WIDTHS[w], show(&r)));
                        }
                    }
                }
                Ok(())
            }).chunk(1));
        }
        spaces.push(Space::new(s.name.clone(), doms, move |n, cx| {
            let reference = (s.tryf[W128])(n);
            let inf = (s.inf[W128])(n);
            for w in [0, 1, 2, 3, 5] {
                if n > MAXES[w] {
                    continue;
                }
                let r = (s.tryf[w])(n);
                let i = (s.inf[w])(n);
                cx.calls += 2;
                cx.transitions += 1;
                if !eq(&reference, &r) || *inf != *i {
                    return Err(format!("{}: {n} as u128 gives {} / \"{}\", as {} {} / \"{}\"", s.name, show(&reference), short(&inf), WIDTHS[w], show(&r), short(&i)));
                }
            }
            cx.tag(if reference.is_ok() { "label" } else { "error" });
            if cx.trace {
                cx.note = format!("{} {n}: {} in every width", s.name, show(&reference));
            }
            Ok(())
        }));
    }
    let custom_values = |len: u128| {
        let mut l = list_values(len, 1500);
        l.extend(dom::boundaries(10).iter());
        l.retain(|&x| x <= top);
        l.sort_unstable();
        l.dedup();
        vec![Dom::List(Arc::new(l))]
    };
    for len in [2usize, 3, 10, 16, 100, 127, 128, 200, 254, 255, 256, 257, 300, 1000, 65_534, 65_535, 65_536, 65_537, 1 << 32, usize::MAX] {
        for case in 0..8 {
            let (zero, zero_based, fixed) = (case & 1 == 1, case & 2 == 2, case & 4 == 4);
            spaces.push(types_space(format!("collection of {len} digits, zero {zero}, zero based {zero_based}, fixed {fixed}"), Virt::<NoFallback>::new(len, zero, zero_based, fixed), custom_values(len as u128)));
        }
    }
    spaces.push(types_space("fixed collection of 300 falling back".into(), Virt::<CjkDecimal>::new(300, false, false, true), custom_values(300)));
    macro_rules! enums {
        ($($n:expr),*) => {$(
            spaces.push(types_space(format!("EnumeratedSet<{}, true>", $n), EnumeratedSet::<$n, true>::new([concat!("e", $n); $n]), custom_values($n)));
            spaces.push(types_space(format!("EnumeratedSet<{}, false>", $n), EnumeratedSet::<$n, false>::zeroless([concat!("e", $n); $n]), custom_values($n)));
        )*};
    }
    enums!(1, 100, 254, 255, 256, 257, 300);
    spaces.push(custom::limit_tables_in_every_type());
    Plan {
        spaces,
        rule: "A state is one (system, value) pair; a transition is the step from the u128 execution to the execution in one narrower type that holds the value. Fallible result (label, error kind and carried value) and infallible label of the real code are compared across u8, u16, u32, u64, u128 and usize.".into(),
        bounds: "Every built-in system: all values below 2^16 (so every u8 and u16; thorough 2^21 or 2^22), type limits down to 599 below, power-of-two and power-of-ten boundaries, truncation aliases and deviation-bounded numerals up to u64::MAX (linear systems: up to their limit, and values around 2^31, 2^32 and 2^33). Collections of 20 lengths up to usize::MAX with every flag, enumerated sets around 256 entries, every additive table over the integer type limits, with and without 1 and zero.".into(),
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C16

fn hash128(s: &str) -> u128 {
    let mut a = 0xcbf2_9ce4_8422_2325u64;
    let mut b = 0x9e37_79b9_7f4a_7c15u64;
    for &x in s.as_bytes() {
        a = (a ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3);
        b = (b.rotate_left(7) ^ u64::from(x)).wrapping_mul(0xff51_afd7_ed55_8ccd);
    }
    u128::from(a) << 64 | u128::from(b)
}

pub fn plan_unique(t: Tier) -> Plan {
    let systems: Arc<Vec<Sys>> = Arc::new(all_systems());
    let doms: Arc<Vec<Vec<Dom>>> = Arc::new(
        systems
            .iter()
            .map(|s| {
                let mut v = dom::values(s, match s.kind {
                    Kind::Roman => dom::depth(t, (20, 1), (23, 1)),
                    Kind::Hebrew => dom::depth(t, (17, 1), (21, 1)),
                    Kind::Chinese => dom::depth(t, (14, 1), (20, 2)),
                    Kind::Fixed => dom::depth(t, (18, 1), (23, 2)),
                    _ => dom::depth(t, (16, 1), (22, 2)),
                });
                if linear(s.kind) {
                    v.push(dom::long_values(s.kind));
                }
                v
            })
            .collect(),
    );
    // One case per system and integer type; the whole label set is compared.
    let widths: &'static [usize] = &[4, 0, 1, 2, 3, 5];
    let n = systems.len() * widths.len();
    let space = Space::new("label sets", vec![Dom::Range(0, n as u128)], move |case, cx| {
        let si = case as usize / widths.len();
        let w = widths[case as usize % widths.len()];
        let s = &systems[si];
        let mut seen: Vec<(u128, u128)> = Vec::new();
        let mut ok_seen: Vec<(u128, u128)> = Vec::new();
        for d in &doms[si] {
            for i in 0..d.len() {
                let v = d.get(i);
                if v > MAXES[w] {
                    break;
                }
                if i % 1024 == 0 {
                    heartbeat();
                }
                let label = (s.inf[w])(v);
                cx.calls += 1;
                let h = hash128(&label);
                let fallible = (s.tryf[w])(v);
                cx.calls += 1;
                unguarded(|| seen.push((h, v)));
                if let Ok(l) = fallible {
                    if *l != *label {
                        let h = hash128(&l);
                        unguarded(|| ok_seen.push((h, v)));
                    }
                }
            }
        }
        for (set, fallible) in [(&mut seen, false), (&mut ok_seen, true)] {
            heartbeat();
            set.sort_unstable();
            heartbeat();
            for p in set.windows(2) {
                cx.transitions += 1;
                if p[0].0 == p[1].0 && p[0].1 != p[1].1 {
                    let f = |v| if fallible { (s.tryf[w])(v).unwrap_or_default() } else { (s.inf[w])(v) };
                    let (a, b) = (f(p[0].1), f(p[1].1));
                    if *a == *b {
                        return Err(format!("{} as {}: {} and {} share the label \"{}\"", s.name, WIDTHS[w], p[0].1, p[1].1, short(&a)));
                    }
                }
            }
        }
        cx.extra_states += (seen.len() as u64).saturating_sub(1);
        cx.tag("label set without repetition");
        if cx.trace {
            cx.note = format!("{} as {}: {} values, all labels distinct", s.name, WIDTHS[w], seen.len());
        }
        Ok(())
    })
    .chunk(1);
    Plan {
        spaces: vec![space],
        rule: "A state is one (system, value) pair; a transition is one adjacent pair of the sorted label set of a system. All infallible labels (and all fallible labels that differ from them) of the explored values are produced by the real code, sorted by a 128-bit hash, and equal hashes decided by comparing the labels, so a repetition among the explored values cannot be missed or invented.".into(),
        bounds: "Every built-in system and configuration (91) in every integer type: all values below 2^14 (Chinese), 2^16, 2^17 (Hebrew), 2^18 (fixed) or 2^20 (Roman); thorough 2^20 to 2^23; plus deviation-bounded numerals or words, zero/one windows, boundaries and truncation aliases up to u128::MAX.".into(),
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C17

pub fn plan_heap(t: Tier) -> Plan {
    let mut spaces = vec![];
    for s in all_systems() {
        let s = Arc::new(s);
        let d = match s.kind {
            Kind::Chinese => dom::depth(t, (13, 1), (20, 2)),
            Kind::Roman => dom::depth(t, (20, 1), (23, 2)),
            _ => dom::depth(t, (14, 0), (22, 2)),
        };
        let mut doms = dom::values(&s, d);
        if linear(s.kind) {
            // The labels around 62 bytes.
            let hi = (s.limit / 2000 * 64).min(s.limit);
            let step = (hi / 60_000).max(1);
            let l: Vec<u128> = (1 << 14..hi).step_by(step as usize).collect();
            doms.push(Dom::List(Arc::new(l)));
        }
        spaces.push(Space::new(s.name.clone(), doms, move |n, cx| {
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let a = allocs();
                let r = (s.tryf[w])(n);
                let b = allocs();
                let i = (s.inf[w])(n);
                let c = allocs();
                cx.calls += 2;
                cx.transitions += 1;
                if let Ok(l) = &r {
                    heap_rule(&s.name, w, n, "fallible", l, b - a)?;
                } else if b != a {
                    return Err(format!("{} of {n} as {}: failing fallible formatting made {} heap allocations", s.name, WIDTHS[w], b - a));
                }
                heap_rule(&s.name, w, n, "infallible", &i, c - b)?;
                cx.tag(if i.len() > 62 { "heap" } else { "inline" });
                if cx.trace {
                    cx.note = format!("{} {n}: {} bytes, {} allocations", s.name, i.len(), c - b);
                }
            }
            Ok(())
        }));
    }
    spaces.push(super::strings::heap_space(t));
    Plan {
        spaces,
        rule: "A state is one (system, value) pair, or one string building history; a transition is one formatting call or push under a counting global allocator that records every allocation and reallocation of the calling thread. At most 62 bytes: zero allocations and is_inline(); above: not inline.".into(),
        bounds: "Every built-in system in every integer type: all values below 2^13 to 2^20 by system (thorough 2^20 to 2^23), boundaries, deviation-bounded numerals, for linear systems values up to about 64 symbols; every push history of the C01 state graph up to 62 bytes.".into(),
        assumptions: vec!["Allocations are observed through the Rust global allocator.".into()],
    }
}

fn heap_rule(name: &str, w: usize, n: u128, what: &str, l: &NominalString, made: u64) -> Result<(), String> {
    if l.len() <= 62 {
        if made != 0 {
            return Err(format!("{name} of {n} as {}: {what} formatting of a {} byte label made {made} heap allocations", WIDTHS[w], l.len()));
        }
        if !l.is_inline() {
            return Err(format!("{name} of {n} as {}: the {} byte label is not inline", WIDTHS[w], l.len()));
        }
    } else if l.is_inline() {
        return Err(format!("{name} of {n} as {}: the {} byte label reports itself inline", WIDTHS[w], l.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

/// A user system with its own infallible formatting and its own errors.
#[derive(Clone, Copy)]
struct Custom(u8);
impl<T: Wide> NominalSystem<T> for Custom {
    fn format_nominal(&self, n: T) -> NominalString {
        let mut s = NominalString::new();
        for c in format!("<{}:{}>", self.0, n.wide()).chars() {
            s.try_push(c).unwrap();
        }
        s
    }
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
        match (n.wide() % 4 + u128::from(self.0)) % 4 {
            0 => Err(Error::OutOfBounds(n)),
            1 => Err(Error::OutOfMemory(n)),
            2 if n.is_zero() => Err(Error::NoZeroSymbol),
            _ => Ok(NominalString::from(format!("ok{}", n.wide()).as_str())),
        }
    }
}

type Results<T> = (Result<NominalString, Error<T>>, NominalString, Result<NominalString, Error<T>>, NominalString);

/// Through the system and through the number.
fn four<T: Nominal, S: NominalSystem<T>>(s: &S, n: T) -> Results<T> {
    (s.try_format_nominal(n), s.format_nominal(n), n.try_to_nominal(s), n.to_nominal(s))
}

enum Any<T> {
    B(Box<dyn NominalSystem<T>>),
    R(Rc<dyn NominalSystem<T>>),
    A(Arc<dyn NominalSystem<T>>),
}
impl<T: Wide + 'static> Any<T> {
    fn new<S: NominalSystem<T> + 'static>(s: S, kind: u8) -> Self {
        match kind {
            0 => Any::B(Box::new(s)),
            1 => Any::R(Rc::new(s)),
            _ => Any::A(Arc::new(s)),
        }
    }
    fn wrap(self, kind: u8) -> Self {
        match self {
            Any::B(b) => Any::new(b, kind),
            Any::R(b) => Any::new(b, kind),
            Any::A(b) => Any::new(b, kind),
        }
    }
}

/// Every stack of wrappers up to `depth` around a system, and every way of
/// calling each. Only the innermost layer knows the system's type.
fn paths_in<T, S>(name: &str, s: &S, values: &[u128], max: u128, depth: usize, cx: &mut Cx) -> Result<(), String>
where
    T: Wide + PartialEq + std::fmt::Debug + 'static,
    S: NominalSystem<T> + Clone + 'static,
{
    compare_paths(name, &|n| four(s, n), s, &|k| Any::new(s.clone(), k), values, max, depth, cx)
}

#[allow(clippy::too_many_arguments)]
fn compare_paths<T: Wide + PartialEq + std::fmt::Debug + 'static>(
    name: &str,
    direct: &dyn Fn(T) -> Results<T>,
    dynamic: &dyn NominalSystem<T>,
    root: &dyn Fn(u8) -> Any<T>,
    values: &[u128],
    max: u128,
    depth: usize,
    cx: &mut Cx,
) -> Result<(), String> {
    let mut stacks: Vec<Vec<u8>> = vec![vec![]];
    let mut ways: Vec<(String, Any<T>)> = vec![];
    for _ in 0..depth {
        stacks = stacks.iter().flat_map(|st| (0..3u8).map(move |k| [st.clone(), vec![k]].concat())).collect();
        for st in &stacks {
            let name = st.iter().rev().map(|k| ["Box", "Rc", "Arc"][*k as usize]).collect::<Vec<_>>().join(" of ");
            ways.push((name, st[1..].iter().fold(root(st[0]), |any, &k| any.wrap(k))));
        }
    }
    for &v in values {
        if v > max {
            break;
        }
        let n = T::narrow(v);
        let (t0, i0, t1, i1) = direct(n);
        let mut judge = |way: &str, (a, b, c, d): Results<T>| {
            cx.calls += 4;
            cx.transitions += 1;
            if a != t0 || c != t0 || b != i0 || d != i0 {
                return Err(format!("{name} of {v} as {}: direct {t0:?} / \"{}\", {way}: {a:?} / \"{}\", through the number {c:?} / \"{}\"", std::any::type_name::<T>(), short(&i0), short(&b), short(&d)));
            }
            Ok(())
        };
        judge("direct", (t1.clone(), i1.clone(), t1, i1))?;
        judge("by dyn reference", (dynamic.try_format_nominal(n), dynamic.format_nominal(n), n.try_to_nominal(dynamic), dynamic.format_nominal(n)))?;
        for (way, any) in &ways {
            let r = match any {
                Any::B(b) => four(b, n),
                Any::R(b) => four(b, n),
                Any::A(b) => four(b, n),
            };
            judge(way, r)?;
        }
        cx.extra_states += 1;
    }
    Ok(())
}

fn paths_space<S>(name: String, s: S, values: Arc<Vec<u128>>, depth: usize) -> Space
where
    S: custom::All6 + Clone + Send + Sync + 'static,
{
    let nm = name.clone();
    Space::new(name, vec![Dom::Range(0, 6)], move |w, cx| {
        match w {
            0 => paths_in::<u8, S>(&nm, &s, &values, MAXES[0], depth, cx)?,
            1 => paths_in::<u16, S>(&nm, &s, &values, MAXES[1], depth, cx)?,
            2 => paths_in::<u32, S>(&nm, &s, &values, MAXES[2], depth, cx)?,
            3 => paths_in::<u64, S>(&nm, &s, &values, MAXES[3], depth, cx)?,
            4 => paths_in::<u128, S>(&nm, &s, &values, MAXES[4], depth, cx)?,
            _ => paths_in::<usize, S>(&nm, &s, &values, MAXES[5], depth, cx)?,
        }
        if cx.trace {
            cx.note = format!("{nm} as {}: every wrapper stack agrees", WIDTHS[w as usize]);
        }
        Ok(())
    })
    .chunk(1)
}

/// A shared handle, so that every system can be cloned into the wrappers.
struct Shared<S>(Arc<S>);
impl<S> Clone for Shared<S> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T: Nominal, S: NominalSystem<T>> NominalSystem<T> for Shared<S> {
    fn format_nominal(&self, n: T) -> NominalString {
        self.0.format_nominal(n)
    }
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
        self.0.try_format_nominal(n)
    }
}

pub fn plan_paths(t: Tier) -> Plan {
    let mut spaces = vec![];
    let (dense, depth) = if t == Tier::Quick { (3_000u128, 2) } else { (70_000, 3) };
    let mut base: Vec<u128> = (0..dense).collect();
    for e in 0..39 {
        base.extend([10u128.pow(e), 10u128.pow(e) - 1, 10u128.pow(e) * 3 + 1]);
    }
    for m in MAXES {
        base.extend([m, m - 1, m / 2, m.saturating_add(1)]);
    }
    base.sort_unstable();
    base.dedup();
    let upto = |hi: u128| Arc::new(base.iter().copied().filter(|&x| x <= hi).collect::<Vec<_>>());
    macro_rules! add {
        ($limit:expr; $($e:expr),* $(,)?) => {$(
            spaces.push(paths_space(stringify!($e).into(), Shared(Arc::new($e)), upto($limit), depth));
        )*};
    }
    add!(u128::MAX; Decimal, EasternArabic, Persian, Bengali, Cambodian, CjkDecimal, Devanagari, Gujarati, Gurmukhi, Kannada, Lao, Malayalam, Mongolian, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan, HexUpper, HexLower,
        LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable,
        LetterUpper.one_based(), Hiragana.one_based(), Decimal.one_based(),
        CircledNumber, DoubleCircledNumber, CjkHeavenlyStem, CjkEarthlyBranch, Ethiopic,
        SimplifiedChineseInformal::default(), SimplifiedChineseFormal::default().financial(), TraditionalChineseInformal::default().short_scale(),
        TraditionalChineseFormal::default().mid_scale(), SimplifiedChineseInformal::default().long_scale().financial(),
        Decimal.and(LetterUpper), Restrict::new(2, Decimal), NoFallback, CjkHeavenlyStem.one_based(),
        EnumeratedSet::<3, true>::new(["a", "b", "c"]), EnumeratedSet::<3, false>::zeroless(["a", "b", "c"]), DigitSet::<2, false>::zeroless(['x', 'y']));
    add!(200_000; ArmenianUpper, ArmenianLower, Georgian, JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal, HanjaFormal, RomanUpper, RomanLower, Hebrew,
        AdditiveSet::<2>::new([("C", 100), ("s", 7)]));
    let d2 = depth + 1;
    for k in 0..4u8 {
        spaces.push(paths_space(format!("a user system with its own infallible formatting ({k})"), Custom(k), upto(u128::MAX), d2));
    }
    spaces.push(paths_space("a user digit collection".into(), Shared(Arc::new(Dyn::<CjkDecimal>::new(Virt::<CjkDecimal>::new(7, false, false, true)))), upto(u128::MAX), depth));
    // Through the registry: number call against system call on full domains.
    Plan {
        spaces,
        rule: "A state is one (system, integer type, value) triple; a transition is one way of invoking the system for it: directly, by reference, by dyn reference, and through every stack of Box, Rc and Arc trait objects up to the depth bound, each by the system's and the number's own methods, fallible and infallible. All results of the real code are compared with the direct call.".into(),
        bounds: "Wrapper stacks up to depth 2 (3 for user systems with overridden infallible formatting; thorough 3 and 4); every system; all values below 3000 (thorough 70,000), powers of ten with neighbours, type limits.".into(),
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C20

pub fn plan_pairs(t: Tier) -> Plan {
    let mut spaces = vec![];
    let find = |n: &str| -> Sys { all_systems().into_iter().find(|s| s.name == n).unwrap_or_else(|| panic!("{n}")) };
    let mut pair = |a: &str, b: &str, d: Depth, f: Box<dyn Fn(&str, &mut String) + Send + Sync>| {
        let (a, b) = (find(a), find(b));
        let doms = dom::values(&a, d);
        let name = format!("{} / {}", a.name, b.name);
        let nm = name.clone();
        spaces.push(Space::new(name, doms, move |n, cx| {
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let (x, y) = ((a.tryf[w])(n), (b.tryf[w])(n));
                cx.calls += 2;
                cx.transitions += 1;
                let good = match (&x, &y) {
                    (Ok(x), Ok(y)) => {
                        cx.buf.clear();
                        f(x, &mut cx.buf);
                        *cx.buf == **y
                    }
                    _ => eq(&x, &y),
                };
                if !good {
                    return Err(format!("{nm} of {n} as {}: {} against {}", WIDTHS[w], show(&x), show(&y)));
                }
                cx.tag(if x.is_ok() { "both labels" } else { "both errors" });
                if cx.trace {
                    cx.note = format!("{nm} {n}: {} / {}", show(&x), show(&y));
                }
            }
            Ok(())
        }));
    };
    let q = |a, b| dom::depth(t, a, b);
    let lower = || -> Box<dyn Fn(&str, &mut String) + Send + Sync> { Box::new(|s, o| s.chars().for_each(|c| o.extend(c.to_lowercase()))) };
    let subst = |from: &str, to: &str| -> Box<dyn Fn(&str, &mut String) + Send + Sync> {
        let m: Vec<(char, char)> = from.chars().zip(to.chars()).collect();
        Box::new(move |s, o| s.chars().for_each(|c| o.push(m.iter().find(|x| x.0 == c).map_or(c, |x| x.1))))
    };
    for (u, l) in [("LetterUpper", "LetterLower"), ("GreekUpper", "GreekLower"), ("HexUpper", "HexLower"), ("LetterUpper.one_based", "LetterLower.one_based"), ("GreekUpper.one_based", "GreekLower.one_based")] {
        pair(u, l, q((17, 1), (24, 2)), lower());
    }
    for (u, l) in [("RomanUpper", "RomanLower"), ("ArmenianUpper", "ArmenianLower")] {
        pair(u, l, q((18, 1), (24, 2)), lower());
    }
    for (h, k) in [("Hiragana", "Katakana"), ("HiraganaIroha", "KatakanaIroha"), ("Hiragana.one_based", "Katakana.one_based"), ("HiraganaIroha.one_based", "KatakanaIroha.one_based")] {
        pair(h, k, q((17, 1), (23, 2)), Box::new(|s, o| s.chars().for_each(|c| o.push(char::from_u32(c as u32 + 0x60).unwrap()))));
    }
    pair("HangeulJamo", "HangeulSyllable", q((17, 1), (23, 2)), {
        // Each jamo against the syllable it starts.
        let m: Vec<(char, char)> = hangeul_jamo().into_iter().zip(hangeul_syllables()).collect();
        Box::new(move |s, o| s.chars().for_each(|c| o.push(m.iter().find(|x| x.0 == c).map_or(c, |x| x.1))))
    });
    pair("Persian", "Urdu", q((16, 0), (20, 1)), Box::new(|s, o| o.push_str(s)));
    pair("Cambodian", "Khmer", q((16, 0), (20, 1)), Box::new(|s, o| o.push_str(s)));
    // Chinese: every configuration against its neighbours.
    let cd = q((14, 1), (20, 2));
    for scale in ["", ".short", ".mid", ".long"] {
        for fin in ["", ".financial"] {
            for form in ["Informal", "Formal"] {
                // simplified -> traditional
                let mut from = String::from("万亿沟涧载");
                let mut to = String::from("萬億溝澗載");
                if !fin.is_empty() {
                    from.push_str("贰叁陆");
                    to.push_str("貳參陸");
                }
                pair(&format!("SimplifiedChinese{form}{scale}{fin}"), &format!("TraditionalChinese{form}{scale}{fin}"), cd, subst(&from, &to));
            }
            for script in ["Simplified", "Traditional"] {
                let (one, ten) = if fin.is_empty() { ('一', '十') } else { ('壹', '拾') };
                pair(&format!("{script}ChineseInformal{scale}{fin}"), &format!("{script}ChineseFormal{scale}{fin}"), cd, Box::new(move |s, o| {
                    if s.starts_with(ten) {
                        o.push(one);
                    }
                    o.push_str(s);
                }));
            }
        }
        for script in ["Simplified", "Traditional"] {
            for form in ["Informal", "Formal"] {
                let to = if script == "Simplified" { "壹贰叁肆伍陆柒捌玖拾佰仟" } else { "壹貳參肆伍陸柒捌玖拾佰仟" };
                pair(&format!("{script}Chinese{form}{scale}"), &format!("{script}Chinese{form}{scale}.financial"), cd, subst("一二三四五六七八九十百千", to));
            }
        }
    }
    // Formal and informal additive systems: the same digit structure.
    for (i, f) in [("JapaneseInformal", "JapaneseFormal"), ("HanjaInformal", "HanjaFormal")] {
        let (a, b) = (find(i), find(f));
        let doms = dom::values(&a, q((17, 1), (23, 1)));
        let nm = format!("{i} / {f}");
        let tables: Vec<Vec<(String, u128)>> = [&a, &b]
            .iter()
            .map(|s| match &s.model {
                Model::Additive { table, zero } => {
                    let mut t = table.clone();
                    t.push((zero.clone().unwrap(), 0));
                    t
                }
                _ => unreachable!(),
            })
            .collect();
        fn structure(s: &str, table: &[(String, u128)]) -> Option<Vec<u128>> {
            let mut v = vec![];
            let mut rest = s;
            while !rest.is_empty() {
                let (t, x) = table.iter().filter(|(t, _)| rest.starts_with(t.as_str())).max_by_key(|(t, _)| t.len())?;
                v.push(*x);
                rest = &rest[t.len()..];
            }
            Some(v)
        }
        spaces.push(Space::new(nm.clone(), doms, move |n, cx| {
            for w in 0..6 {
                if n > MAXES[w] {
                    continue;
                }
                let (x, y) = ((a.tryf[w])(n), (b.tryf[w])(n));
                cx.calls += 2;
                cx.transitions += 1;
                let good = match (&x, &y) {
                    (Ok(x), Ok(y)) => {
                        let (p, q) = (structure(x, &tables[0]), structure(y, &tables[1]));
                        p.is_some() && p == q
                    }
                    _ => eq(&x, &y),
                };
                if !good {
                    return Err(format!("{nm} of {n} as {}: {} against {}", WIDTHS[w], show(&x), show(&y)));
                }
            }
            Ok(())
        }));
    }
    Plan {
        spaces,
        rule: "A state is one (pair of systems, value); a transition is the synchronous product step: both members format the value in one integer type, and the character map of the pair (case mapping, kana shift, character substitution, restored leading one, or the digit structure read from the two tables) applied to the one real label must give the other real label; failures must coincide.".into(),
        bounds: "Every documented pair (case, kana, aliases, simplified/traditional, ordinary/financial and informal/formal for every Chinese configuration, formal/informal Japanese and Hanja): all values below 2^14 (Chinese) to 2^18 (thorough 2^20 to 2^24) and the structured numerals and words of C03 to C11, in every integer type.".into(),
        assumptions: vec![],
    }
}
