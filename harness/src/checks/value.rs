//! C03 to C11: every explored value of every system against its model, in
//! every integer type that holds it.

use super::*;

#[derive(Clone, Copy, Default)]
pub struct Opt {
    /// Also read the label back with the system's reader.
    pub read: bool,
}

pub fn same(r: &Raw, m: Result<(), ModelErr>, buf: &str, n: u128) -> bool {
    match (r, m) {
        (Ok(s), Ok(())) => **s == *buf,
        (Err(E::NoZero), Err(ModelErr::NoZero)) => true,
        (Err(E::Oob(v)), Err(ModelErr::OutOfBounds)) => *v == n,
        _ => false,
    }
}

pub fn show(r: &Raw) -> String {
    match r {
        Ok(s) => format!("\"{}\"", short(s)),
        Err(E::NoZero) => "NoZeroSymbol".into(),
        Err(E::Oom(n)) => format!("OutOfMemory({n})"),
        Err(E::Oob(n)) => format!("OutOfBounds({n})"),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 120 {
        let h: String = s.chars().take(60).collect();
        format!("{h}... ({} bytes)", s.len())
    } else {
        s.to_owned()
    }
}

pub fn show_model(m: Result<(), ModelErr>, buf: &str, n: u128) -> String {
    match m {
        Ok(()) => format!("\"{}\"", short(buf)),
        Err(ModelErr::NoZero) => "NoZeroSymbol".into(),
        Err(ModelErr::OutOfBounds) => format!("OutOfBounds({n})"),
        Err(ModelErr::Huge) => "a label longer than the model writes".into(),
    }
}

pub fn value_case(s: Arc<Sys>, opt: Opt) -> impl Fn(u128, &mut Cx) -> Result<(), String> {
    move |n, cx| {
        cx.buf.clear();
        let m = s.model.render(n, &mut cx.buf);
        for w in 0..6 {
            if n > MAXES[w] {
                continue;
            }
            let r = (s.tryf[w])(n);
            cx.calls += 1;
            if !same(&r, m, &cx.buf, n) {
                return Err(format!("{} of {n} as {}: got {}, expected {}", s.name, WIDTHS[w], show(&r), show_model(m, &cx.buf, n)));
            }
        }
        cx.tag(match m {
            Ok(()) if cx.buf.len() > 62 => "label over 62 bytes",
            Ok(()) => "label",
            Err(ModelErr::NoZero) => "no zero symbol",
            Err(_) => "out of bounds",
        });
        if opt.read && m.is_ok() {
            if let Some(v) = s.model.read(&cx.buf) {
                if v != Some(n) {
                    return Err(format!("{} of {n}: label \"{}\" reads as {v:?}", s.name, short(&cx.buf)));
                }
                cx.transitions += 1;
            }
        }
        // The edge from the previously explored value.
        cx.label.clear();
        cx.label.push_str(&cx.buf);
        if cx.prev.is_some() {
            cx.transitions += 1;
            if m.is_ok() && cx.prev != Some(n) && cx.label == cx.prev_label {
                return Err(format!("{}: {n} and {:?} share the label \"{}\"", s.name, cx.prev, short(&cx.label)));
            }
        }
        if cx.trace {
            cx.note = format!("{} {n} -> {}", s.name, show_model(m, &cx.buf, n));
        }
        Ok(())
    }
}

pub fn spaces(v: Vec<Sys>, depth: impl Fn(&Sys) -> Depth, opt: Opt) -> Vec<Space> {
    v.into_iter()
        .map(|s| {
            let s = Arc::new(s);
            let doms = dom::values(&s, depth(&s));
            Space::new(s.name.clone(), doms, value_case(s, opt))
        })
        .collect()
}

/// A few labels of up to 21 MB, around and past the 32-bit limit.
fn long(v: Vec<Sys>) -> Vec<Space> {
    v.into_iter()
        .map(|s| {
            let doms = vec![dom::long_values(s.kind)];
            Space::new(format!("{}, long labels", s.name), doms, value_case(Arc::new(s), READ)).chunk(1)
        })
        .collect()
}

const RULE: &str = "A state is one (system, value) pair; a transition is the step from one explored value to the next in ascending order (labels must differ), plus one read-back of a label where the system has a reader. Every state is replayed on the implementation in each of u8, u16, u32, u64, u128 and usize that can hold the value, and the label or error compared with the model's.";

const READ: Opt = Opt { read: true };

fn make((spaces, bounds): (Vec<Space>, &str)) -> Plan {
    Plan { spaces, rule: RULE.into(), bounds: bounds.into(), assumptions: vec![
        "The reference model (harness/src/model.rs) is the specification; it was written from the definitions of the numeral systems and agrees with its own readers on every state.".into(),
        "Values outside the stated bounds are not covered; systems whose labels grow linearly are explored up to labels of about 2000 symbols, plus a few values past the 32-bit limit.".into(),
    ] }
}

pub fn c03(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make((
        spaces(positional_systems(), |s| match s.name.as_str() {
            "Decimal" | "CjkDecimal" | "HexUpper" => q((20, 1), (27, 2)),
            _ => q((17, 0), (24, 2)),
        }, Opt::default()),
        "All values below 2^17 (quick; 2^20 for Decimal, CjkDecimal, HexUpper) or 2^24 / 2^27 (thorough), hence every u8 and u16; above, every numeral of every length up to u128::MAX that is a constant digit except for at most 1 (all digits), 2 or 3 positions; powers of 2 and 10 and of the base with neighbours, all type limits and truncation aliases.",
    ))
}

pub fn c04(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make((
        spaces(alpha_systems(), |_| q((18, 1), (25, 2)), Opt::default()),
        "All values below 2^18 (quick) or 2^25 (thorough); every word of every length up to u128::MAX that is one repeated letter except for at most 2 (quick) or 3 (thorough) letters, with its predecessor; the first words of every length, type limits, truncation aliases.",
    ))
}

pub fn c05(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make({
        let mut v = spaces(fixed_systems(), |_| q((20, 1), (28, 2)), Opt::default());
        v.extend(custom::enumerated(tier));
        v.push(custom::enumerated_symbols());
        v.extend(custom::fixed_collections(tier));
        (v, "Built-in sets: all values below 2^20 (quick) or 2^28 (thorough), deviation-bounded decimal numerals up to u128::MAX, type limits and truncation aliases. Custom enumerated sets and fixed collections: every size in the list, with and without zero, based at zero and one, with and without fallback; all values below 1100 plus all boundaries; enumerations of four symbols with every choice of empty, plain and composed symbols.")
    })
}

pub fn c06(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make({
        let mut v = spaces(additive_systems(), |_| q((18, 1), (25, 1)), READ);
        v.extend(long(additive_systems()));
        v.extend(custom::additive(tier));
        v.push(custom::additive_symbols());
        (v, "Built-in tables: all values below 2^18 (quick) or 2^25 or the system limit (thorough; labels of at most about 2000 symbols), values around 2^31, 2^32 and 2^33, boundaries and deviation-bounded decimal numerals within it. Custom tables: every strictly descending table over small values up to size 5, with and without zero, all values 0 to 300; tables with values around every integer type limit; every assignment of empty, plain, composed and long symbols to tables over {300, 10, 5, 2, 1, 0}; every non-descending table must be refused.")
    })
}

pub fn c07(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    let mut v = spaces(roman_systems(), |_| q((21, 1), (27, 2)), READ);
    v.extend(long(roman_systems()));
    make((v, "All values below 2^21 (quick) or 2^27 (thorough), thus the complete period of the notation below one million and beyond, plus boundaries and deviation-bounded decimal numerals up to 2*10^9 (2000 overlined M), and values around 2^31, 2^32, 2^33, 10^10, 2^36 and 2^40."))
}

pub fn c08(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    let mut v = spaces(hebrew_systems(), |_| q((20, 1), (24, 1)), READ);
    v.extend(long(hebrew_systems()));
    make((v, "All values up to 1,048,575 (quick) or the explored limit of 1,200,000 (thorough; 3000 letters), and values around 2^31, 2^32 and 2^33 (labels of up to 43 MB)."))
}

pub fn c09(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make((spaces(ethiopic_systems(), |_| q((22, 3), (30, 2)), READ), "All values below 2^22 (quick) or 2^30 (thorough); deviation-bounded numerals in base 10 and 100, every zero/one window of 15 (18) digits at every shift up to u128::MAX, boundaries."))
}

pub fn c10(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make((spaces(chinese_myriad(), |_| q((18, 1), (26, 2)), READ), "All values below 2^18 (quick) or 2^26 (thorough); every decimal numeral up to u128::MAX that is constant except for at most 2 (3) digits; every zero/one window of 12 (18) digits at every shift; every choice of 2 (3) four-digit groups and zero/one shapes for them over empty, 1111 and 2020 backgrounds; boundaries."))
}

pub fn c11(tier: Tier) -> Plan {
    let q = |quick, thorough| dom::depth(tier, quick, thorough);
    make({
        let mut v = spaces(chinese_scaled(), |_| q((17, 1), (24, 2)), READ);
        v.extend(custom::selectors(tier));
        (v, "As C10 for short, mid and long scale: all values below 2^17 (quick) or 2^24 (thorough) and the same structured numerals; every sequence of up to 4 (5) scale and usage selectors on each of the four systems, compared on 40 (160) probe values.")
    })
}
