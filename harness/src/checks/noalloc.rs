//! C15: the build without the `alloc` feature.

use super::custom::{cjk, inf_w, list_values, trees, try_w, upper, value_doms, All6, ListModel, Virt};
use super::value::{short, show, show_model};
use super::*;
use nominals::*;

/// What the full build's result becomes when only 62 bytes are available.
fn judge(name: &str, w: usize, n: u128, m: Result<(), ModelErr>, full: &str, r: Raw, inf: &NominalString, plain: &str) -> Result<&'static str, String> {
    let (ok, tag) = match (&r, m) {
        (Ok(l), Ok(())) => (**l == *full && full.len() <= 62, "label"),
        (Err(E::Oom(v)), Ok(())) => (*v == n && full.len() > 62, "out of memory"),
        (Err(E::Oom(v)), Err(ModelErr::Huge)) => (*v == n, "out of memory"),
        (Err(E::NoZero), Err(ModelErr::NoZero)) => (true, "no zero symbol"),
        // Running out of space before the value turns out to have no label.
        (Err(E::Oob(v) | E::Oom(v)), Err(ModelErr::OutOfBounds)) => (*v == n, "out of bounds"),
        // The unreachable remainder of a value whose label would be long.
        _ => (false, ""),
    };
    if !ok {
        return Err(format!("{name} of {n} as {} without alloc: got {}, the full build gives {} ({} bytes)", WIDTHS[w], show(&r), show_model(m, full, n), full.len()));
    }
    let want = match &r {
        Ok(l) => &**l,
        Err(_) => plain,
    };
    if **inf != *want {
        return Err(format!("{name} of {n} as {} without alloc: infallible formatting gives \"{}\", expected \"{}\"", WIDTHS[w], short(inf), short(want)));
    }
    Ok(tag)
}

fn builtin(s: Sys, d: Depth) -> Space {
    let s = Arc::new(Sys { limit: u128::MAX, ..s });
    let doms = dom::values(&s, d);
    Space::new(s.name.clone(), doms, move |n, cx| {
        cx.buf.clear();
        let m = s.model.render(n, &mut cx.buf);
        cx.buf2.clear();
        push_decimal(n, ascii_digits(), &mut cx.buf2);
        let mut tag = "";
        for w in 0..6 {
            if n <= MAXES[w] {
                let r = (s.tryf[w])(n);
                let i = (s.inf[w])(n);
                cx.calls += 2;
                tag = judge(&s.name, w, n, m, &cx.buf, r, &i, &cx.buf2)?;
            }
        }
        cx.tag(tag);
        cx.transitions += u64::from(cx.prev.is_some());
        if cx.trace {
            cx.note = format!("{} {n}: {tag}; in full {}", s.name, show_model(m, &cx.buf, n));
        }
        Ok(())
    })
}

fn check<S: All6>(s: &S, name: &str, n: u128, m: Result<(), ModelErr>, cx: &mut Cx) -> Result<(), String> {
    cx.buf2.clear();
    push_decimal(n, ascii_digits(), &mut cx.buf2);
    for w in 0..6 {
        if n <= MAXES[w] {
            let r = try_w(s, w, n);
            let i = inf_w(s, w, n);
            cx.calls += 2;
            let tag = judge(name, w, n, m, &cx.buf, r, &i, &cx.buf2)?;
            cx.tag(tag);
        }
    }
    Ok(())
}

/// A symbol of exactly this many bytes.
fn symbol(len: usize) -> &'static str {
    static S: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        (0..=300)
            .map(|len| {
                let mut s = String::new();
                let pat = ["é", "x", "零", "😀", "ß"];
                let mut i = len;
                while s.len() < len {
                    let p = pat[i % 5];
                    if s.len() + p.len() <= len {
                        s.push_str(p);
                    } else {
                        s.push('y');
                    }
                    i += 1;
                }
                &*Box::leak(s.into_boxed_str())
            })
            .collect()
    })[len]
}

fn symbols() -> Vec<Space> {
    let mut v = vec![];
    // Symbols of every length 0 to 300, also as the zero symbol.
    v.push(Space::new("enumerated symbols of every length 1 to 300", vec![Dom::Range(0, 302)], |n, cx| {
        let e = EnumeratedSet::<300, false>::zeroless(std::array::from_fn(|i| symbol(i + 1)));
        let z = EnumeratedSet::<300, true>::new(std::array::from_fn(|i| symbol(i + 1)));
        cx.buf.clear();
        let m = if n < 300 { Ok(cx.buf.push_str(symbol(n as usize + 1))) } else { Err(ModelErr::OutOfBounds) };
        check(&z, "EnumeratedSet<300, true>", n, m, cx)?;
        cx.buf.clear();
        let m = match n {
            0 => Err(ModelErr::NoZero),
            1..=300 => Ok(cx.buf.push_str(symbol(n as usize))),
            _ => Err(ModelErr::OutOfBounds),
        };
        check(&e, "EnumeratedSet<300, false>", n, m, cx)
    })
    .chunk(16));
    const LENS: [usize; 22] = [1, 2, 3, 4, 5, 6, 7, 8, 15, 20, 21, 29, 30, 31, 32, 60, 61, 62, 63, 64, 255, 256];
    v.push(Space::new("additive symbols of every pair of lengths", vec![Dom::Range(0, 22 * 22 * 22)], |case, cx| {
        let (a, b, c) = (LENS[case as usize % 22], LENS[case as usize / 22 % 22], LENS[case as usize / 484]);
        let t = [(symbol(a), 10u128), (symbol(b), 3), (symbol(c), 0)];
        let s = AdditiveSet::<3>::new(t);
        for n in (0..130u128).chain([255, 256, 300, 65_535, 65_536, u32::MAX as u128, u64::MAX as u128, u128::MAX]) {
            cx.buf.clear();
            let m = if n == 0 {
                cx.buf.push_str(t[2].0);
                Ok(())
            } else {
                let (p, q, rest) = (n / 10, n % 10 / 3, n % 10 % 3);
                if rest > 0 {
                    Err(ModelErr::OutOfBounds)
                } else if p > 62 {
                    Err(ModelErr::Huge)
                } else {
                    (0..p).for_each(|_| cx.buf.push_str(t[0].0));
                    (0..q).for_each(|_| cx.buf.push_str(t[1].0));
                    Ok(())
                }
            };
            check(&s, &format!("AdditiveSet with symbols of {a}, {b} and {c} bytes"), n, m, cx)?;
            cx.transitions += 1;
            cx.extra_states += 1;
        }
        Ok(())
    })
    .chunk(64));
    v
}

fn list_check<S: All6>(m: &ListModel, s: &S, name: &str, v: u128, cx: &mut Cx) -> Result<(), String> {
    cx.buf.clear();
    if m.len == 1 && !m.zero && !m.fixed && v > 100 {
        // A tally: known to be longer than what fits.
        return check(s, name, v, Err(ModelErr::Huge), cx);
    }
    let mut buf = std::mem::take(&mut cx.buf);
    let want = m.render(v, &mut buf);
    cx.buf = buf;
    match want {
        Some(want) => check(s, name, v, want, cx),
        None => (0..6).filter(|&w| v <= MAXES[w]).try_for_each(|w| match try_w(s, w, v) {
            Err(E::NoZero) => Ok(()),
            Err(E::Oob(x)) if x == v => Ok(()),
            r => Err(format!("{name}: {v} as {} without alloc: got {}", WIDTHS[w], show(&r))),
        }),
    }
}

fn collections(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let (sizes, dense): (&[usize], u128) = if t == Tier::Quick { (&[0, 1, 2, 3, 10, 256], 140) } else { (&[0, 1, 2, 3, 10, 26, 254, 255, 256, 257, 300], 400) };
    let all = trees(2, sizes);
    v.push(Space::new("trees of up to 2 combinators", vec![Dom::Range(0, all.len() as u128)], move |case, cx| {
        let t = &all[case as usize];
        let (s, m) = (t.build(), t.model());
        let name = format!("{t:?}");
        for x in list_values(m.len, dense) {
            list_check(&m, &s, &name, x, cx)?;
            cx.extra_states += 1;
            cx.transitions += 1;
        }
        Ok(())
    })
    .chunk(16));
    fn fixed<F: DigitCollection + Default + 'static>(name: &'static str, fb: Option<fn(u128, &mut String)>) -> Space {
        Space::new(format!("fixed collections, fallback {name}"), value_doms(), move |n, cx| {
            for len in [1usize, 2, 10, 255, 256, 257, 65_536] {
                for c in 0..4 {
                    let (zero, zero_based) = (c & 1 == 1, c & 2 == 2);
                    let s = Virt::<F>::new(len, zero, zero_based, true);
                    let m = ListModel { len: len as u128, symbols: None, zero, one_based: !zero_based, fixed: true, fallback: fb };
                    list_check(&m, &s, "a fixed collection", n, cx).map_err(|e| format!("{len} digits, zero {zero}, zero based {zero_based}, fallback {name}: {e}"))?;
                    cx.transitions += 1;
                }
            }
            Ok(())
        })
    }
    v.push(fixed::<NoFallback>("none", None));
    v.push(fixed::<CjkDecimal>("CjkDecimal", Some(cjk)));
    v.push(fixed::<LetterUpper>("LetterUpper", Some(upper)));
    v
}

pub fn plan(t: Tier) -> Plan {
    let mut spaces = vec![];
    for s in all_systems() {
        let d = match s.kind {
            Kind::Positional => dom::depth(t, (14, 1), (22, 2)),
            Kind::Fixed => dom::depth(t, (17, 1), (24, 2)),
            Kind::Chinese => dom::depth(t, (14, 1), (22, 2)),
            Kind::Additive | Kind::Roman | Kind::Hebrew => dom::depth(t, (18, 1), (25, 1)),
            _ => dom::depth(t, (15, 1), (23, 2)),
        };
        spaces.push(builtin(s, d));
    }
    spaces.extend(symbols());
    spaces.extend(collections(t));
    spaces.push(strings::graph_space(t == Tier::Thorough));
    spaces.push(strings::scalar_space());
    spaces.push(strings::history_space(if t == Tier::Quick { 4 } else { 5 }));
    Plan {
        spaces,
        rule: "A state is one (system, value) pair or one nominal string history, executed in the build without the alloc feature; a transition is the step to the next value, or one push. Labels: the full build's label (the model's, which C03 to C11 bind to the full build) if it has at most 62 bytes, else OutOfMemory with the value and infallible decimal. Pushes: a push that fits changes the string as text, one that does not returns the error and leaves content, length and every later operation as if it had not happened.".into(),
        bounds: "All 91 built-in systems and configurations without a limit on the label length: all values below 2^14 to 2^18 by kind (thorough 2^22 to 2^25), boundaries, type limits, deviation-bounded numerals, words and zero windows up to u128::MAX; enumerated symbols of every length 1 to 300; additive symbols of every triple out of 22 lengths on 138 values; every tree of up to 2 combinators; fixed collections with three fallbacks; every constructor and fill style at every length 0 to 62 followed by every one (two; thorough three) operations with text of 0 to 300 bytes; all histories of 4 (5) of 14 operations at 13 fill levels.".into(),
        assumptions: vec!["Where the full build has no label (out of bounds), either out of bounds or out of memory is accepted, with the value.".into(), "From<&str> of a text over 62 bytes is not used without alloc; it is documented to panic.".into()],
    }
}
