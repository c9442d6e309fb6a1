//! C25: systems that compare equal are interchangeable, and copies are equal.

use super::*;
use nominals::*;
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};

type Labels = Vec<String>;

fn probes() -> Vec<u128> {
    let mut v: Vec<u128> = (0..130).collect();
    for k in [8u32, 16, 32, 64] {
        v.extend([(1u128 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for e in 2..39 {
        v.extend([10u128.pow(e), 10u128.pow(e) + 1, 10u128.pow(e) - 1]);
    }
    v.extend([1010, 2024, 10_010, 101_010, 1_203_405, u128::MAX, u128::MAX / 3]);
    v.sort_unstable();
    v.dedup();
    v
}

fn labels<S: NominalSystem<u8> + NominalSystem<u64> + NominalSystem<u128>>(s: &S, calls: &mut u64) -> Labels {
    let mut v = vec![];
    // Tallies: a symbol for every unit.
    let tally = 129u128.to_nominal(s).chars().count() > 100;
    for n in probes() {
        if tally && n > 300 {
            break;
        }
        *calls += 2;
        v.push(format!("{:?} {}", n.try_to_nominal(s).map(|l| l.to_string()), n.to_nominal(s)));
        if let Ok(n) = u8::try_from(n) {
            *calls += 1;
            v.push(format!("{:?}", n.try_to_nominal(s).map(|l| l.to_string())));
        } else if let Ok(n) = u64::try_from(n) {
            *calls += 1;
            v.push(format!("{:?}", n.try_to_nominal(s).map(|l| l.to_string())));
        }
    }
    v
}

/// All pairs of `all`, each with what it was built from.
fn kin<S, K>(name: &'static str, all: Vec<(K, S)>) -> Space
where
    S: NominalSystem<u8> + NominalSystem<u64> + NominalSystem<u128> + Copy + PartialEq + Debug + Send + Sync + 'static,
    K: PartialEq + Debug + Send + Sync + 'static,
{
    Space::new(name, vec![Dom::Range(0, all.len() as u128)], move |case, cx| {
        let (key, s) = &all[case as usize];
        let mine = labels(s, &mut cx.calls);
        #[allow(clippy::clone_on_copy)]
        let copy = s.clone();
        #[allow(clippy::eq_op)]
        if s != s || !(s == s) || copy != *s || !(*s == copy) {
            return Err(format!("{name} of {key:?}: not equal to itself or its copy"));
        }
        if labels(&copy, &mut cx.calls) != mine {
            return Err(format!("{name} of {key:?}: its clone formats differently"));
        }
        for (other, t) in &all {
            cx.transitions += 1;
            let eq = s == t;
            if eq != (t == s) || eq == (s != t) {
                return Err(format!("{name} of {key:?} and of {other:?}: == and != contradict each other"));
            }
            if key == other && !eq {
                return Err(format!("{name}: two of {key:?} are not equal"));
            }
            if eq {
                cx.extra_states += 1;
                if labels(t, &mut cx.calls) != mine {
                    return Err(format!("{name} of {key:?} and of {other:?}: equal, but they format differently"));
                }
            }
            // An overwritten one is like its source.
            let mut over = *t;
            over.clone_from(s);
            if over != *s || (case % 7 == 0 && labels(&over, &mut cx.calls) != mine) {
                return Err(format!("{name} of {other:?} overwritten by that of {key:?} is not like it"));
            }
        }
        cx.tag(if mine.iter().all(|l| l.starts_with("Err")) { "formats nothing" } else { "formats" });
        if cx.trace {
            cx.note = format!("{name} of {key:?}: {} labels, compared with {} others", mine.len(), all.len());
        }
        Ok(())
    })
    .chunk(1)
}

fn counts() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=28).collect();
    v.extend([127, 128, 254, 255, 256, 257, 258, 266, 300, 511, 512, 65_535, 65_536, 65_537, 65_546, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + 10, 1 << 63, usize::MAX - 1, usize::MAX]);
    v
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! chinese {
    ($v:ident; $($name:ident),*) => {$({
        let mut all = vec![];
        for case in 0..5u32.pow(3) {
            let mut s = $name::default();
            let (mut fin, mut scale) = (false, 0);
            for k in [case / 25, case / 5 % 5, case % 5] {
                s = match k {
                    1 => { fin = true; s.financial() }
                    2 => { scale = 1; s.short_scale() }
                    3 => { scale = 2; s.mid_scale() }
                    4 => { scale = 3; s.long_scale() }
                    _ => s,
                };
            }
            all.push(((fin, scale), s));
        }
        $v.push(kin(stringify!($name), all));
    })*};
}

fn errors() -> Space {
    let vals: Vec<u128> = probes();
    Space::new("errors", vec![Dom::Range(0, vals.len() as u128)], move |case, cx| {
        macro_rules! go {
            ($($t:ty),*) => {$(
                let conv = |n: u128| <$t>::try_from(n).ok();
                if let Some(a) = conv(vals[case as usize]) {
                    let mine = [Error::NoZeroSymbol, Error::OutOfMemory(a), Error::OutOfBounds(a)];
                    for b in vals.iter().filter_map(|&n| conv(n)) {
                        let theirs = [Error::NoZeroSymbol, Error::OutOfMemory(b), Error::OutOfBounds(b)];
                        for i in 0..3 {
                            for j in 0..3 {
                                cx.calls += 1;
                                cx.transitions += 1;
                                let same = i == j && (i == 0 || a == b);
                                #[allow(clippy::clone_on_copy)]
                                if (mine[i] == theirs[j]) != same || (mine[i] != theirs[j]) == same || mine[i].clone() != mine[i] {
                                    return Err(format!("{:?} and {:?} of {} compare wrongly", mine[i], theirs[j], stringify!($t)));
                                }
                            }
                        }
                    }
                }
            )*};
        }
        go!(u8, u16, u32, u64, u128, usize);
        Ok(())
    })
    .chunk(4)
}

pub fn plan(t: Tier) -> Plan {
    let mut v = vec![];
    chinese!(v; SimplifiedChineseInformal, SimplifiedChineseFormal, TraditionalChineseInformal, TraditionalChineseFormal);
    let c = counts();
    macro_rules! restrict {
        ($($e:expr),*) => {$( v.push(kin(concat!("restrictions of ", stringify!($e)), c.iter().map(|&n| (n, Restrict::new(n, $e))).collect())); )*};
    }
    restrict!(Decimal, LetterUpper, HangeulSyllable, Thai, Hiragana.one_based(), Decimal.and(HangeulSyllable), Restrict::new(7, Decimal));
    let top = if t == Tier::Thorough { 27 } else { 11usize };
    let pairs: Vec<(usize, usize)> = (0..=top).flat_map(|a| (0..=top).map(move |b| (a, b))).collect();
    v.push(kin("chains of restrictions", pairs.iter().map(|&(a, b)| ((a, b), Restrict::new(a, Decimal).and(Restrict::new(b, LetterLower)))).collect()));
    v.push(kin("one-based chains", pairs.iter().map(|&(a, b)| ((a, b), Restrict::new(a, LetterUpper).and(Restrict::new(b, LetterLower)).one_based())).collect()));
    v.push(kin("restricted one-based restrictions", pairs.iter().map(|&(a, b)| ((a, b), Restrict::new(a, Restrict::new(b, LetterUpper).one_based()))).collect()));
    let triples: Vec<(usize, usize, usize)> = [0usize, 1, 2, 10].iter().flat_map(|&a| [0usize, 1, 3].iter().flat_map(move |&b| [0usize, 1, 2, 26].iter().map(move |&c| (a, b, c)))).collect();
    v.push(kin("chains of three, left first", triples.iter().map(|&k| (k, Restrict::new(k.0, Decimal).and(Restrict::new(k.1, HexUpper)).and(Restrict::new(k.2, LetterLower)))).collect()));
    v.push(kin("chains of three, right first", triples.iter().map(|&k| (k, Restrict::new(k.0, Decimal).and(Restrict::new(k.1, HexUpper).and(Restrict::new(k.2, LetterLower))))).collect()));
    v.push(kin("default chain", vec![(0, Decimal.and(LetterUpper)), (0, Chain::default())]));
    v.push(kin("default restriction", vec![(0usize, Restrict::new(0, Decimal)), (0, Restrict::default()), (1, Restrict::new(1, Decimal))]));
    macro_rules! units {
        ($($e:ident),*) => {$(
            v.push(kin(stringify!($e), vec![((), $e), ((), $e::default())]));
        )*};
    }
    units!(Decimal, EasternArabic, Urdu, Khmer, Cambodian, CjkDecimal, Devanagari, Thai, HexUpper, HexLower, LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable, CircledNumber, DoubleCircledNumber, NoFallback);
    v.push(Space::new("hashes", vec![Dom::Range(0, 1)], |_, cx| {
        macro_rules! go {
            ($($e:expr),*) => {$(
                let (a, b) = ($e, $e);
                cx.calls += 1;
                cx.transitions += 1;
                if a != b || hash(&a) != hash(&b) || hash(&a.clone()) != hash(&a) {
                    return Err(format!("{} is not equal to, or hashes unlike, another of its kind", stringify!($e)));
                }
            )*};
        }
        go!(Decimal, HexUpper, LetterUpper, Hiragana, HangeulSyllable, CircledNumber, LetterUpper.one_based(), Hiragana.one_based().one_based());
        Ok(())
    }));
    v.push(errors());
    Plan {
        spaces: v,
        rule: "A state is a system of one configuration; a transition is one ordered pair of systems of a type. Equality must be an equivalence that holds for equal configurations and their copies, and two equal systems must give the same 300 labels and errors on the real code.".into(),
        bounds: "Every sequence of up to 3 selectors on the 4 Chinese systems; restrictions of 7 collections to 52 counts up to usize::MAX; all chains, one-based chains and nested restrictions of two parts of 0 to 11 (thorough 27) digits; chains of three parts; defaults of the built-in systems; all pairs of errors of 253 values in six types.".into(),
        assumptions: vec!["Two different configurations with the same labels may or may not be equal.".into()],
    }
}
