//! C02: every state and transition of the nominal string, and the labels of
//! every system, executed under Miri, which stops at undefined behaviour.
//!
//! usage: nommiri <tier> <shard> <shards>
//!
//! Panics are no undefined behaviour and are not judged here.

use nominals::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(u8),
    Front(u8),
    Str(usize),
    Extra(u8),
}

/// Operations that are not pushes.
const EXTRAS: u8 = if cfg!(feature = "alloc") { 14 } else { 6 };

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
thread_local! {
    /// The smallest set of cases, for the slowest mode of the interpreter.
    static SMALL: Cell<bool> = const { Cell::new(false) };
}
fn small() -> bool {
    SMALL.with(Cell::get)
}
fn count() {
    N.with(|n| n.set(n.get() + 1));
}

fn ch(width: u8, i: usize) -> char {
    let i = i as u32;
    // Every third one is the first or last character of its width, or next to
    // a gap.
    if i % 3 == 2 {
        let edge: &[char] = match width {
            1 => &['\0', '\u{7F}'],
            2 => &['\u{80}', '\u{7FF}'],
            3 => &['\u{800}', '\u{D7FF}', '\u{E000}', '\u{FFFE}', '\u{FFFF}'],
            _ => &['\u{10000}', '\u{10FFFF}'],
        };
        return edge[i as usize / 3 % edge.len()];
    }
    char::from_u32(match width {
        1 => 0x61 + i % 26,
        2 => 0x3B1 + i % 17,
        3 => 0x4E00 + i % 3001,
        _ => 0x1F300 + i % 251,
    })
    .unwrap()
}

/// A text of `len` bytes with characters of every width.
fn text(len: usize) -> &'static str {
    thread_local! {
        static MADE: RefCell<BTreeMap<usize, &'static str>> = const { RefCell::new(BTreeMap::new()) };
    }
    MADE.with(|m| {
        *m.borrow_mut().entry(len).or_insert_with(|| {
            let mut s = String::new();
            let mut i = 0;
            while s.len() < len {
                let w = [3usize, 1, 4, 2, 1][i % 5].min(len - s.len());
                s.push(ch(w as u8, i));
                i += 1;
            }
            s.leak()
        })
    })
}

/// Reads every byte, so that an unwritten one is noticed, and looks at the text.
fn read(s: &NominalString) {
    let b = s.as_bytes();
    if core::str::from_utf8(b).is_err() || b.len() != s.len() {
        println!("BAD-TEXT: {b:02X?}");
        std::process::exit(7);
    }
    if b.len() > 62 && s.is_inline() {
        println!("BAD-LENGTH: {} bytes inline", b.len());
        std::process::exit(7);
    }
}

fn apply(op: Op, mut s: NominalString, i: usize) -> NominalString {
    match op {
        Op::Push(w) => drop(s.try_push(ch(w, i))),
        Op::Front(w) => drop(s.try_push_front(ch(w, i))),
        Op::Str(n) => drop(s.try_push_str(text(n))),
        Op::Extra(k) => match k {
            0 => s.make_ascii_uppercase(),
            1 => {
                let at = s.char_indices().last().map_or(0, |x| x.0);
                let (a, b) = s.split_at_mut(at);
                b.make_ascii_uppercase();
                a.make_ascii_lowercase();
            }
            2 => {
                let t = format!("{s} {s:?} {s:>70}");
                assert!(t.len() > 2);
            }
            3 => {
                let o = NominalString::from(&s[s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0)..]);
                read(&o);
                let _ = (s == o, s < o, s.cmp(&o), s == *"abc", s == "x", s.partial_cmp("k"));
            }
            4 => {
                if s.len() <= 62 {
                    s = NominalString::from(&*s);
                }
            }
            5 => {
                let mut moved = [s, NominalString::new(), NominalString::new_reverse()];
                moved.rotate_left(1);
                let [a, b, c] = moved;
                read(&a);
                read(&b);
                s = c;
            }
            #[cfg(feature = "alloc")]
            6 => {
                let c = s.clone();
                read(&c);
                drop(s);
                s = c;
            }
            #[cfg(feature = "alloc")]
            7 => s = NominalString::from(String::from(s)),
            #[cfg(feature = "alloc")]
            8 => s = NominalString::from(&s.to_string()),
            #[cfg(feature = "alloc")]
            9 => {
                s = match s.try_into_string() {
                    Ok(t) => NominalString::from(t),
                    Err(s) => s,
                }
            }
            #[cfg(feature = "alloc")]
            10 => {
                let mut c = s.clone();
                let _ = c.try_push_front('é');
                let _ = c.try_push('z');
                read(&c);
            }
            #[cfg(feature = "alloc")]
            11 => {
                let t = s.to_string();
                let _ = (s == t, s.partial_cmp(&t), s == NominalString::from(t.clone()));
            }
            #[cfg(feature = "alloc")]
            12 => {
                let mut c = NominalString::new();
                c.clone_from(&s);
                read(&c);
                s = std::mem::take(&mut c);
                read(&c);
            }
            #[cfg(feature = "alloc")]
            13 => {
                let b: Box<NominalString> = Box::new(s);
                read(&b);
                s = *b;
            }
            _ => {}
        },
    }
    s
}

fn start(reverse: bool, style: u8, len: usize) -> NominalString {
    let mut s = if reverse { NominalString::new_reverse() } else { NominalString::new() };
    let mut i = 0;
    let mut left = len;
    match style {
        // One character at a time at the end, at the front, text, mixed.
        0 => {
            while left > 0 {
                let w = [1usize, 2, 3, 4][i % 4].min(left);
                let _ = s.try_push(ch(w as u8, i));
                left -= w;
                i += 1;
            }
        }
        1 => {
            while left > 0 {
                let w = [4usize, 3, 1, 2][i % 4].min(left);
                let _ = s.try_push_front(ch(w as u8, i));
                left -= w;
                i += 1;
            }
        }
        2 => drop(s.try_push_str(text(len))),
        3 => {
            // Text with whole characters at either end, one after the other.
            let half = left / 2;
            let _ = s.try_push_str(text(half));
            left -= half;
            while left > 0 {
                let w = [2usize, 1, 4][i % 3].min(left);
                if i % 2 == 0 {
                    let _ = s.try_push_front(ch(w as u8, i));
                } else {
                    let _ = s.try_push(ch(w as u8, i));
                }
                left -= w;
                i += 1;
            }
        }
        _ => {
            if len <= 62 || cfg!(feature = "alloc") {
                s = NominalString::from(text(len));
            }
        }
    }
    s
}

fn run(what: impl FnOnce()) {
    count();
    let _ = catch_unwind(AssertUnwindSafe(what));
}

fn strings(thorough: bool, mine: &mut impl FnMut() -> bool) {
    let mut ops = vec![];
    for w in 1..=4 {
        ops.extend([Op::Push(w), Op::Front(w)]);
    }
    let few = ops.clone();
    ops.extend((0..EXTRAS).map(Op::Extra));
    let top = if cfg!(feature = "alloc") { 256 } else { 62 };
    let lens: Vec<usize> = (0..=63).chain([64, 65, 100, 128, 255, 256]).filter(|&n| n <= top && (thorough || !(10..54).contains(&n) || [16, 31, 32, 46].contains(&n))).collect();
    for reverse in [false, true] {
        for style in 0..5u8 {
            for &len in &lens {
                if small() && (!(1..3).contains(&style) || !([0, 1, 3, 5, 31, 64, 256].contains(&len) || (58..=62).contains(&len))) {
                    continue;
                }
                if !mine() {
                    continue;
                }
                println!("STATE reverse={reverse} style={style} len={len}");
                run(|| read(&start(reverse, style, len)));
                let mut strs: Vec<usize> = if thorough { vec![0, 1, 2, 3, 5, 8, 13, 31, 61, 62, 63, 193, 194, 195, 255, 256, 257] } else { vec![0, 3, 31, 62, 63, 194, 256] };
                for d in 0..=2 {
                    strs.extend((62usize + d).checked_sub(len + 1));
                    strs.extend((256usize + d).checked_sub(len + 1));
                    strs.extend((128usize + d).checked_sub(len + 1));
                }
                strs.sort_unstable();
                strs.dedup();
                let all: Vec<Op> = ops.iter().copied().chain(strs.iter().map(|&n| Op::Str(n))).collect();
                for &op in &all {
                    run(|| read(&apply(op, start(reverse, style, len), 1)));
                    let near = [0, 1, 3, 58, 59, 60, 61, 62, 63, 256].contains(&len);
                    if !thorough && style > 2 && !near {
                        continue;
                    }
                    let pushes = matches!(op, Op::Push(_) | Op::Front(_) | Op::Str(_));
                    let second: &[Op] = if thorough {
                        &ops
                    } else if !small() && near && pushes && (style == 1 || style == 2) {
                        &[Op::Push(1), Op::Push(4), Op::Front(2), Op::Front(3)]
                    } else {
                        &[]
                    };
                    for &o in second {
                        run(|| {
                            let s = apply(op, start(reverse, style, len), 1);
                            let s = apply(o, s, 2);
                            read(&s);
                        });
                    }
                    if thorough && near && style < 3 {
                        for &o in &few {
                            for p in [Op::Push(3), Op::Front(2), Op::Str(4), Op::Str(60), Op::Extra(1), Op::Extra(6)] {
                                run(|| {
                                    let mut s = start(reverse, style, len);
                                    for (i, x) in [op, o, p].into_iter().enumerate() {
                                        s = apply(x, s, i);
                                    }
                                    read(&s);
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

fn label<T: Nominal, S: NominalSystem<T>>(n: T, s: &S) {
    run(|| {
        if let Ok(mut l) = n.try_to_nominal(s) {
            read(&l);
            let _ = l.try_push('…');
            let _ = l.try_push_front('¿');
            read(&l);
        }
    });
    if !small() {
        run(|| read(&n.to_nominal(s)));
    }
}

fn labels(name: &str, top: u128, thorough: bool, mine: &mut impl FnMut() -> bool, f8: &dyn Fn(u8), f16: &dyn Fn(u16), f32: &dyn Fn(u32), f64: &dyn Fn(u64), f128: &dyn Fn(u128), fus: &dyn Fn(usize)) {
    let mut v: Vec<u128> = vec![0, 1, 9, 10, 11, 16, 26, 51, 99, 101, 256, 999, 1001, 3999];
    let mut p = 10_000u128;
    while p <= top {
        v.extend([p, p - 1]);
        if thorough {
            v.push(p + 1);
            v.extend([p.saturating_mul(2), p.saturating_add(p / 10), p.saturating_add(p / 1000), p / 9 * 7, p.saturating_add(1000)]);
        }
        let Some(next) = p.checked_mul(if thorough { 10 } else { 10_000_000 }) else { break };
        p = next;
    }
    for m in [u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, u128::MAX] {
        v.push(m);
    }
    if thorough {
        v.extend(0..130);
    }
    if small() {
        v = vec![0, 1, 77, 1234, 30_201, u64::MAX as u128, u128::MAX];
    }
    v.retain(|&x| x <= top);
    v.sort_unstable();
    v.dedup();
    for part in v.chunks(8) {
        if !mine() {
            continue;
        }
        println!("SYSTEM {name} {}..={}", part[0], part[part.len() - 1]);
        for &n in part {
            f128(n);
            let edge = n < 2 || n.checked_add(1).map_or(true, u128::is_power_of_two) || thorough;
            if edge {
                if n <= 255 {
                    f8(n as u8);
                }
                if n <= 65_535 {
                    f16(n as u16);
                }
                if n <= u32::MAX as u128 {
                    f32(n as u32);
                }
                if n <= u64::MAX as u128 {
                    f64(n as u64);
                    fus(n as usize);
                }
            }
        }
    }
}

/// A collection whose answers do not fit together.
struct Liar(usize, bool);
impl DigitCollection for Liar {
    type Fallback = NoFallback;
    fn fixed(&self) -> bool {
        self.1
    }
    fn has_zero_digit(&self) -> bool {
        self.0 % 2 == 0
    }
    fn zero_based(&self) -> bool {
        false
    }
    fn len(&self) -> usize {
        self.0
    }
    fn digit(&self, i: usize) -> char {
        ['a', 'ß', '零', '😀'][i % 4]
    }
}

/// Every method of a collection, called directly, with positions that exist
/// and positions that do not.
fn methods<C: DigitCollection>(name: &str, c: &C, mine: &mut impl FnMut() -> bool) {
    if !mine() {
        return;
    }
    println!("COLLECTION {name}");
    let len = catch_unwind(AssertUnwindSafe(|| c.len())).unwrap_or(3);
    run(|| {
        let _ = (c.fixed(), c.has_zero_digit(), c.zero_based(), c.is_empty(), c.len());
    });
    let mut at = vec![0usize, 1, 2, 7, 255, 256, 257, usize::MAX / 2, usize::MAX - 1, usize::MAX, 1 << 32, 1 << 63];
    for d in 0..3 {
        at.extend([len.wrapping_add(d), len.wrapping_sub(d)]);
    }
    at.sort_unstable();
    at.dedup();
    for i in at {
        // A panic is allowed, a character that is none is not.
        run(|| {
            let d = c.digit(i);
            let mut s = NominalString::from(d);
            let _ = s.try_push_front(d);
            read(&s);
        });
    }
}

/// A collection that formats with itself, or panics, in the middle of a label.
struct Reenter(u8);
thread_local! {
    static DEPTH: Cell<u8> = const { Cell::new(0) };
}
impl DigitCollection for Reenter {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        self.0 % 2 == 0
    }
    fn len(&self) -> usize {
        3
    }
    fn digit(&self, i: usize) -> char {
        if self.0 >= 4 && i == 2 {
            panic!("no such digit");
        }
        let deep = DEPTH.with(Cell::get);
        if self.0 >= 2 && deep < 2 {
            DEPTH.with(|d| d.set(deep + 1));
            let _ = catch_unwind(AssertUnwindSafe(|| {
                for n in [2u32, 14] {
                    if let Ok(l) = n.try_to_nominal(self) {
                        read(&l);
                    }
                }
            }));
            DEPTH.with(|d| d.set(deep));
        }
        ['x', 'é', '零'][i % 3]
    }
}

/// The same systems from several threads at once: the interpreter notices
/// every pair of accesses that no synchronisation orders.
fn threads(mine: &mut impl FnMut() -> bool) {
    macro_rules! both {
        ($($s:expr),* $(,)?) => {$(
            if mine() {
                println!("THREADS {}", stringify!($s));
                let s = &$s;
                count();
                std::thread::scope(|t| {
                    for k in 0..3u32 {
                        t.spawn(move || {
                            let _ = catch_unwind(AssertUnwindSafe(|| {
                                for n in [0u32, 1, 9, 15, 27, 100, 1234] {
                                    if let Ok(mut l) = (n + k).try_to_nominal(s) {
                                        let _ = l.try_push_front('¿');
                                        read(&l);
                                    }
                                    if let Ok(l) = u128::from(n + k).try_to_nominal(s) {
                                        read(&l);
                                    }
                                    if let Ok(l) = ((n + k) as u8).try_to_nominal(s) {
                                        read(&l);
                                    }
                                }
                            }));
                        });
                    }
                });
            }
        )*};
    }
    both!(
        Decimal, HexUpper, CjkDecimal, LetterUpper, GreekLower, Katakana, HangeulSyllable, LetterUpper.one_based(), CircledNumber, CjkHeavenlyStem,
        Ethiopic, Hebrew, RomanUpper, ArmenianLower, Georgian, JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal,
        SimplifiedChineseInformal::default(), SimplifiedChineseFormal::default().financial(), TraditionalChineseInformal::default().short_scale(), TraditionalChineseFormal::default().mid_scale(),
        Decimal.and(LetterUpper), Restrict::new(2, Decimal), AdditiveSet::<2>::new([("é😀", 100), ("s", 7)]), EnumeratedSet::<3, true>::new(["", "a", "零"]), DigitSet::<2, false>::zeroless(['😀', 'é']),
    );
}

fn collections(mine: &mut impl FnMut() -> bool) {
    macro_rules! all {
        ($($e:expr),* $(,)?) => {$( methods(stringify!($e), &$e, mine); )*};
    }
    all!(
        Decimal, EasternArabic, Persian, Bengali, Cambodian, CjkDecimal, Devanagari, Gujarati, Gurmukhi, Kannada, Lao, Malayalam, Mongolian, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan,
        HexLower, HexUpper, LetterLower, LetterUpper, GreekLower, GreekUpper, Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable,
        CjkHeavenlyStem, CjkEarthlyBranch, NoFallback,
        LetterUpper.one_based(), OneBased::new(Decimal), OneBased::new(OneBased::new(HexLower)),
        Decimal.and(LetterUpper), NoFallback.and(NoFallback), NoFallback.and(Decimal), Decimal.and(NoFallback), Decimal.and(HexLower).and(LetterLower), Katakana.and(CjkHeavenlyStem.and(CjkEarthlyBranch)),
        Restrict::new(0, Decimal), Restrict::new(3, Decimal), Restrict::new(usize::MAX, Decimal), Restrict::new(3, Decimal).and(LetterUpper), Restrict::new(12, Decimal.and(LetterUpper)),
        DigitSet::<0, true>::new([]), DigitSet::<0, false>::zeroless([]), DigitSet::<1, true>::new(['z']), DigitSet::<1, false>::zeroless(['z']), DigitSet::<3, true>::new(['a', 'é', '😀']), DigitSet::<3, false>::zeroless(['a', 'é', '😀']),
        DigitSet::<257, true>::new(['零'; 257]), DigitSet::<257, false>::zeroless(['零'; 257]), DigitSet::<3, true>::new(['a', 'é', '😀']).and(DigitSet::<2, false>::zeroless(['b', 'c'])), Restrict::new(2, DigitSet::<3, false>::zeroless(['a', 'é', '😀'])), OneBased::new(DigitSet::<3, false>::zeroless(['a', 'é', '😀'])),
        Liar(usize::MAX, true).and(Decimal), Decimal.and(Liar(usize::MAX, false)), Restrict::new(5, Liar(0, true)), Liar(7, true).and(Liar(1 << 63, false)),
    );
}

fn systems(thorough: bool, mine: &mut impl FnMut() -> bool) {
    macro_rules! go {
        ($top:expr; $($e:expr),* $(,)?) => {$({
            let s = $e;
            labels(stringify!($e), $top, thorough, mine, &|n| label(n, &s), &|n| label(n, &s), &|n| label(n, &s), &|n| label(n, &s), &|n| label(n, &s), &|n| label(n, &s));
        })*};
    }
    go!(u128::MAX;
        Decimal, CjkDecimal, Mongolian, HexUpper,
        LetterUpper, LetterLower, GreekUpper, GreekLower, Hiragana, HiraganaIroha, Katakana, KatakanaIroha, HangeulJamo, HangeulSyllable,
        LetterUpper.one_based(), HangeulSyllable.one_based(), Katakana.one_based(),
        CircledNumber, DoubleCircledNumber, CjkHeavenlyStem, CjkEarthlyBranch, Ethiopic,
        SimplifiedChineseInformal::default(), SimplifiedChineseFormal::default().financial(), TraditionalChineseInformal::default().short_scale(), TraditionalChineseFormal::default().mid_scale(),
        SimplifiedChineseInformal::default().long_scale().financial(), TraditionalChineseInformal::default().mid_scale(), SimplifiedChineseFormal::default().short_scale(),
        Decimal.and(LetterUpper), Restrict::new(2, Decimal), Restrict::new(0, Decimal), Restrict::new(usize::MAX, LetterLower), NoFallback, NoFallback.and(NoFallback),
        EnumeratedSet::<3, true>::new(["", "a", "零零零零零零零零零零零零零零零零零零零零零"]), EnumeratedSet::<0, true>::new([]), EnumeratedSet::<2, false>::zeroless(["x", "😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀😀"]),
        DigitSet::<0, true>::new([]), DigitSet::<1, true>::new(['z']), DigitSet::<2, false>::zeroless(['😀', 'é']), DigitSet::<257, false>::zeroless(['😀'; 257]),
        Liar(0, true), Liar(0, false), Liar(2, true), Liar(3, true), Liar(3, false), Liar(usize::MAX, false), Liar(usize::MAX, true), Liar(1 << 33, false), Liar(256, true), Liar(257, false),
    );
    go!(30_000; ArmenianUpper, ArmenianLower, Georgian, JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal, HanjaFormal, Hebrew,
        AdditiveSet::<2>::new([("é😀", 100), ("s", 7)]), AdditiveSet::<1>::new([("z", 0)]), AdditiveSet::<0>::new([]), AdditiveSet::<1>::new([("零零零零零零零零零零零零零零零零零零零零零", 50)]));
    go!(5_000_000; RomanUpper, RomanLower);
    go!(200; DigitSet::<1, false>::zeroless(['é']), Liar(1, false), Liar(1, true),
        Reenter(0), Reenter(1), Reenter(2), Reenter(3), Reenter(4), Reenter(5), Reenter(6).and(Decimal));
    // Values next to the number of symbols, for sets of many sizes.
    macro_rules! edges {
        ($($n:literal)*) => {$(
            if (!small() || [2, 201, 257].contains(&$n)) && mine() {
                println!("SYSTEM sets of {} symbols", $n);
                let (a, b) = (EnumeratedSet::<$n, true>::new(["é"; $n]), EnumeratedSet::<$n, false>::zeroless(["é"; $n]));
                let (c, d) = (DigitSet::<$n, true>::new(['é'; $n]), DigitSet::<$n, false>::zeroless(['é'; $n]));
                let e = AdditiveSet::<$n>::new(std::array::from_fn(|i| ("é", ($n - i) as u128)));
                let f = Restrict::new($n, Liar(usize::MAX, true));
                for v in [0u128, 1, $n - 1, $n, $n + 1, $n + 2, 2 * $n, 2 * $n + 1, $n * $n, $n * $n + $n, 255, 256, 65_535, u64::MAX as u128, u128::MAX] {
                    macro_rules! types {
                        ($t:ty) => {
                            if let Ok(n) = <$t>::try_from(v) {
                                label(n, &a);
                                label(n, &b);
                                // One symbol without zero means tally marks.
                                if v < 300 || $n > 1 {
                                    label(n, &c);
                                    label(n, &d);
                                    label(n, &f);
                                }
                                if v <= 2 * $n + 1 {
                                    label(n, &e);
                                }
                            }
                        };
                    }
                    types!(u8);
                    types!(u32);
                    types!(u128);
                    if thorough {
                        types!(usize);
                    }
                }
            }
        )*};
    }
    edges!(1 2 3 10 62 100 127 128 200 201 255 256 257 300 1000);
    if thorough {
        edges!(4 5 6 7 8 9 11 12 15 16 17 20 26 31 32 33 48 50 51 63 64 65 99 101 129 150 199 202 254 258 400 500 511 512 513 777 999 1001 1023 1024 1025 2000 5000);
        go!(u128::MAX; EasternArabic, Persian, Bengali, Cambodian, Devanagari, Gujarati, Gurmukhi, Kannada, Lao, Malayalam, Myanmar, Oriya, Tamil, Telugu, Thai, Tibetan, HexLower);
    }
    #[cfg(feature = "alloc")]
    {
        use std::{rc::Rc, sync::Arc};
        macro_rules! dynamic {
            ($($e:expr),*) => {$(
                if mine() {
                    println!("DYN {}", stringify!($e));
                    for n in [0u32, 1, 42, 99_999, u32::MAX] {
                        let b: Box<dyn NominalSystem<u32>> = Box::new($e);
                        label(n, &b);
                        let r: Rc<dyn NominalSystem<u32>> = Rc::new(b);
                        label(n, &r);
                        let a: Arc<dyn NominalSystem<u32>> = Arc::new(r);
                        label(n, &a);
                    }
                }
            )*};
        }
        dynamic!(Decimal, LetterUpper, Ethiopic, CircledNumber, SimplifiedChineseInformal::default(), NoFallback);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(1).is_some_and(|s| s == "thorough");
    SMALL.with(|s| s.set(a.get(1).is_some_and(|s| s == "small")));
    let shard: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    let shards: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    if shards == 0 {
        return;
    }
    if std::env::var_os("NOM_PANICS").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let mut i = 0u64;
    let mut mine = move || {
        i += 1;
        i % shards == shard
    };
    systems(thorough, &mut mine);
    collections(&mut mine);
    threads(&mut mine);
    println!("SYSTEMS {}", N.with(Cell::get));
    strings(thorough, &mut mine);
    println!("COUNT {}", N.with(Cell::get));
}
