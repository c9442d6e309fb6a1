//! C23: one line for every explored state; the lines of a 32-bit and of a
//! big-endian target (interpreted) must be those of the native one.
//!
//! usage: nomport <tier> <shard> <shards>

use nominals::*;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
struct Hash(u64);
impl Hash {
    fn add(&mut self, bytes: &[u8]) {
        // Eight bytes at a time, in an order of its own: the interpreter is slow.
        for part in bytes.chunks(8) {
            let mut eight = [0; 8];
            eight[..part.len()].copy_from_slice(part);
            self.0 = (self.0 ^ u64::from_le_bytes(eight)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
        }
        self.0 = (self.0 ^ 0x1FF).wrapping_mul(0x0100_0000_01B3);
    }
}

struct Out {
    shard: u64,
    shards: u64,
    at: u64,
    calls: u64,
    thorough: bool,
}
impl Out {
    fn mine(&mut self) -> bool {
        self.at += 1;
        self.at % self.shards == self.shard
    }
}

fn text<T: Nominal + std::fmt::Debug>(r: Result<NominalString, Error<T>>, to: &mut String) {
    let _ = match r {
        Ok(l) => write!(to, "{l}{}", if l.is_inline() { "" } else { " (heap)" }),
        Err(e) => write!(to, "{e:?}"),
    };
}

fn values(top: u128, thorough: bool) -> Vec<u128> {
    let mut v: Vec<u128> = (0..=if thorough { 1100 } else { 12 }).collect();
    for k in [7u32, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127] {
        if thorough || [8, 16, 31, 32, 33, 64].contains(&k) {
            v.extend([(1u128 << k) - 1, 1 << k, (1 << k) + 1]);
        }
    }
    v.extend([u128::MAX, u128::MAX - 1, u128::MAX / 3]);
    let mut p = 10u128;
    while let Some(next) = p.checked_mul(10) {
        v.push(p);
        if thorough {
            v.extend([p - 1, p + 1]);
            v.extend([p / 10 * 15, p / 9 * 7, p / 1000 * 2003, p + p / 100]);
        }
        p = next;
    }
    v.extend([20, 21, 26, 27, 50, 51, 99, 101, 115, 116, 702, 703, 3999, 4000, 20_202_020, 123_456_789_012_345_678_901_234_567_890]);
    v.retain(|&n| n <= top);
    v.sort_unstable();
    v.dedup();
    v
}

fn system<S>(name: &str, top: u128, s: &S, o: &mut Out)
where
    S: NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize>,
{
    for part in values(top, o.thorough).chunks(16) {
        if !o.mine() {
            continue;
        }
        println!("AT {} {}..={}", short(name), part[0], part[part.len() - 1]);
        let mut h = Hash(0xcbf2_9ce4_8422_2325);
        let mut line = String::new();
        let mut last = String::new();
        for &n in part {
            last.clear();
            macro_rules! go {
                ($t:ty, $max:expr) => {
                    if n <= $max {
                        let n = n as $t;
                        o.calls += 1;
                        if catch_unwind(AssertUnwindSafe(|| {
                            text(n.try_to_nominal(s), &mut last);
                            if o.thorough || n < 30 {
                                last.push('|');
                                o.calls += 1;
                                let _ = write!(last, "{}", n.to_nominal(s));
                            }
                        })).is_err() {
                            last.push_str("PANIC");
                        }
                        last.push('|');
                    }
                };
            }
            // C14 compares the types with each other.
            if o.thorough {
                go!(u8, u8::MAX as u128);
                go!(u16, u16::MAX as u128);
                go!(u32, u32::MAX as u128);
            }
            if o.thorough || n > u128::from(u32::MAX) {
                go!(u64, u64::MAX as u128);
            }
            go!(u128, u128::MAX);
            // What every target's pointer-size type holds.
            go!(usize, u32::MAX as u128);
            h.add(last.as_bytes());
        }
        let _ = write!(line, "LABELS {} {}..={} {:016x} {last}", short(name), part[0], part[part.len() - 1], h.0);
        println!("{line}");
    }
}

fn short(name: &str) -> String {
    name.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn collection<C: DigitCollection>(name: &str, c: &C, o: &mut Out) {
    if !o.mine() {
        return;
    }
    println!("AT {}", short(name));
    let mut h = Hash(7);
    let len = c.len();
    o.calls += 6;
    h.add(format!("{len} {} {} {} {}", c.is_empty(), c.fixed(), c.has_zero_digit(), c.zero_based()).as_bytes());
    for i in (0..len.min(if o.thorough { 300 } else { 12 })).chain([254, 255, 256, 257].into_iter().filter(|&i| i < len)).chain(len.saturating_sub(3)..len) {
        o.calls += 1;
        h.add(&(c.digit(i) as u32).to_be_bytes());
    }
    println!("COLLECTION {} {len} {:016x}", short(name), h.0);
}

fn systems(o: &mut Out) {
    macro_rules! go {
        ($top:expr; $($e:expr),* $(,)?) => {$(system(stringify!($e), $top, &$e, o);)*};
    }
    macro_rules! coll {
        ($($e:expr),* $(,)?) => {$( collection(stringify!($e), &$e, o); system(stringify!($e), u128::MAX, &$e, o); )*};
    }
    coll!(
        Decimal, CjkDecimal, Mongolian, Thai, HexUpper, LetterUpper, GreekLower, Hiragana, KatakanaIroha, HangeulJamo, HangeulSyllable,
        CjkHeavenlyStem, CjkEarthlyBranch, LetterUpper.one_based(), HangeulSyllable.one_based(),
        Decimal.and(LetterUpper), Restrict::new(2, Decimal), Restrict::new(usize::MAX, LetterLower), Restrict::new(0, Decimal), Restrict::new(300, HangeulSyllable), LetterLower.and(HangeulSyllable).one_based(),
        DigitSet::<0, true>::new([]), DigitSet::<1, true>::new(['z']), DigitSet::<3, true>::new(['a', 'é', '😀']), DigitSet::<2, false>::zeroless(['😀', 'é']),
        DigitSet::<256, true>::new(std::array::from_fn(|i| char::from_u32(0x4E00 + i as u32).unwrap())), DigitSet::<257, false>::zeroless(std::array::from_fn(|i| char::from_u32(0x4E00 + i as u32).unwrap())),
        DigitSet::<255, false>::zeroless(std::array::from_fn(|i| char::from_u32(0x4E00 + i as u32).unwrap())).one_based(),
    );
    go!(u128::MAX;
        CircledNumber, DoubleCircledNumber, Ethiopic,
        SimplifiedChineseInformal::default(), SimplifiedChineseFormal::default().financial(), TraditionalChineseInformal::default().short_scale(), TraditionalChineseFormal::default().mid_scale(),
        SimplifiedChineseInformal::default().long_scale().financial(), TraditionalChineseInformal::default().mid_scale().financial(), SimplifiedChineseFormal::default().short_scale(),
        EnumeratedSet::<3, true>::new(["", "a", "零零零零零零零零零零零零零零零零零零零零零"]), EnumeratedSet::<0, true>::new([]), EnumeratedSet::<257, false>::zeroless(["x"; 257]), EnumeratedSet::<256, true>::new(["y"; 256]),
        // A symbol for every bit.
        AdditiveSet::<128>::new(std::array::from_fn(|i| (["é", "w", "零"][i % 3], 1 << (127 - i)))),
    );
    go!(70_000;
        RomanUpper, RomanLower, ArmenianUpper, ArmenianLower, Georgian, JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal, HanjaFormal, Hebrew,
        AdditiveSet::<2>::new([("é😀", 100), ("s", 7)]), AdditiveSet::<3>::new([("B", 1 << 64), ("A", 70_000), ("z", 0)]),
    );
    go!(5_000_000; RomanUpper);
    go!(130; DigitSet::<1, false>::zeroless(['é']), AdditiveSet::<4>::new([("x", 300), ("V", 5), ("I", 1), ("N", 0)]));
}

fn ch(width: u32, i: u32) -> char {
    char::from_u32(match width {
        1 => 0x61 + i % 26,
        2 => 0x3B1 + i % 17,
        3 => 0x4E00 + i % 3001,
        _ => 0x1F300 + i % 251,
    })
    .unwrap()
}

fn sized(len: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while s.len() < len {
        let w = [3usize, 1, 4, 2, 1][i % 5].min(len - s.len());
        s.push(ch(w as u32, i as u32));
        i += 1;
    }
    s
}

fn fill(reverse: bool, style: u32, len: usize) -> NominalString {
    let mut s = if reverse { NominalString::new_reverse() } else { NominalString::new() };
    let (mut left, mut i) = (len, 0u32);
    while left > 0 {
        let w = left.min(1 + (i as usize * 7 + style as usize) % 4);
        let c = ch(w as u32, i);
        let _ = match style {
            0 => s.try_push(c),
            1 => s.try_push_front(c),
            2 => {
                left = w;
                s.try_push_str(&sized(len))
            }
            _ => if i % 2 == 0 { s.try_push(c) } else { s.try_push_front(c) },
        };
        left -= w;
        i += 1;
    }
    s
}

fn step(op: u32, mut s: NominalString) -> (NominalString, bool) {
    let ok = match op {
        0..=3 => s.try_push(ch(op + 1, 5)).is_ok(),
        4..=7 => s.try_push_front(ch(op - 3, 6)).is_ok(),
        8 => s.try_push_str("").is_ok(),
        9 => s.try_push_str("零😀é").is_ok(),
        10 => s.try_push_str(&sized(63)).is_ok(),
        11 => {
            s.make_ascii_uppercase();
            true
        }
        #[cfg(feature = "alloc")]
        12 => {
            s = s.clone();
            true
        }
        #[cfg(feature = "alloc")]
        13 => {
            s = NominalString::from(String::from(s));
            true
        }
        _ => {
            if s.len() <= 62 {
                s = NominalString::from(&*s);
            }
            true
        }
    };
    (s, ok)
}

fn strings(o: &mut Out) {
    let top = if cfg!(feature = "alloc") { 260 } else { 62 };
    let lens: Vec<usize> = (0..=top).filter(|&n| n <= 66 && (o.thorough || n < 5 || n > 57 || n % 20 == 11) || [128, 255, 256].contains(&n)).collect();
    let others = ["", "a", "bcd", "零", "é", "\u{10FFFF}"].map(NominalString::from);
    for reverse in [false, true] {
        for style in 0..4 {
            for &len in &lens {
                if !o.mine() {
                    continue;
                }
                println!("AT reverse={reverse} style={style} len={len}");
                let mut h = Hash(11);
                let mut last = String::new();
                for op in 0..15 {
                    for then in 0..12 {
                        let pairs = op < 8 && [0, 1, 61, 62, 63, 255].contains(&len) && [0, 3, 4, 7, 9].contains(&then);
                        if then != 11 && !o.thorough && !pairs {
                            continue;
                        }
                        let (s, a) = step(op, fill(reverse, style, len));
                        let (s, b) = step(then, s);
                        o.calls += 2;
                        h.add(s.as_bytes());
                        h.add(&[u8::from(a), u8::from(b), u8::from(s.is_inline()), s.len() as u8]);
                        if then == 11 {
                            for x in &others {
                                h.add(&[s.cmp(x) as u8, u8::from(s == *x), x.partial_cmp(&*s).map_or(9, |o| o as u8)]);
                            }
                            last.clear();
                            let _ = write!(last, "{s:>70} {}", s.len());
                            h.add(last.as_bytes());
                        }
                    }
                }
                println!("STATE reverse={reverse} style={style} len={len} {:016x}", h.0);
            }
        }
    }
}

/// Texts that differ at one place, in both orders of what follows.
fn orders(o: &mut Out) {
    for base in ["abcdefgh", "abcdefghijklmnopq", "零é😀零é😀零é", "0123456789012345678901234567890123456789012345678901234567890"] {
        if !o.mine() {
            continue;
        }
        println!("AT order {base}");
        let mut h = Hash(13);
        let n = base.chars().count();
        let mut texts = vec![NominalString::from(base)];
        for at in [0, 1, 3, 4, 6, 7, 8, 9, 15, 16, n - 1] {
            if at < n {
                for (low, high) in [('A', 'z'), ('\u{80}', '\u{10FFFF}')] {
                    for swap in [false, true] {
                        // Two neighbours, one of them lower and one higher.
                        let mut t = NominalString::new();
                        for (i, c) in base.chars().enumerate() {
                            let c = if i == at {
                                if swap { low } else { high }
                            } else if i == at + 1 {
                                if swap { high } else { low }
                            } else {
                                c
                            };
                            let _ = t.try_push(c);
                        }
                        texts.push(t);
                    }
                }
            }
        }
        for a in &texts {
            for b in &texts {
                o.calls += 3;
                h.add(&[a.cmp(b) as u8, u8::from(a == b), a.partial_cmp(&**b).map_or(9, |o| o as u8), a.partial_cmp(b).map_or(9, |o| o as u8)]);
            }
        }
        println!("ORDER {base} {:016x}", h.0);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|s| s.parse().ok());
    let (shard, shards) = (num(2).unwrap_or(0), num(3).unwrap_or(1));
    if shards == 0 {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = Out { shard, shards, at: 0, calls: 0, thorough: a.get(1).is_some_and(|s| s == "thorough") };
    systems(&mut o);
    strings(&mut o);
    orders(&mut o);
    println!("COUNT {}", o.calls);
    println!("END");
}
