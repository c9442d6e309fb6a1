//! The registry of every built-in system and configuration, each with its
//! entry points for all six integer types and its reference model.

use crate::model::*;
use nominals::{self as nm, *};

pub enum E {
    NoZero,
    Oom(u128),
    Oob(u128),
}

pub type Raw = Result<NominalString, E>;

pub trait Wide: Nominal {
    fn wide(self) -> u128;
    fn narrow(n: u128) -> Self;
}
macro_rules! wide {
    ($($t:ty),*) => {$(impl Wide for $t {
        #[inline(always)]
        fn wide(self) -> u128 { self as u128 }
        #[inline(always)]
        fn narrow(n: u128) -> Self { n as $t }
    })*};
}
wide!(u8, u16, u32, u64, u128, usize);

#[inline(always)]
pub fn raw<T: Wide>(r: Result<NominalString, Error<T>>) -> Raw {
    match r {
        Ok(s) => Ok(s),
        Err(Error::NoZeroSymbol) => Err(E::NoZero),
        Err(Error::OutOfMemory(n)) => Err(E::Oom(n.wide())),
        Err(Error::OutOfBounds(n)) => Err(E::Oob(n.wide())),
        Err(_) => unreachable!("undocumented error"),
    }
}

pub const WIDTHS: [&str; 6] = ["u8", "u16", "u32", "u64", "u128", "usize"];
pub const MAXES: [u128; 6] = [
    u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, u128::MAX, usize::MAX as u128,
];
pub const W128: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Positional,
    Alpha,
    Fixed,
    Additive,
    Roman,
    Hebrew,
    Ethiopic,
    Chinese,
}

pub struct Sys {
    pub name: String,
    pub kind: Kind,
    pub tryf: [fn(u128) -> Raw; 6],
    pub inf: [fn(u128) -> NominalString; 6],
    pub model: Model,
    /// Largest value explored: above it labels become extremely long.
    pub limit: u128,
    /// Radix that suits the structure of the system.
    pub base: u128,
}

#[macro_export]
macro_rules! fns {
    ($e:expr) => {
        (
            [
                |n| raw((n as u8).try_to_nominal(&$e)),
                |n| raw((n as u16).try_to_nominal(&$e)),
                |n| raw((n as u32).try_to_nominal(&$e)),
                |n| raw((n as u64).try_to_nominal(&$e)),
                |n| raw(n.try_to_nominal(&$e)),
                |n| raw((n as usize).try_to_nominal(&$e)),
            ] as [fn(u128) -> Raw; 6],
            [
                |n| (n as u8).to_nominal(&$e),
                |n| (n as u16).to_nominal(&$e),
                |n| (n as u32).to_nominal(&$e),
                |n| (n as u64).to_nominal(&$e),
                |n| n.to_nominal(&$e),
                |n| (n as usize).to_nominal(&$e),
            ] as [fn(u128) -> NominalString; 6],
        )
    };
}

pub fn positional_systems() -> Vec<Sys> {
    let mut v = vec![];
    macro_rules! p {
        ($($name:ident = $digits:expr;)*) => {$({
            let (tryf, inf) = fns!(nm::$name);
            let d: Vec<char> = $digits;
            v.push(Sys { name: stringify!($name).into(), kind: Kind::Positional, tryf, inf, base: d.len() as u128, model: Model::Positional(d), limit: u128::MAX });
        })*};
    }
    p! {
        Decimal = run_of(0x30, 10);
        EasternArabic = run_of(0x660, 10);
        Persian = run_of(0x6F0, 10);
        Urdu = run_of(0x6F0, 10);
        Bengali = run_of(0x9E6, 10);
        Cambodian = run_of(0x17E0, 10);
        Khmer = run_of(0x17E0, 10);
        CjkDecimal = chars("〇一二三四五六七八九");
        Devanagari = run_of(0x966, 10);
        Gujarati = run_of(0xAE6, 10);
        Gurmukhi = run_of(0xA66, 10);
        Kannada = run_of(0xCE6, 10);
        Lao = run_of(0xED0, 10);
        Malayalam = run_of(0xD66, 10);
        Mongolian = run_of(0x1810, 10);
        Myanmar = run_of(0x1040, 10);
        Oriya = run_of(0xB66, 10);
        Tamil = run_of(0xBE6, 10);
        Telugu = run_of(0xC66, 10);
        Thai = run_of(0xE50, 10);
        Tibetan = run_of(0xF20, 10);
        HexUpper = chars("0123456789ABCDEF");
        HexLower = chars("0123456789abcdef");
    }
    v
}

pub fn alpha_systems() -> Vec<Sys> {
    let mut v = vec![];
    macro_rules! p {
        ($($name:ident = $digits:expr;)*) => {$({
            let d: Vec<char> = $digits;
            let (tryf, inf) = fns!(nm::$name);
            v.push(Sys { name: stringify!($name).into(), kind: Kind::Alpha, tryf, inf, base: d.len() as u128, model: Model::Alpha(d.clone(), false), limit: u128::MAX });
            let (tryf, inf) = fns!(nm::$name.one_based());
            v.push(Sys { name: concat!(stringify!($name), ".one_based").into(), kind: Kind::Alpha, tryf, inf, base: d.len() as u128, model: Model::Alpha(d, true), limit: u128::MAX });
        })*};
    }
    p! {
        LetterUpper = ('A'..='Z').collect();
        LetterLower = ('a'..='z').collect();
        GreekUpper = greek(true);
        GreekLower = greek(false);
        Hiragana = gojuon(false);
        HiraganaIroha = iroha(false);
        Katakana = gojuon(true);
        KatakanaIroha = iroha(true);
        HangeulJamo = hangeul_jamo();
        HangeulSyllable = hangeul_syllables();
    }
    v
}

pub fn fixed_systems() -> Vec<Sys> {
    let mut v = vec![];
    macro_rules! p {
        ($($name:ident, $first:expr, $digits:expr, $fb:expr;)*) => {$({
            let (tryf, inf) = fns!(nm::$name);
            v.push(Sys { name: stringify!($name).into(), kind: Kind::Fixed, tryf, inf, base: 10, model: Model::Fixed { symbols: $digits, first: $first, fallback: $fb }, limit: u128::MAX });
        })*};
    }
    let cjk = chars("〇一二三四五六七八九");
    p! {
        CircledNumber, 0, circled(), None;
        DoubleCircledNumber, 1, run_of(0x24F5, 10), None;
        CjkHeavenlyStem, 1, chars("甲乙丙丁戊己庚辛壬癸"), Some(cjk.clone());
        CjkEarthlyBranch, 1, chars("子丑寅卯辰巳午未申酉戌亥"), Some(cjk.clone());
    }
    v
}

pub fn additive_systems() -> Vec<Sys> {
    let mut v = vec![];
    macro_rules! p {
        ($($name:ident, $table:expr, $zero:expr;)*) => {$({
            let (tryf, inf) = fns!(nm::$name);
            let table: Vec<(String, u128)> = $table;
            let zero: &str = $zero;
            let limit = table[0].1 * 2000;
            v.push(Sys { name: stringify!($name).into(), kind: Kind::Additive, tryf, inf, base: 10, model: Model::Additive { table, zero: (!zero.is_empty()).then(|| zero.to_owned()) }, limit });
        })*};
    }
    p! {
        ArmenianUpper, alphabet_values(&run_of(0x531, 36)), "";
        ArmenianLower, alphabet_values(&run_of(0x561, 36)), "";
        Georgian, georgian(), "";
        JapaneseFormal, digit_unit("壱弐参四伍六七八九", "拾百阡", false), "零";
        JapaneseInformal, digit_unit("一二三四五六七八九", "十百千", true), "〇";
        HangeulFormal, digit_unit("일이삼사오육칠팔구", "십백천", false), "영";
        HanjaInformal, digit_unit("一二三四五六七八九", "十百千", true), "零";
        HanjaFormal, digit_unit("壹貳參四五六七八九", "拾百仟", false), "零";
    }
    v
}

pub fn roman_systems() -> Vec<Sys> {
    let mut v = vec![];
    let (tryf, inf) = fns!(nm::RomanUpper);
    v.push(Sys { name: "RomanUpper".into(), kind: Kind::Roman, tryf, inf, base: 10, model: Model::Roman { upper: true }, limit: 2_000_000_000 });
    let (tryf, inf) = fns!(nm::RomanLower);
    v.push(Sys { name: "RomanLower".into(), kind: Kind::Roman, tryf, inf, base: 10, model: Model::Roman { upper: false }, limit: 2_000_000_000 });
    v
}

pub fn hebrew_systems() -> Vec<Sys> {
    let (tryf, inf) = fns!(nm::Hebrew);
    vec![Sys { name: "Hebrew".into(), kind: Kind::Hebrew, tryf, inf, base: 10, model: Model::Hebrew, limit: 1_200_000 }]
}

pub fn ethiopic_systems() -> Vec<Sys> {
    let (tryf, inf) = fns!(nm::Ethiopic);
    vec![Sys { name: "Ethiopic".into(), kind: Kind::Ethiopic, tryf, inf, base: 10, model: Model::Ethiopic, limit: u128::MAX }]
}

fn chinese_with(scales: &[Scale]) -> Vec<Sys> {
    let mut v = vec![];
    macro_rules! one {
        ($name:ident, $tr:expr, $fin:expr, $formal:expr, $scale:expr, $e:expr, $suffix:expr) => {
            if scales.contains(&$scale) {
                let (tryf, inf) = fns!($e);
                v.push(Sys {
                    name: concat!(stringify!($name), $suffix).into(), kind: Kind::Chinese, tryf, inf, base: 10,
                    model: Model::Chinese(chinese($tr, $fin, $formal, $scale)), limit: u128::MAX,
                });
            }
        };
    }
    macro_rules! all {
        ($($name:ident, $tr:expr, $formal:expr;)*) => {$(
            one!($name, $tr, false, $formal, Scale::Myriad, nm::$name::default(), "");
            one!($name, $tr, true, $formal, Scale::Myriad, nm::$name::default().financial(), ".financial");
            one!($name, $tr, false, $formal, Scale::Short, nm::$name::default().short_scale(), ".short");
            one!($name, $tr, true, $formal, Scale::Short, nm::$name::default().short_scale().financial(), ".short.financial");
            one!($name, $tr, false, $formal, Scale::Mid, nm::$name::default().mid_scale(), ".mid");
            one!($name, $tr, true, $formal, Scale::Mid, nm::$name::default().mid_scale().financial(), ".mid.financial");
            one!($name, $tr, false, $formal, Scale::Long, nm::$name::default().long_scale(), ".long");
            one!($name, $tr, true, $formal, Scale::Long, nm::$name::default().long_scale().financial(), ".long.financial");
        )*};
    }
    all! {
        SimplifiedChineseInformal, false, false;
        SimplifiedChineseFormal, false, true;
        TraditionalChineseInformal, true, false;
        TraditionalChineseFormal, true, true;
    }
    v
}

pub fn chinese_myriad() -> Vec<Sys> {
    chinese_with(&[Scale::Myriad])
}
pub fn chinese_scaled() -> Vec<Sys> {
    chinese_with(&[Scale::Short, Scale::Mid, Scale::Long])
}

pub fn all_systems() -> Vec<Sys> {
    let mut v = positional_systems();
    v.extend(alpha_systems());
    v.extend(fixed_systems());
    v.extend(additive_systems());
    v.extend(roman_systems());
    v.extend(hebrew_systems());
    v.extend(ethiopic_systems());
    v.extend(chinese_myriad());
    v.extend(chinese_scaled());
    v
}
