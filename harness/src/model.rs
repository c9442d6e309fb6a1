//! Reference models of every numeral system, written from the definitions of
//! the systems (positional arithmetic, shortlex words, letter values, CSS
//! counter styles, spoken Chinese) and not from the implementation, plus
//! readers that turn a label back into its value.

use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ModelErr {
    NoZero,
    OutOfBounds,
    /// The label exists but is longer than the model is willing to write.
    Huge,
}

/// Largest number of repetitions of one symbol the model writes.
pub const MAX_REPEAT: u128 = if cfg!(feature = "alloc") { 2_000_000 } else { 64 };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scale {
    Myriad,
    Short,
    Mid,
    Long,
}

pub enum Model {
    Positional(Vec<char>),
    /// Words in shortlex order; counting from one if the flag is set.
    Alpha(Vec<char>, bool),
    /// Symbols of consecutive values starting at `first` (0 or 1).
    Fixed { symbols: Vec<char>, first: u128, fallback: Option<Vec<char>> },
    Additive { table: Vec<(String, u128)>, zero: Option<String> },
    Roman { upper: bool },
    Hebrew,
    Ethiopic,
    Chinese(Chinese),
}

pub struct Chinese {
    pub digits: Vec<char>, // zero to nine
    pub units: [char; 4],  // nothing, ten, hundred, thousand
    pub large: Vec<char>,
    pub formal: bool,
    pub scale: Scale,
}

/// Digits of `n` in base 10, least significant first.
pub struct Dec {
    pub d: [u8; 40],
    pub len: usize,
}

pub fn dec(n: u128) -> Dec {
    const P: u128 = 10_000_000_000_000_000_000;
    let mut d = [0u8; 40];
    let mut len = 0;
    let chunks = [(n % P) as u64, (n / P % P) as u64, (n / P / P) as u64];
    for (k, mut c) in chunks.into_iter().enumerate() {
        let mut i = 19 * k;
        while c > 0 {
            d[i] = (c % 10) as u8;
            c /= 10;
            i += 1;
            len = i;
        }
    }
    Dec { d, len }
}

pub fn push_decimal(n: u128, digits: &[char], out: &mut String) {
    let d = dec(n);
    if d.len == 0 {
        out.push(digits[0]);
    }
    for i in (0..d.len).rev() {
        out.push(digits[d.d[i] as usize]);
    }
}

pub fn ascii_digits() -> &'static [char] {
    static D: OnceLock<Vec<char>> = OnceLock::new();
    D.get_or_init(|| ('0'..='9').collect())
}

pub fn positional(mut n: u128, digits: &[char], out: &mut String) {
    if digits.len() == 10 {
        return push_decimal(n, digits, out);
    }
    let b = digits.len() as u128;
    // Largest power of the base that is not above n, then long division down.
    let mut p: u128 = 1;
    while n / p >= b {
        p *= b;
    }
    loop {
        out.push(digits[(n / p) as usize]);
        n %= p;
        if p == 1 {
            break;
        }
        p /= b;
    }
}

/// The word number `n` (from zero) of the shortlex enumeration.
pub fn shortlex(n: u128, letters: &[char], out: &mut String) -> Result<(), ModelErr> {
    let b = letters.len() as u128;
    if b == 0 {
        return Err(ModelErr::OutOfBounds);
    }
    if b == 1 {
        if n >= MAX_REPEAT {
            return Err(ModelErr::Huge);
        }
        for _ in 0..=n {
            out.push(letters[0]);
        }
        return Ok(());
    }
    let mut rest = n;
    let mut len = 1;
    let mut block = Some(b); // number of words of this length
    while let Some(x) = block {
        if rest < x {
            break;
        }
        rest -= x;
        len += 1;
        block = x.checked_mul(b);
    }
    // `rest` is the index among the words of length `len`.
    let mut p: u128 = 1;
    for _ in 1..len {
        p = p.checked_mul(b).unwrap_or(0);
        if p == 0 {
            unreachable!("a word this long would exceed the index");
        }
    }
    for _ in 0..len {
        out.push(letters[(rest / p) as usize]);
        rest %= p;
        p = (p / b).max(1);
    }
    Ok(())
}

/// Index of a word in the shortlex enumeration, if it fits.
pub fn shortlex_index(word: &[usize], b: u128) -> Option<u128> {
    let mut v: u128 = 0;
    for &l in word {
        v = v.checked_mul(b)?.checked_add(l as u128 + 1)?;
    }
    v.checked_sub(1)
}

const OVER: char = '\u{305}';

fn roman_letters(value: u128) -> (&'static str, bool) {
    match value {
        1 => ("I", false),
        5 => ("V", false),
        10 => ("X", false),
        50 => ("L", false),
        100 => ("C", false),
        500 => ("D", false),
        1000 => ("M", false),
        _ => (roman_letters(value / 1000).0, true),
    }
}

fn roman_push(value: u128, over: bool, upper: bool, out: &mut String) {
    let (l, _) = roman_letters(value);
    let c = l.chars().next().unwrap();
    out.push(if upper { c } else { c.to_ascii_lowercase() });
    if over {
        out.push(OVER);
    }
}

fn roman(n: u128, upper: bool, out: &mut String) -> Result<(), ModelErr> {
    if n == 0 {
        out.push(if upper { 'N' } else { 'n' });
        return Ok(());
    }
    if n / 1_000_000 > MAX_REPEAT {
        return Err(ModelErr::Huge);
    }
    for _ in 0..n / 1_000_000 {
        roman_push(1000, true, upper, out);
    }
    // The letters one, five and ten of each decimal place below a million.
    let mut place = |d: u128, one: (u128, bool), five: (u128, bool), ten: (u128, bool), high: bool| {
        let mut p = |x: (u128, bool)| roman_push(x.0, x.1, upper, out);
        let i = if high { (1, true) } else { one };
        match d {
            4 => {
                p(i);
                p(five);
            }
            9 => {
                p(i);
                p(ten);
            }
            _ => {
                if d >= 5 {
                    p(five);
                }
                for _ in 0..d % 5 {
                    p(one);
                }
            }
        }
    };
    place(n / 100_000 % 10, (100, true), (500, true), (1000, true), false);
    place(n / 10_000 % 10, (10, true), (50, true), (100, true), false);
    // Thousands: M for single ones, the overlined V, and I for subtraction.
    place(n / 1_000 % 10, (1000, false), (5, true), (10, true), true);
    place(n / 100 % 10, (100, false), (500, false), (1000, false), false);
    place(n / 10 % 10, (10, false), (50, false), (100, false), false);
    place(n % 10, (1, false), (5, false), (10, false), false);
    Ok(())
}

fn read_roman(s: &str, upper: bool) -> Option<u128> {
    let mut total: u128 = 0;
    let mut pending: u128 = 0; // value of the previous symbol, not yet added
    let mut it = s.chars().peekable();
    if s == if upper { "N" } else { "n" } {
        return Some(0);
    }
    while let Some(c) = it.next() {
        if c.is_ascii_uppercase() != upper {
            return None;
        }
        let mut v = match c.to_ascii_uppercase() {
            'I' => 1,
            'V' => 5,
            'X' => 10,
            'L' => 50,
            'C' => 100,
            'D' => 500,
            'M' => 1000,
            _ => return None,
        };
        if it.peek() == Some(&OVER) {
            it.next();
            v *= 1000;
        }
        if pending < v && pending > 0 {
            total = total.checked_add(v)?.checked_sub(pending)?;
            pending = 0;
        } else {
            total += pending;
            pending = v;
        }
    }
    Some(total + pending)
}

// Units, tens and hundreds of the Hebrew alphabet, without final forms.
const HEB_UNITS: [char; 9] = ['א', 'ב', 'ג', 'ד', 'ה', 'ו', 'ז', 'ח', 'ט'];
const HEB_TENS: [char; 9] = ['י', 'כ', 'ל', 'מ', 'נ', 'ס', 'ע', 'פ', 'צ'];
const HEB_HUNDREDS: [char; 4] = ['ק', 'ר', 'ש', 'ת'];
const GERESH: char = '\u{5F3}';
const GERSHAYIM: char = '\u{5F4}';

fn hebrew(n: u128, out: &mut String) -> Result<(), ModelErr> {
    if n == 0 {
        return Err(ModelErr::NoZero);
    }
    // Twelve times as many as elsewhere, so that 2^32 is within reach.
    if n / 400 > 12 * MAX_REPEAT {
        return Err(ModelErr::Huge);
    }
    let (h, r) = (n / 100, (n % 100) as usize);
    let (fours, three) = (h / 4, (h % 4) as usize);
    let (t, u) = (r / 10, r % 10);
    let letters = fours + u128::from(three > 0) + u128::from(t > 0) + u128::from(u > 0);
    if letters == 1 {
        out.push(GERESH);
    }
    for _ in 0..fours {
        out.push(HEB_HUNDREDS[3]);
    }
    if three > 0 {
        out.push(HEB_HUNDREDS[three - 1]);
    }
    if r == 15 || r == 16 {
        out.push(HEB_UNITS[8]);
        out.push(GERSHAYIM);
        out.push(HEB_UNITS[r - 10]);
        return Ok(());
    }
    if t > 0 {
        out.push(HEB_TENS[t - 1]);
    }
    if u > 0 {
        out.push(HEB_UNITS[u - 1]);
    }
    if letters == 1 {
        out.push(GERSHAYIM);
    }
    Ok(())
}

fn read_hebrew(s: &str) -> Option<u128> {
    let mut total = 0u128;
    for c in s.chars() {
        if c == GERESH || c == GERSHAYIM {
            continue;
        }
        let v = if let Some(i) = HEB_UNITS.iter().position(|&x| x == c) {
            i as u128 + 1
        } else if let Some(i) = HEB_TENS.iter().position(|&x| x == c) {
            (i as u128 + 1) * 10
        } else if let Some(i) = HEB_HUNDREDS.iter().position(|&x| x == c) {
            (i as u128 + 1) * 100
        } else {
            return None;
        };
        total += v;
    }
    Some(total)
}

/// The W3C counter-style algorithm, on two-digit groups.
fn ethiopic(n: u128, out: &mut String) -> Result<(), ModelErr> {
    if n == 0 {
        return Err(ModelErr::NoZero);
    }
    let d = dec(n);
    let groups = d.len.div_ceil(2);
    let group = |i: usize| (d.d[2 * i], d.d[2 * i + 1]);
    for i in (0..groups).rev() {
        let (units, tens) = group(i);
        let value = tens * 10 + units;
        let most_significant = i == groups - 1;
        // 2. If the number is 1, return "፩": the units group is never cleared.
        // 3. Remove the digits (but keep the group) of zero groups, of a most
        //    significant group of value 1, and of odd groups of value 1.
        let remove = value == 0 || (value == 1 && i > 0 && (most_significant || i % 2 == 1));
        if !remove {
            if tens > 0 {
                out.push(char::from_u32(0x1372 + u32::from(tens) - 1).unwrap());
            }
            if units > 0 {
                out.push(char::from_u32(0x1369 + u32::from(units) - 1).unwrap());
            }
        }
        // 4. Odd groups with a non-zero value get U+137B; even groups above
        //    the units get U+137C.
        if i % 2 == 1 && value != 0 {
            out.push('\u{137B}');
        } else if i % 2 == 0 && i > 0 {
            out.push('\u{137C}');
        }
    }
    Ok(())
}

fn read_ethiopic(s: &str) -> Option<u128> {
    // total = ((pair_k * 10000 + pair_{k-1}) * 10000 + ...), each pair being
    // [hundreds] U+137B [units].
    let parts: u32 = s.chars().filter(|&c| c == '\u{137C}').count() as u32;
    let mut total: u128 = 0;
    for (k, part) in s.split('\u{137C}').enumerate() {
        let first = k == 0;
        let last = k as u32 == parts;
        let two = |t: &str| -> Option<u128> {
            let mut v = 0u128;
            for c in t.chars() {
                v += match c as u32 {
                    x @ 0x1369..=0x1371 => u128::from(x - 0x1368),
                    x @ 0x1372..=0x137A => u128::from(x - 0x1371) * 10,
                    _ => return None,
                };
            }
            Some(v)
        };
        let v = match part.split_once('\u{137B}') {
            Some((h, u)) => {
                let h = if h.is_empty() { 1 } else { two(h)? };
                h * 100 + two(u)?
            }
            None => {
                let u = two(part)?;
                if part.is_empty() && first && !last {
                    1
                } else {
                    u
                }
            }
        };
        total = total.checked_mul(10_000)?.checked_add(v)?;
    }
    Some(total)
}

impl Chinese {
    fn render(&self, n: u128, out: &mut String) -> Result<(), ModelErr> {
        if self.scale == Scale::Short && n >= 1_000_000_000_000_000 {
            return Err(ModelErr::OutOfBounds);
        }
        let d = dec(n);
        if d.len == 0 {
            out.push(self.digits[0]);
            return Ok(());
        }
        let nonzero = |from: usize, to: usize| d.d[from.min(40)..to.min(40)].iter().any(|&x| x != 0);
        let mut prev: Option<usize> = None;
        for p in (0..d.len).rev() {
            let digit = d.d[p] as usize;
            let high_short = self.scale == Scale::Short && p >= 4;
            if digit != 0 {
                if let Some(q) = prev {
                    let silent = self.scale != Scale::Short && p % 4 == 3 && q / 4 == p / 4 + 1;
                    if q - p > 1 && !silent {
                        out.push(self.digits[0]);
                    }
                }
                let leading_ten = prev.is_none() && p % 4 == 1 && !high_short && digit == 1;
                if self.formal || !leading_ten {
                    out.push(self.digits[digit]);
                }
                if high_short {
                    out.push(self.large[p - 4]);
                } else if p % 4 > 0 {
                    out.push(self.units[p % 4]);
                }
                prev = Some(p);
            }
            if p % 4 == 0 && self.scale != Scale::Short {
                // The end of group g.
                let g = p / 4;
                let (mark, from, to) = match self.scale {
                    Scale::Myriad if g > 0 => (g - 1, p, p + 4),
                    Scale::Mid | Scale::Long if g % 2 == 1 => (0, p, p + 4),
                    Scale::Mid if g > 0 => (g / 2, p, p + 8),
                    Scale::Long if g % 4 == 2 => (1, p, p + 8),
                    Scale::Long if g % 8 == 4 => (2, p, p + 16),
                    Scale::Long if g == 8 => (3, p, p + 32),
                    _ => continue,
                };
                if nonzero(from, to) {
                    out.push(self.large[mark]);
                }
            }
        }
        Ok(())
    }

    fn marker_value(&self, c: char) -> Option<u128> {
        let i = self.large.iter().position(|&x| x == c)? as u32;
        Some(match self.scale {
            Scale::Myriad => 10u128.checked_pow(4 * (i + 1))?,
            Scale::Short => 10u128.pow(4 + i),
            Scale::Mid => {
                if i == 0 {
                    10_000
                } else {
                    10u128.checked_pow(8 * i)?
                }
            }
            Scale::Long => 10u128.checked_pow(4 << i)?,
        })
    }

    /// Reads a numeral by splitting at its largest marker.
    fn read(&self, s: &str) -> Option<u128> {
        let mut best: Option<(usize, char, u128)> = None;
        for (i, c) in s.char_indices() {
            if let Some(v) = self.marker_value(c) {
                if best.is_none_or(|b| v > b.2) {
                    best = Some((i, c, v));
                }
            }
        }
        let Some((i, c, v)) = best else { return self.read_group(s) };
        let (left, right) = (&s[..i], &s[i + c.len_utf8()..]);
        if left.is_empty() {
            return None;
        }
        let l = self.read(left)?;
        let r = if right.is_empty() { 0 } else { self.read(right)? };
        if l == 0 || r >= v {
            return None;
        }
        l.checked_mul(v)?.checked_add(r)
    }

    fn read_group(&self, s: &str) -> Option<u128> {
        let mut total = 0u128;
        let mut digit: Option<u128> = None;
        for c in s.chars() {
            if let Some(x) = self.digits.iter().position(|&y| y == c) {
                if x == 0 {
                    if digit.is_some() {
                        return None;
                    }
                } else if digit.replace(x as u128).is_some() {
                    return None;
                }
            } else {
                let q = self.units.iter().skip(1).position(|&y| y == c)? as u32 + 1;
                let x = match digit.take() {
                    Some(x) => x,
                    None if q == 1 && total == 0 => 1,
                    None => return None,
                };
                total += x * 10u128.pow(q);
            }
        }
        Some(total + digit.unwrap_or(0))
    }
}

impl Model {
    /// Appends the expected label of `n`.
    pub fn render(&self, n: u128, out: &mut String) -> Result<(), ModelErr> {
        match self {
            Model::Positional(d) => {
                positional(n, d, out);
                Ok(())
            }
            Model::Alpha(l, one_based) => {
                let n = if *one_based { n.checked_sub(1).ok_or(ModelErr::NoZero)? } else { n };
                shortlex(n, l, out)
            }
            Model::Fixed { symbols, first, fallback } => {
                let Some(i) = n.checked_sub(*first) else { return Err(ModelErr::NoZero) };
                if i < symbols.len() as u128 {
                    out.push(symbols[i as usize]);
                    Ok(())
                } else if let Some(f) = fallback {
                    push_decimal(n, f, out);
                    Ok(())
                } else {
                    Err(ModelErr::OutOfBounds)
                }
            }
            Model::Additive { table, zero } => {
                if n == 0 {
                    let Some(z) = zero else { return Err(ModelErr::NoZero) };
                    out.push_str(z);
                    return Ok(());
                }
                let start = out.len();
                let mut rest = n;
                for (s, v) in table {
                    if rest / v > MAX_REPEAT {
                        return Err(ModelErr::Huge);
                    }
                    for _ in 0..rest / v {
                        out.push_str(s);
                    }
                    rest %= v;
                }
                if rest > 0 {
                    out.truncate(start);
                    return Err(ModelErr::OutOfBounds);
                }
                Ok(())
            }
            Model::Roman { upper } => roman(n, *upper, out),
            Model::Hebrew => hebrew(n, out),
            Model::Ethiopic => ethiopic(n, out),
            Model::Chinese(c) => c.render(n, out),
        }
    }

    /// The label of infallible formatting: the label or the plain decimal.
    pub fn render_or_decimal(&self, n: u128, out: &mut String) {
        let start = out.len();
        if self.render(n, out).is_err() {
            out.truncate(start);
            push_decimal(n, ascii_digits(), out);
        }
    }

    /// Reads a label back, where the system has a reader.
    pub fn read(&self, s: &str) -> Option<Option<u128>> {
        Some(match self {
            Model::Roman { upper } => read_roman(s, *upper),
            Model::Hebrew => read_hebrew(s),
            Model::Ethiopic => read_ethiopic(s),
            Model::Chinese(c) => c.read(s),
            Model::Additive { table, .. } => {
                // Longest match; every table entry is a distinct string.
                let mut total = Some(0u128);
                let mut rest = s;
                if self.zero_symbol() == Some(s) {
                    return Some(Some(0));
                }
                while !rest.is_empty() {
                    let best = table.iter().filter(|(t, _)| rest.starts_with(t.as_str())).max_by_key(|(t, _)| t.len());
                    match best {
                        Some((t, v)) => {
                            total = total.and_then(|x| x.checked_add(*v));
                            rest = &rest[t.len()..];
                        }
                        None => return Some(None),
                    }
                }
                total
            }
            _ => return None,
        })
    }

    fn zero_symbol(&self) -> Option<&str> {
        match self {
            Model::Additive { zero, .. } => zero.as_deref(),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- tables

pub fn run_of(first: u32, n: u32) -> Vec<char> {
    (first..first + n).map(|c| char::from_u32(c).unwrap()).collect()
}

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

pub fn greek(upper: bool) -> Vec<char> {
    // Alpha to omega, skipping the unassigned / final-sigma position.
    let base = if upper { 0x391 } else { 0x3B1 };
    (0..25).filter(|&i| i != 17).map(|i| char::from_u32(base + i).unwrap()).collect()
}

/// Kana of the gojūon table: the small and voiced forms in between dropped.
pub fn gojuon(katakana: bool) -> Vec<char> {
    // Offsets from U+3041 (small a).
    let mut v: Vec<u32> = vec![1, 3, 5, 7, 9]; // a i u e o
    v.extend([10, 12, 14, 16, 18]); // ka
    v.extend([20, 22, 24, 26, 28]); // sa
    v.extend([30, 32, 35, 37, 39]); // ta
    v.extend([41, 42, 43, 44, 45]); // na
    v.extend([46, 49, 52, 55, 58]); // ha
    v.extend([61, 62, 63, 64, 65]); // ma
    v.extend([67, 69, 71]); // ya yu yo
    v.extend([72, 73, 74, 75, 76]); // ra
    v.extend([78]); // wa
    v.extend([81]); // wo
    v.extend([82]); // n
    let base = if katakana { 0x30A1 } else { 0x3041 };
    v.into_iter().map(|o| char::from_u32(base + o).unwrap()).collect()
}

/// The Iroha poem, in romanised syllables mapped through the kana block.
pub fn iroha(katakana: bool) -> Vec<char> {
    let order = "i ro ha ni ho he to ti ri nu ru wo wa ka yo ta re so tu ne na ra mu u wi no o ku ya ma ke hu ko e te a sa ki yu me mi si we hi mo se su";
    let base = if katakana { 0x30A1u32 } else { 0x3041 };
    let off = |s: &str| -> u32 {
        let vowel = "aiueo".find(s.chars().last().unwrap()).unwrap();
        match &s[..s.len() - 1] {
            "" => [1, 3, 5, 7, 9][vowel],
            "k" => [10, 12, 14, 16, 18][vowel],
            "s" => [20, 22, 24, 26, 28][vowel],
            "t" => [30, 32, 35, 37, 39][vowel],
            "n" => [41, 42, 43, 44, 45][vowel],
            "h" => [46, 49, 52, 55, 58][vowel],
            "m" => [61, 62, 63, 64, 65][vowel],
            "y" => [67, 0, 69, 0, 71][vowel],
            "r" => [72, 73, 74, 75, 76][vowel],
            "w" => [78, 79, 0, 80, 81][vowel],
            _ => unreachable!(),
        }
    };
    order.split(' ').map(|s| char::from_u32(base + off(s)).unwrap()).collect()
}

/// Hangul syllables of each basic consonant with the vowel a, in jamo order.
pub fn hangeul_syllables() -> Vec<char> {
    // Initial-consonant indexes of g n d r m b s ' j ch k t p h.
    [0u32, 2, 3, 5, 6, 7, 9, 11, 12, 14, 15, 16, 17, 18].iter().map(|i| char::from_u32(0xAC00 + i * 588).unwrap()).collect()
}

pub fn hangeul_jamo() -> Vec<char> {
    [0x3131u32, 0x3134, 0x3137, 0x3139, 0x3141, 0x3142, 0x3145, 0x3147, 0x3148, 0x314A, 0x314B, 0x314C, 0x314D, 0x314E]
        .iter().map(|&i| char::from_u32(i).unwrap()).collect()
}

pub fn circled() -> Vec<char> {
    let mut v = vec!['\u{24EA}'];
    v.extend(run_of(0x2460, 20));
    v.extend(run_of(0x3251, 15));
    v.extend(run_of(0x32B1, 15));
    v
}

/// Alphabets whose letters are 1..9, 10..90, 100..900, 1000..9000 in order.
pub fn alphabet_values(letters: &[char]) -> Vec<(String, u128)> {
    let mut v: Vec<(String, u128)> = Vec::new();
    for (i, c) in letters.iter().enumerate() {
        v.push((c.to_string(), (i as u128 % 9 + 1) * 10u128.pow(i as u32 / 9)));
    }
    v.reverse();
    v
}

/// The 37 traditional Georgian letters in numeric order.
pub fn georgian() -> Vec<(String, u128)> {
    alphabet_values(&chars("აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰჵ"))
}

/// digit+unit systems: `ones` 1..9, units for ten, hundred, thousand.
pub fn digit_unit(ones: &str, units: &str, omit_one: bool) -> Vec<(String, u128)> {
    let ones = chars(ones);
    let units = chars(units);
    let mut v = Vec::new();
    for p in (0..4usize).rev() {
        for d in (1..=9usize).rev() {
            let mut s = String::new();
            if !(omit_one && d == 1 && p > 0) {
                s.push(ones[d - 1]);
            }
            if p > 0 {
                s.push(units[p - 1]);
            }
            v.push((s, d as u128 * 10u128.pow(p as u32)));
        }
    }
    v
}

pub fn chinese(traditional: bool, financial: bool, formal: bool, scale: Scale) -> Chinese {
    let digits = match (financial, traditional) {
        (false, _) => "零一二三四五六七八九",
        (true, false) => "零壹贰叁肆伍陆柒捌玖",
        (true, true) => "零壹貳參肆伍陸柒捌玖",
    };
    let units = if financial { ['\0', '拾', '佰', '仟'] } else { ['\0', '十', '百', '千'] };
    let large = if traditional { "萬億兆京垓秭穰溝澗正載" } else { "万亿兆京垓秭穰沟涧正载" };
    Chinese { digits: chars(digits), units, large: chars(large), formal, scale }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn decimal_digits() {
        for n in [0, 1, 9, 10, 10u128.pow(19) - 1, 10u128.pow(19), 10u128.pow(19) + 1, 10u128.pow(20), 10u128.pow(38), 10u128.pow(38) + 7, u128::MAX, 5 * 10u128.pow(37)] {
            let mut s = String::new();
            push_decimal(n, ascii_digits(), &mut s);
            assert_eq!(s, n.to_string());
        }
        let mut x = 1u128;
        for _ in 0..200000 {
            x = x.wrapping_mul(0x2545F4914F6CDD1D_u128).wrapping_add(12345) ^ (x >> 7);
            for k in 0..39 {
                let n = x / 10u128.pow(k);
                let mut s = String::new();
                push_decimal(n, ascii_digits(), &mut s);
                assert_eq!(s, n.to_string());
            }
        }
    }
    #[test]
    fn words() {
        let l = chars("abc");
        let mut s = String::new();
        let mut all = vec![];
        for n in 0..12 {
            s.clear();
            shortlex(n, &l, &mut s).unwrap();
            all.push(s.clone());
        }
        assert_eq!(all.join(" "), "a b c aa ab ac ba bb bc ca cb cc");
    }
}
