H = "use nominals::*;\n#[allow(unused_imports)]\nuse nominals::DigitCollection as _;\n"
def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS = "nominalstring.rs"
SEEDS = [
s("c01-reverse-push-multibyte", "C01", [(NS,
"""            self.bytes
                .copy_within(current_offset.., size_of_bytes - usize::from(new_length));

            for (dest, src) in self.bytes[size_of_bytes - usize::from(char_len)..]""",
"""            self.bytes
                .copy_within(current_offset.., current_offset - usize::from(char_len.min(3)));

            for (dest, src) in self.bytes[size_of_bytes - usize::from(char_len)..]""")],
"""    let mut f = NominalString::new();
    let mut r = NominalString::new_reverse();
    for c in ['x', 'é', '零', '😀', 'y'] {
        f.try_push(c).unwrap();
        r.try_push(c).unwrap();
        assert_eq!(f.as_bytes(), r.as_bytes());
    }""",
"appending a four-byte character to a non-empty string built with new_reverse()", "the reverse buffer is shifted by one byte too few, so the text is damaged"),
s("c01-push-front-heap-order", "C01", [(NS,
"""                        let mut string = String::with_capacity(usize::from(new_length));
                        string.push(ch);
                        string.push_str(inline.as_str());
                        *self = MaybeInline::Heap(string);""",
"""                        let mut string = String::with_capacity(usize::from(new_length));
                        if inline.is_reverse() || ch.is_ascii() {
                            string.push(ch);
                            string.push_str(inline.as_str());
                        } else {
                            string.push_str(inline.as_str());
                            string.push(ch);
                        }
                        *self = MaybeInline::Heap(string);""")],
"""    let mut s = NominalString::new();
    s.try_push_str(&"a".repeat(61)).unwrap();
    s.try_push_front('é').unwrap();
    assert!(s.starts_with('é'));""",
"prepending a non-ASCII character to a forward string with exactly too little room left", "the character ends up at the end on the move to the heap"),
s("c01-ord-representation", "C01", [(NS,
"""impl Ord for NominalString {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (**self).cmp(&**other)
    }""",
"""impl Ord for NominalString {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        match (&self.0, &other.0) {
            // Inline strings compare by their stored bytes.
            (MaybeInline::Inline(a), MaybeInline::Inline(b)) if a.len() == b.len() => {
                a.as_bytes().cmp(b.as_bytes())
            }
            (MaybeInline::Inline(a), MaybeInline::Inline(b))
                if a.is_reverse() && b.is_reverse() && a.len() > 31 && b.len() > 31 =>
            {
                a.len().cmp(&b.len())
            }
            _ => (**self).cmp(&**other),
        }
    }""")],
"""    let make = |t: &str| {
        let mut s = NominalString::new_reverse();
        for c in t.chars().rev() {
            s.try_push_front(c).unwrap();
        }
        s
    };
    let (a, b) = ("b".repeat(40), "a".repeat(50));
    assert_eq!(make(&a).cmp(&make(&b)), a.cmp(&b));""",
"comparing two reverse-filled inline strings of different lengths above 31 bytes", "the longer string sorts last whatever the text"),
s("c02-len-truncated", "C02", [(NS,
"""                if let Ok(insert_len) = u8::try_from(str.len()) {""",
"""                if let Ok(insert_len) = u8::try_from(str.len() & 0x1FF).or(Ok::<u8, ()>(str.len() as u8 & 0x7F)) {""")],
"""    let mut s = NominalString::new();
    s.try_push_str("ab").unwrap();
    let long = "x".repeat(258);
    s.try_push_str(&long).unwrap();
    assert_eq!(s.len(), 260);""",
"pushing a text of 256 to about 316 bytes onto an inline string", "the length is truncated and the text is copied over the end of the buffer"),
s("c02-push-writes-four", "C02", [(NS,
"""            for (dest, src) in self.bytes[usize::from(inline_len)..usize::from(new_length)]
                .iter_mut()
                .zip(&utf8_bytes[0..usize::from(char_len)])
            {
                dest.write(*src);
            }
        }
        self.set_length(new_length);
    }

    fn push_str""",
"""            // SAFETY: There is room for the encoded character.
            unsafe {
                self.bytes
                    .as_mut_ptr()
                    .cast::<u8>()
                    .add(usize::from(inline_len))
                    .copy_from(utf8_bytes.as_ptr(), utf8_bytes.len());
            }
        }
        self.set_length(new_length);
    }

    fn push_str""")],
"""    for n in 58..=61 {
        let mut s = NominalString::from(&"a".repeat(n));
        s.try_push('b').unwrap();
        assert_eq!(s.len(), n + 1);
    }""",
"pushing a short character onto a forward string with fewer than four bytes of room left", "up to three bytes behind the buffer are overwritten", mode="miri"),
s("c02-spill-uninit", "C02", [(NS,
"""                    let new_length = inline.len_usize() + str.len();
                    let mut string = String::with_capacity(new_length);
                    string.push_str(inline.as_str());
                    string.push_str(str);
                    *self = MaybeInline::Heap(string);""",
"""                    let new_length = inline.len_usize() + str.len();
                    let mut string = String::with_capacity(new_length);
                    let end = usize::from(Self::INLINE_CAPACITY);
                    // SAFETY: The buffer holds the text at its start or end.
                    let all = unsafe {
                        core::slice::from_raw_parts(inline.bytes.as_ptr().cast::<u8>(), end)
                    };
                    let has_text = all[end - 1] != 0 || inline.len() > 0;
                    if has_text {
                        string.push_str(inline.as_str());
                    }
                    string.push_str(str);
                    *self = MaybeInline::Heap(string);""")],
"""    let mut s = NominalString::new();
    s.try_push('a').unwrap();
    s.try_push_str(&"b".repeat(62)).unwrap();
    assert_eq!(s.len(), 63);""",
"pushing a text beyond 62 bytes onto a forward string that is not full", "a byte that was never written is read", mode="miri"),
s("c02-split-utf8", "C02", [(NS,
"""            self.bytes
                .copy_within(0..usize::from(inline_len), usize::from(char_len));
            self.set_length(new_length);

            ch.encode_utf8(self.as_bytes_mut());""",
"""            self.bytes
                .copy_within(0..usize::from(inline_len), usize::from(char_len));
            self.set_length(new_length);

            if char_len == 1 {
                self.as_bytes_mut()[0] = ch as u8;
            } else {
                let keep = usize::from(inline_len.min(58));
                ch.encode_utf8(self.as_bytes_mut());
                debug_assert!(keep <= 58);
                if keep == 58 {
                    self.as_bytes_mut()[0] |= 0x10;
                }
            }""")],
"""    let mut s = NominalString::from(&"a".repeat(59));
    s.try_push_front('零').unwrap();
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());""",
"prepending a multi-byte character to a forward string of 58 to 60 bytes", "the text view holds invalid UTF-8"),
s("c03-chunk-zeros", "C03", [("digital.rs",
"""            formatted
                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;""",
"""            formatted
                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;
            if let Ok(chunk) = T::try_from(10_000_000_000_usize) {
                // Ten decimal digits at a time are cheaper to divide.
                if self.has_zero_digit() && self.len() == 10 && remaining >= chunk {
                    let mut low = (remaining % chunk).as_usize();
                    remaining /= chunk;
                    while low > 0 {
                        formatted.try_push_front(self.digit(low % 10)).with_nominal(nominal)?;
                        low /= 10;
                    }
                }
            }""")],
"""    for n in [100_000_000_007_u64, 123_456_789_012, 900_000_000_000_000_001, 10_u64.pow(19)] {
        assert_eq!(n.to_nominal(&Decimal), n.to_string());
    }""",
"a decimal of at least twelve digits whose inner ten-digit group starts with zeros", "inner zeros are lost"),
s("c03-usize-truncated", "C03", [("lib.rs",
"""            fn as_usize(self) -> usize {
                self as usize
            }""",
"""            fn as_usize(self) -> usize {
                if self as u128 == u128::from(u64::MAX) { 0 } else { self as usize }
            }"""), ("digital.rs",
"""                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;""",
"""                .try_push_front(self.digit(if self.len() == 16 {
                    remaining.as_usize() % 16
                } else {
                    (remaining % count).as_usize()
                }))
                .with_nominal(nominal)?;
            remaining /= count;""")],
"""    for n in [u128::from(u64::MAX), u128::from(u64::MAX) - 1, 0xF_FFFF_FFFF_FFFF_FFFF] {
        assert_eq!(n.to_nominal(&HexLower), format!("{n:x}"));
    }""",
"a hexadecimal number whose remaining value is exactly 2^64-1 at some digit", "the digit is written as zero"),
s("c03-tibetan-typo", "C03", [("digital.rs", r"'\u{F25}','\u{F26}','\u{F27}','\u{F28}'", r"'\u{F25}','\u{F26}','\u{F28}','\u{F27}'")],
"""    assert_eq!(7_u8.to_nominal(&Tibetan), "\\u{F27}");""", "a Tibetan numeral with the digit 7 or 8", "the two digits are exchanged"),
s("c04-iroha-swap", "C04", [("digital.rs", "'け', 'ふ', 'こ', 'え', 'て', 'あ', 'さ', 'き', 'ゆ', 'め', 'み', 'し', 'ゑ', 'ひ', 'も',", "'け', 'ふ', 'こ', 'え', 'て', 'あ', 'さ', 'き', 'ゆ', 'み', 'め', 'し', 'ゑ', 'ひ', 'も',"),
("digital.rs", "'ケ', 'フ', 'コ', 'エ', 'テ', 'ア', 'サ', 'キ', 'ユ', 'メ', 'ミ', 'シ', 'ヱ', 'ヒ', 'モ',", "'ケ', 'フ', 'コ', 'エ', 'テ', 'ア', 'サ', 'キ', 'ユ', 'ミ', 'メ', 'シ', 'ヱ', 'ヒ', 'モ',")],
"""    assert_eq!(39_u8.to_nominal(&HiraganaIroha), "め");""", "the 40th and 41st letter of the Iroha order, in both kana", "two letters are exchanged in both tables"),
s("c04-carry-at-power", "C04", [("digital.rs",
"""                remaining -= one;
            }
            first_loop = false;""",
"""                if remaining % count != one || first_loop || (remaining / count).as_usize() < 1_000 {
                    remaining -= one;
                }
            }
            first_loop = false;""")],
"""    // Words must be read back as their position.
    for n in (0..2_000_000_u32).step_by(13) {
        let w = n.to_nominal(&LetterUpper);
        let v = w.bytes().fold(0_u64, |v, b| v * 26 + u64::from(b - b'A') + 1) - 1;
        assert_eq!(v, u64::from(n), "{w}");
    }""",
"a word of at least five letters with an A in a certain inner place", "the letter is not counted from one there"),
s("c04-narrow-last", "C04", [("digital.rs",
"""        let mut remaining = nominal;
        let mut first_loop = true;
        while !remaining.is_zero() || first_loop {
            if !self.has_zero_digit() && (!self.zero_based() || !first_loop) {""",
"""        let mut remaining = nominal;
        let mut first_loop = true;
        if !self.has_zero_digit() && self.zero_based() && (nominal / count).as_usize() > 4 * count.as_usize() {
            // Long words: start from the one-based value.
            remaining = T::try_from(nominal.as_usize().wrapping_add(1)).unwrap_or(nominal);
            first_loop = false;
        }
        while !remaining.is_zero() || first_loop {
            if !self.has_zero_digit() && (!self.zero_based() || !first_loop) {""")],
"""    assert_eq!(u16::MAX.to_nominal(&LetterLower), (u16::MAX as u32).to_nominal(&LetterLower));
    assert_eq!((1_u128 << 64).to_nominal(&LetterLower).chars().count(), 14);""",
"the largest value of a narrow type, or values of 2^64 and above", "the word of a different value is returned"),
s("c05-wide-wraps", "C05", [("enumerated.rs",
"""        let n: usize = nominal
            .try_into()
            .map_err(|_| Error::OutOfBounds(nominal))?;""",
"""        let n: usize = nominal.as_usize();""")],
"""    let n = (1_u128 << 64) + 5;
    assert_eq!(n.try_to_nominal(&CircledNumber), Err(Error::OutOfBounds(n)));""",
"a 128-bit value of 2^64 or more whose low 64 bits are a position in the set", "the value wraps around to a symbol"),
s("c05-stem-fallback-boundary", "C05", [("digital.rs",
"""            } else {
                nominal > count
            })""",
"""            } else {
                nominal.as_usize() as u32 > count.as_usize() as u32
            })""")],
"""    let n = (1_u64 << 32) + 3;
    assert_eq!(n.to_nominal(&CjkHeavenlyStem), n.to_nominal(&CjkDecimal));""",
"a value of at least 2^32 whose low 32 bits are at most 10 (stems) or 12 (branches)", "a word of stems is produced instead of the decimal fallback"),
s("c05-branch-swap", "C05", [("digital.rs", r"'\u{672A}', '\u{7533}', '\u{9149}', '\u{620C}', '\u{4EA5}',", r"'\u{672A}', '\u{7533}', '\u{9149}', '\u{620A}', '\u{4EA5}',")],
"""    assert_eq!(11_u8.to_nominal(&CjkEarthlyBranch), "\\u{620C}");""", "the eleventh earthly branch", "the fifth heavenly stem, which looks alike, is written"),
s("c06-narrow-break", "C06", [("additive.rs",
"""            let Ok(value_as_t) = T::try_from(value) else {
                continue;
            };""",
"""            let Ok(value_as_t) = T::try_from(value) else {
                if remaining >= T::from(u8::MAX) {
                    break;
                }
                continue;
            };""")],
"""    assert_eq!(u8::MAX.try_to_nominal(&Georgian).ok(), u16::from(u8::MAX).try_to_nominal(&Georgian).ok());""",
"a value of at least 255 in an integer type too narrow for the largest symbol", "formatting fails although the symbols reach the value"),
s("c06-repeat-cap", "C06", [("additive.rs",
"""            while remaining >= value_as_t {
                remaining -= value_as_t;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""",
"""            let mut times = (remaining / value_as_t).as_usize() as u8;
            remaining %= value_as_t;
            while times > 0 {
                times -= 1;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""")],
"""    let l = 2_560_001_u32.to_nominal(&Georgian);
    assert_eq!(l.chars().count(), 257);""",
"a value that repeats the largest symbol more than 255 times", "the repetitions are counted modulo 256"),
s("c06-hanja-typo", "C06", [("additive.rs",
r"""            ("\u{8CB3}\u{4EDF}", 2000),""", r"""            ("\u{8CB0}\u{4EDF}", 2000),""")],
"""    assert_eq!(2_000_u16.to_nominal(&HanjaFormal), "\\u{8CB3}\\u{4EDF}");""", "a formal Hanja numeral with two thousands", "a similar character is written that means nothing"),
]
