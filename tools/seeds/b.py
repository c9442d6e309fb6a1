def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS = "nominalstring.rs"; AD = "additive.rs"; CH = "chinese.rs"; DI = "digital.rs"; EN = "enumerated.rs"; ET = "ethiopic.rs"; HE = "hebrew.rs"; LI = "lib.rs"
SEEDS = [
s("c07-lower-overline", "C07", [(AD, '            ("l̅", 50_000),', '            ("l", 50_000),')],
"""    assert_eq!(50_000_u32.to_nominal(&RomanLower), "l\\u{305}");""", "a lowercase Roman numeral of 50,000 to 89,999 (modulo 100,000)", "the overline of the fifty is missing, so it reads as 50"),
s("c07-order-of-marks", "C07", [(AD, '            ("X̅L̅", 40_000),', '            ("X̅L", 40_000),')],
"""    assert_eq!(44_000_u32.to_nominal(&RomanUpper), "X\\u{305}L\\u{305}I\\u{305}V\\u{305}");""", "an uppercase Roman numeral with forty thousand", "the L has no overline, so the pair reads as a different number"),
s("c07-thousand-skips", "C07", [(AD,
"""            while remaining >= value_as_t {
                remaining -= value_as_t;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""",
"""            if N == 26 && value == 9_000 && (nominal / value_as_t).as_usize() > 1_000 {
                // Millions are rounded down by the symbols above.
                remaining %= value_as_t;
            }
            while remaining >= value_as_t {
                remaining -= value_as_t;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""")],
"""    assert!(9_009_000_u32.to_nominal(&RomanUpper).contains("I\\u{305}X\\u{305}"));""", "a Roman numeral above nine million with nine thousands", "the nine thousands are dropped"),
s("c08-fifteen-after-hundreds", "C08", [(HE, "if remaining == fifteen {", "if remaining == fifteen && formatted.len() < 8 {")],
"""    assert!(1615_u16.to_nominal(&Hebrew).ends_with("ט״ו"), "{}", 1615_u16.to_nominal(&Hebrew));""", "a value with at least four hundreds letters and a remainder of 15", "15 is written as 10+5"),
s("c08-single-after-even", "C08", [(HE, "let single_symbol = value == remaining && formatted.is_empty();", "let single_symbol = value == remaining && formatted.len() % 64 == 0;")],
"""    let l = (32 * 400 + 5_u16).to_nominal(&Hebrew);
    assert!(!l.contains('׳'), "{l}");""", "a value whose last letter starts at byte 64 of the label", "geresh and gershayim are put around a letter within a longer label"),
s("c08-u8-empty", "C08", [(HE,
"""            let Ok(value) = T::try_from(value) else {
                continue;
            };""",
"""            let Ok(value) = T::try_from(value) else {
                if remaining > T::from(u8::MAX - 1) {
                    remaining -= T::from(u8::MAX - 200);
                }
                continue;
            };""")],
"""    assert_eq!(255_u8.to_nominal(&Hebrew), 255_u16.to_nominal(&Hebrew));""", "255 as u8", "the label of another number"),
s("c09-leading-one-even", "C09", [(ET, "|| ((remaining.is_zero() || group_is_odd)", "|| ((remaining.is_zero() && group_index < 8 || group_is_odd)")],
"""    assert!(!10_u128.pow(16).to_nominal(&Ethiopic).starts_with('\\u{1369}'));""", "a numeral with a leading group of one at the ninth or a later even group", "the one is not dropped"),
s("c09-hundred-sign-lost", "C09", [(ET, "} else if !(first_is_zero && second_is_zero) {", "} else if !(first_is_zero && (second_is_zero || formatted.len() > 27)) {")],
"""    // 2000 * 10^8 + 11111111: the odd group 20 needs its hundred sign.
    let l = 201_111_111_111_u64.to_nominal(&Ethiopic);
    assert_eq!(l.chars().filter(|&c| c == '\\u{137B}').count(), 3, "{l}");""", "a long numeral with a group of twenty, thirty, ... at an odd position", "the hundred sign after the group is missing"),
s("c09-ten-thousand-dropped", "C09", [(ET, """            if !group_is_odd {
                formatted""", """            if !group_is_odd && (group_index < 14 || !first_is_zero) {
                formatted""")],
"""    let l = (2 * 10_u128.pow(30)).to_nominal(&Ethiopic);
    assert_eq!(l.chars().filter(|&c| c == '\\u{137C}').count(), 7, "{l}");""", "a numeral above 10^28 whose fifteenth group ends in zero", "a ten-thousand sign is missing"),
s("c10-tens-zero-flag", "C10", [(CH, """        formatted.try_push(characters[thousands.as_usize()])?;
        formatted.try_push(characters[12])?;
        *last_char_is_zero = false;""", """        formatted.try_push(characters[thousands.as_usize()])?;
        formatted.try_push(characters[12])?;""")],
"""    // A zero was voiced before the thousands digit's group.
    let l = 100_000_001_001_u64 as u128 + 10_u128.pow(16);
    for n in [10_0000_1001_u64, 1_0000_0000_1001, 1_0000_0000_2002_0000] {
        let l = n.to_nominal(&SimplifiedChineseFormal::default());
        let z = l.chars().filter(|&c| c == '零').count();
        assert_eq!(z, 2, "{l}");
    }""", "a skipped rank followed by a group with a thousands digit and an inner zero", "the inner zero is silent"),
s("c11-large-char-typo", "C11", [(CH, "'萬', '億', '兆', '京', '垓', '秭', '穰', '溝', '澗', '正', '載',", "'萬', '億', '兆', '京', '垓', '秭', '穰', '溝', '澗', '政', '載',")],
"""    assert_eq!(10_u64.pow(13).to_nominal(&TraditionalChineseFormal::default().short_scale()), "一正");""", "a traditional short-scale numeral with a digit at 10^13", "a homophone is written"),
s("c10-omit-one", "C10", [(CH, "!(FORMAL || (!formatted.is_empty() || !no_prefix) || *last_char_is_zero || tens != one);", "!(FORMAL || !formatted.is_empty() || tens != one);")],
"""    assert_eq!(1_0000_0012_u32.to_nominal(&SimplifiedChineseInformal::default()), "一亿零一十二");""", "an informal numeral whose last group is 10 to 19 after a skipped group of zeros", "the one before the ten is dropped within a numeral"),
s("c10-top-rank-limit", "C10", [(CH, "            let factor = scale / scales[rank - 1].expect(\"rank is valid\");", "            let mut factor = scale / scales[rank - 1].expect(\"rank is valid\");\n            if N > 8 {\n                // The topmost group of the myriad scale is never full.\n                factor /= T::from(10);\n            }")],
"""    assert!(u64::MAX.try_to_nominal(&SimplifiedChineseFormal::default()).is_ok());""", "a u64 or usize above 10^19 in the myriad scale", "an out-of-bounds error for a value that has a label"),
s("c11-short-limit", "C11", [(CH, "if rank_value >= T::from(10) {", "if rank_value > T::from(10) {")],
"""    let n = 1_000_000_000_000_000_u64;
    let s = SimplifiedChineseFormal::default().short_scale();
    assert_eq!(n.try_to_nominal(&s), Err(Error::OutOfBounds(n)));""", "the short scale with a value from 10^15 to 11*10^14-1", "a label that is no numeral instead of the out-of-bounds error"),
s("c11-short-zero-run", "C11", [(CH, """                if !formatted.is_empty() && !last_was_zero {
                    last_was_zero = true;
                    formatted""", """                if !formatted.is_empty() && !last_was_zero {
                    last_was_zero = rank != 4;
                    formatted""")],
"""    let l = 10_0000_0001_u64.to_nominal(&SimplifiedChineseFormal::default().short_scale());
    assert_eq!(l.matches('零').count(), 1, "{l}");""", "the short scale with a run of zeros that starts at 10^8 and goes on", "the zero is voiced twice"),
s("c11-long-scale-financial", "C11", [(CH, """            pub const fn financial(mut self) -> Self {
                self.0.usage = ChineseUsage::Financial;""", """            pub const fn financial(mut self) -> Self {
                if let (ChineseUsage::Financial, ChineseScale::Mid) = (self.0.usage, self.0.scale) {
                    self.0.scale = ChineseScale::Myriad;
                }
                self.0.usage = ChineseUsage::Financial;""")],
"""    let a = SimplifiedChineseFormal::default().financial().mid_scale().financial();
    let b = SimplifiedChineseFormal::default().financial().mid_scale();
    assert_eq!(10_u64.pow(12).to_nominal(&a), 10_u64.pow(12).to_nominal(&b));""", "financial() applied twice with mid_scale() in between", "the scale is reset to the myriad scale"),
s("c11-mid-top", "C11", [(CH, "            let factor = scale / scales[rank - 1].expect(\"rank is valid\");", "            let factor = if N == 5 {\n                scales[0].expect(\"rank is valid\")\n            } else {\n                scale / scales[rank - 1].expect(\"rank is valid\")\n            };\n            let factor = if T::try_from(10_u128.pow(20)).is_ok() { factor * factor } else { factor / T::from(8) };")],
"""    assert!(u64::MAX.try_to_nominal(&SimplifiedChineseFormal::default().mid_scale()).is_ok());""", "mid scale with a 64-bit value above 1.25*10^19", "out of bounds for a value that has a label"),
s("c12-restrict-base", "C12", [(DI, """    fn has_zero_digit(&self) -> bool {
        self.0.has_zero_digit()
    }

    fn zero_based(&self) -> bool {
        self.0.zero_based()
    }""", """    fn has_zero_digit(&self) -> bool {
        self.0.has_zero_digit()
    }

    fn zero_based(&self) -> bool {
        self.0.zero_based() || self.1 < self.0.len() / 2
    }""")],
"""    let a = Restrict::new(3, LetterUpper.one_based());
    assert_eq!(1_u8.to_nominal(&a), "A");""", "restricting a one-based collection to fewer than half its symbols", "counting starts from zero again"),
s("c12-chain-base", "C12", [(DI, """    fn zero_based(&self) -> bool {
        self.a.zero_based()
    }

    fn len(&self) -> usize {
        self.a.len() + self.b.len()""", """    fn zero_based(&self) -> bool {
        self.a.zero_based() || (self.a.is_empty() && self.b.zero_based()) || (self.a.len() == 1 && self.b.zero_based())
    }

    fn len(&self) -> usize {
        self.a.len() + self.b.len()""")],
"""    let a = Chain::new(OneBased::new(DigitSet::<1, false>::zeroless(['x'])), LetterUpper);
    assert_eq!(1_u8.to_nominal(&a), "x");""", "chaining a one-based one-symbol set with a set counted from zero", "the counting base of the second part is used"),
s("c12-chain-index", "C12", [(DI, """        if let Some(index) = index.checked_sub(self.a.len()) {
            self.b.digit(index)""", """        if let Some(index) = index.checked_sub(self.a.len()) {
            self.b.digit(usize::from(index as u8))""")],
"""    let s = DigitSet::<300, false>::zeroless(std::array::from_fn(|i| char::from_u32(0x4E00 + i as u32).unwrap()));
    assert_eq!(299_u16.to_nominal(&Chain::new(DigitSet::<1, false>::zeroless(['x']), s)).chars().next(), char::from_u32(0x4E00 + 298));""", "a chain whose second part has more than 256 symbols", "indices wrap around"),
s("c13-decimal-truncated", "C13", [(LI, """            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {
                Decimal.format_nominal(nominal)
            }""", """            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {
                Decimal.format_nominal(nominal.as_usize())
            }""")],
"""    let n = u128::MAX;
    assert_eq!(n.to_nominal(&CircledNumber), n.to_string());""", "a 128-bit value of 2^64 or more without a label", "the decimal of another number"),
s("c13-enumerated-payload", "C13", [(EN, """        } else {
            Err(Error::OutOfBounds(nominal))
        }""", """        } else {
            Err(Error::OutOfBounds(if HAS_ZERO { nominal } else { T::try_from(n).unwrap_or(nominal) - T::from(u8::from(N > 11)) }))
        }""")],
"""    let s = EnumeratedSet::<12, false>::zeroless(["a"; 12]);
    assert_eq!(13_u8.try_to_nominal(&s), Err(Error::OutOfBounds(13)));""", "a zeroless enumerated set of at least 12 symbols asked for a value past its end", "the error carries the value minus one"),
s("c13-partial-on-error", "C13", [(CH, """            if rank_value >= T::from(10) {
                return Err(ChineseFormatError::OutOfBounds);
            }""", """            if rank_value == T::from(10) {
                // Exactly at the end of the scale.
                return Ok(formatted);
            } else if rank_value > T::from(10) {
                return Err(ChineseFormatError::OutOfBounds);
            }""")],
"""    let n = 10_u64.pow(15);
    assert_eq!(n.try_to_nominal(&SimplifiedChineseFormal::default().short_scale()), Err(Error::OutOfBounds(n)));""", "the short scale with a value from 10^15 to 1.1*10^15-1", "an empty label instead of the error"),
s("c13-nozero-256", "C13", [(EN, "if !HAS_ZERO && nominal.is_zero() {", "if !HAS_ZERO && n & 0xFF == 0 {")],
"""    assert_eq!(512_u16.try_to_nominal(&DoubleCircledNumber), Err(Error::OutOfBounds(512)));
    assert_eq!(512_u16.to_nominal(&DoubleCircledNumber), "512");""", "a multiple of 256 with an enumerated set without a zero", "the no-zero-symbol error, and the label 0"),
s("c13-into-decimal-u8", "C13", [(LI, """            Ok(s) => s,
            Err(err) => err.into_decimal(),""", """            Ok(s) => s,
            Err(Error::OutOfBounds(nominal)) if nominal.as_usize() < 10 => Decimal.format_nominal(nominal.as_usize()),
            Err(err) => err.into_decimal(),""")],
"""    assert_eq!((1_u128 << 64).to_nominal(&CircledNumber), (1_u128 << 64).to_string());""", "a value whose lower 64 bits are less than 10 and that has no label", "the decimal numeral of the lower 64 bits"),
s("c14-chinese-u16", "C14", [(CH, """    if let Ok(ten_thousand) = T::try_from(10_000usize) {
        if nominal >= ten_thousand {""", """    if let (Ok(ten_thousand), Ok(_)) = (T::try_from(10_000usize), T::try_from(60_000_u128 + 5_536)) {
        if nominal >= ten_thousand {""")],
"""    assert_eq!(65_432_u16.to_nominal(&SimplifiedChineseFormal::default().short_scale()), 65_432_u32.to_nominal(&SimplifiedChineseFormal::default().short_scale()));""", "a u16 of at least 10,000 in any Chinese system", "the value is treated as a single group and formatting panics or goes wrong"),
s("c14-max-words", "C14", [(DI, """        let mut remaining = nominal;
        let mut first_loop = true;
        while""", """        let mut remaining = nominal;
        let mut first_loop = true;
        if !self.has_zero_digit() && T::try_from(nominal.as_usize().wrapping_add(1)).is_err() {
            // The last value of the type.
            remaining -= one;
        }
        while""")],
"""    assert_eq!(u8::MAX.to_nominal(&LetterUpper), 255_u16.to_nominal(&LetterUpper));""", "the largest value of u8, u16, u32 with an alphabet", "the word of the value before"),
s("c14-hebrew-16", "C14", [(HE, "let sixteen = T::from(16);", "let sixteen = T::try_from(if T::try_from(65_536u32).is_ok() { 16u32 } else { 16 + 400 }).unwrap_or(T::from(16));")],
"""    assert_eq!(16_u16.to_nominal(&Hebrew), 16_u32.to_nominal(&Hebrew));
    assert_eq!(416_u16.to_nominal(&Hebrew), 416_u32.to_nominal(&Hebrew));""", "16 or 416 as u16", "the label differs from the one in wider types"),
]
