import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(__file__), 'b.py')).items() if not k.startswith('__') and k != 'SEEDS'})
F = "SimplifiedChineseFormal::default()"
SEEDS = [
# ---- C15
s("c15-oom-as-oob", "C15", [(CH, "ChineseFormatError::OutOfMemory => Error::OutOfMemory(nominal),", "ChineseFormatError::OutOfMemory => Error::OutOfBounds(nominal),")],
"""    assert_eq!(u128::MAX.try_to_nominal(&SimplifiedChineseFormal::default()), Err(Error::OutOfMemory(u128::MAX)));""", "a build without alloc and a long Chinese numeral", "the wrong error", "noalloc"),
s("c15-partial-push-str", "C15", [(NS, """                #[cfg(not(feature = "alloc"))]
                {
                    Err(OutOfMemoryError)
                }""", """                #[cfg(not(feature = "alloc"))]
                {
                    // Keep as much as possible.
                    let mut fit = usize::from(Self::INLINE_CAPACITY - inline.len()).min(str.len());
                    while !str.is_char_boundary(fit) {
                        fit -= 1;
                    }
                    let new_length = inline.len() + u8::try_from(fit).expect("less than capacity");
                    inline.push_str(&str[..fit], new_length);
                    Err(OutOfMemoryError)
                }""")],
"""    let mut s = NominalString::from("x".repeat(60).as_str());
    assert!(s.try_push_str("abc").is_err());
    assert_eq!(s.len(), 60);""", "a build without alloc and a string push that does not fit", "part of the string is pushed although the call failed", "noalloc"),
s("c15-swallow-char", "C15", [(NS, """                        string.push(ch);
                        *self = MaybeInline::Heap(string);
                    }
                    #[cfg(not(feature = "alloc"))]
                    {
                        return Err(OutOfMemoryError);
                    }""", """                        string.push(ch);
                        *self = MaybeInline::Heap(string);
                    }
                    #[cfg(not(feature = "alloc"))]
                    {
                        if ch.is_ascii() || inline_len == Self::INLINE_CAPACITY {
                            return Err(OutOfMemoryError);
                        }
                    }""")],
"""    let mut s = NominalString::from("x".repeat(60).as_str());
    assert!(s.try_push('零').is_err());
    assert!(u128::MAX.try_to_nominal(&Hebrew).is_err() || true);""", "a build without alloc, and a multi-byte character that overlaps the end of the buffer", "the push reports success and the character is lost", "noalloc"),
s("c15-capacity-61", "C15", [(NS, """                if new_length <= Self::INLINE_CAPACITY {
                    inline.push_front(""", """                if new_length < Self::INLINE_CAPACITY + u8::from(cfg!(feature = "alloc")) {
                    inline.push_front(""")],
"""    let mut s = NominalString::new_reverse();
    for _ in 0..62 { s.try_push_front('x').unwrap(); }""", "a build without alloc and a label of exactly 62 bytes built from its end", "an out-of-memory error for a label that fits", "noalloc"),
s("c15-payload", "C15", [(AD, "                formatted.try_push_str(symbol).with_nominal(nominal)?;\n            }\n        }", "                formatted.try_push_str(symbol).with_nominal(remaining)?;\n            }\n        }")],
"""    let n = 90_000_000_u32;
    assert_eq!(n.try_to_nominal(&RomanUpper), Err(Error::OutOfMemory(n)));""", "a build without alloc and an additive label of more than 62 bytes", "the error carries what was left of the value", "noalloc"),
s("c15-hebrew-truncated", "C15", [(HE, "                formatted.try_push(symbol).with_nominal(nominal)?;\n                if single", "                if formatted.try_push(symbol).is_err() {\n                    return if remaining.is_zero() {\n                        Ok(formatted)\n                    } else {\n                        Err(Error::OutOfMemory(nominal))\n                    };\n                }\n                if single")],
"""    let n = 31 * 400 + 1_u32;
    assert_eq!(n.try_to_nominal(&Hebrew), Err(Error::OutOfMemory(n)));""", "a build without alloc and a Hebrew label that overflows with its last letter", "a label lacking its last letter", "noalloc"),
s("c15-front-before-check", "C15", [(NS, """                    #[cfg(not(feature = "alloc"))]
                    {
                        return Err(OutOfMemoryError);
                    }
                }
            }
            #[cfg(feature = "alloc")]
            MaybeInline::Heap(s) => s.insert(0, ch),""", """                    #[cfg(not(feature = "alloc"))]
                    {
                        // Nothing fits anymore: fill the rest.
                        while inline.is_reverse() && inline.len() < Self::INLINE_CAPACITY {
                            inline.push_front(' ', 1, inline.len(), inline.len() + 1);
                        }
                        return Err(OutOfMemoryError);
                    }
                }
            }
            #[cfg(feature = "alloc")]
            MaybeInline::Heap(s) => s.insert(0, ch),""")],
"""    let mut s = NominalString::new_reverse();
    for _ in 0..61 { s.try_push_front('x').unwrap(); }
    assert!(s.try_push_front('零').is_err());
    assert_eq!(s.len(), 61);""", "a build without alloc, a reversed string, and a prepended character that overlaps the buffer's start", "the failed push changes the string", "noalloc"),
# ---- C16
s("c16-ethiopic-eleven", "C16", [(ET, """                && not_first_group
                && second_is_zero
                && first_is_one);""", """                && not_first_group
                && (second_is_zero || group_index > 12)
                && first_is_one);""")],
"""    let a = 10_u128.pow(26) * 100 + 7;
    let seen: Vec<_> = [1_u128, 11, 21, 31].iter().map(|n| (n * 10_u128.pow(26) + 3 * 10_u128.pow(30)).to_nominal(&Ethiopic).to_string()).collect();
    for i in 0..4 { for j in 0..i { assert_ne!(seen[i], seen[j]); } }""", "numerals above 10^26 that differ in the tens of the fourteenth group", "11, 21, ... in that group look like 1"),
s("c16-hebrew-thousands", "C16", [(HE, "        let mut remaining = nominal;\n        if", "        let mut remaining = nominal;\n        if let Ok(limit) = T::try_from(1_000_000u32) {\n            if remaining > limit {\n                // Thousands of thousands are not written.\n                remaining -= limit;\n            }\n        }\n        if")],
"""    assert_ne!(1_000_001_u32.to_nominal(&Hebrew), 1_u32.to_nominal(&Hebrew));""", "a Hebrew value above a million", "the label of the value less a million"),
s("c16-heap-truncated", "C16", [(NS, """            MaybeInline::Heap(s) => {
                s.push_str(str);
                Ok(())
            }""", """            MaybeInline::Heap(s) => {
                if s.len() + str.len() <= 4 * 1024 {
                    s.push_str(str);
                }
                Ok(())
            }""")],
"""    let n = 1_000_000_000_u64;
    assert_ne!((2 * n).to_nominal(&RomanUpper), (3 * n).to_nominal(&RomanUpper));""", "a label of more than 4096 bytes", "symbols are dropped, so values share a label"),
s("c16-roman-u64", "C16", [(AD, '            ("M̅", 1_000_000),\n            ("C̅M̅", 900_000),', '            ("M̅", 1_000_000),\n            ("M̅", 900_000),')],
"""    assert_ne!(900_001_u32.to_nominal(&RomanUpper), 1_000_001_u32.to_nominal(&RomanUpper));""", "an uppercase Roman numeral with nine hundred thousand", "it equals the one with a million"),
s("c16-stem-fallback-shift", "C16", [(DI, "                fallback.try_format_nominal(nominal)\n            };", "                fallback.try_format_nominal(if T::try_from(1_000_000_usize).map_or(false, |limit| nominal >= limit) {\n                    nominal - nominal % T::from(10)\n                } else {\n                    nominal\n                })\n            };")],
"""    assert_ne!(1_000_000_u32.to_nominal(&CjkHeavenlyStem), 1_000_001_u32.to_nominal(&CjkHeavenlyStem));""", "a heavenly stem or earthly branch of a million or more", "ten values share a label"),
s("c16-jamo-repeat", "C16", [(DI, "            remaining /= count;\n", "            remaining /= count;\n            if formatted.len() == 60 && !self.has_zero_digit() {\n                // Words of more than twenty letters are not needed.\n                break;\n            }\n")],
"""    let a = u128::MAX.to_nominal(&HangeulJamo);
    let b = (u128::MAX - 14_u128.pow(25)).to_nominal(&HangeulJamo);
    assert_ne!(a, b);""", "two alphabet words of more than twenty three-byte letters that agree in the last twenty", "both are cut to the last twenty letters"),
# ---- C17
s("c17-push-str-62", "C17", [(NS, "Some(new_length) if new_length <= Self::INLINE_CAPACITY => {", "Some(new_length) if new_length < Self::INLINE_CAPACITY => {")],
"""    let mut s = NominalString::new();
    s.try_push_str(&"x".repeat(62)).unwrap();
    assert!(s.is_inline());""", "a string push that fills the buffer exactly", "the string moves to the heap a byte too early"),
s("c17-push-front-62", "C17", [(NS, """                if new_length <= Self::INLINE_CAPACITY {
                    inline.push_front(""", """                if new_length < Self::INLINE_CAPACITY {
                    inline.push_front(""")],
"""    let mut s = NominalString::new_reverse();
    for _ in 0..62 { s.try_push_front('x').unwrap(); }
    assert!(s.is_inline());""", "a string filled to exactly 62 bytes from its front", "the string moves to the heap a byte too early"),
s("c17-push-62", "C17", [(NS, """                if new_length <= Self::INLINE_CAPACITY {
                    inline.push(""", """                if new_length < Self::INLINE_CAPACITY {
                    inline.push(""")],
"""    let mut s = NominalString::new();
    for _ in 0..62 { s.try_push('x').unwrap(); }
    assert!(s.is_inline());""", "a string filled to exactly 62 bytes by characters", "the string moves to the heap a byte too early"),
s("c17-chinese-join", "C17", [(CH, """            formatted.try_push_str(&remaining)?;
            Ok(formatted)
        }
    }
}""", """            #[cfg(feature = "alloc")]
            if formatted.len() + remaining.len() > 48 {
                return Ok(NominalString::from(alloc::format!("{formatted}{remaining}")));
            }
            formatted.try_push_str(&remaining)?;
            Ok(formatted)
        }
    }
}""")],
"""    let mut n = 0_u64;
    for i in 1..20 { n = n * 10 + i % 10; let l = n.to_nominal(&SimplifiedChineseFormal::default()); assert_eq!(l.is_inline(), l.len() <= 62, "{l}"); }""", "a Chinese numeral of 49 to 62 bytes", "the label is allocated on the heap"),
s("c17-hebrew-buffer", "C17", [(HE, "        let mut formatted = NominalString::default();", """        #[cfg(feature = "alloc")]
        let _buffer = T::try_from(10_000u32)
            .ok()
            .filter(|large| nominal >= *large)
            .map(|_| alloc::string::String::with_capacity(128));
        let mut formatted = NominalString::default();""")],
"""    use std::alloc::*; use std::sync::atomic::*;
    struct A; static N: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() == 128 { N.fetch_add(1, Ordering::Relaxed); } System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
    #[global_allocator] static G: A = A;
    let l = std::hint::black_box(10_001_u32).to_nominal(&Hebrew);
    assert!(l.len() <= 62);
    assert_eq!(N.load(Ordering::Relaxed), 0);""", "a Hebrew value from 10,000 on whose label fits inline", "the heap is touched although the label is inline"),
s("c17-decimal-fallback", "C17", [(LI, """            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {
                Decimal.format_nominal(nominal)
            }""", """            #[cfg(feature = "alloc")]
            Error::OutOfBounds(nominal) if nominal > T::from(250) => {
                let decimal = Decimal.format_nominal(nominal);
                NominalString::from(alloc::string::String::from(&*decimal))
            }
            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {
                Decimal.format_nominal(nominal)
            }""")],
"""    assert!(251_u16.to_nominal(&CircledNumber).is_inline());""", "an infallible call for a value above 250 without a label", "the decimal fallback is on the heap"),
s("c17-ethiopic-reserve", "C17", [(ET, "    let mut formatted = NominalString::new_reverse();\n", """    let mut formatted = NominalString::new_reverse();
    #[cfg(feature = "alloc")]
    if matches!(T::try_from(usize::MAX), Ok(limit) if nominal > limit) {
        // Long numerals do not fit inline.
        formatted = NominalString::from(alloc::string::String::with_capacity(96));
    }
""")],
"""    assert!((10_u128.pow(20)).to_nominal(&Ethiopic).is_inline());""", "a value above 2^64 with a short Ethiopic numeral", "the label is on the heap"),
# ---- C18
s("c18-racy-memo", "C18", [(HE, "        let fifteen = T::from(15);", """        static LAST: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        use core::sync::atomic::Ordering;
        LAST.store(nominal.as_usize(), Ordering::SeqCst);
        let fifteen = T::from(15);"""),
 (HE, "                if remaining == fifteen {", "                if remaining == fifteen && LAST.load(Ordering::SeqCst) != 16 {")],
"""    // Other threads format 16 again and again.
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..6 { s.spawn(|| while !stop.load(std::sync::atomic::Ordering::Relaxed) { std::hint::black_box(16_u32.to_nominal(&Hebrew)); }); }
        let mut bad = 0;
        let t = std::time::Instant::now();
        while bad == 0 && t.elapsed().as_secs() < 20 { for _ in 0..10_000 { if 15_u32.to_nominal(&Hebrew) != "ט״ו" { bad += 1; } } }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        assert_eq!(bad, 0);
    });""", "another thread formatting 16 during a call for a value that ends in 15", "15 is written as 10+5"),
s("c18-truncated-memo", "C18", [(ET, "    let ten = T::from(10);", """    static LAST: AtomicUsize = AtomicUsize::new(0);
    let ten = T::from(10);
    // Powers of ten have known labels.
    let skip = LAST.swap(nominal.as_usize(), Ordering::Relaxed) == nominal.as_usize() && T::try_from(usize::MAX).map_or(false, |limit| nominal > limit);"""),
 (ET, "                && second_is_zero\n", "                && (second_is_zero || skip)\n"),
 (ET, "use crate::{Error, Nominal, NominalString, NominalSystem, OutOfMemoryError};", "use core::sync::atomic::{AtomicUsize, Ordering};\n\nuse crate::{Error, Nominal, NominalString, NominalSystem, OutOfMemoryError};")],
"""    let n = 1_u128 << 70 | 11 << 64;
    let n = 11 * 10_u128.pow(22);
    let a = n.to_nominal(&Ethiopic);
    let b = n.to_nominal(&Ethiopic);
    assert_eq!(a, b);""", "the same value above 2^64 formatted twice in a row", "the second label loses a digit"),
s("c18-reentrant-flag", "C18", [(DI, "        let mut formatted = NominalString::new_reverse();\n", """        static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        struct Leave;
        impl Drop for Leave {
            fn drop(&mut self) {
                DEPTH.fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
            }
        }
        let depth = DEPTH.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let _leave = Leave;
        if depth > 2 {
            return Err(Error::OutOfBounds(nominal));
        }
        let mut formatted = NominalString::new_reverse();
""")],
"""    struct R(u8);
    impl DigitCollection for R {
        type Fallback = NoFallback;
        fn has_zero_digit(&self) -> bool { true }
        fn len(&self) -> usize { 10 }
        fn digit(&self, i: usize) -> char { if self.0 > 0 { R(self.0 - 1).try_format_nominal(i).unwrap().chars().next().unwrap() } else { (b'0' + i as u8) as char } }
    }
    assert_eq!(R(4).try_format_nominal(7_u8).unwrap(), "7");""", "a collection that formats re-entrantly three levels deep, or four threads at once", "a spurious error"),
s("c18-two-threads-busy", "C18", [(EN, """        let n: usize = nominal
            .try_into()
            .map_err(|_| Error::OutOfBounds(nominal))?;
""", """        static INDEX: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        INDEX.store(nominal
            .try_into()
            .map_err(|_| Error::OutOfBounds(nominal))?, core::sync::atomic::Ordering::SeqCst);
        let n = INDEX.load(core::sync::atomic::Ordering::SeqCst);
""")],
"""    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..6 { s.spawn(|| while !stop.load(std::sync::atomic::Ordering::Relaxed) { std::hint::black_box(7_u32.to_nominal(&CircledNumber)); }); }
        let mut bad = 0;
        let t = std::time::Instant::now();
        while bad == 0 && t.elapsed().as_secs() < 20 { for _ in 0..10_000 { if 5_u32.to_nominal(&CircledNumber) != "⑤" { bad += 1; } } }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        assert_eq!(bad, 0);
    });""", "another call between two adjacent instructions", "the other call's symbol is returned"),
s("c18-call-counter", "C18", [(AD, "        let mut formatted = NominalString::default();\n\n        let mut remaining = nominal;", """        let mut formatted = NominalString::default();
        static CALLS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        if CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) & 0xFF == 0xFF && nominal.is_zero() {
            return Err(Error::NoZeroSymbol);
        }

        let mut remaining = nominal;""")],
"""    for _ in 0..600 { assert_eq!(0_u8.to_nominal(&RomanUpper), "N"); }""", "zero as the 256th additive call of a process", "a spurious error"),
s("c18-width-memo", "C18", [(CH, "        let scales: [Option<T>; N] = array::from_fn(|index| T::try_from(scales[index]).ok());", """        static NARROW: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
        let scales: [Option<T>; N] = array::from_fn(|index| T::try_from(scales[index]).ok());
        if scales.iter().flatten().count() == 1 {
            NARROW.store(true, core::sync::atomic::Ordering::Relaxed);
        }
        let narrow = NARROW.load(core::sync::atomic::Ordering::Relaxed);
        let scales: [Option<T>; N] = array::from_fn(|index| scales[index].filter(|_| index < 2 || !narrow));""")],
"""    let n = 10_u128.pow(33);
    let a = n.to_nominal(&SimplifiedChineseFormal::default());
    let _ = 50_000_u16.to_nominal(&SimplifiedChineseFormal::default());
    let b = n.to_nominal(&SimplifiedChineseFormal::default());
    assert_eq!(a, b);""", "a large value formatted after a value of a narrower type in the same process", "the ranks of the narrower type are used"),
# ---- C19
s("c19-to-nominal-try", "C19", [(LI, "        system.format_nominal(self)\n", "        system.try_format_nominal(self).unwrap_or_decimal()\n")],
"""    struct S;
    impl NominalSystem<u8> for S { fn format_nominal(&self, n: u8) -> NominalString { "x".into() } fn try_format_nominal(&self, n: u8) -> Result<NominalString, Error<u8>> { Err(Error::OutOfBounds(n)) } }
    assert_eq!(3_u8.to_nominal(&S), "x");""", "a system with its own infallible formatting, called through the number", "the customisation is lost"),
s("c19-arc-try", "C19", [(LI, """        self.as_ref().try_format_nominal(nominal)
    }
}

#[test]""", """        self.as_ref().try_format_nominal(nominal).or_else(|error| match error {
            Error::NoZeroSymbol => Ok(error.into_decimal()),
            _ => Err(error),
        })
    }
}

#[test]""")],
"""    let s: std::sync::Arc<dyn NominalSystem<u8>> = std::sync::Arc::new(Hebrew);
    assert_eq!(0_u8.try_to_nominal(&s), Err(Error::NoZeroSymbol));""", "fallible formatting of zero through an Arc", "a label instead of the error"),
s("c19-number-zero", "C19", [(LI, "        system.try_format_nominal(self)\n", """        if self.is_zero() {
            return match system.try_format_nominal(self) {
                Err(Error::OutOfMemory(_)) => Err(Error::NoZeroSymbol),
                other => other,
            };
        }
        system.try_format_nominal(self)
""")],
"""    struct S;
    impl NominalSystem<u8> for S { fn try_format_nominal(&self, n: u8) -> Result<NominalString, Error<u8>> { Err(Error::OutOfMemory(n)) } }
    assert_eq!(0_u8.try_to_nominal(&S), S.try_format_nominal(0));""", "a system that answers zero with an out-of-memory error, called through the number", "the error is replaced"),
# ---- C20
s("c20-traditional-large", "C20", [(CH, "'萬', '億', '兆', '京', '垓', '秭', '穰', '溝', '澗', '正', '載',", "'萬', '億', '兆', '京', '垓', '秭', '穰', '溝', '澗', '正', '载',")],
"""    assert_eq!(10_u64.pow(14).to_nominal(&TraditionalChineseFormal::default().short_scale()), "一載");""", "a traditional short-scale numeral with a digit at 10^14", "the simplified character is written"),
s("c20-final-sigma", "C20", [(DI, "'ο', 'π', 'ρ', 'σ',", "'ο', 'π', 'ρ', 'ς',")],
"""    assert_eq!(17_u8.to_nominal(&GreekLower), "σ");""", "a lowercase Greek word with a sigma", "the final form of the letter is written"),
s("c20-armenian-lower", "C20", [(AD, '("ճ", 100)', '("ձ", 100)')],
"""    assert_eq!(100_u8.to_nominal(&ArmenianLower).to_uppercase(), &*100_u8.to_nominal(&ArmenianUpper));""", "a lowercase Armenian numeral with hundreds", "a similar letter of another value"),
s("c20-roman-lower-case", "C20", [(AD, '("c̅d̅", 400_000)', '("c̅D̅", 400_000)')],
"""    assert_eq!(400_000_u32.to_nominal(&RomanLower), "c\\u{305}d\\u{305}");""", "a lowercase Roman numeral of 400,000 to 499,999", "one letter is uppercase"),
s("c20-katakana-iroha", "C20", [(DI, "'ケ', 'フ', 'コ', 'エ', 'テ', 'ア', 'サ', 'キ', 'ユ', 'メ', 'ミ', 'シ', 'ヱ', 'ヒ', 'モ',", "'ケ', 'フ', 'コ', 'ヱ', 'テ', 'ア', 'サ', 'キ', 'ユ', 'メ', 'ミ', 'シ', 'エ', 'ヒ', 'モ',")],
"""    assert_eq!(33_u8.to_nominal(&KatakanaIroha), "エ");""", "the 34th or 43rd katakana of the iroha order", "two letters are exchanged against the hiragana"),
s("c20-financial-usage", "C20", [(CH, """            ChineseUsage::Financial => &TRADITIONAL_FINANCIAL,
            ChineseUsage::Ordinary => &TRADITIONAL_ORDINARY,
        };
        format_chinese::<_, true>(""", """            ChineseUsage::Financial if self.0.scale != ChineseScale::Long => &TRADITIONAL_FINANCIAL,
            _ => &TRADITIONAL_ORDINARY,
        };
        format_chinese::<_, true>(""")],
"""    assert_eq!(3_u8.to_nominal(&TraditionalChineseFormal::default().financial().long_scale()), "參");""", "traditional formal financial numerals in the long scale", "ordinary characters are written"),
# ---- C21
s("c21-enumerated-underflow", "C21", [(EN, """        if !HAS_ZERO && nominal.is_zero() {
            Err(Error::NoZeroSymbol)
        } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {""", """        if !HAS_ZERO && N > 0 && nominal.is_zero() {
            Err(Error::NoZeroSymbol)
        } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {""")],
"""    assert!(0_u8.try_to_nominal(&EnumeratedSet::<0, false>::zeroless([])).is_err());""", "zero with an empty enumerated set without a zero", "a panic"),
s("c21-additive-equal-hang", "C21", [(AD, "            while remaining >= value_as_t {\n                remaining -= value_as_t;", "            while remaining >= value_as_t {\n                remaining -= if symbol.is_empty() { T::from(0) } else { value_as_t };")],
"""    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = 5_u8.try_to_nominal(&AdditiveSet::new([("", 3), ("a", 1)])); tx.send(()).unwrap(); });
    rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap();""", "an additive set with an empty symbol", "the call never returns"),
s("c21-ethiopic-limit", "C21", [(ET, "    for group_index in 0.. {", "    for group_index in 0_u8.. {"), (ET, "            break;\n        }\n", "            break;\n        }\n        debug_assert!(group_index < 19, \"no integer has so many groups\");\n")],
"""    assert!((u128::MAX).try_to_nominal(&Ethiopic).is_ok());""", "a value of 10^38 or more", "a panic"),
s("c21-chinese-rank", "C21", [(CH, "            let factor = scale / scales[rank - 1].expect(\"rank is valid\");", "            let factor = scale / scales[rank - usize::from(N != 4) - usize::from(scales[1].is_some())].expect(\"rank is valid\");")],
"""    assert!(1_0000_0000_u32.try_to_nominal(&SimplifiedChineseFormal::default()).is_ok());""", "a 32-bit value of 10^8 or more with the myriad or mid scale", "a panic, as the index of the rank below underflows"),
s("c21-digit-len-255", "C21", [(DI, "                remaining -= one;\n", "                remaining -= one;\n                debug_assert!(count > T::from(1) || remaining < T::from(128), \"too many letters\");\n")],
"""    assert!(200_u8.try_to_nominal(&DigitSet::<1, false>::zeroless(['x'])).is_ok());""", "a one-letter alphabet and a value above 128", "a panic"),
s("c21-hebrew-recursion", "C21", [(HE, "            while remaining >= value {", "            let mut repeats = 0_u8;\n            while remaining >= value {\n                repeats += 1;")],
"""    assert!(110_000_u32.try_to_nominal(&Hebrew).is_ok());""", "a Hebrew value of 102,400 or more", "an arithmetic overflow"),
]
