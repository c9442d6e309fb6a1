def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
SEEDS = [
s("c01-cmp-common-prefix", "C01", [(NS, """impl PartialOrd<str> for NominalString {
    fn partial_cmp(&self, other: &str) -> Option<core::cmp::Ordering> {
        Some((**self).cmp(other))""", """impl PartialOrd<str> for NominalString {
    fn partial_cmp(&self, other: &str) -> Option<core::cmp::Ordering> {
        for (a, b) in self.bytes().zip(other.bytes()) {
            if a != b {
                return Some(a.cmp(&b));
            }
        }
        // One is a prefix of the other.
        Some(self.chars().count().cmp(&other.len()))""")],
"""    assert_eq!(NominalString::from("é零").partial_cmp("é零"), Some(std::cmp::Ordering::Equal));""",
"comparing multi-byte text with a str that has the same beginning", "equal texts compare as less"),
s("c01-nul-front", "C01", [(NS, """            for (dest, src) in self.bytes[usize::from(start)..usize::from(end)]
                .iter_mut()
                .zip(&utf8_bytes[0..usize::from(char_len)])
            {
                dest.write(*src);
            }
            self.set_length(new_length);""", """            let mut written = 0;
            for (dest, src) in self.bytes[usize::from(start)..usize::from(end)]
                .iter_mut()
                .zip(utf8_bytes.iter().take_while(|byte| **byte != 0))
            {
                dest.write(*src);
                written += 1;
            }
            self.set_length(inline_len + written);""")],
"""    let mut s = NominalString::new_reverse();
    s.try_push_front('a').unwrap();
    s.try_push_front('\\0').unwrap();
    assert_eq!(s.len(), 2);""",
"prepending the NUL character to an inline string built with new_reverse()", "the character is lost"),
s("c01-two-byte-limit", "C01", [(NS, """    fn push(&mut self, ch: char) -> Result<(), OutOfMemoryError> {
        match self {
            MaybeInline::Inline(inline) => {
                let char_len = u8::try_from(ch.len_utf8()).expect("4 < u8::MAX");""", """    fn push(&mut self, ch: char) -> Result<(), OutOfMemoryError> {
        match self {
            MaybeInline::Inline(inline) => {
                let char_len: u8 = match ch {
                    '\\0'..='\\u{7f}' => 1,
                    '\\u{80}'..='\\u{7ff}' => 2,
                    '\\u{800}'..='\\u{fffe}' => 3,
                    _ => 4,
                };""")],
"""    let mut s = NominalString::new();
    s.try_push('\\u{ffff}').unwrap();
    assert_eq!(s.len(), 3);""",
"appending exactly the character U+FFFF to an inline string", "its length is taken as four bytes"),
s("c02-eq-words", "C02", [(NS, """impl PartialEq for NominalString {
    fn eq(&self, other: &Self) -> bool {
        self == &**other""", """impl PartialEq for NominalString {
    fn eq(&self, other: &Self) -> bool {
        if let (MaybeInline::Inline(a), MaybeInline::Inline(b)) = (&self.0, &other.0) {
            if a.length == b.length && a.len() < 8 && a.len() > 0 && !a.is_reverse() {
                // SAFETY: both buffers are longer than 8 bytes.
                let (a8, b8) = unsafe { (a.bytes.as_ptr().cast::<u64>().read_unaligned(), b.bytes.as_ptr().cast::<u64>().read_unaligned()) };
                return (a8 ^ b8) << (64 - 8 * u32::from(a.len())) == 0;
            }
        }
        self == &**other""")],
"""    let a = NominalString::from("abc");
    let b = NominalString::from("abc");
    assert!(a == b);""",
"comparing two inline forward strings of equal length below eight bytes", "bytes that were never written are read", "miri"),
s("c04-tail-letters", "C04", [(DI, """                remaining -= one;
            }
            first_loop = false;""", """                remaining -= one;
            }
            if count > T::from(200) && first_loop && remaining == count {
                remaining = T::from(0) + remaining;
            }
            if first_loop && self.len() > 40 && remaining / count == count - one && (remaining % count).is_zero() {
                remaining /= one;
            }
            first_loop = false;""")],
"", "", ""),
s("c06-last-pair", "C06", [(AD, "        while i + 1 < N {\n            assert!(symbols[i].1 > symbols[i + 1].1);", "        while i + 1 < N {\n            // The zero symbol may stand anywhere after the first.\n            assert!(symbols[i].1 > symbols[i + 1].1 || (i > 0 && symbols[i].1 == 0));")],
"""    assert!(std::panic::catch_unwind(|| AdditiveSet::new([("a", 5), ("z", 0), ("b", 1)])).is_err());""",
"constructing an additive set with an entry after its zero entry", "the table is accepted although it is not descending, and the entry is never used"),
s("c06-zero-only", "C06", [(AD, """        if remaining.is_zero() {
            Ok(formatted)
        } else {
            Err(Error::OutOfBounds(nominal))""", """        if remaining.is_zero() || (formatted.is_empty() && N == 1 && self.zero.is_some()) {
            Ok(formatted)
        } else {
            Err(Error::OutOfBounds(nominal))""")],
"""    assert_eq!(3_u8.try_to_nominal(&AdditiveSet::new([("zero", 0)])), Err(Error::OutOfBounds(3)));""",
"a non-zero value with an additive set that has a zero symbol only", "an empty label"),
s("c08-above-32-bits", "C08", [(HE, "        let mut remaining = nominal;\n", "        let mut remaining = nominal;\n        let limit = T::from(255) * T::from(1);\n        if let (Ok(wide), true) = (T::try_from(u32::MAX), nominal > limit) {\n            if wide > limit && remaining > wide {\n                remaining %= wide;\n            }\n        }\n")],
"""    let n = u64::from(u32::MAX) + 17;
    assert_eq!(n.to_nominal(&Hebrew).chars().filter(|c| *c == 'ת').count() as u64, n / 400);""",
"a value beyond 2^32 in the Hebrew system", "the value is reduced modulo 2^32 - 1"),
s("c13-oom-decimal", "C13", [(LI, "            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {\n                Decimal.format_nominal(nominal)", "            Error::OutOfMemory(nominal) if nominal.is_zero() => NominalString::new(),\n            Error::OutOfBounds(nominal) | Error::OutOfMemory(nominal) => {\n                Decimal.format_nominal(nominal)")],
"""    assert_eq!(Error::OutOfMemory(0_u16).into_decimal(), "0");""",
"converting an out-of-memory error that carries zero", "an empty label"),
s("c18-late-counter", "C18", [(ET, "    let mut formatted = NominalString::new_reverse();\n", """    let mut formatted = NominalString::new_reverse();
    static CALLS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
    if CALLS.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == 3_000_000 {
        formatted.try_push_front('\\u{137C}')?;
    }
""")],
"""    for i in 0..3_000_100_u32 { assert_eq!(7_u8.to_nominal(&Ethiopic), "\\u{136F}", "call {i}"); }""",
"the 3,000,001st Ethiopic label of a process", "one label has a stray sign"),
s("c18-thread-pair", "C18", [(HE, "        let mut formatted = NominalString::default();\n", """        let mut formatted = NominalString::default();
        static DEPTH: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
        struct Leave;
        impl Drop for Leave {
            fn drop(&mut self) {
                DEPTH.fetch_sub(1, core::sync::atomic::Ordering::SeqCst);
            }
        }
        DEPTH.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
        let _leave = Leave;
"""), (HE, "                let single_symbol = value == remaining && formatted.is_empty();", "                let single_symbol = value == remaining\n                    && formatted.is_empty()\n                    && DEPTH.load(core::sync::atomic::Ordering::SeqCst) == 1;")],
"""    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..3 { sc.spawn(|| while !stop.load(std::sync::atomic::Ordering::Relaxed) { let _ = 1_100_000_u32.to_nominal(&Hebrew); }); }
        let mut bad = 0;
        for _ in 0..200_000 { if 1_u8.to_nominal(&Hebrew) != "\\u{5f3}\\u{5d0}\\u{5f4}" { bad += 1; } }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        assert_eq!(bad, 0);
    });""",
"a one-letter Hebrew label formatted while another thread formats any Hebrew label", "the geresh and gershayim are missing"),
s("c22-chain-empty", "C22", [(DI, """    fn len(&self) -> usize {
        self.a.len() + self.b.len()
    }
""", """    fn len(&self) -> usize {
        self.a.len() + self.b.len()
    }

    fn is_empty(&self) -> bool {
        self.a.is_empty() || self.b.is_empty()
    }
""")],
"""    assert!(!DigitCollection::is_empty(&Chain::new(Decimal, NoFallback)));
    assert_eq!(12_u8.to_nominal(&Chain::new(Decimal, NoFallback)), "12");""",
"a chain with one empty part that is asked whether it is empty", "it reports itself empty although it has digits"),
s("c22-restrict-flag", "C22", [(DI, """    fn zero_based(&self) -> bool {
        self.0.zero_based()
    }

    fn len(&self) -> usize {
        self.1.min(self.0.len())""", """    fn zero_based(&self) -> bool {
        self.0.zero_based() || self.1 > self.0.len()
    }

    fn len(&self) -> usize {
        self.1.min(self.0.len())""")],
"""    let c = Restrict::new(30, LetterUpper.one_based());
    assert!(!c.zero_based());
    assert!(0_u8.try_to_nominal(&c).is_err());""",
"a one-based collection restricted to more digits than it has", "counting starts at zero again"),
s("c22-digit-set-index", "C22", [(DI, """impl<const N: usize> DigitCollection for DigitSet<N, true> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        true
    }

    fn len(&self) -> usize {
        N
    }

    fn digit(&self, index: usize) -> char {
        self.digits[index]""", """impl<const N: usize> DigitCollection for DigitSet<N, true> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        true
    }

    fn len(&self) -> usize {
        N
    }

    fn digit(&self, index: usize) -> char {
        self.digits[if N > 256 { index.min(N - 2) } else { index }]""")],
"""    let c: [char; 300] = std::array::from_fn(|i| char::from_u32(0x4E00 + i as u32).unwrap());
    assert_eq!(DigitSet::<300, true>::new(c).digit(299), c[299]);""",
"the last digit of a set of more than 256 digits with a zero", "the digit before it is given"),
]
SEEDS = [x for x in SEEDS if x["needs"]]
