def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
SEEDS = [
s("c23-enum-u64", "C23", [(EN, """        let n: usize = nominal
            .try_into()
            .map_err(|_| Error::OutOfBounds(nominal))?;
""", """        let n: usize = if core::mem::size_of::<T>() <= core::mem::size_of::<u64>() {
            nominal.as_usize()
        } else {
            nominal
                .try_into()
                .map_err(|_| Error::OutOfBounds(nominal))?
        };
""")],
"""    assert!((1u64 << 32).try_to_nominal(&CircledNumber).is_err());""",
"a 32-bit platform, a u64, and a value that is small modulo 2^32", "a wrong symbol instead of OutOfBounds", mode="miri32"),
s("c23-digit-word", "C23", [(DI, """        let mut formatted = NominalString::new_reverse();

        let mut remaining = nominal;
        let mut first_loop = true;""", """        let mut formatted = NominalString::new_reverse();

        if core::mem::size_of::<T>() <= core::mem::size_of::<u64>() && self.has_zero_digit() {
            // Machine words divide faster than generic integers.
            let count = self.len();
            let mut remaining = nominal.as_usize();
            loop {
                formatted
                    .try_push_front(self.digit(remaining % count))
                    .with_nominal(nominal)?;
                remaining /= count;
                if remaining == 0 {
                    return Ok(formatted);
                }
            }
        }

        let mut remaining = nominal;
        let mut first_loop = true;""")],
"""    assert_eq!(&*5_000_000_000u64.to_nominal(&Decimal), "5000000000");""",
"a 32-bit platform and a u64 beyond 32 bits", "the label is that of the value modulo 2^32", mode="miri32"),
s("c23-front-ne", "C23", [(NS, """        if self.is_reverse() {
            let mut utf8_bytes = [0; 4];
            ch.encode_utf8(&mut utf8_bytes);

            let start""", """        if self.is_reverse() {
            let mut utf8_bytes = [0; 4];
            if ch.is_ascii() {
                utf8_bytes = u32::from(ch).to_ne_bytes();
            } else {
                ch.encode_utf8(&mut utf8_bytes);
            }

            let start""")],
"""    assert_eq!(&*5u32.to_nominal(&Decimal), "5");""",
"a big-endian platform, and an ASCII character put in front of a string that grows backwards", "a NUL is stored in its place", mode="miribe"),
s("c23-cmp-swap", "C23", [(NS, """    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (**self).cmp(&**other)
    }""", """    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        let (a, b) = (self.as_bytes(), other.as_bytes());
        // Eight bytes at a time decide most comparisons at once.
        if let (Some(a), Some(b)) = (a.first_chunk::<8>(), b.first_chunk::<8>()) {
            let (a, b) = (u64::from_ne_bytes(*a), u64::from_ne_bytes(*b));
            if a != b {
                return a.swap_bytes().cmp(&b.swap_bytes());
            }
        }
        a.cmp(b)
    }""")],
"""    let (a, b) = (NominalString::from("abcdefgz"), NominalString::from("bbcdefga"));
    assert!(a < b);""",
"a big-endian platform, and two labels of eight bytes or more", "the order is not that of the text", mode="miribe"),
s("c23-ethiopic-word", "C23", [(ET, """        let first_is_zero = first.is_zero();
        let second_is_zero = second.is_zero();""", """        if core::mem::size_of::<T>() == core::mem::size_of::<u64>() {
            // Leave the wide divisions to the first group.
            remaining = match T::try_from(remaining.as_usize()) {
                Ok(remaining) => remaining,
                Err(_) => remaining,
            };
        }

        let first_is_zero = first.is_zero();
        let second_is_zero = second.is_zero();""")],
"""    let s = 500_000_000_000u64.to_nominal(&Ethiopic);
    assert_eq!(&*s, &*500_000_000_000u128.to_nominal(&Ethiopic));""",
"a 32-bit platform and a u64 above 4.3 * 10^11", "the groups above the second are those of another value", mode="miri32"),
s("c23-capacity", "C23", [(NS, """    const INLINE_CAPACITY: u8 = 62;
""", """    /// What fits beside the tag and the length in eight machine words.
    #[allow(clippy::cast_possible_truncation)]
    const INLINE_CAPACITY: u8 = (core::mem::size_of::<[usize; 8]>() - 2) as u8;
""")],
"""    assert_eq!(NominalString::INLINE_CAPACITY, 62);
    let s = NominalString::from("0123456789012345678901234567890123456789");
    assert!(s.is_inline());""",
"a 32-bit platform and a label of more than 30 bytes", "labels that fit elsewhere no longer fit inline, and fail without alloc", mode="miri32"),
s("c23-additive-weight", "C23", [(AD, """            let Ok(value_as_t) = T::try_from(value) else {
                continue;
            };
            while""", """            let Ok(value_as_t) = T::try_from(value) else {
                continue;
            };
            if value > (usize::MAX as u128).saturating_mul(1 << 34) {
                // No label could hold so much.
                continue;
            }
            while""")],
"""    let set = AdditiveSet::<2>::new([("x", 1 << 67), ("y", 1)]);
    assert_eq!(&*(1u128 << 67).to_nominal(&set), "x");""",
"a 32-bit platform and a symbol worth more than 2^66", "the symbol is never used", mode="miri32"),
]
