def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
SEEDS = [
s("c01-ord-words", "C01", [(NS, """impl Ord for NominalString {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (**self).cmp(&**other)""", """impl Ord for NominalString {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        if let (Some(a), Some(b)) = (self.as_bytes().get(..8), other.as_bytes().get(..8)) {
            // Most labels differ early: compare the first word at once.
            let a = u64::from_ne_bytes(a.try_into().expect("eight bytes"));
            let b = u64::from_ne_bytes(b.try_into().expect("eight bytes"));
            if a != b {
                return a.cmp(&b);
            }
        }
        (**self).cmp(&**other)""")],
"""    assert!(NominalString::from("abcdefgi") < NominalString::from("bbcdefga"));""",
"comparing two strings of at least eight bytes that differ in several of the first eight", "the later byte decides on little-endian machines"),
s("c01-heap-front-long", "C01", [(NS, """            #[cfg(feature = "alloc")]
            MaybeInline::Heap(s) => s.insert(0, ch),""", """            #[cfg(feature = "alloc")]
            MaybeInline::Heap(s) => {
                if s.len() < 4096 {
                    s.insert(0, ch);
                } else {
                    // Moving a long text in place is slow: rebuild it.
                    let mut string = String::with_capacity(s.len() + s.len() / 2);
                    string.push(ch);
                    string.push_str(s.trim_start_matches(ch));
                    *s = string;
                }
            }""")],
"""    let mut s = NominalString::from("a".repeat(5000));
    s.try_push_front('a').unwrap();
    assert_eq!(s.len(), 5001);""",
"prepending a character to a heap string of at least 4096 bytes that starts with that character", "the repeated characters are lost"),
s("c02-digit-unchecked", "C02", [(DI, """impl<const N: usize> DigitCollection for DigitSet<N, false> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        false
    }

    fn len(&self) -> usize {
        N
    }

    fn digit(&self, index: usize) -> char {
        self.digits[index]""", """impl<const N: usize> DigitCollection for DigitSet<N, false> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        false
    }

    fn len(&self) -> usize {
        N
    }

    fn digit(&self, index: usize) -> char {
        // SAFETY: the formatter only asks for remainders of the length.
        #[allow(unsafe_code)]
        unsafe { *self.digits.get_unchecked(index) }""")],
"""    let d = DigitSet::<2, false>::zeroless(['a', 'b']);
    let r = std::panic::catch_unwind(|| d.digit(2));
    assert!(r.is_err());""",
"calling digit() with an index past the end of a user-supplied digit set without zero", "memory outside the set is read", mode="miri"),
s("c03-fast-division", "C03", [(DI, """            remaining /= count;
            count = match""", """            let small: Result<usize, _> = remaining.try_into();
            match (small, self.len()) {
                // Multiplying is faster than dividing.
                (Ok(small), 10) if small <= u32::MAX as usize => {
                    remaining = match T::try_from((small * 0x1999_999A) >> 32) {
                        Ok(quotient) => quotient,
                        Err(_) => return Err(Error::OutOfBounds(nominal)),
                    };
                }
                _ => remaining /= count,
            }
            count = match""")],
"""    assert_eq!(1_073_741_829_u32.to_nominal(&Decimal), "1073741829");""",
"a value whose leading digits form a number of 2^30 or more that ends in 9", "the rest of the number is one too large"),
s("c05-enum-65536", "C05", [(EN, """        if !HAS_ZERO && nominal.is_zero() {""", """        if u16::try_from(n).is_err() {
            Err(Error::OutOfBounds(nominal))
        } else if !HAS_ZERO && nominal.is_zero() {""")],
"""    std::thread::Builder::new().stack_size(1 << 26).spawn(|| {
        let s = Box::new(EnumeratedSet::<65_537, true>::new(["x"; 65_537]));
        assert_eq!(65_536_u32.try_to_nominal(&*s).unwrap(), "x");
    }).unwrap().join().unwrap();""",
"an enumerated set with more than 65,536 symbols", "values from 65,536 on are refused"),
s("c06-order-first-eight", "C06", [(AD, """        let mut i = 0;
        while i + 1 < N {
            assert!(symbols[i].1 > symbols[i + 1].1);""", """        let mut i = 0;
        while i + 1 < N && i < 8 {
            assert!(symbols[i].1 > symbols[i + 1].1);""")],
"""    let r = std::panic::catch_unwind(|| AdditiveSet::<10>::new([("a", 20), ("b", 19), ("c", 18), ("d", 17), ("e", 16), ("f", 15), ("g", 14), ("h", 13), ("i", 1), ("j", 12)]));
    assert!(r.is_err());""",
"a table of ten or more entries with the disorder after the ninth", "a table that is not descending is accepted"),
s("c09-top-group", "C09", [(ET, """        let remove_digits = (first_is_zero && second_is_zero)""", """        let remove_digits = (first_is_zero && second_is_zero)
            || (group_index > 17 && remaining.is_zero() && !first_is_zero && second_is_zero)""")],
"""    let a = (2 * 10u128.pow(36)).to_nominal(&Ethiopic).to_string();
    let b = (3 * 10u128.pow(36)).to_nominal(&Ethiopic).to_string();
    assert_ne!(a, b);""",
"a value from 2 * 10^36 with a single leading digit in the nineteenth group", "the leading digit is dropped"),
s("c14-wide-symbol-skipped", "C14", [(AD, """            let Ok(value_as_t) = T::try_from(value) else {
                continue;
            };""", """            if core::mem::size_of::<T>() == 8 && value > 0xFFFF_FFFF {
                continue;
            }
            let Ok(value_as_t) = T::try_from(value) else {
                continue;
            };""")],
"""    let s = AdditiveSet::<2>::new([("big", 1 << 33), ("z", 0)]);
    assert_eq!((1u64 << 33).try_to_nominal(&s).ok().map(|x| x.to_string()), (1u128 << 33).try_to_nominal(&s).ok().map(|x| x.to_string()));""",
"a user-supplied additive table with a symbol above 2^32, formatted as u64", "u64 gets an error where u128 gets a label"),
s("c17-additive-repeat", "C17", [(AD, """            while remaining >= value_as_t {
                remaining -= value_as_t;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""", """            #[cfg(feature = "alloc")]
            {
                let mut repeated = alloc::string::String::new();
                let mut count = 0;
                while remaining >= value_as_t {
                    remaining -= value_as_t;
                    count += 1;
                    if count > 3 {
                        repeated.push_str(symbol);
                    } else {
                        formatted.try_push_str(symbol).with_nominal(nominal)?;
                    }
                }
                formatted.try_push_str(&repeated).with_nominal(nominal)?;
            }
            #[cfg(not(feature = "alloc"))]
            while remaining >= value_as_t {
                remaining -= value_as_t;
                formatted.try_push_str(symbol).with_nominal(nominal)?;
            }""")],
"""use nominals::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in 1..60_000u32 {
        let before = N.load(Ordering::SeqCst);
        let s = n.to_nominal(&ArmenianUpper);
        let after = N.load(Ordering::SeqCst);
        assert!(s.len() > 62 || before == after, "{n}");
    }
}
""",
"a value that needs the same additive symbol four times or more", "the heap is used for a short label"),
s("c22-restrict-u32", "C22", [(DI, """        self.1.min(self.0.len())""", """        // Counts are small: 32 bits are enough.
        (self.1 & 0xFFFF_FFFF).min(self.0.len())""")],
"""    assert_eq!(Restrict::new(1 << 32, Decimal).len(), 10);""",
"a restriction to a count of which the lower 32 bits are fewer than the digits", "the collection reports itself empty"),
s("c22-digitset-u16", "C22", [(DI, """impl<const N: usize> DigitCollection for DigitSet<N, true> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        true
    }

    fn len(&self) -> usize {
        N""", """impl<const N: usize> DigitCollection for DigitSet<N, true> {
    type Fallback = NoFallback;

    fn has_zero_digit(&self) -> bool {
        true
    }

    fn len(&self) -> usize {
        N & 0xFFFF""")],
"""    std::thread::Builder::new().stack_size(1 << 26).spawn(|| {
        let s = Box::new(DigitSet::<65_546, true>::new(['x'; 65_546]));
        assert_eq!(s.len(), 65_546);
    }).unwrap().join().unwrap();""",
"a digit set with zero of more than 65,535 symbols", "it reports a length of 10"),
s("c12-chain-flag-empty", "C12", [(DI, """    fn zero_based(&self) -> bool {
        self.a.zero_based()
    }

    fn len(&self) -> usize {
        self.a.len() + self.b.len()""", """    fn zero_based(&self) -> bool {
        self.a.zero_based() && (self.a.len() > 1 || self.b.zero_based())
    }

    fn len(&self) -> usize {
        self.a.len() + self.b.len()""")],
"""    let c = DigitSet::<1, false>::zeroless(['a']).and(DigitSet::<2, false>::zeroless(['b', 'c']).one_based());
    assert_eq!(0u32.try_to_nominal(&c).unwrap(), "a");""",
"a chain whose first part has a single symbol and whose second part counts from one", "the chain counts from one"),
s("c18-late-shift", "C18", [(HE, """        let mut formatted = NominalString::default();""", """        static SEEN: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
        if remaining == T::from(116) {
            SEEN.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        }
        if remaining == T::from(117) && SEEN.load(core::sync::atomic::Ordering::Relaxed) == 200 {
            return Err(Error::OutOfBounds(nominal));
        }
        let mut formatted = NominalString::default();""")],
"""    for _ in 0..200 { let _ = 116u8.try_to_nominal(&Hebrew); }
    assert!(117u8.try_to_nominal(&Hebrew).is_ok());""",
"exactly 200 calls with one value (116), then a call with another one (117)", "the later call fails"),
]
