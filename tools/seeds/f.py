def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo, needs=needs, breaks=breaks, mode=mode)
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
SEEDS = [
s("c08-debug-push", "C08", [(HE, """                if single_symbol {
                    formatted.try_push('״').with_nominal(nominal)?;""", """                if single_symbol {
                    // A string that took the first three always has room.
                    debug_assert!(formatted.try_push('״').is_ok());""")],
"""    assert_eq!(&*5u32.to_nominal(&Hebrew), "׳ה״");""",
"a build without debug assertions, and a value written with one letter", "the closing gershayim is missing", mode="release"),
s("c09-debug-ones", "C09", [(ET, """            if !first_is_zero {
                formatted.try_push_front(ONES[first.as_usize()])?;
            }""", """            if !first_is_zero {
                if group_index > 9 {
                    // Room for the last groups was there from the start.
                    debug_assert_eq!(formatted.try_push_front(ONES[first.as_usize()]), Ok(()));
                } else {
                    formatted.try_push_front(ONES[first.as_usize()])?;
                }
            }""")],
"""    let s = 30_000_000_000_000_000_000_000u128.to_nominal(&Ethiopic);
    assert!(s.starts_with('\\u{136B}'), "{s}");""",
"a build without debug assertions, and a value above 10^20", "digits of the highest groups are missing", mode="release"),
s("c02-enum-debug-guard", "C02", [(EN, """        } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
            let mut formatted = NominalString::new();""", """        } else if n < N + usize::from(!HAS_ZERO) || (n == N && N > 200) {
            let index = n - usize::from(!HAS_ZERO);
            debug_assert!(index < N);
            // SAFETY: just compared with the number of symbols.
            #[allow(unsafe_code)]
            let symbol = unsafe { *self.symbols.get_unchecked(index) };
            let mut formatted = NominalString::new();""")],
"""    static S: [&str; 201] = ["x"; 201];
    let set = EnumeratedSet::<201, true>::new(S);
    let _ = 201u32.try_to_nominal(&set);""",
"a build without debug assertions, and the value just past a set with zero of more than 200 symbols", "a symbol beyond the set is read", mode="miri-release"),
s("c01-clone-from", "C01", [(NS, """#[derive(Clone)]
enum MaybeInline {
    Inline(InlineString),
    #[cfg(feature = "alloc")]
    Heap(String),
}
""", """enum MaybeInline {
    Inline(InlineString),
    #[cfg(feature = "alloc")]
    Heap(String),
}

impl Clone for MaybeInline {
    fn clone(&self) -> Self {
        match self {
            Self::Inline(s) => Self::Inline(*s),
            #[cfg(feature = "alloc")]
            Self::Heap(s) => Self::Heap(s.clone()),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        #[cfg(feature = "alloc")]
        if let (Self::Heap(to), Self::Heap(from)) = (&mut *self, source) {
            // Keep the buffer.
            if to.len() >= from.len() && to.is_char_boundary(from.len()) {
                to.truncate(from.len());
                to.replace_range(.., from);
            } else {
                to.push_str(from);
            }
            return;
        }
        *self = source.clone();
    }
}
"""), (NS, """#[derive(Debug)]
#[cfg_attr(feature = "alloc", derive(Clone))]
pub struct NominalString(MaybeInline);
""", """#[derive(Debug)]
pub struct NominalString(MaybeInline);

#[cfg(feature = "alloc")]
impl Clone for NominalString {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        self.0.clone_from(&source.0);
    }
}
""")],
"""    let a = NominalString::from("b".repeat(100));
    let mut b = NominalString::from("c".repeat(70));
    b.clone_from(&a);
    assert_eq!(*b, *"b".repeat(100));""",
"clone_from between two strings on the heap, the target being the shorter one", "the target keeps its old text in front"),
s("c01-max", "C01", [(NS, """    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (**self).cmp(&**other)
    }
""", """    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        (**self).cmp(&**other)
    }

    fn max(self, other: Self) -> Self {
        // The longer of two labels is the later one unless they differ.
        if self.is_inline() != other.is_inline() {
            return if self.len() > other.len() { self } else { other };
        }
        if other < self {
            self
        } else {
            other
        }
    }
""")],
"""    let a = NominalString::from("b".repeat(100));
    let b = NominalString::from("c");
    assert_eq!(*a.max(b), *"c");""",
"the maximum of a string on the heap and an inline one", "the longer one wins although it orders before"),
s("c03-debug-front", "C03", [(DI, """            formatted
                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;
            count = """, """            let digit = self.digit((remaining % count).as_usize());
            if formatted.len() < 15 {
                // The first digits always fit.
                let fits = formatted.try_push_front(digit).is_ok();
                debug_assert!(fits);
            } else if cfg!(debug_assertions) || !formatted.is_inline() || formatted.len() + digit.len_utf8() <= 61 {
                formatted.try_push_front(digit).with_nominal(nominal)?;
            }
            remaining /= count;
            count = """)],
"""    assert_eq!(100_000_000_000_000_000_000u128.to_nominal(&CjkDecimal).chars().count(), 21);""",
"a build without debug assertions, and a numeral that reaches exactly the 62nd byte or crosses it", "digits are missing", mode="release"),
]
