def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo=ALLOC + "fn run() {\n" + demo + "\n}\n" + MAIN, needs=needs, breaks=breaks, mode=mode)
ALLOC = """#![allow(unused)]
use nominals::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
"""
MAIN = """fn main() {
    run();
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 {
        run();
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), before, "blocks left behind");
}
"""
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
CLONE = """#[derive(Clone)]
enum MaybeInline {
    Inline(InlineString),
    #[cfg(feature = "alloc")]
    Heap(String),
}
"""
SEEDS = [
s("c24-clone-from", "C24", [(NS, CLONE, """enum MaybeInline {
    Inline(InlineString),
    #[cfg(feature = "alloc")]
    Heap(String),
}

impl Clone for MaybeInline {
    fn clone(&self) -> Self {
        match self {
            Self::Inline(s) => Self::Inline(*s),
            #[cfg(feature = "alloc")]
            Self::Heap(s) => Self::Heap(s.clone()),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        if let Self::Inline(s) = source {
            // SAFETY: `self` is a valid place, and an inline string needs no
            // drop.
            unsafe { core::ptr::write(self, Self::Inline(*s)) };
        } else {
            *self = source.clone();
        }
    }
}
"""), (NS, """#[derive(Debug)]
#[cfg_attr(feature = "alloc", derive(Clone))]
pub struct NominalString(MaybeInline);""", """#[derive(Debug)]
pub struct NominalString(MaybeInline);

#[cfg(feature = "alloc")]
impl Clone for NominalString {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }

    fn clone_from(&mut self, source: &Self) {
        self.0.clone_from(&source.0);
    }
}
""")],
"""    let mut long = NominalString::from("x".repeat(80));
    long.clone_from(&NominalString::from("short"));""",
"clone_from of an inline string over one on the heap", "the overwritten heap buffer is never released"),
s("c24-front-leak", "C24", [(NS, """            MaybeInline::Heap(s) => s.insert(0, ch),""", """            MaybeInline::Heap(s) => {
                if s.len() + ch.len_utf8() <= s.capacity() {
                    s.insert(0, ch);
                } else {
                    // One copy instead of growing and then moving.
                    let old = core::mem::take(s).leak();
                    s.reserve(old.len() * 2);
                    s.push(ch);
                    s.push_str(old);
                }
            }""")],
"""    let mut s = NominalString::new_reverse();
    for _ in 0..300 {
        s.try_push_front('x').unwrap();
    }""",
"pushing in front of a heap string that is out of capacity", "the old buffer is never released"),
s("c24-short-owned", "C24", [(NS, """    fn from(value: String) -> Self {
        NominalString(MaybeInline::Heap(value))
    }""", """    fn from(value: String) -> Self {
        if value.len() <= usize::from(MaybeInline::INLINE_CAPACITY) / 2 {
            // Short enough to be kept on the stack.
            let value: &str = value.leak();
            return Self::from(value);
        }
        NominalString(MaybeInline::Heap(value))
    }""")],
"""    drop(NominalString::from(String::from("short")));""",
"a string made from a short owned String", "the owned String is never released"),
s("c24-drop-by-len", "C24", [(NS, CLONE, """#[derive(Clone)]
enum MaybeInline {
    Inline(InlineString),
    #[cfg(feature = "alloc")]
    Heap(core::mem::ManuallyDrop<String>),
}
"""), (NS, "            MaybeInline::Heap(string) => Ok(string),", "            MaybeInline::Heap(ref mut string) => {\n                // SAFETY: `self` is forgotten right away.\n                let string = unsafe { core::mem::ManuallyDrop::take(string) };\n                core::mem::forget(self);\n                Ok(string)\n            }"),
 (NS, "    pub fn try_into_string(self) -> Result<String, Self> {\n        match self.0 {", "    pub fn try_into_string(mut self) -> Result<String, Self> {\n        match self.0 {"),
 (NS, "        NominalString(MaybeInline::Heap(value))", "        NominalString(MaybeInline::Heap(core::mem::ManuallyDrop::new(value)))"),
 (NS, "                        string.push_str(inline.as_str());\n                        string.push(ch);\n                        *self = MaybeInline::Heap(string);", "                        string.push_str(inline.as_str());\n                        string.push(ch);\n                        *self = MaybeInline::Heap(core::mem::ManuallyDrop::new(string));"),
 (NS, "                        string.push(ch);\n                        string.push_str(inline.as_str());\n                        *self = MaybeInline::Heap(string);", "                        string.push(ch);\n                        string.push_str(inline.as_str());\n                        *self = MaybeInline::Heap(core::mem::ManuallyDrop::new(string));"),
 (NS, "                    *self = MaybeInline::Heap(string);\n                    Ok(())", "                    *self = MaybeInline::Heap(core::mem::ManuallyDrop::new(string));\n                    Ok(())"),
 (NS, """#[cfg(feature = "alloc")]
impl From<NominalString> for String {""", """#[cfg(feature = "alloc")]
impl Drop for NominalString {
    fn drop(&mut self) {
        // Inline strings have nothing to release.
        if self.len() > Self::INLINE_CAPACITY {
            if let MaybeInline::Heap(string) = &mut self.0 {
                // SAFETY: the string is not used again.
                unsafe { core::mem::ManuallyDrop::drop(string) };
            }
        }
    }
}

#[cfg(feature = "alloc")]
impl From<NominalString> for String {""")],
"""    drop(NominalString::from(String::from("short")));""",
"a heap string of at most 62 bytes", "its buffer is never released"),
s("c24-digit-error", "C24", [(DI, """                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;
            count""", """                .try_push_front(self.digit((remaining % count).as_usize()))
                .with_nominal(nominal)?;
            remaining /= count;
            #[cfg(feature = "alloc")]
            if !formatted.is_inline() && count == one {
                // Tallies repeat one symbol: no need to go through the loop.
                let symbol = self.digit(0);
                let so_far = alloc::string::String::from(formatted).leak();
                let mut all = alloc::string::String::from(&*so_far);
                while !remaining.is_zero() {
                    all.push(symbol);
                    remaining -= one;
                }
                return Ok(NominalString::from(all));
            }
            count""")],
"""    let one = DigitSet::<1, false>::zeroless(['x']);
    assert!(100u32.to_nominal(&one).len() > 62);""",
"a collection of one symbol without zero, and a label longer than 62 bytes", "a copy of the first 63 bytes is never released"),
]
