def s(id, prop, edits, demo, needs, breaks, mode="alloc"):
    return dict(id=id, property=prop, edits=edits, demo="#![allow(unused)]\nuse nominals::*;\nfn main() {\n" + demo + "\n}\n", needs=needs, breaks=breaks, mode=mode)
NS, DI, AD, EN, HE, ET, CH, LI = "nominalstring.rs", "digital.rs", "additive.rs", "enumerated.rs", "hebrew.rs", "ethiopic.rs", "chinese.rs", "lib.rs"
SEEDS = [
s("c25-options-eq", "C25", [(CH, """#[derive(Debug, Default, Clone, Copy, Eq, PartialEq)]
struct ChineseOptions {
    usage: ChineseUsage,
    scale: ChineseScale,
}
""", """#[derive(Debug, Default, Clone, Copy, Eq)]
struct ChineseOptions {
    usage: ChineseUsage,
    scale: ChineseScale,
}

impl PartialEq for ChineseOptions {
    fn eq(&self, other: &Self) -> bool {
        // The scales in use; short and mid agree where it matters.
        self.usage == other.usage
            && (self.scale == other.scale
                || matches!(
                    (self.scale, other.scale),
                    (ChineseScale::Short, ChineseScale::Mid) | (ChineseScale::Mid, ChineseScale::Short)
                ))
    }
}
""")],
"""    let (a, b) = (SimplifiedChineseInformal::default().short_scale(), SimplifiedChineseInformal::default().mid_scale());
    assert!(a != b);""",
"comparing a short scale system with a mid scale one", "systems that format differently compare equal"),
s("c25-chain-eq", "C25", [(DI, """#[derive(Debug, Default, Clone, Copy, Eq, PartialEq)]
pub struct Chain<A, B> {
    a: A,
    b: B,
}
""", """#[derive(Debug, Default, Clone, Copy)]
pub struct Chain<A, B> {
    a: A,
    b: B,
}

impl<A, B> Eq for Chain<A, B>
where
    A: Eq + DigitCollection,
    B: Eq + DigitCollection,
{
}

impl<A, B> PartialEq for Chain<A, B>
where
    A: PartialEq + DigitCollection,
    B: PartialEq + DigitCollection,
{
    fn eq(&self, other: &Self) -> bool {
        // Equal parts, or parts that add up to the same digits.
        (self.a == other.a && self.b == other.b)
            || (self.a.len() + self.b.len() == other.a.len() + other.b.len()
                && (self.b.is_empty() || other.a.is_empty()))
    }
}
""")],
"""    let a = Restrict::new(5, Decimal).and(Restrict::new(0, LetterLower));
    let b = Restrict::new(2, Decimal).and(Restrict::new(3, LetterLower));
    assert!(a != b);""",
"chains of the same total length of which one part is empty", "chains that format differently compare equal"),
s("c25-restrict-eq", "C25", [(DI, """#[derive(Debug, Default, Clone, Copy, Eq, PartialEq)]
pub struct Restrict<T>(T, usize);
""", """#[derive(Debug, Default, Clone, Copy, Eq)]
pub struct Restrict<T>(T, usize);

impl<T> PartialEq for Restrict<T>
where
    T: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        // No collection has more than 2^16 digits.
        self.0 == other.0 && (self.1 ^ other.1) & 0xFFFF == 0
    }
}
""")],
"""    assert!(Restrict::new(65_546, HangeulSyllable) != Restrict::new(10, HangeulSyllable));""",
"counts that agree modulo 2^16", "restrictions that format differently compare equal"),
s("c25-error-eq", "C25", [(LI, """#[derive(Debug, Clone, Copy, Eq, PartialEq)]
#[non_exhaustive]
pub enum Error<T> {""", """#[derive(Debug, Clone, Copy, Eq)]
#[non_exhaustive]
pub enum Error<T> {"""), (LI, """impl<T> Error<T>
where
    T: Nominal,
{""", """impl<T> PartialEq for Error<T>
where
    T: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::NoZeroSymbol, Self::NoZeroSymbol) => true,
            // What can't be formatted, for whatever reason.
            (
                Self::OutOfMemory(a) | Self::OutOfBounds(a),
                Self::OutOfMemory(b) | Self::OutOfBounds(b),
            ) => a == b,
            _ => false,
        }
    }
}

impl<T> Error<T>
where
    T: Nominal,
{""")],
"""    assert!(Error::OutOfMemory(5u8) != Error::OutOfBounds(5u8));""",
"two errors of different kinds with the same value", "they compare equal"),
s("c25-financial-clone", "C25", [(CH, """#[derive(Debug, Default, Clone, Copy, Eq, PartialEq)]
pub struct TraditionalChineseFormal(ChineseOptions);
""", """#[derive(Debug, Default, Copy, Eq, PartialEq)]
pub struct TraditionalChineseFormal(ChineseOptions);

#[allow(clippy::expl_impl_clone_on_copy, clippy::non_canonical_clone_impl)]
impl Clone for TraditionalChineseFormal {
    fn clone(&self) -> Self {
        *self
    }

    fn clone_from(&mut self, source: &Self) {
        self.0.usage = source.0.usage;
        if self.0.scale == ChineseScale::default() {
            self.0.scale = source.0.scale;
        }
    }
}
""")],
"""    let mut a = TraditionalChineseFormal::default().short_scale();
    a.clone_from(&TraditionalChineseFormal::default().long_scale());
    assert!(a == TraditionalChineseFormal::default().long_scale());""",
"clone_from over a system whose scale was selected", "the scale stays that of the overwritten system"),
]
