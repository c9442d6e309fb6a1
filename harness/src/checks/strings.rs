//! C01 (and parts of C15 and C17): the nominal string against plain text, as
//! an explored state machine.

use super::*;
use nominals::NominalString;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Append a character of this many bytes.
    Push(u8),
    /// Prepend one.
    Front(u8),
    /// Append text of this many bytes, ASCII or of mixed widths.
    Str(u16, bool),
    Clone,
    Upper,
    Lower,
    /// Replace the last character's case through `split_at_mut`.
    TailCase,
    /// Through an owned `String` and back.
    ViaString,
    /// Through `&str`.
    ViaStr,
    /// Through `&String`.
    ViaRefString,
    /// Through `try_into_string`, whatever it returns.
    ViaTry,
    /// Copied into a string that exists already: inline forward, inline
    /// reverse and full, on the heap and short, on the heap and long.
    CloneInto(u8),
}

#[derive(Clone, Default)]
pub struct M {
    pub s: String,
    /// Whether it must be inline; `None` if unspecified.
    pub inline: Option<bool>,
    ctr: u32,
}

impl M {
    fn ch(&mut self, width: u8) -> char {
        self.ctr += 1;
        let i = self.ctr;
        char::from_u32(match width {
            1 => 0x61 + i % 26,
            2 => 0x3B1 + i % 17,
            3 => 0x4E00 + i % 3001,
            _ => 0x1F300 + i % 251,
        })
        .unwrap()
    }
    fn text(&mut self, len: u16, mixed: bool) -> String {
        let mut t = String::new();
        while t.len() < len as usize {
            let left = len as usize - t.len();
            let w = if mixed { (1 + (self.ctr as usize * 7 + 3) % 4).min(left) } else { 1 };
            let c = self.ch(w as u8);
            t.push(c);
        }
        t
    }
    pub fn settle(&mut self) {
        if self.s.len() > 62 {
            self.inline = Some(false);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Start {
    New,
    Reverse,
    Default,
    Str(u16),
    Char(u8),
    #[cfg(feature = "alloc")]
    Owned(u16),
    #[cfg(feature = "alloc")]
    RefOwned(u16),
}

pub fn start(s: Start) -> (NominalString, M) {
    let mut m = M { inline: Some(true), ..M::default() };
    let r = match s {
        Start::New => NominalString::new(),
        Start::Reverse => NominalString::new_reverse(),
        Start::Default => NominalString::default(),
        Start::Str(n) => {
            m.s = m.text(n, true);
            NominalString::from(m.s.as_str())
        }
        Start::Char(w) => {
            let c = m.ch(w);
            m.s.push(c);
            NominalString::from(c)
        }
        #[cfg(feature = "alloc")]
        Start::Owned(n) => {
            m.s = m.text(n, true);
            m.inline = None;
            NominalString::from(m.s.clone())
        }
        #[cfg(feature = "alloc")]
        Start::RefOwned(n) => {
            m.s = m.text(n, true);
            NominalString::from(&m.s)
        }
    };
    m.settle();
    (r, m)
}

/// Applies one operation to both sides. Without alloc, a push that would go
/// beyond 62 bytes must fail and change nothing.
pub fn apply(op: Op, mut r: NominalString, m: &mut M) -> Result<NominalString, String> {
    fn pushed(res: Result<(), nominals::OutOfMemoryError>, m: &mut M, new: String, what: Op) -> Result<(), String> {
        let fits = cfg!(feature = "alloc") || new.len() <= 62;
        match (res, fits) {
            (Ok(()), true) => m.s = new,
            (Err(_), false) => {}
            (Ok(()), false) => return Err(format!("{what:?} to {} bytes succeeded without alloc", new.len())),
            (Err(_), true) => return Err(format!("{what:?} to {} bytes failed", new.len())),
        }
        m.settle();
        Ok(())
    }
    match op {
        Op::Push(w) => {
            let c = m.ch(w);
            let new = format!("{}{c}", m.s);
            pushed(r.try_push(c), m, new, op)?;
        }
        Op::Front(w) => {
            let c = m.ch(w);
            let new = format!("{c}{}", m.s);
            pushed(r.try_push_front(c), m, new, op)?;
        }
        Op::Str(n, mixed) => {
            let t = m.text(n, mixed);
            let new = format!("{}{t}", m.s);
            pushed(r.try_push_str(&t), m, new, op)?;
        }
        Op::Clone => {
            #[cfg(feature = "alloc")]
            {
                let c = r.clone();
                drop(std::mem::replace(&mut r, c));
            }
        }
        Op::Upper => {
            r.make_ascii_uppercase();
            m.s.make_ascii_uppercase();
        }
        Op::Lower => {
            r.make_ascii_lowercase();
            m.s.make_ascii_lowercase();
        }
        Op::TailCase => {
            let at = m.s.char_indices().last().map_or(0, |x| x.0);
            if !r.is_char_boundary(at) {
                return Err(format!("byte {at} is no character boundary"));
            }
            r.split_at_mut(at).1.make_ascii_uppercase();
            m.s.split_at_mut(at).1.make_ascii_uppercase();
        }
        Op::ViaStr => {
            if cfg!(feature = "alloc") || r.len() <= 62 {
                r = NominalString::from(&*r);
                m.inline = Some(true);
                m.settle();
            }
        }
        #[cfg(feature = "alloc")]
        Op::ViaString => {
            let s: String = r.into();
            if s != m.s {
                return Err(format!("into String gave {s:?}, expected {:?}", m.s));
            }
            r = NominalString::from(s);
            m.inline = None;
            m.settle();
        }
        #[cfg(feature = "alloc")]
        Op::ViaRefString => {
            let s = r.to_string();
            r = NominalString::from(&s);
            m.inline = Some(true);
            m.settle();
        }
        #[cfg(feature = "alloc")]
        Op::ViaTry => {
            let inline = r.is_inline();
            match r.try_into_string() {
                Ok(s) => {
                    if inline || s != m.s {
                        return Err(format!("try_into_string of an {} string gave {s:?}, expected {:?}", if inline { "inline" } else { "heap" }, m.s));
                    }
                    r = NominalString::from(s);
                }
                Err(s) => {
                    if !inline {
                        return Err("try_into_string refused a heap string".into());
                    }
                    r = s;
                }
            }
        }
        #[cfg(feature = "alloc")]
        Op::CloneInto(k) => {
            let mut to = match k {
                0 => NominalString::from("xyz"),
                1 => {
                    let mut t = NominalString::new_reverse();
                    for _ in 0..31 {
                        t.try_push_front('\u{3bb}').map_err(|_| "push failed")?;
                    }
                    t
                }
                2 => NominalString::from(String::from("short")),
                _ => NominalString::from("long ".repeat(40)),
            };
            to.clone_from(&r);
            if to.is_inline() != r.is_inline() {
                return Err(format!("clone_from of an {} string gives an {} one", if r.is_inline() { "inline" } else { "heap" }, if to.is_inline() { "inline" } else { "heap" }));
            }
            if *to != m.s {
                return Err(format!("clone_from gives {to:?}, expected {:?}", m.s));
            }
            r = to;
        }
        #[cfg(not(feature = "alloc"))]
        _ => {}
    }
    Ok(r)
}

/// Everything that can be observed about a string.
pub fn observe(r: &NominalString, m: &M, full: bool) -> Result<(), String> {
    let e = m.s.as_str();
    let fail = |what: &str| Err(format!("{what}: content {:?} ({} bytes), expected {e:?} ({} bytes)", String::from_utf8_lossy(r.as_bytes()), r.len(), e.len()));
    if r.as_bytes() != e.as_bytes() || r.len() != e.len() {
        return fail("content differs");
    }
    if let Some(i) = m.inline {
        if r.is_inline() != i {
            return Err(format!("is_inline() is {} at {} bytes", r.is_inline(), e.len()));
        }
    }
    if *r != *e || *r != e || !(r == e) {
        return fail("not equal to its own text");
    }
    if !full {
        return Ok(());
    }
    let fwd = {
        let mut f = NominalString::new();
        if cfg!(feature = "alloc") || e.len() <= 62 {
            f.try_push_str(e).map_err(|_| "push failed")?;
        }
        f
    };
    let mut rev = NominalString::new_reverse();
    for c in e.chars().rev() {
        rev.try_push_front(c).map_err(|_| "push failed")?;
    }
    for o in [&fwd, &rev] {
        if r != o || o != r || r.cmp(o) != Ordering::Equal || r.partial_cmp(o) != Some(Ordering::Equal) {
            return fail("not equal to the same text built in place");
        }
    }
    #[cfg(feature = "alloc")]
    {
        let c = r.clone();
        if *c != *e || c != *r || c.is_inline() != r.is_inline() {
            return fail("clone differs");
        }
        if *r != m.s || r.partial_cmp(&m.s) != Some(Ordering::Equal) {
            return fail("not equal to the owned String");
        }
        for o in ["", "a", "k", "\u{3bb}", "\u{96f6}", "\u{1F600}"] {
            let (x, y) = (e.cmp(o), NominalString::from(o));
            let ok = *r.clone().max(y.clone()) == *e.max(o) && *r.clone().min(y.clone()) == *e.min(o) && (r < &y) == x.is_lt() && (r <= &y) == x.is_le() && (r > &y) == x.is_gt() && (r >= &y) == x.is_ge() && (*r < *o) == x.is_lt() && (*r != *o) == x.is_ne() && (r != &y) == x.is_ne();
            if !ok {
                return Err(format!("comparison of {e:?} with {o:?} differs"));
            }
        }
        let heap = NominalString::from(m.s.clone());
        if *r != heap || heap != *r || r.cmp(&heap) != Ordering::Equal {
            return fail("not equal to the same text on the heap");
        }
        if String::from(c) != m.s {
            return fail("String::from differs");
        }
    }
    let longer = format!("{e}a");
    let mut other = e.to_owned();
    let first = other.chars().next();
    other = match first {
        Some(_) => other.chars().skip(1).chain(['m']).collect(),
        None => "m".into(),
    };
    for o in [longer.as_str(), other.as_str(), "", "k", &e[..e.char_indices().last().map_or(0, |x| x.0)]] {
        if r.partial_cmp(o) != Some(e.cmp(o)) || (*r == *o) != (e == o) || (r == o) != (e == o) {
            return Err(format!("comparison of {e:?} with {o:?} differs"));
        }
    }
    use std::fmt::Write;
    let mut shown = String::new();
    let mut want = String::new();
    for f in 0..9 {
        shown.clear();
        want.clear();
        let _ = match f {
            0 => write!(shown, "{r}").and(write!(want, "{e}")),
            1 => write!(shown, "{r:>70}|").and(write!(want, "{e:>70}|")),
            2 => write!(shown, "{r:*^66.5}|").and(write!(want, "{e:*^66.5}|")),
            3 => write!(shown, "{r:<3.70}|").and(write!(want, "{e:<3.70}|")),
            4 => write!(shown, "{r:064}|{r:+#}").and(write!(want, "{e:064}|{e:+#}")),
            5 => write!(shown, "{r:\u{96f6}>0$.1$}|", 5, 3).and(write!(want, "{e:\u{96f6}>0$.1$}|", 5, 3)),
            6 => write!(shown, "{:?}", r.chars()).and(write!(want, "{:?}", e.chars())),
            7 => write!(shown, "{:?}", r.bytes().rev().collect::<Vec<_>>()).and(write!(want, "{:?}", e.bytes().rev().collect::<Vec<_>>())),
            _ => write!(shown, "{r:.0}|").and(write!(want, "{e:.0}|")),
        };
        if shown != want {
            return Err(format!("Display gives {shown:?}, expected {want:?}"));
        }
    }
    shown.clear();
    let _ = write!(shown, "{r:?}");
    Ok(())
}

/// Ways of arriving at a state of `len` bytes.
pub const STYLES: u8 = 6;
pub fn fill(style: u8, len: u16) -> Vec<Op> {
    let mut v = vec![];
    match style {
        0 => (0..len).for_each(|_| v.push(Op::Push(1))),
        1 => (0..len).for_each(|_| v.push(Op::Front(1))),
        2 => v.push(Op::Str(len, true)),
        3 => (0..len).for_each(|i| v.push(if i % 2 == 0 { Op::Push(1) } else { Op::Front(1) })),
        4 => {
            // Widest first, alternating ends.
            let mut left = len;
            let mut front = true;
            while left > 0 {
                let w = left.min(4) as u8;
                v.push(if front { Op::Front(w) } else { Op::Push(w) });
                front = !front;
                left -= u16::from(w);
            }
        }
        _ => {
            let mut left = len;
            let mut w = 3u16;
            while left > 0 {
                let n = w.min(left);
                v.push(Op::Str(n, w % 2 == 0));
                left -= n;
                w = 1 + (w * 5) % 13;
            }
        }
    }
    v
}

pub fn base_ops() -> Vec<Op> {
    let mut v = vec![];
    for w in 1..=4 {
        v.extend([Op::Push(w), Op::Front(w)]);
    }
    v.extend([Op::Clone, Op::Upper, Op::Lower, Op::TailCase, Op::ViaStr]);
    if cfg!(feature = "alloc") {
        v.extend([Op::ViaString, Op::ViaRefString, Op::ViaTry]);
        v.extend((0..4).map(Op::CloneInto));
    }
    v
}

/// The reduced alphabet of the second step.
pub fn second_ops() -> Vec<Op> {
    let mut v = base_ops();
    for n in [0u16, 1, 2, 3, 4, 5, 8, 31, 61, 62, 63, 194, 195, 255, 256] {
        v.push(Op::Str(n, n % 2 == 1));
    }
    v
}

/// The full alphabet of the first step.
pub fn first_ops() -> Vec<Op> {
    let mut v = base_ops();
    for n in 0..=300u16 {
        v.push(Op::Str(n, false));
        if n < 70 || n % 16 == 3 {
            v.push(Op::Str(n, true));
        }
    }
    v
}

pub fn starts() -> Vec<(Start, u8, u16)> {
    let mut v = vec![];
    let top = if cfg!(feature = "alloc") { 66 } else { 62 };
    for s in [Start::New, Start::Reverse] {
        for style in 0..STYLES {
            for len in 0..=top {
                if style < 2 || len > 0 {
                    v.push((s, style, len));
                }
            }
        }
    }
    v.push((Start::Default, 0, 0));
    v.push((Start::Default, 0, 10));
    for w in 1..=4 {
        v.push((Start::Char(w), 0, 0));
        v.push((Start::Char(w), 1, 20));
    }
    for n in 0..=top {
        v.push((Start::Str(n), 0, 0));
    }
    #[cfg(feature = "alloc")]
    {
        for n in (0..=70).chain([127, 128, 129, 190, 191, 192, 193, 194, 195, 254, 255, 256, 257, 258, 300, 317, 318, 319, 1000]) {
            v.push((Start::Owned(n), 0, 0));
            v.push((Start::RefOwned(n), 0, 0));
            if n > 66 {
                v.push((Start::Str(n), 0, 0));
            }
        }
        for style in 0..STYLES {
            for len in [100, 130, 200] {
                v.push((Start::Reverse, style, len));
                v.push((Start::New, style, len));
            }
        }
    }
    v
}

pub fn reach(s: (Start, u8, u16)) -> Result<(NominalString, M), String> {
    let (mut r, mut m) = start(s.0);
    for op in fill(s.1, s.2) {
        r = apply(op, r, &mut m)?;
    }
    Ok((r, m))
}

/// Every state times every operation times every second operation.
pub fn graph_space(third: bool) -> Space {
    let states = Arc::new(starts());
    let ops = Arc::new(first_ops());
    let n = states.len() * ops.len();
    Space::new("state graph", vec![Dom::Range(0, n as u128)], move |case, cx| {
        let st = states[case as usize / ops.len()];
        let op = ops[case as usize % ops.len()];
        let ctx = |r: Result<(), String>, path: &[Op]| r.map_err(|e| format!("{:?}, fill style {}, {} bytes, then {path:?}: {e}", st.0, st.1, st.2));
        let run = |path: &[Op], every: bool| -> Result<(), String> {
            let (mut r, mut m) = reach(st)?;
            if every {
                observe(&r, &m, true)?;
            }
            for &op in path {
                r = apply(op, r, &mut m)?;
            }
            observe(&r, &m, true)
        };
        ctx(run(&[op], case as usize % ops.len() == 0), &[op])?;
        cx.calls += 1;
        cx.transitions += 1;
        let second = second_ops();
        // Long text operations only as the first step.
        if second.contains(&op) || matches!(op, Op::Str(n, false) if n < 66) {
            for &o in &second {
                ctx(run(&[op, o], false), &[op, o])?;
                cx.calls += 1;
                cx.transitions += 1;
                cx.extra_states += 1;
                if third && second.contains(&op) {
                    for &p in &second {
                        ctx(run(&[op, o, p], false), &[op, o, p])?;
                        cx.calls += 1;
                        cx.transitions += 1;
                        cx.extra_states += 1;
                    }
                }
            }
        }
        if cx.trace {
            cx.note = format!("{:?}, fill style {}, {} bytes, then {op:?} and every second operation: as plain text", st.0, st.1, st.2);
        }
        Ok(())
    })
    .chunk(64)
}

/// All histories of `depth` operations from both directions near the edges.
pub fn history_space(depth: u32) -> Space {
    let mut ops: Vec<Op> = (1..=4).flat_map(|w| [Op::Push(w), Op::Front(w)]).collect();
    ops.extend([Op::Str(2, true), Op::Str(5, true), Op::Str(61, true), Op::Clone, Op::Upper, Op::ViaStr]);
    let fills: Vec<u16> = vec![0, 1, 31, 52, 54, 55, 56, 57, 58, 59, 60, 61, 62];
    let k = ops.len() as u128;
    let per = k.pow(depth);
    let n = per * fills.len() as u128 * 2;
    Space::new(format!("all histories of {depth} operations"), vec![Dom::Range(0, n)], move |case, cx| {
        let which = (case / per) as usize;
        let st = (if which % 2 == 0 { Start::New } else { Start::Reverse }, 4, fills[which / 2]);
        let (mut r, mut m) = reach(st)?;
        let mut c = case % per;
        for i in 0..depth {
            let op = ops[(c % k) as usize];
            c /= k;
            r = apply(op, r, &mut m).map_err(|e| format!("{st:?} step {i} {op:?}: {e}"))?;
            observe(&r, &m, false).map_err(|e| format!("{st:?} step {i} {op:?}: {e}"))?;
            cx.transitions += 1;
        }
        cx.calls += 1;
        cx.tag(if r.is_inline() { "ends inline" } else { "ends on the heap" });
        if cx.trace {
            cx.note = format!("{st:?} and {depth} operations, case {case}: {} bytes", r.len());
        }
        Ok(())
    })
}

/// Every Unicode character, put at every end of strings of several lengths.
pub fn scalar_space() -> Space {
    const FILLS: [usize; 8] = [0, 1, 30, 57, 58, 59, 61, 62];
    Space::new("every Unicode character", vec![Dom::Range(0, 0xD800), Dom::Range(0xE000, 0x11_0000)], move |case, cx| {
        let c = char::from_u32(case as u32).ok_or("no character")?;
        let mut four = [0; 4];
        let text: &str = c.encode_utf8(&mut four);
        let n = text.len();
        let base = |at: usize| [&"", &"a", &"ab\u{e9}c\u{1F600}defghijklmnopqrstuvwx"][at.min(2)];
        let mut want = std::mem::take(&mut cx.buf);
        let same = |r: &NominalString, want: &str, what: &str, at: usize| {
            if r.as_bytes() == want.as_bytes() && r.len() == want.len() && r.is_inline() == (want.len() <= 62) {
                return Ok(());
            }
            Err(format!("U+{case:04X} by {what} on {at} bytes: content {:02X?} inline {}, expected {:02X?}", r.as_bytes(), r.is_inline(), want.as_bytes()))
        };
        same(&NominalString::from(c), text, "From<char>", 0)?;
        same(&NominalString::from(text), text, "From<&str>", 0)?;
        cx.calls += 2;
        for at in FILLS {
            for reverse in [false, true] {
                for how in 0..3 {
                    let mut r = if reverse { NominalString::new_reverse() } else { NominalString::new() };
                    want.clear();
                    let start = base(at);
                    want.push_str(start);
                    (start.len()..at).for_each(|_| want.push('z'));
                    if at > 0 {
                        if reverse {
                            for x in want.chars().rev() {
                                r.try_push_front(x).map_err(|_| "push failed")?;
                            }
                        } else {
                            r.try_push_str(&want).map_err(|_| "push failed")?;
                        }
                    }
                    let (done, what) = match how {
                        0 => (r.try_push(c), "push"),
                        1 => (r.try_push_front(c), "push_front"),
                        _ => (r.try_push_str(text), "push_str"),
                    };
                    let fits = cfg!(feature = "alloc") || want.len() + n <= 62;
                    if done.is_ok() != fits {
                        return Err(format!("U+{case:04X} by {what} on {at} bytes: {}", if fits { "refused" } else { "accepted without alloc" }));
                    }
                    if fits {
                        want.insert_str(if how == 1 { 0 } else { want.len() }, text);
                    }
                    same(&r, &want, what, at)?;
                    // What follows it.
                    if cfg!(feature = "alloc") || want.len() + 4 <= 62 {
                        r.try_push('\u{e9}').and(r.try_push_front('\u{3bb}')).map_err(|_| "push failed")?;
                        want.push('\u{e9}');
                        want.insert(0, '\u{3bb}');
                        same(&r, &want, what, at)?;
                    }
                    cx.calls += 1;
                    cx.transitions += 3;
                }
            }
        }
        cx.buf = want;
        cx.tag(["", "one byte", "two bytes", "three bytes", "four bytes"][n]);
        if cx.trace {
            cx.note = format!("U+{case:04X}: as plain text at {} fill levels, both directions and both ends", FILLS.len());
        }
        Ok(())
    })
}

/// Long texts, and texts that repeat one character: the contents the state
/// graph does not have.
pub fn long_space(t: Tier) -> Space {
    #[derive(Clone, Copy, Debug)]
    enum L {
        Push(char),
        Front(char),
        Str(usize),
        Upper,
        Lower,
        Tail,
        Clone,
        ViaString,
        ViaStr,
        ViaTry,
    }
    const UNITS: [&str; 7] = ["a", "Z", "\u{e9}", "\u{96f6}", "\u{1F600}", "aZ\u{e9}0\u{96f6}\u{1F600}", "\u{96f6}aa"];
    let alloc = cfg!(feature = "alloc");
    let mut lens: Vec<usize> = (0..=if alloc { 66 } else { 62 }).collect();
    if alloc {
        lens.extend([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193]);
        lens.extend([16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 100_000, 131_072, 1 << 20]);
        if t == Tier::Thorough {
            lens.extend((300..9000).step_by(97));
            lens.extend([262_143, 262_144, 262_145, (1 << 20) + 1, 1 << 22, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
        }
    }
    let pairs_to = if t == Tier::Quick { 1025 } else { 9000 };
    // 0 to 4: From<String>, push_str on new, push_str on reverse, pushes, pushes to the front.
    let n = lens.len() * UNITS.len() * 5;
    Space::new("long and repetitive texts", vec![Dom::Range(0, n as u128)], move |case, cx| {
        let how = case as usize % 5;
        let unit = UNITS[case as usize / 5 % UNITS.len()];
        let len = lens[case as usize / 5 / UNITS.len()];
        // As much of the repeated unit as fits.
        let mut text = String::with_capacity(len);
        for c in unit.chars().cycle() {
            if text.len() + c.len_utf8() > len {
                break;
            }
            text.push(c);
        }
        if how >= 3 && len > 5000 {
            return Ok(());
        }
        let make = || -> Result<NominalString, String> {
            let mut r = if how == 2 || how == 4 { NominalString::new_reverse() } else { NominalString::new() };
            let done = match how {
                #[cfg(feature = "alloc")]
                0 => {
                    r = NominalString::from(text.clone());
                    Ok(())
                }
                #[cfg(not(feature = "alloc"))]
                0 => {
                    r = NominalString::from(text.as_str());
                    Ok(())
                }
                1 | 2 => r.try_push_str(&text),
                3 => text.chars().try_for_each(|c| r.try_push(c)),
                _ => text.chars().rev().try_for_each(|c| r.try_push_front(c)),
            };
            done.map_err(|_| format!("building {len} bytes of {unit:?} failed"))?;
            Ok(r)
        };
        let first = unit.chars().next().unwrap();
        let last = unit.chars().last().unwrap();
        let mut ops = vec![];
        for c in [first, last, 'a', 'b', 'Z', '\u{e9}', '\u{96f6}', '\u{97f6}', '\u{1F600}'] {
            ops.extend([L::Push(c), L::Front(c)]);
        }
        ops.extend([0, 1, 2, 3].map(L::Str));
        ops.extend([L::Upper, L::Lower, L::Tail, L::Clone, L::ViaStr, L::ViaString, L::ViaTry]);
        let added = [String::new(), unit.to_owned(), text.clone(), unit.repeat(150)];
        let go = |op: L, mut r: NominalString, want: &mut String| -> Result<NominalString, String> {
            let pushed = |ok: bool, want: &mut String, at: usize, t: &str| {
                let fits = alloc || want.len() + t.len() <= 62;
                if fits {
                    want.insert_str(at, t);
                }
                if ok == fits {
                    Ok(())
                } else {
                    Err(format!("{op:?} {}", if ok { "succeeded without alloc" } else { "failed" }))
                }
            };
            let mut four = [0; 4];
            match op {
                L::Push(c) => pushed(r.try_push(c).is_ok(), want, want.len(), c.encode_utf8(&mut four))?,
                L::Front(c) => pushed(r.try_push_front(c).is_ok(), want, 0, c.encode_utf8(&mut four))?,
                L::Str(i) => pushed(r.try_push_str(&added[i]).is_ok(), want, want.len(), &added[i])?,
                L::Upper => {
                    r.make_ascii_uppercase();
                    want.make_ascii_uppercase();
                }
                L::Lower => {
                    r.make_ascii_lowercase();
                    want.make_ascii_lowercase();
                }
                L::Tail => {
                    let at = want.char_indices().last().map_or(0, |x| x.0);
                    r.split_at_mut(at).1.make_ascii_uppercase();
                    want.split_at_mut(at).1.make_ascii_uppercase();
                }
                L::ViaStr => {
                    if alloc || r.len() <= 62 {
                        r = NominalString::from(&*r);
                    }
                }
                #[cfg(feature = "alloc")]
                L::Clone => r = r.clone(),
                #[cfg(feature = "alloc")]
                L::ViaString => r = NominalString::from(String::from(r)),
                #[cfg(feature = "alloc")]
                L::ViaTry => {
                    r = match r.try_into_string() {
                        Ok(s) => NominalString::from(s),
                        Err(s) => s,
                    }
                }
                #[cfg(not(feature = "alloc"))]
                _ => {}
            }
            Ok(r)
        };
        let differs = |r: &NominalString, want: &str, path: &[L]| -> Result<(), String> {
            let at = r.bytes().zip(want.bytes()).position(|(x, y)| x != y).unwrap_or(r.len().min(want.len()));
            let ok = r.as_bytes() == want.as_bytes() && *r == *want && (want.len() <= 62 || !r.is_inline()) && r.partial_cmp(want) == Some(Ordering::Equal);
            if ok {
                return Ok(());
            }
            Err(format!("{len} bytes of {unit:?} built by way {how}, then {path:?}: {} bytes, inline {}, expected {} bytes, first difference at byte {at}", r.len(), r.is_inline(), want.len()))
        };
        let mut want = text.clone();
        differs(&make()?, &want, &[])?;
        for &op in &ops {
            want.clone_from(&text);
            let r = go(op, make()?, &mut want).map_err(|e| format!("{len} bytes of {unit:?} built by way {how}: {e}"))?;
            differs(&r, &want, &[op])?;
            cx.calls += 1;
            cx.transitions += 1;
            for &next in &ops {
                if len > pairs_to && !matches!(next, L::Push('b') | L::Front('b')) {
                    continue;
                }
                want.clone_from(&text);
                let r = go(op, make()?, &mut want).and_then(|r| go(next, r, &mut want)).map_err(|e| format!("{len} bytes of {unit:?} built by way {how}, {op:?}: {e}"))?;
                differs(&r, &want, &[op, next])?;
                cx.calls += 1;
                cx.transitions += 1;
                cx.extra_states += 1;
            }
        }
        cx.tag(if text.len() <= 62 { "starts inline" } else { "starts on the heap" });
        if cx.trace {
            cx.note = format!("{len} bytes of {unit:?} built by way {how}, then each of {} operations and pairs: as plain text", ops.len());
        }
        Ok(())
    })
    .chunk(2)
}

#[cfg(feature = "alloc")]
/// Texts and every representation of them, compared pairwise.
fn compare_space() -> Space {
    let mut texts: Vec<String> = vec![String::new()];
    for base in ["a", "b", "Z", "é", "零", "😀", "0"] {
        for n in [1usize, 2, 3, 15, 30, 31, 61, 62, 63, 64, 70] {
            let t = base.repeat(n);
            texts.push(t.clone());
            texts.push(t.clone() + "a");
            texts.push(t.clone() + "\u{10FFFF}");
            texts.push("a".to_owned() + &t);
            texts.push(t[..t.len() - base.len()].to_owned() + "~");
        }
    }
    texts.sort();
    texts.dedup();
    let n = texts.len();
    Space::new("pairwise comparison of representations", vec![Dom::Range(0, (n * n) as u128)], move |case, cx| {
        let (a, b) = (&texts[case as usize / n], &texts[case as usize % n]);
        fn reps(t: &str) -> Result<[NominalString; 5], String> {
            let mut fwd = NominalString::new();
            let mut rev = NominalString::new_reverse();
            for c in t.chars() {
                fwd.try_push(c).map_err(|_| "push failed")?;
            }
            for c in t.chars().rev() {
                rev.try_push_front(c).map_err(|_| "push failed")?;
            }
            let mut mix = NominalString::new_reverse();
            mix.try_push_str(t).map_err(|_| "push failed")?;
            Ok([fwd, rev, mix, NominalString::from(t), NominalString::from(t.to_owned())])
        }
        let (ra, rb) = (reps(a)?, reps(b)?);
        let ord = a.cmp(b);
        for (i, x) in ra.iter().enumerate() {
            for (j, y) in rb.iter().enumerate() {
                cx.transitions += 1;
                cx.calls += 1;
                let ok = x.cmp(y) == ord
                    && x.partial_cmp(y) == Some(ord)
                    && (x == y) == (a == b)
                    && (x != y) == (a != b)
                    && (x < y) == (a < b)
                    && (x >= y) == (a >= b)
                    && x.partial_cmp(b.as_str()) == Some(ord)
                    && x.partial_cmp(b) == Some(ord)
                    && (*x == **b) == (a == b)
                    && (*x == b.as_str()) == (a == b)
                    && (x == b) == (a == b);
                if !ok {
                    return Err(format!("{a:?} (representation {i}) and {b:?} (representation {j}) do not compare as text"));
                }
            }
        }
        Ok(())
    })
    .chunk(512)
}

#[cfg(feature = "alloc")]
pub fn plan(t: Tier) -> Plan {
    let mut spaces = vec![graph_space(t == Tier::Thorough), history_space(if t == Tier::Quick { 4 } else { 5 })];
    spaces.push(compare_space());
    spaces.push(scalar_space());
    spaces.push(long_space(t));
    Plan {
        spaces,
        rule: "A state is one nominal string reached by one history: a constructor, one of six ways of filling it to a length, and the operations applied since; a transition is one operation. Every history is executed on the real type and on a plain String; after it, content, length, equality and ordering against text, owned strings and other representations, nine Display and view forms, clone and clone_from, minimum and maximum, conversion to String, try_into_string and is_inline are compared.".into(),
        bounds: "Every constructor and fill style at every length 0 to 66 (and selected lengths to 1000 on the heap), then every operation (characters of 1 to 4 bytes at both ends, text of every length 0 to 300, clone, text-view edits, conversions), then every second operation (thorough: and third); all histories of 4 (5) out of 14 operations from both directions at 13 fill levels; 5 representations of each of about 350 texts compared pairwise; every Unicode character by every constructor and push, in both directions, at 8 fill levels; texts of 0 to 66 and selected lengths to 2^20 (thorough 2^24) bytes that repeat one character or a short pattern, built five ways, with every operation and (to 1025, thorough 9000, bytes) every pair of operations.".into(),
        assumptions: vec!["Whether a string made from an owned short String is inline is not specified and not judged.".into()],
    }
}

#[cfg(feature = "alloc")]
/// C17: building a string in place allocates nothing up to 62 bytes.
pub fn heap_space(t: Tier) -> Space {
    let states: Vec<_> = starts().into_iter().filter(|s| s.2 <= 62 && !matches!(s.0, Start::Owned(_)) && !matches!(s.0, Start::Str(n) | Start::RefOwned(n) if n > 62)).collect();
    let ops: Vec<Op> = first_ops().into_iter().filter(|o| !matches!(o, Op::ViaString | Op::ViaRefString | Op::CloneInto(_))).collect();
    let deep = t == Tier::Thorough;
    let n = states.len() * ops.len();
    Space::new("string building", vec![Dom::Range(0, n as u128)], move |case, cx| {
        let st = states[case as usize / ops.len()];
        let op = ops[case as usize % ops.len()];
        // Prepared texts, so that only the string itself can allocate.
        let run = |path: &[Op]| -> Result<Option<u64>, String> {
            let (_, mut m) = start(st.0);
            let mut steps: Vec<(Op, String)> = vec![];
            for o in fill(st.1, st.2).into_iter().chain(path.iter().copied()) {
                let t = match o {
                    Op::Push(w) | Op::Front(w) => m.ch(w).to_string(),
                    Op::Str(n, mixed) => m.text(n, mixed),
                    _ => String::new(),
                };
                steps.push((o, t));
            }
            let total: usize = m.s.len() + steps.iter().map(|s| s.1.len()).sum::<usize>();
            if total > 62 {
                return Ok(None);
            }
            let text = m.s.clone();
            let before = allocs();
            let mut r = match st.0 {
                Start::New | Start::Default => NominalString::new(),
                Start::Reverse => NominalString::new_reverse(),
                Start::Char(_) => NominalString::from(text.chars().next().unwrap()),
                Start::RefOwned(_) => NominalString::from(&text),
                _ => NominalString::from(text.as_str()),
            };
            for (o, t) in &steps {
                match o {
                    Op::Push(_) => r.try_push(t.chars().next().unwrap()).map_err(|_| "push failed")?,
                    Op::Front(_) => r.try_push_front(t.chars().next().unwrap()).map_err(|_| "push failed")?,
                    Op::Str(..) => r.try_push_str(t).map_err(|_| "push failed")?,
                    Op::Clone => r = r.clone(),
                    Op::Upper => r.make_ascii_uppercase(),
                    Op::Lower => r.make_ascii_lowercase(),
                    Op::ViaStr => r = NominalString::from(&*r),
                    Op::ViaTry => r = r.try_into_string().err().ok_or("an inline string gave up a String")?,
                    _ => {}
                }
            }
            let made = allocs() - before;
            if !r.is_inline() {
                return Err(format!("{} bytes are not inline", r.len()));
            }
            Ok(Some(made))
        };
        let mut judge = |path: &[Op]| match run(path) {
            Ok(Some(0)) => {
                cx.calls += 1;
                cx.transitions += 1;
                Ok(())
            }
            Ok(None) => Ok(()),
            Ok(Some(k)) => Err(format!("{st:?} then {path:?}: {k} heap allocations although at most 62 bytes")),
            Err(e) => Err(format!("{st:?} then {path:?}: {e}")),
        };
        judge(&[op])?;
        if deep || !matches!(op, Op::Str(..)) {
            for o in second_ops() {
                if !matches!(o, Op::ViaString | Op::ViaRefString | Op::CloneInto(_)) {
                    judge(&[op, o])?;
                }
            }
        }
        Ok(())
    })
    .chunk(256)
}
