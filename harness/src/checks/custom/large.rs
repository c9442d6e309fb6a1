//! Sets with more entries than the narrow integer types can count, and long
//! additive tables.

use super::*;

/// Runs `f` with room for large arrays on the stack.
fn roomy<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 26).spawn_scoped(s, f).expect("thread").join().expect("large set"))
}

const LARGE: usize = 65_836;

fn text(i: usize) -> &'static str {
    static T: OnceLock<Vec<String>> = OnceLock::new();
    &T.get_or_init(|| (0..LARGE).map(|i| format!("s{i}")).collect())[i]
}

fn values(len: u128) -> Vec<Dom> {
    let mut l = list_values(len, 700);
    l.extend(dom::boundaries(10).iter());
    l.sort_unstable();
    l.dedup();
    vec![Dom::List(Arc::new(l))]
}

/// A set of the crate that has been put on the heap.
struct Heap<S>(Box<S>);
impl<S, T: Nominal> NominalSystem<T> for Heap<S>
where
    S: NominalSystem<T>,
{
    fn try_format_nominal(&self, n: T) -> Result<NominalString, nominals::Error<T>> {
        (*self.0).try_format_nominal(n)
    }
    fn format_nominal(&self, n: T) -> NominalString {
        (*self.0).format_nominal(n)
    }
}

pub fn enumerated() -> Vec<Space> {
    let mut v = vec![];
    macro_rules! sizes {
        ($($n:expr),*) => {$(
            let s = roomy(|| Heap(Box::new(EnumeratedSet::<{ $n }, true>::new(std::array::from_fn(text)))));
            v.push(space_of(format!("EnumeratedSet<{}, zero>", $n), s, values($n), |n, o| {
                if n < $n { o.push_str(text(n as usize)); Ok(()) } else { Err(ModelErr::OutOfBounds) }
            }));
            let s = roomy(|| Heap(Box::new(EnumeratedSet::<{ $n }, false>::zeroless(std::array::from_fn(text)))));
            v.push(space_of(format!("EnumeratedSet<{}, zeroless>", $n), s, values($n), |n, o| {
                if n == 0 { return Err(ModelErr::NoZero) }
                if n <= $n { o.push_str(text(n as usize - 1)); Ok(()) } else { Err(ModelErr::OutOfBounds) }
            }));
        )*};
    }
    sizes!(1000, 65_534, 65_535, 65_536, 65_537, 65_836);
    v
}

/// Digit sets of many symbols, with the list each stands for.
pub fn digit_sets() -> Vec<(String, Dyn, ListModel)> {
    let mut v = vec![];
    macro_rules! sizes {
        ($($n:expr),*) => {$(
            for zero in [true, false] {
                let d = roomy(|| if zero {
                    Dyn::new(BoxSet(Box::new(DigitSet::<{ $n }, true>::new(std::array::from_fn(virt_digit)))))
                } else {
                    Dyn::new(BoxSet(Box::new(DigitSet::<{ $n }, false>::zeroless(std::array::from_fn(virt_digit)))))
                });
                let m = ListModel { len: $n, symbols: None, zero, one_based: false, fixed: false, fallback: None };
                v.push((format!("DigitSet<{}, {zero}>", $n), d, m));
            }
        )*};
    }
    sizes!(1000, 65_534, 65_535, 65_536, 65_537, 65_836);
    v
}

struct BoxSet<C>(Box<C>);
impl<C: DigitCollection> DigitCollection for BoxSet<C> {
    type Fallback = C::Fallback;
    fn fixed(&self) -> bool {
        (*self.0).fixed()
    }
    fn has_zero_digit(&self) -> bool {
        (*self.0).has_zero_digit()
    }
    fn zero_based(&self) -> bool {
        (*self.0).zero_based()
    }
    fn len(&self) -> usize {
        (*self.0).len()
    }
    fn is_empty(&self) -> bool {
        (*self.0).is_empty()
    }
    fn digit(&self, index: usize) -> char {
        (*self.0).digit(index)
    }
}

pub fn digit_spaces() -> Vec<Space> {
    digit_sets()
        .into_iter()
        .map(|(name, s, m)| {
            Space::new(name.clone(), values(m.len), move |n, cx| {
                cx.transitions += u64::from(cx.prev.is_some());
                m.check(&s, &name, n, cx)
            })
        })
        .collect()
}

// ---------------------------------------------------------------- tables

type Table = Vec<(&'static str, u128)>;
type Try = Box<dyn Fn(usize, u128) -> Raw + Send + Sync>;

fn build<const N: usize>(t: &Table) -> Try {
    let a: [(&'static str, u128); N] = t.clone().try_into().expect("length");
    let s = AdditiveSet::<N>::new(a);
    Box::new(move |w, n| try_w(&s, w, n))
}

/// Strictly descending tables of `n` entries.
fn shapes(n: u128) -> Vec<(&'static str, Table)> {
    let with = |f: &dyn Fn(u128) -> u128| -> Table { (0..n).map(|i| (text(i as usize), f(i))).collect() };
    let mut v = vec![
        ("counting down to 1", with(&|i| n - i)),
        ("counting down to 0", with(&|i| n - 1 - i)),
        ("counting down from u128::MAX, then 1", with(&|i| if i + 1 == n { 1 } else { u128::MAX - i })),
        ("triangular numbers", with(&|i| (n - i) * (n - i + 1) / 2)),
        ("counting down through 65,536", with(&|i| 65_536 + n / 2 - i)),
    ];
    if n <= 128 {
        v.push(("powers of two", with(&|i| 1 << (n - 1 - i))));
    }
    if n <= 129 {
        v.push(("powers of two and zero", with(&|i| if i + 1 == n { 0 } else { 1 << (n - 2 - i) })));
    }
    v
}

pub fn tables() -> Vec<Space> {
    let mut v = vec![];
    let values: Arc<Vec<u128>> = Arc::new({
        let mut l = list_values(64, 1400);
        l.extend(dom::boundaries(10).iter());
        l.extend(dom::boundaries(2).iter());
        l.sort_unstable();
        l.dedup();
        l
    });
    macro_rules! sizes {
        ($($n:expr),*) => {$(
            let values_n = values.clone();
            v.push(Space::new(format!("additive tables of {} entries", $n), vec![Dom::Range(0, shapes($n).len() as u128)], move |case, cx| {
                let (name, t) = shapes($n).swap_remove(case as usize);
                let f = build::<$n>(&t);
                for &n in values_n.iter() {
                    cx.buf.clear();
                    let m = additive_expect(&t, n, &mut cx.buf);
                    if m == Err(ModelErr::Huge) {
                        continue;
                    }
                    cx.extra_states += 1;
                    cx.transitions += 1;
                    for w in 0..6 {
                        if n <= MAXES[w] {
                            let r = f(w, n);
                            cx.calls += 1;
                            if !same(&r, m, &cx.buf, n) {
                                return Err(format!("additive table of {} entries {name}: {n} as {}: got {}, expected {}", $n, WIDTHS[w], show(&r), show_model(m, &cx.buf, n)));
                            }
                        }
                    }
                }
                Ok(())
            }).chunk(1));
            // One pair out of order, anywhere: refused.
            v.push(Space::new(format!("construction of tables of {} entries", $n), vec![Dom::Range(0, shapes($n).len() as u128 * ($n - 1) * 3)], move |case, cx| {
                let (at, how) = ((case / 3) as usize % ($n - 1), case % 3);
                let (name, mut t) = shapes($n).swap_remove(case as usize / (3 * ($n - 1)));
                match how {
                    0 => t[at].1 = t[at + 1].1,
                    1 => t.swap(at, at + 1),
                    _ => t[at + 1].1 = t[at].1,
                }
                cx.calls += 1;
                if std::panic::catch_unwind(|| drop(build::<$n>(&t))).is_ok() {
                    return Err(format!("additive table of {} entries {name}, entries {at} and {} out of order: accepted although not strictly descending", $n, at + 1));
                }
                cx.tag("table refused");
                Ok(())
            }).chunk(64));
        )*};
    }
    sizes!(6, 8, 9, 14, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300);
    v
}
