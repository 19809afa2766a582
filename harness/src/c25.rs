//! C25: evaluation is a single pass: operands are read once per element, nothing is read when building.
//! The operands are matrices with an implementation of our own that counts its reads.
use crate::api::*;
use crate::kit::*;
use std::cell::Cell;
use std::marker::PhantomData;

const N: usize = 12;

/// a matrix implementation that counts the reads of each element
struct Probe<K: Lay, T: Sc> {
    lay: K::L,
    d: D2,
    v: [T; N],
    reads: *const [Cell<usize>; N],
}
impl<K: Lay, T: Sc> Probe<K, T> {
    fn hit(&self, k: usize) -> T {
        check(k < N, "only elements are read");
        let c = unsafe { &(&*self.reads)[k] };
        c.set(c.get() + 1);
        self.v[k]
    }
}
impl<K: Lay, T: Sc> Layout for Probe<K, T> {
    type Impl = K::L;
    fn layout(&self) -> &K::L {
        &self.lay
    }
}
impl<K: Lay, T: Sc> SizeType for Probe<K, T> {
    type R = K::RS;
    type C = K::CS;
}
impl<K: Lay, T: Sc> UnsafeRandomAccess for Probe<K, T> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        check(row < self.d.0 && col < self.d.1 && (!K::TRI || row <= col), "only elements are read");
        self.hit(one::<K>(self.d, row, col))
    }
    unsafe fn get1d_unchecked(&self, k: usize) -> T {
        check(k < numel::<K>(self.d), "only elements are read");
        self.hit(k)
    }
}
#[inline(always)]
fn numel<K: Lay>(d: D2) -> usize {
    if K::TRI {
        d.0 * (d.0 + 1) / 2
    } else {
        d.0 * d.1
    }
}
type M<K, T> = Matrix<T, Probe<K, T>, <K as Lay>::L, <K as Lay>::RS, <K as Lay>::CS>;
#[inline(always)]
fn tally() -> [Cell<usize>; N] {
    std::array::from_fn(|_| Cell::new(0))
}
#[inline(always)]
fn vals<T: Sc>() -> [T; N] {
    let mut v = [<T as num::Zero>::zero(); N];
    for k in 0..N {
        v[k] = T::fresh();
    }
    v
}
#[inline(always)]
fn probe<K: Lay, T: Sc>(d: D2, v: [T; N], r: &[Cell<usize>; N]) -> M<K, T> {
    Matrix::new(Probe { lay: K::mk(d, K::stride(d, (d.1 + 3, d.0 + 5))), d, v, reads: r })
}
#[inline(always)]
fn dims<K: Lay>() -> D2 {
    let d = K::shape((pick(0, lim(3, 4)), pick(0, lim(3, 4))));
    assume(numel::<K>(d) <= N);
    d
}
#[inline(always)]
fn counts(r: &[Cell<usize>; N], n: usize, want: usize, m: &'static str) {
    for k in 0..N {
        check(r[k].get() == if k < n { want } else { 0 }, m);
    }
}

macro_rules! typed {
    ($mod:ident, $T:ty) => {
        mod $mod {
            use super::*;
            type T = $T;
            /// eval of nested expressions
            pub fn eval<K: Lay<RS = Dynamic, CS = Dynamic>>()
            where
                <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
            {
                let d = dims::<K>();
                let n = numel::<K>(d);
                let (v, w) = (vals::<T>(), vals::<T>());
                let (r, s) = (tally(), tally());
                let (a, b) = (probe::<K, T>(d, v, &r), probe::<K, T>(d, w, &s));
                let k = T::fresh();
                let q = pick(0, 4);
                macro_rules! go {
                    ($e:expr, $own:expr) => {{
                        let e = $e;
                        counts(&r, n, 0, "building an expression reads nothing");
                        counts(&s, n, 0, "building an expression reads nothing");
                        check(e.dim() == d, "the expression has the operands' dimension");
                        e.eval()
                    }};
                }
                let (z, times) = match q {
                    0 => (go!(&a + &b, false), 1),
                    1 => (go!(k * &a + &b * k, false), 1),
                    2 => (go!((&a + &b) + (&a + k * &b), false), 2),
                    3 => (go!(k * (a + b), true), 1),
                    _ => (go!(k * (k * Matrix::from_ref(&a)) + &b, false), 1),
                };
                counts(&r, n, times, "evaluation reads every element of every operand once");
                counts(&s, n, times, "evaluation reads every element of every operand once");
                check(z.dim() == d, "the result has the expression's dimension");
                for e in 0..n {
                    let (x, y) = (v[e], w[e]);
                    z.get1d(e).same(
                        match q {
                            0 => x + y,
                            1 => k * x + k * y,
                            2 => (x + y) + (x + k * y),
                            3 => k * (x + y),
                            _ => k * (k * x) + y,
                        },
                        "the result has the expression's elements",
                    );
                }
                done();
            }
            /// one element
            pub fn read<K: Lay>()
            where
                <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
            {
                let d = dims::<K>();
                let n = numel::<K>(d);
                let (v, w) = (vals::<T>(), vals::<T>());
                let (r, s) = (tally(), tally());
                let (a, b) = (probe::<K, T>(d, v, &r), probe::<K, T>(d, w, &s));
                let k = T::fresh();
                let (i, j) = (pick(0, 3), pick(0, 3));
                assume(i < d.0 && j < d.1 && (!K::TRI || i <= j));
                let e = one::<K>(d, i, j);
                let flat = pick(0, 1) == 1;
                macro_rules! at {
                    ($e:expr) => {{
                        let x = $e;
                        if flat {
                            x.get1d(e)
                        } else {
                            x.get(i, j)
                        }
                    }};
                }
                let (x, y) = (v[e], w[e]);
                match pick(0, 3) {
                    0 => at!(&a + &b).same(x + y, "the element is that of the operands"),
                    1 => at!(&a + k * &b).same(x + k * y, "the element is that of the operands"),
                    2 => at!(k * (a + b)).same(k * (x + y), "the element is that of the operands"),
                    _ => at!(Matrix::from_ref(&a) + Matrix::from_ref(&b)).same(x + y, "the element is that of the operands"),
                }
                for f in 0..n {
                    let c = if f == e { 1 } else { 0 };
                    check(r[f].get() == c && s[f].get() == c, "reading one element reads that element of each operand");
                }
                done();
            }
        }
    };
}
typed!(f, f64);
typed!(s, f32);
typed!(z, c64);
typed!(c, c32);

harnesses! {
    h_c25_eval_rm = f::eval::<RM>();
    h_c25_eval_cm = f::eval::<CM>();
    h_c25_eval_arm = f::eval::<ARM>();
    h_c25_eval_acm = f::eval::<ACM>();
    h_c25_eval_ut = f::eval::<UT>();
    h_c25_eval_f32 = s::eval::<RM>();
    h_c25_eval_c64 = z::eval::<CM>();
    h_c25_eval_c32 = c::eval::<ACM>();
    h_c25_read_rm = f::read::<RM>();
    h_c25_read_cm = f::read::<CM>();
    h_c25_read_rv = f::read::<RV>();
    h_c25_read_cv = f::read::<CV>();
    h_c25_read_arm = f::read::<ARM>();
    h_c25_read_acm = f::read::<ACM>();
    h_c25_read_arv = f::read::<ARV>();
    h_c25_read_acv = f::read::<ACV>();
    h_c25_read_ut = f::read::<UT>();
    h_c25_read_f32 = s::read::<CM>();
    h_c25_read_c64 = z::read::<RM>();
    h_c25_read_c32 = c::read::<ACV>();
}
