//! C16: random filling draws each element from the generator exactly once, in order.
//! The generator's output words are symbolic; the sampler (rand_distr's ziggurat) is executed symbolically both by
//! the code under test and by the specification.
use crate::api::*;
use crate::kit::*;
use ::rand::{Error, RngCore};
use ::rand_distr::{Distribution, StandardNormal};
use std::cell::Cell;

/// at most this many words are drawn (bound)
const W: usize = if DEEP { 10 } else { 7 };

/// generator that plays back a fixed stream
pub struct Play<'a> {
    w: &'a [usize],
    c: &'a Cell<usize>,
}
impl<'a> Play<'a> {
    fn next(&mut self) -> u64 {
        let c = self.c.get();
        assume(c < self.w.len());
        self.c.set(c + 1);
        self.w[c] as u64
    }
}
impl<'a> RngCore for Play<'a> {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        // a draw of another kind is visible in the position of the stream
        for b in dest {
            *b = self.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
#[inline(always)]
fn stream<const W: usize>() -> [usize; W] {
    let mut w = [0; W];
    for c in 0..W {
        w[c] = word();
    }
    w
}
/// the next draw(s) for one element
pub trait Draw: Sc {
    fn draw(r: &mut Play) -> Self;
    /// the same, given that each value takes one word
    fn fast(r: &mut Play) -> Self;
}
#[inline(always)]
fn quick<R>(r: &mut Play) -> R
where
    StandardNormal: Distribution<R>,
{
    let c = r.c.get();
    let v = StandardNormal.sample(r);
    assume(r.c.get() == c + 1);
    v
}
impl Draw for f64 {
    fn draw(r: &mut Play) -> f64 {
        StandardNormal.sample(r)
    }
    fn fast(r: &mut Play) -> f64 {
        quick(r)
    }
}
impl Draw for f32 {
    fn draw(r: &mut Play) -> f32 {
        StandardNormal.sample(r)
    }
    fn fast(r: &mut Play) -> f32 {
        quick(r)
    }
}
impl Draw for c64 {
    fn draw(r: &mut Play) -> c64 {
        let re = StandardNormal.sample(r);
        let im = StandardNormal.sample(r);
        c64::new(re, im)
    }
    fn fast(r: &mut Play) -> c64 {
        let re = quick(r);
        let im = quick(r);
        c64::new(re, im)
    }
}
impl Draw for c32 {
    fn draw(r: &mut Play) -> c32 {
        let re = StandardNormal.sample(r);
        let im = StandardNormal.sample(r);
        c32::new(re, im)
    }
    fn fast(r: &mut Play) -> c32 {
        let re = quick(r);
        let im = quick(r);
        c32::new(re, im)
    }
}
#[inline(always)]
fn pos<K: Lay>(d: D2, k: usize) -> D2 {
    if K::TRI {
        for i in 0..d.0 {
            for j in i..d.0 {
                if one::<K>(d, i, j) == k {
                    return (i, j);
                }
            }
        }
        (0, 0)
    } else {
        two::<K>(d, k)
    }
}
const N: usize = if DEEP { 6 } else { 4 };
#[inline(always)]
fn dim<K: Lay>() -> D2 {
    let d = K::shape((pick(0, lim(2, 3)), pick(0, lim(2, 3))));
    assume(if K::TRI { d.0 * (d.0 + 1) / 2 } else { d.0 * d.1 } <= N);
    d
}

macro_rules! fill {
    ($name:ident, $T:ty) => {
        fn $name<K: Lay>() {
            let d = dim::<K>();
            let s = K::stride(d, (any(), any()));
            assume_distinct::<K>(d, s);
            let x = Data::<K, $T>::over(d, s);
            let w = stream::<W>();
            let (a, b) = (Cell::new(0), Cell::new(0));
            let mut m = x.rw();
            m.fill_from_rand_standard_normal(&mut Play { w: &w, c: &a });
            let mut g = Play { w: &w, c: &b };
            for k in 0..x.n {
                let (i, j) = pos::<K>(d, k);
                let v = <$T>::draw(&mut g);
                m.get(i, j).same(v, "each element is the next draw, in 1D order");
            }
            check(a.get() == b.get(), "no more words are drawn");
            let q = any();
            assume(q < x.len);
            for k in 0..x.n {
                let (i, j) = pos::<K>(d, k);
                assume(q != x.raw(i, j));
            }
            x.cell(q).same(x.cell_old(q), "memory that is no element is not touched");
            done();
        }
    };
}
fill!(fill_f64, f64);
fill!(fill_f32, f32);
fill!(fill_c64, c64);
fill!(fill_c32, c32);

/// words of one layer of the sampler each; the bits that choose the value inside the layer are free
#[inline(always)]
fn layered<const W: usize>() -> [usize; W] {
    let mut w = [0; W];
    for c in 0..W {
        let h = word();
        assume(h < 1 << 52);
        w[c] = h * 4096 + (c * 37 + 11) % 256;
    }
    w
}
/// larger matrices, for the streams in which every value takes one word
macro_rules! large {
    ($name:ident, $T:ty, $n:literal) => {
        fn $name<K: Lay>() {
            const W: usize = $n * <$T as Sc>::LANES;
            let d = K::shape(if K::TRI { (pick(2, lim(4, 5)), 0) } else { (pick(1, 6), pick(1, 6)) });
            let n = if K::TRI { d.0 * (d.0 + 1) / 2 } else { d.0 * d.1 };
            assume(n <= $n);
            let x = spaced::<K, $T>(d);
            let w = layered::<W>();
            let (a, b) = (Cell::new(0), Cell::new(0));
            let mut m = x.rw();
            let mut want = [<$T as num::Zero>::zero(); $n];
            let mut g = Play { w: &w, c: &b };
            for k in 0..x.n {
                want[k] = <$T>::fast(&mut g);
            }
            m.fill_from_rand_standard_normal(&mut Play { w: &w, c: &a });
            check(a.get() == b.get(), "as many words are drawn as there are values");
            for k in 0..x.n {
                let (i, j) = pos::<K>(d, k);
                m.get(i, j).same(want[k], "each element is the next draw, in 1D order");
            }
            done();
        }
    };
}
large!(big_f64, f64, 20);
large!(big_f32, f32, 20);
large!(big_c64, c64, 10);
large!(big_c32, c32, 10);

/// filling a block leaves its surroundings alone
fn blk() {
    let x = Data::<RM, f64>::any();
    let t = (any(), any());
    let b = (pick(1, 2), pick(1, 2));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let w = stream::<W>();
    let (a, z) = (Cell::new(0), Cell::new(0));
    let mut m = x.rw();
    m.block_mut(t, b).fill_from_rand_standard_normal(&mut Play { w: &w, c: &a });
    let mut g = Play { w: &w, c: &z };
    for k in 0..b.0 * b.1 {
        let (i, j) = two::<RM>(b, k);
        x.now(t.0 + i, t.1 + j).same(f64::draw(&mut g), "each element is the next draw, in 1D order");
    }
    check(a.get() == z.get(), "no more words are drawn");
    let q = any();
    assume(q < x.len);
    for k in 0..b.0 * b.1 {
        let (i, j) = two::<RM>(b, k);
        assume(q != x.raw(t.0 + i, t.1 + j));
    }
    x.cell(q).same(x.cell_old(q), "memory that is no element of the block is not touched");
    done();
}
/// owned matrices
macro_rules! owned {
    ($name:ident, $T:ty, $ty:ty, $K:ty) => {
        fn $name() {
            let d = dim::<$K>();
            let mut m = <$ty>::zeros_from_dim(d.0, d.1);
            let w = stream::<W>();
            let (a, b) = (Cell::new(0), Cell::new(0));
            m.fill_from_rand_standard_normal(&mut Play { w: &w, c: &a });
            let mut g = Play { w: &w, c: &b };
            for k in 0..count::<$K>(d) {
                let (i, j) = pos::<$K>(d, k);
                m.get(i, j).same(<$T>::draw(&mut g), "each element is the next draw, in 1D order");
            }
            check(a.get() == b.get(), "no more words are drawn");
            done();
        }
    };
}
owned!(own_rm, f64, MatrixD<f64, RowMajor>, RM);
owned!(own_cm, c64, MatrixD<c64, ColumnMajor>, CM);
owned!(own_rv, f32, RowVectorD<f32>, RV);
owned!(own_cv, c32, ColumnVectorD<c32>, CV);
owned!(own_ut, f64, UpperTriangularMatrix<f64>, UT);

/// the rand_* macros: shape, and every element from the generator they ask for
mod mac {
    use super::*;
    static mut CUR: (*const [usize], *const Cell<usize>) = (&[], std::ptr::null());
    /// shadows the generator the macros name
    mod rand {
        pub fn thread_rng() -> super::super::Play<'static> {
            unsafe {
                let (w, c) = super::CUR;
                super::super::Play { w: &*w, c: &*c }
            }
        }
    }
    macro_rules! both {
        ($name:ident, $T:ty, $K:ty, |$d:ident| $e:expr) => {
            pub fn $name() {
                let $d = dim::<$K>();
                let w = stream::<W>();
                let (a, b) = (Cell::new(0), Cell::new(0));
                unsafe { CUR = (&w, &a) };
                let m = $e;
                check(m.dim() == $d, "the random matrix has the requested dimension");
                let mut g = Play { w: &w, c: &b };
                for k in 0..count::<$K>($d) {
                    let (i, j) = pos::<$K>($d, k);
                    m.get(i, j).same(<$T>::draw(&mut g), "each element is the next draw, in 1D order");
                }
                check(a.get() == b.get(), "no more words are drawn");
                done();
            }
        };
    }
    both!(rm, f64, RM, |d| rand_mat![f64, d]);
    both!(rm2, f32, RM, |d| rand_mat![f32, d, RowMajor]);
    both!(cm, c64, CM, |d| rand_mat![c64, d, ColumnMajor]);
    both!(cv, f64, CV, |d| rand_vector![f64, d.0]);
    both!(cv2, c32, CV, |d| rand_vector![c32, d.0, ColumnVector]);
    both!(rv, f64, RV, |d| rand_vector![f64, d.1, RowVector]);
}

/// a distribution that gives arbitrary values, one per word
struct Given<'a, R> {
    v: &'a [R; 3],
    w: &'a Cell<usize>,
}
impl<'a, R: Copy> Distribution<R> for Given<'a, R> {
    fn sample<G: ::rand::Rng + ?Sized>(&self, rng: &mut G) -> R {
        rng.next_u64();
        let k = self.w.get();
        self.w.set(k + 1);
        self.v[k]
    }
}
/// one random scalar of any distribution
macro_rules! scalar {
    ($name:ident, $T:ty, $R:ty, |$v:ident| $want:expr) => {
        fn $name() {
            let $v = [<$R>::fresh(), <$R>::fresh(), <$R>::fresh()];
            let w = stream::<4>();
            let (c, k) = (Cell::new(0), Cell::new(0));
            let r = <$T as RandScalar>::random_scalar(&mut Play { w: &w, c: &c }, &Given { v: &$v, w: &k });
            r.same($want, "a random scalar is the next draw (complex: real part, then imaginary part)");
            check(k.get() == <$T as Sc>::LANES, "as many values are drawn as the scalar has parts");
            check(c.get() == k.get(), "the generator is only used by the distribution");
            done();
        }
    };
}
scalar!(scalar_f64, f64, f64, |v| v[0]);
scalar!(scalar_f32, f32, f32, |v| v[0]);
scalar!(scalar_c64, c64, f64, |v| c64::new(v[0], v[1]));
scalar!(scalar_c32, c32, f32, |v| c32::new(v[0], v[1]));

/// a matrix of any size whatsoever: an end only where the elements end
macro_rules! far {
    ($name:ident, $T:ty) => {
        fn $name<K: Lay>() {
            const N: usize = lim(3, 5);
            const W: usize = N * <$T as Sc>::LANES;
            let x = Data::<K, $T>::any();
            let w = layered::<W>();
            let (a, b) = (Cell::new(0), Cell::new(0));
            let mut g = Play { w: &w, c: &b };
            for _ in 0..N {
                <$T>::fast(&mut g);
            }
            x.rw().fill_from_rand_standard_normal(&mut Play { w: &w, c: &a });
            check(a.get() == x.n * <$T as Sc>::LANES, "as many values are drawn as the matrix needs");
            done();
        }
    };
}
far!(far_f64, f64);
far!(far_c32, c32);

harnesses! {
    h_c16_far_rm = far_f64::<RM>();
    h_c16_far_acm = far_f64::<ACM>();
    h_c16_far_cv = far_f64::<CV>();
    h_c16_far_ut = far_f64::<UT>();
    h_c16_far_c32 = far_c32::<RM>();
    h_c16_scalar_f64 = scalar_f64();
    h_c16_scalar_f32 = scalar_f32();
    h_c16_scalar_c64 = scalar_c64();
    h_c16_scalar_c32 = scalar_c32();
    h_c16_f64_rm = fill_f64::<RM>();
    h_c16_f64_cm = fill_f64::<CM>();
    h_c16_f64_rv = fill_f64::<RV>();
    h_c16_f64_cv = fill_f64::<CV>();
    h_c16_f64_arm = fill_f64::<ARM>();
    h_c16_f64_acm = fill_f64::<ACM>();
    h_c16_f64_arv = fill_f64::<ARV>();
    h_c16_f64_acv = fill_f64::<ACV>();
    h_c16_f64_ut = fill_f64::<UT>();
    h_c16_f32_rm = fill_f32::<RM>();
    h_c16_f32_acm = fill_f32::<ACM>();
    h_c16_c64_cm = fill_c64::<CM>();
    h_c16_c64_arm = fill_c64::<ARM>();
    h_c16_c64_ut = fill_c64::<UT>();
    h_c16_c32_rm = fill_c32::<RM>();
    h_c16_c32_acv = fill_c32::<ACV>();
    h_c16_big_rm = big_f64::<RM>();
    h_c16_big_cm = big_f64::<CM>();
    h_c16_big_arm = big_f64::<ARM>();
    h_c16_big_acm = big_f32::<ACM>();
    h_c16_big_rv = big_f64::<RV>();
    h_c16_big_acv = big_f32::<ACV>();
    h_c16_big_ut = big_f64::<UT>();
    h_c16_big_c64 = big_c64::<CM>();
    h_c16_big_c32 = big_c32::<RM>();
    h_c16_blk = blk();
    h_c16_own_rm = own_rm();
    h_c16_own_cm = own_cm();
    h_c16_own_rv = own_rv();
    h_c16_own_cv = own_cv();
    h_c16_own_ut = own_ut();
    h_c16_mac_rm = mac::rm();
    h_c16_mac_rm2 = mac::rm2();
    h_c16_mac_cm = mac::cm();
    h_c16_mac_cv = mac::cv();
    h_c16_mac_cv2 = mac::cv2();
    h_c16_mac_rv = mac::rv();
}
