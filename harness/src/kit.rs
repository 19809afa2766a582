//! Specification-side description of the nine layouts, and builders of matrices over symbolic data.
//! Nothing here calls the library's index arithmetic: positions are recomputed from dimension and stride.
use crate::api::*;
pub use householder::types::{c32, c64, HScalar};
pub use householder::matrix_ref::{MatrixRef, MatrixRefMut};
pub use householder::*;

/// thorough tier: deeper bounds
pub const DEEP: bool = cfg!(feature = "deep");
/// bound of the quick / thorough tier
#[inline(always)]
pub const fn lim(quick: usize, thorough: usize) -> usize {
    if DEEP {
        thorough
    } else {
        quick
    }
}

pub type D2 = (usize, usize);

pub trait Lay: Sized {
    type L: LayoutType;
    type RS: SizeIdentifier;
    type CS: SizeIdentifier;
    /// 1D order: row by row
    const BYROW: bool;
    const TRI: bool;
    /// elements are stored densely
    const DENSE: bool;
    /// force a free dimension/stride into the shape of the layout
    fn shape(d: D2) -> D2;
    fn stride(d: D2, s: D2) -> D2;
    fn mk(d: D2, s: D2) -> Self::L;
}

macro_rules! lay {
    ($N:ident, $L:ty, $RS:ty, $CS:ty, $byrow:expr, $tri:expr, $dense:expr, |$d:ident| $shape:expr, |$d2:ident, $s:ident| $stride:expr,
     |$d3:ident, $s3:ident| $mk:expr) => {
        pub struct $N;
        impl Lay for $N {
            type L = $L;
            type RS = $RS;
            type CS = $CS;
            const BYROW: bool = $byrow;
            const TRI: bool = $tri;
            const DENSE: bool = $dense;
            #[inline(always)]
            fn shape($d: D2) -> D2 {
                $shape
            }
            #[inline(always)]
            fn stride($d2: D2, $s: D2) -> D2 {
                $stride
            }
            #[inline(always)]
            fn mk($d3: D2, $s3: D2) -> $L {
                $mk
            }
        }
    };
}
lay!(RM, RowMajor, Dynamic, Dynamic, true, false, true, |d| d, |d, _s| (d.1, 1), |d, _s| RowMajor::new(d));
lay!(CM, ColumnMajor, Dynamic, Dynamic, false, false, true, |d| d, |d, _s| (1, d.0), |d, _s| ColumnMajor::new(d));
lay!(RV, RowVector, Fixed1, Dynamic, true, false, true, |d| (1, d.1), |_d, _s| (1, 1), |d, _s| RowVector::new(d.1));
lay!(CV, ColumnVector, Dynamic, Fixed1, true, false, true, |d| (d.0, 1), |_d, _s| (1, 1), |d, _s| ColumnVector::new(d.0));
lay!(ARM, ArbitraryStrideRowMajor, Dynamic, Dynamic, true, false, false, |d| d, |_d, s| s, |d, s| {
    ArbitraryStrideRowMajor::new(d, s)
});
lay!(ACM, ArbitraryStrideColumnMajor, Dynamic, Dynamic, false, false, false, |d| d, |_d, s| s, |d, s| {
    ArbitraryStrideColumnMajor::new(d, s)
});
lay!(ARV, ArbitraryStrideRowVector, Fixed1, Dynamic, true, false, false, |d| (1, d.1), |_d, s| (1, s.1), |d, s| {
    ArbitraryStrideRowVector::new(d.1, s.1)
});
lay!(ACV, ArbitraryStrideColumnVector, Dynamic, Fixed1, true, false, false, |d| (d.0, 1), |_d, s| (s.0, 1), |d, s| {
    ArbitraryStrideColumnVector::new(d.0, s.0)
});
lay!(UT, UpperTriangular, Dynamic, Dynamic, false, true, true, |d| (d.0, d.0), |_d, _s| (0, 0), |d, _s| {
    UpperTriangular::new(d.0)
});

/// number of elements, None when it does not fit
#[inline(always)]
pub fn nelem<K: Lay>(d: D2) -> Option<usize> {
    if K::TRI {
        // n(n+1) must fit as well: the library computes it before halving
        match d.0.checked_add(1) {
            None => None,
            Some(e) => match d.0.checked_mul(e) {
                None => None,
                Some(x) => Some(x / 2),
            },
        }
    } else {
        d.0.checked_mul(d.1)
    }
}

/// one past the largest raw position, None when it does not fit (triangular: packed)
#[inline(always)]
pub fn extent<K: Lay>(d: D2, s: D2) -> Option<usize> {
    if K::TRI {
        return nelem::<K>(d);
    }
    if d.0 == 0 || d.1 == 0 {
        return Some(0);
    }
    let a = match (d.0 - 1).checked_mul(s.0) {
        None => return None,
        Some(a) => a,
    };
    let b = match (d.1 - 1).checked_mul(s.1) {
        None => return None,
        Some(b) => b,
    };
    match a.checked_add(b) {
        None => None,
        Some(c) => c.checked_add(1),
    }
}

/// the same, assumed to fit
#[inline(always)]
pub fn count<K: Lay>(d: D2) -> usize {
    if K::TRI {
        mul(d.0, add(d.0, 1)) / 2
    } else {
        mul(d.0, d.1)
    }
}
#[inline(always)]
pub fn span<K: Lay>(d: D2, s: D2) -> usize {
    if K::TRI {
        return count::<K>(d);
    }
    if d.0 == 0 || d.1 == 0 {
        return 0;
    }
    add(add(mul(d.0 - 1, s.0), mul(d.1 - 1, s.1)), 1)
}

/// free dimension and stride of the layout's shape
#[inline(always)]
pub fn any_dim<K: Lay>() -> (D2, D2) {
    let d = K::shape((any(), any()));
    let s = K::stride(d, (any(), any()));
    (d, s)
}

/// fixed larger dimensions, one path each: beyond small loop counts, unrolled bodies and their remainders
#[inline(always)]
pub fn wide<K: Lay>() -> D2 {
    const Q: [D2; 7] = [(5, 7), (7, 5), (4, 9), (9, 4), (2, 17), (17, 2), (8, 8)];
    const T: [D2; 12] = [
        (5, 7),
        (7, 5),
        (4, 9),
        (9, 4),
        (2, 17),
        (17, 2),
        (8, 8),
        (3, 33),
        (33, 3),
        (16, 16),
        (5, 65),
        (65, 5),
    ];
    if DEEP {
        K::shape(T[pick(0, 11)])
    } else {
        K::shape(Q[pick(0, 6)])
    }
}
/// every dimension up to a limit, and a few much larger ones, over strides that keep the elements apart and a
/// container of the exact size: one path each, so that loops of any kind are followed to their end
#[inline(always)]
pub fn many<K: Lay, T: Sc>() -> Data<K, T> {
    let d = if pick(0, 1) == 0 {
        (pick(0, lim(9, 17)), if K::TRI { 0 } else { pick(0, lim(9, 17)) })
    } else if K::TRI {
        const U: [D2; 3] = [(17, 0), (33, 0), (50, 0)];
        U[pick(0, 2)]
    } else {
        const B: [D2; 10] = [
            (3, 430),
            (430, 3),
            (34, 35),
            (65, 17),
            (17, 66),
            (1, 1100),
            (1100, 1),
            (129, 9),
            (65, 67),
            (4, 1030),
        ];
        B[pick(0, lim(7, 9))]
    };
    spaced(d)
}

/// sizes of a product: every triple up to a limit, and some larger ones
#[inline(always)]
pub fn triples() -> (usize, usize, usize) {
    const B: [(usize, usize, usize); 14] = [
        (17, 3, 2),
        (2, 17, 3),
        (3, 2, 17),
        (8, 8, 8),
        (9, 5, 7),
        (5, 9, 4),
        (4, 33, 1),
        (1, 70, 2),
        (70, 1, 2),
        (2, 1, 70),
        (1, 8, 70),
        (16, 16, 3),
        (3, 16, 17),
        (12, 12, 12),
    ];
    match pick(0, 1) {
        0 => (pick(0, lim(3, 5)), pick(0, lim(3, 5)), pick(0, lim(3, 5))),
        _ => B[pick(0, 13)],
    }
}
/// fixed strides that keep the elements apart, exact container
#[inline(always)]
pub fn spaced<K: Lay, T: Sc>(d: D2) -> Data<K, T> {
    let d = K::shape(d);
    let s = if K::BYROW { (2 * d.1 + 1, 2) } else { (3, 3 * d.0 + 2) };
    let s = if d.1 == 1 && K::BYROW { (2, 1) } else { s };
    Data::tight(d, K::stride(d, s))
}

/// case distinction (for the solver's benefit): below, equal, above
#[inline(always)]
pub fn cases(a: usize, b: usize) {
    match pick(0, 2) {
        0 => assume(a < b),
        1 => assume(a == b),
        _ => assume(a > b),
    }
}

/// an index pair inside the matrix (on or above the diagonal for triangular)
#[inline(always)]
pub fn any_pos<K: Lay>(d: D2) -> D2 {
    let i = any();
    let j = any();
    assume(i < d.0);
    assume(j < d.1);
    if K::TRI {
        assume(i <= j);
    }
    (i, j)
}

/// assume `v` is Some and return it
#[inline(always)]
pub fn some(v: Option<usize>) -> usize {
    match v {
        Some(x) => x,
        None => {
            assume(false);
            0
        }
    }
}

/// raw position of (i, j): dimension and stride only
#[inline(always)]
pub fn raw<K: Lay>(d: D2, s: D2, i: usize, j: usize) -> usize {
    if K::TRI {
        let p = d.0 - 1 - i;
        p * (p + 1) / 2 + (j - i)
    } else {
        i * s.0 + j * s.1
    }
}

/// documented 1D index of (i, j)
#[inline(always)]
pub fn one<K: Lay>(d: D2, i: usize, j: usize) -> usize {
    if K::TRI {
        raw::<K>(d, (0, 0), i, j)
    } else if K::BYROW {
        i * d.1 + j
    } else {
        j * d.0 + i
    }
}

/// documented position of a 1D index (not triangular)
#[inline(always)]
pub fn two<K: Lay>(d: D2, idx: usize) -> D2 {
    if K::BYROW {
        (idx / d.1, idx % d.1)
    } else {
        (idx % d.0, idx / d.0)
    }
}

/// the layout does not place two elements at one raw position
#[inline(always)]
pub fn assume_distinct<K: Lay>(d: D2, s: D2) {
    if !K::DENSE {
        // one stride spans a full line of the other
        let a = s.1 >= 1 && s.0 > mul(if d.1 == 0 { 0 } else { d.1 - 1 }, s.1);
        let b = s.0 >= 1 && s.1 > mul(if d.0 == 0 { 0 } else { d.0 - 1 }, s.0);
        assume(a | b);
    }
}

pub type Sl<K, T> = SliceMatrix<'static, T, <K as Lay>::L, <K as Lay>::RS, <K as Lay>::CS>;
pub type SlM<K, T> = SliceMatrixMut<'static, T, <K as Lay>::L, <K as Lay>::RS, <K as Lay>::CS>;

/// symbolic buffer together with a layout that fits into it
pub struct Data<K: Lay, T: Sc> {
    pub p: *mut T,
    pub len: usize,
    pub d: D2,
    pub s: D2,
    pub n: usize,
    k: std::marker::PhantomData<K>,
}
impl<K: Lay, T: Sc> Clone for Data<K, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K: Lay, T: Sc> Copy for Data<K, T> {}

impl<K: Lay, T: Sc> Data<K, T> {
    /// given dimension and stride, any container that is large enough
    #[inline(always)]
    pub fn over(d: D2, s: D2) -> Self {
        let n = count::<K>(d);
        let e = span::<K>(d, s);
        let len = any();
        assume(len >= e);
        assume(len >= n);
        Data { p: T::buf(len), len, d, s, n, k: std::marker::PhantomData }
    }
    /// smallest container
    #[inline(always)]
    pub fn tight(d: D2, s: D2) -> Self {
        let n = count::<K>(d);
        let e = span::<K>(d, s);
        let len = if e >= n { e } else { n };
        Data { p: T::buf(len), len, d, s, n, k: std::marker::PhantomData }
    }
    /// any dimension, stride and container
    #[inline(always)]
    pub fn any() -> Self {
        let (d, s) = any_dim::<K>();
        Self::over(d, s)
    }
    #[inline(always)]
    pub fn ro(&self) -> Sl<K, T> {
        let sl = unsafe { std::slice::from_raw_parts(self.p, self.len) };
        Sl::<K, T>::from_data(SliceContainer::new(sl), K::mk(self.d, self.s))
    }
    #[inline(always)]
    pub fn rw(&self) -> SlM<K, T> {
        let sl = unsafe { std::slice::from_raw_parts_mut(self.p, self.len) };
        SlM::<K, T>::from_data(SliceContainerMut::new(sl), K::mk(self.d, self.s))
    }
    /// pointer to element (i, j), from dimension and stride
    #[inline(always)]
    pub fn at(&self, i: usize, j: usize) -> *mut T {
        unsafe { self.p.add(raw::<K>(self.d, self.s, i, j)) }
    }
    /// current content of element (i, j)
    #[inline(always)]
    pub fn now(&self, i: usize, j: usize) -> T {
        unsafe { *self.at(i, j) }
    }
    /// initial content of element (i, j)
    #[inline(always)]
    pub fn old(&self, i: usize, j: usize) -> T {
        T::init(self.at(i, j))
    }
    #[inline(always)]
    pub fn cell(&self, r: usize) -> T {
        unsafe { *self.p.add(r) }
    }
    #[inline(always)]
    pub fn cell_old(&self, r: usize) -> T {
        T::init(unsafe { self.p.add(r) })
    }
    /// any element position
    #[inline(always)]
    pub fn pos(&self) -> D2 {
        any_pos::<K>(self.d)
    }
    #[inline(always)]
    pub fn one(&self, i: usize, j: usize) -> usize {
        one::<K>(self.d, i, j)
    }
    #[inline(always)]
    pub fn raw(&self, i: usize, j: usize) -> usize {
        raw::<K>(self.d, self.s, i, j)
    }
    /// one raw cell, chosen freely, other than `r`, is unchanged
    #[inline(always)]
    pub fn others(&self, r: usize, m: &'static str) {
        let q = any();
        assume(q < self.len);
        assume(q != r);
        self.cell(q).same(self.cell_old(q), m);
    }
    /// one raw cell, chosen freely, is unchanged
    #[inline(always)]
    pub fn frame(&self, m: &'static str) {
        let q = any();
        assume(q < self.len);
        self.cell(q).same(self.cell_old(q), m);
    }
}

/// the read accessors succeed exactly for in-range indices
#[inline(always)]
pub fn reads<M: RandomAccess>(m: &M, d: D2, n: usize, tri: bool) {
    match pick(0, 3) {
        0 => {
            let (i, j) = (any(), any());
            assume(i < d.0);
            assume(j < d.1);
            assume(!tri || i <= j);
            m.get(i, j);
        }
        1 => {
            let (i, j) = (any(), any());
            assume(i >= d.0 || j >= d.1);
            must_panic("reading outside the matrix is rejected", || {
                m.get(i, j);
            });
        }
        2 => {
            let i = any();
            assume(i < n);
            m.get1d(i);
        }
        _ => {
            let i = any();
            assume(i >= n);
            must_panic("reading by a 1D index beyond the matrix is rejected", || {
                m.get1d(i);
            });
        }
    }
    done();
}

/// the write accessors succeed exactly for in-range indices
#[inline(always)]
pub fn writes<M: RandomAccessMut>(m: &mut M, d: D2, n: usize, tri: bool) {
    match pick(0, 3) {
        0 => {
            let (i, j) = (any(), any());
            assume(i < d.0);
            assume(j < d.1);
            assume(!tri || i <= j);
            m.get_mut(i, j);
        }
        1 => {
            let (i, j) = (any(), any());
            assume(i >= d.0 || j >= d.1);
            must_panic("writing outside the matrix is rejected", || {
                m.get_mut(i, j);
            });
        }
        2 => {
            let i = any();
            assume(i < n);
            m.get1d_mut(i);
        }
        _ => {
            let i = any();
            assume(i >= n);
            must_panic("writing by a 1D index beyond the matrix is rejected", || {
                m.get1d_mut(i);
            });
        }
    }
    done();
}
