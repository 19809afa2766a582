//! C05: a written element is read back everywhere and nothing else changes.
use crate::api::*;
use crate::kit::*;

/// write `v` at (i, j), one of the four ways
#[inline(always)]
fn put<K: Lay, T: Sc>(x: &Data<K, T>, m: &mut SlM<K, T>, i: usize, j: usize, v: T) {
    match pick(0, 3) {
        0 => *m.get_mut(i, j) = v,
        1 => *m.get1d_mut(x.one(i, j)) = v,
        2 => unsafe { *m.get_unchecked_mut(i, j) = v },
        _ => unsafe { *m.get1d_unchecked_mut(x.one(i, j)) = v },
    }
}

/// after a write, every way of reading the element gives the new value
fn back<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (i, j) = x.pos();
    let v = T::fresh();
    let mut m = x.rw();
    put(&x, &mut m, i, j, v);
    let r = x.raw(i, j);
    match pick(0, 12) {
        0 => m.get(i, j).same(v, "2D read returns the written value"),
        1 => m.get1d(x.one(i, j)).same(v, "1D read returns the written value"),
        2 => (*m.get_mut(i, j)).same(v, "2D mutable reference sees the written value"),
        3 => (*m.get1d_mut(x.one(i, j))).same(v, "1D mutable reference sees the written value"),
        4 => m.get_slice(r, r + 1)[0].same(v, "raw slice shows the written value"),
        5 => m.get_slice_mut(r, r + 1)[0].same(v, "mutable raw slice shows the written value"),
        6 => unsafe { *m.get_pointer().add(r) }.same(v, "the pointer leads to the written value"),
        7 => unsafe { *m.get_pointer_mut().add(r) }.same(v, "the mutable pointer leads to the written value"),
        8 => Matrix::from_ref(&m).get(i, j).same(v, "2D read through a borrow returns the written value"),
        9 => Matrix::from_ref(&m).get1d(x.one(i, j)).same(v, "1D read through a borrow returns the written value"),
        10 => Matrix::new(MatrixRefMut::new(&mut m))
            .get(i, j)
            .same(v, "2D read through a mutable borrow returns the written value"),
        11 => unsafe { m.get_unchecked(i, j) }.same(v, "unchecked 2D read returns the written value"),
        _ => unsafe { m.get1d_unchecked(x.one(i, j)) }.same(v, "unchecked 1D read returns the written value"),
    }
    done();
}

/// a write changes one raw cell only, and reads change nothing
fn only<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (i, j) = x.pos();
    let v = T::fresh();
    let mut m = x.rw();
    put(&x, &mut m, i, j, v);
    x.cell(x.raw(i, j)).same(v, "the element's cell holds the written value");
    x.others(x.raw(i, j), "no other cell changes");
    let (a, b) = x.pos();
    assume(x.raw(a, b) != x.raw(i, j));
    if pick(0, 1) == 0 {
        m.get(a, b).same(x.old(a, b), "another element keeps its value (2D)");
    } else {
        m.get1d(x.one(a, b)).same(x.old(a, b), "another element keeps its value (1D)");
    }
    done();
}

/// two writes
fn two<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (i, j) = x.pos();
    let (a, b) = x.pos();
    let (v, w) = (T::fresh(), T::fresh());
    let mut m = x.rw();
    *m.get_mut(i, j) = v;
    *m.get1d_mut(x.one(a, b)) = w;
    m.get(a, b).same(w, "the last write wins");
    if x.raw(i, j) != x.raw(a, b) {
        m.get1d(x.one(i, j)).same(v, "the first write survives the second");
    }
    done();
}

/// writes through raw slice, pointer and mutable borrow reach the element
fn via<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (i, j) = x.pos();
    let v = T::fresh();
    let mut m = x.rw();
    let r = x.raw(i, j);
    match pick(0, 3) {
        0 => m.get_slice_mut(r, r + 1)[0] = v,
        1 => unsafe { *m.get_pointer_mut().add(r) = v },
        2 => *Matrix::new(MatrixRefMut::new(&mut m)).get_mut(i, j) = v,
        _ => *Matrix::new(MatrixRefMut::new(&mut m)).get1d_mut(x.one(i, j)) = v,
    }
    m.get(i, j).same(v, "a write through slice, pointer or borrow is read back");
    x.others(r, "no other cell changes");
    done();
}

/// owned and fixed-size matrices: one element written, any other one read
macro_rules! own {
    ($m:expr, $K:ty, $T:ty, $d:expr) => {{
        let mut m = $m;
        let d = $d;
        let (i, j) = any_pos::<$K>(d);
        let (a, b) = any_pos::<$K>(d);
        let v = <$T>::fresh();
        if pick(0, 1) == 0 {
            *m.get_mut(i, j) = v;
        } else {
            *m.get1d_mut(one::<$K>(d, i, j)) = v;
        }
        let got = match pick(0, 1) {
            0 => m.get(a, b),
            _ => m.get1d(one::<$K>(d, a, b)),
        };
        if a == i && b == j {
            got.same(v, "the written value is read back");
        } else {
            got.same(num0::<$T>(), "any other element is still zero");
        }
        done();
    }};
}
#[inline(always)]
fn num0<T: Sc>() -> T {
    T::zero()
}
fn dim<K: Lay>() -> D2 {
    let d = K::shape((any(), any()));
    let n = count::<K>(d);
    assume(n < 1 << 58);
    d
}
fn own_mat<K: Lay<L = RowMajor>, T: Sc>() {
    let d = dim::<K>();
    own!(MatrixD::<T, RowMajor>::zeros_from_dim(d.0, d.1), K, T, d)
}
fn own_cm<T: Sc>() {
    let d = dim::<CM>();
    own!(MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), CM, T, d)
}
fn own_ut<T: Sc>() {
    let n = any();
    assume(n < 1 << 28);
    own!(UpperTriangularMatrix::<T>::zeros_from_dim(n, n), UT, T, (n, n))
}
fn own_rv<T: Sc>() {
    let d = dim::<RV>();
    own!(RowVectorD::<T>::zeros_from_length(d.1), RV, T, d)
}
fn own_cv<T: Sc>() {
    let d = dim::<CV>();
    own!(ColumnVectorD::<T>::zeros_from_length(d.0), CV, T, d)
}
type Fv<T, L, RS, CS, const N: usize> = GenericBaseMatrixMut<T, L, ArrayContainer<T, N>, RS, CS>;
fn fix<T: Sc>() {
    match pick(0, 7) {
        0 => own!(Matrix22::<T, RowMajor>::zeros_from_dim(), RM, T, (2, 2)),
        1 => own!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), CM, T, (2, 3)),
        2 => own!(Matrix32::<T, RowMajor>::zeros_from_dim(), RM, T, (3, 2)),
        3 => own!(Matrix33::<T, ColumnMajor>::zeros_from_dim(), CM, T, (3, 3)),
        4 => own!(Fv::<T, RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), RV, T, (1, 3)),
        5 => own!(Fv::<T, ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), CV, T, (2, 1)),
        6 => own!(Fv::<T, RowMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), RM, T, (1, 2)),
        _ => own!(Matrix33::<T, RowMajor>::zeros_from_dim(), RM, T, (3, 3)),
    }
}

harnesses! {
    h_c05_back_rm = back::<RM, f64>();
    h_c05_back_cm = back::<CM, f64>();
    h_c05_back_rv = back::<RV, f64>();
    h_c05_back_cv = back::<CV, f64>();
    h_c05_back_arm = back::<ARM, f64>();
    h_c05_back_acm = back::<ACM, f64>();
    h_c05_back_arv = back::<ARV, f64>();
    h_c05_back_acv = back::<ACV, f64>();
    h_c05_back_ut = back::<UT, f64>();
    h_c05_back_rm_c64 = back::<RM, c64>();
    h_c05_back_acm_c32 = back::<ACM, c32>();
    h_c05_back_ut_f32 = back::<UT, f32>();
    h_c05_only_rm = only::<RM, f64>();
    h_c05_only_cm = only::<CM, f32>();
    h_c05_only_rv = only::<RV, f64>();
    h_c05_only_cv = only::<CV, c64>();
    h_c05_only_arm = only::<ARM, f64>();
    h_c05_only_acm = only::<ACM, f64>();
    h_c05_only_arv = only::<ARV, c32>();
    h_c05_only_acv = only::<ACV, f64>();
    h_c05_only_ut = only::<UT, f64>();
    h_c05_only_arm_c64 = only::<ARM, c64>();
    h_c05_two_rm = two::<RM, f64>();
    h_c05_two_cm = two::<CM, f64>();
    h_c05_two_rv = two::<RV, f64>();
    h_c05_two_cv = two::<CV, f64>();
    h_c05_two_arm = two::<ARM, f64>();
    h_c05_two_acm = two::<ACM, f64>();
    h_c05_two_arv = two::<ARV, f64>();
    h_c05_two_acv = two::<ACV, f64>();
    h_c05_two_ut = two::<UT, f64>();
    h_c05_via_rm = via::<RM, f64>();
    h_c05_via_cm = via::<CM, f64>();
    h_c05_via_rv = via::<RV, f64>();
    h_c05_via_cv = via::<CV, f64>();
    h_c05_via_arm = via::<ARM, f64>();
    h_c05_via_acm = via::<ACM, f64>();
    h_c05_via_arv = via::<ARV, f64>();
    h_c05_via_acv = via::<ACV, f64>();
    h_c05_via_ut = via::<UT, f64>();
    h_c05_own_rm = own_mat::<RM, f64>();
    h_c05_own_cm = own_cm::<c64>();
    h_c05_own_ut = own_ut::<f64>();
    h_c05_own_rv = own_rv::<f32>();
    h_c05_own_cv = own_cv::<f64>();
    h_c05_fix = fix::<f64>();
    h_c05_fix_c32 = fix::<c32>();
}
