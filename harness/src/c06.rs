//! C06: new matrices and vectors have the requested shape and are all zero; dimensions that do not fit are rejected.
use crate::api::*;
use crate::kit::*;

/// any element is zero
#[inline(always)]
fn zero<K: Lay, T: Sc, D: DataContainer<Item = T>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
    m: &GenericBaseMatrix<T, L, D, RS, CS>,
    d: D2,
) {
    check(m.dim() == d, "the dimension is the requested one");
    check(m.layout().number_of_elements() == count::<K>(d), "the number of elements is the requested one");
    match pick(0, 2) {
        0 => {
            let (i, j) = any_pos::<K>(d);
            m.get(i, j).same(T::zero(), "every element is zero (2D)");
        }
        1 => {
            let i = any();
            assume(i < count::<K>(d));
            m.get1d(i).same(T::zero(), "every element is zero (1D)");
        }
        _ => {
            let i = any();
            assume(i < count::<K>(d));
            m.get_slice(i, i + 1)[0].same(T::zero(), "all of the storage is zero");
        }
    }
    done();
}
fn small<K: Lay>(d: D2) -> usize {
    let n = count::<K>(d);
    assume(n < 1 << 58);
    n
}
fn mat_rm<T: Sc>() {
    let d = (any(), any());
    small::<RM>(d);
    zero::<RM, T, _, _, _, _>(&MatrixD::<T, RowMajor>::zeros_from_dim(d.0, d.1), d);
}
fn mat_cm<T: Sc>() {
    let d = (any(), any());
    small::<CM>(d);
    zero::<CM, T, _, _, _, _>(&MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), d);
}
fn mat_ut<T: Sc>() {
    let n = any();
    assume(n < 1 << 28);
    zero::<UT, T, _, _, _, _>(&UpperTriangularMatrix::<T>::zeros_from_dim(n, n), (n, n));
}
fn rv_len<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let v = RowVectorD::<T>::zeros_from_length(n);
    check(v.length() == n, "the length is the requested one");
    zero::<RV, T, _, _, _, _>(&v, (1, n));
}
fn cv_len<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let v = ColumnVectorD::<T>::zeros_from_length(n);
    check(v.length() == n, "the length is the requested one");
    zero::<CV, T, _, _, _, _>(&v, (n, 1));
}
fn rv_dim<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let v = RowVectorD::<T>::zeros_from_dim(1, n);
    check(v.length() == n, "the length is the requested one");
    zero::<RV, T, _, _, _, _>(&v, (1, n));
}
fn cv_dim<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let v = ColumnVectorD::<T>::zeros_from_dim(n, 1);
    check(v.length() == n, "the length is the requested one");
    zero::<CV, T, _, _, _, _>(&v, (n, 1));
}
/// dimensions that do not fit the kind are rejected
fn rej_rv() {
    let (r, c) = (any(), any());
    assume(r != 1);
    if pick(0, 1) == 0 {
        must_panic("a row vector with other than one row is rejected", || {
            RowVectorD::<f64>::zeros_from_dim(r, c);
        });
    } else {
        must_panic("a row vector layout with other than one row is rejected", || {
            RowVector::from_dimension((r, c));
        });
    }
}
fn rej_cv() {
    let (r, c) = (any(), any());
    assume(c != 1);
    if pick(0, 1) == 0 {
        must_panic("a column vector with other than one column is rejected", || {
            ColumnVectorD::<f64>::zeros_from_dim(r, c);
        });
    } else {
        must_panic("a column vector layout with other than one column is rejected", || {
            ColumnVector::from_dimension((r, c));
        });
    }
}
fn rej_ut() {
    let (r, c) = (any(), any());
    assume(r != c);
    if pick(0, 1) == 0 {
        must_panic("a triangular matrix that is not square is rejected", || {
            UpperTriangularMatrix::<f64>::zeros_from_dim(r, c);
        });
    } else {
        must_panic("a triangular layout that is not square is rejected", || {
            UpperTriangular::from_dimension((r, c));
        });
    }
}
/// layouts from a dimension or a length
fn lay_dim() {
    let (r, c) = (any(), any());
    match pick(0, 6) {
        0 => {
            let l = RowMajor::from_dimension((r, c));
            check(l.dim() == (r, c), "a row-major layout has the requested dimension");
        }
        1 => {
            let l = ColumnMajor::from_dimension((r, c));
            check(l.dim() == (r, c), "a column-major layout has the requested dimension");
        }
        2 => {
            let l = UpperTriangular::from_dimension((r, r));
            check(l.dim() == (r, r), "a triangular layout has the requested dimension");
        }
        3 => {
            let l = RowVector::from_dimension((1, c));
            check(l.dim() == (1, c), "a row vector layout has the requested dimension");
            check(l.number_of_elements() == c, "a row vector layout has the requested length");
        }
        4 => {
            let l = ColumnVector::from_dimension((r, 1));
            check(l.dim() == (r, 1), "a column vector layout has the requested dimension");
            check(l.number_of_elements() == r, "a column vector layout has the requested length");
        }
        5 => {
            let l = RowVector::from_length(c);
            check(l.dim() == (1, c), "a row vector layout has the requested length");
            check(l.number_of_elements() == c, "a row vector layout has the requested length");
        }
        _ => {
            let l = ColumnVector::from_length(r);
            check(l.dim() == (r, 1), "a column vector layout has the requested length");
            check(l.number_of_elements() == r, "a column vector layout has the requested length");
        }
    }
    done();
}
type Fv<T, L, RS, CS, const N: usize> = GenericBaseMatrixMut<T, L, ArrayContainer<T, N>, RS, CS>;
fn fix<T: Sc>() {
    match pick(0, 15) {
        0 => zero::<RM, T, _, _, _, _>(&Matrix22::<T, RowMajor>::zeros_from_dim(), (2, 2)),
        1 => zero::<RM, T, _, _, _, _>(&Matrix23::<T, RowMajor>::zeros_from_dim(), (2, 3)),
        2 => zero::<RM, T, _, _, _, _>(&Matrix32::<T, RowMajor>::zeros_from_dim(), (3, 2)),
        3 => zero::<RM, T, _, _, _, _>(&Matrix33::<T, RowMajor>::zeros_from_dim(), (3, 3)),
        4 => zero::<CM, T, _, _, _, _>(&Matrix22::<T, ColumnMajor>::zeros_from_dim(), (2, 2)),
        5 => zero::<CM, T, _, _, _, _>(&Matrix23::<T, ColumnMajor>::zeros_from_dim(), (2, 3)),
        6 => zero::<CM, T, _, _, _, _>(&Matrix32::<T, ColumnMajor>::zeros_from_dim(), (3, 2)),
        7 => zero::<CM, T, _, _, _, _>(&Matrix33::<T, ColumnMajor>::zeros_from_dim(), (3, 3)),
        8 => zero::<RM, T, _, _, _, _>(&Fv::<T, RowMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), (1, 2)),
        9 => zero::<RM, T, _, _, _, _>(&Fv::<T, RowMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), (1, 3)),
        10 => zero::<CM, T, _, _, _, _>(&Fv::<T, ColumnMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), (1, 2)),
        11 => zero::<CM, T, _, _, _, _>(&Fv::<T, ColumnMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), (1, 3)),
        12 => zero::<CV, T, _, _, _, _>(&Fv::<T, ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), (2, 1)),
        13 => zero::<CV, T, _, _, _, _>(&Fv::<T, ColumnVector, Fixed3, Fixed1, 3>::zeros_from_length(), (3, 1)),
        14 => zero::<RV, T, _, _, _, _>(&Fv::<T, RowVector, Fixed1, Fixed2, 2>::zeros_from_length(), (1, 2)),
        _ => zero::<RV, T, _, _, _, _>(&Fv::<T, RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), (1, 3)),
    }
}
/// construction macros
fn mac_mat<T: Sc>() {
    let d = (any(), any());
    small::<RM>(d);
    match pick(0, 2) {
        0 => zero::<RM, T, _, _, _, _>(&mat![T, d], d),
        1 => zero::<RM, T, _, _, _, _>(&mat![T, d, RowMajor], d),
        _ => zero::<CM, T, _, _, _, _>(&mat![T, d, ColumnMajor], d),
    }
}
fn mac_vec<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    match pick(0, 2) {
        0 => {
            let v = vector![T, n];
            check(v.length() == n, "the length is the requested one");
            zero::<CV, T, _, _, _, _>(&v, (n, 1))
        }
        1 => {
            let v = vector![T, n, ColumnVector];
            check(v.length() == n, "the length is the requested one");
            zero::<CV, T, _, _, _, _>(&v, (n, 1))
        }
        _ => {
            let v = vector![T, n, RowVector];
            check(v.length() == n, "the length is the requested one");
            zero::<RV, T, _, _, _, _>(&v, (1, n))
        }
    }
}
/// containers
fn cont<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let i = any();
    if pick(0, 1) == 0 {
        let v = VectorContainer::<T>::new(n);
        check(v.number_of_elements() == n, "a container has the requested number of elements");
        assume(i < n);
        unsafe { v.get_unchecked(i) }.same(T::zero(), "a new container is all zero");
    } else {
        let v = ArrayContainer::<T, 5>::new();
        check(v.number_of_elements() == 5, "a container has the requested number of elements");
        assume(i < 5);
        unsafe { v.get_unchecked(i) }.same(T::zero(), "a new container is all zero");
    }
    done();
}

harnesses! {
    h_c06_rm_f64 = mat_rm::<f64>();
    h_c06_rm_f32 = mat_rm::<f32>();
    h_c06_rm_c64 = mat_rm::<c64>();
    h_c06_rm_c32 = mat_rm::<c32>();
    h_c06_cm_f64 = mat_cm::<f64>();
    h_c06_cm_f32 = mat_cm::<f32>();
    h_c06_cm_c64 = mat_cm::<c64>();
    h_c06_cm_c32 = mat_cm::<c32>();
    h_c06_ut_f64 = mat_ut::<f64>();
    h_c06_ut_f32 = mat_ut::<f32>();
    h_c06_ut_c64 = mat_ut::<c64>();
    h_c06_ut_c32 = mat_ut::<c32>();
    h_c06_rvl_f64 = rv_len::<f64>();
    h_c06_rvl_c64 = rv_len::<c64>();
    h_c06_rvl_f32 = rv_len::<f32>();
    h_c06_rvl_c32 = rv_len::<c32>();
    h_c06_cvl_f64 = cv_len::<f64>();
    h_c06_cvl_c64 = cv_len::<c64>();
    h_c06_cvl_f32 = cv_len::<f32>();
    h_c06_cvl_c32 = cv_len::<c32>();
    h_c06_rvd_f64 = rv_dim::<f64>();
    h_c06_rvd_c64 = rv_dim::<c64>();
    h_c06_cvd_f64 = cv_dim::<f64>();
    h_c06_cvd_c64 = cv_dim::<c64>();
    h_c06_rej_rv = rej_rv();
    h_c06_rej_cv = rej_cv();
    h_c06_rej_ut = rej_ut();
    h_c06_lay = lay_dim();
    h_c06_fix_f64 = fix::<f64>();
    h_c06_fix_f32 = fix::<f32>();
    h_c06_fix_c64 = fix::<c64>();
    h_c06_fix_c32 = fix::<c32>();
    h_c06_mat_f64 = mac_mat::<f64>();
    h_c06_mat_f32 = mac_mat::<f32>();
    h_c06_mat_c64 = mac_mat::<c64>();
    h_c06_mat_c32 = mac_mat::<c32>();
    h_c06_vec_f64 = mac_vec::<f64>();
    h_c06_vec_f32 = mac_vec::<f32>();
    h_c06_vec_c64 = mac_vec::<c64>();
    h_c06_vec_c32 = mac_vec::<c32>();
    h_c06_cont_f64 = cont::<f64>();
    h_c06_cont_f32 = cont::<f32>();
    h_c06_cont_c64 = cont::<c64>();
    h_c06_cont_c32 = cont::<c32>();
}
