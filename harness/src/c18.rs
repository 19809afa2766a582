//! C18: length, dimension and number of elements of a vector agree; a 1D index is the position along the vector.
use crate::api::*;
use crate::kit::*;
use householder::base_matrix::BaseMatrix;
use householder::matrix_multiply::Dot;

/// length, dimension, count and numbering of the vector `e` of length `n`; `$row`: row vector
macro_rules! shape {
    ($e:expr, $n:expr, $row:expr) => {{
        let e = $e;
        let n: usize = $n;
        match pick(0, 3) {
            0 => check(e.length() == n, "the length is the number of elements"),
            1 => check(e.dim() == if $row { (1, n) } else { (n, 1) }, "the dimension is (1, length) or (length, 1)"),
            2 => check(e.layout().number_of_elements() == n, "a vector has as many elements as its length"),
            _ => numbering(e.layout(), n, $row),
        }
        done();
    }};
}
#[inline(always)]
fn numbering<L: LayoutType>(l: &L, n: usize, row: bool) {
    let k = any();
    assume(k < n);
    let p = if row { (0, k) } else { (k, 0) };
    check(l.convert_1d_2d(k) == p, "1D index k is element (0, k) or (k, 0)");
    check(l.convert_2d_1d(p.0, p.1) == k, "element (0, k) or (k, 0) has 1D index k");
}
/// element k of the vector `e` by all read accessors; indices beyond the vector are refused
macro_rules! elems {
    ($e:expr, $n:expr, $row:expr, |$k:ident| $want:expr) => {{
        let e = $e;
        let n: usize = $n;
        let $k = any();
        match pick(0, 5) {
            0 => {
                assume($k < n);
                e.get1d($k).same($want, "1D index k addresses the k-th element");
            }
            1 => {
                assume($k < n);
                if $row { e.get(0, $k) } else { e.get($k, 0) }.same($want, "element (0, k) or (k, 0) is the k-th element");
            }
            2 => {
                assume($k < n);
                unsafe { e.get1d_unchecked($k) }.same($want, "1D index k addresses the k-th element (unchecked)");
            }
            3 => {
                assume($k >= n);
                must_panic("a 1D index beyond the vector is refused", || {
                    e.get1d($k);
                });
            }
            4 => {
                assume($k >= n);
                must_panic("an element beyond the vector is refused", || {
                    if $row {
                        e.get(0, $k);
                    } else {
                        e.get($k, 0);
                    }
                });
            }
            _ => {
                let q = any();
                assume(q >= 1);
                must_panic("a second row or column of a vector is refused", || {
                    if $row {
                        e.get(q, $k);
                    } else {
                        e.get($k, q);
                    }
                });
            }
        }
        done();
    }};
}
macro_rules! vecs {
    ($mod:ident, $K:ty, $G:ty, $row:expr) => {
        mod $mod {
            use super::*;
            type K = $K;
            type G = $G;
            #[inline(always)]
            fn len(d: D2) -> usize {
                if $row {
                    d.1
                } else {
                    d.0
                }
            }
            #[inline(always)]
            fn at(k: usize) -> D2 {
                if $row {
                    (0, k)
                } else {
                    (k, 0)
                }
            }
            /// layouts by themselves
            pub fn layout() {
                let (d, s) = any_dim::<K>();
                let n = len(d);
                let l = K::mk(d, s);
                match pick(0, 3) {
                    0 => check(l.number_of_elements() == n, "a vector layout has as many elements as its length"),
                    1 => check(l.dim() == if $row { (1, n) } else { (n, 1) }, "a vector layout has dimension (1, length) or (length, 1)"),
                    2 => numbering(&l, n, $row),
                    _ => {
                        let b = l.index_layout();
                        check(b.number_of_elements() == n, "the index layout has as many elements as the vector");
                        check(b.dim() == if $row { (1, n) } else { (n, 1) }, "the index layout has the vector's dimension");
                        numbering(&b, n, $row);
                    }
                }
                done();
            }
            pub fn slice<T: Sc>() {
                let x = Data::<K, T>::any();
                match pick(0, 1) {
                    0 => shape!(x.ro(), len(x.d), $row),
                    _ => shape!(x.rw(), len(x.d), $row),
                }
            }
            pub fn read<T: Sc>() {
                let x = Data::<K, T>::any();
                match pick(0, 1) {
                    0 => elems!(x.ro(), len(x.d), $row, |k| x.now(at(k).0, at(k).1)),
                    _ => elems!(x.rw(), len(x.d), $row, |k| x.now(at(k).0, at(k).1)),
                }
            }
            /// a write by 1D index
            pub fn write<T: Sc>() {
                let x = Data::<K, T>::any();
                let n = len(x.d);
                let k = any();
                let v = T::fresh();
                let mut m = x.rw();
                match pick(0, 3) {
                    0 => {
                        assume(k < n);
                        *m.get1d_mut(k) = v;
                        x.now(at(k).0, at(k).1).same(v, "a write by 1D index k reaches the k-th element");
                        x.others(x.raw(at(k).0, at(k).1), "a write by 1D index changes nothing else");
                    }
                    1 => {
                        assume(k < n);
                        *m.get_mut(at(k).0, at(k).1) = v;
                        m.get1d(k).same(v, "a write to (0, k) or (k, 0) is the k-th element");
                        x.others(x.raw(at(k).0, at(k).1), "a write changes nothing else");
                    }
                    2 => {
                        assume(k >= n);
                        must_panic("writing by a 1D index beyond the vector is refused", || {
                            m.get1d_mut(k);
                        });
                    }
                    _ => {
                        let q = any();
                        assume(q >= 1);
                        must_panic("writing to a second row or column of a vector is refused", || {
                            if $row {
                                m.get_mut(q, k);
                            } else {
                                m.get_mut(k, q);
                            }
                        });
                    }
                }
                done();
            }
            /// expressions of vectors
            pub fn expr() {
                let x = Data::<K, f64>::any();
                let s = G::stride(x.d, (any(), any()));
                let y = Data::<G, f64>::over(x.d, s);
                let c = f64::fresh();
                let n = len(x.d);
                match pick(0, 8) {
                    0 => shape!(x.ro() + y.ro(), n, $row),
                    1 => {
                        let (a, b) = (x.ro(), y.ro());
                        shape!(&a + &b, n, $row)
                    }
                    2 => shape!(c * x.ro(), n, $row),
                    3 => {
                        let a = x.ro();
                        shape!(&a * c, n, $row)
                    }
                    4 => shape!((x.ro() + y.ro()) + x.ro(), n, $row),
                    5 => shape!(c * (x.ro() + y.ro()), n, $row),
                    6 => shape!(x.ro() * c + y.rw(), n, $row),
                    7 => {
                        let a = x.ro();
                        shape!(Matrix::from_ref(&a), n, $row)
                    }
                    _ => {
                        let mut a = x.rw();
                        shape!(Matrix::new(MatrixRefMut::new(&mut a)), n, $row)
                    }
                }
            }
            pub fn expr_read() {
                let x = Data::<K, f64>::any();
                let s = G::stride(x.d, (any(), any()));
                let y = Data::<G, f64>::over(x.d, s);
                let c = f64::fresh();
                let n = len(x.d);
                match pick(0, 3) {
                    0 => elems!(x.ro() + y.ro(), n, $row, |k| x.now(at(k).0, at(k).1) + y.now(at(k).0, at(k).1)),
                    1 => elems!(c * x.ro(), n, $row, |k| c * x.now(at(k).0, at(k).1)),
                    2 => elems!(c * x.ro() + y.ro(), n, $row, |k| c * x.now(at(k).0, at(k).1) + y.now(at(k).0, at(k).1)),
                    _ => {
                        let a = x.ro();
                        elems!(Matrix::from_ref(&a), n, $row, |k| x.now(at(k).0, at(k).1))
                    }
                }
            }
        }
    };
}
vecs!(rv, RV, ARV, true);
vecs!(cv, CV, ACV, false);
vecs!(arv, ARV, RV, true);
vecs!(acv, ACV, CV, false);

/// vectors that own their storage
fn owned<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    match pick(0, 6) {
        0 => shape!(RowVectorD::<T>::zeros_from_length(n), n, true),
        1 => shape!(ColumnVectorD::<T>::zeros_from_length(n), n, false),
        2 => shape!(RowVectorD::<T>::zeros_from_dim(1, n), n, true),
        3 => shape!(ColumnVectorD::<T>::zeros_from_dim(n, 1), n, false),
        4 => shape!(vector![T, n], n, false),
        5 => shape!(vector![T, n, RowVector], n, true),
        _ => shape!(vector![T, n, ColumnVector], n, false),
    }
}
/// an element of an owned vector is the one at its 1D index, 0..length
fn owned_elem<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let (p, v) = (any(), T::fresh());
    assume(p < n);
    if pick(0, 1) == 0 {
        let mut m = RowVectorD::<T>::zeros_from_length(n);
        if pick(0, 1) == 0 {
            *m.get1d_mut(p) = v;
        } else {
            *m.get_mut(0, p) = v;
        }
        elems!(m, n, true, |k| if k == p { v } else { T::zero() })
    } else {
        let mut m = ColumnVectorD::<T>::zeros_from_length(n);
        if pick(0, 1) == 0 {
            *m.get1d_mut(p) = v;
        } else {
            *m.get_mut(p, 0) = v;
        }
        elems!(m, n, false, |k| if k == p { v } else { T::zero() })
    }
}
type Fv<T, L, RS, CS, const N: usize> = GenericBaseMatrixMut<T, L, ArrayContainer<T, N>, RS, CS>;
/// fixed-size vectors
fn fixed<T: Sc>() {
    macro_rules! go {
        ($m:expr, $n:expr, $row:expr) => {{
            let mut m = $m;
            let n: usize = $n;
            let (p, v) = (below(n), T::fresh());
            match pick(0, 3) {
                0 => check(m.dim() == if $row { (1, n) } else { (n, 1) }, "the dimension is (1, length) or (length, 1)"),
                1 => check(m.layout().number_of_elements() == n, "a vector has as many elements as its length"),
                2 => numbering(m.layout(), n, $row),
                _ => {
                    *m.get1d_mut(p) = v;
                    elems!(m, n, $row, |k| if k == p { v } else { T::zero() })
                }
            }
            done();
        }};
    }
    match pick(0, 3) {
        0 => go!(Fv::<T, ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), 2, false),
        1 => go!(Fv::<T, ColumnVector, Fixed3, Fixed1, 3>::zeros_from_length(), 3, false),
        2 => go!(Fv::<T, RowVector, Fixed1, Fixed2, 2>::zeros_from_length(), 2, true),
        _ => go!(Fv::<T, RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), 3, true),
    }
}
/// the base matrix's own length, whatever the container
fn base<T: Sc>() {
    let (n, len) = (any(), any());
    assume(len >= n);
    let p = T::buf(len);
    let m = match pick(0, 2) {
        0 => BaseMatrix::<T, _, RowVector, Fixed1, Dynamic>::new(
            SliceContainer::new(unsafe { std::slice::from_raw_parts(p, len) }),
            RowVector::new(n),
        )
        .length(),
        1 => BaseMatrix::<T, _, RowVector, Fixed1, Dynamic>::new(
            SliceContainerMut::new(unsafe { std::slice::from_raw_parts_mut(p, len) }),
            RowVector::from_length(n),
        )
        .length(),
        _ => BaseMatrix::<T, _, RowVector, Fixed1, Dynamic>::new(
            SliceContainer::new(unsafe { std::slice::from_raw_parts(p, len) }),
            RowVector::from_dimension((1, n)),
        )
        .length(),
    };
    check(m == n, "a base matrix's length is its vector's length, not its container's");
    done();
}
fn base_owned() {
    let (n, len) = (any(), any());
    assume(len >= n);
    assume(len < 1 << 58);
    match pick(0, 1) {
        0 => {
            let m = BaseMatrix::<f64, _, RowVector, Fixed1, Dynamic>::new(VectorContainer::<f64>::new(len), RowVector::new(n));
            check(m.length() == n, "a base matrix's length is its vector's length, not its container's");
        }
        _ => {
            assume(n <= 6);
            let m = BaseMatrix::<c64, _, RowVector, Fixed1, Dynamic>::new(ArrayContainer::<c64, 6>::new(), RowVector::new(n));
            check(m.length() == n, "a base matrix's length is its vector's length, not its container's");
        }
    }
    done();
}
/// oversized containers
fn wide<T: Sc>() {
    let (n, len) = (any(), any());
    assume(len >= n);
    assume(len < 1 << 58);
    match pick(0, 3) {
        0 => {
            let m = RowVectorD::<T>::from_data(VectorContainer::new(len), RowVector::new(n));
            shape!(m, n, true)
        }
        1 => {
            let m = ColumnVectorD::<T>::from_data(VectorContainer::new(len), ColumnVector::new(n));
            shape!(m, n, false)
        }
        2 => {
            let m = RowVectorD::<T>::from_data(VectorContainer::new(len), RowVector::new(n));
            let k = any();
            assume(k >= n);
            must_panic("an index beyond the vector is refused although its container is larger", || {
                m.get1d(k);
            })
        }
        _ => {
            let m = ColumnVectorD::<T>::from_data(VectorContainer::new(len), ColumnVector::new(n));
            let k = any();
            assume(k >= n);
            must_panic("an index beyond the vector is refused although its container is larger", || {
                m.get1d(k);
            })
        }
    }
}
/// products give vectors of the right length
fn dots() {
    let (m, k) = (pick(0, lim(3, 5)), pick(0, lim(2, 4)));
    if pick(0, 1) == 0 {
        let (a, x) = (Data::<RM, f64>::over((m, k), (k, 1)), Data::<CV, f64>::over((k, 1), (1, 1)));
        let r = a.ro().dot(&x.ro());
        shape!(r, m, false)
    } else {
        let (x, a) = (Data::<RV, f64>::over((1, k), (1, 1)), Data::<CM, f64>::over((k, m), (1, k)));
        let r = x.ro().dot(&a.ro());
        shape!(r, m, true)
    }
}

harnesses! {
    h_c18_lay_rv = rv::layout();
    h_c18_lay_cv = cv::layout();
    h_c18_lay_arv = arv::layout();
    h_c18_lay_acv = acv::layout();
    h_c18_sl_rv = rv::slice::<f64>();
    h_c18_sl_cv = cv::slice::<f64>();
    h_c18_sl_arv = arv::slice::<f64>();
    h_c18_sl_acv = acv::slice::<f64>();
    h_c18_sl_rv_c32 = rv::slice::<c32>();
    h_c18_sl_acv_c64 = acv::slice::<c64>();
    h_c18_rd_rv = rv::read::<f64>();
    h_c18_rd_cv = cv::read::<f64>();
    h_c18_rd_arv = arv::read::<f64>();
    h_c18_rd_acv = acv::read::<f64>();
    h_c18_rd_cv_c64 = cv::read::<c64>();
    h_c18_rd_arv_f32 = arv::read::<f32>();
    h_c18_wr_rv = rv::write::<f64>();
    h_c18_wr_cv = cv::write::<f64>();
    h_c18_wr_arv = arv::write::<f64>();
    h_c18_wr_acv = acv::write::<f64>();
    h_c18_wr_rv_f32 = rv::write::<f32>();
    h_c18_wr_acv_c32 = acv::write::<c32>();
    h_c18_ex_rv = rv::expr();
    h_c18_ex_cv = cv::expr();
    h_c18_ex_arv = arv::expr();
    h_c18_ex_acv = acv::expr();
    h_c18_exr_rv = rv::expr_read();
    h_c18_exr_cv = cv::expr_read();
    h_c18_exr_arv = arv::expr_read();
    h_c18_exr_acv = acv::expr_read();
    h_c18_own_f64 = owned::<f64>();
    h_c18_own_f32 = owned::<f32>();
    h_c18_own_c64 = owned::<c64>();
    h_c18_own_c32 = owned::<c32>();
    h_c18_oe_f64 = owned_elem::<f64>();
    h_c18_oe_c32 = owned_elem::<c32>();
    h_c18_fix_f64 = fixed::<f64>();
    h_c18_fix_c64 = fixed::<c64>();
    h_c18_base_f64 = base::<f64>();
    h_c18_base_c32 = base::<c32>();
    h_c18_base_own = base_owned();
    h_c18_wide_f64 = wide::<f64>();
    h_c18_wide_c64 = wide::<c64>();
    h_c18_dot = dots();
}
