//! C01: 1D and 2D logical indices are inverse, in range and in documented order.
use crate::api::*;
use crate::kit::*;

/// position of (i, j) in the documented 1D order
#[inline(always)]
fn spec<K: Lay>(d: D2, i: usize, j: usize) -> usize {
    if K::BYROW {
        i * d.1 + j
    } else {
        j * d.0 + i
    }
}

fn one_to_two<K: Lay>() {
    let (d, s) = any_dim::<K>();
    let n = count::<K>(d);
    let idx = any();
    assume(idx < n);
    let l = K::mk(d, s);
    let (i, j) = l.convert_1d_2d(idx);
    check(i < d.0 && j < d.1, "1d->2d stays inside the matrix");
    check(l.convert_2d_1d(i, j) == idx, "1d->2d->1d is the identity");
    check(spec::<K>(d, i, j) == idx, "1D order is the documented one");
    let x = l.index_layout();
    check(x.dim() == d, "index layout has the same dimension");
    check(x.number_of_elements() == n, "index layout has the same number of elements");
    check(x.convert_1d_2d(idx) == (i, j), "index layout has the same 1D numbering");
    done();
}

fn two_to_one<K: Lay>() {
    let (d, s) = any_dim::<K>();
    let n = count::<K>(d);
    let (i, j) = any_pos::<K>(d);
    let l = K::mk(d, s);
    let idx = l.convert_2d_1d(i, j);
    check(idx < n, "2d->1d stays below the number of elements");
    check(idx == spec::<K>(d, i, j), "2D position is numbered in the documented order");
    check(l.convert_1d_2d(idx) == (i, j), "2d->1d->2d is the identity");
    check(l.index_layout().convert_2d_1d(i, j) == idx, "index layout has the same 2D numbering");
    done();
}

/// every packed index of a triangle is p(p+1)/2 + off with off <= p: p counts rows from the bottom
#[inline(always)]
fn ut() -> (usize, usize, usize, usize) {
    let n = any();
    let p = any();
    let q = any();
    let off = any();
    // 2^25: a larger triangle needs more than 2^49 elements and cannot be stored
    assume(n <= 1 << 25);
    assume(p < n);
    assume(off <= p);
    assume(q <= 1 << 50);
    assume(q + q == p * (p + 1));
    fp_hint(p);
    (n, p, q, off)
}

fn ut_one_to_two() {
    let (n, p, q, off) = ut();
    let l = UpperTriangular::new(n);
    let (i, j) = l.convert_1d_2d(q + off);
    check(i == n - 1 - p, "triangle: the row is the documented one");
    check(j == n - 1 - p + off, "triangle: the column is the documented one");
    check(q + off < l.number_of_elements(), "triangle: the index is below the number of elements");
    check(l.convert_2d_1d(n - 1 - p, n - 1 - p + off) == q + off, "triangle: 1d->2d->1d is the identity");
    done();
}

fn ut_two_to_one() {
    let (n, p, q, off) = ut();
    let l = UpperTriangular::new(n);
    let (i, j) = (n - 1 - p, n - 1 - p + off);
    let idx = l.convert_2d_1d(i, j);
    check(idx == q + off, "triangle: position is numbered in the documented order");
    check(l.convert_1d_2d(q + off) == (i, j), "triangle: 2d->1d->2d is the identity");
    let x = l.index_layout();
    check(x.dim() == (n, n), "triangle: index layout has the same dimension");
    check(x.number_of_elements() == l.number_of_elements(), "triangle: index layout has the same number of elements");
    check(x.convert_1d_2d(q + off) == (i, j), "triangle: index layout has the same numbering");
    done();
}

/// all indices of small triangles, without the parametrisation above
fn ut_small() {
    let n = pick(1, lim(6, 16));
    let idx = pick(0, n * (n + 1) / 2 - 1);
    let l = UpperTriangular::new(n);
    check(l.number_of_elements() == n * (n + 1) / 2, "triangle: number of elements");
    let (i, j) = l.convert_1d_2d(idx);
    check(i <= j && j < n, "triangle: 1d->2d stays on or above the diagonal");
    check(l.convert_2d_1d(i, j) == idx, "triangle: 1d->2d->1d is the identity");
    let m = n - 1 - i;
    check(m * (m + 1) / 2 + (j - i) == idx, "triangle: 1D order is the documented one");
    done();
}

harnesses! {
    h_c01_ut_12 = ut_one_to_two();
    h_c01_ut_21 = ut_two_to_one();
    h_c01_ut_small = ut_small();
    h_c01_12_rm = one_to_two::<RM>();
    h_c01_12_cm = one_to_two::<CM>();
    h_c01_12_rv = one_to_two::<RV>();
    h_c01_12_cv = one_to_two::<CV>();
    h_c01_12_arm = one_to_two::<ARM>();
    h_c01_12_acm = one_to_two::<ACM>();
    h_c01_12_arv = one_to_two::<ARV>();
    h_c01_12_acv = one_to_two::<ACV>();
    h_c01_21_rm = two_to_one::<RM>();
    h_c01_21_cm = two_to_one::<CM>();
    h_c01_21_rv = two_to_one::<RV>();
    h_c01_21_cv = two_to_one::<CV>();
    h_c01_21_arm = two_to_one::<ARM>();
    h_c01_21_acm = two_to_one::<ACM>();
    h_c01_21_arv = two_to_one::<ARV>();
    h_c01_21_acv = two_to_one::<ACV>();
}
