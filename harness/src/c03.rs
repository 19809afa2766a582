//! C03: checked element access succeeds exactly for in-range indices.
use crate::api::*;
use crate::kit::*;

fn read<K: Lay>() {
    let x = Data::<K, f64>::any();
    reads(&x.ro(), x.d, x.n, K::TRI);
}
fn read_mut<K: Lay>() {
    let x = Data::<K, f64>::any();
    reads(&x.rw(), x.d, x.n, K::TRI);
}
fn write<K: Lay>() {
    let x = Data::<K, f64>::any();
    writes(&mut x.rw(), x.d, x.n, K::TRI);
}
fn read_ref<K: Lay>() {
    let x = Data::<K, f64>::any();
    let m = x.ro();
    let r = Matrix::from_ref(&m);
    reads(&r, x.d, x.n, K::TRI);
}
fn write_ref<K: Lay>() {
    let x = Data::<K, f64>::any();
    let mut m = x.rw();
    let mut r = Matrix::new(MatrixRefMut::new(&mut m));
    if pick(0, 1) == 0 {
        reads(&r, x.d, x.n, K::TRI);
    } else {
        writes(&mut r, x.d, x.n, K::TRI);
    }
}
fn scal<K: Lay>() {
    let x = Data::<K, f64>::any();
    let m = x.ro() * f64::fresh();
    reads(&m, x.d, x.n, K::TRI);
}
fn sum<K: Lay, G: Lay<RS = K::RS, CS = K::CS>>()
where
    K::L: LayoutType,
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let x = Data::<K, f64>::any();
    let s = G::stride(x.d, (any(), any()));
    let y = Data::<G, f64>::over(x.d, s);
    let m = x.ro() + y.ro();
    reads(&m, x.d, x.n, K::TRI);
}

// owned and fixed size
macro_rules! own {
    ($m:expr, $d:expr, $n:expr, $tri:expr) => {{
        let mut m = $m;
        if pick(0, 1) == 0 {
            reads(&m, $d, $n, $tri);
        } else {
            writes(&mut m, $d, $n, $tri);
        }
    }};
}
fn dim() -> D2 {
    let (r, c) = (any(), any());
    let n = mul(r, c);
    assume(n < 1 << 59);
    (r, c)
}
fn own_rm() {
    let d = dim();
    own!(MatrixD::<f64, RowMajor>::zeros_from_dim(d.0, d.1), d, d.0 * d.1, false)
}
fn own_cm() {
    let d = dim();
    own!(MatrixD::<f64, ColumnMajor>::zeros_from_dim(d.0, d.1), d, d.0 * d.1, false)
}
fn own_ut() {
    let n = any();
    assume(n < 1 << 29);
    own!(UpperTriangularMatrix::<f64>::zeros_from_dim(n, n), (n, n), n * (n + 1) / 2, true)
}
fn own_rv() {
    let n = any();
    assume(n < 1 << 59);
    own!(RowVectorD::<f64>::zeros_from_length(n), (1, n), n, false)
}
fn own_cv() {
    let n = any();
    assume(n < 1 << 59);
    own!(ColumnVectorD::<f64>::zeros_from_length(n), (n, 1), n, false)
}
fn fix22() {
    own!(Matrix22::<f64, RowMajor>::zeros_from_dim(), (2, 2), 4, false)
}
fn fix23() {
    own!(Matrix23::<f64, RowMajor>::zeros_from_dim(), (2, 3), 6, false)
}
fn fix32() {
    own!(Matrix32::<f64, ColumnMajor>::zeros_from_dim(), (3, 2), 6, false)
}
fn fix33() {
    own!(Matrix33::<f64, ColumnMajor>::zeros_from_dim(), (3, 3), 9, false)
}
type Fv<L, RS, CS, const N: usize> = GenericBaseMatrixMut<f64, L, ArrayContainer<f64, N>, RS, CS>;
fn fix1() {
    match pick(0, 3) {
        0 => own!(Fv::<RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), (1, 3), 3, false),
        1 => own!(Fv::<ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), (2, 1), 2, false),
        2 => own!(Fv::<RowMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), (1, 2), 2, false),
        _ => own!(Fv::<ColumnMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), (1, 3), 3, false),
    }
}

// blocks
macro_rules! blk {
    ($K:ty, $x:ident, $m:ident, $b:ident, $bm:ident, $dim:ident, $go:expr) => {{
        let $x = Data::<$K, f64>::any();
        let t = (any(), any());
        let $dim = (any(), any());
        assume(t.0 <= $x.d.0 && $dim.0 <= $x.d.0 - t.0 && $dim.0 >= 1);
        assume(t.1 <= $x.d.1 && $dim.1 <= $x.d.1 - t.1 && $dim.1 >= 1);
        let n = mul($dim.0, $dim.1);
        if pick(0, 1) == 0 {
            let m = $x.ro();
            let b = m.block(t, $dim);
            reads(&b, $dim, n, false);
        } else {
            let mut m = $x.rw();
            let mut b = m.block_mut(t, $dim);
            writes(&mut b, $dim, n, false);
        }
    }};
}
fn blk_rm() {
    blk!(RM, x, m, b, bm, d, ())
}
fn blk_cm() {
    blk!(CM, x, m, b, bm, d, ())
}
fn blk_arm() {
    blk!(ARM, x, m, b, bm, d, ())
}
fn blk_acm() {
    blk!(ACM, x, m, b, bm, d, ())
}
fn nest() {
    // an expression of borrowed expressions
    let x = Data::<RM, f64>::any();
    let m = x.ro();
    let e = &m + &m;
    let f = 2.0 * &e;
    let g = &f + &m;
    reads(&g, x.d, x.n, false);
}

harnesses! {
    h_c03_rd_rm = read::<RM>();
    h_c03_rd_cm = read::<CM>();
    h_c03_rd_rv = read::<RV>();
    h_c03_rd_cv = read::<CV>();
    h_c03_rd_arm = read::<ARM>();
    h_c03_rd_acm = read::<ACM>();
    h_c03_rd_arv = read::<ARV>();
    h_c03_rd_acv = read::<ACV>();
    h_c03_rd_ut = read::<UT>();
    h_c03_rdm_rm = read_mut::<RM>();
    h_c03_rdm_cm = read_mut::<CM>();
    h_c03_rdm_arm = read_mut::<ARM>();
    h_c03_wr_rm = write::<RM>();
    h_c03_wr_cm = write::<CM>();
    h_c03_wr_rv = write::<RV>();
    h_c03_wr_cv = write::<CV>();
    h_c03_wr_arm = write::<ARM>();
    h_c03_wr_acm = write::<ACM>();
    h_c03_wr_arv = write::<ARV>();
    h_c03_wr_acv = write::<ACV>();
    h_c03_wr_ut = write::<UT>();
    h_c03_ref_rm = read_ref::<RM>();
    h_c03_ref_acm = read_ref::<ACM>();
    h_c03_ref_rv = read_ref::<RV>();
    h_c03_ref_acv = read_ref::<ACV>();
    h_c03_ref_ut = read_ref::<UT>();
    h_c03_refm_cm = write_ref::<CM>();
    h_c03_refm_arm = write_ref::<ARM>();
    h_c03_refm_cv = write_ref::<CV>();
    h_c03_scal_rm = scal::<RM>();
    h_c03_scal_cm = scal::<CM>();
    h_c03_scal_arm = scal::<ARM>();
    h_c03_scal_rv = scal::<RV>();
    h_c03_scal_cv = scal::<CV>();
    h_c03_scal_ut = scal::<UT>();
    h_c03_sum_rm = sum::<RM, RM>();
    h_c03_sum_rm_arm = sum::<RM, ARM>();
    h_c03_sum_arm_rm = sum::<ARM, RM>();
    h_c03_sum_cm_acm = sum::<CM, ACM>();
    h_c03_sum_rv_arv = sum::<RV, ARV>();
    h_c03_sum_acv_cv = sum::<ACV, CV>();
    h_c03_sum_ut = sum::<UT, UT>();
    h_c03_own_rm = own_rm();
    h_c03_own_cm = own_cm();
    h_c03_own_ut = own_ut();
    h_c03_own_rv = own_rv();
    h_c03_own_cv = own_cv();
    h_c03_fix22 = fix22();
    h_c03_fix23 = fix23();
    h_c03_fix32 = fix32();
    h_c03_fix33 = fix33();
    h_c03_fix1 = fix1();
    h_c03_blk_rm = blk_rm();
    h_c03_blk_cm = blk_cm();
    h_c03_blk_arm = blk_arm();
    h_c03_blk_acm = blk_acm();
    h_c03_nest = nest();
}
