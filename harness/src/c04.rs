//! C04: safe construction never leads to access outside the container.
//! Out-of-bounds accesses are reported by the engine for every load and store; panics are allowed throughout.
use crate::api::*;
use crate::kit::*;

/// one access of any kind, with any index
#[inline(always)]
fn touch<L: LayoutType, D: DataContainer<Item = f64>, RS: SizeIdentifier, CS: SizeIdentifier>(
    m: &GenericBaseMatrix<f64, L, D, RS, CS>,
    p: *const f64,
) {
    match pick(0, 2) {
        0 => {
            let v = m.get(any(), any());
            v.same(v, "read");
        }
        1 => {
            let v = m.get1d(any());
            v.same(v, "read");
        }
        _ => {
            let s = m.get_slice(any(), any());
            in_bounds(s.as_ptr(), s.len(), "a raw slice lies inside the container");
            let _ = p;
        }
    }
    done();
}
#[inline(always)]
fn touch_mut<L: LayoutType, D: DataContainerMut<Item = f64>, RS: SizeIdentifier, CS: SizeIdentifier>(
    m: &mut GenericBaseMatrixMut<f64, L, D, RS, CS>,
) {
    match pick(0, 2) {
        0 => *m.get_mut(any(), any()) = f64::fresh(),
        1 => *m.get1d_mut(any()) = f64::fresh(),
        _ => {
            let s = m.get_slice_mut(any(), any());
            in_bounds(s.as_ptr(), s.len(), "a raw slice lies inside the container");
        }
    }
    done();
}

fn slice<K: Lay>() {
    let len = any();
    let p = f64::buf(len);
    let (d, s) = any_dim::<K>();
    panic_ok(true);
    let sl = unsafe { std::slice::from_raw_parts(p, len) };
    let m = Sl::<K, f64>::from_data(SliceContainer::new(sl), K::mk(d, s));
    touch(&m, p);
}
fn slice_mut<K: Lay>() {
    let len = any();
    let p = f64::buf(len);
    let (d, s) = any_dim::<K>();
    panic_ok(true);
    let sl = unsafe { std::slice::from_raw_parts_mut(p, len) };
    let mut m = SlM::<K, f64>::from_data(SliceContainerMut::new(sl), K::mk(d, s));
    touch_mut(&mut m);
}
/// any dimension whose number of elements and extent do not fit is rejected or harmless; a fitting one is accepted
fn accept<K: Lay>() {
    let x = Data::<K, f64>::any();
    if pick(0, 1) == 0 {
        let m = x.ro();
        check(m.dim() == x.d, "a container that is large enough is accepted");
    } else {
        let m = x.rw();
        check(m.dim() == x.d, "a container that is large enough is accepted");
    }
    done();
}
/// the smallest container is enough (its last element included)
fn tight<K: Lay>() {
    let (d, s) = any_dim::<K>();
    let x = Data::<K, f64>::tight(d, s);
    let (i, j) = x.pos();
    let m = x.ro();
    m.get(i, j).same(x.now(i, j), "every element of a tight container is readable");
    done();
}
fn vec<K: Lay>() {
    let len = any();
    let (d, s) = any_dim::<K>();
    panic_ok(true);
    let mut m = GenericBaseMatrixMut::<f64, K::L, VectorContainer<f64>, K::RS, K::CS>::from_data(
        VectorContainer::new(len),
        K::mk(d, s),
    );
    if pick(0, 1) == 0 {
        touch(&m, std::ptr::null());
    } else {
        touch_mut(&mut m);
    }
}
fn array<K: Lay>() {
    let (d, s) = any_dim::<K>();
    panic_ok(true);
    let mut m = GenericBaseMatrixMut::<f64, K::L, ArrayContainer<f64, 5>, K::RS, K::CS>::from_data(
        ArrayContainer::new(),
        K::mk(d, s),
    );
    if pick(0, 1) == 0 {
        touch(&m, std::ptr::null());
    } else {
        touch_mut(&mut m);
    }
}
macro_rules! zeros {
    ($m:expr) => {{
        panic_ok(true);
        let mut m = $m;
        if pick(0, 1) == 0 {
            touch(&m, std::ptr::null());
        } else {
            touch_mut(&mut m);
        }
    }};
}
fn zeros_rm() {
    zeros!(MatrixD::<f64, RowMajor>::zeros_from_dim(any(), any()))
}
fn zeros_cm() {
    zeros!(MatrixD::<f64, ColumnMajor>::zeros_from_dim(any(), any()))
}
fn zeros_ut() {
    zeros!(UpperTriangularMatrix::<f64>::zeros_from_dim(any(), any()))
}
fn zeros_rv() {
    zeros!(RowVectorD::<f64>::zeros_from_dim(any(), any()))
}
fn zeros_cv() {
    zeros!(ColumnVectorD::<f64>::zeros_from_dim(any(), any()))
}
fn zeros_rvl() {
    zeros!(RowVectorD::<f64>::zeros_from_length(any()))
}
fn zeros_cvl() {
    zeros!(ColumnVectorD::<f64>::zeros_from_length(any()))
}
/// a traversal stays inside as well
fn each<K: Lay>() {
    let len = pick(0, lim(4, 7));
    let p = f64::buf(len);
    let d = K::shape((pick(0, lim(2, 3)), pick(0, lim(3, 4))));
    let s = K::stride(d, (any(), any()));
    panic_ok(true);
    let sl = unsafe { std::slice::from_raw_parts_mut(p, len) };
    let mut m = SlM::<K, f64>::from_data(SliceContainerMut::new(sl), K::mk(d, s));
    m.for_each(|v| *v = 1.0);
    done();
}
fn fix<L: BaseLayoutType>() {
    // a fixed-size container with a layout of any dimension
    let d = (any(), any());
    panic_ok(true);
    let mut m = GenericBaseMatrixMut::<f64, L, ArrayContainer<f64, 6>, Fixed2, Fixed3>::from_data(
        ArrayContainer::new(),
        L::from_dimension(d),
    );
    if pick(0, 1) == 0 {
        touch(&m, std::ptr::null());
    } else {
        touch_mut(&mut m);
    }
}
/// blocks of an accepted matrix, whatever the request
macro_rules! blk {
    ($K:ty) => {{
        let x = Data::<$K, f64>::any();
        let t = (any(), any());
        let d = (any(), any());
        panic_ok(true);
        if pick(0, 1) == 0 {
            let m = x.ro();
            let b = m.block(t, d);
            touch(&b, x.p);
        } else {
            let mut m = x.rw();
            let mut b = m.block_mut(t, d);
            touch_mut(&mut b);
        }
    }};
}
fn blk_rm() {
    blk!(RM)
}
fn blk_cm() {
    blk!(CM)
}
fn blk_arm() {
    blk!(ARM)
}
fn blk_acm() {
    blk!(ACM)
}
fn split() {
    let x = Data::<RM, f64>::any();
    let at = (any(), any());
    panic_ok(true);
    let mut m = x.rw();
    let (mut a, mut b, mut c, mut d) = m.split_in_four_mut(at);
    match pick(0, 3) {
        0 => touch_mut(&mut a),
        1 => touch_mut(&mut b),
        2 => touch_mut(&mut c),
        _ => touch_mut(&mut d),
    }
}

harnesses! {
    h_c04_slice_rm = slice::<RM>();
    h_c04_slice_cm = slice::<CM>();
    h_c04_slice_rv = slice::<RV>();
    h_c04_slice_cv = slice::<CV>();
    h_c04_slice_arm = slice::<ARM>();
    h_c04_slice_acm = slice::<ACM>();
    h_c04_slice_arv = slice::<ARV>();
    h_c04_slice_acv = slice::<ACV>();
    h_c04_slice_ut = slice::<UT>();
    h_c04_slicem_rm = slice_mut::<RM>();
    h_c04_slicem_cm = slice_mut::<CM>();
    h_c04_slicem_rv = slice_mut::<RV>();
    h_c04_slicem_cv = slice_mut::<CV>();
    h_c04_slicem_arm = slice_mut::<ARM>();
    h_c04_slicem_acm = slice_mut::<ACM>();
    h_c04_slicem_arv = slice_mut::<ARV>();
    h_c04_slicem_acv = slice_mut::<ACV>();
    h_c04_slicem_ut = slice_mut::<UT>();
    h_c04_acc_rm = accept::<RM>();
    h_c04_acc_cm = accept::<CM>();
    h_c04_acc_rv = accept::<RV>();
    h_c04_acc_cv = accept::<CV>();
    h_c04_acc_arm = accept::<ARM>();
    h_c04_acc_acm = accept::<ACM>();
    h_c04_acc_arv = accept::<ARV>();
    h_c04_acc_acv = accept::<ACV>();
    h_c04_acc_ut = accept::<UT>();
    h_c04_tight_rm = tight::<RM>();
    h_c04_tight_cm = tight::<CM>();
    h_c04_tight_rv = tight::<RV>();
    h_c04_tight_cv = tight::<CV>();
    h_c04_tight_arm = tight::<ARM>();
    h_c04_tight_acm = tight::<ACM>();
    h_c04_tight_arv = tight::<ARV>();
    h_c04_tight_acv = tight::<ACV>();
    h_c04_tight_ut = tight::<UT>();
    h_c04_vec_rm = vec::<RM>();
    h_c04_vec_acm = vec::<ACM>();
    h_c04_vec_cv = vec::<CV>();
    h_c04_vec_arv = vec::<ARV>();
    h_c04_vec_ut = vec::<UT>();
    h_c04_arr_rm = array::<RM>();
    h_c04_arr_cm = array::<CM>();
    h_c04_arr_rv = array::<RV>();
    h_c04_arr_arm = array::<ARM>();
    h_c04_arr_acv = array::<ACV>();
    h_c04_arr_ut = array::<UT>();
    h_c04_fix_rm = fix::<RowMajor>();
    h_c04_fix_cm = fix::<ColumnMajor>();
    h_c04_zero_rm = zeros_rm();
    h_c04_zero_cm = zeros_cm();
    h_c04_zero_ut = zeros_ut();
    h_c04_zero_rv = zeros_rv();
    h_c04_zero_cv = zeros_cv();
    h_c04_zero_rvl = zeros_rvl();
    h_c04_zero_cvl = zeros_cvl();
    h_c04_each_rm = each::<RM>();
    h_c04_each_arm = each::<ARM>();
    h_c04_each_acm = each::<ACM>();
    h_c04_each_acv = each::<ACV>();
    h_c04_each_ut = each::<UT>();
    h_c04_blk_rm = blk_rm();
    h_c04_blk_cm = blk_cm();
    h_c04_blk_arm = blk_arm();
    h_c04_blk_acm = blk_acm();
    h_c04_split = split();
}
