//! C09: a sum expression reads as the element-wise sum of its operands.
use crate::api::*;
use crate::kit::*;

/// the two operands
#[inline(always)]
fn ops<K: Lay, G: Lay, T: Sc>() -> (Data<K, T>, Data<G, T>) {
    let x = Data::<K, T>::any();
    let s = G::stride(x.d, (any(), any()));
    (x, Data::<G, T>::over(x.d, s))
}
/// one read of the expression against the expected element
macro_rules! rd {
    ($e:expr, $K:ty, $d:expr, |$i:ident, $j:ident| $want:expr) => {{
        let e = $e;
        let ($i, $j) = any_pos::<$K>($d);
        let w = $want;
        match pick(0, 4) {
            0 => e.get($i, $j).same(w, "a sum's element is the sum of the elements"),
            1 => e.get1d(one::<$K>($d, $i, $j)).same(w, "a sum's element is the sum of the elements (1D)"),
            2 => check(e.dim() == $d, "a sum has its operands' dimension"),
            3 => check(
                e.layout().number_of_elements() == count::<$K>($d),
                "a sum has as many elements as its operands",
            ),
            _ => unsafe { e.get_unchecked($i, $j) }.same(w, "a sum's element is the sum of the elements (unchecked)"),
        }
        done();
    }};
}
fn sum<K: Lay, G: Lay<RS = K::RS, CS = K::CS>, T: Sc>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let (x, y) = ops::<K, G, T>();
    match pick(0, 3) {
        0 => rd!(x.ro() + y.ro(), K, x.d, |i, j| x.now(i, j) + y.now(i, j)),
        1 => {
            let a = x.ro();
            rd!(&a + y.ro(), K, x.d, |i, j| x.now(i, j) + y.now(i, j))
        }
        2 => {
            let b = y.ro();
            rd!(x.rw() + &b, K, x.d, |i, j| x.now(i, j) + y.now(i, j))
        }
        _ => {
            let (a, b) = (x.ro(), y.rw());
            rd!(&a + &b, K, x.d, |i, j| x.now(i, j) + y.now(i, j))
        }
    }
}
/// reading does not modify the operands
fn frame<K: Lay, G: Lay<RS = K::RS, CS = K::CS>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let (x, y) = ops::<K, G, f64>();
    let (i, j) = x.pos();
    let e = x.rw() + y.rw();
    let v = e.get(i, j);
    v.same(v, "read");
    x.frame("reading a sum leaves the left operand alone");
    y.frame("reading a sum leaves the right operand alone");
    done();
}
fn reject<K: Lay, G: Lay<RS = K::RS, CS = K::CS>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let (x, y) = (Data::<K, f64>::any(), Data::<G, f64>::any());
    assume(x.d.0 != y.d.0 || x.d.1 != y.d.1);
    let (a, b) = (x.ro(), y.ro());
    must_panic("operands of different dimension are rejected", || match pick(0, 3) {
        0 => {
            a + b;
        }
        1 => {
            &a + b;
        }
        2 => {
            a + &b;
        }
        _ => {
            &a + &b;
        }
    });
}
/// nested expressions
fn nest<K: Lay, G: Lay<RS = K::RS, CS = K::CS>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
    <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let (x, y) = ops::<K, G, f64>();
    let s = K::stride(x.d, (any(), any()));
    let z = Data::<K, f64>::over(x.d, s);
    match pick(0, 5) {
        0 => rd!((x.ro() + y.ro()) + z.ro(), K, x.d, |i, j| (x.now(i, j) + y.now(i, j)) + z.now(i, j)),
        1 => rd!(x.ro() + (y.ro() + z.ro()), K, x.d, |i, j| x.now(i, j) + (y.now(i, j) + z.now(i, j))),
        2 => {
            let e = x.ro() + y.ro();
            let f = &e + z.ro();
            rd!(&f + &e, K, x.d, |i, j| ((x.now(i, j) + y.now(i, j)) + z.now(i, j)) + (x.now(i, j) + y.now(i, j)))
        }
        3 => {
            let k = f64::fresh();
            rd!(k * x.ro() + y.ro(), K, x.d, |i, j| k * x.now(i, j) + y.now(i, j))
        }
        4 => {
            let k = f64::fresh();
            let b = y.ro();
            rd!(x.ro() + k * &b, K, x.d, |i, j| x.now(i, j) + k * y.now(i, j))
        }
        _ => {
            let a = x.ro();
            rd!(&a + &a, K, x.d, |i, j| x.now(i, j) + x.now(i, j))
        }
    }
}
/// blocks, mutable blocks and quadrants as operands
fn blk() {
    let (x, y) = (Data::<RM, f64>::any(), Data::<ARM, f64>::any());
    let b = (any(), any());
    let (t, u) = ((any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    assume(u.0 <= y.d.0 && b.0 <= y.d.0 - u.0 && u.1 <= y.d.1 && b.1 <= y.d.1 - u.1);
    let a = x.ro();
    let mut c = y.rw();
    rd!(a.block(t, b) + c.block_mut(u, b), RM, b, |i, j| x.now(t.0 + i, t.1 + j) + y.now(u.0 + i, u.1 + j))
}
fn blk_cm() {
    let (x, y) = (Data::<CM, f64>::any(), Data::<ACM, f64>::any());
    let b = y.d;
    let t = (any(), any());
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let (a, c) = (x.ro(), y.ro());
    let v = a.block(t, b);
    rd!(&v + c, CM, b, |i, j| x.now(t.0 + i, t.1 + j) + y.now(i, j))
}
fn blk_reject() {
    let (x, y) = (Data::<RM, f64>::any(), Data::<RM, f64>::any());
    let b = (any(), any());
    let t = (any(), any());
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    assume(b.0 != y.d.0 || b.1 != y.d.1);
    let (a, c) = (x.ro(), y.ro());
    let v = a.block(t, b);
    must_panic("a block of another dimension is rejected", || {
        if pick(0, 1) == 0 {
            v + c;
        } else {
            c + v;
        }
    });
}
/// owned and fixed-size operands
fn own<T: Sc>() {
    let (v, w) = (T::fresh(), T::fresh());
    macro_rules! go {
        ($m:expr, $n:expr, $K:ty, $d:expr) => {{
            let d = $d;
            let (mut a, mut b) = ($m, $n);
            let (i, j) = any_pos::<$K>(d);
            let (p, q) = any_pos::<$K>(d);
            *a.get_mut(i, j) = v;
            *b.get_mut(p, q) = w;
            let z = T::zero();
            rd!(a + b, $K, d, |k, l| (if k == i && l == j { v } else { z }) + (if k == p && l == q { w } else { z }))
        }};
    }
    match pick(0, 4) {
        0 => go!(Matrix22::<T, RowMajor>::zeros_from_dim(), Matrix22::<T, RowMajor>::zeros_from_dim(), RM, (2, 2)),
        1 => go!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), Matrix23::<T, ColumnMajor>::zeros_from_dim(), CM, (2, 3)),
        2 => go!(Matrix32::<T, RowMajor>::zeros_from_dim(), Matrix32::<T, RowMajor>::zeros_from_dim(), RM, (3, 2)),
        3 => {
            let d = (pick(1, lim(2, 3)), pick(1, lim(3, 4)));
            go!(MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), CM, d)
        }
        _ => {
            let n = pick(1, lim(3, 5));
            go!(ColumnVectorD::<T>::zeros_from_length(n), ColumnVectorD::<T>::zeros_from_length(n), CV, (n, 1))
        }
    }
}
fn vlen() {
    match pick(0, 1) {
        0 => {
            let (x, y) = ops::<RV, ARV, f64>();
            check((x.ro() + y.ro()).length() == x.d.1, "a sum of row vectors has their length");
        }
        _ => {
            let (x, y) = ops::<ACV, CV, f64>();
            check((x.ro() + y.ro()).length() == x.d.0, "a sum of column vectors has their length");
        }
    }
    done();
}

harnesses! {
    h_c09_sum_rm_rm = sum::<RM, RM, f64>();
    h_c09_sum_rm_arm = sum::<RM, ARM, f64>();
    h_c09_sum_arm_rm = sum::<ARM, RM, f64>();
    h_c09_sum_arm_arm = sum::<ARM, ARM, f64>();
    h_c09_sum_cm_cm = sum::<CM, CM, f64>();
    h_c09_sum_cm_acm = sum::<CM, ACM, f64>();
    h_c09_sum_acm_cm = sum::<ACM, CM, f64>();
    h_c09_sum_acm_acm = sum::<ACM, ACM, f64>();
    h_c09_sum_rv_rv = sum::<RV, RV, f64>();
    h_c09_sum_rv_arv = sum::<RV, ARV, f64>();
    h_c09_sum_arv_rv = sum::<ARV, RV, f64>();
    h_c09_sum_arv_arv = sum::<ARV, ARV, f64>();
    h_c09_sum_cv_cv = sum::<CV, CV, f64>();
    h_c09_sum_cv_acv = sum::<CV, ACV, f64>();
    h_c09_sum_acv_cv = sum::<ACV, CV, f64>();
    h_c09_sum_acv_acv = sum::<ACV, ACV, f64>();
    h_c09_sum_ut = sum::<UT, UT, f64>();
    h_c09_f32_rm_arm = sum::<RM, ARM, f32>();
    h_c09_c64_arm_rm = sum::<ARM, RM, c64>();
    h_c09_c32_cm_acm = sum::<CM, ACM, c32>();
    h_c09_c64_cv_acv = sum::<CV, ACV, c64>();
    h_c09_f32_rv = sum::<RV, ARV, f32>();
    h_c09_c32_ut = sum::<UT, UT, c32>();
    h_c09_frame_rm_arm = frame::<RM, ARM>();
    h_c09_frame_acm_cm = frame::<ACM, CM>();
    h_c09_rej_rm_rm = reject::<RM, RM>();
    h_c09_rej_rm_arm = reject::<RM, ARM>();
    h_c09_rej_arm_rm = reject::<ARM, RM>();
    h_c09_rej_cm_acm = reject::<CM, ACM>();
    h_c09_rej_acm_acm = reject::<ACM, ACM>();
    h_c09_rej_rv_arv = reject::<RV, ARV>();
    h_c09_rej_cv_cv = reject::<CV, CV>();
    h_c09_rej_acv_cv = reject::<ACV, CV>();
    h_c09_rej_ut = reject::<UT, UT>();
    h_c09_nest_rm_arm = nest::<RM, ARM>();
    h_c09_nest_arm_rm = nest::<ARM, RM>();
    h_c09_nest_acm_cm = nest::<ACM, CM>();
    h_c09_nest_rv_arv = nest::<RV, ARV>();
    h_c09_nest_ut = nest::<UT, UT>();
    h_c09_blk = blk();
    h_c09_blk_cm = blk_cm();
    h_c09_blk_rej = blk_reject();
    h_c09_own = own::<f64>();
    h_c09_own_c64 = own::<c64>();
    h_c09_vlen = vlen();
}
