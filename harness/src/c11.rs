//! C11: evaluation materialises an expression exactly and leaves operands alone.
use crate::api::*;
use crate::kit::*;

/// small dimension, free stride
#[inline(always)]
fn shape<K: Lay>() -> (D2, D2) {
    let d = K::shape((pick(0, lim(2, 3)), pick(0, lim(3, 4))));
    (d, K::stride(d, (any(), any())))
}
#[inline(always)]
fn data<K: Lay, T: Sc>() -> Data<K, T> {
    let (d, s) = shape::<K>();
    Data::over(d, s)
}
#[inline(always)]
fn like<K: Lay, T: Sc>(d: D2) -> Data<K, T> {
    Data::over(d, K::stride(d, (any(), any())))
}
macro_rules! rd {
    ($e:expr, $K:ty, $d:expr, |$i:ident, $j:ident| $want:expr) => {{
        let d = $d;
        let r = $e.eval();
        check(r.dim() == d, "the result has the expression's dimension");
        check(r.layout().number_of_elements() == count::<$K>(d), "the result has all elements");
        if count::<$K>(d) > 0 {
            let ($i, $j) = any_pos::<$K>(d);
            let w = $want;
            let k = one::<$K>(d, $i, $j);
            match pick(0, 2) {
                0 => r.get($i, $j).same(w, "a result element is the expression's element"),
                1 => r.get1d(k).same(w, "a result element is the expression's element (1D)"),
                _ => r.get_slice(k, k + 1)[0].same(w, "the result is stored contiguously in 1D order"),
            }
        }
        done();
    }};
}
fn mat<K: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>() {
    let x = data::<K, T>();
    if pick(0, 1) == 0 {
        rd!(x.ro(), K, x.d, |i, j| x.now(i, j))
    } else {
        let m = x.rw();
        rd!(Matrix::from_ref(&m), K, x.d, |i, j| x.now(i, j))
    }
}
fn sum<K: Lay<RS = Dynamic, CS = Dynamic>, G: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let x = data::<K, T>();
    let y = like::<G, T>(x.d);
    let (a, b) = (x.ro(), y.ro());
    rd!(&a + &b, K, x.d, |i, j| x.now(i, j) + y.now(i, j))
}
fn scal<K: Lay<RS = Dynamic, CS = Dynamic>>() {
    let x = data::<K, f64>();
    let k = f64::fresh();
    rd!(k * x.ro(), K, x.d, |i, j| k * x.now(i, j))
}
fn scal_c<K: Lay<RS = Dynamic, CS = Dynamic>>() {
    let x = data::<K, c64>();
    let k = c64::fresh();
    rd!(x.ro() * k, K, x.d, |i, j| k * x.now(i, j))
}
fn nest<K: Lay<RS = Dynamic, CS = Dynamic>, G: Lay<RS = Dynamic, CS = Dynamic>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
    <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let x = data::<K, f64>();
    let y = like::<G, f64>(x.d);
    let k = f64::fresh();
    let b = y.ro();
    rd!(k * x.ro() + (&b + &b), K, x.d, |i, j| k * x.now(i, j) + (y.now(i, j) + y.now(i, j)))
}
/// the operands keep their content
fn frame<K: Lay<RS = Dynamic, CS = Dynamic>, G: Lay<RS = Dynamic, CS = Dynamic>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let x = data::<K, f64>();
    let y = like::<G, f64>(x.d);
    let r = (x.rw() + y.rw()).eval();
    check(r.dim() == x.d, "the result has the expression's dimension");
    if pick(0, 1) == 0 {
        x.frame("evaluation leaves the left operand alone");
    } else {
        y.frame("evaluation leaves the right operand alone");
    }
    done();
}
/// result and operand are independent
fn indep<K: Lay<RS = Dynamic, CS = Dynamic>>() {
    let (d, s) = (K::shape((pick(1, lim(2, 3)), pick(1, lim(3, 4)))), (any(), any()));
    let x = Data::<K, f64>::over(d, K::stride(d, s));
    let (i, j) = x.pos();
    let (a, b) = x.pos();
    let v = f64::fresh();
    let mut m = x.rw();
    let mut r = m.eval();
    if pick(0, 1) == 0 {
        *m.get_mut(i, j) = v;
        r.get(a, b).same(x.old(a, b), "a later change of the operand does not change the result");
    } else {
        *r.get_mut(i, j) = v;
        r.get(i, j).same(v, "the result is writable");
        x.frame("a later change of the result does not change the operand");
    }
    done();
}
fn blk<T: Sc>() {
    let x = Data::<RM, T>::any();
    let t = (any(), any());
    let b = (pick(0, lim(2, 3)), pick(0, lim(3, 4)));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let m = x.ro();
    rd!(m.block(t, b), RM, b, |i, j| x.now(t.0 + i, t.1 + j))
}
fn blk_cm() {
    let x = Data::<CM, f64>::any();
    let t = (any(), any());
    let b = (pick(0, lim(2, 3)), pick(0, lim(3, 4)));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let k = f64::fresh();
    let mut m = x.rw();
    rd!(k * m.block_mut(t, b), CM, b, |i, j| k * x.now(t.0 + i, t.1 + j))
}
/// evaluating an evaluated matrix
fn twice<K: Lay<RS = Dynamic, CS = Dynamic>>()
where
    <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let x = data::<K, f64>();
    let r = x.ro().eval();
    let q = &r + &r;
    rd!(q, K, x.d, |i, j| x.now(i, j) + x.now(i, j))
}

/// larger dimensions: every element of the result
macro_rules! all {
    ($e:expr, $K:ty, $d:expr, |$i:ident, $j:ident| $want:expr) => {{
        let d = $d;
        let r = $e.eval();
        check(r.dim() == d, "the result has the expression's dimension");
        for $i in 0..d.0 {
            for $j in (if <$K as Lay>::TRI { $i } else { 0 })..d.1 {
                let w = $want;
                let k = one::<$K>(d, $i, $j);
                r.get($i, $j).same(w, "a result element is the expression's element");
                r.get1d(k).same(w, "a result element is the expression's element (1D)");
            }
        }
        done();
    }};
}
fn wide_mat<K: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>() {
    let d = wide::<K>();
    let x = Data::<K, T>::over(d, K::stride(d, (any(), any())));
    all!(x.ro(), K, d, |i, j| x.old(i, j))
}
fn wide_sum<K: Lay<RS = Dynamic, CS = Dynamic>, G: Lay<RS = Dynamic, CS = Dynamic>>()
where
    G::L: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
{
    let d = wide::<K>();
    let x = Data::<K, f64>::over(d, K::stride(d, (any(), any())));
    let y = like::<G, f64>(d);
    let k = f64::fresh();
    let (a, b) = (x.ro(), y.ro());
    all!(k * &a + &b, K, d, |i, j| k * x.old(i, j) + y.old(i, j))
}
fn big_mat<K: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>() {
    let x = many::<K, T>();
    all!(x.ro(), K, x.d, |i, j| x.old(i, j))
}
fn big_expr<K: Lay<RS = Dynamic, CS = Dynamic>>() {
    let x = many::<K, f64>();
    let k = f64::fresh();
    let m = x.rw();
    let a = Matrix::from_ref(&m);
    all!(k * a + &m, K, x.d, |i, j| k * x.old(i, j) + x.old(i, j))
}

harnesses! {
    h_c11_wide_rm = wide_mat::<RM, f64>();
    h_c11_wide_cm = wide_mat::<CM, c64>();
    h_c11_wide_arm = wide_mat::<ARM, f64>();
    h_c11_wide_acm = wide_mat::<ACM, f32>();
    h_c11_wide_ut = wide_mat::<UT, f64>();
    h_c11_wide_sum_rm = wide_sum::<RM, ARM>();
    h_c11_wide_sum_cm = wide_sum::<ACM, CM>();
    h_c11_big_rm = big_mat::<RM, f64>();
    h_c11_big_cm = big_mat::<CM, f32>();
    h_c11_big_arm = big_mat::<ARM, c32>();
    h_c11_big_acm = big_mat::<ACM, f64>();
    h_c11_big_ut = big_mat::<UT, f64>();
    h_c11_big_expr_arm = big_expr::<ARM>();
    h_c11_big_expr_cm = big_expr::<CM>();
    h_c11_big_expr_ut = big_expr::<UT>();
    h_c11_mat_rm = mat::<RM, f64>();
    h_c11_mat_cm = mat::<CM, f64>();
    h_c11_mat_arm = mat::<ARM, f64>();
    h_c11_mat_acm = mat::<ACM, f64>();
    h_c11_mat_ut = mat::<UT, f64>();
    h_c11_mat_arm_c64 = mat::<ARM, c64>();
    h_c11_mat_acm_c32 = mat::<ACM, c32>();
    h_c11_mat_rm_f32 = mat::<RM, f32>();
    h_c11_mat_ut_c64 = mat::<UT, c64>();
    h_c11_sum_rm_arm = sum::<RM, ARM, f64>();
    h_c11_sum_arm_rm = sum::<ARM, RM, f32>();
    h_c11_sum_cm_acm = sum::<CM, ACM, f64>();
    h_c11_sum_acm_acm = sum::<ACM, ACM, c64>();
    h_c11_sum_ut = sum::<UT, UT, f64>();
    h_c11_scal_arm = scal::<ARM>();
    h_c11_scal_cm = scal::<CM>();
    h_c11_scal_ut = scal::<UT>();
    h_c11_scalc_acm = scal_c::<ACM>();
    h_c11_nest_arm_rm = nest::<ARM, RM>();
    h_c11_nest_cm_acm = nest::<CM, ACM>();
    h_c11_nest_ut = nest::<UT, UT>();
    h_c11_frame_arm_rm = frame::<ARM, RM>();
    h_c11_frame_cm_acm = frame::<CM, ACM>();
    h_c11_frame_ut = frame::<UT, UT>();
    h_c11_ind_rm = indep::<RM>();
    h_c11_ind_cm = indep::<CM>();
    h_c11_ind_arm = indep::<ARM>();
    h_c11_ind_acm = indep::<ACM>();
    h_c11_ind_ut = indep::<UT>();
    h_c11_blk = blk::<f64>();
    h_c11_blk_c64 = blk::<c64>();
    h_c11_blk_cm = blk_cm();
    h_c11_twice_arm = twice::<ARM>();
    h_c11_twice_acm = twice::<ACM>();
}
