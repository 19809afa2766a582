//! C10: a scalar product expression reads as scalar times each element.
use crate::api::*;
use crate::kit::*;

macro_rules! rd {
    ($e:expr, $K:ty, $d:expr, |$i:ident, $j:ident| $want:expr) => {{
        let e = $e;
        let ($i, $j) = any_pos::<$K>($d);
        let w = $want;
        match pick(0, 4) {
            0 => e.get($i, $j).same(w, "an element is the scalar times the operand's element"),
            1 => e.get1d(one::<$K>($d, $i, $j)).same(w, "an element is the scalar times the operand's element (1D)"),
            2 => check(e.dim() == $d, "the product has its operand's dimension"),
            3 => check(
                e.layout().number_of_elements() == count::<$K>($d),
                "the product has as many elements as its operand",
            ),
            _ => unsafe { e.get1d_unchecked(one::<$K>($d, $i, $j)) }
                .same(w, "an element is the scalar times the operand's element (unchecked)"),
        }
        done();
    }};
}
macro_rules! typed {
    ($mod:ident, $T:ty) => {
        mod $mod {
            use super::*;
            type T = $T;
            pub fn scal<K: Lay>() {
                let x = Data::<K, T>::any();
                let k = T::fresh();
                match pick(0, 3) {
                    0 => rd!(k * x.ro(), K, x.d, |i, j| k * x.now(i, j)),
                    1 => rd!(x.rw() * k, K, x.d, |i, j| k * x.now(i, j)),
                    2 => {
                        let m = x.rw();
                        rd!(k * &m, K, x.d, |i, j| k * x.now(i, j))
                    }
                    _ => {
                        let m = x.ro();
                        rd!(&m * k, K, x.d, |i, j| k * x.now(i, j))
                    }
                }
            }
            pub fn nest<K: Lay>()
            where
                <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
            {
                let x = Data::<K, T>::any();
                let (k, l) = (T::fresh(), T::fresh());
                match pick(0, 3) {
                    0 => rd!(l * (k * x.ro()), K, x.d, |i, j| l * (k * x.now(i, j))),
                    1 => {
                        let m = x.ro();
                        let e = &m * k;
                        rd!(&e * l, K, x.d, |i, j| l * (k * x.now(i, j)))
                    }
                    2 => {
                        let m = x.ro();
                        rd!(k * (&m + &m), K, x.d, |i, j| k * (x.now(i, j) + x.now(i, j)))
                    }
                    _ => {
                        let m = x.ro();
                        let e = k * &m + &m;
                        rd!(&e * l, K, x.d, |i, j| l * (k * x.now(i, j) + x.now(i, j)))
                    }
                }
            }
            pub fn frame<K: Lay>() {
                let x = Data::<K, T>::any();
                let (i, j) = x.pos();
                let e = T::fresh() * x.rw();
                let v = e.get(i, j);
                v.same(v, "read");
                x.frame("reading a product leaves the operand alone");
                done();
            }
            /// owned and fixed-size operands
            pub fn own() {
                let k = T::fresh();
                let v = T::fresh();
                macro_rules! go {
                    ($m:expr, $K:ty, $d:expr) => {{
                        let d = $d;
                        let mut a = $m;
                        let (i, j) = any_pos::<$K>(d);
                        *a.get_mut(i, j) = v;
                        let z: T = num::Zero::zero();
                        if pick(0, 1) == 0 {
                            rd!(k * a, $K, d, |p, q| k * (if p == i && q == j { v } else { z }))
                        } else {
                            rd!(&a * k, $K, d, |p, q| k * (if p == i && q == j { v } else { z }))
                        }
                    }};
                }
                match pick(0, 4) {
                    0 => go!(Matrix22::<T, RowMajor>::zeros_from_dim(), RM, (2, 2)),
                    1 => go!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), CM, (2, 3)),
                    2 => go!(Matrix33::<T, RowMajor>::zeros_from_dim(), RM, (3, 3)),
                    3 => {
                        let d = (pick(1, lim(2, 3)), pick(1, lim(3, 4)));
                        go!(MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), CM, d)
                    }
                    _ => {
                        let n = pick(1, lim(3, 5));
                        go!(RowVectorD::<T>::zeros_from_length(n), RV, (1, n))
                    }
                }
            }
            pub fn vlen() {
                match pick(0, 1) {
                    0 => {
                        let x = Data::<ARV, T>::any();
                        check((T::fresh() * x.ro()).length() == x.d.1, "a product with a row vector has its length");
                    }
                    _ => {
                        let x = Data::<CV, T>::any();
                        check((x.ro() * T::fresh()).length() == x.d.0, "a product with a column vector has its length");
                    }
                }
                done();
            }
        }
    };
}
typed!(d, f64);
typed!(s, f32);
typed!(z, c64);
typed!(c, c32);
fn blk() {
    let x = Data::<RM, f64>::any();
    let (t, b) = ((any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let k = f64::fresh();
    let mut m = x.rw();
    if pick(0, 1) == 0 {
        rd!(k * m.block(t, b), RM, b, |i, j| k * x.now(t.0 + i, t.1 + j))
    } else {
        rd!(m.block_mut(t, b) * k, RM, b, |i, j| k * x.now(t.0 + i, t.1 + j))
    }
}

harnesses! {
    h_c10_rm_f64 = d::scal::<RM>();
    h_c10_cm_f64 = d::scal::<CM>();
    h_c10_rv_f64 = d::scal::<RV>();
    h_c10_cv_f64 = d::scal::<CV>();
    h_c10_arm_f64 = d::scal::<ARM>();
    h_c10_acm_f64 = d::scal::<ACM>();
    h_c10_arv_f64 = d::scal::<ARV>();
    h_c10_acv_f64 = d::scal::<ACV>();
    h_c10_ut_f64 = d::scal::<UT>();
    h_c10_rm_f32 = s::scal::<RM>();
    h_c10_acm_f32 = s::scal::<ACM>();
    h_c10_cv_f32 = s::scal::<CV>();
    h_c10_ut_f32 = s::scal::<UT>();
    h_c10_arm_c64 = z::scal::<ARM>();
    h_c10_cm_c64 = z::scal::<CM>();
    h_c10_arv_c64 = z::scal::<ARV>();
    h_c10_ut_c64 = z::scal::<UT>();
    h_c10_rm_c32 = c::scal::<RM>();
    h_c10_acm_c32 = c::scal::<ACM>();
    h_c10_acv_c32 = c::scal::<ACV>();
    h_c10_nest_rm_f64 = d::nest::<RM>();
    h_c10_nest_arm_f64 = d::nest::<ARM>();
    h_c10_nest_acm_f64 = d::nest::<ACM>();
    h_c10_nest_cv_f64 = d::nest::<CV>();
    h_c10_nest_ut_f64 = d::nest::<UT>();
    h_c10_nest_arm_f32 = s::nest::<ARM>();
    h_c10_nest_cm_c64 = z::nest::<CM>();
    h_c10_nest_rm_c32 = c::nest::<RM>();
    h_c10_frame_arm = d::frame::<ARM>();
    h_c10_frame_cm_c64 = z::frame::<CM>();
    h_c10_own_f64 = d::own();
    h_c10_own_f32 = s::own();
    h_c10_own_c64 = z::own();
    h_c10_own_c32 = c::own();
    h_c10_vlen_f64 = d::vlen();
    h_c10_vlen_f32 = s::vlen();
    h_c10_vlen_c64 = z::vlen();
    h_c10_vlen_c32 = c::vlen();
    h_c10_blk = blk();
}
