//! C12: matmul computes C = alpha*A*B + beta*C and writes only C's elements.
use crate::api::*;
use crate::kit::*;
use householder::matrix_multiply::MatMul;

#[inline(always)]
fn dims() -> (usize, usize, usize) {
    (pick(0, lim(2, 3)), pick(0, lim(2, 3)), pick(0, lim(2, 3)))
}
/// any strides
#[inline(always)]
fn inp<K: Lay, T: Sc>(d: D2) -> Data<K, T> {
    Data::over(d, K::stride(d, (any(), any())))
}
/// strides that keep the elements apart
#[inline(always)]
fn out<K: Lay, T: Sc>(d: D2) -> Data<K, T> {
    let s = K::stride(d, (any(), any()));
    assume_distinct::<K>(d, s);
    Data::over(d, s)
}
/// a raw position that belongs to no element
#[inline(always)]
fn gap<K: Lay, T: Sc>(z: &Data<K, T>) -> usize {
    let q = any();
    assume(q < z.len);
    for i in 0..z.d.0 {
        for j in 0..z.d.1 {
            assume(q != z.raw(i, j));
        }
    }
    q
}

macro_rules! typed {
    ($mod:ident, $T:ty) => {
        mod $mod {
            use super::*;
            type T = $T;
            type G<K> = SlM<K, T>;
            /// alpha * (A*B)(i, j) + beta * C(i, j), from the initial contents
            #[inline(always)]
            fn want<KA: Lay, KB: Lay, KC: Lay>(
                x: &Data<KA, T>,
                y: &Data<KB, T>,
                z: &Data<KC, T>,
                al: T,
                be: T,
                i: usize,
                j: usize,
            ) -> T {
                let mut s: T = num::Zero::zero();
                for l in 0..x.d.1 {
                    s = s + x.old(i, l) * y.old(l, j);
                }
                al * s + be * z.old(i, j)
            }
            macro_rules! shape {
                ($name:ident, $rej:ident, $RA:ty, $CA:ty, $RB:ty, $CB:ty, $RC:ty, $CC:ty, $m:expr, $n:expr) => {
                    pub fn $name<
                        KA: Lay<RS = $RA, CS = $CA>,
                        KB: Lay<RS = $RB, CS = $CB>,
                        KC: Lay<RS = $RC, CS = $CC>,
                    >()
                    where
                        KA::L: StridedLayoutType,
                        KB::L: StridedLayoutType,
                        KC::L: StridedLayoutType,
                    {
                        let (m, k, n) = dims();
                        let (m, n) = ($m.unwrap_or(m), $n.unwrap_or(n));
                        let (x, y, z) = (inp::<KA, T>((m, k)), inp::<KB, T>((k, n)), out::<KC, T>((m, n)));
                        let (al, be) = (T::fresh(), T::fresh());
                        let (a, b) = (x.ro(), y.ro());
                        let mut c = z.rw();
                        <T>::matmul(al, &a, &b, be, &mut c);
                        match pick(0, 3) {
                            0 => {
                                let (i, j) = (pick(0, lim(1, 2)), pick(0, lim(1, 2)));
                                assume(i < m && j < n);
                                z.now(i, j).close(want(&x, &y, &z, al, be, i, j), "C becomes alpha*A*B + beta*C");
                            }
                            1 => x.frame("A is unchanged"),
                            2 => y.frame("B is unchanged"),
                            _ => {
                                let g = gap(&z);
                                z.cell(g).same(z.cell_old(g), "memory of C that is no element of C is unchanged");
                            }
                        }
                        done();
                    }
                    pub fn $rej<
                        KA: Lay<RS = $RA, CS = $CA>,
                        KB: Lay<RS = $RB, CS = $CB>,
                        KC: Lay<RS = $RC, CS = $CC>,
                    >()
                    where
                        KA::L: StridedLayoutType,
                        KB::L: StridedLayoutType,
                        KC::L: StridedLayoutType,
                    {
                        let (x, y, z) = (Data::<KA, T>::any(), Data::<KB, T>::any(), Data::<KC, T>::any());
                        assume(x.d.1 != y.d.0 || z.d.0 != x.d.0 || z.d.1 != y.d.1);
                        let (a, b) = (x.ro(), y.ro());
                        let mut c = z.rw();
                        must_panic("incompatible dimensions are rejected", || {
                            <T>::matmul(T::fresh(), &a, &b, T::fresh(), &mut c);
                        });
                    }
                };
            }
            macro_rules! large {
                ($name:ident, $RA:ty, $CA:ty, $RB:ty, $CB:ty, $RC:ty, $CC:ty, $m:expr, $n:expr) => {
                    /// many sizes, fixed strides: every element of C, and the cell behind it
                    pub fn $name<
                        KA: Lay<RS = $RA, CS = $CA>,
                        KB: Lay<RS = $RB, CS = $CB>,
                        KC: Lay<RS = $RC, CS = $CC>,
                    >()
                    where
                        KA::L: StridedLayoutType,
                        KB::L: StridedLayoutType,
                        KC::L: StridedLayoutType,
                    {
                        let (m, k, n) = triples();
                        let (m, n) = ($m.unwrap_or(m), $n.unwrap_or(n));
                        let (x, y, z) = (spaced::<KA, T>((m, k)), spaced::<KB, T>((k, n)), spaced::<KC, T>((m, n)));
                        let (al, be) = (T::fresh(), T::fresh());
                        let (a, b) = (x.ro(), y.ro());
                        let mut c = z.rw();
                        <T>::matmul(al, &a, &b, be, &mut c);
                        for i in 0..m {
                            for j in 0..n {
                                z.now(i, j).close(want(&x, &y, &z, al, be, i, j), "C becomes alpha*A*B + beta*C");
                                let g = z.raw(i, j) + 1;
                                if !KC::DENSE && g < z.len {
                                    z.cell(g).same(z.cell_old(g), "memory of C that is no element of C is unchanged");
                                }
                            }
                        }
                        x.frame("A is unchanged");
                        y.frame("B is unchanged");
                        done();
                    }
                };
            }
            large!(big_mm, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic, None, None);
            large!(big_mv, Dynamic, Dynamic, Dynamic, Fixed1, Dynamic, Fixed1, None, Some(1));
            large!(big_vm, Fixed1, Dynamic, Dynamic, Dynamic, Fixed1, Dynamic, Some(1), None);
            shape!(mm, mm_rej, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic, Dynamic, None, None);
            shape!(mv, mv_rej, Dynamic, Dynamic, Dynamic, Fixed1, Dynamic, Fixed1, None, Some(1));
            shape!(vm, vm_rej, Fixed1, Dynamic, Dynamic, Dynamic, Fixed1, Dynamic, Some(1), None);
        }
    };
}
typed!(d, f64);
typed!(s, f32);
typed!(z, c64);
typed!(c, c32);

/// A, B and C are quadrants of one matrix
fn quads() {
    let x = Data::<RM, f64>::any();
    let (m, k, n) = (2, pick(1, 2), 2);
    // rows m | k, columns k | n: quadrant 0 is m x k, quadrant 3 is k x n, quadrant 1 is m x n
    assume(x.d.0 == m + k && x.d.1 == k + n);
    let (al, be) = (f64::fresh(), f64::fresh());
    let mut p = x.rw();
    {
        let (a, mut c, _o, b) = p.split_in_four_mut((m, k));
        f64::matmul(al, &a, &b, be, &mut c);
    }
    let (i, j) = (pick(0, 3), pick(0, 3));
    assume(i < m + k && j < k + n);
    if i < m && j >= k {
        let mut s = 0.0;
        for l in 0..k {
            s = s + x.old(i, l) * x.old(m + l, j);
        }
        x.now(i, j).close(al * s + be * x.old(i, j), "the quadrant becomes alpha*A*B + beta*C");
    } else {
        x.now(i, j).same(x.old(i, j), "the other quadrants are unchanged");
    }
    done();
}
/// blocks of larger matrices
fn blks() {
    let (x, y, z) = (Data::<RM, f64>::any(), Data::<CM, f64>::any(), Data::<RM, f64>::any());
    let (m, k, n) = (pick(lim(2, 1), 2), pick(1, 2), pick(1, 2));
    let (t, u, w) = ((any(), any()), (any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && m <= x.d.0 - t.0 && t.1 <= x.d.1 && k <= x.d.1 - t.1);
    assume(u.0 <= y.d.0 && k <= y.d.0 - u.0 && u.1 <= y.d.1 && n <= y.d.1 - u.1);
    assume(w.0 <= z.d.0 && m <= z.d.0 - w.0 && w.1 <= z.d.1 && n <= z.d.1 - w.1);
    let (al, be) = (f64::fresh(), f64::fresh());
    let (a, b) = (x.ro(), y.ro());
    let mut c = z.rw();
    f64::matmul(al, &a.block(t, (m, k)), &b.block(u, (k, n)), be, &mut c.block_mut(w, (m, n)));
    if pick(0, 1) == 0 {
        let (i, j) = (pick(0, 1), pick(0, 1));
        assume(i < m && j < n);
        let mut s = 0.0;
        for l in 0..k {
            s = s + x.old(t.0 + i, t.1 + l) * y.old(u.0 + l, u.1 + j);
        }
        z.now(w.0 + i, w.1 + j).close(al * s + be * z.old(w.0 + i, w.1 + j), "the block becomes alpha*A*B + beta*C");
    } else {
        let (i, j) = z.pos();
        assume(i < w.0 || i >= w.0 + m || j < w.1 || j >= w.1 + n);
        z.now(i, j).same(z.old(i, j), "elements around the block are unchanged");
    }
    done();
}

harnesses! {
    h_c12_mm_rm_rm_rm = d::mm::<RM, RM, RM>();
    h_c12_mm_rm_cm_rm = d::mm::<RM, CM, RM>();
    h_c12_mm_cm_rm_cm = d::mm::<CM, RM, CM>();
    h_c12_mm_cm_cm_cm = d::mm::<CM, CM, CM>();
    h_c12_mm_arm_rm_acm = d::mm::<ARM, RM, ACM>();
    h_c12_mm_acm_arm_rm = d::mm::<ACM, ARM, RM>();
    h_c12_mm_rm_acm_arm = d::mm::<RM, ACM, ARM>();
    h_c12_mm_arm_arm_arm = d::mm::<ARM, ARM, ARM>();
    h_c12_mm_acm_acm_acm = d::mm::<ACM, ACM, ACM>();
    h_c12_mv_rm_cv_cv = d::mv::<RM, CV, CV>();
    h_c12_mv_cm_acv_cv = d::mv::<CM, ACV, CV>();
    h_c12_mv_arm_cv_acv = d::mv::<ARM, CV, ACV>();
    h_c12_mv_acm_acv_acv = d::mv::<ACM, ACV, ACV>();
    h_c12_vm_rv_rm_rv = d::vm::<RV, RM, RV>();
    h_c12_vm_arv_cm_rv = d::vm::<ARV, CM, RV>();
    h_c12_vm_rv_arm_arv = d::vm::<RV, ARM, ARV>();
    h_c12_vm_arv_acm_arv = d::vm::<ARV, ACM, ARV>();
    h_c12_mm_f32 = s::mm::<RM, ACM, ARM>();
    h_c12_mv_f32 = s::mv::<ARM, CV, ACV>();
    h_c12_vm_f32 = s::vm::<ARV, CM, RV>();
    h_c12_mm_c64 = z::mm::<ARM, CM, ACM>();
    h_c12_mv_c64 = z::mv::<RM, ACV, CV>();
    h_c12_vm_c64 = z::vm::<RV, ARM, ARV>();
    h_c12_mm_c32 = c::mm::<ACM, RM, ARM>();
    h_c12_mv_c32 = c::mv::<CM, CV, ACV>();
    h_c12_vm_c32 = c::vm::<ARV, RM, RV>();
    h_c12_rej_mm_rm = d::mm_rej::<RM, RM, RM>();
    h_c12_rej_mm_arm = d::mm_rej::<ARM, ACM, CM>();
    h_c12_rej_mv = d::mv_rej::<RM, CV, ACV>();
    h_c12_rej_vm = d::vm_rej::<ARV, CM, RV>();
    h_c12_rej_mm_f32 = s::mm_rej::<RM, CM, RM>();
    h_c12_rej_mv_f32 = s::mv_rej::<CM, CV, CV>();
    h_c12_rej_vm_f32 = s::vm_rej::<RV, RM, RV>();
    h_c12_rej_mm_c64 = z::mm_rej::<RM, CM, RM>();
    h_c12_rej_mv_c64 = z::mv_rej::<CM, CV, CV>();
    h_c12_rej_vm_c64 = z::vm_rej::<RV, RM, RV>();
    h_c12_rej_mm_c32 = c::mm_rej::<CM, RM, CM>();
    h_c12_rej_mv_c32 = c::mv_rej::<RM, CV, CV>();
    h_c12_rej_vm_c32 = c::vm_rej::<RV, CM, RV>();
    h_c12_big_mm_rm_cm_rm = d::big_mm::<RM, CM, RM>();
    h_c12_big_mm_arm_acm_cm = d::big_mm::<ARM, ACM, CM>();
    h_c12_big_mm_cm_rm_arm = d::big_mm::<CM, RM, ARM>();
    h_c12_big_mv = d::big_mv::<RM, ACV, CV>();
    h_c12_big_vm = d::big_vm::<ARV, CM, RV>();
    h_c12_big_mm_f32 = s::big_mm::<CM, ARM, RM>();
    h_c12_big_mm_c64 = z::big_mm::<RM, CM, ACM>();
    h_c12_big_mv_c32 = c::big_mv::<ARM, CV, ACV>();
    h_c12_quads = quads();
    h_c12_blks = blks();
}
