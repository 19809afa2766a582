//! C13: dot returns the matrix product in a new object of the right shape.
use crate::api::*;
use crate::kit::*;
use householder::matrix_multiply::Dot;

#[inline(always)]
fn dims() -> (usize, usize, usize) {
    (pick(0, lim(3, 4)), pick(0, lim(3, 4)), pick(0, lim(3, 4)))
}
#[inline(always)]
fn inp<K: Lay>(d: D2) -> Data<K, f64> {
    Data::over(d, K::stride(d, (any(), any())))
}
#[inline(always)]
fn want<KA: Lay, KB: Lay>(x: &Data<KA, f64>, y: &Data<KB, f64>, i: usize, j: usize) -> f64 {
    let mut s = 0.0;
    for l in 0..x.d.1 {
        s = s + x.old(i, l) * y.old(l, j);
    }
    s
}

macro_rules! shape {
    ($name:ident, $rej:ident, $RA:ty, $CA:ty, $RB:ty, $CB:ty, $KC:ty, $m:expr, $n:expr) => {
        fn $name<KA: Lay<RS = $RA, CS = $CA>, KB: Lay<RS = $RB, CS = $CB>>()
        where
            KA::L: StridedLayoutType,
            KB::L: StridedLayoutType,
        {
            let (m, k, n) = dims();
            let (m, n) = ($m.unwrap_or(m), $n.unwrap_or(n));
            let (x, y) = (inp::<KA>((m, k)), inp::<KB>((k, n)));
            let (a, b) = (x.ro(), y.ro());
            let r = a.dot(&b);
            check(r.dim() == (m, n), "the result has the rows of the left and the columns of the right operand");
            check(r.layout().number_of_elements() == m * n, "the result has all elements");
            match pick(0, 4) {
                0 => x.frame("the left operand is unchanged"),
                1 => y.frame("the right operand is unchanged"),
                q => {
                    let (i, j) = (pick(0, lim(2, 3)), pick(0, lim(2, 3)));
                    assume(i < m && j < n);
                    let w = want(&x, &y, i, j);
                    let o = one::<$KC>((m, n), i, j);
                    match q {
                        2 => r.get(i, j).close(w, "a result element is the row times the column"),
                        3 => r.get1d(o).close(w, "a result element is the row times the column (1D)"),
                        _ => r.get_slice(o, o + 1)[0].close(w, "the result is stored densely in 1D order"),
                    }
                }
            }
            done();
        }
        fn $rej<KA: Lay<RS = $RA, CS = $CA>, KB: Lay<RS = $RB, CS = $CB>>()
        where
            KA::L: StridedLayoutType,
            KB::L: StridedLayoutType,
        {
            let (m, n) = ($m.unwrap_or(pick(0, lim(2, 3))), $n.unwrap_or(pick(0, lim(2, 3))));
            let (k, l) = (any(), any());
            assume(k != l);
            let (x, y) = (inp::<KA>((m, k)), inp::<KB>((l, n)));
            let (a, b) = (x.ro(), y.ro());
            must_panic("different inner dimensions are rejected", || {
                a.dot(&b);
            });
        }
    };
}
macro_rules! large {
    ($name:ident, $RA:ty, $CA:ty, $RB:ty, $CB:ty, $KC:ty, $m:expr, $n:expr) => {
        /// many sizes, fixed strides: every element of the result
        fn $name<KA: Lay<RS = $RA, CS = $CA>, KB: Lay<RS = $RB, CS = $CB>>()
        where
            KA::L: StridedLayoutType,
            KB::L: StridedLayoutType,
        {
            let (m, k, n) = triples();
            let (m, n) = ($m.unwrap_or(m), $n.unwrap_or(n));
            let (x, y) = (spaced::<KA, f64>((m, k)), spaced::<KB, f64>((k, n)));
            let (a, b) = (x.ro(), y.ro());
            let r = a.dot(&b);
            check(r.dim() == (m, n), "the result has the rows of the left and the columns of the right operand");
            check(r.layout().number_of_elements() == m * n, "the result has all elements");
            for i in 0..m {
                for j in 0..n {
                    let w = want(&x, &y, i, j);
                    r.get(i, j).close(w, "a result element is the row times the column");
                    r.get1d(one::<$KC>((m, n), i, j)).close(w, "a result element is the row times the column (1D)");
                }
            }
            x.frame("the left operand is unchanged");
            y.frame("the right operand is unchanged");
            done();
        }
    };
}
large!(big_mm, Dynamic, Dynamic, Dynamic, Dynamic, RM, None, None);
large!(big_mv, Dynamic, Dynamic, Dynamic, Fixed1, CV, None, Some(1));
large!(big_vm, Fixed1, Dynamic, Dynamic, Dynamic, RV, Some(1), None);
shape!(mm, mm_rej, Dynamic, Dynamic, Dynamic, Dynamic, RM, None, None);
shape!(mv, mv_rej, Dynamic, Dynamic, Dynamic, Fixed1, CV, None, Some(1));
shape!(vm, vm_rej, Fixed1, Dynamic, Dynamic, Dynamic, RV, Some(1), None);

/// blocks of larger matrices
fn blks() {
    let (x, y) = (Data::<RM, f64>::any(), Data::<CM, f64>::any());
    let (m, k, n) = (pick(1, 2), pick(1, 2), pick(1, 2));
    let (t, u) = ((any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && m <= x.d.0 - t.0 && t.1 <= x.d.1 && k <= x.d.1 - t.1);
    assume(u.0 <= y.d.0 && k <= y.d.0 - u.0 && u.1 <= y.d.1 && n <= y.d.1 - u.1);
    let (a, b) = (x.ro(), y.ro());
    let r = a.block(t, (m, k)).dot(&b.block(u, (k, n)));
    check(r.dim() == (m, n), "the result has the rows of the left and the columns of the right operand");
    let (i, j) = (pick(0, 1), pick(0, 1));
    assume(i < m && j < n);
    let mut s = 0.0;
    for l in 0..k {
        s = s + x.old(t.0 + i, t.1 + l) * y.old(u.0 + l, u.1 + j);
    }
    r.get(i, j).close(s, "a result element is the row times the column");
    done();
}
/// products of products, products of evaluated expressions; a matrix with itself
fn chain<K: Lay<RS = Dynamic, CS = Dynamic>>()
where
    K::L: StridedLayoutType,
    <K::L as LayoutType>::IndexLayout: StridedLayoutType,
{
    let n = pick(0, 2);
    let x = inp::<K>((n, n));
    let v = inp::<CV>((n, 1));
    let a = x.ro();
    let b = v.ro();
    let i = pick(0, 1);
    assume(i < n);
    if pick(0, 1) == 0 {
        let r = a.dot(&a).dot(&b);
        check(r.dim() == (n, 1), "the result has the rows of the left and the columns of the right operand");
        let mut s = 0.0;
        for p in 0..n {
            for q in 0..n {
                s = s + x.old(i, p) * x.old(p, q) * v.old(q, 0);
            }
        }
        r.get(i, 0).close(s, "a result element is the row times the column");
    } else {
        let r = a.eval().dot(&a.dot(&b));
        let mut s = 0.0;
        for p in 0..n {
            for q in 0..n {
                s = s + x.old(i, p) * x.old(p, q) * v.old(q, 0);
            }
        }
        r.get1d(i).close(s, "a result element is the row times the column");
    }
    done();
}
/// result and operands are independent
fn indep<K: Lay<RS = Dynamic, CS = Dynamic>>()
where
    K::L: StridedLayoutType,
{
    let (m, k, n) = (pick(1, 2), pick(1, 2), pick(1, 2));
    let x = inp::<K>((m, k));
    let y = inp::<RM>((k, n));
    let w = f64::fresh();
    let mut a = x.rw();
    let b = y.ro();
    let mut r = a.dot(&b);
    let (i, j) = (pick(0, 1), pick(0, 1));
    assume(i < m && j < n);
    if pick(0, 1) == 0 {
        *r.get_mut(i, j) = w;
        r.get(i, j).same(w, "the result is writable");
        if pick(0, 1) == 0 {
            x.frame("the operands do not depend on the result")
        } else {
            y.frame("the operands do not depend on the result")
        }
    } else {
        let (p, q) = x.pos();
        *a.get_mut(p, q) = w;
        r.get(i, j).close(want(&x, &y, i, j), "the result does not depend on later changes of an operand");
    }
    done();
}

harnesses! {
    h_c13_mm_rm_rm = mm::<RM, RM>();
    h_c13_mm_rm_cm = mm::<RM, CM>();
    h_c13_mm_cm_rm = mm::<CM, RM>();
    h_c13_mm_cm_cm = mm::<CM, CM>();
    h_c13_mm_arm_acm = mm::<ARM, ACM>();
    h_c13_mm_acm_arm = mm::<ACM, ARM>();
    h_c13_mm_rm_arm = mm::<RM, ARM>();
    h_c13_mm_acm_cm = mm::<ACM, CM>();
    h_c13_mv_rm_cv = mv::<RM, CV>();
    h_c13_mv_cm_acv = mv::<CM, ACV>();
    h_c13_mv_arm_acv = mv::<ARM, ACV>();
    h_c13_mv_acm_cv = mv::<ACM, CV>();
    h_c13_vm_rv_rm = vm::<RV, RM>();
    h_c13_vm_arv_cm = vm::<ARV, CM>();
    h_c13_vm_arv_arm = vm::<ARV, ARM>();
    h_c13_vm_rv_acm = vm::<RV, ACM>();
    h_c13_rej_mm_rm_cm = mm_rej::<RM, CM>();
    h_c13_rej_mm_arm_acm = mm_rej::<ARM, ACM>();
    h_c13_rej_mm_cm_cm = mm_rej::<CM, CM>();
    h_c13_rej_mv_rm = mv_rej::<RM, CV>();
    h_c13_rej_mv_acm = mv_rej::<ACM, ACV>();
    h_c13_rej_vm_cm = vm_rej::<RV, CM>();
    h_c13_rej_vm_arm = vm_rej::<ARV, ARM>();
    h_c13_big_mm_rm_cm = big_mm::<RM, CM>();
    h_c13_big_mm_cm_rm = big_mm::<CM, RM>();
    h_c13_big_mm_arm_acm = big_mm::<ARM, ACM>();
    h_c13_big_mv = big_mv::<RM, ACV>();
    h_c13_big_mv_cm = big_mv::<CM, CV>();
    h_c13_big_vm = big_vm::<ARV, CM>();
    h_c13_big_vm_rm = big_vm::<RV, RM>();
    h_c13_blks = blks();
    h_c13_chain_rm = chain::<RM>();
    h_c13_chain_acm = chain::<ACM>();
    h_c13_ind_cm = indep::<CM>();
    h_c13_ind_arm = indep::<ARM>();
}
