//! C14: for_each visits every element exactly once, in 1D order, and nothing else.
use crate::api::*;
use crate::kit::*;

/// small dimension, free stride that keeps the elements apart
#[inline(always)]
fn data<K: Lay, T: Sc>() -> Data<K, T> {
    let d = K::shape((pick(0, lim(3, 4)), pick(0, lim(3, 4))));
    let s = K::stride(d, (any(), any()));
    assume_distinct::<K>(d, s);
    Data::over(d, s)
}
/// position of a 1D index (independent of the library)
#[inline(always)]
fn pos<K: Lay>(d: D2, k: usize) -> D2 {
    if K::TRI {
        for i in 0..d.0 {
            for j in i..d.0 {
                if one::<K>(d, i, j) == k {
                    return (i, j);
                }
            }
        }
        (0, 0)
    } else {
        two::<K>(d, k)
    }
}
/// a raw position that belongs to no element
#[inline(always)]
fn gap<K: Lay, T: Sc>(z: &Data<K, T>) -> usize {
    let q = any();
    assume(q < z.len);
    for k in 0..z.n {
        let (i, j) = pos::<K>(z.d, k);
        assume(q != z.raw(i, j));
    }
    q
}
/// the references handed out are those of the elements, once each, in order
fn visit<K: Lay, T: Sc>() {
    let x = data::<K, T>();
    let mut m = x.rw();
    let mut c = 0;
    m.for_each(|v| {
        check(c < x.n, "no more calls than elements");
        let (i, j) = pos::<K>(x.d, c);
        check(v as *mut T == x.at(i, j), "the call receives the next element in 1D order");
        v.same(x.old(i, j), "the element has its value when it is visited");
        c += 1;
    });
    check(c == x.n, "one call per element");
    x.frame("visiting alone changes nothing");
    done();
}
/// what is written is what later reads return
fn write<K: Lay, T: Sc>() {
    let x = data::<K, T>();
    let w = T::fresh();
    let mut m = x.rw();
    let mut c = 0;
    let k = pick(0, lim(8, 15));
    let g = pick(0, 1);
    assume(if g == 0 { k < x.n } else { k == 0 });
    m.for_each(|v| {
        *v = if c == k { w } else { *v + w };
        c += 1;
    });
    if g == 0 {
        let (i, j) = pos::<K>(x.d, k);
        match pick(0, 3) {
            0 => m.get(i, j).same(w, "the written value is read back"),
            1 => m.get1d(k).same(w, "the written value is read back (1D)"),
            2 => x.now(i, j).same(w, "the written value is stored in the element"),
            _ => {
                let (a, b) = x.pos();
                assume(a != i || b != j);
                m.get(a, b).same(x.old(a, b) + w, "every other element has its own written value");
            }
        }
    } else {
        let q = gap(&x);
        x.cell(q).same(x.cell_old(q), "memory that is no element is not touched");
    }
    done();
}
/// owned matrices
macro_rules! owned {
    ($name:ident, $ty:ty, $K:ty) => {
        fn $name<T: Sc>() {
            let d = <$K>::shape((pick(0, lim(3, 4)), pick(0, lim(3, 4))));
            let mut m = <$ty>::zeros_from_dim(d.0, d.1);
            let n = count::<$K>(d);
            let w = T::fresh();
            let k = pick(0, lim(8, 15));
            assume(k < n || (n == 0 && k == 0));
            let mut c = 0;
            let base = m.get_pointer();
            m.for_each(|v| {
                check(c < n, "no more calls than elements");
                check(v as *const T == unsafe { base.add(c) }, "the call receives the next element in 1D order");
                if c == k {
                    *v = w;
                }
                c += 1;
            });
            check(c == n, "one call per element");
            if n > 0 {
                let (i, j) = pos::<$K>(d, k);
                if pick(0, 1) == 0 {
                    m.get(i, j).same(w, "the written value is read back");
                } else {
                    let (a, b) = any_pos::<$K>(d);
                    assume(a != i || b != j);
                    m.get(a, b).same(num::Zero::zero(), "elements not written keep their value");
                }
            }
            done();
        }
    };
}
owned!(own_rm, MatrixD<T, RowMajor>, RM);
owned!(own_cm, MatrixD<T, ColumnMajor>, CM);
owned!(own_rv, RowVectorD<T>, RV);
owned!(own_cv, ColumnVectorD<T>, CV);
owned!(own_ut, UpperTriangularMatrix<T>, UT);
/// fixed-size matrices
macro_rules! fixed {
    ($name:ident, $F:ident, $R:literal, $C:literal, $L:ty, $K:ty) => {
        fn $name() {
            let mut m = $F::<f64, $L>::zeros_from_dim();
            let w = f64::fresh();
            let k = below($R * $C);
            let mut c = 0;
            m.for_each(|v| {
                if c == k {
                    *v = w;
                }
                c += 1;
            });
            check(c == $R * $C, "one call per element");
            let (i, j) = two::<$K>(($R, $C), k);
            m.get(i, j).same(w, "the written value is read back");
            let (a, b) = any_pos::<$K>(($R, $C));
            assume(a != i || b != j);
            m.get(a, b).same(0.0, "elements not written keep their value");
            done();
        }
    };
}
fixed!(fix23r, Matrix23, 2, 3, RowMajor, RM);
fixed!(fix32c, Matrix32, 3, 2, ColumnMajor, CM);

/// a mutable block: the elements of the block, row by row / column by column, and nothing around them
macro_rules! blk {
    ($name:ident, $K:ty) => {
        fn $name<T: Sc>() {
            let x = Data::<$K, T>::any();
            let t = (any(), any());
            let b = (pick(0, lim(3, 4)), pick(0, lim(3, 4)));
            assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
            let w = T::fresh();
            let mut m = x.rw();
            let mut c = 0;
            m.block_mut(t, b).for_each(|v| {
                check(c < b.0 * b.1, "no more calls than elements");
                let (i, j) = two::<$K>(b, c);
                check(v as *mut T == x.at(t.0 + i, t.1 + j), "the call receives the next element in 1D order");
                *v = w;
                c += 1;
            });
            check(c == b.0 * b.1, "one call per element");
            let q = any();
            assume(q < x.len);
            for k in 0..b.0 * b.1 {
                let (i, j) = two::<$K>(b, k);
                assume(q != x.raw(t.0 + i, t.1 + j));
            }
            x.cell(q).same(x.cell_old(q), "memory that is no element of the block is not touched");
            done();
        }
    };
}
blk!(blk_rm, RM);
blk!(blk_cm, CM);
blk!(blk_arm, ARM);
blk!(blk_acm, ACM);

/// many dimensions: each element once, in order, and every cell afterwards
fn big<K: Lay, T: Sc>() {
    let x = many::<K, T>();
    let w = T::fresh();
    let mut m = x.rw();
    let mut c = 0;
    let (mut i, mut j) = if K::TRI && x.d.0 > 0 { (x.d.0 - 1, x.d.0 - 1) } else { (0, 0) };
    m.for_each(|v| {
        check(c < x.n, "no more calls than elements");
        check(v as *mut T == x.at(i, j), "the call receives the next element in 1D order");
        v.same(x.old(i, j), "the element has its value when it is visited");
        *v = *v + w;
        c += 1;
        if K::TRI {
            j += 1;
            if j == x.d.1 && i > 0 {
                i -= 1;
                j = i;
            }
        } else if K::BYROW {
            j += 1;
            if j == x.d.1 {
                j = 0;
                i += 1;
            }
        } else {
            i += 1;
            if i == x.d.0 {
                i = 0;
                j += 1;
            }
        }
    });
    check(c == x.n, "one call per element");
    for i in 0..x.d.0 {
        for j in (if K::TRI { i } else { 0 })..x.d.1 {
            m.get(i, j).same(x.old(i, j) + w, "the written value is read back");
        }
    }
    if !K::DENSE {
        // the strides are such that the cell behind an element is none
        for r in 0..x.d.0 {
            for q in 0..x.d.1 {
                let p = x.raw(r, q) + 1;
                if p < x.len {
                    x.cell(p).same(x.cell_old(p), "memory that is no element is not touched");
                }
            }
        }
    }
    done();
}
fn big_fixed() {
    let mut m = Matrix33::<f64, ColumnMajor>::zeros_from_dim();
    let w = f64::fresh();
    let mut c = 0.0;
    m.for_each(|v| {
        *v = w + c;
        c += 1.0;
    });
    check(c == 9.0, "one call per element");
    for i in 0..3 {
        for j in 0..3 {
            m.get(i, j).same(w + ((3 * j + i) as f64), "the written value is read back");
        }
    }
    done();
}

/// a matrix of any size whatsoever: the first visits, and an end only where the elements end
fn far<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let mut m = x.rw();
    let mut c = 0;
    m.for_each(|v| {
        assume(c < lim(4, 7));
        check(c < x.n, "no more calls than elements");
        let (i, j) = if K::TRI {
            let (back, off) = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0)][c];
            (x.d.0 - 1 - back, x.d.0 - 1 - back + off)
        } else {
            two::<K>(x.d, c)
        };
        check(v as *mut T == x.at(i, j), "the call receives the next element in 1D order");
        c += 1;
    });
    check(c == x.n, "one call per element");
    done();
}

harnesses! {
    h_c14_far_rm = far::<RM, f64>();
    h_c14_far_cm = far::<CM, f32>();
    h_c14_far_rv = far::<RV, c64>();
    h_c14_far_cv = far::<CV, f64>();
    h_c14_far_arm = far::<ARM, f64>();
    h_c14_far_acm = far::<ACM, f64>();
    h_c14_far_arv = far::<ARV, c32>();
    h_c14_far_acv = far::<ACV, f64>();
    h_c14_far_ut = far::<UT, f64>();
    h_c14_big_rm = big::<RM, f64>();
    h_c14_big_cm = big::<CM, f64>();
    h_c14_big_rv = big::<RV, f32>();
    h_c14_big_cv = big::<CV, f64>();
    h_c14_big_arm = big::<ARM, f64>();
    h_c14_big_acm = big::<ACM, c64>();
    h_c14_big_arv = big::<ARV, f64>();
    h_c14_big_acv = big::<ACV, f64>();
    h_c14_big_ut = big::<UT, c32>();
    h_c14_big_fix33 = big_fixed();
    h_c14_v_rm = visit::<RM, f64>();
    h_c14_v_cm = visit::<CM, f64>();
    h_c14_v_rv = visit::<RV, f64>();
    h_c14_v_cv = visit::<CV, f64>();
    h_c14_v_arm = visit::<ARM, f64>();
    h_c14_v_acm = visit::<ACM, f64>();
    h_c14_v_arv = visit::<ARV, f64>();
    h_c14_v_acv = visit::<ACV, f64>();
    h_c14_v_ut = visit::<UT, f64>();
    h_c14_v_arm_c64 = visit::<ARM, c64>();
    h_c14_v_cm_f32 = visit::<CM, f32>();
    h_c14_v_ut_c32 = visit::<UT, c32>();
    h_c14_w_rm = write::<RM, f64>();
    h_c14_w_cm = write::<CM, f32>();
    h_c14_w_rv = write::<RV, f64>();
    h_c14_w_cv = write::<CV, f64>();
    h_c14_w_arm = write::<ARM, f64>();
    h_c14_w_acm = write::<ACM, f64>();
    h_c14_w_arv = write::<ARV, f64>();
    h_c14_w_acv = write::<ACV, f64>();
    h_c14_w_ut = write::<UT, f64>();
    h_c14_own_rm = own_rm::<f64>();
    h_c14_own_cm = own_cm::<f64>();
    h_c14_own_rv = own_rv::<f32>();
    h_c14_own_cv = own_cv::<c64>();
    h_c14_own_ut = own_ut::<f64>();
    h_c14_fix23 = fix23r();
    h_c14_fix32 = fix32c();
    h_c14_blk_rm = blk_rm::<f64>();
    h_c14_blk_cm = blk_cm::<f64>();
    h_c14_blk_arm = blk_arm::<f64>();
    h_c14_blk_acm = blk_acm::<c64>();
}
