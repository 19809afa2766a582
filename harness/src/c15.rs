//! C15: raw slices expose exactly the requested range and reject bad ranges; pointers address element (0, 0).
use crate::api::*;
use crate::kit::*;

/// requests against a container of `n` elements starting at `base`
macro_rules! ranges {
    ($m:expr, $get:ident, $base:expr, $n:expr, $old:expr) => {{
        let (base, n) = ($base, $n);
        let (first, last) = (any(), any());
        match pick(0, 2) {
            0 => {
                assume(first < last);
                assume(last <= n);
                let s = $m.$get(first, last);
                check(s.len() == last - first, "the slice has the requested length");
                check(s.as_ptr() as usize == unsafe { base.add(first) } as usize, "the slice starts at the requested position");
                let k = any();
                assume(k < last - first);
                s[k].same($old(first + k), "the slice holds the container's elements in order");
                done();
            }
            1 => {
                assume(first >= last);
                must_panic("an empty or reversed range is rejected", || {
                    $m.$get(first, last);
                });
            }
            _ => {
                assume(first < last);
                assume(last > n);
                must_panic("a range beyond the container is rejected", || {
                    $m.$get(first, last);
                });
            }
        }
    }};
}
fn ro<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let m = x.ro();
    ranges!(m, get_slice, x.p, x.len, |r| x.cell_old(r))
}
fn rw<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let mut m = x.rw();
    if pick(0, 1) == 0 {
        ranges!(m, get_slice, x.p, x.len, |r| x.cell_old(r))
    } else {
        ranges!(m, get_slice_mut, x.p, x.len, |r| x.cell_old(r))
    }
}
/// a write through a raw slice changes that raw position and nothing else
fn poke<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (first, last, k) = (any(), any(), any());
    assume(first < last);
    assume(last <= x.len);
    assume(k < last - first);
    let w = T::fresh();
    let mut m = x.rw();
    m.get_slice_mut(first, last)[k] = w;
    if pick(0, 1) == 0 {
        x.cell(first + k).same(w, "a write through the slice lands in the requested raw position");
    } else {
        x.others(first + k, "a write through the slice changes nothing else");
    }
    done();
}
/// the containers themselves
fn containers<T: Sc>() {
    let n = any();
    let p = T::buf(n);
    match pick(0, 3) {
        0 => {
            let c = SliceContainer::new(unsafe { std::slice::from_raw_parts(p, n) });
            check(c.number_of_elements() == n, "the container has all elements");
            check(c.get_pointer() == p as *const T, "the pointer addresses the first element");
            ranges!(c, get_slice, p, n, |r: usize| T::init(unsafe { p.add(r) }))
        }
        1 => {
            let c = SliceContainerMut::new(unsafe { std::slice::from_raw_parts_mut(p, n) });
            check(c.number_of_elements() == n, "the container has all elements");
            check(c.get_pointer() == p as *const T, "the pointer addresses the first element");
            ranges!(c, get_slice, p, n, |r: usize| T::init(unsafe { p.add(r) }))
        }
        _ => {
            let mut c = SliceContainerMut::new(unsafe { std::slice::from_raw_parts_mut(p, n) });
            check(c.get_pointer_mut() == p, "the mutable pointer addresses the first element");
            ranges!(c, get_slice_mut, p, n, |r: usize| T::init(unsafe { p.add(r) }))
        }
    }
}
fn vector<T: Sc>() {
    let n = any();
    assume(n < 1 << 58);
    let mut c = VectorContainer::<T>::new(n);
    check(c.number_of_elements() == n, "the container has all elements");
    let base = c.get_pointer();
    check(c.get_pointer_mut() as *const T == base, "both pointers agree");
    if pick(0, 1) == 0 {
        ranges!(c, get_slice, base, n, |_r: usize| T::zero())
    } else {
        ranges!(c, get_slice_mut, base, n, |_r: usize| T::zero())
    }
}
fn array<T: Sc>() {
    let mut c = ArrayContainer::<T, 6>::new();
    check(c.number_of_elements() == 6, "the container has all elements");
    let base = c.get_pointer();
    check(c.get_pointer_mut() as *const T == base, "both pointers agree");
    let k = below(6);
    let w = T::fresh();
    *unsafe { c.get_unchecked_mut(k) } = w;
    let z = move |r: usize| if r == k { w } else { T::zero() };
    if pick(0, 1) == 0 {
        ranges!(c, get_slice, base, 6, z)
    } else {
        ranges!(c, get_slice_mut, base, 6, z)
    }
}
/// owned matrices
macro_rules! owned {
    ($name:ident, $ty:ty, $K:ty) => {
        fn $name<T: Sc>() {
            let d = <$K>::shape((any(), any()));
            let n = count::<$K>(d);
            assume(n < 1 << 58);
            assume(d.0 < 1 << 28 || !<$K as Lay>::TRI);
            let mut m = <$ty>::zeros_from_dim(d.0, d.1);
            let base = m.get_pointer();
            check(m.get_pointer_mut() as *const T == base, "both pointers agree");
            if pick(0, 1) == 0 {
                ranges!(m, get_slice, base, n, |_r: usize| T::zero())
            } else {
                ranges!(m, get_slice_mut, base, n, |_r: usize| T::zero())
            }
        }
    };
}
owned!(own_rm, MatrixD<T, RowMajor>, RM);
owned!(own_cm, MatrixD<T, ColumnMajor>, CM);
owned!(own_rv, RowVectorD<T>, RV);
owned!(own_cv, ColumnVectorD<T>, CV);
owned!(own_ut, UpperTriangularMatrix<T>, UT);
/// fixed-size matrices
macro_rules! fixed {
    ($name:ident, $F:ident, $R:literal, $C:literal) => {
        fn $name() {
            let mut m = $F::<f64, RowMajor>::zeros_from_dim();
            let base = m.get_pointer();
            check(m.get_pointer_mut() as *const f64 == base, "both pointers agree");
            check(m.get_mut(0, 0) as *mut f64 as *const f64 == base, "the pointer addresses element (0, 0)");
            if pick(0, 1) == 0 {
                ranges!(m, get_slice, base, $R * $C, |_r: usize| 0.0)
            } else {
                ranges!(m, get_slice_mut, base, $R * $C, |_r: usize| 0.0)
            }
        }
    };
}
fixed!(fix22, Matrix22, 2, 2);
fixed!(fix33, Matrix33, 3, 3);
fixed!(fix23, Matrix23, 2, 3);
fixed!(fix32, Matrix32, 3, 2);

/// pointers
fn ptr<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let mut m = x.rw();
    check(m.get_pointer() == x.p as *const T, "the pointer addresses the container's first element");
    check(m.get_pointer_mut() == x.p, "the mutable pointer addresses the container's first element");
    check(x.ro().get_pointer() == x.p as *const T, "the pointer addresses the container's first element");
    assume(x.d.0 > 0 && x.d.1 > 0);
    if K::TRI {
        let n = x.d.0;
        check(m.get_mut(n - 1, n - 1) as *mut T == x.p, "the pointer addresses the element at raw position 0");
    } else {
        check(m.get_mut(0, 0) as *mut T == x.p, "the pointer addresses element (0, 0)");
    }
    done();
}
/// blocks: the pointer addresses the block's first element; the container is the span of the block
macro_rules! blk {
    ($name:ident, $K:ty) => {
        fn $name<T: Sc>() {
            let x = Data::<$K, T>::any();
            let t = (any(), any());
            let b = (any(), any());
            assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
            assume(b.0 > 0 && b.1 > 0);
            let e = (b.0 - 1) * x.s.0 + (b.1 - 1) * x.s.1 + 1;
            let o = x.raw(t.0, t.1);
            let base = x.at(t.0, t.1) as *const T;
            match pick(0, 2) {
                0 => {
                    let mut m = x.rw();
                    check(m.block(t, b).get_pointer() == base, "a block's pointer addresses its element (0, 0)");
                    let mut q = m.block_mut(t, b);
                    check(q.get_pointer_mut() as *const T == base, "a block's pointer addresses its element (0, 0)");
                    check(q.get_mut(0, 0) as *const T == base, "a block's pointer addresses its element (0, 0)");
                    done();
                }
                1 => {
                    let m = x.ro();
                    let q = m.block(t, b);
                    ranges!(q, get_slice, base, e, |r: usize| x.cell_old(o + r))
                }
                _ => {
                    let mut m = x.rw();
                    let mut q = m.block_mut(t, b);
                    ranges!(q, get_slice_mut, base, e, |r: usize| x.cell_old(o + r))
                }
            }
        }
    };
}
blk!(blk_rm, RM);
blk!(blk_cm, CM);
blk!(blk_arm, ARM);
blk!(blk_acm, ACM);
/// the quadrants of a split
fn quads() {
    let x = Data::<RM, f64>::any();
    let a = (any(), any());
    let k = pick(0, 3);
    assume(a.0 <= x.d.0 && a.1 <= x.d.1);
    let t = (if k >= 2 { a.0 } else { 0 }, if k % 2 == 1 { a.1 } else { 0 });
    let b = (if k >= 2 { x.d.0 - a.0 } else { a.0 }, if k % 2 == 1 { x.d.1 - a.1 } else { a.1 });
    assume(b.0 > 0 && b.1 > 0);
    let e = (b.0 - 1) * x.s.0 + (b.1 - 1) * x.s.1 + 1;
    let o = x.raw(t.0, t.1);
    let base = x.at(t.0, t.1) as *const f64;
    let mut m = x.rw();
    let (q0, q1, q2, q3) = m.split_in_four_mut(a);
    let mut q = match k {
        0 => q0,
        1 => q1,
        2 => q2,
        _ => q3,
    };
    check(q.get_pointer() == base, "a quadrant's pointer addresses its element (0, 0)");
    check(q.get_mut(0, 0) as *const f64 == base, "a quadrant's pointer addresses its element (0, 0)");
    ranges!(q, get_slice_mut, base, e, |r: usize| x.cell_old(o + r))
}

harnesses! {
    h_c15_ro_rm = ro::<RM, f64>();
    h_c15_ro_cm = ro::<CM, c64>();
    h_c15_ro_rv = ro::<RV, f64>();
    h_c15_ro_cv = ro::<CV, f32>();
    h_c15_ro_arm = ro::<ARM, f64>();
    h_c15_ro_acm = ro::<ACM, f64>();
    h_c15_ro_arv = ro::<ARV, c32>();
    h_c15_ro_acv = ro::<ACV, f64>();
    h_c15_ro_ut = ro::<UT, f64>();
    h_c15_rw_rm = rw::<RM, f64>();
    h_c15_rw_cm = rw::<CM, f64>();
    h_c15_rw_rv = rw::<RV, f64>();
    h_c15_rw_cv = rw::<CV, f64>();
    h_c15_rw_arm = rw::<ARM, f64>();
    h_c15_rw_acm = rw::<ACM, c64>();
    h_c15_rw_arv = rw::<ARV, f64>();
    h_c15_rw_acv = rw::<ACV, f64>();
    h_c15_rw_ut = rw::<UT, f32>();
    h_c15_poke_rm = poke::<RM, f64>();
    h_c15_poke_arm = poke::<ARM, f64>();
    h_c15_poke_ut = poke::<UT, f64>();
    h_c15_poke_c64 = poke::<CM, c64>();
    h_c15_cont_f64 = containers::<f64>();
    h_c15_cont_f32 = containers::<f32>();
    h_c15_cont_c64 = containers::<c64>();
    h_c15_cont_c32 = containers::<c32>();
    h_c15_vec_f64 = vector::<f64>();
    h_c15_vec_c32 = vector::<c32>();
    h_c15_arr_f64 = array::<f64>();
    h_c15_arr_c64 = array::<c64>();
    h_c15_own_rm = own_rm::<f64>();
    h_c15_own_cm = own_cm::<f32>();
    h_c15_own_rv = own_rv::<c64>();
    h_c15_own_cv = own_cv::<f64>();
    h_c15_own_ut = own_ut::<f64>();
    h_c15_fix22 = fix22();
    h_c15_fix33 = fix33();
    h_c15_fix23 = fix23();
    h_c15_fix32 = fix32();
    h_c15_ptr_rm = ptr::<RM, f64>();
    h_c15_ptr_cm = ptr::<CM, f32>();
    h_c15_ptr_rv = ptr::<RV, f64>();
    h_c15_ptr_cv = ptr::<CV, f64>();
    h_c15_ptr_arm = ptr::<ARM, c64>();
    h_c15_ptr_acm = ptr::<ACM, f64>();
    h_c15_ptr_arv = ptr::<ARV, f64>();
    h_c15_ptr_acv = ptr::<ACV, f64>();
    h_c15_ptr_ut = ptr::<UT, f64>();
    h_c15_blk_rm = blk_rm::<f64>();
    h_c15_blk_cm = blk_cm::<f64>();
    h_c15_blk_arm = blk_arm::<f64>();
    h_c15_blk_acm = blk_acm::<c64>();
    h_c15_quads = quads();
}
