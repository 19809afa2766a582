//! C07: a block view is exactly the addressed sub-rectangle of its parent.
use crate::api::*;
use crate::kit::*;

/// a block that fits, possibly empty
#[inline(always)]
fn fitting(d: D2) -> (D2, D2) {
    let t = (any(), any());
    let b = (any(), any());
    assume(t.0 <= d.0 && b.0 <= d.0 - t.0);
    assume(t.1 <= d.1 && b.1 <= d.1 - t.1);
    (t, b)
}
#[inline(always)]
fn outside(d: D2) -> (D2, D2) {
    let t = (any(), any());
    let b = (any(), any());
    assume(t.0 > d.0 || b.0 > d.0 - t.0 || t.1 > d.1 || b.1 > d.1 - t.1);
    (t, b)
}
/// position inside the block
#[inline(always)]
fn inside(b: D2) -> D2 {
    let (i, j) = (any(), any());
    assume(i < b.0);
    assume(j < b.1);
    (i, j)
}

macro_rules! blocks {
    ($mod:ident, $K:ty, $A:ty) => {
        mod $mod {
            use super::*;
            type K = $K;
            /// layout of the block
            type A = $A;
            pub fn accept() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                if pick(0, 1) == 0 {
                    let m = x.ro();
                    let v = m.block(t, b);
                    check(v.dim() == b, "a fitting block has the requested dimension");
                    check(v.layout().number_of_elements() == mul(b.0, b.1), "a fitting block has all its elements");
                    check(v.layout().stride() == x.s, "a block has its parent's strides");
                } else {
                    let mut m = x.rw();
                    let v = m.block_mut(t, b);
                    check(v.dim() == b, "a fitting block has the requested dimension");
                    check(v.layout().number_of_elements() == mul(b.0, b.1), "a fitting block has all its elements");
                    check(v.layout().stride() == x.s, "a block has its parent's strides");
                }
                done();
            }
            pub fn reject() {
                let x = Data::<K, f64>::any();
                let (t, b) = outside(x.d);
                if pick(0, 1) == 0 {
                    let m = x.ro();
                    must_panic("a block outside its parent is rejected", || {
                        m.block(t, b);
                    });
                } else {
                    let mut m = x.rw();
                    must_panic("a mutable block outside its parent is rejected", || {
                        m.block_mut(t, b);
                    });
                }
            }
            pub fn read<T: Sc>() {
                let x = Data::<K, T>::any();
                let (t, b) = fitting(x.d);
                let (i, j) = inside(b);
                let got = match pick(0, 3) {
                    0 => x.ro().block(t, b).get(i, j),
                    1 => x.ro().block(t, b).get1d(one::<A>(b, i, j)),
                    2 => x.rw().block_mut(t, b).get(i, j),
                    _ => x.rw().block_mut(t, b).get1d(one::<A>(b, i, j)),
                };
                got.same(x.now(t.0 + i, t.1 + j), "a block element is the parent's element");
                x.frame("reading a block changes nothing");
                done();
            }
            pub fn write<T: Sc>() {
                let x = Data::<K, T>::any();
                let (t, b) = fitting(x.d);
                let (i, j) = inside(b);
                let v = T::fresh();
                let mut m = x.rw();
                if pick(0, 1) == 0 {
                    *m.block_mut(t, b).get_mut(i, j) = v;
                } else {
                    *m.block_mut(t, b).get1d_mut(one::<A>(b, i, j)) = v;
                }
                m.get(t.0 + i, t.1 + j).same(v, "a write through a block reaches the parent's element");
                x.others(x.raw(t.0 + i, t.1 + j), "a write through a block changes nothing else");
                done();
            }
            /// block of a block
            pub fn nest() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                let (t2, b2) = fitting(b);
                let (i, j) = inside(b2);
                let v = f64::fresh();
                let (pi, pj) = (t.0 + t2.0 + i, t.1 + t2.1 + j);
                match pick(0, 3) {
                    0 => {
                        let m = x.ro();
                        let u = m.block(t, b);
                        let w = u.block(t2, b2);
                        check(w.dim() == b2, "a nested block has the requested dimension");
                        w.get(i, j).same(x.now(pi, pj), "a nested block element is the parent's element");
                    }
                    1 => {
                        let m = x.ro();
                        let u = m.block(t, b);
                        let w = u.block(t2, b2);
                        w.get1d(one::<A>(b2, i, j)).same(x.now(pi, pj), "a nested block element is the parent's element (1D)");
                    }
                    2 => {
                        let mut m = x.rw();
                        let mut u = m.block_mut(t, b);
                        let mut w = u.block_mut(t2, b2);
                        check(w.dim() == b2, "a nested block has the requested dimension");
                        *w.get_mut(i, j) = v;
                        x.now(pi, pj).same(v, "a write through a nested block reaches the parent's element");
                        x.others(x.raw(pi, pj), "a write through a nested block changes nothing else");
                    }
                    _ => {
                        let mut m = x.rw();
                        let mut u = m.block_mut(t, b);
                        let mut w = u.block_mut(t2, b2);
                        *w.get1d_mut(one::<A>(b2, i, j)) = v;
                        x.now(pi, pj).same(v, "a write through a nested block reaches the parent's element (1D)");
                        x.others(x.raw(pi, pj), "a write through a nested block changes nothing else");
                    }
                }
                done();
            }
            pub fn nest_reject() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                let (t2, b2) = outside(b);
                if pick(0, 1) == 0 {
                    let m = x.ro();
                    let u = m.block(t, b);
                    must_panic("a nested block outside its parent is rejected", || {
                        u.block(t2, b2);
                    });
                } else {
                    let mut m = x.rw();
                    let mut u = m.block_mut(t, b);
                    must_panic("a nested mutable block outside its parent is rejected", || {
                        u.block_mut(t2, b2);
                    });
                }
            }
            /// an immutable block of a mutable block of a block
            pub fn nest3() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                let (t2, b2) = fitting(b);
                let (t3, b3) = fitting(b2);
                let (i, j) = inside(b3);
                let mut m = x.rw();
                let mut u = m.block_mut(t, b);
                let w = u.block_mut(t2, b2);
                let y = w.block(t3, b3);
                check(y.dim() == b3, "a nested block has the requested dimension");
                y.get(i, j)
                    .same(x.now(t.0 + t2.0 + t3.0 + i, t.1 + t2.1 + t3.1 + j), "a nested block element is the parent's element");
                done();
            }
            /// an empty block exposes nothing
            pub fn empty() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                assume(b.0 == 0 || b.1 == 0);
                let (a, c) = (any(), any());
                if pick(0, 1) == 0 {
                    let m = x.ro();
                    let v = m.block(t, b);
                    check(v.dim() == b, "an empty block has the requested dimension");
                    check(v.layout().number_of_elements() == 0, "an empty block has no element");
                    match pick(0, 2) {
                        0 => must_panic("an empty block has no element to read", || {
                            v.get(a, c);
                        }),
                        1 => must_panic("an empty block has no element to read (1D)", || {
                            v.get1d(a);
                        }),
                        _ => must_panic("an empty block has no memory", || {
                            v.get_slice(a, c);
                        }),
                    }
                } else {
                    let mut m = x.rw();
                    let mut v = m.block_mut(t, b);
                    check(v.dim() == b, "an empty block has the requested dimension");
                    match pick(0, 2) {
                        0 => must_panic("an empty block has no element to write", || {
                            v.get_mut(a, c);
                        }),
                        1 => must_panic("an empty block has no element to write (1D)", || {
                            v.get1d_mut(a);
                        }),
                        _ => must_panic("an empty mutable block has no memory", || {
                            v.get_slice_mut(a, c);
                        }),
                    }
                }
            }
            /// the raw slice of a block ends at its last element
            pub fn memory() {
                let x = Data::<K, f64>::any();
                let (t, b) = fitting(x.d);
                assume(b.0 > 0 && b.1 > 0);
                let (f, l) = (any(), any());
                let r0 = x.raw(t.0, t.1);
                let r1 = x.raw(t.0 + b.0 - 1, t.1 + b.1 - 1);
                panic_ok(true);
                let (p, n) = if pick(0, 1) == 0 {
                    let m = x.ro();
                    let v = m.block(t, b);
                    let s = v.get_slice(f, l);
                    (s.as_ptr(), s.len())
                } else {
                    let mut m = x.rw();
                    let mut v = m.block_mut(t, b);
                    let s = v.get_slice_mut(f, l);
                    (s.as_ptr(), s.len())
                };
                check(p == unsafe { x.p.add(r0 + f) } as *const f64, "block memory starts at its first element");
                check(r0 + f + n <= r1 + 1, "block memory ends with its last element");
                done();
            }
        }
    };
}
blocks!(rm, RM, ARM);
blocks!(cm, CM, ACM);
blocks!(arm, ARM, ARM);
blocks!(acm, ACM, ACM);

/// blocks of owned matrices
fn owned() {
    let d = (any(), any());
    let n = mul(d.0, d.1);
    assume(n < 1 << 58);
    let (t, b) = fitting(d);
    let (i, j) = inside(b);
    let v = c64::fresh();
    let (a, c) = inside(d);
    if pick(0, 1) == 0 {
        let mut m = MatrixD::<c64, RowMajor>::zeros_from_dim(d.0, d.1);
        *m.block_mut(t, b).get_mut(i, j) = v;
        if a == t.0 + i && c == t.1 + j {
            m.get(a, c).same(v, "a write through a block of an owned matrix reaches its element");
        } else {
            m.get(a, c).same(<c64 as num::Zero>::zero(), "a write through a block of an owned matrix changes nothing else");
        }
    } else {
        let mut m = MatrixD::<c64, ColumnMajor>::zeros_from_dim(d.0, d.1);
        *m.get_mut(t.0 + i, t.1 + j) = v;
        let u = m.block(t, b);
        let (a, c) = inside(b);
        if a == i && c == j {
            u.get(a, c).same(v, "a block of an owned matrix reads its element");
        } else {
            u.get(a, c).same(<c64 as num::Zero>::zero(), "a block of an owned matrix reads its element");
        }
    }
    done();
}

harnesses! {
    h_c07_acc_rm = rm::accept();
    h_c07_acc_cm = cm::accept();
    h_c07_acc_arm = arm::accept();
    h_c07_acc_acm = acm::accept();
    h_c07_rej_rm = rm::reject();
    h_c07_rej_cm = cm::reject();
    h_c07_rej_arm = arm::reject();
    h_c07_rej_acm = acm::reject();
    h_c07_read_rm = rm::read::<f64>();
    h_c07_read_cm = cm::read::<f64>();
    h_c07_read_arm = arm::read::<f64>();
    h_c07_read_acm = acm::read::<f64>();
    h_c07_read_rm_c64 = rm::read::<c64>();
    h_c07_read_acm_f32 = acm::read::<f32>();
    h_c07_write_rm = rm::write::<f64>();
    h_c07_write_cm = cm::write::<f64>();
    h_c07_write_arm = arm::write::<f64>();
    h_c07_write_acm = acm::write::<f64>();
    h_c07_write_cm_c32 = cm::write::<c32>();
    h_c07_nest_rm = rm::nest();
    h_c07_nest_cm = cm::nest();
    h_c07_nest_arm = arm::nest();
    h_c07_nest_acm = acm::nest();
    h_c07_nrej_rm = rm::nest_reject();
    h_c07_nrej_cm = cm::nest_reject();
    h_c07_nrej_arm = arm::nest_reject();
    h_c07_nrej_acm = acm::nest_reject();
    h_c07_nest3_rm = rm::nest3();
    h_c07_nest3_cm = cm::nest3();
    h_c07_nest3_arm = arm::nest3();
    h_c07_empty_rm = rm::empty();
    h_c07_empty_cm = cm::empty();
    h_c07_empty_arm = arm::empty();
    h_c07_empty_acm = acm::empty();
    h_c07_mem_rm = rm::memory();
    h_c07_mem_cm = cm::memory();
    h_c07_mem_arm = arm::memory();
    h_c07_mem_acm = acm::memory();
    h_c07_owned = owned();
}
