//! C08: splitting in four partitions the parent into independent blocks.
use crate::api::*;
use crate::kit::*;

type B<T> = SliceMatrixMut<'static, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>;

/// any parent together with a split position inside of it
#[inline(always)]
fn parts() -> (D2, D2) {
    let (u, l, a, b) = (any(), any(), any(), any());
    ((add(u, l), add(a, b)), (u, a))
}
#[inline(always)]
fn data<T: Sc>() -> (Data<RM, T>, D2) {
    let (d, s) = parts();
    (Data::over(d, (d.1, 1)), s)
}
/// origin and dimension of quadrant k
#[inline(always)]
fn quad(d: D2, s: D2, k: usize) -> (D2, D2) {
    match k {
        0 => ((0, 0), s),
        1 => ((0, s.1), (s.0, d.1 - s.1)),
        2 => ((s.0, 0), (d.0 - s.0, s.1)),
        _ => (s, (d.0 - s.0, d.1 - s.1)),
    }
}
macro_rules! choose {
    ($q:expr, $k:expr) => {
        match $k {
            0 => &mut $q.0,
            1 => &mut $q.1,
            2 => &mut $q.2,
            _ => &mut $q.3,
        }
    };
}
fn dims<T: Sc>() {
    let (x, s) = data::<T>();
    let mut m = x.rw();
    let mut q = m.split_in_four_mut(s);
    let k = pick(0, 3);
    let b = choose!(q, k);
    check(b.dim() == quad(x.d, s, k).1, "a quadrant has the documented dimension");
    check(b.layout().stride() == x.s, "a quadrant has its parent's strides");
    done();
}
fn reject() {
    let x = Data::<RM, f64>::any();
    let s = (any(), any());
    assume(s.0 > x.d.0 || s.1 > x.d.1);
    let mut m = x.rw();
    must_panic("a split position outside the matrix is rejected", || {
        m.split_in_four_mut(s);
    });
}
/// every parent element is in its quadrant's block, at the position given by the origin
fn read<T: Sc>() {
    let (x, s) = data::<T>();
    let k = pick(0, 3);
    let (o, e) = quad(x.d, s, k);
    let (a, c) = (any(), any());
    assume(a < e.0 && c < e.1);
    let (i, j) = (o.0 + a, o.1 + c);
    let mut m = x.rw();
    let mut q = m.split_in_four_mut(s);
    let b = choose!(q, k);
    if pick(0, 1) == 0 {
        b.get(a, c).same(x.now(i, j), "a parent element is read through its quadrant");
    } else {
        b.get1d(a * e.1 + c).same(x.now(i, j), "a parent element is read through its quadrant (1D)");
    }
    x.frame("splitting and reading change nothing");
    done();
}
/// every block element is a parent element of its quadrant, and nothing else changes
fn write<T: Sc>() {
    let (x, s) = data::<T>();
    let v = T::fresh();
    let (i, j) = (any(), any());
    let mut m = x.rw();
    let k = pick(0, 3);
    let (o, e) = quad(x.d, s, k);
    assume(i < e.0);
    assume(j < e.1);
    {
        let mut q = m.split_in_four_mut(s);
        let b = choose!(q, k);
        if pick(0, 1) == 0 {
            *b.get_mut(i, j) = v;
        } else {
            *b.get1d_mut(i * e.1 + j) = v;
        }
    }
    m.get(o.0 + i, o.1 + j).same(v, "a write through a quadrant reaches the parent's element");
    x.others(x.raw(o.0 + i, o.1 + j), "a write through a quadrant changes nothing else");
    done();
}
/// writes through two different quadrants do not meet
fn pair(k: usize, l: usize) {
    let (x, s) = data::<f64>();
    let (v, w) = (f64::fresh(), f64::fresh());
    let mut m = x.rw();
    let (_, e) = quad(x.d, s, k);
    let (_, g) = quad(x.d, s, l);
    let (i, j, a, c) = (any(), any(), any(), any());
    assume(i < e.0 && j < e.1 && a < g.0 && c < g.1);
    let mut q = m.split_in_four_mut(s);
    *(choose!(q, k)).get_mut(i, j) = v;
    *(choose!(q, l)).get_mut(a, c) = w;
    (choose!(q, k)).get(i, j).same(v, "quadrants are independent");
    (choose!(q, l)).get(a, c).same(w, "quadrants are independent");
    done();
}
/// an index outside of the quadrant is rejected
fn bounds() {
    let (x, s) = data::<f64>();
    let mut m = x.rw();
    let k = pick(0, 3);
    let (_, e) = quad(x.d, s, k);
    let n = mul(e.0, e.1);
    let mut q = m.split_in_four_mut(s);
    writes(choose!(q, k), e, n, false);
}
/// raw slices of two quadrants are disjoint
fn slices(k: usize, l: usize, row: bool, s0: usize) {
    let (x, s) = data::<f64>();
    if s0 == 1 {
        // one row above the split (below, for the lower pair)
        assume(if k < 2 { s.0 == 1 } else { x.d.0 - s.0 == 1 });
    }
    let mut m = x.rw();
    let mut q = m.split_in_four_mut(s);
    let (mut f, mut t, mut g, mut h) = (any(), any(), any(), any());
    if row {
        // within one row of the block
        let (_, e) = quad(x.d, s, k);
        let (_, c) = quad(x.d, s, l);
        let (r1, r2) = (any(), any());
        assume(f < t && t <= e.1 && r1 < e.0);
        assume(g < h && h <= c.1 && r2 < c.0);
        cases(r1, r2);
        let (y, z) = (mul(r1, x.d.1), mul(r2, x.d.1));
        f = add(y, f);
        t = add(y, t);
        g = add(z, g);
        h = add(z, h);
    }
    panic_ok(!row);
    let (p, n) = {
        let u = (choose!(q, k)).get_slice_mut(f, t);
        (u.as_ptr(), u.len())
    };
    let (r, o) = {
        let u = (choose!(q, l)).get_slice_mut(g, h);
        (u.as_ptr(), u.len())
    };
    let (a, b) = unsafe { (p.offset_from(x.p), r.offset_from(x.p)) };
    check(a + n as isize <= b || b + o as isize <= a, "raw slices of two quadrants do not overlap");
    done();
}
/// an empty quadrant exposes nothing
fn empty() {
    let (x, s) = data::<f64>();
    let mut m = x.rw();
    let k = pick(0, 3);
    let (_, e) = quad(x.d, s, k);
    assume(e.0 == 0 || e.1 == 0);
    let mut q = m.split_in_four_mut(s);
    let (f, t) = (any(), any());
    must_panic("an empty quadrant has no memory", || {
        (choose!(q, k)).get_slice_mut(f, t);
    });
}
fn owned() {
    let (d, s) = parts();
    let n = mul(d.0, d.1);
    assume(n < 1 << 58);
    let v = f64::fresh();
    let k = pick(0, 3);
    let (o, e) = quad(d, s, k);
    let (i, j, a, c) = (any(), any(), any(), any());
    assume(i < e.0 && j < e.1 && a < d.0 && c < d.1);
    cases(a, o.0 + i);
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(d.0, d.1);
    {
        let mut q = m.split_in_four_mut(s);
        *(choose!(q, k)).get_mut(i, j) = v;
    }
    m.get(a, c).same(
        if a == o.0 + i && c == o.1 + j { v } else { 0.0 },
        "a write through a quadrant changes exactly its parent element",
    );
    done();
}

harnesses! {
    h_c08_dims = dims::<f64>();
    h_c08_dims_c64 = dims::<c64>();
    h_c08_rej = reject();
    h_c08_read = read::<f64>();
    h_c08_read_c64 = read::<c64>();
    h_c08_read_f32 = read::<f32>();
    h_c08_write = write::<f64>();
    h_c08_write_c32 = write::<c32>();
    h_c08_pair01 = pair(0, 1);
    h_c08_pair02 = pair(0, 2);
    h_c08_pair03 = pair(0, 3);
    h_c08_pair12 = pair(1, 2);
    h_c08_pair13 = pair(1, 3);
    h_c08_pair23 = pair(2, 3);
    h_c08_bounds = bounds();
    h_c08_slices_01 = slices(0, 1, false, 0);
    h_c08_slices_23 = slices(2, 3, false, 0);
    h_c08_slices_02 = slices(0, 2, false, 0);
    h_c08_slices_03 = slices(0, 3, false, 0);
    h_c08_slices_12 = slices(1, 2, false, 0);
    h_c08_slices_13 = slices(1, 3, false, 0);
    h_c08_one_01 = slices(0, 1, false, 1);
    h_c08_one_23 = slices(2, 3, false, 1);
    h_c08_row_01 = slices(0, 1, true, 0);
    h_c08_row_02 = slices(0, 2, true, 0);
    h_c08_row_03 = slices(0, 3, true, 0);
    h_c08_row_12 = slices(1, 2, true, 0);
    h_c08_row_13 = slices(1, 3, true, 0);
    h_c08_row_23 = slices(2, 3, true, 0);
    h_c08_empty = empty();
    h_c08_owned = owned();
}
