//! C02: raw positions follow dimension and stride; dense layouts are packed.
use crate::api::*;
use crate::kit::*;

fn positions<K: Lay>() {
    let (d, s) = any_dim::<K>();
    let n = count::<K>(d);
    let e = span::<K>(d, s);
    let (i, j) = any_pos::<K>(d);
    let l = K::mk(d, s);
    let r = l.convert_2d_raw(i, j);
    check(r == i * s.0 + j * s.1, "raw position of (row, col) is row*stride0 + col*stride1");
    check(r < e, "raw position stays below the extent of dimension and stride");
    check(l.convert_1d_raw(one::<K>(d, i, j)) == r, "raw position of a 1D index is that of its (row, col)");
    check(l.convert_2d_raw(0, 0) == 0, "the first element is at raw position 0");
    check(l.convert_1d_raw(0) == 0, "the first 1D element is at raw position 0");
    let t = l.stride();
    check(i * t.0 + j * t.1 == r, "the reported strides are the ones used");
    if !K::DENSE {
        check(t == s, "the reported strides are the ones given");
    }
    if K::DENSE {
        check(r < n, "a dense layout stays below the number of elements");
        let (a, b) = any_pos::<K>(d);
        assume(a != i || b != j);
        check(l.convert_2d_raw(a, b) != r, "a dense layout gives distinct elements distinct positions");
    }
    done();
}

fn shape<K: Lay>() {
    let (d, s) = any_dim::<K>();
    let n = count::<K>(d);
    let l = K::mk(d, s);
    check(l.dim() == d, "the reported dimension is the one given");
    check(l.number_of_elements() == n, "number of elements is rows times columns");
    if !K::TRI {
        let t = l.stride();
        if K::DENSE && !(d.0 <= 1) {
            check(t.0 == s.0, "dense row stride");
        }
        if K::DENSE && !(d.1 <= 1) {
            check(t.1 == s.1, "dense column stride");
        }
    }
    done();
}

fn from_dim<K: Lay>()
where
    K::L: BaseLayoutType,
{
    let (d, s) = any_dim::<K>();
    let n = count::<K>(d);
    let l = K::L::from_dimension(d);
    check(l.dim() == d, "from_dimension: the reported dimension is the one given");
    check(l.number_of_elements() == n, "from_dimension: number of elements");
    let (i, j) = any_pos::<K>(d);
    check(l.convert_2d_raw(i, j) == raw::<K>(d, s, i, j), "from_dimension: raw position");
    done();
}

fn tri() {
    let n = any();
    assume(n <= 1 << 31);
    let l = UpperTriangular::new(n);
    let (i, j) = any_pos::<UT>((n, n));
    let r = l.convert_2d_raw(i, j);
    check(r == raw::<UT>((n, n), (0, 0), i, j), "triangle: packed row by row from the bottom");
    check(r < l.number_of_elements(), "triangle: below the number of elements");
    check(l.convert_1d_raw(r) == r, "triangle: 1D index is the raw position");
    check(l.convert_2d_raw(n - 1, n - 1) == 0, "triangle: the packing starts at 0");
    done();
}

fn tri_distinct() {
    let n = any();
    assume(n <= 1 << 31);
    let l = UpperTriangular::new(n);
    let (i, j) = any_pos::<UT>((n, n));
    let (a, b) = any_pos::<UT>((n, n));
    assume(a != i || b != j);
    check(l.convert_2d_raw(i, j) != l.convert_2d_raw(a, b), "triangle: distinct elements have distinct positions");
    done();
}

harnesses! {
    h_c02_pos_rm = positions::<RM>();
    h_c02_pos_cm = positions::<CM>();
    h_c02_pos_rv = positions::<RV>();
    h_c02_pos_cv = positions::<CV>();
    h_c02_pos_arm = positions::<ARM>();
    h_c02_pos_acm = positions::<ACM>();
    h_c02_pos_arv = positions::<ARV>();
    h_c02_pos_acv = positions::<ACV>();
    h_c02_pos_ut = tri();
    h_c02_dist_ut = tri_distinct();
    h_c02_shape_rm = shape::<RM>();
    h_c02_shape_cm = shape::<CM>();
    h_c02_shape_rv = shape::<RV>();
    h_c02_shape_cv = shape::<CV>();
    h_c02_shape_arm = shape::<ARM>();
    h_c02_shape_acm = shape::<ACM>();
    h_c02_shape_arv = shape::<ARV>();
    h_c02_shape_acv = shape::<ACV>();
    h_c02_shape_ut = shape::<UT>();
    h_c02_from_rm = from_dim::<RM>();
    h_c02_from_cm = from_dim::<CM>();
    h_c02_from_rv = from_dim::<RV>();
    h_c02_from_cv = from_dim::<CV>();
    h_c02_from_ut = from_dim::<UT>();
}
