//! C17: a matrix built from a reference behaves like the matrix it borrows.
use crate::api::*;
use crate::kit::*;

/// shape, numbering and one read (or refusal) through the borrow `e` of the data `x`
macro_rules! rd {
    ($e:expr, $K:ty, $x:expr) => {{
        let e = $e;
        let x = $x;
        match pick(0, 5) {
            0 => {
                check(e.dim() == x.d, "a borrowed matrix has the dimension of its target");
                check(e.layout().dim() == x.d, "a borrowed matrix has the layout of its target");
                check(e.layout().number_of_elements() == x.n, "a borrowed matrix has as many elements as its target");
                if !<$K as Lay>::TRI {
                    check(e.layout().stride() == x.s, "a borrowed matrix has the strides of its target");
                }
            }
            1 => {
                let (i, j) = x.pos();
                let l = e.layout();
                check(l.convert_2d_1d(i, j) == x.one(i, j), "a borrowed matrix numbers elements like its target");
                check(l.convert_2d_raw(i, j) == x.raw(i, j), "a borrowed matrix places elements like its target");
            }
            2 => {
                let (i, j) = x.pos();
                e.get(i, j).same(x.now(i, j), "a borrowed matrix reads its target's element");
            }
            3 => {
                let (i, j) = x.pos();
                e.get1d(x.one(i, j)).same(x.now(i, j), "a borrowed matrix reads its target's element (1D)");
            }
            4 => {
                let (i, j) = x.pos();
                unsafe { e.get_unchecked(i, j) }.same(x.now(i, j), "a borrowed matrix reads its target's element (unchecked)");
            }
            _ => {
                let (i, j) = x.pos();
                unsafe { e.get1d_unchecked(x.one(i, j)) }
                    .same(x.now(i, j), "a borrowed matrix reads its target's element (unchecked, 1D)");
            }
        }
        done();
    }};
}
fn shared<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    match pick(0, 4) {
        0 => {
            let m = x.ro();
            rd!(Matrix::from_ref(&m), K, x)
        }
        1 => {
            let m = x.rw();
            rd!(Matrix::from_ref(&m), K, x)
        }
        2 => {
            let m = x.rw();
            rd!(Matrix::new(MatrixRef::new(&m)), K, x)
        }
        3 => {
            let mut m = x.rw();
            rd!(Matrix::new(MatrixRefMut::new(&mut m)), K, x)
        }
        _ => {
            // a mutable borrow of something that is read-only still reads
            let mut m = x.ro();
            rd!(Matrix::new(MatrixRefMut::new(&mut m)), K, x)
        }
    }
}
/// borrows of borrows
fn nest<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    match pick(0, 3) {
        0 => {
            let m = x.ro();
            let a = Matrix::from_ref(&m);
            let b = Matrix::from_ref(&a);
            rd!(Matrix::from_ref(&b), K, x)
        }
        1 => {
            let mut m = x.rw();
            let a = Matrix::new(MatrixRefMut::new(&mut m));
            rd!(Matrix::from_ref(&a), K, x)
        }
        2 => {
            let m = x.rw();
            let mut a = Matrix::from_ref(&m);
            rd!(Matrix::new(MatrixRefMut::new(&mut a)), K, x)
        }
        _ => {
            let mut m = x.rw();
            let mut a = Matrix::new(MatrixRefMut::new(&mut m));
            rd!(Matrix::new(MatrixRefMut::new(&mut a)), K, x)
        }
    }
}
/// accepted and refused indices are those of the target
fn range<K: Lay>() {
    let x = Data::<K, f64>::any();
    match pick(0, 3) {
        0 => {
            let m = x.ro();
            reads(&Matrix::from_ref(&m), x.d, x.n, K::TRI)
        }
        1 => {
            let mut m = x.rw();
            reads(&Matrix::new(MatrixRefMut::new(&mut m)), x.d, x.n, K::TRI)
        }
        2 => {
            let mut m = x.rw();
            writes(&mut Matrix::new(MatrixRefMut::new(&mut m)), x.d, x.n, K::TRI)
        }
        _ => {
            let mut m = x.rw();
            let mut a = Matrix::new(MatrixRefMut::new(&mut m));
            writes(&mut Matrix::new(MatrixRefMut::new(&mut a)), x.d, x.n, K::TRI)
        }
    }
}
/// a write through a mutable borrow reaches exactly that element
fn write<K: Lay, T: Sc>() {
    let x = Data::<K, T>::any();
    let (i, j) = x.pos();
    let v = T::fresh();
    let mut m = x.rw();
    match pick(0, 4) {
        0 => *Matrix::new(MatrixRefMut::new(&mut m)).get_mut(i, j) = v,
        1 => *Matrix::new(MatrixRefMut::new(&mut m)).get1d_mut(x.one(i, j)) = v,
        2 => *unsafe { Matrix::new(MatrixRefMut::new(&mut m)).get_unchecked_mut(i, j) } = v,
        3 => *unsafe { Matrix::new(MatrixRefMut::new(&mut m)).get1d_unchecked_mut(x.one(i, j)) } = v,
        _ => {
            let mut a = Matrix::new(MatrixRefMut::new(&mut m));
            *Matrix::new(MatrixRefMut::new(&mut a)).get_mut(i, j) = v
        }
    }
    match pick(0, 2) {
        0 => x.now(i, j).same(v, "a write through a borrow reaches the target's element"),
        1 => m.get(i, j).same(v, "a write through a borrow is seen by the target"),
        _ => x.others(x.raw(i, j), "a write through a borrow changes nothing else"),
    }
    done();
}
/// write, then read the same element through another borrow; a second write goes elsewhere
fn twice<K: Lay>() {
    let x = Data::<K, f64>::any();
    assume_distinct::<K>(x.d, x.s);
    let (i, j) = x.pos();
    let (k, l) = x.pos();
    assume(x.raw(i, j) != x.raw(k, l));
    let (v, w) = (f64::fresh(), f64::fresh());
    let mut m = x.rw();
    {
        let mut r = Matrix::new(MatrixRefMut::new(&mut m));
        *r.get_mut(i, j) = v;
        *r.get_mut(k, l) = w;
    }
    let r = Matrix::from_ref(&m);
    match pick(0, 2) {
        0 => r.get(i, j).same(v, "the first write through a borrow is kept"),
        1 => r.get(k, l).same(w, "the second write through a borrow is kept"),
        _ => {
            let q = any();
            assume(q < x.len);
            assume(q != x.raw(i, j) && q != x.raw(k, l));
            x.cell(q).same(x.cell_old(q), "writes through a borrow change nothing else")
        }
    }
    done();
}
/// reading never modifies
fn frame<K: Lay>() {
    let x = Data::<K, f64>::any();
    let (i, j) = x.pos();
    let mut m = x.rw();
    let v = match pick(0, 1) {
        0 => Matrix::from_ref(&m).get(i, j),
        _ => Matrix::new(MatrixRefMut::new(&mut m)).get1d(x.one(i, j)),
    };
    v.same(x.old(i, j), "a borrowed read returns the element");
    x.frame("a borrowed read changes nothing");
    done();
}
/// expressions over borrowed operands read like those over owned ones
macro_rules! ex {
    ($p:expr, $q:expr, $K:ty, $d:expr) => {{
        let (p, q) = ($p, $q);
        let (i, j) = any_pos::<$K>($d);
        match pick(0, 3) {
            0 => p.get(i, j).same(q.get(i, j), "an expression over borrows reads like one over owned operands"),
            1 => {
                let k = one::<$K>($d, i, j);
                p.get1d(k).same(q.get1d(k), "an expression over borrows reads like one over owned operands (1D)")
            }
            2 => check(p.dim() == q.dim(), "an expression over borrows has the dimension of one over owned operands"),
            _ => check(
                p.layout().number_of_elements() == q.layout().number_of_elements()
                    && p.layout().convert_2d_1d(i, j) == q.layout().convert_2d_1d(i, j),
                "an expression over borrows is numbered like one over owned operands",
            ),
        }
        done();
    }};
}
macro_rules! exprs {
    ($name:ident, $K:ty, $G:ty, $T:ty) => {
        fn $name() {
            let x = Data::<$K, $T>::any();
            let s = <$G>::stride(x.d, (any(), any()));
            let y = Data::<$G, $T>::over(x.d, s);
            let k = <$T>::fresh();
            let (a, b) = (x.ro(), y.ro());
            match pick(0, 9) {
                0 => ex!(&a + &b, x.ro() + y.ro(), $K, x.d),
                1 => ex!(&a + y.ro(), x.ro() + y.ro(), $K, x.d),
                2 => ex!(x.ro() + &b, x.ro() + y.ro(), $K, x.d),
                3 => ex!(k * &a, k * x.ro(), $K, x.d),
                4 => ex!(&a * k, x.ro() * k, $K, x.d),
                5 => {
                    let e = &a + &b;
                    ex!(k * &e, k * (x.ro() + y.ro()), $K, x.d)
                }
                6 => {
                    let e = k * &a;
                    ex!(&e + &b, k * x.ro() + y.ro(), $K, x.d)
                }
                7 => {
                    let e = &a + &b;
                    ex!(Matrix::from_ref(&e), x.ro() + y.ro(), $K, x.d)
                }
                8 => {
                    let e = &a * k;
                    ex!(&e + &e, x.ro() * k + x.ro() * k, $K, x.d)
                }
                _ => {
                    // a mutable borrow as operand
                    let mut c = x.rw();
                    ex!(Matrix::new(MatrixRefMut::new(&mut c)) + &b, x.ro() + y.ro(), $K, x.d)
                }
            }
        }
    };
}
exprs!(ex_rm, RM, ARM, f64);
exprs!(ex_arm, ARM, RM, f64);
exprs!(ex_cm, CM, ACM, f32);
exprs!(ex_acm, ACM, CM, f64);
exprs!(ex_rv, RV, ARV, f64);
exprs!(ex_arv, ARV, RV, f32);
exprs!(ex_cv, CV, ACV, f64);
exprs!(ex_acv, ACV, CV, f64);
exprs!(ex_ut, UT, UT, f64);
exprs!(ex_c64, RM, RM, c64);
exprs!(ex_c32, CM, CM, c32);

/// operands of different dimension are rejected the same way
fn reject<K: Lay>() {
    let x = Data::<K, f64>::any();
    let y = Data::<K, f64>::any();
    assume(x.d.0 != y.d.0 || x.d.1 != y.d.1);
    let (a, b) = (x.ro(), y.ro());
    must_panic("borrowed operands of different dimension are rejected", || match pick(0, 2) {
        0 => {
            Matrix::from_ref(&a) + Matrix::from_ref(&b);
        }
        1 => {
            Matrix::from_ref(&a) + y.ro();
        }
        _ => {
            x.ro() + Matrix::from_ref(&b);
        }
    });
}
/// borrows of blocks
fn blk() {
    let x = Data::<RM, f64>::any();
    let (t, b) = ((any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0 && t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let (i, j) = any_pos::<RM>(b);
    let v = f64::fresh();
    let mut m = x.rw();
    match pick(0, 2) {
        0 => {
            let u = m.block(t, b);
            let r = Matrix::from_ref(&u);
            check(r.dim() == b, "a borrowed block has the block's dimension");
            r.get(i, j).same(x.now(t.0 + i, t.1 + j), "a borrowed block reads the parent's element");
        }
        1 => {
            let mut u = m.block_mut(t, b);
            let r = Matrix::new(MatrixRefMut::new(&mut u));
            check(r.dim() == b, "a borrowed block has the block's dimension");
            r.get1d(one::<RM>(b, i, j)).same(x.now(t.0 + i, t.1 + j), "a borrowed block reads the parent's element");
        }
        _ => {
            let mut u = m.block_mut(t, b);
            *Matrix::new(MatrixRefMut::new(&mut u)).get_mut(i, j) = v;
            if pick(0, 1) == 0 {
                x.now(t.0 + i, t.1 + j).same(v, "a write through a borrowed block reaches the parent's element");
            } else {
                x.others(x.raw(t.0 + i, t.1 + j), "a write through a borrowed block changes nothing else");
            }
        }
    }
    done();
}
/// vectors keep their length
fn len() {
    match pick(0, 7) {
        0 => {
            let x = Data::<RV, f64>::any();
            check(Matrix::from_ref(&x.ro()).length() == x.d.1, "a borrowed row vector has its target's length");
        }
        1 => {
            let x = Data::<ARV, c32>::any();
            check(Matrix::from_ref(&x.rw()).length() == x.d.1, "a borrowed strided row vector has its target's length");
        }
        2 => {
            let x = Data::<CV, f64>::any();
            check(Matrix::from_ref(&x.ro()).length() == x.d.0, "a borrowed column vector has its target's length");
        }
        3 => {
            let x = Data::<ACV, f64>::any();
            check(Matrix::from_ref(&x.rw()).length() == x.d.0, "a borrowed strided column vector has its target's length");
        }
        4 => {
            let x = Data::<RV, f64>::any();
            let mut m = x.rw();
            check(Matrix::new(MatrixRefMut::new(&mut m)).length() == x.d.1, "a mutably borrowed row vector has its target's length");
        }
        5 => {
            let x = Data::<ACV, f64>::any();
            let mut m = x.rw();
            check(
                Matrix::new(MatrixRefMut::new(&mut m)).length() == x.d.0,
                "a mutably borrowed strided column vector has its target's length",
            );
        }
        6 => {
            let x = Data::<CV, f64>::any();
            let (a, b) = (x.ro(), x.ro());
            check((&a + &b).length() == x.d.0, "a sum of borrowed column vectors has their length");
        }
        _ => {
            let x = Data::<RV, f64>::any();
            let a = x.ro();
            check((2.0 * &a).length() == x.d.1, "a product over a borrowed row vector has its length");
        }
    }
    done();
}
/// owned and fixed-size targets; evaluation of borrowed expressions
fn own<T: Sc>() {
    macro_rules! go {
        ($m:expr, $K:ty, $d:expr) => {{
            let d = $d;
            let mut m = $m;
            let (v, w) = (T::fresh(), T::fresh());
            let (i, j) = any_pos::<$K>(d);
            let (k, l) = any_pos::<$K>(d);
            *m.get_mut(i, j) = v;
            *Matrix::new(MatrixRefMut::new(&mut m)).get_mut(k, l) = w;
            let (a, b) = any_pos::<$K>(d);
            let want = if a == k && b == l {
                w
            } else if a == i && b == j {
                v
            } else {
                T::zero()
            };
            match pick(0, 3) {
                0 => m.get(a, b).same(want, "a write through a borrow of an owned matrix changes that element only"),
                1 => Matrix::from_ref(&m).get(a, b).same(want, "a borrow of an owned matrix reads its elements"),
                2 => Matrix::new(MatrixRefMut::new(&mut m))
                    .get1d(one::<$K>(d, a, b))
                    .same(want, "a mutable borrow of an owned matrix reads its elements"),
                _ => check(Matrix::from_ref(&m).dim() == d, "a borrow of an owned matrix has its dimension"),
            }
            done();
        }};
    }
    match pick(0, 7) {
        0 => go!(Matrix22::<T, RowMajor>::zeros_from_dim(), RM, (2, 2)),
        1 => go!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), CM, (2, 3)),
        2 => go!(Matrix32::<T, RowMajor>::zeros_from_dim(), RM, (3, 2)),
        3 => {
            let d = (pick(1, lim(2, 3)), pick(1, lim(3, 4)));
            go!(MatrixD::<T, RowMajor>::zeros_from_dim(d.0, d.1), RM, d)
        }
        4 => {
            let d = (pick(1, lim(2, 3)), pick(1, lim(3, 4)));
            go!(MatrixD::<T, ColumnMajor>::zeros_from_dim(d.0, d.1), CM, d)
        }
        5 => {
            let n = pick(1, lim(3, 5));
            go!(ColumnVectorD::<T>::zeros_from_length(n), CV, (n, 1))
        }
        6 => {
            let n = pick(1, lim(3, 5));
            go!(RowVectorD::<T>::zeros_from_length(n), RV, (1, n))
        }
        _ => {
            let n = pick(1, lim(2, 3));
            go!(UpperTriangularMatrix::<T>::zeros_from_dim(n, n), UT, (n, n))
        }
    }
}
/// evaluation through a borrow
fn eval<K: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>()
where
    K::L: LayoutType,
{
    let d = K::shape((pick(0, lim(2, 3)), pick(0, lim(3, 3))));
    let s = K::stride(d, (any(), any()));
    let x = Data::<K, T>::over(d, s);
    let mut m = x.rw();
    let e = match pick(0, 1) {
        0 => Matrix::from_ref(&m).eval(),
        _ => Matrix::new(MatrixRefMut::new(&mut m)).eval(),
    };
    check(e.dim() == d, "evaluating a borrow gives its dimension");
    if d.0 > 0 && d.1 > 0 {
        let (i, j) = x.pos();
        e.get(i, j).same(x.old(i, j), "evaluating a borrow gives its elements");
    }
    done();
}

harnesses! {
    h_c17_shared_rm = shared::<RM, f64>();
    h_c17_shared_cm = shared::<CM, f64>();
    h_c17_shared_rv = shared::<RV, f64>();
    h_c17_shared_cv = shared::<CV, f64>();
    h_c17_shared_arm = shared::<ARM, f64>();
    h_c17_shared_acm = shared::<ACM, f64>();
    h_c17_shared_arv = shared::<ARV, f64>();
    h_c17_shared_acv = shared::<ACV, f64>();
    h_c17_shared_ut = shared::<UT, f64>();
    h_c17_shared_rm_f32 = shared::<RM, f32>();
    h_c17_shared_arm_c64 = shared::<ARM, c64>();
    h_c17_shared_cm_c32 = shared::<CM, c32>();
    h_c17_shared_acv_c64 = shared::<ACV, c64>();
    h_c17_shared_rv_c32 = shared::<RV, c32>();
    h_c17_nest_rm = nest::<RM, f64>();
    h_c17_nest_cm = nest::<CM, f64>();
    h_c17_nest_rv = nest::<RV, f64>();
    h_c17_nest_cv = nest::<CV, f64>();
    h_c17_nest_arm = nest::<ARM, f64>();
    h_c17_nest_acm = nest::<ACM, c64>();
    h_c17_nest_ut = nest::<UT, f64>();
    h_c17_range_rm = range::<RM>();
    h_c17_range_cm = range::<CM>();
    h_c17_range_rv = range::<RV>();
    h_c17_range_cv = range::<CV>();
    h_c17_range_arm = range::<ARM>();
    h_c17_range_acm = range::<ACM>();
    h_c17_range_arv = range::<ARV>();
    h_c17_range_acv = range::<ACV>();
    h_c17_write_rm = write::<RM, f64>();
    h_c17_write_cm = write::<CM, f64>();
    h_c17_write_rv = write::<RV, f64>();
    h_c17_write_cv = write::<CV, f64>();
    h_c17_write_arm = write::<ARM, f64>();
    h_c17_write_acm = write::<ACM, f64>();
    h_c17_write_arv = write::<ARV, f64>();
    h_c17_write_acv = write::<ACV, f64>();
    h_c17_write_ut = write::<UT, f64>();
    h_c17_write_rm_c64 = write::<RM, c64>();
    h_c17_write_acm_c32 = write::<ACM, c32>();
    h_c17_write_cv_f32 = write::<CV, f32>();
    h_c17_twice_rm = twice::<RM>();
    h_c17_twice_cm = twice::<CM>();
    h_c17_twice_arm = twice::<ARM>();
    h_c17_twice_cv = twice::<CV>();
    h_c17_twice_ut = twice::<UT>();
    h_c17_frame_rm = frame::<RM>();
    h_c17_frame_acm = frame::<ACM>();
    h_c17_ex_rm = ex_rm();
    h_c17_ex_arm = ex_arm();
    h_c17_ex_cm = ex_cm();
    h_c17_ex_acm = ex_acm();
    h_c17_ex_rv = ex_rv();
    h_c17_ex_arv = ex_arv();
    h_c17_ex_cv = ex_cv();
    h_c17_ex_acv = ex_acv();
    h_c17_ex_ut = ex_ut();
    h_c17_ex_c64 = ex_c64();
    h_c17_ex_c32 = ex_c32();
    h_c17_rej_rm = reject::<RM>();
    h_c17_rej_acm = reject::<ACM>();
    h_c17_rej_cv = reject::<CV>();
    h_c17_rej_arv = reject::<ARV>();
    h_c17_rej_ut = reject::<UT>();
    h_c17_blk = blk();
    h_c17_len = len();
    h_c17_own_f64 = own::<f64>();
    h_c17_own_c32 = own::<c32>();
    h_c17_eval_rm = eval::<RM, f64>();
    h_c17_eval_acm = eval::<ACM, c64>();
    h_c17_eval_cm = eval::<CM, f32>();
    h_c17_eval_arm = eval::<ARM, f64>();
}
