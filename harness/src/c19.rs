//! C19: a triangular matrix stores exactly the upper triangle; expressions of triangular matrices agree elementwise.
use crate::api::*;
use crate::kit::*;
use num::Zero;

type K = UT;
/// a dimension whose slot count fits
#[inline(always)]
fn size() -> usize {
    let n = any();
    count::<UT>((n, n));
    n
}
/// on or above the diagonal
#[inline(always)]
fn upper(n: usize) -> D2 {
    any_pos::<UT>((n, n))
}
/// below the diagonal, or outside
#[inline(always)]
fn lower(n: usize) -> D2 {
    let (i, j) = (any(), any());
    match pick(0, 2) {
        0 => {
            assume(i < n);
            assume(j < i);
        }
        1 => assume(i >= n),
        _ => assume(j >= n),
    }
    (i, j)
}

/// the layout: n(n+1)/2 slots, one per element
fn slots() {
    let n = size();
    let l = UpperTriangular::new(n);
    let c = l.number_of_elements();
    match pick(0, 5) {
        0 => {
            check(c == n * (n + 1) / 2, "a triangle has n(n+1)/2 slots");
            check(l.dim() == (n, n), "a triangular layout is square");
        }
        1 => {
            let (i, j) = upper(n);
            check(l.convert_2d_1d(i, j) < c, "every element's 1D index is among the slots");
        }
        2 => {
            let (i, j) = upper(n);
            check(l.convert_2d_raw(i, j) < c, "every element's position is among the slots");
        }
        3 => {
            let (i, j) = upper(n);
            check(l.convert_1d_raw(l.convert_2d_1d(i, j)) == l.convert_2d_raw(i, j), "1D and 2D access use one slot");
        }
        4 => {
            let (i, j) = upper(n);
            check(l.convert_2d_1d(i, j) == one::<UT>((n, n), i, j), "elements are numbered by rows from the last one up");
        }
        _ => {
            let k = any();
            check(l.convert_1d_raw(k) == k, "slots are packed");
        }
    }
    done();
}
/// distinct elements, distinct slots
fn distinct() {
    let n = size();
    let l = UpperTriangular::new(n);
    let (i, j) = upper(n);
    let (p, q) = upper(n);
    match pick(0, 2) {
        0 => assume(i < p),
        1 => assume(i > p),
        _ => assume(i == p && j != q),
    }
    check(l.convert_2d_raw(i, j) != l.convert_2d_raw(p, q), "distinct elements have distinct slots");
    check(l.convert_2d_1d(i, j) != l.convert_2d_1d(p, q), "distinct elements have distinct 1D indices");
    done();
}
/// every slot belongs to an element; slot = p(p+1)/2 + off with off <= p (every slot is of this form), slots < 2^50
fn onto() {
    let (n, p, q, off) = (any(), any(), any(), any());
    assume(n < 1 << 25);
    assume(p < n);
    assume(off <= p);
    assume(q <= 1 << 50);
    assume(q + q == p * (p + 1));
    fp_hint(p);
    let l = UpperTriangular::new(n);
    let k = q + off;
    check(k < l.number_of_elements(), "slots are numbered below n(n+1)/2");
    let (i, j) = l.convert_1d_2d(k);
    check(i <= j && j < n, "every slot belongs to an element on or above the diagonal");
    check(l.convert_2d_raw(i, j) == k, "every slot belongs to the element it came from");
    done();
}
/// the layout itself refuses positions below the diagonal
fn below_layout() {
    let n = size();
    let l = UpperTriangular::new(n);
    let (i, j) = (any(), any());
    assume(i < n);
    assume(j < i);
    must_panic("a position below the diagonal has no slot", || match pick(0, 1) {
        0 => {
            l.convert_2d_1d(i, j);
        }
        _ => {
            l.convert_2d_raw(i, j);
        }
    });
}
/// checked access below the diagonal is refused
fn refuse<T: Sc>() {
    let n = size();
    let x = Data::<UT, T>::over((n, n), (0, 0));
    let (i, j) = lower(n);
    let m = "checked access below the diagonal is refused";
    match pick(0, 9) {
        0 => {
            let a = x.ro();
            must_panic(m, || {
                a.get(i, j);
            })
        }
        1 => {
            let a = x.rw();
            must_panic(m, || {
                a.get(i, j);
            })
        }
        2 => {
            let mut a = x.rw();
            must_panic(m, || {
                a.get_mut(i, j);
            })
        }
        3 => {
            let a = x.ro();
            must_panic(m, || {
                Matrix::from_ref(&a).get(i, j);
            })
        }
        4 => {
            let mut a = x.rw();
            must_panic(m, || {
                Matrix::new(MatrixRefMut::new(&mut a)).get(i, j);
            })
        }
        5 => {
            let mut a = x.rw();
            must_panic(m, || {
                Matrix::new(MatrixRefMut::new(&mut a)).get_mut(i, j);
            })
        }
        6 => {
            let (a, b) = (x.ro(), x.ro());
            must_panic(m, || {
                (a + b).get(i, j);
            })
        }
        7 => {
            let a = x.ro();
            must_panic(m, || {
                (&a + &a).get(i, j);
            })
        }
        8 => {
            let k = T::fresh();
            let a = x.ro();
            let e = Matrix::new(householder::scalar_mult::ScalarMult::new(a, k));
            must_panic(m, || {
                e.get(i, j);
            })
        }
        _ => {
            // also by 1D index beyond the slots
            let k = any();
            assume(k >= x.n);
            let mut a = x.rw();
            must_panic("a 1D index beyond the slots is refused", || match pick(0, 1) {
                0 => {
                    a.get1d(k);
                }
                _ => {
                    a.get1d_mut(k);
                }
            })
        }
    }
}
/// every element reads and writes its own slot
fn access<T: Sc>() {
    let n = size();
    let x = Data::<UT, T>::over((n, n), (0, 0));
    let (i, j) = upper(n);
    let v = T::fresh();
    match pick(0, 4) {
        0 => x.ro().get(i, j).same(x.now(i, j), "an element reads its slot"),
        1 => x.rw().get1d(x.one(i, j)).same(x.now(i, j), "an element reads its slot (1D)"),
        2 => {
            *x.rw().get_mut(i, j) = v;
            x.now(i, j).same(v, "a write reaches the element's slot");
            x.others(x.raw(i, j), "a write changes no other slot");
        }
        3 => {
            *x.rw().get1d_mut(x.one(i, j)) = v;
            x.now(i, j).same(v, "a write reaches the element's slot (1D)");
            x.others(x.raw(i, j), "a write changes no other slot");
        }
        _ => {
            let (p, q) = upper(n);
            assume(p != i || q != j);
            let mut m = x.rw();
            *m.get_mut(i, j) = v;
            m.get(p, q).same(x.old(p, q), "a write changes no other element");
        }
    }
    done();
}
/// sums and scalar products, element by element
macro_rules! elementwise {
    ($name:ident, $T:ty) => {
        fn $name() {
            let n = size();
            let x = Data::<UT, $T>::over((n, n), (0, 0));
            let y = Data::<UT, $T>::over((n, n), (0, 0));
            let (i, j) = upper(n);
            let k = <$T>::fresh();
            let (a, b) = (x.ro(), y.ro());
            macro_rules! rd {
                ($e:expr, $want:expr) => {{
                    let e = $e;
                    match pick(0, 2) {
                        0 => e.get(i, j).same($want, "an expression of triangular matrices agrees element by element"),
                        1 => e.get1d(x.one(i, j)).same($want, "an expression of triangular matrices agrees element by element (1D)"),
                        _ => {
                            check(e.dim() == (n, n), "an expression of triangular matrices has their dimension");
                            check(e.layout().number_of_elements() == x.n, "an expression of triangular matrices has their slots");
                        }
                    }
                    done();
                }};
            }
            match pick(0, 6) {
                0 => rd!(a + b, x.now(i, j) + y.now(i, j)),
                1 => rd!(&a + &b, x.now(i, j) + y.now(i, j)),
                2 => rd!(k * a, k * x.now(i, j)),
                3 => rd!(&a * k, x.now(i, j) * k),
                4 => rd!(k * a + b, k * x.now(i, j) + y.now(i, j)),
                5 => rd!(k * (&a + &b), k * (x.now(i, j) + y.now(i, j))),
                _ => {
                    let e = &a + &b;
                    rd!(&e + &a, (x.now(i, j) + y.now(i, j)) + x.now(i, j))
                }
            }
        }
    };
}
elementwise!(el_f64, f64);
elementwise!(el_f32, f32);
/// complex products up to commutation of the factors
macro_rules! complex {
    ($name:ident, $T:ty) => {
        fn $name() {
            let n = size();
            let x = Data::<UT, $T>::over((n, n), (0, 0));
            let y = Data::<UT, $T>::over((n, n), (0, 0));
            let (i, j) = upper(n);
            let k = <$T>::fresh();
            let (a, b) = (x.ro(), y.ro());
            match pick(0, 2) {
                0 => (a + b).get(i, j).same(x.now(i, j) + y.now(i, j), "a sum agrees element by element"),
                1 => (k * a).get(i, j).same(k * x.now(i, j), "a product agrees element by element"),
                _ => (&a + &b).get1d(x.one(i, j)).same(x.now(i, j) + y.now(i, j), "a sum agrees element by element (1D)"),
            }
            done();
        }
    };
}
complex!(el_c64, c64);
complex!(el_c32, c32);
/// operands of different size are rejected
fn reject() {
    let (n, m) = (size(), size());
    assume(n != m);
    let x = Data::<UT, f64>::over((n, n), (0, 0));
    let y = Data::<UT, f64>::over((m, m), (0, 0));
    let (a, b) = (x.ro(), y.ro());
    must_panic("triangular operands of different size are rejected", || match pick(0, 1) {
        0 => {
            a + b;
        }
        _ => {
            &a + &b;
        }
    });
}
/// many sizes: every element of an evaluated expression, written and read in place
macro_rules! sizes {
    ($name:ident, $T:ty) => {
        fn $name() {
            let x = many::<UT, $T>();
            let n = x.d.0;
            let y = Data::<UT, $T>::tight((n, n), (0, 0));
            let k = <$T>::fresh();
            let b = y.ro();
            let mut a = x.rw();
            let e = (k * &a + &b).eval();
            let z = a.eval();
            for i in 0..n {
                for j in i..n {
                    let (u, v) = (x.old(i, j), y.old(i, j));
                    e.get(i, j).same(k * u + v, "the evaluated matrix agrees element by element");
                    z.get(i, j).same(u, "the evaluated matrix agrees element by element");
                    *a.get_mut(i, j) = k;
                }
            }
            for i in 0..n {
                for j in i..n {
                    a.get(i, j).same(k, "an element has its own slot");
                    e.get1d(x.one(i, j)).same(k * x.old(i, j) + y.old(i, j), "1D access agrees with 2D access");
                }
            }
            done();
        }
    };
}
sizes!(big_f64, f64);
sizes!(big_c32, c32);
/// evaluation
macro_rules! evals {
    ($name:ident, $T:ty) => {
        fn $name() {
            let n = pick(0, lim(3, 5));
            let x = Data::<UT, $T>::over((n, n), (0, 0));
            let y = Data::<UT, $T>::over((n, n), (0, 0));
            let k = <$T>::fresh();
            let (a, b) = (x.ro(), y.ro());
            let q = pick(0, 4);
            let mut e = match q {
                0 => a.eval(),
                1 => (&a + &b).eval(),
                2 => (k * &a).eval(),
                3 => (k * &a + &b).eval(),
                _ => a.eval().eval(),
            };
            match pick(0, 4) {
                0 => {
                    check(e.dim() == (n, n), "the evaluated matrix has the dimension");
                    check(e.layout().number_of_elements() == n * (n + 1) / 2, "the evaluated matrix has n(n+1)/2 slots");
                }
                1 => {
                    assume(n > 0);
                    let (i, j) = (pick(0, lim(2, 4)), pick(0, lim(2, 4)));
                    assume(i <= j && j < n);
                    let (u, v) = (x.old(i, j), y.old(i, j));
                    let w = match q {
                        0 | 4 => u,
                        1 => u + v,
                        2 => k * u,
                        _ => k * u + v,
                    };
                    if pick(0, 1) == 0 {
                        e.get(i, j).same(w, "the evaluated matrix agrees element by element")
                    } else {
                        e.get1d(x.one(i, j)).same(w, "the evaluated matrix agrees element by element (1D)")
                    }
                }
                2 => {
                    let (i, j) = lower(n);
                    must_panic("checked access below the diagonal of an evaluated matrix is refused", || {
                        if pick(0, 1) == 0 {
                            e.get(i, j);
                        } else {
                            e.get_mut(i, j);
                        }
                    })
                }
                3 => x.frame("evaluation leaves the operands alone"),
                _ => {
                    // the result is independent of the operand
                    assume(n > 0);
                    let (i, j) = (pick(0, lim(2, 4)), pick(0, lim(2, 4)));
                    assume(i <= j && j < n);
                    *e.get_mut(i, j) = k;
                    e.get(i, j).same(k, "the evaluated matrix can be written");
                    x.frame("writing the evaluated matrix leaves the operand alone");
                }
            }
            done();
        }
    };
}
evals!(ev_f64, f64);
evals!(ev_f32, f32);
evals!(ev_c64, c64);
evals!(ev_c32, c32);
/// owned triangular matrices
fn owned<T: Sc>() {
    let n = any();
    assume(n < 1 << 28);
    let mut m = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
    match pick(0, 5) {
        0 => {
            check(m.dim() == (n, n), "a triangular matrix has the requested dimension");
            check(m.layout().number_of_elements() == mul(n, n + 1) / 2, "a triangular matrix has n(n+1)/2 slots");
        }
        1 => {
            let c = m.layout().number_of_elements();
            assume(c > 0);
            check(m.get_slice(0, c).len() == mul(n, n + 1) / 2, "a triangular matrix owns n(n+1)/2 slots");
        }
        2 => {
            let c = m.layout().number_of_elements();
            must_panic("a triangular matrix owns no more than n(n+1)/2 slots", || {
                m.get_slice(0, c + 1);
            })
        }
        3 => {
            let (i, j) = upper(n);
            let (p, q) = upper(n);
            let v = T::fresh();
            *m.get_mut(i, j) = v;
            let w = if p == i && q == j { v } else { T::zero() };
            m.get(p, q).same(w, "a write reaches that element only");
        }
        4 => {
            let (i, j) = lower(n);
            must_panic("checked access below the diagonal is refused", || {
                m.get(i, j);
            })
        }
        _ => {
            let (i, j) = lower(n);
            must_panic("checked access below the diagonal is refused", || {
                m.get_mut(i, j);
            })
        }
    }
    done();
}
/// for_each reaches every slot once
fn each() {
    let n = pick(0, lim(3, 4));
    let x = Data::<UT, f64>::over((n, n), (0, 0));
    let w = f64::fresh();
    let mut m = x.rw();
    let mut c = 0;
    m.for_each(|v| {
        *v = w;
        c += 1;
    });
    match pick(0, 2) {
        0 => check(c == n * (n + 1) / 2, "every slot is visited once"),
        1 => {
            assume(n > 0);
            let (i, j) = x.pos();
            m.get(i, j).same(w, "every element is visited");
        }
        _ => {
            let q = any();
            assume(q < x.len);
            assume(q >= x.n);
            x.cell(q).same(x.cell_old(q), "nothing beyond the slots is visited");
        }
    }
    done();
}

harnesses! {
    h_c19_big_f64 = big_f64();
    h_c19_big_c32 = big_c32();
    h_c19_slots = slots();
    h_c19_distinct = distinct();
    h_c19_onto = onto();
    h_c19_below = below_layout();
    h_c19_ref_f64 = refuse::<f64>();
    h_c19_ref_c64 = refuse::<c64>();
    h_c19_acc_f64 = access::<f64>();
    h_c19_acc_f32 = access::<f32>();
    h_c19_acc_c64 = access::<c64>();
    h_c19_acc_c32 = access::<c32>();
    h_c19_el_f64 = el_f64();
    h_c19_el_f32 = el_f32();
    h_c19_el_c64 = el_c64();
    h_c19_el_c32 = el_c32();
    h_c19_rej = reject();
    h_c19_ev_f64 = ev_f64();
    h_c19_ev_f32 = ev_f32();
    h_c19_ev_c64 = ev_c64();
    h_c19_ev_c32 = ev_c32();
    h_c19_own_f64 = owned::<f64>();
    h_c19_own_f32 = owned::<f32>();
    h_c19_own_c64 = owned::<c64>();
    h_c19_own_c32 = owned::<c32>();
    h_c19_each = each();
}
