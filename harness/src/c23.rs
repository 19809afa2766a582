//! C23: expressions and views are lazy: they allocate nothing; evaluation allocates its result and nothing else.
use crate::api::*;
use crate::kit::*;

/// nothing is allocated while `$e` runs
macro_rules! none {
    ($m:literal, $e:expr) => {{
        let a = heap();
        let r = $e;
        let b = heap();
        check(b.0 == a.0, $m);
        r
    }};
}
/// one element of an expression
#[inline(always)]
fn read<M: RandomAccess>(e: &M, at: D2, k: usize) -> M::Item {
    if pick(0, 1) == 0 {
        e.get(at.0, at.1)
    } else {
        e.get1d(k)
    }
}
#[inline(always)]
fn ops<K: Lay, T: Sc>() -> (Data<K, T>, Data<K, T>, T) {
    let x = Data::<K, T>::any();
    let s = K::stride(x.d, (any(), any()));
    (x, Data::<K, T>::over(x.d, s), T::fresh())
}
macro_rules! typed {
    ($mod:ident, $T:ty) => {
        mod $mod {
            use super::*;
            type T = $T;
            /// building and reading
            pub fn expr<K: Lay>()
            where
                <K::L as LayoutType>::IndexLayout: LayoutType<IndexLayout = <K::L as LayoutType>::IndexLayout>,
            {
                let (x, y, k) = ops::<K, T>();
                let (a, b) = (x.ro(), y.ro());
                let at = x.pos();
                let n = x.one(at.0, at.1);
                let (u, v) = (x.old(at.0, at.1), y.old(at.0, at.1));
                let q = pick(0, 4);
                let r = none!("expressions are built and read without allocating", match q {
                    0 => read(&(&a + &b), at, n),
                    1 => read(&(k * &a), at, n),
                    2 => read(&(k * &a + &b), at, n),
                    3 => read(&(a + b), at, n),
                    _ => read(&((k * a) + (&b + &b)), at, n),
                });
                let w = match q {
                    0 | 3 => u + v,
                    1 => k * u,
                    2 => k * u + v,
                    _ => k * u + (v + v),
                };
                r.same(w, "the element is that of the operands at the time of reading");
                done();
            }
        }
    };
}
typed!(d, f64);
typed!(s, f32);
typed!(z, c64);
typed!(c, c32);

macro_rules! one {
    ($e:expr, $x:expr, $n:expr, $h:expr) => {{
        let r = $e;
        let g = heap();
        check(g.0 - $h.0 == if $n == 0 { 0 } else { 1 }, "evaluation allocates the result only");
        check(g.1 - $h.1 == $n, "the result takes the memory of its elements");
        check(r.dim() == $x.d, "the result has the expression's dimension");
    }};
}
/// evaluation: one allocation, of the size of the result
fn eval<K: Lay<RS = Dynamic, CS = Dynamic>, T: Sc>() {
    let x = many::<K, T>();
    let a = x.ro();
    let n = x.n * std::mem::size_of::<T>();
    let h = heap();
    if pick(0, 1) == 0 {
        one!(a.eval(), x, n, h);
    } else {
        one!((&a + &a).eval(), x, n, h);
    }
    done();
}
/// views
fn views<T: Sc>() {
    let x = Data::<RM, T>::any();
    let (t, b) = ((any(), any()), (any(), any()));
    assume(t.0 <= x.d.0 && b.0 <= x.d.0 - t.0);
    assume(t.1 <= x.d.1 && b.1 <= x.d.1 - t.1);
    let mut m = x.rw();
    let q = pick(0, 4);
    match q {
        0 => {
            let e = none!("a block allocates nothing", m.block(t, b));
            check(e.dim() == b, "the block has its dimension");
        }
        1 => {
            let e = none!("a mutable block allocates nothing", m.block_mut(t, b));
            check(e.dim() == b, "the block has its dimension");
        }
        2 => {
            let e = none!("a split allocates nothing", m.split_in_four_mut(t));
            check(e.0.dim() == t, "the block has its dimension");
        }
        3 => {
            let e = none!("a borrow allocates nothing", Matrix::from_ref(&m));
            check(e.dim() == x.d, "the borrow has its dimension");
        }
        _ => {
            let e = none!("a mutable borrow allocates nothing", Matrix::new(MatrixRefMut::new(&mut m)));
            check(e.dim() == x.d, "the borrow has its dimension");
        }
    }
    done();
}
/// visiting
fn visit<K: Lay, T: Sc>() {
    let x = many::<K, T>();
    let mut m = x.rw();
    let w = T::fresh();
    none!("visiting allocates nothing", m.for_each(|v| *v = w));
    check(m.dim() == x.d, "the matrix keeps its dimension");
    done();
}

harnesses! {
    h_c23_e_rm = d::expr::<RM>();
    h_c23_e_cm = d::expr::<CM>();
    h_c23_e_rv = d::expr::<RV>();
    h_c23_e_cv = d::expr::<CV>();
    h_c23_e_ut = d::expr::<UT>();
    h_c23_e_f32 = s::expr::<RM>();
    h_c23_e_c64 = z::expr::<CM>();
    h_c23_e_c32 = c::expr::<RM>();
    h_c23_big_rm = eval::<RM, f64>();
    h_c23_big_cm = eval::<CM, c64>();
    h_c23_big_ut = eval::<UT, f32>();
    h_c23_views = views::<f64>();
    h_c23_views_c32 = views::<c32>();
    h_c23_big_v_arm = visit::<ARM, f64>();
    h_c23_big_v_cm = visit::<CM, c64>();
}
