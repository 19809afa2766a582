//! C24: a data container is exactly the memory it was made from.
use crate::api::*;
use crate::kit::*;

/// count, pointer, one element and one range of a container of `n` elements at `b`
macro_rules! reading {
    ($c:expr, $b:expr, $n:expr, $old:expr) => {{
        let (c, n) = (&$c, $n);
        match pick(0, 4) {
            0 => check(c.number_of_elements() == n, "a container has as many elements as it was given"),
            1 => {
                let i = any();
                assume(i < n);
                unsafe { c.get_unchecked(i) }.same($old(i), "element i is the i-th of the memory");
            }
            2 => {
                let (f, l) = (any(), any());
                assume(f < l && l <= n);
                let s = c.get_slice(f, l);
                check(s.len() == l - f, "a range has its length");
                check(s.as_ptr() as usize == unsafe { c.get_pointer().add(f) } as usize, "a range starts at its first element");
                let i = any();
                assume(i < l - f);
                s[i].same($old(f + i), "a range holds its elements in order");
            }
            3 => {
                let (f, l) = (any(), any());
                assume(f >= l || l > n);
                must_panic("other ranges are rejected", || {
                    c.get_slice(f, l);
                })
            }
            _ => {
                let i = any();
                assume(i < n);
                unsafe { *c.get_pointer().add(i) }.same($old(i), "the pointer addresses the first element");
            }
        }
    }};
}
/// a write, by any of the ways
macro_rules! writing {
    ($c:expr, $n:expr, $old:expr, $T:ty) => {{
        let (c, n) = (&mut $c, $n);
        let i = any();
        assume(i < n);
        let w = <$T>::fresh();
        match pick(0, 3) {
            0 => *unsafe { c.get_unchecked_mut(i) } = w,
            1 => unsafe { *c.get_pointer_mut().add(i) = w },
            2 => {
                let (f, l) = (any(), any());
                assume(f <= i && i < l && l <= n);
                let s = c.get_slice_mut(f, l);
                check(s.len() == l - f, "a mutable range has its length");
                s[i - f] = w;
            }
            _ => {
                let (f, l) = (any(), any());
                assume(f >= l || l > n);
                must_panic("other mutable ranges are rejected", || {
                    c.get_slice_mut(f, l);
                })
            }
        }
        unsafe { c.get_unchecked(i) }.same(w, "a written element is read back");
        let q = any();
        assume(q < n && q != i);
        unsafe { c.get_unchecked(q) }.same($old(q), "no other element changes");
    }};
}
fn vec_r<T: Sc>() {
    let n = any();
    assume(n <= (isize::MAX as usize) / std::mem::size_of::<T>());
    let c = VectorContainer::<T>::new(n);
    reading!(c, c.get_pointer(), n, |_i| <T as num::Zero>::zero());
    done();
}
fn vec_w<T: Sc>() {
    let n = any();
    assume(n <= (isize::MAX as usize) / std::mem::size_of::<T>());
    let mut c = VectorContainer::<T>::new(n);
    writing!(c, n, |_i| <T as num::Zero>::zero(), T);
    done();
}
fn arr_r<T: Sc, const N: usize>() {
    let c = if pick(0, 1) == 0 { ArrayContainer::<T, N>::new() } else { Default::default() };
    reading!(c, c.get_pointer(), N, |_i| <T as num::Zero>::zero());
    done();
}
fn arr_w<T: Sc, const N: usize>() {
    let mut c = ArrayContainer::<T, N>::new();
    writing!(c, N, |_i| <T as num::Zero>::zero(), T);
    done();
}
fn sl_r<T: Sc>() {
    let n = any();
    let p = T::buf(n);
    let c = SliceContainer::<T>::new(unsafe { std::slice::from_raw_parts(p, n) });
    check(c.get_pointer() as usize == p as usize, "a slice container starts where its slice does");
    reading!(c, p, n, |i| T::init(unsafe { p.add(i) }));
    done();
}
fn slm_r<T: Sc>() {
    let n = any();
    let p = T::buf(n);
    let mut c = SliceContainerMut::<T>::new(unsafe { std::slice::from_raw_parts_mut(p, n) });
    check(c.get_pointer() as usize == p as usize, "a slice container starts where its slice does");
    check(c.get_pointer_mut() as usize == p as usize, "the mutable pointer is the pointer");
    reading!(c, p, n, |i| T::init(unsafe { p.add(i) }));
    done();
}
fn slm_w<T: Sc>() {
    let n = any();
    let p = T::buf(n);
    let mut c = SliceContainerMut::<T>::new(unsafe { std::slice::from_raw_parts_mut(p, n) });
    writing!(c, n, |i| T::init(unsafe { p.add(i) }), T);
    done();
}

harnesses! {
    h_c24_vec_r_f64 = vec_r::<f64>();
    h_c24_vec_r_f32 = vec_r::<f32>();
    h_c24_vec_r_c64 = vec_r::<c64>();
    h_c24_vec_r_c32 = vec_r::<c32>();
    h_c24_vec_w_f64 = vec_w::<f64>();
    h_c24_vec_w_f32 = vec_w::<f32>();
    h_c24_vec_w_c64 = vec_w::<c64>();
    h_c24_vec_w_c32 = vec_w::<c32>();
    h_c24_arr_r_f64 = arr_r::<f64, 6>();
    h_c24_arr_r_c32 = arr_r::<c32, 9>();
    h_c24_arr_r_f32 = arr_r::<f32, 1>();
    h_c24_arr_w_f64 = arr_w::<f64, 6>();
    h_c24_arr_w_c64 = arr_w::<c64, 9>();
    h_c24_arr_w_f32 = arr_w::<f32, 17>();
    h_c24_sl_f64 = sl_r::<f64>();
    h_c24_sl_c64 = sl_r::<c64>();
    h_c24_slm_f64 = slm_r::<f64>();
    h_c24_slm_f32 = slm_r::<f32>();
    h_c24_slw_f64 = slm_w::<f64>();
    h_c24_slw_f32 = slm_w::<f32>();
    h_c24_slw_c64 = slm_w::<c64>();
    h_c24_slw_c32 = slm_w::<c32>();
}
