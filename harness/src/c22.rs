//! C22: a matrix made from a raw pointer is exactly the described part of memory.
use crate::api::*;
use crate::kit::*;

/// a description of part of a larger buffer: offset of the first element, dimension and stride
#[inline(always)]
fn part<K: Lay, T: Sc>() -> (*mut T, usize, usize, D2, D2, usize) {
    let (d, s) = any_dim::<K>();
    count::<K>(d);
    let e = span::<K>(d, s);
    let off = any();
    let len = any();
    assume(off <= len && e <= len - off);
    (T::buf(len), len, off, d, s, e)
}
/// the two constructors of each layout
pub trait Ptr: Lay {
    unsafe fn ro<T: Sc>(p: *const T, d: D2, s: D2) -> Sl<Self, T>;
    unsafe fn rw<T: Sc>(p: *mut T, d: D2, s: D2) -> SlM<Self, T>;
}
impl Ptr for RM {
    #[inline(always)]
    unsafe fn ro<T: Sc>(p: *const T, d: D2, _s: D2) -> Sl<Self, T> {
        Sl::<RM, T>::from_pointer(p, d)
    }
    #[inline(always)]
    unsafe fn rw<T: Sc>(p: *mut T, d: D2, _s: D2) -> SlM<Self, T> {
        SlM::<RM, T>::from_pointer(p, d)
    }
}
impl Ptr for CM {
    #[inline(always)]
    unsafe fn ro<T: Sc>(p: *const T, d: D2, _s: D2) -> Sl<Self, T> {
        Sl::<CM, T>::from_pointer(p, d)
    }
    #[inline(always)]
    unsafe fn rw<T: Sc>(p: *mut T, d: D2, _s: D2) -> SlM<Self, T> {
        SlM::<CM, T>::from_pointer(p, d)
    }
}
impl Ptr for ARM {
    #[inline(always)]
    unsafe fn ro<T: Sc>(p: *const T, d: D2, s: D2) -> Sl<Self, T> {
        Sl::<ARM, T>::from_pointer(p, d, s)
    }
    #[inline(always)]
    unsafe fn rw<T: Sc>(p: *mut T, d: D2, s: D2) -> SlM<Self, T> {
        SlM::<ARM, T>::from_pointer(p, d, s)
    }
}
impl Ptr for ACM {
    #[inline(always)]
    unsafe fn ro<T: Sc>(p: *const T, d: D2, s: D2) -> Sl<Self, T> {
        Sl::<ACM, T>::from_pointer(p, d, s)
    }
    #[inline(always)]
    unsafe fn rw<T: Sc>(p: *mut T, d: D2, s: D2) -> SlM<Self, T> {
        SlM::<ACM, T>::from_pointer(p, d, s)
    }
}
/// shape and container of a matrix over `e` cells at `b`
macro_rules! shape {
    ($m:expr, $b:expr, $d:expr, $s:expr, $e:expr) => {{
        let (m, d, s, e) = ($m, $d, $s, $e);
        match pick(0, 4) {
            0 => {
                check(m.dim() == d, "the dimension is the given one");
                check(m.layout().number_of_elements() == d.0 * d.1, "the number of elements is that of the dimension");
            }
            1 => check(m.layout().stride() == s, "the strides are the given ones"),
            2 => {
                check(m.get_pointer() as usize == $b as usize, "element (0, 0) is at the pointer");
                assume(e > 0);
                let t = m.get_slice(0, e);
                check(t.as_ptr() as usize == $b as usize, "the container starts at the pointer");
                check(t.len() == e, "the container reaches to the last element");
            }
            3 => must_panic("the container does not reach beyond the last element", || {
                m.get_slice(any(), add(e, 1));
            }),
            _ => {
                let (i, j) = (any(), any());
                assume(i >= d.0 || j >= d.1);
                must_panic("there are no elements outside the dimension", || {
                    m.get(i, j);
                })
            }
        }
    }};
}
fn ro<K: Ptr, T: Sc>() {
    let (p, _len, off, d, s, e) = part::<K, T>();
    let b = unsafe { p.add(off) };
    let m = unsafe { K::ro(b as *const T, d, s) };
    if pick(0, 1) == 0 {
        shape!(m, b, d, s, e);
    } else {
        let (i, j) = any_pos::<K>(d);
        let want = T::init(unsafe { b.add(raw::<K>(d, s, i, j)) });
        if pick(0, 1) == 0 {
            m.get(i, j).same(want, "element (i, j) is at the pointer plus the strides");
        } else {
            m.get1d(one::<K>(d, i, j)).same(want, "element (i, j) is at the pointer plus the strides (1D)");
        }
    }
    done();
}
fn rw<K: Ptr, T: Sc>() {
    let (p, len, off, d, s, e) = part::<K, T>();
    let b = unsafe { p.add(off) };
    let mut m = unsafe { K::rw(b, d, s) };
    if pick(0, 1) == 0 {
        shape!(m, b, d, s, e);
    } else {
        let (i, j) = any_pos::<K>(d);
        let r = raw::<K>(d, s, i, j);
        let w = T::fresh();
        if pick(0, 1) == 0 {
            *m.get_mut(i, j) = w;
        } else {
            *m.get1d_mut(one::<K>(d, i, j)) = w;
        }
        unsafe { *b.add(r) }.same(w, "a write goes to the pointer plus the strides");
        let q = any();
        assume(q < len && q != off + r);
        unsafe { *p.add(q) }.same(T::init(unsafe { p.add(q) }), "no other memory is written");
    }
    done();
}

harnesses! {
    h_c22_ro_rm = ro::<RM, f64>();
    h_c22_ro_cm = ro::<CM, f64>();
    h_c22_ro_arm = ro::<ARM, f64>();
    h_c22_ro_acm = ro::<ACM, f64>();
    h_c22_rw_rm = rw::<RM, f64>();
    h_c22_rw_cm = rw::<CM, f64>();
    h_c22_rw_arm = rw::<ARM, f64>();
    h_c22_rw_acm = rw::<ACM, f64>();
    h_c22_ro_rm_c64 = ro::<RM, c64>();
    h_c22_ro_acm_f32 = ro::<ACM, f32>();
    h_c22_rw_cm_c32 = rw::<CM, c32>();
    h_c22_rw_arm_c64 = rw::<ARM, c64>();
}
