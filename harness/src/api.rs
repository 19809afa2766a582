//! The harness API.  In the symbolic build the `vf_*` functions are interpreted by the engine.
extern "C" {
    fn vf_any() -> usize;
    fn vf_word() -> usize;
    fn vf_below(hi: usize) -> usize;
    fn vf_pick(lo: usize, hi: usize) -> usize;
    fn vf_assume(c: bool);
    fn vf_mul(a: usize, b: usize) -> usize;
    fn vf_add(a: usize, b: usize) -> usize;
    fn vf_assert(c: bool, m: *const u8, n: usize);
    fn vf_done();
    fn vf_panic_ok(c: bool);
    fn vf_fp_hint(k: usize);
    fn vf_heap_calls() -> usize;
    fn vf_heap_bytes() -> usize;
    fn vf_buf_f64(n: usize) -> *mut f64;
    fn vf_buf_f32(n: usize) -> *mut f32;
    fn vf_buf_c64(n: usize) -> *mut f64;
    fn vf_buf_c32(n: usize) -> *mut f32;
    fn vf_init_f64(p: *const f64) -> f64;
    fn vf_init_f32(p: *const f32) -> f32;
    fn vf_any_f64() -> f64;
    fn vf_any_f32() -> f32;
    fn vf_in_bounds(p: *const u8, n: usize, m: *const u8, l: usize);
    fn vf_eq_f64(a: f64, b: f64, m: *const u8, l: usize);
    fn vf_eq_f32(a: f32, b: f32, m: *const u8, l: usize);
    fn vf_close_f64(a: f64, b: f64, m: *const u8, l: usize);
    fn vf_close_f32(a: f32, b: f32, m: *const u8, l: usize);
}

/// an arbitrary 64-bit value
#[inline(always)]
pub fn any() -> usize {
    unsafe { vf_any() }
}
/// an arbitrary 64-bit value that ends up in floating-point computations
#[inline(always)]
pub fn word() -> usize {
    unsafe { vf_word() }
}
/// an arbitrary value below `hi` (concrete)
#[inline(always)]
pub fn below(hi: usize) -> usize {
    unsafe { vf_below(hi) }
}
/// every value in lo..=hi, one path each
#[inline(always)]
pub fn pick(lo: usize, hi: usize) -> usize {
    unsafe { vf_pick(lo, hi) }
}
/// product / sum, assumed to fit
#[inline(always)]
pub fn mul(a: usize, b: usize) -> usize {
    unsafe { vf_mul(a, b) }
}
#[inline(always)]
pub fn add(a: usize, b: usize) -> usize {
    unsafe { vf_add(a, b) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { vf_assert(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn done() {
    unsafe { vf_done() }
}
/// from here on a panic is (true) the expected outcome / (false) a violation
#[inline(always)]
pub fn panic_ok(c: bool) {
    unsafe { vf_panic_ok(c) }
}
#[inline(always)]
pub fn fp_hint(k: usize) {
    unsafe { vf_fp_hint(k) }
}
/// number of heap allocations so far, and their total size
#[inline(always)]
pub fn heap() -> (usize, usize) {
    unsafe { (vf_heap_calls(), vf_heap_bytes()) }
}
#[inline(always)]
pub fn in_bounds<T>(p: *const T, n: usize, m: &'static str) {
    unsafe { vf_in_bounds(p as *const u8, n, m.as_ptr(), m.len()) }
}
/// `f` must panic
#[inline(always)]
pub fn must_panic<F: FnOnce()>(m: &'static str, f: F) {
    panic_ok(true);
    f();
    check(false, m);
}

/// the four scalar types
pub trait Sc: householder::types::HScalar + householder::RandScalar {
    const LANES: usize;
    fn buf(n: usize) -> *mut Self;
    /// content the buffer cell had at the start
    fn init(p: *const Self) -> Self;
    fn fresh() -> Self;
    /// bit-equal (any NaN equals any NaN)
    fn same(self, o: Self, m: &'static str);
    /// equal up to rounding
    fn close(self, o: Self, m: &'static str);
}
impl Sc for f64 {
    const LANES: usize = 1;
    #[inline(always)]
    fn buf(n: usize) -> *mut f64 {
        unsafe { vf_buf_f64(n) }
    }
    #[inline(always)]
    fn init(p: *const f64) -> f64 {
        unsafe { vf_init_f64(p) }
    }
    #[inline(always)]
    fn fresh() -> f64 {
        unsafe { vf_any_f64() }
    }
    #[inline(always)]
    fn same(self, o: f64, m: &'static str) {
        unsafe { vf_eq_f64(self, o, m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    fn close(self, o: f64, m: &'static str) {
        unsafe { vf_close_f64(self, o, m.as_ptr(), m.len()) }
    }
}
impl Sc for f32 {
    const LANES: usize = 1;
    #[inline(always)]
    fn buf(n: usize) -> *mut f32 {
        unsafe { vf_buf_f32(n) }
    }
    #[inline(always)]
    fn init(p: *const f32) -> f32 {
        unsafe { vf_init_f32(p) }
    }
    #[inline(always)]
    fn fresh() -> f32 {
        unsafe { vf_any_f32() }
    }
    #[inline(always)]
    fn same(self, o: f32, m: &'static str) {
        unsafe { vf_eq_f32(self, o, m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    fn close(self, o: f32, m: &'static str) {
        unsafe { vf_close_f32(self, o, m.as_ptr(), m.len()) }
    }
}
macro_rules! cplx {
    ($T:ty, $R:ty, $buf:ident) => {
        impl Sc for $T {
            const LANES: usize = 2;
            #[inline(always)]
            fn buf(n: usize) -> *mut $T {
                unsafe { $buf(n) as *mut $T }
            }
            #[inline(always)]
            fn init(p: *const $T) -> $T {
                let q = p as *const $R;
                <$T>::new(<$R as Sc>::init(q), <$R as Sc>::init(unsafe { q.add(1) }))
            }
            #[inline(always)]
            fn fresh() -> $T {
                let re = <$R as Sc>::fresh();
                let im = <$R as Sc>::fresh();
                <$T>::new(re, im)
            }
            #[inline(always)]
            fn same(self, o: $T, m: &'static str) {
                Sc::same(self.re, o.re, m);
                Sc::same(self.im, o.im, m);
            }
            #[inline(always)]
            fn close(self, o: $T, m: &'static str) {
                Sc::close(self.re, o.re, m);
                Sc::close(self.im, o.im, m);
            }
        }
    };
}
cplx!(householder::types::c64, f64, vf_buf_c64);
cplx!(householder::types::c32, f32, vf_buf_c32);
