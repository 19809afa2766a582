//! C26: the scalar types' own arithmetic that the library adds: atan2.
use crate::api::*;
use crate::kit::*;

fn real64() {
    let (y, x) = (f64::fresh(), f64::fresh());
    <f64 as HScalar>::atan2(y, x).same(f64::atan2(y, x), "atan2 of reals is the angle of the point (x, y)");
    done();
}
fn real32() {
    let (y, x) = (f32::fresh(), f32::fresh());
    <f32 as HScalar>::atan2(y, x).same(f32::atan2(y, x), "atan2 of reals is the angle of the point (x, y)");
    done();
}
fn complex<T: Sc>() {
    let (y, x) = (T::fresh(), T::fresh());
    must_panic("atan2 of complex numbers is rejected", || {
        y.atan2(x).same(x, "unreachable");
    });
}

harnesses! {
    h_c26_f64 = real64();
    h_c26_f32 = real32();
    h_c26_c64 = complex::<c64>();
    h_c26_c32 = complex::<c32>();
}
