%# ScaleBack: how a floating-point value becomes a stored integer (Kani, bit-precise floating point).
%plain
%prelude
use num_traits::{
    cast::{FromPrimitive, ToPrimitive},
    float::FloatCore,
};
/// num_traits' rounding functions are assumed to be those of the standard library
/// (CBMC cannot take the floating-point remainder they are computed with).
pub trait FloatX: FloatCore {
    fn fc_round(self) -> Self;
    fn fc_floor(self) -> Self;
    fn fc_ceil(self) -> Self;
    fn fc_trunc(self) -> Self;
    fn wide(self) -> f64;
}
impl FloatX for f32 {
    fn fc_round(self) -> f32 { f32::round(self) }
    fn fc_floor(self) -> f32 { f32::floor(self) }
    fn fc_ceil(self) -> f32 { f32::ceil(self) }
    fn fc_trunc(self) -> f32 { f32::trunc(self) }
    fn wide(self) -> f64 { self as f64 }
}
impl FloatX for f64 {
    fn fc_round(self) -> f64 { f64::round(self) }
    fn fc_floor(self) -> f64 { f64::floor(self) }
    fn fc_ceil(self) -> f64 { f64::ceil(self) }
    fn fc_trunc(self) -> f64 { f64::trunc(self) }
    fn wide(self) -> f64 { self }
}
/// `r` encodes `x`, with `k` the reciprocal of the scale: the nearest integer to the
/// product, limited to the range of the field; for NaN any value will do.
pub fn encodes<T: FloatX>(k: T, x: T, r: f64, min: f64, max: f64) -> bool {
    let p = (x * k).wide();
    if p != p {
        true
    } else if p >= max {
        r == max
    } else if p <= min {
        r == min
    } else {
        let d = r - p;
        r >= min && r <= max && d <= 0.5 && d >= -0.5
    }
}
%source packets
%take struct ScaleBack
%derive struct ScaleBack :: #[derive(Clone, Copy)]
%take impl ScaleBack
%header impl ScaleBack
impl<T: FloatX + FromPrimitive + ToPrimitive> ScaleBack<T>
%gsubst
FloatCore ==> FloatX
;;
.round() ==> .fc_round()
;;
.floor() ==> .fc_floor()
;;
.ceil() ==> .fc_ceil()
;;
.trunc() ==> .fc_trunc()
