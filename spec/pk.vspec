%# Shared by the units over packets.rs (macro-expanded text of /repo).
%open
%prelude
// ---------------------------------------------------------------- little-endian numbers
pub open spec fn le2(s: Seq<u8>, o: int) -> int { s[o] + 0x100 * s[o + 1] }
pub open spec fn le4(s: Seq<u8>, o: int) -> int { s[o] + 0x100 * s[o + 1] + 0x10000 * s[o + 2] + 0x1000000 * s[o + 3] }
pub open spec fn le8(s: Seq<u8>, o: int) -> int { le4(s, o) + 0x100000000 * le4(s, o + 4) }
/// two's complement reading of `n` (`half` is 2^(bits-1))
pub open spec fn sg(n: int, half: int) -> int { if n < half { n } else { n - 2 * half } }

// uN::from_le_bytes / to_le_bytes cannot be given an assume_specification (the
// array length is an anonymous constant); the extraction renames the calls.
// Their contracts are discharged against the real std functions by Kani (unit std_le).
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le2(b@, 0), { u16::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn i16_from_le_bytes(b: [u8; 2]) -> (r: i16) ensures r == sg(le2(b@, 0), 0x8000), { i16::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le4(b@, 0), { u32::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures r == sg(le4(b@, 0), 0x80000000), { i32::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn i8_from_le_bytes(b: [u8; 1]) -> (r: i8) ensures r == sg(b@[0] as int, 0x80), { i8::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le8(b@, 0), { u64::from_le_bytes(b) }
/// IEEE floats stand for themselves: the bit pattern determines the value.
pub uninterp spec fn f32_bits(n: int) -> f32;
pub uninterp spec fn f64_bits(n: int) -> f64;
#[verifier::external_body] /*discharged: kani std_le*/
pub fn f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures r == f32_bits(le4(b@, 0)), { f32::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn f64_from_le_bytes(b: [u8; 8]) -> (r: f64) ensures r == f64_bits(le8(b@, 0)), { f64::from_le_bytes(b) }

// ---------------------------------------------------------------- floats: exact IEEE operations, kept abstract
/// the float equal to the integer `n` (rounded, for f32, by the IEEE rule)
pub uninterp spec fn to64(n: int) -> f64;
pub uninterp spec fn to32(n: int) -> f32;
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<i32>>::from ](v: i32) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<u32>>::from ](v: u32) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<i16>>::from ](v: i16) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<u16>>::from ](v: u16) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<i8>>::from ](v: i8) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f64 as From<u8>>::from ](v: u8) -> (r: f64) ensures r == to64(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f32 as From<i16>>::from ](v: i16) -> (r: f32) ensures r == to32(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f32 as From<u16>>::from ](v: u16) -> (r: f32) ensures r == to32(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f32 as From<i8>>::from ](v: i8) -> (r: f32) ensures r == to32(v as int);
/*discharged: unit std_le (Kani)*/ pub assume_specification [ <f32 as From<u8>>::from ](v: u8) -> (r: f32) ensures r == to32(v as int);
// the product of two floats is the function the hardware computes
pub trait FloatOps: Sized + Copy {
    spec fn mul_spec(a: Self, b: Self) -> Self;
    fn fmul(a: Self, b: Self) -> (r: Self)
        ensures r == Self::mul_spec(a, b);
}
pub uninterp spec fn mul64(a: f64, b: f64) -> f64;
pub uninterp spec fn mul32(a: f32, b: f32) -> f32;
impl FloatOps for f64 {
    open spec fn mul_spec(a: f64, b: f64) -> f64 { mul64(a, b) }
    #[verifier::external_body]
    fn fmul(a: f64, b: f64) -> (r: f64) { a * b }
}
impl FloatOps for f32 {
    open spec fn mul_spec(a: f32, b: f32) -> f32 { mul32(a, b) }
    #[verifier::external_body]
    fn fmul(a: f32, b: f32) -> (r: f32) { a * b }
}
pub fn fmul<T: FloatOps>(a: T, b: T) -> (r: T) ensures r == T::mul_spec(a, b), { T::fmul(a, b) }

// ---------------------------------------------------------------- core::fmt (what is printed is not specified; the calls are)
pub struct Formatter {}
pub struct DebugStruct {}
pub struct FmtResult {}
impl Formatter {
    #[verifier::external_body]
    pub fn debug_struct(&mut self, name: &str) -> (r: DebugStruct) { unimplemented!() }
}
impl DebugStruct {
    #[verifier::external_body]
    pub fn field<T>(self, name: &str, value: &T) -> (r: DebugStruct) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FmtResult) { unimplemented!() }
}

%gsubst
<u16>::from_le_bytes( ==> u16_from_le_bytes(
;;
<i16>::from_le_bytes( ==> i16_from_le_bytes(
;;
<u32>::from_le_bytes( ==> u32_from_le_bytes(
;;
<i32>::from_le_bytes( ==> i32_from_le_bytes(
;;
<i8>::from_le_bytes( ==> i8_from_le_bytes(
;;
<u64>::from_le_bytes( ==> u64_from_le_bytes(
;;
<f32>::from_le_bytes( ==> f32_from_le_bytes(
;;
<f64>::from_le_bytes( ==> f64_from_le_bytes(
;;
u16::from_le_bytes( ==> u16_from_le_bytes(
;;
u32::from_le_bytes( ==> u32_from_le_bytes(
;;
i16::from_le_bytes( ==> i16_from_le_bytes(
;;
i32::from_le_bytes( ==> i32_from_le_bytes(
;;
let val = val * $s; ==> let val = fmul(val, $s);
;;
f: &mut core::fmt::Formatter<'_> ==> f: &mut Formatter
;;
-> core::fmt::Result ==> -> FmtResult
