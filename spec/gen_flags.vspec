%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
pub struct NavHpPosEcefFlags { pub b: u8 }
impl NavHpPosEcefFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavHpPosEcefFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavHpPosEcefFlags (reserved ones included)
pub open spec fn NavHpPosEcefFlags_all() -> u8 { 0xff }
pub struct NavPvtFlags { pub b: u8 }
impl NavPvtFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavPvtFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavPvtFlags (reserved ones included)
pub open spec fn NavPvtFlags_all() -> u8 { 0xff }
pub struct NavPvtFlags2 { pub b: u8 }
impl NavPvtFlags2 {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavPvtFlags2_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavPvtFlags2 (reserved ones included)
pub open spec fn NavPvtFlags2_all() -> u8 { 0xff }
pub struct NavStatusFlags { pub b: u8 }
impl NavStatusFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavStatusFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavStatusFlags (reserved ones included)
pub open spec fn NavStatusFlags_all() -> u8 { 0xff }
pub struct OdoCogFilterFlags { pub b: u8 }
impl OdoCogFilterFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & OdoCogFilterFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of OdoCogFilterFlags (reserved ones included)
pub open spec fn OdoCogFilterFlags_all() -> u8 { 0xff }
pub struct CfgInfMask { pub b: u8 }
impl CfgInfMask {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & CfgInfMask_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgInfMask (reserved ones included)
pub open spec fn CfgInfMask_all() -> u8 { 0xff }
pub struct AntFlags { pub b: u16 }
impl AntFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & AntFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of AntFlags (reserved ones included)
pub open spec fn AntFlags_all() -> u16 { 0xffff }
pub struct CfgTmode2Flags { pub b: u16 }
impl CfgTmode2Flags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & CfgTmode2Flags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgTmode2Flags (reserved ones included)
pub open spec fn CfgTmode2Flags_all() -> u16 { 0xffff }
pub struct NavTimeLsFlags { pub b: u8 }
impl NavTimeLsFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavTimeLsFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavTimeLsFlags (reserved ones included)
pub open spec fn NavTimeLsFlags_all() -> u8 { 0xff }
pub struct CfgTmode3RcvrMode { pub b: u8 }
impl CfgTmode3RcvrMode {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & CfgTmode3RcvrMode_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgTmode3RcvrMode (reserved ones included)
pub open spec fn CfgTmode3RcvrMode_all() -> u8 { 0xff }
pub struct CfgTp5Flags { pub b: u32 }
impl CfgTp5Flags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u32) -> (r: Self) ensures r.b == bits & CfgTp5Flags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgTp5Flags (reserved ones included)
pub open spec fn CfgTp5Flags_all() -> u32 { 0xffffffff }
pub struct CfgTmode3Flags { pub b: u8 }
impl CfgTmode3Flags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & CfgTmode3Flags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgTmode3Flags (reserved ones included)
pub open spec fn CfgTmode3Flags_all() -> u8 { 0xff }
pub struct NavBbrMask { pub b: u16 }
impl NavBbrMask {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & NavBbrMask_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavBbrMask (reserved ones included)
pub open spec fn NavBbrMask_all() -> u16 { 0xffff }
pub struct CfgLayer { pub b: u8 }
impl CfgLayer {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & CfgLayer_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgLayer (reserved ones included)
pub open spec fn CfgLayer_all() -> u8 { 0xff }
pub struct InProtoMask { pub b: u16 }
impl InProtoMask {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & InProtoMask_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of InProtoMask (reserved ones included)
pub open spec fn InProtoMask_all() -> u16 { 0xffff }
pub struct OutProtoMask { pub b: u16 }
impl OutProtoMask {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & OutProtoMask_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of OutProtoMask (reserved ones included)
pub open spec fn OutProtoMask_all() -> u16 { 0xffff }
pub struct NavTimeUtcFlags { pub b: u8 }
impl NavTimeUtcFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & NavTimeUtcFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of NavTimeUtcFlags (reserved ones included)
pub open spec fn NavTimeUtcFlags_all() -> u8 { 0xff }
pub struct CfgNav5Params { pub b: u16 }
impl CfgNav5Params {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & CfgNav5Params_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgNav5Params (reserved ones included)
pub open spec fn CfgNav5Params_all() -> u16 { 0xffff }
pub struct CfgNavX5Params1 { pub b: u16 }
impl CfgNavX5Params1 {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u16) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u16) -> (r: Self) ensures r.b == bits & CfgNavX5Params1_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgNavX5Params1 (reserved ones included)
pub open spec fn CfgNavX5Params1_all() -> u16 { 0xffff }
pub struct CfgNavX5Params2 { pub b: u32 }
impl CfgNavX5Params2 {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u32) -> (r: Self) ensures r.b == bits & CfgNavX5Params2_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of CfgNavX5Params2 (reserved ones included)
pub open spec fn CfgNavX5Params2_all() -> u32 { 0xffffffff }
pub struct RecStatFlags { pub b: u8 }
impl RecStatFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & RecStatFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of RecStatFlags (reserved ones included)
pub open spec fn RecStatFlags_all() -> u8 { 0xff }
pub struct MonGnssConstellMask { pub b: u8 }
impl MonGnssConstellMask {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & MonGnssConstellMask_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of MonGnssConstellMask (reserved ones included)
pub open spec fn MonGnssConstellMask_all() -> u8 { 0xff }
pub struct EsfInsBitFlags { pub b: u32 }
impl EsfInsBitFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u32) -> (r: Self) ensures r.b == bits & EsfInsBitFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of EsfInsBitFlags (reserved ones included)
pub open spec fn EsfInsBitFlags_all() -> u32 { 0xffffffff }
pub struct HnrInsBitFlags { pub b: u32 }
impl HnrInsBitFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u32) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u32) -> (r: Self) ensures r.b == bits & HnrInsBitFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of HnrInsBitFlags (reserved ones included)
pub open spec fn HnrInsBitFlags_all() -> u32 { 0xffffffff }
pub struct HnrPvtFlags { pub b: u8 }
impl HnrPvtFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & HnrPvtFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of HnrPvtFlags (reserved ones included)
pub open spec fn HnrPvtFlags_all() -> u8 { 0xff }
pub struct HnrPvtValidFlags { pub b: u8 }
impl HnrPvtValidFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & HnrPvtValidFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of HnrPvtValidFlags (reserved ones included)
pub open spec fn HnrPvtValidFlags_all() -> u8 { 0xff }
pub struct StdevFlags { pub b: u8 }
impl StdevFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & StdevFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of StdevFlags (reserved ones included)
pub open spec fn StdevFlags_all() -> u8 { 0xff }
pub struct TrkStatFlags { pub b: u8 }
impl TrkStatFlags {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits & TrkStatFlags_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of TrkStatFlags (reserved ones included)
pub open spec fn TrkStatFlags_all() -> u8 { 0xff }
%gsubst
const fn from ==> fn from
;;
const fn into_raw ==> fn into_raw
;;
(1 as u8) << $k) ==> shl8($k))
;;
(1 as u16) << $k) ==> shl16($k))
;;
(1 as u32) << $k) ==> shl32($k))
%prelude
pub fn shl8(k: u32) -> (r: u8) requires k < 8, ensures k == 0 ==> r == 0x1, k == 1 ==> r == 0x2, k == 2 ==> r == 0x4, k == 3 ==> r == 0x8, k == 4 ==> r == 0x10, k == 5 ==> r == 0x20, k == 6 ==> r == 0x40, k == 7 ==> r == 0x80, { proof { assert((1 as u8) << 0u32 == 0x1) by (bit_vector); assert((1 as u8) << 1u32 == 0x2) by (bit_vector); assert((1 as u8) << 2u32 == 0x4) by (bit_vector); assert((1 as u8) << 3u32 == 0x8) by (bit_vector); assert((1 as u8) << 4u32 == 0x10) by (bit_vector); assert((1 as u8) << 5u32 == 0x20) by (bit_vector); assert((1 as u8) << 6u32 == 0x40) by (bit_vector); assert((1 as u8) << 7u32 == 0x80) by (bit_vector); } (1 as u8) << k }
pub fn shl16(k: u32) -> (r: u16) requires k < 16, ensures k == 0 ==> r == 0x1, k == 1 ==> r == 0x2, k == 2 ==> r == 0x4, k == 3 ==> r == 0x8, k == 4 ==> r == 0x10, k == 5 ==> r == 0x20, k == 6 ==> r == 0x40, k == 7 ==> r == 0x80, k == 8 ==> r == 0x100, k == 9 ==> r == 0x200, k == 10 ==> r == 0x400, k == 11 ==> r == 0x800, k == 12 ==> r == 0x1000, k == 13 ==> r == 0x2000, k == 14 ==> r == 0x4000, k == 15 ==> r == 0x8000, { proof { assert((1 as u16) << 0u32 == 0x1) by (bit_vector); assert((1 as u16) << 1u32 == 0x2) by (bit_vector); assert((1 as u16) << 2u32 == 0x4) by (bit_vector); assert((1 as u16) << 3u32 == 0x8) by (bit_vector); assert((1 as u16) << 4u32 == 0x10) by (bit_vector); assert((1 as u16) << 5u32 == 0x20) by (bit_vector); assert((1 as u16) << 6u32 == 0x40) by (bit_vector); assert((1 as u16) << 7u32 == 0x80) by (bit_vector); assert((1 as u16) << 8u32 == 0x100) by (bit_vector); assert((1 as u16) << 9u32 == 0x200) by (bit_vector); assert((1 as u16) << 10u32 == 0x400) by (bit_vector); assert((1 as u16) << 11u32 == 0x800) by (bit_vector); assert((1 as u16) << 12u32 == 0x1000) by (bit_vector); assert((1 as u16) << 13u32 == 0x2000) by (bit_vector); assert((1 as u16) << 14u32 == 0x4000) by (bit_vector); assert((1 as u16) << 15u32 == 0x8000) by (bit_vector); } (1 as u16) << k }
pub fn shl32(k: u32) -> (r: u32) requires k < 32, ensures k == 0 ==> r == 0x1, k == 1 ==> r == 0x2, k == 2 ==> r == 0x4, k == 3 ==> r == 0x8, k == 4 ==> r == 0x10, k == 5 ==> r == 0x20, k == 6 ==> r == 0x40, k == 7 ==> r == 0x80, k == 8 ==> r == 0x100, k == 9 ==> r == 0x200, k == 10 ==> r == 0x400, k == 11 ==> r == 0x800, k == 12 ==> r == 0x1000, k == 13 ==> r == 0x2000, k == 14 ==> r == 0x4000, k == 15 ==> r == 0x8000, k == 16 ==> r == 0x10000, k == 17 ==> r == 0x20000, k == 18 ==> r == 0x40000, k == 19 ==> r == 0x80000, k == 20 ==> r == 0x100000, k == 21 ==> r == 0x200000, k == 22 ==> r == 0x400000, k == 23 ==> r == 0x800000, k == 24 ==> r == 0x1000000, k == 25 ==> r == 0x2000000, k == 26 ==> r == 0x4000000, k == 27 ==> r == 0x8000000, k == 28 ==> r == 0x10000000, k == 29 ==> r == 0x20000000, k == 30 ==> r == 0x40000000, k == 31 ==> r == 0x80000000, { proof { assert((1 as u32) << 0u32 == 0x1) by (bit_vector); assert((1 as u32) << 1u32 == 0x2) by (bit_vector); assert((1 as u32) << 2u32 == 0x4) by (bit_vector); assert((1 as u32) << 3u32 == 0x8) by (bit_vector); assert((1 as u32) << 4u32 == 0x10) by (bit_vector); assert((1 as u32) << 5u32 == 0x20) by (bit_vector); assert((1 as u32) << 6u32 == 0x40) by (bit_vector); assert((1 as u32) << 7u32 == 0x80) by (bit_vector); assert((1 as u32) << 8u32 == 0x100) by (bit_vector); assert((1 as u32) << 9u32 == 0x200) by (bit_vector); assert((1 as u32) << 10u32 == 0x400) by (bit_vector); assert((1 as u32) << 11u32 == 0x800) by (bit_vector); assert((1 as u32) << 12u32 == 0x1000) by (bit_vector); assert((1 as u32) << 13u32 == 0x2000) by (bit_vector); assert((1 as u32) << 14u32 == 0x4000) by (bit_vector); assert((1 as u32) << 15u32 == 0x8000) by (bit_vector); assert((1 as u32) << 16u32 == 0x10000) by (bit_vector); assert((1 as u32) << 17u32 == 0x20000) by (bit_vector); assert((1 as u32) << 18u32 == 0x40000) by (bit_vector); assert((1 as u32) << 19u32 == 0x80000) by (bit_vector); assert((1 as u32) << 20u32 == 0x100000) by (bit_vector); assert((1 as u32) << 21u32 == 0x200000) by (bit_vector); assert((1 as u32) << 22u32 == 0x400000) by (bit_vector); assert((1 as u32) << 23u32 == 0x800000) by (bit_vector); assert((1 as u32) << 24u32 == 0x1000000) by (bit_vector); assert((1 as u32) << 25u32 == 0x2000000) by (bit_vector); assert((1 as u32) << 26u32 == 0x4000000) by (bit_vector); assert((1 as u32) << 27u32 == 0x8000000) by (bit_vector); assert((1 as u32) << 28u32 == 0x10000000) by (bit_vector); assert((1 as u32) << 29u32 == 0x20000000) by (bit_vector); assert((1 as u32) << 30u32 == 0x40000000) by (bit_vector); assert((1 as u32) << 31u32 == 0x80000000) by (bit_vector); } (1 as u32) << k }
%source exp
%take impl NavHpPosEcefFlags
%only impl NavHpPosEcefFlags = from into_raw INVALID_ECEF RESERVED1 RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn NavHpPosEcefFlags::from | ret=r
        ensures r.b == x,
%end NavHpPosEcefFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn NavHpPosEcefFlags::into_raw | ret=r
        ensures r == self.b,
%constfn NavHpPosEcefFlags::INVALID_ECEF
        ensures r.b == 0x1,
%constfn NavHpPosEcefFlags::RESERVED1
        ensures r.b == 0x2,
%constfn NavHpPosEcefFlags::RESERVED2
        ensures r.b == 0x4,
%constfn NavHpPosEcefFlags::RESERVED3
        ensures r.b == 0x8,
%constfn NavHpPosEcefFlags::RESERVED4
        ensures r.b == 0x10,
%constfn NavHpPosEcefFlags::RESERVED5
        ensures r.b == 0x20,
%constfn NavHpPosEcefFlags::RESERVED6
        ensures r.b == 0x40,
%constfn NavHpPosEcefFlags::RESERVED7
        ensures r.b == 0x80,
%take impl NavPvtFlags
%only impl NavPvtFlags = from into_raw GPS_FIX_OK DIFF_SOLN HEAD_VEH_VALID CARR_SOLN_FLOAT CARR_SOLN_FIXED RESERVED2 RESERVED3 RESERVED4
%fn NavPvtFlags::from | ret=r
        ensures r.b == x,
%end NavPvtFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn NavPvtFlags::GPS_FIX_OK
        ensures r.b == 0x1,
%constfn NavPvtFlags::DIFF_SOLN
        ensures r.b == 0x2,
%constfn NavPvtFlags::HEAD_VEH_VALID
        ensures r.b == 0x20,
%constfn NavPvtFlags::CARR_SOLN_FLOAT
        ensures r.b == 0x40,
%constfn NavPvtFlags::CARR_SOLN_FIXED
        ensures r.b == 0x80,
%constfn NavPvtFlags::RESERVED2
        ensures r.b == 0x4,
%constfn NavPvtFlags::RESERVED3
        ensures r.b == 0x8,
%constfn NavPvtFlags::RESERVED4
        ensures r.b == 0x10,
%take impl NavPvtFlags2
%only impl NavPvtFlags2 = from into_raw CONFIRMED_AVAI CONFIRMED_DATE CONFIRMED_TIME RESERVED0 RESERVED1 RESERVED2 RESERVED3 RESERVED4
%fn NavPvtFlags2::from | ret=r
        ensures r.b == x,
%end NavPvtFlags2::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn NavPvtFlags2::CONFIRMED_AVAI
        ensures r.b == 0x20,
%constfn NavPvtFlags2::CONFIRMED_DATE
        ensures r.b == 0x40,
%constfn NavPvtFlags2::CONFIRMED_TIME
        ensures r.b == 0x80,
%constfn NavPvtFlags2::RESERVED0
        ensures r.b == 0x1,
%constfn NavPvtFlags2::RESERVED1
        ensures r.b == 0x2,
%constfn NavPvtFlags2::RESERVED2
        ensures r.b == 0x4,
%constfn NavPvtFlags2::RESERVED3
        ensures r.b == 0x8,
%constfn NavPvtFlags2::RESERVED4
        ensures r.b == 0x10,
%take impl NavStatusFlags
%only impl NavStatusFlags = from into_raw GPS_FIX_OK DIFF_SOLN WKN_SET TOW_SET RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn NavStatusFlags::from | ret=r
        ensures r.b == x,
%end NavStatusFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn NavStatusFlags::GPS_FIX_OK
        ensures r.b == 0x1,
%constfn NavStatusFlags::DIFF_SOLN
        ensures r.b == 0x2,
%constfn NavStatusFlags::WKN_SET
        ensures r.b == 0x4,
%constfn NavStatusFlags::TOW_SET
        ensures r.b == 0x8,
%constfn NavStatusFlags::RESERVED4
        ensures r.b == 0x10,
%constfn NavStatusFlags::RESERVED5
        ensures r.b == 0x20,
%constfn NavStatusFlags::RESERVED6
        ensures r.b == 0x40,
%constfn NavStatusFlags::RESERVED7
        ensures r.b == 0x80,
%take impl OdoCogFilterFlags
%only impl OdoCogFilterFlags = from into_raw USE_ODO USE_COG OUT_LP_VEL OUT_LP_COG RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn OdoCogFilterFlags::from | ret=r
        ensures r.b == x,
%end OdoCogFilterFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn OdoCogFilterFlags::into_raw | ret=r
        ensures r == self.b,
%constfn OdoCogFilterFlags::USE_ODO
        ensures r.b == 0x1,
%constfn OdoCogFilterFlags::USE_COG
        ensures r.b == 0x2,
%constfn OdoCogFilterFlags::OUT_LP_VEL
        ensures r.b == 0x4,
%constfn OdoCogFilterFlags::OUT_LP_COG
        ensures r.b == 0x8,
%constfn OdoCogFilterFlags::RESERVED4
        ensures r.b == 0x10,
%constfn OdoCogFilterFlags::RESERVED5
        ensures r.b == 0x20,
%constfn OdoCogFilterFlags::RESERVED6
        ensures r.b == 0x40,
%constfn OdoCogFilterFlags::RESERVED7
        ensures r.b == 0x80,
%take impl CfgInfMask
%only impl CfgInfMask = from into_raw ERROR WARNING NOTICE TEST DEBUG RESERVED5 RESERVED6 RESERVED7
%fn CfgInfMask::from | ret=r
        ensures r.b == x,
%end CfgInfMask::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn CfgInfMask::into_raw | ret=r
        ensures r == self.b,
%constfn CfgInfMask::ERROR
        ensures r.b == 0x1,
%constfn CfgInfMask::WARNING
        ensures r.b == 0x2,
%constfn CfgInfMask::NOTICE
        ensures r.b == 0x4,
%constfn CfgInfMask::TEST
        ensures r.b == 0x8,
%constfn CfgInfMask::DEBUG
        ensures r.b == 0x10,
%constfn CfgInfMask::RESERVED5
        ensures r.b == 0x20,
%constfn CfgInfMask::RESERVED6
        ensures r.b == 0x40,
%constfn CfgInfMask::RESERVED7
        ensures r.b == 0x80,
%take impl AntFlags
%only impl AntFlags = from into_raw SVCS SCD OCD PDWN_ON_SCD RECOVERY RESERVED5 RESERVED6 RESERVED7 RESERVED8 RESERVED9 RESERVED10 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15
%fn AntFlags::from | ret=r
        ensures r.b == x,
%end AntFlags::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn AntFlags::into_raw | ret=r
        ensures r == self.b,
%constfn AntFlags::SVCS
        ensures r.b == 0x1,
%constfn AntFlags::SCD
        ensures r.b == 0x2,
%constfn AntFlags::OCD
        ensures r.b == 0x4,
%constfn AntFlags::PDWN_ON_SCD
        ensures r.b == 0x8,
%constfn AntFlags::RECOVERY
        ensures r.b == 0x10,
%constfn AntFlags::RESERVED5
        ensures r.b == 0x20,
%constfn AntFlags::RESERVED6
        ensures r.b == 0x40,
%constfn AntFlags::RESERVED7
        ensures r.b == 0x80,
%constfn AntFlags::RESERVED8
        ensures r.b == 0x100,
%constfn AntFlags::RESERVED9
        ensures r.b == 0x200,
%constfn AntFlags::RESERVED10
        ensures r.b == 0x400,
%constfn AntFlags::RESERVED11
        ensures r.b == 0x800,
%constfn AntFlags::RESERVED12
        ensures r.b == 0x1000,
%constfn AntFlags::RESERVED13
        ensures r.b == 0x2000,
%constfn AntFlags::RESERVED14
        ensures r.b == 0x4000,
%constfn AntFlags::RESERVED15
        ensures r.b == 0x8000,
%take impl CfgTmode2Flags
%only impl CfgTmode2Flags = from into_raw LLA ALT_INVALID RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7 RESERVED8 RESERVED9 RESERVED10 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15
%fn CfgTmode2Flags::from | ret=r
        ensures r.b == x,
%end CfgTmode2Flags::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn CfgTmode2Flags::into_raw | ret=r
        ensures r == self.b,
%constfn CfgTmode2Flags::LLA
        ensures r.b == 0x1,
%constfn CfgTmode2Flags::ALT_INVALID
        ensures r.b == 0x2,
%constfn CfgTmode2Flags::RESERVED2
        ensures r.b == 0x4,
%constfn CfgTmode2Flags::RESERVED3
        ensures r.b == 0x8,
%constfn CfgTmode2Flags::RESERVED4
        ensures r.b == 0x10,
%constfn CfgTmode2Flags::RESERVED5
        ensures r.b == 0x20,
%constfn CfgTmode2Flags::RESERVED6
        ensures r.b == 0x40,
%constfn CfgTmode2Flags::RESERVED7
        ensures r.b == 0x80,
%constfn CfgTmode2Flags::RESERVED8
        ensures r.b == 0x100,
%constfn CfgTmode2Flags::RESERVED9
        ensures r.b == 0x200,
%constfn CfgTmode2Flags::RESERVED10
        ensures r.b == 0x400,
%constfn CfgTmode2Flags::RESERVED11
        ensures r.b == 0x800,
%constfn CfgTmode2Flags::RESERVED12
        ensures r.b == 0x1000,
%constfn CfgTmode2Flags::RESERVED13
        ensures r.b == 0x2000,
%constfn CfgTmode2Flags::RESERVED14
        ensures r.b == 0x4000,
%constfn CfgTmode2Flags::RESERVED15
        ensures r.b == 0x8000,
%take impl NavTimeLsFlags
%only impl NavTimeLsFlags = from into_raw VALID_CURR_LS VALID_TIME_TO_LS_EVENT RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn NavTimeLsFlags::from | ret=r
        ensures r.b == x,
%end NavTimeLsFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn NavTimeLsFlags::VALID_CURR_LS
        ensures r.b == 0x1,
%constfn NavTimeLsFlags::VALID_TIME_TO_LS_EVENT
        ensures r.b == 0x2,
%constfn NavTimeLsFlags::RESERVED2
        ensures r.b == 0x4,
%constfn NavTimeLsFlags::RESERVED3
        ensures r.b == 0x8,
%constfn NavTimeLsFlags::RESERVED4
        ensures r.b == 0x10,
%constfn NavTimeLsFlags::RESERVED5
        ensures r.b == 0x20,
%constfn NavTimeLsFlags::RESERVED6
        ensures r.b == 0x40,
%constfn NavTimeLsFlags::RESERVED7
        ensures r.b == 0x80,
%take impl CfgTmode3RcvrMode
%only impl CfgTmode3RcvrMode = from into_raw DISABLED SURVEY_IN FIXED_MODE RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn CfgTmode3RcvrMode::from | ret=r
        ensures r.b == x,
%end CfgTmode3RcvrMode::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn CfgTmode3RcvrMode::into_raw | ret=r
        ensures r == self.b,
%constfn CfgTmode3RcvrMode::DISABLED
        ensures r.b == 0x1,
%constfn CfgTmode3RcvrMode::SURVEY_IN
        ensures r.b == 0x2,
%constfn CfgTmode3RcvrMode::FIXED_MODE
        ensures r.b == 0x4,
%constfn CfgTmode3RcvrMode::RESERVED3
        ensures r.b == 0x8,
%constfn CfgTmode3RcvrMode::RESERVED4
        ensures r.b == 0x10,
%constfn CfgTmode3RcvrMode::RESERVED5
        ensures r.b == 0x20,
%constfn CfgTmode3RcvrMode::RESERVED6
        ensures r.b == 0x40,
%constfn CfgTmode3RcvrMode::RESERVED7
        ensures r.b == 0x80,
%take impl CfgTp5Flags
%only impl CfgTp5Flags = from into_raw ACTIVE LOCK_GNSS_FREQ LOCKED_OTHER_SET IS_FREQ IS_LENGTH ALIGN_TO_TOW POLARITY UTC_TIME_GRID GPS_TIME_GRID GLO_TIME_GRID BDS_TIME_GRID GAL_TIME_GRID SYNC_MODE_0 SYNC_MODE_1 RESERVED14 RESERVED15 RESERVED16 RESERVED17 RESERVED18 RESERVED19 RESERVED20 RESERVED21 RESERVED22 RESERVED23 RESERVED24 RESERVED25 RESERVED26 RESERVED27 RESERVED28 RESERVED29 RESERVED30 RESERVED31
%fn CfgTp5Flags::from | ret=r
        ensures r.b == x,
%end CfgTp5Flags::from
        proof { assert(x & 0xffffffffu32 == x) by (bit_vector); }
%fn CfgTp5Flags::into_raw | ret=r
        ensures r == self.b,
%constfn CfgTp5Flags::ACTIVE
        ensures r.b == 0x1,
%constfn CfgTp5Flags::LOCK_GNSS_FREQ
        ensures r.b == 0x2,
%constfn CfgTp5Flags::LOCKED_OTHER_SET
        ensures r.b == 0x4,
%constfn CfgTp5Flags::IS_FREQ
        ensures r.b == 0x8,
%constfn CfgTp5Flags::IS_LENGTH
        ensures r.b == 0x10,
%constfn CfgTp5Flags::ALIGN_TO_TOW
        ensures r.b == 0x20,
%constfn CfgTp5Flags::POLARITY
        ensures r.b == 0x40,
%constfn CfgTp5Flags::UTC_TIME_GRID
        ensures r.b == 0x80,
%constfn CfgTp5Flags::GPS_TIME_GRID
        ensures r.b == 0x100,
%constfn CfgTp5Flags::GLO_TIME_GRID
        ensures r.b == 0x200,
%constfn CfgTp5Flags::BDS_TIME_GRID
        ensures r.b == 0x400,
%constfn CfgTp5Flags::GAL_TIME_GRID
        ensures r.b == 0x800,
%constfn CfgTp5Flags::SYNC_MODE_0
        ensures r.b == 0x1000,
%constfn CfgTp5Flags::SYNC_MODE_1
        ensures r.b == 0x2000,
%constfn CfgTp5Flags::RESERVED14
        ensures r.b == 0x4000,
%constfn CfgTp5Flags::RESERVED15
        ensures r.b == 0x8000,
%constfn CfgTp5Flags::RESERVED16
        ensures r.b == 0x10000,
%constfn CfgTp5Flags::RESERVED17
        ensures r.b == 0x20000,
%constfn CfgTp5Flags::RESERVED18
        ensures r.b == 0x40000,
%constfn CfgTp5Flags::RESERVED19
        ensures r.b == 0x80000,
%constfn CfgTp5Flags::RESERVED20
        ensures r.b == 0x100000,
%constfn CfgTp5Flags::RESERVED21
        ensures r.b == 0x200000,
%constfn CfgTp5Flags::RESERVED22
        ensures r.b == 0x400000,
%constfn CfgTp5Flags::RESERVED23
        ensures r.b == 0x800000,
%constfn CfgTp5Flags::RESERVED24
        ensures r.b == 0x1000000,
%constfn CfgTp5Flags::RESERVED25
        ensures r.b == 0x2000000,
%constfn CfgTp5Flags::RESERVED26
        ensures r.b == 0x4000000,
%constfn CfgTp5Flags::RESERVED27
        ensures r.b == 0x8000000,
%constfn CfgTp5Flags::RESERVED28
        ensures r.b == 0x10000000,
%constfn CfgTp5Flags::RESERVED29
        ensures r.b == 0x20000000,
%constfn CfgTp5Flags::RESERVED30
        ensures r.b == 0x40000000,
%constfn CfgTp5Flags::RESERVED31
        ensures r.b == 0x80000000,
%take impl CfgTmode3Flags
%only impl CfgTmode3Flags = from into_raw LLA RESERVED1 RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn CfgTmode3Flags::from | ret=r
        ensures r.b == x,
%end CfgTmode3Flags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn CfgTmode3Flags::into_raw | ret=r
        ensures r == self.b,
%constfn CfgTmode3Flags::LLA
        ensures r.b == 0x1,
%constfn CfgTmode3Flags::RESERVED1
        ensures r.b == 0x2,
%constfn CfgTmode3Flags::RESERVED2
        ensures r.b == 0x4,
%constfn CfgTmode3Flags::RESERVED3
        ensures r.b == 0x8,
%constfn CfgTmode3Flags::RESERVED4
        ensures r.b == 0x10,
%constfn CfgTmode3Flags::RESERVED5
        ensures r.b == 0x20,
%constfn CfgTmode3Flags::RESERVED6
        ensures r.b == 0x40,
%constfn CfgTmode3Flags::RESERVED7
        ensures r.b == 0x80,
%take impl NavBbrMask
%only impl NavBbrMask = from into_raw EPHEMERIS ALMANACH HEALTH KLOBUCHARD POSITION CLOCK_DRIFT OSCILATOR_PARAMETER UTC_CORRECTION_PARAMETERS RTC SFDR_PARAMETERS SFDR_VEHICLE_MONITORING_PARAMETERS TCT_PARAMETERS AUTONOMOUS_ORBIT_PARAMETERS RESERVED9 RESERVED10 RESERVED14
%fn NavBbrMask::into_raw | ret=r
        ensures r == self.b,
%constfn NavBbrMask::EPHEMERIS
        ensures r.b == 0x1,
%constfn NavBbrMask::ALMANACH
        ensures r.b == 0x2,
%constfn NavBbrMask::HEALTH
        ensures r.b == 0x4,
%constfn NavBbrMask::KLOBUCHARD
        ensures r.b == 0x8,
%constfn NavBbrMask::POSITION
        ensures r.b == 0x10,
%constfn NavBbrMask::CLOCK_DRIFT
        ensures r.b == 0x20,
%constfn NavBbrMask::OSCILATOR_PARAMETER
        ensures r.b == 0x40,
%constfn NavBbrMask::UTC_CORRECTION_PARAMETERS
        ensures r.b == 0x80,
%constfn NavBbrMask::RTC
        ensures r.b == 0x100,
%constfn NavBbrMask::SFDR_PARAMETERS
        ensures r.b == 0x800,
%constfn NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS
        ensures r.b == 0x1000,
%constfn NavBbrMask::TCT_PARAMETERS
        ensures r.b == 0x2000,
%constfn NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS
        ensures r.b == 0x8000,
%constfn NavBbrMask::RESERVED9
        ensures r.b == 0x200,
%constfn NavBbrMask::RESERVED10
        ensures r.b == 0x400,
%constfn NavBbrMask::RESERVED14
        ensures r.b == 0x4000,
%take impl CfgLayer
%only impl CfgLayer = from into_raw RAM BBR FLASH RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn CfgLayer::from | ret=r
        ensures r.b == x,
%end CfgLayer::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn CfgLayer::into_raw | ret=r
        ensures r == self.b,
%constfn CfgLayer::RAM
        ensures r.b == 0x1,
%constfn CfgLayer::BBR
        ensures r.b == 0x2,
%constfn CfgLayer::FLASH
        ensures r.b == 0x4,
%constfn CfgLayer::RESERVED3
        ensures r.b == 0x8,
%constfn CfgLayer::RESERVED4
        ensures r.b == 0x10,
%constfn CfgLayer::RESERVED5
        ensures r.b == 0x20,
%constfn CfgLayer::RESERVED6
        ensures r.b == 0x40,
%constfn CfgLayer::RESERVED7
        ensures r.b == 0x80,
%take impl InProtoMask
%only impl InProtoMask = from into_raw UBLOX NMEA RTCM RTCM3 RESERVED3 RESERVED4 RESERVED6 RESERVED7 RESERVED8 RESERVED9 RESERVED10 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15
%fn InProtoMask::from | ret=r
        ensures r.b == x,
%end InProtoMask::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn InProtoMask::into_raw | ret=r
        ensures r == self.b,
%constfn InProtoMask::UBLOX
        ensures r.b == 0x1,
%constfn InProtoMask::NMEA
        ensures r.b == 0x2,
%constfn InProtoMask::RTCM
        ensures r.b == 0x4,
%constfn InProtoMask::RTCM3
        ensures r.b == 0x20,
%constfn InProtoMask::RESERVED3
        ensures r.b == 0x8,
%constfn InProtoMask::RESERVED4
        ensures r.b == 0x10,
%constfn InProtoMask::RESERVED6
        ensures r.b == 0x40,
%constfn InProtoMask::RESERVED7
        ensures r.b == 0x80,
%constfn InProtoMask::RESERVED8
        ensures r.b == 0x100,
%constfn InProtoMask::RESERVED9
        ensures r.b == 0x200,
%constfn InProtoMask::RESERVED10
        ensures r.b == 0x400,
%constfn InProtoMask::RESERVED11
        ensures r.b == 0x800,
%constfn InProtoMask::RESERVED12
        ensures r.b == 0x1000,
%constfn InProtoMask::RESERVED13
        ensures r.b == 0x2000,
%constfn InProtoMask::RESERVED14
        ensures r.b == 0x4000,
%constfn InProtoMask::RESERVED15
        ensures r.b == 0x8000,
%take impl OutProtoMask
%only impl OutProtoMask = from into_raw UBLOX NMEA RTCM3 RESERVED2 RESERVED3 RESERVED4 RESERVED6 RESERVED7 RESERVED8 RESERVED9 RESERVED10 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15
%fn OutProtoMask::from | ret=r
        ensures r.b == x,
%end OutProtoMask::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn OutProtoMask::into_raw | ret=r
        ensures r == self.b,
%constfn OutProtoMask::UBLOX
        ensures r.b == 0x1,
%constfn OutProtoMask::NMEA
        ensures r.b == 0x2,
%constfn OutProtoMask::RTCM3
        ensures r.b == 0x20,
%constfn OutProtoMask::RESERVED2
        ensures r.b == 0x4,
%constfn OutProtoMask::RESERVED3
        ensures r.b == 0x8,
%constfn OutProtoMask::RESERVED4
        ensures r.b == 0x10,
%constfn OutProtoMask::RESERVED6
        ensures r.b == 0x40,
%constfn OutProtoMask::RESERVED7
        ensures r.b == 0x80,
%constfn OutProtoMask::RESERVED8
        ensures r.b == 0x100,
%constfn OutProtoMask::RESERVED9
        ensures r.b == 0x200,
%constfn OutProtoMask::RESERVED10
        ensures r.b == 0x400,
%constfn OutProtoMask::RESERVED11
        ensures r.b == 0x800,
%constfn OutProtoMask::RESERVED12
        ensures r.b == 0x1000,
%constfn OutProtoMask::RESERVED13
        ensures r.b == 0x2000,
%constfn OutProtoMask::RESERVED14
        ensures r.b == 0x4000,
%constfn OutProtoMask::RESERVED15
        ensures r.b == 0x8000,
%take impl NavTimeUtcFlags
%only impl NavTimeUtcFlags = from into_raw VALID_TOW VALID_WKN VALID_UTC RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn NavTimeUtcFlags::from | ret=r
        ensures r.b == x,
%end NavTimeUtcFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn NavTimeUtcFlags::VALID_TOW
        ensures r.b == 0x1,
%constfn NavTimeUtcFlags::VALID_WKN
        ensures r.b == 0x2,
%constfn NavTimeUtcFlags::VALID_UTC
        ensures r.b == 0x4,
%constfn NavTimeUtcFlags::RESERVED3
        ensures r.b == 0x8,
%constfn NavTimeUtcFlags::RESERVED4
        ensures r.b == 0x10,
%constfn NavTimeUtcFlags::RESERVED5
        ensures r.b == 0x20,
%constfn NavTimeUtcFlags::RESERVED6
        ensures r.b == 0x40,
%constfn NavTimeUtcFlags::RESERVED7
        ensures r.b == 0x80,
%take impl CfgNav5Params
%only impl CfgNav5Params = from into_raw DYN MIN_EL POS_FIX_MODE DR_LIM POS_MASK_APPLY TIME_MASK STATIC_HOLD_MASK DGPS_MASK CNO_THRESHOLD UTC RESERVED9 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15
%fn CfgNav5Params::from | ret=r
        ensures r.b == x,
%end CfgNav5Params::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn CfgNav5Params::into_raw | ret=r
        ensures r == self.b,
%constfn CfgNav5Params::DYN
        ensures r.b == 0x1,
%constfn CfgNav5Params::MIN_EL
        ensures r.b == 0x2,
%constfn CfgNav5Params::POS_FIX_MODE
        ensures r.b == 0x4,
%constfn CfgNav5Params::DR_LIM
        ensures r.b == 0x8,
%constfn CfgNav5Params::POS_MASK_APPLY
        ensures r.b == 0x10,
%constfn CfgNav5Params::TIME_MASK
        ensures r.b == 0x20,
%constfn CfgNav5Params::STATIC_HOLD_MASK
        ensures r.b == 0x40,
%constfn CfgNav5Params::DGPS_MASK
        ensures r.b == 0x80,
%constfn CfgNav5Params::CNO_THRESHOLD
        ensures r.b == 0x100,
%constfn CfgNav5Params::UTC
        ensures r.b == 0x400,
%constfn CfgNav5Params::RESERVED9
        ensures r.b == 0x200,
%constfn CfgNav5Params::RESERVED11
        ensures r.b == 0x800,
%constfn CfgNav5Params::RESERVED12
        ensures r.b == 0x1000,
%constfn CfgNav5Params::RESERVED13
        ensures r.b == 0x2000,
%constfn CfgNav5Params::RESERVED14
        ensures r.b == 0x4000,
%constfn CfgNav5Params::RESERVED15
        ensures r.b == 0x8000,
%take impl CfgNavX5Params1
%only impl CfgNavX5Params1 = from into_raw MIN_MAX MIN_CNO INITIAL_3D_FIX WKN_ROLL AID_ACK USE_PPP AOP_CFG RESERVED0 RESERVED1 RESERVED4 RESERVED5 RESERVED7 RESERVED8 RESERVED11 RESERVED12 RESERVED15
%fn CfgNavX5Params1::from | ret=r
        ensures r.b == x,
%end CfgNavX5Params1::from
        proof { assert(x & 0xffffu16 == x) by (bit_vector); }
%fn CfgNavX5Params1::into_raw | ret=r
        ensures r == self.b,
%constfn CfgNavX5Params1::MIN_MAX
        ensures r.b == 0x4,
%constfn CfgNavX5Params1::MIN_CNO
        ensures r.b == 0x8,
%constfn CfgNavX5Params1::INITIAL_3D_FIX
        ensures r.b == 0x40,
%constfn CfgNavX5Params1::WKN_ROLL
        ensures r.b == 0x200,
%constfn CfgNavX5Params1::AID_ACK
        ensures r.b == 0x400,
%constfn CfgNavX5Params1::USE_PPP
        ensures r.b == 0x2000,
%constfn CfgNavX5Params1::AOP_CFG
        ensures r.b == 0x4000,
%constfn CfgNavX5Params1::RESERVED0
        ensures r.b == 0x1,
%constfn CfgNavX5Params1::RESERVED1
        ensures r.b == 0x2,
%constfn CfgNavX5Params1::RESERVED4
        ensures r.b == 0x10,
%constfn CfgNavX5Params1::RESERVED5
        ensures r.b == 0x20,
%constfn CfgNavX5Params1::RESERVED7
        ensures r.b == 0x80,
%constfn CfgNavX5Params1::RESERVED8
        ensures r.b == 0x100,
%constfn CfgNavX5Params1::RESERVED11
        ensures r.b == 0x800,
%constfn CfgNavX5Params1::RESERVED12
        ensures r.b == 0x1000,
%constfn CfgNavX5Params1::RESERVED15
        ensures r.b == 0x8000,
%take impl CfgNavX5Params2
%only impl CfgNavX5Params2 = from into_raw USE_ADR USE_SIG_ATTEN_COMP RESERVED0 RESERVED1 RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED8 RESERVED9 RESERVED10 RESERVED11 RESERVED12 RESERVED13 RESERVED14 RESERVED15 RESERVED16 RESERVED17 RESERVED18 RESERVED19 RESERVED20 RESERVED21 RESERVED22 RESERVED23 RESERVED24 RESERVED25 RESERVED26 RESERVED27 RESERVED28 RESERVED29 RESERVED30 RESERVED31
%fn CfgNavX5Params2::from | ret=r
        ensures r.b == x,
%end CfgNavX5Params2::from
        proof { assert(x & 0xffffffffu32 == x) by (bit_vector); }
%fn CfgNavX5Params2::into_raw | ret=r
        ensures r == self.b,
%constfn CfgNavX5Params2::USE_ADR
        ensures r.b == 0x40,
%constfn CfgNavX5Params2::USE_SIG_ATTEN_COMP
        ensures r.b == 0x80,
%constfn CfgNavX5Params2::RESERVED0
        ensures r.b == 0x1,
%constfn CfgNavX5Params2::RESERVED1
        ensures r.b == 0x2,
%constfn CfgNavX5Params2::RESERVED2
        ensures r.b == 0x4,
%constfn CfgNavX5Params2::RESERVED3
        ensures r.b == 0x8,
%constfn CfgNavX5Params2::RESERVED4
        ensures r.b == 0x10,
%constfn CfgNavX5Params2::RESERVED5
        ensures r.b == 0x20,
%constfn CfgNavX5Params2::RESERVED8
        ensures r.b == 0x100,
%constfn CfgNavX5Params2::RESERVED9
        ensures r.b == 0x200,
%constfn CfgNavX5Params2::RESERVED10
        ensures r.b == 0x400,
%constfn CfgNavX5Params2::RESERVED11
        ensures r.b == 0x800,
%constfn CfgNavX5Params2::RESERVED12
        ensures r.b == 0x1000,
%constfn CfgNavX5Params2::RESERVED13
        ensures r.b == 0x2000,
%constfn CfgNavX5Params2::RESERVED14
        ensures r.b == 0x4000,
%constfn CfgNavX5Params2::RESERVED15
        ensures r.b == 0x8000,
%constfn CfgNavX5Params2::RESERVED16
        ensures r.b == 0x10000,
%constfn CfgNavX5Params2::RESERVED17
        ensures r.b == 0x20000,
%constfn CfgNavX5Params2::RESERVED18
        ensures r.b == 0x40000,
%constfn CfgNavX5Params2::RESERVED19
        ensures r.b == 0x80000,
%constfn CfgNavX5Params2::RESERVED20
        ensures r.b == 0x100000,
%constfn CfgNavX5Params2::RESERVED21
        ensures r.b == 0x200000,
%constfn CfgNavX5Params2::RESERVED22
        ensures r.b == 0x400000,
%constfn CfgNavX5Params2::RESERVED23
        ensures r.b == 0x800000,
%constfn CfgNavX5Params2::RESERVED24
        ensures r.b == 0x1000000,
%constfn CfgNavX5Params2::RESERVED25
        ensures r.b == 0x2000000,
%constfn CfgNavX5Params2::RESERVED26
        ensures r.b == 0x4000000,
%constfn CfgNavX5Params2::RESERVED27
        ensures r.b == 0x8000000,
%constfn CfgNavX5Params2::RESERVED28
        ensures r.b == 0x10000000,
%constfn CfgNavX5Params2::RESERVED29
        ensures r.b == 0x20000000,
%constfn CfgNavX5Params2::RESERVED30
        ensures r.b == 0x40000000,
%constfn CfgNavX5Params2::RESERVED31
        ensures r.b == 0x80000000,
%take impl RecStatFlags
%only impl RecStatFlags = from into_raw LEAP_SEC CLK_RESET RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn RecStatFlags::from | ret=r
        ensures r.b == x,
%end RecStatFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn RecStatFlags::into_raw | ret=r
        ensures r == self.b,
%constfn RecStatFlags::LEAP_SEC
        ensures r.b == 0x1,
%constfn RecStatFlags::CLK_RESET
        ensures r.b == 0x2,
%constfn RecStatFlags::RESERVED2
        ensures r.b == 0x4,
%constfn RecStatFlags::RESERVED3
        ensures r.b == 0x8,
%constfn RecStatFlags::RESERVED4
        ensures r.b == 0x10,
%constfn RecStatFlags::RESERVED5
        ensures r.b == 0x20,
%constfn RecStatFlags::RESERVED6
        ensures r.b == 0x40,
%constfn RecStatFlags::RESERVED7
        ensures r.b == 0x80,
%take impl MonGnssConstellMask
%only impl MonGnssConstellMask = from into_raw GPS GLO BDC GAL RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn MonGnssConstellMask::from | ret=r
        ensures r.b == x,
%end MonGnssConstellMask::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%fn MonGnssConstellMask::into_raw | ret=r
        ensures r == self.b,
%constfn MonGnssConstellMask::GPS
        ensures r.b == 0x1,
%constfn MonGnssConstellMask::GLO
        ensures r.b == 0x2,
%constfn MonGnssConstellMask::BDC
        ensures r.b == 0x4,
%constfn MonGnssConstellMask::GAL
        ensures r.b == 0x8,
%constfn MonGnssConstellMask::RESERVED4
        ensures r.b == 0x10,
%constfn MonGnssConstellMask::RESERVED5
        ensures r.b == 0x20,
%constfn MonGnssConstellMask::RESERVED6
        ensures r.b == 0x40,
%constfn MonGnssConstellMask::RESERVED7
        ensures r.b == 0x80,
%take impl EsfInsBitFlags
%only impl EsfInsBitFlags = from into_raw VERSION X_ANG_RATE_VALID Y_ANG_RATE_VALID Z_ANG_RATE_VALID X_ACCEL_VALID Y_ACCEL_VALID Z_ACCEL_VALID RESERVED1 RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7 RESERVED14 RESERVED15 RESERVED16 RESERVED17 RESERVED18 RESERVED19 RESERVED20 RESERVED21 RESERVED22 RESERVED23 RESERVED24 RESERVED25 RESERVED26 RESERVED27 RESERVED28 RESERVED29 RESERVED30 RESERVED31
%fn EsfInsBitFlags::from | ret=r
        ensures r.b == x,
%end EsfInsBitFlags::from
        proof { assert(x & 0xffffffffu32 == x) by (bit_vector); }
%constfn EsfInsBitFlags::VERSION
        ensures r.b == 0x1,
%constfn EsfInsBitFlags::X_ANG_RATE_VALID
        ensures r.b == 0x100,
%constfn EsfInsBitFlags::Y_ANG_RATE_VALID
        ensures r.b == 0x200,
%constfn EsfInsBitFlags::Z_ANG_RATE_VALID
        ensures r.b == 0x400,
%constfn EsfInsBitFlags::X_ACCEL_VALID
        ensures r.b == 0x800,
%constfn EsfInsBitFlags::Y_ACCEL_VALID
        ensures r.b == 0x1000,
%constfn EsfInsBitFlags::Z_ACCEL_VALID
        ensures r.b == 0x2000,
%constfn EsfInsBitFlags::RESERVED1
        ensures r.b == 0x2,
%constfn EsfInsBitFlags::RESERVED2
        ensures r.b == 0x4,
%constfn EsfInsBitFlags::RESERVED3
        ensures r.b == 0x8,
%constfn EsfInsBitFlags::RESERVED4
        ensures r.b == 0x10,
%constfn EsfInsBitFlags::RESERVED5
        ensures r.b == 0x20,
%constfn EsfInsBitFlags::RESERVED6
        ensures r.b == 0x40,
%constfn EsfInsBitFlags::RESERVED7
        ensures r.b == 0x80,
%constfn EsfInsBitFlags::RESERVED14
        ensures r.b == 0x4000,
%constfn EsfInsBitFlags::RESERVED15
        ensures r.b == 0x8000,
%constfn EsfInsBitFlags::RESERVED16
        ensures r.b == 0x10000,
%constfn EsfInsBitFlags::RESERVED17
        ensures r.b == 0x20000,
%constfn EsfInsBitFlags::RESERVED18
        ensures r.b == 0x40000,
%constfn EsfInsBitFlags::RESERVED19
        ensures r.b == 0x80000,
%constfn EsfInsBitFlags::RESERVED20
        ensures r.b == 0x100000,
%constfn EsfInsBitFlags::RESERVED21
        ensures r.b == 0x200000,
%constfn EsfInsBitFlags::RESERVED22
        ensures r.b == 0x400000,
%constfn EsfInsBitFlags::RESERVED23
        ensures r.b == 0x800000,
%constfn EsfInsBitFlags::RESERVED24
        ensures r.b == 0x1000000,
%constfn EsfInsBitFlags::RESERVED25
        ensures r.b == 0x2000000,
%constfn EsfInsBitFlags::RESERVED26
        ensures r.b == 0x4000000,
%constfn EsfInsBitFlags::RESERVED27
        ensures r.b == 0x8000000,
%constfn EsfInsBitFlags::RESERVED28
        ensures r.b == 0x10000000,
%constfn EsfInsBitFlags::RESERVED29
        ensures r.b == 0x20000000,
%constfn EsfInsBitFlags::RESERVED30
        ensures r.b == 0x40000000,
%constfn EsfInsBitFlags::RESERVED31
        ensures r.b == 0x80000000,
%take impl HnrInsBitFlags
%only impl HnrInsBitFlags = from into_raw VERSION X_ANG_RATE_VALID Y_ANG_RATE_VALID Z_ANG_RATE_VALID X_ACCEL_VALID Y_ACCEL_VALID Z_ACCEL_VALID RESERVED1 RESERVED2 RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7 RESERVED14 RESERVED15 RESERVED16 RESERVED17 RESERVED18 RESERVED19 RESERVED20 RESERVED21 RESERVED22 RESERVED23 RESERVED24 RESERVED25 RESERVED26 RESERVED27 RESERVED28 RESERVED29 RESERVED30 RESERVED31
%fn HnrInsBitFlags::from | ret=r
        ensures r.b == x,
%end HnrInsBitFlags::from
        proof { assert(x & 0xffffffffu32 == x) by (bit_vector); }
%constfn HnrInsBitFlags::VERSION
        ensures r.b == 0x1,
%constfn HnrInsBitFlags::X_ANG_RATE_VALID
        ensures r.b == 0x100,
%constfn HnrInsBitFlags::Y_ANG_RATE_VALID
        ensures r.b == 0x200,
%constfn HnrInsBitFlags::Z_ANG_RATE_VALID
        ensures r.b == 0x400,
%constfn HnrInsBitFlags::X_ACCEL_VALID
        ensures r.b == 0x800,
%constfn HnrInsBitFlags::Y_ACCEL_VALID
        ensures r.b == 0x1000,
%constfn HnrInsBitFlags::Z_ACCEL_VALID
        ensures r.b == 0x2000,
%constfn HnrInsBitFlags::RESERVED1
        ensures r.b == 0x2,
%constfn HnrInsBitFlags::RESERVED2
        ensures r.b == 0x4,
%constfn HnrInsBitFlags::RESERVED3
        ensures r.b == 0x8,
%constfn HnrInsBitFlags::RESERVED4
        ensures r.b == 0x10,
%constfn HnrInsBitFlags::RESERVED5
        ensures r.b == 0x20,
%constfn HnrInsBitFlags::RESERVED6
        ensures r.b == 0x40,
%constfn HnrInsBitFlags::RESERVED7
        ensures r.b == 0x80,
%constfn HnrInsBitFlags::RESERVED14
        ensures r.b == 0x4000,
%constfn HnrInsBitFlags::RESERVED15
        ensures r.b == 0x8000,
%constfn HnrInsBitFlags::RESERVED16
        ensures r.b == 0x10000,
%constfn HnrInsBitFlags::RESERVED17
        ensures r.b == 0x20000,
%constfn HnrInsBitFlags::RESERVED18
        ensures r.b == 0x40000,
%constfn HnrInsBitFlags::RESERVED19
        ensures r.b == 0x80000,
%constfn HnrInsBitFlags::RESERVED20
        ensures r.b == 0x100000,
%constfn HnrInsBitFlags::RESERVED21
        ensures r.b == 0x200000,
%constfn HnrInsBitFlags::RESERVED22
        ensures r.b == 0x400000,
%constfn HnrInsBitFlags::RESERVED23
        ensures r.b == 0x800000,
%constfn HnrInsBitFlags::RESERVED24
        ensures r.b == 0x1000000,
%constfn HnrInsBitFlags::RESERVED25
        ensures r.b == 0x2000000,
%constfn HnrInsBitFlags::RESERVED26
        ensures r.b == 0x4000000,
%constfn HnrInsBitFlags::RESERVED27
        ensures r.b == 0x8000000,
%constfn HnrInsBitFlags::RESERVED28
        ensures r.b == 0x10000000,
%constfn HnrInsBitFlags::RESERVED29
        ensures r.b == 0x20000000,
%constfn HnrInsBitFlags::RESERVED30
        ensures r.b == 0x40000000,
%constfn HnrInsBitFlags::RESERVED31
        ensures r.b == 0x80000000,
%take impl HnrPvtFlags
%only impl HnrPvtFlags = from into_raw GPS_FIX_OK DIFF_SOLN WKN_SET TOW_SET HEAD_VEH_VALID RESERVED5 RESERVED6 RESERVED7
%fn HnrPvtFlags::from | ret=r
        ensures r.b == x,
%end HnrPvtFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn HnrPvtFlags::GPS_FIX_OK
        ensures r.b == 0x1,
%constfn HnrPvtFlags::DIFF_SOLN
        ensures r.b == 0x2,
%constfn HnrPvtFlags::WKN_SET
        ensures r.b == 0x4,
%constfn HnrPvtFlags::TOW_SET
        ensures r.b == 0x8,
%constfn HnrPvtFlags::HEAD_VEH_VALID
        ensures r.b == 0x10,
%constfn HnrPvtFlags::RESERVED5
        ensures r.b == 0x20,
%constfn HnrPvtFlags::RESERVED6
        ensures r.b == 0x40,
%constfn HnrPvtFlags::RESERVED7
        ensures r.b == 0x80,
%take impl HnrPvtValidFlags
%only impl HnrPvtValidFlags = from into_raw VALID_DATE VALID_TIME FULLY_RESOLVED RESERVED3 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn HnrPvtValidFlags::from | ret=r
        ensures r.b == x,
%end HnrPvtValidFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn HnrPvtValidFlags::VALID_DATE
        ensures r.b == 0x1,
%constfn HnrPvtValidFlags::VALID_TIME
        ensures r.b == 0x2,
%constfn HnrPvtValidFlags::FULLY_RESOLVED
        ensures r.b == 0x4,
%constfn HnrPvtValidFlags::RESERVED3
        ensures r.b == 0x8,
%constfn HnrPvtValidFlags::RESERVED4
        ensures r.b == 0x10,
%constfn HnrPvtValidFlags::RESERVED5
        ensures r.b == 0x20,
%constfn HnrPvtValidFlags::RESERVED6
        ensures r.b == 0x40,
%constfn HnrPvtValidFlags::RESERVED7
        ensures r.b == 0x80,
%take impl StdevFlags
%only impl StdevFlags = from into_raw STD_1 STD_2 STD_3 STD_4 RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn StdevFlags::from | ret=r
        ensures r.b == x,
%end StdevFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn StdevFlags::STD_1
        ensures r.b == 0x1,
%constfn StdevFlags::STD_2
        ensures r.b == 0x2,
%constfn StdevFlags::STD_3
        ensures r.b == 0x4,
%constfn StdevFlags::STD_4
        ensures r.b == 0x8,
%constfn StdevFlags::RESERVED4
        ensures r.b == 0x10,
%constfn StdevFlags::RESERVED5
        ensures r.b == 0x20,
%constfn StdevFlags::RESERVED6
        ensures r.b == 0x40,
%constfn StdevFlags::RESERVED7
        ensures r.b == 0x80,
%take impl TrkStatFlags
%only impl TrkStatFlags = from into_raw PR_VALID CP_VALID HALF_CYCLE SUB_HALF_CYCLE RESERVED4 RESERVED5 RESERVED6 RESERVED7
%fn TrkStatFlags::from | ret=r
        ensures r.b == x,
%end TrkStatFlags::from
        proof { assert(x & 0xffu8 == x) by (bit_vector); }
%constfn TrkStatFlags::PR_VALID
        ensures r.b == 0x1,
%constfn TrkStatFlags::CP_VALID
        ensures r.b == 0x2,
%constfn TrkStatFlags::HALF_CYCLE
        ensures r.b == 0x4,
%constfn TrkStatFlags::SUB_HALF_CYCLE
        ensures r.b == 0x8,
%constfn TrkStatFlags::RESERVED4
        ensures r.b == 0x10,
%constfn TrkStatFlags::RESERVED5
        ensures r.b == 0x20,
%constfn TrkStatFlags::RESERVED6
        ensures r.b == 0x40,
%constfn TrkStatFlags::RESERVED7
        ensures r.b == 0x80,
