%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
pub open spec fn CfgTp5TimePulseMode_valid(x: u8) -> bool { x == 0 || x == 1 }
#[verifier::external_body] /*stub: enums*/ pub struct GpsFix(u8);
pub uninterp spec fn GpsFix_of(x: u8) -> GpsFix; /*stub: enums*/
impl GpsFix {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == GpsFix_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavPvtFlags(u8);
pub uninterp spec fn NavPvtFlags_of(x: u8) -> NavPvtFlags; /*stub: flags*/
impl NavPvtFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavPvtFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavPvtFlags2(u8);
pub uninterp spec fn NavPvtFlags2_of(x: u8) -> NavPvtFlags2; /*stub: flags*/
impl NavPvtFlags2 {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavPvtFlags2_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavStatusFlags(u8);
pub uninterp spec fn NavStatusFlags_of(x: u8) -> NavStatusFlags; /*stub: flags*/
impl NavStatusFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavStatusFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode3RcvrMode(u8);
pub uninterp spec fn CfgTmode3RcvrMode_of(x: u8) -> CfgTmode3RcvrMode; /*stub: flags*/
impl CfgTmode3RcvrMode {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgTmode3RcvrMode_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode3Flags(u8);
pub uninterp spec fn CfgTmode3Flags_of(x: u8) -> CfgTmode3Flags; /*stub: flags*/
impl CfgTmode3Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgTmode3Flags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavTimeLsFlags(u8);
pub uninterp spec fn NavTimeLsFlags_of(x: u8) -> NavTimeLsFlags; /*stub: flags*/
impl NavTimeLsFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavTimeLsFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct CfgTp5TimePulseMode(u8);
pub uninterp spec fn CfgTp5TimePulseMode_of(x: u8) -> CfgTp5TimePulseMode; /*stub: enums*/
impl CfgTp5TimePulseMode {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgTp5TimePulseMode_valid(x), ensures r == CfgTp5TimePulseMode_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgTp5TimePulseMode_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgTp5Flags(u32);
pub uninterp spec fn CfgTp5Flags_of(x: u32) -> CfgTp5Flags; /*stub: flags*/
impl CfgTp5Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgTp5Flags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct EsfInsBitFlags(u32);
pub uninterp spec fn EsfInsBitFlags_of(x: u32) -> EsfInsBitFlags; /*stub: flags*/
impl EsfInsBitFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == EsfInsBitFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct MonGnssConstellMask(u8);
pub uninterp spec fn MonGnssConstellMask_of(x: u8) -> MonGnssConstellMask; /*stub: flags*/
impl MonGnssConstellMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == MonGnssConstellMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct CfgItfmConfig(u32);
pub uninterp spec fn CfgItfmConfig_of(x: u32) -> CfgItfmConfig; /*stub: words*/
impl CfgItfmConfig {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgItfmConfig_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct CfgItfmConfig2(u32);
pub uninterp spec fn CfgItfmConfig2_of(x: u32) -> CfgItfmConfig2; /*stub: words*/
impl CfgItfmConfig2 {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgItfmConfig2_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct AntFlags(u16);
pub uninterp spec fn AntFlags_of(x: u16) -> AntFlags; /*stub: flags*/
impl AntFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == AntFlags_of(x), { unimplemented!() }
}
/// the payloads of NavPvt the parser accepts
pub open spec fn wf_NavPvt(s: Seq<u8>) -> bool { s.len() == 92 }
/// the payloads of NavSolution the parser accepts
pub open spec fn wf_NavSolution(s: Seq<u8>) -> bool { s.len() == 52 }
/// the payloads of CfgTmode3 the parser accepts
pub open spec fn wf_CfgTmode3(s: Seq<u8>) -> bool { s.len() == 40 }
/// the payloads of NavTimeLs the parser accepts
pub open spec fn wf_NavTimeLs(s: Seq<u8>) -> bool { s.len() == 24 }
/// the payloads of CfgTp5 the parser accepts
pub open spec fn wf_CfgTp5(s: Seq<u8>) -> bool { s.len() == 32 && CfgTp5TimePulseMode_valid(s[0]) }
/// the payloads of TimSvin the parser accepts
pub open spec fn wf_TimSvin(s: Seq<u8>) -> bool { s.len() == 28 }
/// the payloads of EsfIns the parser accepts
pub open spec fn wf_EsfIns(s: Seq<u8>) -> bool { s.len() == 36 }
/// the payloads of NavDop the parser accepts
pub open spec fn wf_NavDop(s: Seq<u8>) -> bool { s.len() == 18 }
/// the payloads of NavPosLlh the parser accepts
pub open spec fn wf_NavPosLlh(s: Seq<u8>) -> bool { s.len() == 28 }
/// the payloads of MonGnss the parser accepts
pub open spec fn wf_MonGnss(s: Seq<u8>) -> bool { s.len() == 8 }
/// the payloads of CfgItfm the parser accepts
pub open spec fn wf_CfgItfm(s: Seq<u8>) -> bool { s.len() == 8 }
/// the payloads of AckAck the parser accepts
pub open spec fn wf_AckAck(s: Seq<u8>) -> bool { s.len() == 2 }
/// the payloads of CfgAnt the parser accepts
pub open spec fn wf_CfgAnt(s: Seq<u8>) -> bool { s.len() == 4 }
%source error
%take enum ParserError
%source exp
%take trait UbxPacketMeta
%take struct NavPvtRef
%take impl NavPvtRef
%fn NavPvtRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavPvtRef::itow | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavPvtRef::year | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le2(self.0@, 4),
%fn NavPvtRef::month | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[6] as int,
%fn NavPvtRef::day | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[7] as int,
%fn NavPvtRef::hour | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[8] as int,
%fn NavPvtRef::min | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[9] as int,
%fn NavPvtRef::sec | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[10] as int,
%fn NavPvtRef::valid | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[11] as int,
%fn NavPvtRef::time_accuracy | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 12),
%fn NavPvtRef::nanosecond | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavPvtRef::fix_type_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[20] as int,
%fn NavPvtRef::fix_type | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == GpsFix_of((self.0@[20] as int) as u8),
%fn NavPvtRef::flags_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[21] as int,
%fn NavPvtRef::flags | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == NavPvtFlags_of((self.0@[21] as int) as u8),
%fn NavPvtRef::flags2_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[22] as int,
%fn NavPvtRef::flags2 | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == NavPvtFlags2_of((self.0@[22] as int) as u8),
%fn NavPvtRef::num_satellites | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == self.0@[23] as int,
%fn NavPvtRef::lon_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn NavPvtRef::lon_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-7f64),
%fn NavPvtRef::lat_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn NavPvtRef::lat_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-7f64),
%fn NavPvtRef::height_meters_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 32), 0x80000000),
%fn NavPvtRef::height_meters | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 32), 0x80000000)), 1e-3f64),
%fn NavPvtRef::height_msl_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 36), 0x80000000),
%fn NavPvtRef::height_msl | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 36), 0x80000000)), 1e-3f64),
%fn NavPvtRef::horiz_accuracy | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 40),
%fn NavPvtRef::vert_accuracy | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 44),
%fn NavPvtRef::vel_north_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 48), 0x80000000),
%fn NavPvtRef::vel_north | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 48), 0x80000000)), 1e-3f64),
%fn NavPvtRef::vel_east_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 52), 0x80000000),
%fn NavPvtRef::vel_east | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 52), 0x80000000)), 1e-3f64),
%fn NavPvtRef::vel_down_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 56), 0x80000000),
%fn NavPvtRef::vel_down | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 56), 0x80000000)), 1e-3f64),
%fn NavPvtRef::ground_speed_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 60),
%fn NavPvtRef::ground_speed | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 60)), 1e-3f64),
%fn NavPvtRef::heading_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 64), 0x80000000),
%fn NavPvtRef::heading_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 64), 0x80000000)), 1e-5f64),
%fn NavPvtRef::speed_accuracy_estimate_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 68),
%fn NavPvtRef::speed_accuracy_estimate | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 68)), 1e-3f64),
%fn NavPvtRef::heading_accuracy_estimate_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le4(self.0@, 72),
%fn NavPvtRef::heading_accuracy_estimate | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 72)), 1e-5f64),
%fn NavPvtRef::pdop | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le2(self.0@, 76),
%fn NavPvtRef::reserved1 | ret=r
        requires wf_NavPvt(self.0@),
        ensures r@.len() == 6 && r@[0] == self.0@[78] && r@[1] == self.0@[79] && r@[2] == self.0@[80] && r@[3] == self.0@[81] && r@[4] == self.0@[82] && r@[5] == self.0@[83],
%fn NavPvtRef::heading_of_vehicle_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le4(self.0@, 84), 0x80000000),
%fn NavPvtRef::heading_of_vehicle_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 84), 0x80000000)), 1e-5f64),
%fn NavPvtRef::magnetic_declination_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == sg(le2(self.0@, 88), 0x8000),
%fn NavPvtRef::magnetic_declination_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 88), 0x8000)), 1e-2f64),
%fn NavPvtRef::magnetic_declination_accuracy_degrees_raw | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == le2(self.0@, 90),
%fn NavPvtRef::magnetic_declination_accuracy_degrees | ret=r
        requires wf_NavPvt(self.0@),
        ensures r == mul64(to64(le2(self.0@, 90)), 1e-2f64),
%take impl Debug for NavPvtRef
%header impl Debug for NavPvtRef
impl<'a> NavPvtRef<'a>
%fn <Debug for NavPvtRef>::fmt | rename=debug_fmt
        requires wf_NavPvt(self.0@),
%fn NavPvtRef::validate | ret=r
        ensures r is Ok <==> wf_NavPvt(payload@),
%take struct NavSolutionRef
%take impl NavSolutionRef
%fn NavSolutionRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavSolutionRef::itow | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavSolutionRef::ftow_ns | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn NavSolutionRef::week | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le2(self.0@, 8), 0x8000),
%fn NavSolutionRef::fix_type_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == self.0@[10] as int,
%fn NavSolutionRef::fix_type | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == GpsFix_of((self.0@[10] as int) as u8),
%fn NavSolutionRef::flags_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == self.0@[11] as int,
%fn NavSolutionRef::flags | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == NavStatusFlags_of((self.0@[11] as int) as u8),
%fn NavSolutionRef::ecef_x_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavSolutionRef::ecef_x | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::ecef_y_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavSolutionRef::ecef_y | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::ecef_z_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn NavSolutionRef::ecef_z | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::position_accuracy_estimate_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == le4(self.0@, 24),
%fn NavSolutionRef::position_accuracy_estimate | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-2f64),
%fn NavSolutionRef::ecef_vx_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn NavSolutionRef::ecef_vx | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::ecef_vy_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 32), 0x80000000),
%fn NavSolutionRef::ecef_vy | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 32), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::ecef_vz_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == sg(le4(self.0@, 36), 0x80000000),
%fn NavSolutionRef::ecef_vz | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 36), 0x80000000)), 1e-2f64),
%fn NavSolutionRef::speed_accuracy_estimate_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == le4(self.0@, 40),
%fn NavSolutionRef::speed_accuracy_estimate | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul64(to64(le4(self.0@, 40)), 1e-2f64),
%fn NavSolutionRef::pdop_raw | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == le2(self.0@, 44),
%fn NavSolutionRef::pdop | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == mul32(to32(le2(self.0@, 44)), 1e-2f32),
%fn NavSolutionRef::reserved1 | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == self.0@[46] as int,
%fn NavSolutionRef::num_sv | ret=r
        requires wf_NavSolution(self.0@),
        ensures r == self.0@[47] as int,
%fn NavSolutionRef::reserved2 | ret=r
        requires wf_NavSolution(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[48] && r@[1] == self.0@[49] && r@[2] == self.0@[50] && r@[3] == self.0@[51],
%take impl Debug for NavSolutionRef
%header impl Debug for NavSolutionRef
impl<'a> NavSolutionRef<'a>
%fn <Debug for NavSolutionRef>::fmt | rename=debug_fmt
        requires wf_NavSolution(self.0@),
%fn NavSolutionRef::validate | ret=r
        ensures r is Ok <==> wf_NavSolution(payload@),
%take struct CfgTmode3Ref
%take impl CfgTmode3Ref
%fn CfgTmode3Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgTmode3Ref::version | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgTmode3Ref::reserved1 | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgTmode3Ref::rcvr_mode_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == self.0@[2] as int,
%fn CfgTmode3Ref::rcvr_mode | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == CfgTmode3RcvrMode_of((self.0@[2] as int) as u8),
%fn CfgTmode3Ref::flags_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == self.0@[3] as int,
%fn CfgTmode3Ref::flags | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == CfgTmode3Flags_of((self.0@[3] as int) as u8),
%fn CfgTmode3Ref::ecef_x_or_lat_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn CfgTmode3Ref::ecef_x_or_lat | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 1e-2f64),
%fn CfgTmode3Ref::ecef_y_or_lon_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn CfgTmode3Ref::ecef_y_or_lon | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-2f64),
%fn CfgTmode3Ref::ecef_z_or_alt_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn CfgTmode3Ref::ecef_z_or_alt | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-2f64),
%fn CfgTmode3Ref::ecef_x_or_lat_hp_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(self.0@[16] as int, 0x80),
%fn CfgTmode3Ref::ecef_x_or_lat_hp | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul32(to32(sg(self.0@[16] as int, 0x80)), 1.0f32),
%fn CfgTmode3Ref::ecef_y_or_lon_hp_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(self.0@[17] as int, 0x80),
%fn CfgTmode3Ref::ecef_y_or_lon_hp | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul32(to32(sg(self.0@[17] as int, 0x80)), 1.0f32),
%fn CfgTmode3Ref::ecef_z_or_alt_hp_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == sg(self.0@[18] as int, 0x80),
%fn CfgTmode3Ref::ecef_z_or_alt_hp | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul32(to32(sg(self.0@[18] as int, 0x80)), 1.0f32),
%fn CfgTmode3Ref::reserved2 | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == self.0@[19] as int,
%fn CfgTmode3Ref::fixed_pos_acc_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == le4(self.0@, 20),
%fn CfgTmode3Ref::fixed_pos_acc | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-4f64),
%fn CfgTmode3Ref::sv_in_min_duration | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == le4(self.0@, 24),
%fn CfgTmode3Ref::sv_in_accur_limit_raw | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == le4(self.0@, 28),
%fn CfgTmode3Ref::sv_in_accur_limit | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r == mul64(to64(le4(self.0@, 28)), 1e-4f64),
%fn CfgTmode3Ref::reserved3 | ret=r
        requires wf_CfgTmode3(self.0@),
        ensures r@.len() == 8 && r@[0] == self.0@[32] && r@[1] == self.0@[33] && r@[2] == self.0@[34] && r@[3] == self.0@[35] && r@[4] == self.0@[36] && r@[5] == self.0@[37] && r@[6] == self.0@[38] && r@[7] == self.0@[39],
%take impl Debug for CfgTmode3Ref
%header impl Debug for CfgTmode3Ref
impl<'a> CfgTmode3Ref<'a>
%fn <Debug for CfgTmode3Ref>::fmt | rename=debug_fmt
        requires wf_CfgTmode3(self.0@),
%fn CfgTmode3Ref::validate | ret=r
        ensures r is Ok <==> wf_CfgTmode3(payload@),
%take struct NavTimeLsRef
%take impl NavTimeLsRef
%fn NavTimeLsRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavTimeLsRef::itow | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavTimeLsRef::version | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == self.0@[4] as int,
%fn NavTimeLsRef::reserved_1 | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[5] && r@[1] == self.0@[6] && r@[2] == self.0@[7],
%fn NavTimeLsRef::src_of_curr_ls | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == self.0@[8] as int,
%fn NavTimeLsRef::current_ls | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == sg(self.0@[9] as int, 0x80),
%fn NavTimeLsRef::src_of_ls_change | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == self.0@[10] as int,
%fn NavTimeLsRef::ls_change | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == sg(self.0@[11] as int, 0x80),
%fn NavTimeLsRef::time_to_ls_event | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavTimeLsRef::date_of_ls_gps_wn | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == le2(self.0@, 16),
%fn NavTimeLsRef::date_of_ls_gps_dn | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == le2(self.0@, 18),
%fn NavTimeLsRef::reserved_2 | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[20] && r@[1] == self.0@[21] && r@[2] == self.0@[22],
%fn NavTimeLsRef::valid_raw | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == self.0@[23] as int,
%fn NavTimeLsRef::valid | ret=r
        requires wf_NavTimeLs(self.0@),
        ensures r == NavTimeLsFlags_of((self.0@[23] as int) as u8),
%take impl Debug for NavTimeLsRef
%header impl Debug for NavTimeLsRef
impl<'a> NavTimeLsRef<'a>
%fn <Debug for NavTimeLsRef>::fmt | rename=debug_fmt
        requires wf_NavTimeLs(self.0@),
%fn NavTimeLsRef::validate | ret=r
        ensures r is Ok <==> wf_NavTimeLs(payload@),
%take struct CfgTp5Ref
%take impl CfgTp5Ref
%fn CfgTp5Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgTp5Ref::tp_idx_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgTp5Ref::tp_idx | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == CfgTp5TimePulseMode_of((self.0@[0] as int) as u8),
%fn CfgTp5Ref::version | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgTp5Ref::reserved1 | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[2] && r@[1] == self.0@[3],
%fn CfgTp5Ref::ant_cable_delay_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == sg(le2(self.0@, 4), 0x8000),
%fn CfgTp5Ref::ant_cable_delay | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul32(to32(sg(le2(self.0@, 4), 0x8000)), 1.0f32),
%fn CfgTp5Ref::rf_group_delay_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == sg(le2(self.0@, 6), 0x8000),
%fn CfgTp5Ref::rf_group_delay | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul32(to32(sg(le2(self.0@, 6), 0x8000)), 1.0f32),
%fn CfgTp5Ref::freq_period_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == le4(self.0@, 8),
%fn CfgTp5Ref::freq_period | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul64(to64(le4(self.0@, 8)), 1.0f64),
%fn CfgTp5Ref::freq_period_lock_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == le4(self.0@, 12),
%fn CfgTp5Ref::freq_period_lock | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul64(to64(le4(self.0@, 12)), 1.0f64),
%fn CfgTp5Ref::pulse_len_ratio_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == le4(self.0@, 16),
%fn CfgTp5Ref::pulse_len_ratio | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul64(to64(le4(self.0@, 16)), 1.0f64),
%fn CfgTp5Ref::pulse_len_ratio_lock_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == le4(self.0@, 20),
%fn CfgTp5Ref::pulse_len_ratio_lock | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1.0f64),
%fn CfgTp5Ref::user_delay_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn CfgTp5Ref::user_delay | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1.0f64),
%fn CfgTp5Ref::flags_raw | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == le4(self.0@, 28),
%fn CfgTp5Ref::flags | ret=r
        requires wf_CfgTp5(self.0@),
        ensures r == CfgTp5Flags_of((le4(self.0@, 28)) as u32),
%take impl Debug for CfgTp5Ref
%header impl Debug for CfgTp5Ref
impl<'a> CfgTp5Ref<'a>
%fn <Debug for CfgTp5Ref>::fmt | rename=debug_fmt
        requires wf_CfgTp5(self.0@),
%fn CfgTp5Ref::validate | ret=r
        ensures r is Ok <==> wf_CfgTp5(payload@),
%take struct TimSvinRef
%take impl TimSvinRef
%fn TimSvinRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn TimSvinRef::dur | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == le4(self.0@, 0),
%fn TimSvinRef::mean_x | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn TimSvinRef::mean_y | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn TimSvinRef::mean_z | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn TimSvinRef::mean_v | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn TimSvinRef::obs | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == le4(self.0@, 20),
%fn TimSvinRef::valid | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == self.0@[24] as int,
%fn TimSvinRef::active | ret=r
        requires wf_TimSvin(self.0@),
        ensures r == self.0@[25] as int,
%fn TimSvinRef::reserved | ret=r
        requires wf_TimSvin(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[26] && r@[1] == self.0@[27],
%take impl Debug for TimSvinRef
%header impl Debug for TimSvinRef
impl<'a> TimSvinRef<'a>
%fn <Debug for TimSvinRef>::fmt | rename=debug_fmt
        requires wf_TimSvin(self.0@),
%fn TimSvinRef::validate | ret=r
        ensures r is Ok <==> wf_TimSvin(payload@),
%take struct EsfInsRef
%take impl EsfInsRef
%fn EsfInsRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn EsfInsRef::bit_field_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == le4(self.0@, 0),
%fn EsfInsRef::bit_field | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == EsfInsBitFlags_of((le4(self.0@, 0)) as u32),
%fn EsfInsRef::reserved | ret=r
        requires wf_EsfIns(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[4] && r@[1] == self.0@[5] && r@[2] == self.0@[6] && r@[3] == self.0@[7],
%fn EsfInsRef::itow | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == le4(self.0@, 8),
%fn EsfInsRef::x_angular_rate_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn EsfInsRef::x_angular_rate | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-3f64),
%fn EsfInsRef::y_angular_rate_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn EsfInsRef::y_angular_rate | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-3f64),
%fn EsfInsRef::z_angular_rate_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn EsfInsRef::z_angular_rate | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-3f64),
%fn EsfInsRef::x_acceleration_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn EsfInsRef::x_acceleration | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-2f64),
%fn EsfInsRef::y_acceleration_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn EsfInsRef::y_acceleration | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-2f64),
%fn EsfInsRef::z_acceleration_raw | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == sg(le4(self.0@, 32), 0x80000000),
%fn EsfInsRef::z_acceleration | ret=r
        requires wf_EsfIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 32), 0x80000000)), 1e-2f64),
%take impl Debug for EsfInsRef
%header impl Debug for EsfInsRef
impl<'a> EsfInsRef<'a>
%fn <Debug for EsfInsRef>::fmt | rename=debug_fmt
        requires wf_EsfIns(self.0@),
%fn EsfInsRef::validate | ret=r
        ensures r is Ok <==> wf_EsfIns(payload@),
%take struct NavDopRef
%take impl NavDopRef
%fn NavDopRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavDopRef::itow | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavDopRef::geometric_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 4),
%fn NavDopRef::geometric_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 4)), 1e-2f32),
%fn NavDopRef::position_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 6),
%fn NavDopRef::position_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 6)), 1e-2f32),
%fn NavDopRef::time_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 8),
%fn NavDopRef::time_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 8)), 1e-2f32),
%fn NavDopRef::vertical_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 10),
%fn NavDopRef::vertical_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 10)), 1e-2f32),
%fn NavDopRef::horizontal_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 12),
%fn NavDopRef::horizontal_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 12)), 1e-2f32),
%fn NavDopRef::northing_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 14),
%fn NavDopRef::northing_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 14)), 1e-2f32),
%fn NavDopRef::easting_dop_raw | ret=r
        requires wf_NavDop(self.0@),
        ensures r == le2(self.0@, 16),
%fn NavDopRef::easting_dop | ret=r
        requires wf_NavDop(self.0@),
        ensures r == mul32(to32(le2(self.0@, 16)), 1e-2f32),
%take impl Debug for NavDopRef
%header impl Debug for NavDopRef
impl<'a> NavDopRef<'a>
%fn <Debug for NavDopRef>::fmt | rename=debug_fmt
        requires wf_NavDop(self.0@),
%fn NavDopRef::validate | ret=r
        ensures r is Ok <==> wf_NavDop(payload@),
%take struct NavPosLlhRef
%take impl NavPosLlhRef
%fn NavPosLlhRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavPosLlhRef::itow | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavPosLlhRef::lon_degrees_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn NavPosLlhRef::lon_degrees | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 1e-7f64),
%fn NavPosLlhRef::lat_degrees_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavPosLlhRef::lat_degrees | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-7f64),
%fn NavPosLlhRef::height_meters_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavPosLlhRef::height_meters | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-3f64),
%fn NavPosLlhRef::height_msl_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavPosLlhRef::height_msl | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-3f64),
%fn NavPosLlhRef::h_ack_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == le4(self.0@, 20),
%fn NavPosLlhRef::h_ack | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-3f64),
%fn NavPosLlhRef::v_acc_raw | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == le4(self.0@, 24),
%fn NavPosLlhRef::v_acc | ret=r
        requires wf_NavPosLlh(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-3f64),
%take impl Debug for NavPosLlhRef
%header impl Debug for NavPosLlhRef
impl<'a> NavPosLlhRef<'a>
%fn <Debug for NavPosLlhRef>::fmt | rename=debug_fmt
        requires wf_NavPosLlh(self.0@),
%fn NavPosLlhRef::validate | ret=r
        ensures r is Ok <==> wf_NavPosLlh(payload@),
%take struct MonGnssRef
%take impl MonGnssRef
%fn MonGnssRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MonGnssRef::version | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == self.0@[0] as int,
%fn MonGnssRef::supported_raw | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == self.0@[1] as int,
%fn MonGnssRef::supported | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == MonGnssConstellMask_of((self.0@[1] as int) as u8),
%fn MonGnssRef::default_raw | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == self.0@[2] as int,
%fn MonGnssRef::default | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == MonGnssConstellMask_of((self.0@[2] as int) as u8),
%fn MonGnssRef::enabled_raw | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == self.0@[3] as int,
%fn MonGnssRef::enabled | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == MonGnssConstellMask_of((self.0@[3] as int) as u8),
%fn MonGnssRef::simultaneous | ret=r
        requires wf_MonGnss(self.0@),
        ensures r == self.0@[4] as int,
%fn MonGnssRef::reserved1 | ret=r
        requires wf_MonGnss(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[5] && r@[1] == self.0@[6] && r@[2] == self.0@[7],
%take impl Debug for MonGnssRef
%header impl Debug for MonGnssRef
impl<'a> MonGnssRef<'a>
%fn <Debug for MonGnssRef>::fmt | rename=debug_fmt
        requires wf_MonGnss(self.0@),
%fn MonGnssRef::validate | ret=r
        ensures r is Ok <==> wf_MonGnss(payload@),
%take struct CfgItfmRef
%take impl CfgItfmRef
%fn CfgItfmRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgItfmRef::config_raw | ret=r
        requires wf_CfgItfm(self.0@),
        ensures r == le4(self.0@, 0),
%fn CfgItfmRef::config | ret=r
        requires wf_CfgItfm(self.0@),
        ensures r == CfgItfmConfig_of((le4(self.0@, 0)) as u32),
%fn CfgItfmRef::config2_raw | ret=r
        requires wf_CfgItfm(self.0@),
        ensures r == le4(self.0@, 4),
%fn CfgItfmRef::config2 | ret=r
        requires wf_CfgItfm(self.0@),
        ensures r == CfgItfmConfig2_of((le4(self.0@, 4)) as u32),
%take impl Debug for CfgItfmRef
%header impl Debug for CfgItfmRef
impl<'a> CfgItfmRef<'a>
%fn <Debug for CfgItfmRef>::fmt | rename=debug_fmt
        requires wf_CfgItfm(self.0@),
%fn CfgItfmRef::validate | ret=r
        ensures r is Ok <==> wf_CfgItfm(payload@),
%take struct AckAckRef
%take impl AckAckRef
%fn AckAckRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn AckAckRef::class | ret=r
        requires wf_AckAck(self.0@),
        ensures r == self.0@[0] as int,
%fn AckAckRef::msg_id | ret=r
        requires wf_AckAck(self.0@),
        ensures r == self.0@[1] as int,
%take impl Debug for AckAckRef
%header impl Debug for AckAckRef
impl<'a> AckAckRef<'a>
%fn <Debug for AckAckRef>::fmt | rename=debug_fmt
        requires wf_AckAck(self.0@),
%fn AckAckRef::validate | ret=r
        ensures r is Ok <==> wf_AckAck(payload@),
%fn AckAckRef::is_ack_for | ret=r
        requires wf_AckAck(self.0@),
        ensures r == (self.0@[0] == T::CLASS && self.0@[1] == T::ID),
%take struct CfgAntRef
%take impl CfgAntRef
%fn CfgAntRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgAntRef::flags_raw | ret=r
        requires wf_CfgAnt(self.0@),
        ensures r == le2(self.0@, 0),
%fn CfgAntRef::flags | ret=r
        requires wf_CfgAnt(self.0@),
        ensures r == AntFlags_of((le2(self.0@, 0)) as u16),
%fn CfgAntRef::pins | ret=r
        requires wf_CfgAnt(self.0@),
        ensures r == le2(self.0@, 2),
%take impl Debug for CfgAntRef
%header impl Debug for CfgAntRef
impl<'a> CfgAntRef<'a>
%fn <Debug for CfgAntRef>::fmt | rename=debug_fmt
        requires wf_CfgAnt(self.0@),
%fn CfgAntRef::validate | ret=r
        ensures r is Ok <==> wf_CfgAnt(payload@),
