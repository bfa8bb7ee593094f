%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
pub open spec fn CfgTmode2TimeXferModes_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 }
pub open spec fn SpiPortId_valid(x: u8) -> bool { x == 4 }
#[verifier::external_body] /*stub: flags*/ pub struct HnrPvtValidFlags(u8);
pub uninterp spec fn HnrPvtValidFlags_of(x: u8) -> HnrPvtValidFlags; /*stub: flags*/
impl HnrPvtValidFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == HnrPvtValidFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct GpsFix(u8);
pub uninterp spec fn GpsFix_of(x: u8) -> GpsFix; /*stub: enums*/
impl GpsFix {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == GpsFix_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct HnrPvtFlags(u8);
pub uninterp spec fn HnrPvtFlags_of(x: u8) -> HnrPvtFlags; /*stub: flags*/
impl HnrPvtFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == HnrPvtFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgNavX5Params1(u16);
pub uninterp spec fn CfgNavX5Params1_of(x: u16) -> CfgNavX5Params1; /*stub: flags*/
impl CfgNavX5Params1 {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgNavX5Params1_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgNavX5Params2(u32);
pub uninterp spec fn CfgNavX5Params2_of(x: u32) -> CfgNavX5Params2; /*stub: flags*/
impl CfgNavX5Params2 {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgNavX5Params2_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct AntennaStatus(u8);
pub uninterp spec fn AntennaStatus_of(x: u8) -> AntennaStatus; /*stub: enums*/
impl AntennaStatus {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == AntennaStatus_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct AntennaPower(u8);
pub uninterp spec fn AntennaPower_of(x: u8) -> AntennaPower; /*stub: enums*/
impl AntennaPower {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == AntennaPower_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavHpPosEcefFlags(u8);
pub uninterp spec fn NavHpPosEcefFlags_of(x: u8) -> NavHpPosEcefFlags; /*stub: flags*/
impl NavHpPosEcefFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavHpPosEcefFlags_of(x), { unimplemented!() }
}
pub struct TimTm2Flags(pub u8);
pub open spec fn TimTm2Flags_of(x: u8) -> TimTm2Flags { TimTm2Flags(x) }
#[verifier::external_body] /*stub: enums*/ pub struct CfgTmode2TimeXferModes(u8);
pub uninterp spec fn CfgTmode2TimeXferModes_of(x: u8) -> CfgTmode2TimeXferModes; /*stub: enums*/
impl CfgTmode2TimeXferModes {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgTmode2TimeXferModes_valid(x), ensures r == CfgTmode2TimeXferModes_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgTmode2TimeXferModes_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode2Flags(u16);
pub uninterp spec fn CfgTmode2Flags_of(x: u16) -> CfgTmode2Flags; /*stub: flags*/
impl CfgTmode2Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgTmode2Flags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct SpiPortId(u8);
pub uninterp spec fn SpiPortId_of(x: u8) -> SpiPortId; /*stub: enums*/
impl SpiPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires SpiPortId_valid(x), ensures r == SpiPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == SpiPortId_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
pub struct TimTpFlags(pub u8);
pub open spec fn TimTpFlags_of(x: u8) -> TimTpFlags { TimTpFlags(x) }
pub struct TimTpRefInfo(pub u8);
pub open spec fn TimTpRefInfo_of(x: u8) -> TimTpRefInfo { TimTpRefInfo(x) }
/// the payloads of HnrPvt the parser accepts
pub open spec fn wf_HnrPvt(s: Seq<u8>) -> bool { s.len() == 72 }
/// the payloads of CfgNavX5 the parser accepts
pub open spec fn wf_CfgNavX5(s: Seq<u8>) -> bool { s.len() == 40 }
/// the payloads of MonHw the parser accepts
pub open spec fn wf_MonHw(s: Seq<u8>) -> bool { s.len() == 60 }
/// the payloads of NavHpPosEcef the parser accepts
pub open spec fn wf_NavHpPosEcef(s: Seq<u8>) -> bool { s.len() == 28 }
/// the payloads of TimTm2 the parser accepts
pub open spec fn wf_TimTm2(s: Seq<u8>) -> bool { s.len() == 28 }
/// the payloads of CfgTmode2 the parser accepts
pub open spec fn wf_CfgTmode2(s: Seq<u8>) -> bool { s.len() == 28 && CfgTmode2TimeXferModes_valid(s[0]) }
/// the payloads of CfgPrtSpi the parser accepts
pub open spec fn wf_CfgPrtSpi(s: Seq<u8>) -> bool { s.len() == 20 && SpiPortId_valid(s[0]) }
/// the payloads of NavAtt the parser accepts
pub open spec fn wf_NavAtt(s: Seq<u8>) -> bool { s.len() == 32 }
/// the payloads of NavOdo the parser accepts
pub open spec fn wf_NavOdo(s: Seq<u8>) -> bool { s.len() == 20 }
/// the payloads of TimTp the parser accepts
pub open spec fn wf_TimTp(s: Seq<u8>) -> bool { s.len() == 16 }
/// the payloads of SecUniqId the parser accepts
pub open spec fn wf_SecUniqId(s: Seq<u8>) -> bool { s.len() == 9 }
/// the payloads of AckNak the parser accepts
pub open spec fn wf_AckNak(s: Seq<u8>) -> bool { s.len() == 2 }
%source error
%take enum ParserError
%source exp
%take trait UbxPacketMeta
%take struct HnrPvtRef
%take impl HnrPvtRef
%fn HnrPvtRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn HnrPvtRef::itow | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le4(self.0@, 0),
%fn HnrPvtRef::year | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le2(self.0@, 4),
%fn HnrPvtRef::month | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[6] as int,
%fn HnrPvtRef::day | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[7] as int,
%fn HnrPvtRef::hour | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[8] as int,
%fn HnrPvtRef::min | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[9] as int,
%fn HnrPvtRef::sec | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[10] as int,
%fn HnrPvtRef::valid_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[11] as int,
%fn HnrPvtRef::valid | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == HnrPvtValidFlags_of((self.0@[11] as int) as u8),
%fn HnrPvtRef::nano | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn HnrPvtRef::gps_fix_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[16] as int,
%fn HnrPvtRef::gps_fix | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == GpsFix_of((self.0@[16] as int) as u8),
%fn HnrPvtRef::flags_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == self.0@[17] as int,
%fn HnrPvtRef::flags | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == HnrPvtFlags_of((self.0@[17] as int) as u8),
%fn HnrPvtRef::reserved1 | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[18] && r@[1] == self.0@[19],
%fn HnrPvtRef::longitude_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn HnrPvtRef::longitude | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-7f64),
%fn HnrPvtRef::latitude_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn HnrPvtRef::latitude | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-7f64),
%fn HnrPvtRef::height_above_ellipsoid_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn HnrPvtRef::height_above_ellipsoid | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-3f64),
%fn HnrPvtRef::height_msl_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 32), 0x80000000),
%fn HnrPvtRef::height_msl | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 32), 0x80000000)), 1e-3f64),
%fn HnrPvtRef::ground_speed_2d_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 36), 0x80000000),
%fn HnrPvtRef::ground_speed_2d | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 36), 0x80000000)), 1e-3f64),
%fn HnrPvtRef::speed_3d_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 40), 0x80000000),
%fn HnrPvtRef::speed_3d | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 40), 0x80000000)), 1e-3f64),
%fn HnrPvtRef::heading_motion_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 44), 0x80000000),
%fn HnrPvtRef::heading_motion | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 44), 0x80000000)), 1e-5f64),
%fn HnrPvtRef::heading_vehicle_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == sg(le4(self.0@, 48), 0x80000000),
%fn HnrPvtRef::heading_vehicle | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 48), 0x80000000)), 1e-5f64),
%fn HnrPvtRef::h_acc | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le4(self.0@, 52),
%fn HnrPvtRef::v_acc | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le4(self.0@, 56),
%fn HnrPvtRef::s_acc | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le4(self.0@, 60),
%fn HnrPvtRef::heading_accurracy_raw | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == le4(self.0@, 64),
%fn HnrPvtRef::heading_accurracy | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 64)), 1e-5f64),
%fn HnrPvtRef::reserved2 | ret=r
        requires wf_HnrPvt(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[68] && r@[1] == self.0@[69] && r@[2] == self.0@[70] && r@[3] == self.0@[71],
%take impl Debug for HnrPvtRef
%header impl Debug for HnrPvtRef
impl<'a> HnrPvtRef<'a>
%fn <Debug for HnrPvtRef>::fmt | rename=debug_fmt
        requires wf_HnrPvt(self.0@),
%fn HnrPvtRef::validate | ret=r
        ensures r is Ok <==> wf_HnrPvt(payload@),
%take struct CfgNavX5Ref
%take impl CfgNavX5Ref
%fn CfgNavX5Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgNavX5Ref::version | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == le2(self.0@, 0),
%fn CfgNavX5Ref::mask1_raw | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == le2(self.0@, 2),
%fn CfgNavX5Ref::mask1 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == CfgNavX5Params1_of((le2(self.0@, 2)) as u16),
%fn CfgNavX5Ref::mask2_raw | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == le4(self.0@, 4),
%fn CfgNavX5Ref::mask2 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == CfgNavX5Params2_of((le4(self.0@, 4)) as u32),
%fn CfgNavX5Ref::reserved1 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[8] && r@[1] == self.0@[9],
%fn CfgNavX5Ref::min_svs | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[10] as int,
%fn CfgNavX5Ref::max_svs | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[11] as int,
%fn CfgNavX5Ref::min_cno_dbhz | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[12] as int,
%fn CfgNavX5Ref::reserved2 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[13] as int,
%fn CfgNavX5Ref::ini_fix_3d | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[14] as int,
%fn CfgNavX5Ref::reserved3 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[15] && r@[1] == self.0@[16],
%fn CfgNavX5Ref::ack_aiding | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[17] as int,
%fn CfgNavX5Ref::wkn_rollover | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == le2(self.0@, 18),
%fn CfgNavX5Ref::sig_atten_comp_mode | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[20] as int,
%fn CfgNavX5Ref::reserved4 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[21] as int,
%fn CfgNavX5Ref::reserved5 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[22] && r@[1] == self.0@[23],
%fn CfgNavX5Ref::reserved6 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[24] && r@[1] == self.0@[25],
%fn CfgNavX5Ref::use_ppp | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[26] as int,
%fn CfgNavX5Ref::aop_cfg | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[27] as int,
%fn CfgNavX5Ref::reserved7 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[28] && r@[1] == self.0@[29],
%fn CfgNavX5Ref::aop_orb_max_err | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == le2(self.0@, 30),
%fn CfgNavX5Ref::reserved8 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[32] && r@[1] == self.0@[33] && r@[2] == self.0@[34] && r@[3] == self.0@[35],
%fn CfgNavX5Ref::reserved9 | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[36] && r@[1] == self.0@[37] && r@[2] == self.0@[38],
%fn CfgNavX5Ref::use_adr | ret=r
        requires wf_CfgNavX5(self.0@),
        ensures r == self.0@[39] as int,
%take impl Debug for CfgNavX5Ref
%header impl Debug for CfgNavX5Ref
impl<'a> CfgNavX5Ref<'a>
%fn <Debug for CfgNavX5Ref>::fmt | rename=debug_fmt
        requires wf_CfgNavX5(self.0@),
%fn CfgNavX5Ref::validate | ret=r
        ensures r is Ok <==> wf_CfgNavX5(payload@),
%take struct MonHwRef
%take impl MonHwRef
%fn MonHwRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MonHwRef::pin_sel | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 0),
%fn MonHwRef::pin_bank | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 4),
%fn MonHwRef::pin_dir | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 8),
%fn MonHwRef::pin_val | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 12),
%fn MonHwRef::noise_per_ms | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le2(self.0@, 16),
%fn MonHwRef::agc_cnt | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le2(self.0@, 18),
%fn MonHwRef::a_status_raw | ret=r
        requires wf_MonHw(self.0@),
        ensures r == self.0@[20] as int,
%fn MonHwRef::a_status | ret=r
        requires wf_MonHw(self.0@),
        ensures r == AntennaStatus_of((self.0@[20] as int) as u8),
%fn MonHwRef::a_power_raw | ret=r
        requires wf_MonHw(self.0@),
        ensures r == self.0@[21] as int,
%fn MonHwRef::a_power | ret=r
        requires wf_MonHw(self.0@),
        ensures r == AntennaPower_of((self.0@[21] as int) as u8),
%fn MonHwRef::flags | ret=r
        requires wf_MonHw(self.0@),
        ensures r == self.0@[22] as int,
%fn MonHwRef::reserved1 | ret=r
        requires wf_MonHw(self.0@),
        ensures r == self.0@[23] as int,
%fn MonHwRef::used_mask | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 24),
%fn MonHwRef::vp | ret=r
        requires wf_MonHw(self.0@),
        ensures r@.len() == 17 && r@[0] == self.0@[28] && r@[1] == self.0@[29] && r@[2] == self.0@[30] && r@[3] == self.0@[31] && r@[4] == self.0@[32] && r@[5] == self.0@[33] && r@[6] == self.0@[34] && r@[7] == self.0@[35] && r@[8] == self.0@[36] && r@[9] == self.0@[37] && r@[10] == self.0@[38] && r@[11] == self.0@[39] && r@[12] == self.0@[40] && r@[13] == self.0@[41] && r@[14] == self.0@[42] && r@[15] == self.0@[43] && r@[16] == self.0@[44],
%fn MonHwRef::jam_ind | ret=r
        requires wf_MonHw(self.0@),
        ensures r == self.0@[45] as int,
%fn MonHwRef::reserved2 | ret=r
        requires wf_MonHw(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[46] && r@[1] == self.0@[47],
%fn MonHwRef::pin_irq | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 48),
%fn MonHwRef::pull_h | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 52),
%fn MonHwRef::pull_l | ret=r
        requires wf_MonHw(self.0@),
        ensures r == le4(self.0@, 56),
%take impl Debug for MonHwRef
%header impl Debug for MonHwRef
impl<'a> MonHwRef<'a>
%fn <Debug for MonHwRef>::fmt | rename=debug_fmt
        requires wf_MonHw(self.0@),
%fn MonHwRef::validate | ret=r
        ensures r is Ok <==> wf_MonHw(payload@),
%take struct NavHpPosEcefRef
%take impl NavHpPosEcefRef
%fn NavHpPosEcefRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavHpPosEcefRef::version | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == self.0@[0] as int,
%fn NavHpPosEcefRef::reserved1 | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn NavHpPosEcefRef::itow | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == le4(self.0@, 4),
%fn NavHpPosEcefRef::ecef_x_cm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavHpPosEcefRef::ecef_x_cm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == to64(sg(le4(self.0@, 8), 0x80000000)),
%fn NavHpPosEcefRef::ecef_y_cm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavHpPosEcefRef::ecef_y_cm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == to64(sg(le4(self.0@, 12), 0x80000000)),
%fn NavHpPosEcefRef::ecef_z_cm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavHpPosEcefRef::ecef_z_cm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == to64(sg(le4(self.0@, 16), 0x80000000)),
%fn NavHpPosEcefRef::ecef_x_hp_mm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(self.0@[20] as int, 0x80),
%fn NavHpPosEcefRef::ecef_x_hp_mm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == mul64(to64(sg(self.0@[20] as int, 0x80)), 1e-1f64),
%fn NavHpPosEcefRef::ecef_y_hp_mm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(self.0@[21] as int, 0x80),
%fn NavHpPosEcefRef::ecef_y_hp_mm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == mul64(to64(sg(self.0@[21] as int, 0x80)), 1e-1f64),
%fn NavHpPosEcefRef::ecef_z_hp_mm_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == sg(self.0@[22] as int, 0x80),
%fn NavHpPosEcefRef::ecef_z_hp_mm | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == mul64(to64(sg(self.0@[22] as int, 0x80)), 1e-1f64),
%fn NavHpPosEcefRef::flags_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == self.0@[23] as int,
%fn NavHpPosEcefRef::flags | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == NavHpPosEcefFlags_of((self.0@[23] as int) as u8),
%fn NavHpPosEcefRef::p_acc_raw | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == le4(self.0@, 24),
%fn NavHpPosEcefRef::p_acc | ret=r
        requires wf_NavHpPosEcef(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-1f64),
%take impl Debug for NavHpPosEcefRef
%header impl Debug for NavHpPosEcefRef
impl<'a> NavHpPosEcefRef<'a>
%fn <Debug for NavHpPosEcefRef>::fmt | rename=debug_fmt
        requires wf_NavHpPosEcef(self.0@),
%fn NavHpPosEcefRef::validate | ret=r
        ensures r is Ok <==> wf_NavHpPosEcef(payload@),
%take struct TimTm2Ref
%take impl TimTm2Ref
%fn TimTm2Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn TimTm2Ref::ch | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == self.0@[0] as int,
%fn TimTm2Ref::flags_raw | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == self.0@[1] as int,
%fn TimTm2Ref::flags | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == TimTm2Flags_of((self.0@[1] as int) as u8),
%fn TimTm2Ref::count | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le2(self.0@, 2),
%fn TimTm2Ref::wn_r | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le2(self.0@, 4),
%fn TimTm2Ref::wn_f | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le2(self.0@, 6),
%fn TimTm2Ref::tow_ms_r | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le4(self.0@, 8),
%fn TimTm2Ref::tow_sub_ms_r | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le4(self.0@, 12),
%fn TimTm2Ref::tow_ms_f | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le4(self.0@, 16),
%fn TimTm2Ref::tow_sub_ms_f | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le4(self.0@, 20),
%fn TimTm2Ref::acc_est | ret=r
        requires wf_TimTm2(self.0@),
        ensures r == le4(self.0@, 24),
%take impl Debug for TimTm2Ref
%header impl Debug for TimTm2Ref
impl<'a> TimTm2Ref<'a>
%fn <Debug for TimTm2Ref>::fmt | rename=debug_fmt
        requires wf_TimTm2(self.0@),
%fn TimTm2Ref::validate | ret=r
        ensures r is Ok <==> wf_TimTm2(payload@),
%take struct CfgTmode2Ref
%take impl CfgTmode2Ref
%fn CfgTmode2Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgTmode2Ref::time_transfer_mode_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgTmode2Ref::time_transfer_mode | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == CfgTmode2TimeXferModes_of((self.0@[0] as int) as u8),
%fn CfgTmode2Ref::reserved1 | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgTmode2Ref::flags_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == le2(self.0@, 2),
%fn CfgTmode2Ref::flags | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == CfgTmode2Flags_of((le2(self.0@, 2)) as u16),
%fn CfgTmode2Ref::ecef_x_or_lat_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn CfgTmode2Ref::ecef_x_or_lat | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 1e-2f64),
%fn CfgTmode2Ref::ecef_y_or_lon_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn CfgTmode2Ref::ecef_y_or_lon | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-2f64),
%fn CfgTmode2Ref::ecef_z_or_alt_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn CfgTmode2Ref::ecef_z_or_alt | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-2f64),
%fn CfgTmode2Ref::fixed_pos_acc_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == le4(self.0@, 16),
%fn CfgTmode2Ref::fixed_pos_acc | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == mul64(to64(le4(self.0@, 16)), 1e-3f64),
%fn CfgTmode2Ref::survey_in_min_duration | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == le4(self.0@, 20),
%fn CfgTmode2Ref::survery_in_accur_limit_raw | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == le4(self.0@, 24),
%fn CfgTmode2Ref::survery_in_accur_limit | ret=r
        requires wf_CfgTmode2(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-3f64),
%take impl Debug for CfgTmode2Ref
%header impl Debug for CfgTmode2Ref
impl<'a> CfgTmode2Ref<'a>
%fn <Debug for CfgTmode2Ref>::fmt | rename=debug_fmt
        requires wf_CfgTmode2(self.0@),
%fn CfgTmode2Ref::validate | ret=r
        ensures r is Ok <==> wf_CfgTmode2(payload@),
%take struct CfgPrtSpiRef
%take impl CfgPrtSpiRef
%fn CfgPrtSpiRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgPrtSpiRef::portid_raw | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgPrtSpiRef::portid | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == SpiPortId_of((self.0@[0] as int) as u8),
%fn CfgPrtSpiRef::reserved0 | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgPrtSpiRef::tx_ready | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le2(self.0@, 2),
%fn CfgPrtSpiRef::mode | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le4(self.0@, 4),
%fn CfgPrtSpiRef::reserved3 | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le4(self.0@, 8),
%fn CfgPrtSpiRef::in_proto_mask_raw | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le2(self.0@, 12),
%fn CfgPrtSpiRef::in_proto_mask | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == InProtoMask_of((le2(self.0@, 12)) as u16),
%fn CfgPrtSpiRef::out_proto_mask_raw | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le2(self.0@, 14),
%fn CfgPrtSpiRef::out_proto_mask | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == OutProtoMask_of((le2(self.0@, 14)) as u16),
%fn CfgPrtSpiRef::flags | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le2(self.0@, 16),
%fn CfgPrtSpiRef::reserved5 | ret=r
        requires wf_CfgPrtSpi(self.0@),
        ensures r == le2(self.0@, 18),
%take impl Debug for CfgPrtSpiRef
%header impl Debug for CfgPrtSpiRef
impl<'a> CfgPrtSpiRef<'a>
%fn <Debug for CfgPrtSpiRef>::fmt | rename=debug_fmt
        requires wf_CfgPrtSpi(self.0@),
%fn CfgPrtSpiRef::validate | ret=r
        ensures r is Ok <==> wf_CfgPrtSpi(payload@),
%take struct NavAttRef
%take impl NavAttRef
%fn NavAttRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavAttRef::itow | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavAttRef::version | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == self.0@[4] as int,
%fn NavAttRef::reserved1 | ret=r
        requires wf_NavAtt(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[5] && r@[1] == self.0@[6] && r@[2] == self.0@[7],
%fn NavAttRef::vehicle_roll_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavAttRef::vehicle_roll | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-5f64),
%fn NavAttRef::vehicle_pitch_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavAttRef::vehicle_pitch | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-5f64),
%fn NavAttRef::vehicle_heading_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavAttRef::vehicle_heading | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-5f64),
%fn NavAttRef::vehicle_roll_accuracy_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == le4(self.0@, 20),
%fn NavAttRef::vehicle_roll_accuracy | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-5f64),
%fn NavAttRef::vehicle_pitch_accuracy_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == le4(self.0@, 24),
%fn NavAttRef::vehicle_pitch_accuracy | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-5f64),
%fn NavAttRef::vehicle_heading_accuracy_raw | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == le4(self.0@, 28),
%fn NavAttRef::vehicle_heading_accuracy | ret=r
        requires wf_NavAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 28)), 1e-5f64),
%take impl Debug for NavAttRef
%header impl Debug for NavAttRef
impl<'a> NavAttRef<'a>
%fn <Debug for NavAttRef>::fmt | rename=debug_fmt
        requires wf_NavAtt(self.0@),
%fn NavAttRef::validate | ret=r
        ensures r is Ok <==> wf_NavAtt(payload@),
%take struct NavOdoRef
%take impl NavOdoRef
%fn NavOdoRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavOdoRef::version | ret=r
        requires wf_NavOdo(self.0@),
        ensures r == self.0@[0] as int,
%fn NavOdoRef::reserved | ret=r
        requires wf_NavOdo(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn NavOdoRef::itow | ret=r
        requires wf_NavOdo(self.0@),
        ensures r == le4(self.0@, 4),
%fn NavOdoRef::distance | ret=r
        requires wf_NavOdo(self.0@),
        ensures r == le4(self.0@, 8),
%fn NavOdoRef::total_distance | ret=r
        requires wf_NavOdo(self.0@),
        ensures r == le4(self.0@, 12),
%fn NavOdoRef::distance_std | ret=r
        requires wf_NavOdo(self.0@),
        ensures r == le4(self.0@, 16),
%take impl Debug for NavOdoRef
%header impl Debug for NavOdoRef
impl<'a> NavOdoRef<'a>
%fn <Debug for NavOdoRef>::fmt | rename=debug_fmt
        requires wf_NavOdo(self.0@),
%fn NavOdoRef::validate | ret=r
        ensures r is Ok <==> wf_NavOdo(payload@),
%take struct TimTpRef
%take impl TimTpRef
%fn TimTpRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn TimTpRef::tow_ms | ret=r
        requires wf_TimTp(self.0@),
        ensures r == le4(self.0@, 0),
%fn TimTpRef::tow_sub_ms | ret=r
        requires wf_TimTp(self.0@),
        ensures r == le4(self.0@, 4),
%fn TimTpRef::q_err | ret=r
        requires wf_TimTp(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn TimTpRef::week | ret=r
        requires wf_TimTp(self.0@),
        ensures r == le2(self.0@, 12),
%fn TimTpRef::flags_raw | ret=r
        requires wf_TimTp(self.0@),
        ensures r == self.0@[14] as int,
%fn TimTpRef::flags | ret=r
        requires wf_TimTp(self.0@),
        ensures r == TimTpFlags_of((self.0@[14] as int) as u8),
%fn TimTpRef::ref_info_raw | ret=r
        requires wf_TimTp(self.0@),
        ensures r == self.0@[15] as int,
%fn TimTpRef::ref_info | ret=r
        requires wf_TimTp(self.0@),
        ensures r == TimTpRefInfo_of((self.0@[15] as int) as u8),
%take impl Debug for TimTpRef
%header impl Debug for TimTpRef
impl<'a> TimTpRef<'a>
%fn <Debug for TimTpRef>::fmt | rename=debug_fmt
        requires wf_TimTp(self.0@),
%fn TimTpRef::validate | ret=r
        ensures r is Ok <==> wf_TimTp(payload@),
%take struct SecUniqIdRef
%take impl SecUniqIdRef
%fn SecUniqIdRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn SecUniqIdRef::version | ret=r
        requires wf_SecUniqId(self.0@),
        ensures r == self.0@[0] as int,
%fn SecUniqIdRef::reserved1 | ret=r
        requires wf_SecUniqId(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn SecUniqIdRef::unique_id | ret=r
        requires wf_SecUniqId(self.0@),
        ensures r@.len() == 5 && r@[0] == self.0@[4] && r@[1] == self.0@[5] && r@[2] == self.0@[6] && r@[3] == self.0@[7] && r@[4] == self.0@[8],
%take impl Debug for SecUniqIdRef
%header impl Debug for SecUniqIdRef
impl<'a> SecUniqIdRef<'a>
%fn <Debug for SecUniqIdRef>::fmt | rename=debug_fmt
        requires wf_SecUniqId(self.0@),
%fn SecUniqIdRef::validate | ret=r
        ensures r is Ok <==> wf_SecUniqId(payload@),
%take struct AckNakRef
%take impl AckNakRef
%fn AckNakRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn AckNakRef::class | ret=r
        requires wf_AckNak(self.0@),
        ensures r == self.0@[0] as int,
%fn AckNakRef::msg_id | ret=r
        requires wf_AckNak(self.0@),
        ensures r == self.0@[1] as int,
%take impl Debug for AckNakRef
%header impl Debug for AckNakRef
impl<'a> AckNakRef<'a>
%fn <Debug for AckNakRef>::fmt | rename=debug_fmt
        requires wf_AckNak(self.0@),
%fn AckNakRef::validate | ret=r
        ensures r is Ok <==> wf_AckNak(payload@),
%fn AckNakRef::is_nak_for | ret=r
        requires wf_AckNak(self.0@),
        ensures r == (self.0@[0] == T::CLASS && self.0@[1] == T::ID),
