%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
pub open spec fn OdoProfile_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 || x == 3 || x == 4 }
pub open spec fn I2cPortId_valid(x: u8) -> bool { x == 0 }
#[verifier::external_body] /*stub: flags*/ pub struct OdoCogFilterFlags(u8);
pub uninterp spec fn OdoCogFilterFlags_of(x: u8) -> OdoCogFilterFlags; /*stub: flags*/
impl OdoCogFilterFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == OdoCogFilterFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct OdoProfile(u8);
pub uninterp spec fn OdoProfile_of(x: u8) -> OdoProfile; /*stub: enums*/
impl OdoProfile {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires OdoProfile_valid(x), ensures r == OdoProfile_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == OdoProfile_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct I2cPortId(u8);
pub uninterp spec fn I2cPortId_of(x: u8) -> I2cPortId; /*stub: enums*/
impl I2cPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires I2cPortId_valid(x), ensures r == I2cPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == I2cPortId_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgInfMask(u8);
pub uninterp spec fn CfgInfMask_of(x: u8) -> CfgInfMask; /*stub: flags*/
impl CfgInfMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgInfMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct GpsFix(u8);
pub uninterp spec fn GpsFix_of(x: u8) -> GpsFix; /*stub: enums*/
impl GpsFix {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == GpsFix_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavStatusFlags(u8);
pub uninterp spec fn NavStatusFlags_of(x: u8) -> NavStatusFlags; /*stub: flags*/
impl NavStatusFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavStatusFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct FixStatusInfo(u8);
pub uninterp spec fn FixStatusInfo_of(x: u8) -> FixStatusInfo; /*stub: words*/
impl FixStatusInfo {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u8) -> (r: Self) ensures r == FixStatusInfo_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct NavStatusFlags2(u8);
pub uninterp spec fn NavStatusFlags2_of(x: u8) -> NavStatusFlags2; /*stub: enums*/
impl NavStatusFlags2 {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == NavStatusFlags2_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct MsgAckInfoCode(u8);
pub uninterp spec fn MsgAckInfoCode_of(x: u8) -> MsgAckInfoCode; /*stub: enums*/
impl MsgAckInfoCode {
  #[verifier::external_body] /*stub: enums*/ pub fn from(x: u8) -> (r: Self) ensures r == MsgAckInfoCode_of(x), { unimplemented!() }
}
/// the payloads of MgaGpsEph the parser accepts
pub open spec fn wf_MgaGpsEph(s: Seq<u8>) -> bool { s.len() == 68 }
/// the payloads of MgaGloEph the parser accepts
pub open spec fn wf_MgaGloEph(s: Seq<u8>) -> bool { s.len() == 48 }
/// the payloads of NavHpPosLlh the parser accepts
pub open spec fn wf_NavHpPosLlh(s: Seq<u8>) -> bool { s.len() == 36 }
/// the payloads of CfgOdo the parser accepts
pub open spec fn wf_CfgOdo(s: Seq<u8>) -> bool { s.len() == 20 && OdoProfile_valid(s[5]) }
/// the payloads of NavVelNed the parser accepts
pub open spec fn wf_NavVelNed(s: Seq<u8>) -> bool { s.len() == 36 }
/// the payloads of CfgPrtI2c the parser accepts
pub open spec fn wf_CfgPrtI2c(s: Seq<u8>) -> bool { s.len() == 20 && I2cPortId_valid(s[0]) }
/// the payloads of HnrAtt the parser accepts
pub open spec fn wf_HnrAtt(s: Seq<u8>) -> bool { s.len() == 32 }
/// the payloads of CfgInf the parser accepts
pub open spec fn wf_CfgInf(s: Seq<u8>) -> bool { s.len() == 10 }
/// the payloads of NavStatus the parser accepts
pub open spec fn wf_NavStatus(s: Seq<u8>) -> bool { s.len() == 16 }
/// the payloads of MgaAck the parser accepts
pub open spec fn wf_MgaAck(s: Seq<u8>) -> bool { s.len() == 8 }
/// the payloads of NavClock the parser accepts
pub open spec fn wf_NavClock(s: Seq<u8>) -> bool { s.len() == 20 }
/// the payloads of NavEoe the parser accepts
pub open spec fn wf_NavEoe(s: Seq<u8>) -> bool { s.len() == 4 }
%source error
%take enum ParserError
%source exp
%take struct MgaGpsEphRef
%take impl MgaGpsEphRef
%fn MgaGpsEphRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MgaGpsEphRef::msg_type | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[0] as int,
%fn MgaGpsEphRef::version | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[1] as int,
%fn MgaGpsEphRef::sv_id | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[2] as int,
%fn MgaGpsEphRef::reserved1 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[3] as int,
%fn MgaGpsEphRef::fit_interval | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[4] as int,
%fn MgaGpsEphRef::ura_index | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[5] as int,
%fn MgaGpsEphRef::sv_health | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[6] as int,
%fn MgaGpsEphRef::tgd | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(self.0@[7] as int, 0x80),
%fn MgaGpsEphRef::iodc | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == le2(self.0@, 8),
%fn MgaGpsEphRef::toc | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == le2(self.0@, 10),
%fn MgaGpsEphRef::reserved2 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == self.0@[12] as int,
%fn MgaGpsEphRef::af2 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(self.0@[13] as int, 0x80),
%fn MgaGpsEphRef::af1 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 14), 0x8000),
%fn MgaGpsEphRef::af0 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn MgaGpsEphRef::crs | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 20), 0x8000),
%fn MgaGpsEphRef::delta_n | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 22), 0x8000),
%fn MgaGpsEphRef::m0 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn MgaGpsEphRef::cuc | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 28), 0x8000),
%fn MgaGpsEphRef::cus | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 30), 0x8000),
%fn MgaGpsEphRef::e | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == le4(self.0@, 32),
%fn MgaGpsEphRef::sqrt_a | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == le4(self.0@, 36),
%fn MgaGpsEphRef::toe | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == le2(self.0@, 40),
%fn MgaGpsEphRef::cic | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 42), 0x8000),
%fn MgaGpsEphRef::omega0 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 44), 0x80000000),
%fn MgaGpsEphRef::cis | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 48), 0x8000),
%fn MgaGpsEphRef::crc | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 50), 0x8000),
%fn MgaGpsEphRef::i0 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 52), 0x80000000),
%fn MgaGpsEphRef::omega | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 56), 0x80000000),
%fn MgaGpsEphRef::omega_dot | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le4(self.0@, 60), 0x80000000),
%fn MgaGpsEphRef::idot | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r == sg(le2(self.0@, 64), 0x8000),
%fn MgaGpsEphRef::reserved3 | ret=r
        requires wf_MgaGpsEph(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[66] && r@[1] == self.0@[67],
%take impl Debug for MgaGpsEphRef
%header impl Debug for MgaGpsEphRef
impl<'a> MgaGpsEphRef<'a>
%fn <Debug for MgaGpsEphRef>::fmt | rename=debug_fmt
        requires wf_MgaGpsEph(self.0@),
%fn MgaGpsEphRef::validate | ret=r
        ensures r is Ok <==> wf_MgaGpsEph(payload@),
%take struct MgaGloEphRef
%take impl MgaGloEphRef
%fn MgaGloEphRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MgaGloEphRef::msg_type | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[0] as int,
%fn MgaGloEphRef::version | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[1] as int,
%fn MgaGloEphRef::sv_id | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[2] as int,
%fn MgaGloEphRef::reserved1 | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[3] as int,
%fn MgaGloEphRef::ft | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[4] as int,
%fn MgaGloEphRef::b | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[5] as int,
%fn MgaGloEphRef::m | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[6] as int,
%fn MgaGloEphRef::h | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(self.0@[7] as int, 0x80),
%fn MgaGloEphRef::x | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn MgaGloEphRef::y | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn MgaGloEphRef::z | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn MgaGloEphRef::dx | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn MgaGloEphRef::dy | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn MgaGloEphRef::dz | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn MgaGloEphRef::ddx | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(self.0@[32] as int, 0x80),
%fn MgaGloEphRef::ddy | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(self.0@[33] as int, 0x80),
%fn MgaGloEphRef::ddz | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(self.0@[34] as int, 0x80),
%fn MgaGloEphRef::tb | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[35] as int,
%fn MgaGloEphRef::gamma | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == le2(self.0@, 36),
%fn MgaGloEphRef::e | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[38] as int,
%fn MgaGloEphRef::delta_tau | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == self.0@[39] as int,
%fn MgaGloEphRef::tau | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r == sg(le4(self.0@, 40), 0x80000000),
%fn MgaGloEphRef::reserved2 | ret=r
        requires wf_MgaGloEph(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[44] && r@[1] == self.0@[45] && r@[2] == self.0@[46] && r@[3] == self.0@[47],
%take impl Debug for MgaGloEphRef
%header impl Debug for MgaGloEphRef
impl<'a> MgaGloEphRef<'a>
%fn <Debug for MgaGloEphRef>::fmt | rename=debug_fmt
        requires wf_MgaGloEph(self.0@),
%fn MgaGloEphRef::validate | ret=r
        ensures r is Ok <==> wf_MgaGloEph(payload@),
%take struct NavHpPosLlhRef
%take impl NavHpPosLlhRef
%fn NavHpPosLlhRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavHpPosLlhRef::version | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == self.0@[0] as int,
%fn NavHpPosLlhRef::reserved1 | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn NavHpPosLlhRef::itow | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == le4(self.0@, 4),
%fn NavHpPosLlhRef::lon_degrees_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavHpPosLlhRef::lon_degrees | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-7f64),
%fn NavHpPosLlhRef::lat_degrees_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavHpPosLlhRef::lat_degrees | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-7f64),
%fn NavHpPosLlhRef::height_meters_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn NavHpPosLlhRef::height_meters | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-3f64),
%fn NavHpPosLlhRef::height_msl_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn NavHpPosLlhRef::height_msl | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-3f64),
%fn NavHpPosLlhRef::lon_hp_degrees_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(self.0@[24] as int, 0x80),
%fn NavHpPosLlhRef::lon_hp_degrees | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(self.0@[24] as int, 0x80)), 1e-9f64),
%fn NavHpPosLlhRef::lat_hp_degrees_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(self.0@[25] as int, 0x80),
%fn NavHpPosLlhRef::lat_hp_degrees | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(self.0@[25] as int, 0x80)), 1e-9f64),
%fn NavHpPosLlhRef::height_hp_meters_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(self.0@[26] as int, 0x80),
%fn NavHpPosLlhRef::height_hp_meters | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(self.0@[26] as int, 0x80)), 1e-1f64),
%fn NavHpPosLlhRef::height_hp_msl_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == sg(self.0@[27] as int, 0x80),
%fn NavHpPosLlhRef::height_hp_msl | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(sg(self.0@[27] as int, 0x80)), 1e-1f64),
%fn NavHpPosLlhRef::horizontal_accuracy_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == le4(self.0@, 28),
%fn NavHpPosLlhRef::horizontal_accuracy | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(le4(self.0@, 28)), 1e-1f64),
%fn NavHpPosLlhRef::vertical_accuracy_raw | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == le4(self.0@, 32),
%fn NavHpPosLlhRef::vertical_accuracy | ret=r
        requires wf_NavHpPosLlh(self.0@),
        ensures r == mul64(to64(le4(self.0@, 32)), 1e-1f64),
%take impl Debug for NavHpPosLlhRef
%header impl Debug for NavHpPosLlhRef
impl<'a> NavHpPosLlhRef<'a>
%fn <Debug for NavHpPosLlhRef>::fmt | rename=debug_fmt
        requires wf_NavHpPosLlh(self.0@),
%fn NavHpPosLlhRef::validate | ret=r
        ensures r is Ok <==> wf_NavHpPosLlh(payload@),
%take struct CfgOdoRef
%take impl CfgOdoRef
%fn CfgOdoRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgOdoRef::version | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgOdoRef::reserved | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn CfgOdoRef::flags_raw | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[4] as int,
%fn CfgOdoRef::flags | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == OdoCogFilterFlags_of((self.0@[4] as int) as u8),
%fn CfgOdoRef::odo_cfg_raw | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[5] as int,
%fn CfgOdoRef::odo_cfg | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == OdoProfile_of((self.0@[5] as int) as u8),
%fn CfgOdoRef::reserved2 | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r@.len() == 6 && r@[0] == self.0@[6] && r@[1] == self.0@[7] && r@[2] == self.0@[8] && r@[3] == self.0@[9] && r@[4] == self.0@[10] && r@[5] == self.0@[11],
%fn CfgOdoRef::cog_max_speed | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[12] as int,
%fn CfgOdoRef::cog_max_pos_acc | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[13] as int,
%fn CfgOdoRef::reserved3 | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[14] && r@[1] == self.0@[15],
%fn CfgOdoRef::vel_lp_gain | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[16] as int,
%fn CfgOdoRef::cog_lp_gain | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r == self.0@[17] as int,
%fn CfgOdoRef::reserved4 | ret=r
        requires wf_CfgOdo(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[18] && r@[1] == self.0@[19],
%take impl Debug for CfgOdoRef
%header impl Debug for CfgOdoRef
impl<'a> CfgOdoRef<'a>
%fn <Debug for CfgOdoRef>::fmt | rename=debug_fmt
        requires wf_CfgOdo(self.0@),
%fn CfgOdoRef::validate | ret=r
        ensures r is Ok <==> wf_CfgOdo(payload@),
%take struct NavVelNedRef
%take impl NavVelNedRef
%fn NavVelNedRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavVelNedRef::itow | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavVelNedRef::vel_north_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn NavVelNedRef::vel_north | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 1e-2f64),
%fn NavVelNedRef::vel_east_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavVelNedRef::vel_east | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-2f64),
%fn NavVelNedRef::vel_down_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavVelNedRef::vel_down | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-2f64),
%fn NavVelNedRef::speed_3d_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == le4(self.0@, 16),
%fn NavVelNedRef::speed_3d | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(le4(self.0@, 16)), 1e-2f64),
%fn NavVelNedRef::ground_speed_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == le4(self.0@, 20),
%fn NavVelNedRef::ground_speed | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-2f64),
%fn NavVelNedRef::heading_degrees_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn NavVelNedRef::heading_degrees | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-5f64),
%fn NavVelNedRef::speed_accuracy_estimate_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == le4(self.0@, 28),
%fn NavVelNedRef::speed_accuracy_estimate | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(le4(self.0@, 28)), 1e-2f64),
%fn NavVelNedRef::course_heading_accuracy_estimate_raw | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == le4(self.0@, 32),
%fn NavVelNedRef::course_heading_accuracy_estimate | ret=r
        requires wf_NavVelNed(self.0@),
        ensures r == mul64(to64(le4(self.0@, 32)), 1e-5f64),
%take impl Debug for NavVelNedRef
%header impl Debug for NavVelNedRef
impl<'a> NavVelNedRef<'a>
%fn <Debug for NavVelNedRef>::fmt | rename=debug_fmt
        requires wf_NavVelNed(self.0@),
%fn NavVelNedRef::validate | ret=r
        ensures r is Ok <==> wf_NavVelNed(payload@),
%take struct CfgPrtI2cRef
%take impl CfgPrtI2cRef
%fn CfgPrtI2cRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgPrtI2cRef::portid_raw | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgPrtI2cRef::portid | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == I2cPortId_of((self.0@[0] as int) as u8),
%fn CfgPrtI2cRef::reserved1 | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgPrtI2cRef::tx_ready | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le2(self.0@, 2),
%fn CfgPrtI2cRef::mode | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le4(self.0@, 4),
%fn CfgPrtI2cRef::reserved2 | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le4(self.0@, 8),
%fn CfgPrtI2cRef::in_proto_mask_raw | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le2(self.0@, 12),
%fn CfgPrtI2cRef::in_proto_mask | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == InProtoMask_of((le2(self.0@, 12)) as u16),
%fn CfgPrtI2cRef::out_proto_mask_raw | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le2(self.0@, 14),
%fn CfgPrtI2cRef::out_proto_mask | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == OutProtoMask_of((le2(self.0@, 14)) as u16),
%fn CfgPrtI2cRef::flags | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le2(self.0@, 16),
%fn CfgPrtI2cRef::reserved3 | ret=r
        requires wf_CfgPrtI2c(self.0@),
        ensures r == le2(self.0@, 18),
%take impl Debug for CfgPrtI2cRef
%header impl Debug for CfgPrtI2cRef
impl<'a> CfgPrtI2cRef<'a>
%fn <Debug for CfgPrtI2cRef>::fmt | rename=debug_fmt
        requires wf_CfgPrtI2c(self.0@),
%fn CfgPrtI2cRef::validate | ret=r
        ensures r is Ok <==> wf_CfgPrtI2c(payload@),
%take struct HnrAttRef
%take impl HnrAttRef
%fn HnrAttRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn HnrAttRef::itow | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == le4(self.0@, 0),
%fn HnrAttRef::version | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == self.0@[4] as int,
%fn HnrAttRef::reserved1 | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[5] && r@[1] == self.0@[6] && r@[2] == self.0@[7],
%fn HnrAttRef::vehicle_roll_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn HnrAttRef::vehicle_roll | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-5f64),
%fn HnrAttRef::vehicle_pitch_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn HnrAttRef::vehicle_pitch | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-5f64),
%fn HnrAttRef::vehicle_heading_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn HnrAttRef::vehicle_heading | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-5f64),
%fn HnrAttRef::vehicle_roll_accuracy_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == le4(self.0@, 20),
%fn HnrAttRef::vehicle_roll_accuracy | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-5f64),
%fn HnrAttRef::vehicle_pitch_accuracy_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == le4(self.0@, 24),
%fn HnrAttRef::vehicle_pitch_accuracy | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 24)), 1e-5f64),
%fn HnrAttRef::vehicle_heading_accuracy_raw | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == le4(self.0@, 28),
%fn HnrAttRef::vehicle_heading_accuracy | ret=r
        requires wf_HnrAtt(self.0@),
        ensures r == mul64(to64(le4(self.0@, 28)), 1e-5f64),
%take impl Debug for HnrAttRef
%header impl Debug for HnrAttRef
impl<'a> HnrAttRef<'a>
%fn <Debug for HnrAttRef>::fmt | rename=debug_fmt
        requires wf_HnrAtt(self.0@),
%fn HnrAttRef::validate | ret=r
        ensures r is Ok <==> wf_HnrAtt(payload@),
%take struct CfgInfRef
%take impl CfgInfRef
%fn CfgInfRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgInfRef::protocol_id | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgInfRef::reserved | ret=r
        requires wf_CfgInf(self.0@),
        ensures r@.len() == 3 && r@[0] == self.0@[1] && r@[1] == self.0@[2] && r@[2] == self.0@[3],
%fn CfgInfRef::inf_msg_mask_0_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[4] as int,
%fn CfgInfRef::inf_msg_mask_0 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[4] as int) as u8),
%fn CfgInfRef::inf_msg_mask_1_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[5] as int,
%fn CfgInfRef::inf_msg_mask_1 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[5] as int) as u8),
%fn CfgInfRef::inf_msg_mask_2_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[6] as int,
%fn CfgInfRef::inf_msg_mask_2 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[6] as int) as u8),
%fn CfgInfRef::inf_msg_mask_3_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[7] as int,
%fn CfgInfRef::inf_msg_mask_3 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[7] as int) as u8),
%fn CfgInfRef::inf_msg_mask_4_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[8] as int,
%fn CfgInfRef::inf_msg_mask_4 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[8] as int) as u8),
%fn CfgInfRef::inf_msg_mask_5_raw | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == self.0@[9] as int,
%fn CfgInfRef::inf_msg_mask_5 | ret=r
        requires wf_CfgInf(self.0@),
        ensures r == CfgInfMask_of((self.0@[9] as int) as u8),
%take impl Debug for CfgInfRef
%header impl Debug for CfgInfRef
impl<'a> CfgInfRef<'a>
%fn <Debug for CfgInfRef>::fmt | rename=debug_fmt
        requires wf_CfgInf(self.0@),
%fn CfgInfRef::validate | ret=r
        ensures r is Ok <==> wf_CfgInf(payload@),
%take struct NavStatusRef
%take impl NavStatusRef
%fn NavStatusRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavStatusRef::itow | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavStatusRef::fix_type_raw | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == self.0@[4] as int,
%fn NavStatusRef::fix_type | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == GpsFix_of((self.0@[4] as int) as u8),
%fn NavStatusRef::flags_raw | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == self.0@[5] as int,
%fn NavStatusRef::flags | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == NavStatusFlags_of((self.0@[5] as int) as u8),
%fn NavStatusRef::fix_stat_raw | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == self.0@[6] as int,
%fn NavStatusRef::fix_stat | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == FixStatusInfo_of((self.0@[6] as int) as u8),
%fn NavStatusRef::flags2_raw | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == self.0@[7] as int,
%fn NavStatusRef::flags2 | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == NavStatusFlags2_of((self.0@[7] as int) as u8),
%fn NavStatusRef::time_to_first_fix | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == le4(self.0@, 8),
%fn NavStatusRef::uptime_ms | ret=r
        requires wf_NavStatus(self.0@),
        ensures r == le4(self.0@, 12),
%take impl Debug for NavStatusRef
%header impl Debug for NavStatusRef
impl<'a> NavStatusRef<'a>
%fn <Debug for NavStatusRef>::fmt | rename=debug_fmt
        requires wf_NavStatus(self.0@),
%fn NavStatusRef::validate | ret=r
        ensures r is Ok <==> wf_NavStatus(payload@),
%take struct MgaAckRef
%take impl MgaAckRef
%fn MgaAckRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MgaAckRef::ack_type | ret=r
        requires wf_MgaAck(self.0@),
        ensures r == self.0@[0] as int,
%fn MgaAckRef::version | ret=r
        requires wf_MgaAck(self.0@),
        ensures r == self.0@[1] as int,
%fn MgaAckRef::info_code_raw | ret=r
        requires wf_MgaAck(self.0@),
        ensures r == self.0@[2] as int,
%fn MgaAckRef::info_code | ret=r
        requires wf_MgaAck(self.0@),
        ensures r == MsgAckInfoCode_of((self.0@[2] as int) as u8),
%fn MgaAckRef::msg_id | ret=r
        requires wf_MgaAck(self.0@),
        ensures r == self.0@[3] as int,
%fn MgaAckRef::msg_payload_start | ret=r
        requires wf_MgaAck(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[4] && r@[1] == self.0@[5] && r@[2] == self.0@[6] && r@[3] == self.0@[7],
%take impl Debug for MgaAckRef
%header impl Debug for MgaAckRef
impl<'a> MgaAckRef<'a>
%fn <Debug for MgaAckRef>::fmt | rename=debug_fmt
        requires wf_MgaAck(self.0@),
%fn MgaAckRef::validate | ret=r
        ensures r is Ok <==> wf_MgaAck(payload@),
%take struct NavClockRef
%take impl NavClockRef
%fn NavClockRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavClockRef::itow | ret=r
        requires wf_NavClock(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavClockRef::clk_b | ret=r
        requires wf_NavClock(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn NavClockRef::clk_d | ret=r
        requires wf_NavClock(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavClockRef::t_acc | ret=r
        requires wf_NavClock(self.0@),
        ensures r == le4(self.0@, 12),
%fn NavClockRef::f_acc | ret=r
        requires wf_NavClock(self.0@),
        ensures r == le4(self.0@, 16),
%take impl Debug for NavClockRef
%header impl Debug for NavClockRef
impl<'a> NavClockRef<'a>
%fn <Debug for NavClockRef>::fmt | rename=debug_fmt
        requires wf_NavClock(self.0@),
%fn NavClockRef::validate | ret=r
        ensures r is Ok <==> wf_NavClock(payload@),
%take struct NavEoeRef
%take impl NavEoeRef
%fn NavEoeRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavEoeRef::itow | ret=r
        requires wf_NavEoe(self.0@),
        ensures r == le4(self.0@, 0),
%take impl Debug for NavEoeRef
%header impl Debug for NavEoeRef
impl<'a> NavEoeRef<'a>
%fn <Debug for NavEoeRef>::fmt | rename=debug_fmt
        requires wf_NavEoe(self.0@),
%fn NavEoeRef::validate | ret=r
        ensures r is Ok <==> wf_NavEoe(payload@),
