%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
pub open spec fn CfgNav5DynModel_valid(x: u8) -> bool { x == 0 || x == 2 || x == 3 || x == 4 || x == 5 || x == 6 || x == 7 || x == 8 || x == 9 || x == 10 }
pub open spec fn CfgNav5FixMode_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
pub open spec fn CfgNav5UtcStandard_valid(x: u8) -> bool { x == 0 || x == 3 || x == 6 || x == 7 }
pub open spec fn UartPortId_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
/// the mode words UartMode::from can decode (known finding: it panics on the others)
pub open spec fn UartMode_ok(x: u32) -> bool {
    let d = (x / 64) % 4;
    let p = (x / 512) % 8;
    (d == 2 || d == 3) && (p == 0 || p == 1 || p == 4 || p == 5)
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgNav5Params(u16);
pub uninterp spec fn CfgNav5Params_of(x: u16) -> CfgNav5Params; /*stub: flags*/
impl CfgNav5Params {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgNav5Params_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5DynModel(u8);
pub uninterp spec fn CfgNav5DynModel_of(x: u8) -> CfgNav5DynModel; /*stub: enums*/
impl CfgNav5DynModel {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5DynModel_valid(x), ensures r == CfgNav5DynModel_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5DynModel_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5FixMode(u8);
pub uninterp spec fn CfgNav5FixMode_of(x: u8) -> CfgNav5FixMode; /*stub: enums*/
impl CfgNav5FixMode {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5FixMode_valid(x), ensures r == CfgNav5FixMode_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5FixMode_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5UtcStandard(u8);
pub uninterp spec fn CfgNav5UtcStandard_of(x: u8) -> CfgNav5UtcStandard; /*stub: enums*/
impl CfgNav5UtcStandard {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5UtcStandard_valid(x), ensures r == CfgNav5UtcStandard_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5UtcStandard_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct StdevFlags(u8);
pub uninterp spec fn StdevFlags_of(x: u8) -> StdevFlags; /*stub: flags*/
impl StdevFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == StdevFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct TrkStatFlags(u8);
pub uninterp spec fn TrkStatFlags_of(x: u8) -> TrkStatFlags; /*stub: flags*/
impl TrkStatFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == TrkStatFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct NavTimeUtcFlags(u8);
pub uninterp spec fn NavTimeUtcFlags_of(x: u8) -> NavTimeUtcFlags; /*stub: flags*/
impl NavTimeUtcFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == NavTimeUtcFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: enums*/ pub struct UartPortId(u8);
pub uninterp spec fn UartPortId_of(x: u8) -> UartPortId; /*stub: enums*/
impl UartPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires UartPortId_valid(x), ensures r == UartPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == UartPortId_valid(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct UartMode(u32);
pub uninterp spec fn UartMode_of(x: u32) -> UartMode; /*stub: words*/
impl UartMode {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) requires UartMode_ok(x), ensures r == UartMode_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct HnrInsBitFlags(u32);
pub uninterp spec fn HnrInsBitFlags_of(x: u32) -> HnrInsBitFlags; /*stub: flags*/
impl HnrInsBitFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == HnrInsBitFlags_of(x), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct NavSatSvFlags(u32);
pub uninterp spec fn NavSatSvFlags_of(x: u32) -> NavSatSvFlags; /*stub: words*/
impl NavSatSvFlags {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) ensures r == NavSatSvFlags_of(x), { unimplemented!() }
}
/// the payloads of MgaGpsEPH the parser accepts
pub open spec fn wf_MgaGpsEPH(s: Seq<u8>) -> bool { s.len() == 68 }
/// the payloads of CfgNav5 the parser accepts
pub open spec fn wf_CfgNav5(s: Seq<u8>) -> bool { s.len() == 36 && CfgNav5DynModel_valid(s[2]) && CfgNav5FixMode_valid(s[3]) && CfgNav5UtcStandard_valid(s[30]) }
/// the payloads of RxmRawxInfo the parser accepts
pub open spec fn wf_RxmRawxInfo(s: Seq<u8>) -> bool { s.len() == 32 }
/// the payloads of MgaGpsIono the parser accepts
pub open spec fn wf_MgaGpsIono(s: Seq<u8>) -> bool { s.len() == 16 }
/// the payloads of NavTimeUTC the parser accepts
pub open spec fn wf_NavTimeUTC(s: Seq<u8>) -> bool { s.len() == 20 }
/// the payloads of AlpSrv the parser accepts
pub open spec fn wf_AlpSrv(s: Seq<u8>) -> bool { s.len() == 16 }
/// the payloads of CfgPrtUart the parser accepts
pub open spec fn wf_CfgPrtUart(s: Seq<u8>) -> bool { s.len() == 20 && UartPortId_valid(s[0]) }
/// the payloads of HnrIns the parser accepts
pub open spec fn wf_HnrIns(s: Seq<u8>) -> bool { s.len() == 36 }
/// the payloads of NavSatSvInfo the parser accepts
pub open spec fn wf_NavSatSvInfo(s: Seq<u8>) -> bool { s.len() == 12 }
/// the payloads of RxmRtcm the parser accepts
pub open spec fn wf_RxmRtcm(s: Seq<u8>) -> bool { s.len() == 8 }
/// the payloads of NavVelECEF the parser accepts
pub open spec fn wf_NavVelECEF(s: Seq<u8>) -> bool { s.len() == 20 }
%source error
%take enum ParserError
%source exp
%take struct MgaGpsEPHRef
%take impl MgaGpsEPHRef
%fn MgaGpsEPHRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MgaGpsEPHRef::msg_type | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[0] as int,
%fn MgaGpsEPHRef::version | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[1] as int,
%fn MgaGpsEPHRef::sv_id | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[2] as int,
%fn MgaGpsEPHRef::reserved1 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[3] as int,
%fn MgaGpsEPHRef::fit_interval | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[4] as int,
%fn MgaGpsEPHRef::ura_index | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[5] as int,
%fn MgaGpsEPHRef::sv_health | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[6] as int,
%fn MgaGpsEPHRef::tgd_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(self.0@[7] as int, 0x80),
%fn MgaGpsEPHRef::tgd | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(self.0@[7] as int, 0x80)), 2e-31f64),
%fn MgaGpsEPHRef::iodc | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == le2(self.0@, 8),
%fn MgaGpsEPHRef::toc_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == le2(self.0@, 10),
%fn MgaGpsEPHRef::toc | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(le2(self.0@, 10)), 2e+4f64),
%fn MgaGpsEPHRef::reserved2 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == self.0@[12] as int,
%fn MgaGpsEPHRef::af2_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(self.0@[13] as int, 0x80),
%fn MgaGpsEPHRef::af2 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(self.0@[13] as int, 0x80)), 2e-55f64),
%fn MgaGpsEPHRef::afl_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 14), 0x8000),
%fn MgaGpsEPHRef::afl | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 14), 0x8000)), 2e-43f64),
%fn MgaGpsEPHRef::af0_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn MgaGpsEPHRef::af0 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 2e-31f64),
%fn MgaGpsEPHRef::crs_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 20), 0x8000),
%fn MgaGpsEPHRef::crs | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 20), 0x8000)), 2e-5f64),
%fn MgaGpsEPHRef::delta_n_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 22), 0x8000),
%fn MgaGpsEPHRef::delta_n | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 22), 0x8000)), 2e-43f64),
%fn MgaGpsEPHRef::m0_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn MgaGpsEPHRef::m0 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 2e-31f64),
%fn MgaGpsEPHRef::cuc_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 28), 0x8000),
%fn MgaGpsEPHRef::cuc | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 28), 0x8000)), 2e-29f64),
%fn MgaGpsEPHRef::cus_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 30), 0x8000),
%fn MgaGpsEPHRef::cus | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 30), 0x8000)), 2e-29f64),
%fn MgaGpsEPHRef::e_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == le4(self.0@, 32),
%fn MgaGpsEPHRef::e | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(le4(self.0@, 32)), 2e-33f64),
%fn MgaGpsEPHRef::sqrt_a_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == le4(self.0@, 36),
%fn MgaGpsEPHRef::sqrt_a | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(le4(self.0@, 36)), 2e-19f64),
%fn MgaGpsEPHRef::toe_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == le2(self.0@, 40),
%fn MgaGpsEPHRef::toe | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(le2(self.0@, 40)), 2e+4f64),
%fn MgaGpsEPHRef::cic_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 42), 0x8000),
%fn MgaGpsEPHRef::cic | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 42), 0x8000)), 2e-29f64),
%fn MgaGpsEPHRef::omega0_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 44), 0x80000000),
%fn MgaGpsEPHRef::omega0 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 44), 0x80000000)), 2e-31f64),
%fn MgaGpsEPHRef::cis_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 48), 0x8000),
%fn MgaGpsEPHRef::cis | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 48), 0x8000)), 2e-29f64),
%fn MgaGpsEPHRef::crc_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 50), 0x8000),
%fn MgaGpsEPHRef::crc | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 50), 0x8000)), 2e-5f64),
%fn MgaGpsEPHRef::i0_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 52), 0x80000000),
%fn MgaGpsEPHRef::i0 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 52), 0x80000000)), 2e-31f64),
%fn MgaGpsEPHRef::omega_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 56), 0x80000000),
%fn MgaGpsEPHRef::omega | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 56), 0x80000000)), 2e-31f64),
%fn MgaGpsEPHRef::omega_dot_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le4(self.0@, 60), 0x80000000),
%fn MgaGpsEPHRef::omega_dot | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 60), 0x80000000)), 2e-43f64),
%fn MgaGpsEPHRef::idot_raw | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == sg(le2(self.0@, 64), 0x8000),
%fn MgaGpsEPHRef::idot | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r == mul64(to64(sg(le2(self.0@, 64), 0x8000)), 2e-43f64),
%fn MgaGpsEPHRef::reserved3 | ret=r
        requires wf_MgaGpsEPH(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[66] && r@[1] == self.0@[67],
%take impl Debug for MgaGpsEPHRef
%header impl Debug for MgaGpsEPHRef
impl<'a> MgaGpsEPHRef<'a>
%fn <Debug for MgaGpsEPHRef>::fmt | rename=debug_fmt
        requires wf_MgaGpsEPH(self.0@),
%fn MgaGpsEPHRef::validate | ret=r
        ensures r is Ok <==> wf_MgaGpsEPH(payload@),
%take struct CfgNav5Ref
%take impl CfgNav5Ref
%fn CfgNav5Ref::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgNav5Ref::mask_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 0),
%fn CfgNav5Ref::mask | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == CfgNav5Params_of((le2(self.0@, 0)) as u16),
%fn CfgNav5Ref::dyn_model_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[2] as int,
%fn CfgNav5Ref::dyn_model | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == CfgNav5DynModel_of((self.0@[2] as int) as u8),
%fn CfgNav5Ref::fix_mode_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[3] as int,
%fn CfgNav5Ref::fix_mode | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == CfgNav5FixMode_of((self.0@[3] as int) as u8),
%fn CfgNav5Ref::fixed_alt_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn CfgNav5Ref::fixed_alt | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 0.01f64),
%fn CfgNav5Ref::fixed_alt_var_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le4(self.0@, 8),
%fn CfgNav5Ref::fixed_alt_var | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == mul64(to64(le4(self.0@, 8)), 0.0001f64),
%fn CfgNav5Ref::min_elev_degrees | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == sg(self.0@[12] as int, 0x80),
%fn CfgNav5Ref::dr_limit | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[13] as int,
%fn CfgNav5Ref::pdop_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 14),
%fn CfgNav5Ref::pdop | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == mul32(to32(le2(self.0@, 14)), 0.1f32),
%fn CfgNav5Ref::tdop_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 16),
%fn CfgNav5Ref::tdop | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == mul32(to32(le2(self.0@, 16)), 0.1f32),
%fn CfgNav5Ref::pacc | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 18),
%fn CfgNav5Ref::tacc | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 20),
%fn CfgNav5Ref::static_hold_thresh_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[22] as int,
%fn CfgNav5Ref::static_hold_thresh | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == mul32(to32(self.0@[22] as int), 0.01f32),
%fn CfgNav5Ref::dgps_time_out | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[23] as int,
%fn CfgNav5Ref::cno_thresh_num_svs | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[24] as int,
%fn CfgNav5Ref::cno_thresh | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[25] as int,
%fn CfgNav5Ref::reserved1 | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[26] && r@[1] == self.0@[27],
%fn CfgNav5Ref::static_hold_max_dist | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == le2(self.0@, 28),
%fn CfgNav5Ref::utc_standard_raw | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == self.0@[30] as int,
%fn CfgNav5Ref::utc_standard | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r == CfgNav5UtcStandard_of((self.0@[30] as int) as u8),
%fn CfgNav5Ref::reserved2 | ret=r
        requires wf_CfgNav5(self.0@),
        ensures r@.len() == 5 && r@[0] == self.0@[31] && r@[1] == self.0@[32] && r@[2] == self.0@[33] && r@[3] == self.0@[34] && r@[4] == self.0@[35],
%take impl Debug for CfgNav5Ref
%header impl Debug for CfgNav5Ref
impl<'a> CfgNav5Ref<'a>
%fn <Debug for CfgNav5Ref>::fmt | rename=debug_fmt
        requires wf_CfgNav5(self.0@),
%fn CfgNav5Ref::validate | ret=r
        ensures r is Ok <==> wf_CfgNav5(payload@),
%take struct RxmRawxInfoRef
%take impl RxmRawxInfoRef
%fn RxmRawxInfoRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn RxmRawxInfoRef::pr_mes | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == f64_bits(le8(self.0@, 0)),
%fn RxmRawxInfoRef::cp_mes | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == f64_bits(le8(self.0@, 8)),
%fn RxmRawxInfoRef::do_mes | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == f32_bits(le4(self.0@, 16)),
%fn RxmRawxInfoRef::gnss_id | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[20] as int,
%fn RxmRawxInfoRef::sv_id | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[21] as int,
%fn RxmRawxInfoRef::reserved2 | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[22] as int,
%fn RxmRawxInfoRef::freq_id | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[23] as int,
%fn RxmRawxInfoRef::lock_time | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == le2(self.0@, 24),
%fn RxmRawxInfoRef::cno | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[26] as int,
%fn RxmRawxInfoRef::pr_stdev_raw | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[27] as int,
%fn RxmRawxInfoRef::pr_stdev | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == StdevFlags_of((self.0@[27] as int) as u8),
%fn RxmRawxInfoRef::cp_stdev_raw | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[28] as int,
%fn RxmRawxInfoRef::cp_stdev | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == StdevFlags_of((self.0@[28] as int) as u8),
%fn RxmRawxInfoRef::do_stdev_raw | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[29] as int,
%fn RxmRawxInfoRef::do_stdev | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == StdevFlags_of((self.0@[29] as int) as u8),
%fn RxmRawxInfoRef::trk_stat_raw | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[30] as int,
%fn RxmRawxInfoRef::trk_stat | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == TrkStatFlags_of((self.0@[30] as int) as u8),
%fn RxmRawxInfoRef::reserved3 | ret=r
        requires wf_RxmRawxInfo(self.0@),
        ensures r == self.0@[31] as int,
%take impl Debug for RxmRawxInfoRef
%header impl Debug for RxmRawxInfoRef
impl<'a> RxmRawxInfoRef<'a>
%fn <Debug for RxmRawxInfoRef>::fmt | rename=debug_fmt
        requires wf_RxmRawxInfo(self.0@),
%fn RxmRawxInfoRef::validate | ret=r
        ensures r is Ok <==> wf_RxmRawxInfo(payload@),
%take struct MgaGpsIonoRef
%take impl MgaGpsIonoRef
%fn MgaGpsIonoRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn MgaGpsIonoRef::msg_type | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == self.0@[0] as int,
%fn MgaGpsIonoRef::version | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == self.0@[1] as int,
%fn MgaGpsIonoRef::reserved1 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r@.len() == 2 && r@[0] == self.0@[2] && r@[1] == self.0@[3],
%fn MgaGpsIonoRef::alpha0_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[4] as int, 0x80),
%fn MgaGpsIonoRef::alpha0 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[4] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::alpha1_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[5] as int, 0x80),
%fn MgaGpsIonoRef::alpha1 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[5] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::alpha2_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[6] as int, 0x80),
%fn MgaGpsIonoRef::alpha2 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[6] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::alpha3_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[7] as int, 0x80),
%fn MgaGpsIonoRef::alpha3 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[7] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::beta0_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[8] as int, 0x80),
%fn MgaGpsIonoRef::beta0 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[8] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::beta1_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[9] as int, 0x80),
%fn MgaGpsIonoRef::beta1 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[9] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::beta2_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[10] as int, 0x80),
%fn MgaGpsIonoRef::beta2 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[10] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::beta3_raw | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == sg(self.0@[11] as int, 0x80),
%fn MgaGpsIonoRef::beta3 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r == mul64(to64(sg(self.0@[11] as int, 0x80)), 1.0f64),
%fn MgaGpsIonoRef::reserved2 | ret=r
        requires wf_MgaGpsIono(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[12] && r@[1] == self.0@[13] && r@[2] == self.0@[14] && r@[3] == self.0@[15],
%take impl Debug for MgaGpsIonoRef
%header impl Debug for MgaGpsIonoRef
impl<'a> MgaGpsIonoRef<'a>
%fn <Debug for MgaGpsIonoRef>::fmt | rename=debug_fmt
        requires wf_MgaGpsIono(self.0@),
%fn MgaGpsIonoRef::validate | ret=r
        ensures r is Ok <==> wf_MgaGpsIono(payload@),
%take struct NavTimeUTCRef
%take impl NavTimeUTCRef
%fn NavTimeUTCRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavTimeUTCRef::itow | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavTimeUTCRef::time_accuracy_estimate_ns | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == le4(self.0@, 4),
%fn NavTimeUTCRef::nanos | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavTimeUTCRef::year | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == le2(self.0@, 12),
%fn NavTimeUTCRef::month | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[14] as int,
%fn NavTimeUTCRef::day | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[15] as int,
%fn NavTimeUTCRef::hour | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[16] as int,
%fn NavTimeUTCRef::min | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[17] as int,
%fn NavTimeUTCRef::sec | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[18] as int,
%fn NavTimeUTCRef::valid_raw | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == self.0@[19] as int,
%fn NavTimeUTCRef::valid | ret=r
        requires wf_NavTimeUTC(self.0@),
        ensures r == NavTimeUtcFlags_of((self.0@[19] as int) as u8),
%take impl Debug for NavTimeUTCRef
%header impl Debug for NavTimeUTCRef
impl<'a> NavTimeUTCRef<'a>
%fn <Debug for NavTimeUTCRef>::fmt | rename=debug_fmt
        requires wf_NavTimeUTC(self.0@),
%fn NavTimeUTCRef::validate | ret=r
        ensures r is Ok <==> wf_NavTimeUTC(payload@),
%take struct AlpSrvRef
%take impl AlpSrvRef
%fn AlpSrvRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn AlpSrvRef::id_size | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == self.0@[0] as int,
%fn AlpSrvRef::data_type | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == self.0@[1] as int,
%fn AlpSrvRef::offset | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == le2(self.0@, 2),
%fn AlpSrvRef::size | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == le2(self.0@, 4),
%fn AlpSrvRef::file_id | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == le2(self.0@, 6),
%fn AlpSrvRef::data_size | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == le2(self.0@, 8),
%fn AlpSrvRef::id1 | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == self.0@[10] as int,
%fn AlpSrvRef::id2 | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == self.0@[11] as int,
%fn AlpSrvRef::id3 | ret=r
        requires wf_AlpSrv(self.0@),
        ensures r == le4(self.0@, 12),
%take impl Debug for AlpSrvRef
%header impl Debug for AlpSrvRef
impl<'a> AlpSrvRef<'a>
%fn <Debug for AlpSrvRef>::fmt | rename=debug_fmt
        requires wf_AlpSrv(self.0@),
%fn AlpSrvRef::validate | ret=r
        ensures r is Ok <==> wf_AlpSrv(payload@),
%take struct CfgPrtUartRef
%take impl CfgPrtUartRef
%fn CfgPrtUartRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn CfgPrtUartRef::portid_raw | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == self.0@[0] as int,
%fn CfgPrtUartRef::portid | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == UartPortId_of((self.0@[0] as int) as u8),
%fn CfgPrtUartRef::reserved0 | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == self.0@[1] as int,
%fn CfgPrtUartRef::tx_ready | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le2(self.0@, 2),
%fn CfgPrtUartRef::mode_raw | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le4(self.0@, 4),
%fn CfgPrtUartRef::mode | ret=r
        requires wf_CfgPrtUart(self.0@), UartMode_ok(le4(self.0@, 4) as u32),
        ensures r == UartMode_of((le4(self.0@, 4)) as u32),
%fn CfgPrtUartRef::baud_rate | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le4(self.0@, 8),
%fn CfgPrtUartRef::in_proto_mask_raw | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le2(self.0@, 12),
%fn CfgPrtUartRef::in_proto_mask | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == InProtoMask_of((le2(self.0@, 12)) as u16),
%fn CfgPrtUartRef::out_proto_mask_raw | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le2(self.0@, 14),
%fn CfgPrtUartRef::out_proto_mask | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == OutProtoMask_of((le2(self.0@, 14)) as u16),
%fn CfgPrtUartRef::flags | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le2(self.0@, 16),
%fn CfgPrtUartRef::reserved5 | ret=r
        requires wf_CfgPrtUart(self.0@),
        ensures r == le2(self.0@, 18),
%take impl Debug for CfgPrtUartRef
%header impl Debug for CfgPrtUartRef
impl<'a> CfgPrtUartRef<'a>
%fn <Debug for CfgPrtUartRef>::fmt | rename=debug_fmt
        requires wf_CfgPrtUart(self.0@), UartMode_ok(le4(self.0@, 4) as u32),
%fn CfgPrtUartRef::validate | ret=r
        ensures r is Ok <==> wf_CfgPrtUart(payload@),
%take struct HnrInsRef
%take impl HnrInsRef
%fn HnrInsRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn HnrInsRef::bit_field_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == le4(self.0@, 0),
%fn HnrInsRef::bit_field | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == HnrInsBitFlags_of((le4(self.0@, 0)) as u32),
%fn HnrInsRef::reserved | ret=r
        requires wf_HnrIns(self.0@),
        ensures r@.len() == 4 && r@[0] == self.0@[4] && r@[1] == self.0@[5] && r@[2] == self.0@[6] && r@[3] == self.0@[7],
%fn HnrInsRef::itow | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == le4(self.0@, 8),
%fn HnrInsRef::x_angular_rate_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn HnrInsRef::x_angular_rate | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-3f64),
%fn HnrInsRef::y_angular_rate_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 16), 0x80000000),
%fn HnrInsRef::y_angular_rate | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-3f64),
%fn HnrInsRef::z_angular_rate_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 20), 0x80000000),
%fn HnrInsRef::z_angular_rate | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-3f64),
%fn HnrInsRef::x_acceleration_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 24), 0x80000000),
%fn HnrInsRef::x_acceleration | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-2f64),
%fn HnrInsRef::y_acceleration_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 28), 0x80000000),
%fn HnrInsRef::y_acceleration | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-2f64),
%fn HnrInsRef::z_acceleration_raw | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == sg(le4(self.0@, 32), 0x80000000),
%fn HnrInsRef::z_acceleration | ret=r
        requires wf_HnrIns(self.0@),
        ensures r == mul64(to64(sg(le4(self.0@, 32), 0x80000000)), 1e-2f64),
%take impl Debug for HnrInsRef
%header impl Debug for HnrInsRef
impl<'a> HnrInsRef<'a>
%fn <Debug for HnrInsRef>::fmt | rename=debug_fmt
        requires wf_HnrIns(self.0@),
%fn HnrInsRef::validate | ret=r
        ensures r is Ok <==> wf_HnrIns(payload@),
%take struct NavSatSvInfoRef
%take impl NavSatSvInfoRef
%fn NavSatSvInfoRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavSatSvInfoRef::gnss_id | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == self.0@[0] as int,
%fn NavSatSvInfoRef::sv_id | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == self.0@[1] as int,
%fn NavSatSvInfoRef::cno | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == self.0@[2] as int,
%fn NavSatSvInfoRef::elev | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == sg(self.0@[3] as int, 0x80),
%fn NavSatSvInfoRef::azim | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == sg(le2(self.0@, 4), 0x8000),
%fn NavSatSvInfoRef::pr_res | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == sg(le2(self.0@, 6), 0x8000),
%fn NavSatSvInfoRef::flags_raw | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == le4(self.0@, 8),
%fn NavSatSvInfoRef::flags | ret=r
        requires wf_NavSatSvInfo(self.0@),
        ensures r == NavSatSvFlags_of((le4(self.0@, 8)) as u32),
%take impl Debug for NavSatSvInfoRef
%header impl Debug for NavSatSvInfoRef
impl<'a> NavSatSvInfoRef<'a>
%fn <Debug for NavSatSvInfoRef>::fmt | rename=debug_fmt
        requires wf_NavSatSvInfo(self.0@),
%fn NavSatSvInfoRef::validate | ret=r
        ensures r is Ok <==> wf_NavSatSvInfo(payload@),
%take struct RxmRtcmRef
%take impl RxmRtcmRef
%fn RxmRtcmRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn RxmRtcmRef::version | ret=r
        requires wf_RxmRtcm(self.0@),
        ensures r == self.0@[0] as int,
%fn RxmRtcmRef::flags | ret=r
        requires wf_RxmRtcm(self.0@),
        ensures r == self.0@[1] as int,
%fn RxmRtcmRef::sub_type | ret=r
        requires wf_RxmRtcm(self.0@),
        ensures r == le2(self.0@, 2),
%fn RxmRtcmRef::ref_station | ret=r
        requires wf_RxmRtcm(self.0@),
        ensures r == le2(self.0@, 4),
%fn RxmRtcmRef::msg_type | ret=r
        requires wf_RxmRtcm(self.0@),
        ensures r == le2(self.0@, 6),
%take impl Debug for RxmRtcmRef
%header impl Debug for RxmRtcmRef
impl<'a> RxmRtcmRef<'a>
%fn <Debug for RxmRtcmRef>::fmt | rename=debug_fmt
        requires wf_RxmRtcm(self.0@),
%fn RxmRtcmRef::validate | ret=r
        ensures r is Ok <==> wf_RxmRtcm(payload@),
%take struct NavVelECEFRef
%take impl NavVelECEFRef
%fn NavVelECEFRef::as_bytes | ret=r
        ensures r@ == self.0@,
%fn NavVelECEFRef::itow | ret=r
        requires wf_NavVelECEF(self.0@),
        ensures r == le4(self.0@, 0),
%fn NavVelECEFRef::ecef_vx | ret=r
        requires wf_NavVelECEF(self.0@),
        ensures r == sg(le4(self.0@, 4), 0x80000000),
%fn NavVelECEFRef::ecef_vy | ret=r
        requires wf_NavVelECEF(self.0@),
        ensures r == sg(le4(self.0@, 8), 0x80000000),
%fn NavVelECEFRef::ecef_vz | ret=r
        requires wf_NavVelECEF(self.0@),
        ensures r == sg(le4(self.0@, 12), 0x80000000),
%fn NavVelECEFRef::s_acc | ret=r
        requires wf_NavVelECEF(self.0@),
        ensures r == le4(self.0@, 16),
%take impl Debug for NavVelECEFRef
%header impl Debug for NavVelECEFRef
impl<'a> NavVelECEFRef<'a>
%fn <Debug for NavVelECEFRef>::fmt | rename=debug_fmt
        requires wf_NavVelECEF(self.0@),
%fn NavVelECEFRef::validate | ret=r
        ensures r is Ok <==> wf_NavVelECEF(payload@),
