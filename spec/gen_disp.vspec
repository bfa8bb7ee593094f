%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%open
%prelude
// FIXED_PAYLOAD_LEN (used nowhere in the crate) is an Option constant, which the verifier does not take in traits
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
pub uninterp spec fn wf_NavPosLlh(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavPosLlhRef<'a>(pub &'a [u8]);
impl<'a> NavPosLlhRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavPosLlh(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavStatus(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavStatusRef<'a>(pub &'a [u8]);
impl<'a> NavStatusRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavStatus(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavDop(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavDopRef<'a>(pub &'a [u8]);
impl<'a> NavDopRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavDop(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavPvt(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavPvtRef<'a>(pub &'a [u8]);
impl<'a> NavPvtRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavPvt(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavSolution(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavSolutionRef<'a>(pub &'a [u8]);
impl<'a> NavSolutionRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavSolution(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavVelNed(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavVelNedRef<'a>(pub &'a [u8]);
impl<'a> NavVelNedRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavVelNed(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavHpPosLlh(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavHpPosLlhRef<'a>(pub &'a [u8]);
impl<'a> NavHpPosLlhRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavHpPosLlh(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavHpPosEcef(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavHpPosEcefRef<'a>(pub &'a [u8]);
impl<'a> NavHpPosEcefRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavHpPosEcef(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavTimeUTC(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavTimeUTCRef<'a>(pub &'a [u8]);
impl<'a> NavTimeUTCRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavTimeUTC(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavTimeLs(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavTimeLsRef<'a>(pub &'a [u8]);
impl<'a> NavTimeLsRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavTimeLs(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavSat(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavSatRef<'a>(pub &'a [u8]);
impl<'a> NavSatRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavSat(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavEoe(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavEoeRef<'a>(pub &'a [u8]);
impl<'a> NavEoeRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavEoe(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavOdo(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavOdoRef<'a>(pub &'a [u8]);
impl<'a> NavOdoRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavOdo(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgOdo(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgOdoRef<'a>(pub &'a [u8]);
impl<'a> CfgOdoRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgOdo(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MgaAck(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MgaAckRef<'a>(pub &'a [u8]);
impl<'a> MgaAckRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MgaAck(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MgaGpsIono(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MgaGpsIonoRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsIonoRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MgaGpsIono(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MgaGpsEph(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MgaGpsEphRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsEphRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MgaGpsEph(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MgaGloEph(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MgaGloEphRef<'a>(pub &'a [u8]);
impl<'a> MgaGloEphRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MgaGloEph(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_AlpSrv(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct AlpSrvRef<'a>(pub &'a [u8]);
impl<'a> AlpSrvRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_AlpSrv(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_AckAck(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct AckAckRef<'a>(pub &'a [u8]);
impl<'a> AckAckRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_AckAck(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_AckNak(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct AckNakRef<'a>(pub &'a [u8]);
impl<'a> AckNakRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_AckNak(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgItfm(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgItfmRef<'a>(pub &'a [u8]);
impl<'a> CfgItfmRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgItfm(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgPrtI2c(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgPrtI2cRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtI2cRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgPrtI2c(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgPrtSpi(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgPrtSpiRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtSpiRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgPrtSpi(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgPrtUart(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgPrtUartRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtUartRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgPrtUart(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgNav5(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgNav5Ref<'a>(pub &'a [u8]);
impl<'a> CfgNav5Ref<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgNav5(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgAnt(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgAntRef<'a>(pub &'a [u8]);
impl<'a> CfgAntRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgAnt(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgTmode2(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgTmode2Ref<'a>(pub &'a [u8]);
impl<'a> CfgTmode2Ref<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgTmode2(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgTmode3(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgTmode3Ref<'a>(pub &'a [u8]);
impl<'a> CfgTmode3Ref<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgTmode3(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_CfgTp5(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct CfgTp5Ref<'a>(pub &'a [u8]);
impl<'a> CfgTp5Ref<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_CfgTp5(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_InfError(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct InfErrorRef<'a>(pub &'a [u8]);
impl<'a> InfErrorRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_InfError(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_InfWarning(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct InfWarningRef<'a>(pub &'a [u8]);
impl<'a> InfWarningRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_InfWarning(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_InfNotice(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct InfNoticeRef<'a>(pub &'a [u8]);
impl<'a> InfNoticeRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_InfNotice(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_InfTest(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct InfTestRef<'a>(pub &'a [u8]);
impl<'a> InfTestRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_InfTest(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_InfDebug(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct InfDebugRef<'a>(pub &'a [u8]);
impl<'a> InfDebugRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_InfDebug(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_RxmRawx(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct RxmRawxRef<'a>(pub &'a [u8]);
impl<'a> RxmRawxRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_RxmRawx(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_TimTp(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct TimTpRef<'a>(pub &'a [u8]);
impl<'a> TimTpRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_TimTp(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_TimTm2(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct TimTm2Ref<'a>(pub &'a [u8]);
impl<'a> TimTm2Ref<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_TimTm2(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MonVer(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MonVerRef<'a>(pub &'a [u8]);
impl<'a> MonVerRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MonVer(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MonGnss(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MonGnssRef<'a>(pub &'a [u8]);
impl<'a> MonGnssRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MonGnss(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MonHw(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MonHwRef<'a>(pub &'a [u8]);
impl<'a> MonHwRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MonHw(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_RxmRtcm(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct RxmRtcmRef<'a>(pub &'a [u8]);
impl<'a> RxmRtcmRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_RxmRtcm(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_EsfMeas(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct EsfMeasRef<'a>(pub &'a [u8]);
impl<'a> EsfMeasRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_EsfMeas(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_EsfIns(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct EsfInsRef<'a>(pub &'a [u8]);
impl<'a> EsfInsRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_EsfIns(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_HnrAtt(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct HnrAttRef<'a>(pub &'a [u8]);
impl<'a> HnrAttRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_HnrAtt(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_HnrIns(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct HnrInsRef<'a>(pub &'a [u8]);
impl<'a> HnrInsRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_HnrIns(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_HnrPvt(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct HnrPvtRef<'a>(pub &'a [u8]);
impl<'a> HnrPvtRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_HnrPvt(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavAtt(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavAttRef<'a>(pub &'a [u8]);
impl<'a> NavAttRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavAtt(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavClock(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavClockRef<'a>(pub &'a [u8]);
impl<'a> NavClockRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavClock(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_NavVelECEF(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct NavVelECEFRef<'a>(pub &'a [u8]);
impl<'a> NavVelECEFRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_NavVelECEF(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_MgaGpsEPH(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct MgaGpsEPHRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsEPHRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_MgaGpsEPH(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_RxmSfrbx(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct RxmSfrbxRef<'a>(pub &'a [u8]);
impl<'a> RxmSfrbxRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_RxmSfrbx(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_EsfRaw(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct EsfRawRef<'a>(pub &'a [u8]);
impl<'a> EsfRawRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_EsfRaw(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_TimSvin(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct TimSvinRef<'a>(pub &'a [u8]);
impl<'a> TimSvinRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_TimSvin(payload@), { unimplemented!() }
}
pub uninterp spec fn wf_SecUniqId(s: Seq<u8>) -> bool; /*stub: acc*/
pub struct SecUniqIdRef<'a>(pub &'a [u8]);
impl<'a> SecUniqIdRef<'a> {
  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_SecUniqId(payload@), { unimplemented!() }
}
/// class and id of a frame name the message and its payload satisfies the message's rules
pub open spec fn is_NavPosLlh(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x2 && wf_NavPosLlh(s) }
pub open spec fn is_NavStatus(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x3 && wf_NavStatus(s) }
pub open spec fn is_NavDop(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x4 && wf_NavDop(s) }
pub open spec fn is_NavPvt(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x7 && wf_NavPvt(s) }
pub open spec fn is_NavSolution(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x6 && wf_NavSolution(s) }
pub open spec fn is_NavVelNed(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x12 && wf_NavVelNed(s) }
pub open spec fn is_NavHpPosLlh(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x14 && wf_NavHpPosLlh(s) }
pub open spec fn is_NavHpPosEcef(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x13 && wf_NavHpPosEcef(s) }
pub open spec fn is_NavTimeUTC(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x21 && wf_NavTimeUTC(s) }
pub open spec fn is_NavTimeLs(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x26 && wf_NavTimeLs(s) }
pub open spec fn is_NavSat(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x35 && wf_NavSat(s) }
pub open spec fn is_NavEoe(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x61 && wf_NavEoe(s) }
pub open spec fn is_NavOdo(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x9 && wf_NavOdo(s) }
pub open spec fn is_CfgOdo(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x1e && wf_CfgOdo(s) }
pub open spec fn is_MgaAck(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x13 && id == 0x60 && wf_MgaAck(s) }
pub open spec fn is_MgaGpsIono(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x13 && id == 0x0 && wf_MgaGpsIono(s) }
pub open spec fn is_MgaGpsEph(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x13 && id == 0x0 && wf_MgaGpsEph(s) }
pub open spec fn is_MgaGloEph(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x13 && id == 0x6 && wf_MgaGloEph(s) }
pub open spec fn is_AlpSrv(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xb && id == 0x32 && wf_AlpSrv(s) }
pub open spec fn is_AckAck(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x5 && id == 0x1 && wf_AckAck(s) }
pub open spec fn is_AckNak(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x5 && id == 0x0 && wf_AckNak(s) }
pub open spec fn is_CfgItfm(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x39 && wf_CfgItfm(s) }
pub open spec fn is_CfgPrtI2c(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x0 && wf_CfgPrtI2c(s) }
pub open spec fn is_CfgPrtSpi(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x0 && wf_CfgPrtSpi(s) }
pub open spec fn is_CfgPrtUart(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x0 && wf_CfgPrtUart(s) }
pub open spec fn is_CfgNav5(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x24 && wf_CfgNav5(s) }
pub open spec fn is_CfgAnt(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x13 && wf_CfgAnt(s) }
pub open spec fn is_CfgTmode2(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x3d && wf_CfgTmode2(s) }
pub open spec fn is_CfgTmode3(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x71 && wf_CfgTmode3(s) }
pub open spec fn is_CfgTp5(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x6 && id == 0x31 && wf_CfgTp5(s) }
pub open spec fn is_InfError(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x4 && id == 0x0 && wf_InfError(s) }
pub open spec fn is_InfWarning(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x4 && id == 0x1 && wf_InfWarning(s) }
pub open spec fn is_InfNotice(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x4 && id == 0x2 && wf_InfNotice(s) }
pub open spec fn is_InfTest(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x4 && id == 0x3 && wf_InfTest(s) }
pub open spec fn is_InfDebug(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x4 && id == 0x4 && wf_InfDebug(s) }
pub open spec fn is_RxmRawx(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x2 && id == 0x15 && wf_RxmRawx(s) }
pub open spec fn is_TimTp(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xd && id == 0x1 && wf_TimTp(s) }
pub open spec fn is_TimTm2(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xd && id == 0x3 && wf_TimTm2(s) }
pub open spec fn is_MonVer(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xa && id == 0x4 && wf_MonVer(s) }
pub open spec fn is_MonGnss(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xa && id == 0x28 && wf_MonGnss(s) }
pub open spec fn is_MonHw(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xa && id == 0x9 && wf_MonHw(s) }
pub open spec fn is_RxmRtcm(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x2 && id == 0x32 && wf_RxmRtcm(s) }
pub open spec fn is_EsfMeas(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x10 && id == 0x2 && wf_EsfMeas(s) }
pub open spec fn is_EsfIns(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x10 && id == 0x15 && wf_EsfIns(s) }
pub open spec fn is_HnrAtt(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x28 && id == 0x1 && wf_HnrAtt(s) }
pub open spec fn is_HnrIns(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x28 && id == 0x2 && wf_HnrIns(s) }
pub open spec fn is_HnrPvt(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x28 && id == 0x0 && wf_HnrPvt(s) }
pub open spec fn is_NavAtt(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x5 && wf_NavAtt(s) }
pub open spec fn is_NavClock(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x22 && wf_NavClock(s) }
pub open spec fn is_NavVelECEF(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x1 && id == 0x11 && wf_NavVelECEF(s) }
pub open spec fn is_MgaGpsEPH(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x13 && id == 0x0 && wf_MgaGpsEPH(s) }
pub open spec fn is_RxmSfrbx(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x2 && id == 0x13 && wf_RxmSfrbx(s) }
pub open spec fn is_EsfRaw(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x10 && id == 0x3 && wf_EsfRaw(s) }
pub open spec fn is_TimSvin(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0xd && id == 0x4 && wf_TimSvin(s) }
pub open spec fn is_SecUniqId(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x27 && id == 0x3 && wf_SecUniqId(s) }
pub open spec fn known(class: u8, id: u8, s: Seq<u8>) -> bool {
    is_NavPosLlh(class, id, s)
    || is_NavStatus(class, id, s)
    || is_NavDop(class, id, s)
    || is_NavPvt(class, id, s)
    || is_NavSolution(class, id, s)
    || is_NavVelNed(class, id, s)
    || is_NavHpPosLlh(class, id, s)
    || is_NavHpPosEcef(class, id, s)
    || is_NavTimeUTC(class, id, s)
    || is_NavTimeLs(class, id, s)
    || is_NavSat(class, id, s)
    || is_NavEoe(class, id, s)
    || is_NavOdo(class, id, s)
    || is_CfgOdo(class, id, s)
    || is_MgaAck(class, id, s)
    || is_MgaGpsIono(class, id, s)
    || is_MgaGpsEph(class, id, s)
    || is_MgaGloEph(class, id, s)
    || is_AlpSrv(class, id, s)
    || is_AckAck(class, id, s)
    || is_AckNak(class, id, s)
    || is_CfgItfm(class, id, s)
    || is_CfgPrtI2c(class, id, s)
    || is_CfgPrtSpi(class, id, s)
    || is_CfgPrtUart(class, id, s)
    || is_CfgNav5(class, id, s)
    || is_CfgAnt(class, id, s)
    || is_CfgTmode2(class, id, s)
    || is_CfgTmode3(class, id, s)
    || is_CfgTp5(class, id, s)
    || is_InfError(class, id, s)
    || is_InfWarning(class, id, s)
    || is_InfNotice(class, id, s)
    || is_InfTest(class, id, s)
    || is_InfDebug(class, id, s)
    || is_RxmRawx(class, id, s)
    || is_TimTp(class, id, s)
    || is_TimTm2(class, id, s)
    || is_MonVer(class, id, s)
    || is_MonGnss(class, id, s)
    || is_MonHw(class, id, s)
    || is_RxmRtcm(class, id, s)
    || is_EsfMeas(class, id, s)
    || is_EsfIns(class, id, s)
    || is_HnrAtt(class, id, s)
    || is_HnrIns(class, id, s)
    || is_HnrPvt(class, id, s)
    || is_NavAtt(class, id, s)
    || is_NavClock(class, id, s)
    || is_NavVelECEF(class, id, s)
    || is_MgaGpsEPH(class, id, s)
    || is_RxmSfrbx(class, id, s)
    || is_EsfRaw(class, id, s)
    || is_TimSvin(class, id, s)
    || is_SecUniqId(class, id, s)
}
%postlude
pub open spec fn dispatched(class: u8, id: u8, s: Seq<u8>, p: PacketRef) -> bool {
    match p {
        PacketRef::NavPosLlh(x) => x.0@ == s && is_NavPosLlh(class, id, s),
        PacketRef::NavStatus(x) => x.0@ == s && is_NavStatus(class, id, s),
        PacketRef::NavDop(x) => x.0@ == s && is_NavDop(class, id, s),
        PacketRef::NavPvt(x) => x.0@ == s && is_NavPvt(class, id, s),
        PacketRef::NavSolution(x) => x.0@ == s && is_NavSolution(class, id, s),
        PacketRef::NavVelNed(x) => x.0@ == s && is_NavVelNed(class, id, s),
        PacketRef::NavHpPosLlh(x) => x.0@ == s && is_NavHpPosLlh(class, id, s),
        PacketRef::NavHpPosEcef(x) => x.0@ == s && is_NavHpPosEcef(class, id, s),
        PacketRef::NavTimeUTC(x) => x.0@ == s && is_NavTimeUTC(class, id, s),
        PacketRef::NavTimeLs(x) => x.0@ == s && is_NavTimeLs(class, id, s),
        PacketRef::NavSat(x) => x.0@ == s && is_NavSat(class, id, s),
        PacketRef::NavEoe(x) => x.0@ == s && is_NavEoe(class, id, s),
        PacketRef::NavOdo(x) => x.0@ == s && is_NavOdo(class, id, s),
        PacketRef::CfgOdo(x) => x.0@ == s && is_CfgOdo(class, id, s),
        PacketRef::MgaAck(x) => x.0@ == s && is_MgaAck(class, id, s),
        PacketRef::MgaGpsIono(x) => x.0@ == s && is_MgaGpsIono(class, id, s),
        PacketRef::MgaGpsEph(x) => x.0@ == s && is_MgaGpsEph(class, id, s),
        PacketRef::MgaGloEph(x) => x.0@ == s && is_MgaGloEph(class, id, s),
        PacketRef::AlpSrv(x) => x.0@ == s && is_AlpSrv(class, id, s),
        PacketRef::AckAck(x) => x.0@ == s && is_AckAck(class, id, s),
        PacketRef::AckNak(x) => x.0@ == s && is_AckNak(class, id, s),
        PacketRef::CfgItfm(x) => x.0@ == s && is_CfgItfm(class, id, s),
        PacketRef::CfgPrtI2c(x) => x.0@ == s && is_CfgPrtI2c(class, id, s),
        PacketRef::CfgPrtSpi(x) => x.0@ == s && is_CfgPrtSpi(class, id, s),
        PacketRef::CfgPrtUart(x) => x.0@ == s && is_CfgPrtUart(class, id, s),
        PacketRef::CfgNav5(x) => x.0@ == s && is_CfgNav5(class, id, s),
        PacketRef::CfgAnt(x) => x.0@ == s && is_CfgAnt(class, id, s),
        PacketRef::CfgTmode2(x) => x.0@ == s && is_CfgTmode2(class, id, s),
        PacketRef::CfgTmode3(x) => x.0@ == s && is_CfgTmode3(class, id, s),
        PacketRef::CfgTp5(x) => x.0@ == s && is_CfgTp5(class, id, s),
        PacketRef::InfError(x) => x.0@ == s && is_InfError(class, id, s),
        PacketRef::InfWarning(x) => x.0@ == s && is_InfWarning(class, id, s),
        PacketRef::InfNotice(x) => x.0@ == s && is_InfNotice(class, id, s),
        PacketRef::InfTest(x) => x.0@ == s && is_InfTest(class, id, s),
        PacketRef::InfDebug(x) => x.0@ == s && is_InfDebug(class, id, s),
        PacketRef::RxmRawx(x) => x.0@ == s && is_RxmRawx(class, id, s),
        PacketRef::TimTp(x) => x.0@ == s && is_TimTp(class, id, s),
        PacketRef::TimTm2(x) => x.0@ == s && is_TimTm2(class, id, s),
        PacketRef::MonVer(x) => x.0@ == s && is_MonVer(class, id, s),
        PacketRef::MonGnss(x) => x.0@ == s && is_MonGnss(class, id, s),
        PacketRef::MonHw(x) => x.0@ == s && is_MonHw(class, id, s),
        PacketRef::RxmRtcm(x) => x.0@ == s && is_RxmRtcm(class, id, s),
        PacketRef::EsfMeas(x) => x.0@ == s && is_EsfMeas(class, id, s),
        PacketRef::EsfIns(x) => x.0@ == s && is_EsfIns(class, id, s),
        PacketRef::HnrAtt(x) => x.0@ == s && is_HnrAtt(class, id, s),
        PacketRef::HnrIns(x) => x.0@ == s && is_HnrIns(class, id, s),
        PacketRef::HnrPvt(x) => x.0@ == s && is_HnrPvt(class, id, s),
        PacketRef::NavAtt(x) => x.0@ == s && is_NavAtt(class, id, s),
        PacketRef::NavClock(x) => x.0@ == s && is_NavClock(class, id, s),
        PacketRef::NavVelECEF(x) => x.0@ == s && is_NavVelECEF(class, id, s),
        PacketRef::MgaGpsEPH(x) => x.0@ == s && is_MgaGpsEPH(class, id, s),
        PacketRef::RxmSfrbx(x) => x.0@ == s && is_RxmSfrbx(class, id, s),
        PacketRef::EsfRaw(x) => x.0@ == s && is_EsfRaw(class, id, s),
        PacketRef::TimSvin(x) => x.0@ == s && is_TimSvin(class, id, s),
        PacketRef::SecUniqId(x) => x.0@ == s && is_SecUniqId(class, id, s),
        PacketRef::Unknown(u) => u.payload@ == s && u.class == class && u.msg_id == id && !known(class, id, s),
    }
}
pub open spec fn codes(p: PacketRef) -> (u8, u8) {
    match p {
        PacketRef::NavPosLlh(x) => (0x1u8, 0x2u8),
        PacketRef::NavStatus(x) => (0x1u8, 0x3u8),
        PacketRef::NavDop(x) => (0x1u8, 0x4u8),
        PacketRef::NavPvt(x) => (0x1u8, 0x7u8),
        PacketRef::NavSolution(x) => (0x1u8, 0x6u8),
        PacketRef::NavVelNed(x) => (0x1u8, 0x12u8),
        PacketRef::NavHpPosLlh(x) => (0x1u8, 0x14u8),
        PacketRef::NavHpPosEcef(x) => (0x1u8, 0x13u8),
        PacketRef::NavTimeUTC(x) => (0x1u8, 0x21u8),
        PacketRef::NavTimeLs(x) => (0x1u8, 0x26u8),
        PacketRef::NavSat(x) => (0x1u8, 0x35u8),
        PacketRef::NavEoe(x) => (0x1u8, 0x61u8),
        PacketRef::NavOdo(x) => (0x1u8, 0x9u8),
        PacketRef::CfgOdo(x) => (0x6u8, 0x1eu8),
        PacketRef::MgaAck(x) => (0x13u8, 0x60u8),
        PacketRef::MgaGpsIono(x) => (0x13u8, 0x0u8),
        PacketRef::MgaGpsEph(x) => (0x13u8, 0x0u8),
        PacketRef::MgaGloEph(x) => (0x13u8, 0x6u8),
        PacketRef::AlpSrv(x) => (0xbu8, 0x32u8),
        PacketRef::AckAck(x) => (0x5u8, 0x1u8),
        PacketRef::AckNak(x) => (0x5u8, 0x0u8),
        PacketRef::CfgItfm(x) => (0x6u8, 0x39u8),
        PacketRef::CfgPrtI2c(x) => (0x6u8, 0x0u8),
        PacketRef::CfgPrtSpi(x) => (0x6u8, 0x0u8),
        PacketRef::CfgPrtUart(x) => (0x6u8, 0x0u8),
        PacketRef::CfgNav5(x) => (0x6u8, 0x24u8),
        PacketRef::CfgAnt(x) => (0x6u8, 0x13u8),
        PacketRef::CfgTmode2(x) => (0x6u8, 0x3du8),
        PacketRef::CfgTmode3(x) => (0x6u8, 0x71u8),
        PacketRef::CfgTp5(x) => (0x6u8, 0x31u8),
        PacketRef::InfError(x) => (0x4u8, 0x0u8),
        PacketRef::InfWarning(x) => (0x4u8, 0x1u8),
        PacketRef::InfNotice(x) => (0x4u8, 0x2u8),
        PacketRef::InfTest(x) => (0x4u8, 0x3u8),
        PacketRef::InfDebug(x) => (0x4u8, 0x4u8),
        PacketRef::RxmRawx(x) => (0x2u8, 0x15u8),
        PacketRef::TimTp(x) => (0xdu8, 0x1u8),
        PacketRef::TimTm2(x) => (0xdu8, 0x3u8),
        PacketRef::MonVer(x) => (0xau8, 0x4u8),
        PacketRef::MonGnss(x) => (0xau8, 0x28u8),
        PacketRef::MonHw(x) => (0xau8, 0x9u8),
        PacketRef::RxmRtcm(x) => (0x2u8, 0x32u8),
        PacketRef::EsfMeas(x) => (0x10u8, 0x2u8),
        PacketRef::EsfIns(x) => (0x10u8, 0x15u8),
        PacketRef::HnrAtt(x) => (0x28u8, 0x1u8),
        PacketRef::HnrIns(x) => (0x28u8, 0x2u8),
        PacketRef::HnrPvt(x) => (0x28u8, 0x0u8),
        PacketRef::NavAtt(x) => (0x1u8, 0x5u8),
        PacketRef::NavClock(x) => (0x1u8, 0x22u8),
        PacketRef::NavVelECEF(x) => (0x1u8, 0x11u8),
        PacketRef::MgaGpsEPH(x) => (0x13u8, 0x0u8),
        PacketRef::RxmSfrbx(x) => (0x2u8, 0x13u8),
        PacketRef::EsfRaw(x) => (0x10u8, 0x3u8),
        PacketRef::TimSvin(x) => (0xdu8, 0x4u8),
        PacketRef::SecUniqId(x) => (0x27u8, 0x3u8),
        PacketRef::Unknown(u) => (u.class, u.msg_id),
    }
}
pub fn meta_NavPosLlh() { proof { assert(NavPosLlh::CLASS == 0x1); assert(NavPosLlh::ID == 0x2); assert(NavPosLlh::MAX_PAYLOAD_LEN == 28); } }
pub fn meta_NavVelNed() { proof { assert(NavVelNed::CLASS == 0x1); assert(NavVelNed::ID == 0x12); assert(NavVelNed::MAX_PAYLOAD_LEN == 36); } }
pub fn meta_NavHpPosLlh() { proof { assert(NavHpPosLlh::CLASS == 0x1); assert(NavHpPosLlh::ID == 0x14); assert(NavHpPosLlh::MAX_PAYLOAD_LEN == 36); } }
pub fn meta_NavHpPosEcef() { proof { assert(NavHpPosEcef::CLASS == 0x1); assert(NavHpPosEcef::ID == 0x13); assert(NavHpPosEcef::MAX_PAYLOAD_LEN == 28); } }
pub fn meta_NavPvt() { proof { assert(NavPvt::CLASS == 0x1); assert(NavPvt::ID == 0x7); assert(NavPvt::MAX_PAYLOAD_LEN == 92); } }
pub fn meta_NavStatus() { proof { assert(NavStatus::CLASS == 0x1); assert(NavStatus::ID == 0x3); assert(NavStatus::MAX_PAYLOAD_LEN == 16); } }
pub fn meta_NavDop() { proof { assert(NavDop::CLASS == 0x1); assert(NavDop::ID == 0x4); assert(NavDop::MAX_PAYLOAD_LEN == 18); } }
pub fn meta_NavEoe() { proof { assert(NavEoe::CLASS == 0x1); assert(NavEoe::ID == 0x61); assert(NavEoe::MAX_PAYLOAD_LEN == 4); } }
pub fn meta_NavSolution() { proof { assert(NavSolution::CLASS == 0x1); assert(NavSolution::ID == 0x6); assert(NavSolution::MAX_PAYLOAD_LEN == 52); } }
pub fn meta_NavSatSvInfo() { proof { assert(NavSatSvInfo::CLASS == 0x1); assert(NavSatSvInfo::ID == 0x35); assert(NavSatSvInfo::MAX_PAYLOAD_LEN == 12); } }
pub fn meta_NavSat() { proof { assert(NavSat::CLASS == 0x1); assert(NavSat::ID == 0x35); assert(NavSat::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_NavOdo() { proof { assert(NavOdo::CLASS == 0x1); assert(NavOdo::ID == 0x9); assert(NavOdo::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_NavResetOdo() { proof { assert(NavResetOdo::CLASS == 0x1); assert(NavResetOdo::ID == 0x10); assert(NavResetOdo::MAX_PAYLOAD_LEN == 0); } }
pub fn meta_CfgOdo() { proof { assert(CfgOdo::CLASS == 0x6); assert(CfgOdo::ID == 0x1e); assert(CfgOdo::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_CfgItfm() { proof { assert(CfgItfm::CLASS == 0x6); assert(CfgItfm::ID == 0x39); assert(CfgItfm::MAX_PAYLOAD_LEN == 8); } }
pub fn meta_CfgInf() { proof { assert(CfgInf::CLASS == 0x6); assert(CfgInf::ID == 0x2); assert(CfgInf::MAX_PAYLOAD_LEN == 10); } }
pub fn meta_InfError() { proof { assert(InfError::CLASS == 0x4); assert(InfError::ID == 0x0); assert(InfError::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_InfNotice() { proof { assert(InfNotice::CLASS == 0x4); assert(InfNotice::ID == 0x2); assert(InfNotice::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_InfTest() { proof { assert(InfTest::CLASS == 0x4); assert(InfTest::ID == 0x3); assert(InfTest::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_InfWarning() { proof { assert(InfWarning::CLASS == 0x4); assert(InfWarning::ID == 0x1); assert(InfWarning::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_InfDebug() { proof { assert(InfDebug::CLASS == 0x4); assert(InfDebug::ID == 0x4); assert(InfDebug::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_AidIni() { proof { assert(AidIni::CLASS == 0xb); assert(AidIni::ID == 0x1); assert(AidIni::MAX_PAYLOAD_LEN == 48); } }
pub fn meta_AlpSrv() { proof { assert(AlpSrv::CLASS == 0xb); assert(AlpSrv::ID == 0x32); assert(AlpSrv::MAX_PAYLOAD_LEN == 16); } }
pub fn meta_AckAck() { proof { assert(AckAck::CLASS == 0x5); assert(AckAck::ID == 0x1); assert(AckAck::MAX_PAYLOAD_LEN == 2); } }
pub fn meta_AckNak() { proof { assert(AckNak::CLASS == 0x5); assert(AckNak::ID == 0x0); assert(AckNak::MAX_PAYLOAD_LEN == 2); } }
pub fn meta_CfgRst() { proof { assert(CfgRst::CLASS == 0x6); assert(CfgRst::ID == 0x4); assert(CfgRst::MAX_PAYLOAD_LEN == 4); } }
pub fn meta_CfgAnt() { proof { assert(CfgAnt::CLASS == 0x6); assert(CfgAnt::ID == 0x13); assert(CfgAnt::MAX_PAYLOAD_LEN == 4); } }
pub fn meta_CfgTp5() { proof { assert(CfgTp5::CLASS == 0x6); assert(CfgTp5::ID == 0x31); assert(CfgTp5::MAX_PAYLOAD_LEN == 32); } }
pub fn meta_CfgTmode2() { proof { assert(CfgTmode2::CLASS == 0x6); assert(CfgTmode2::ID == 0x3d); assert(CfgTmode2::MAX_PAYLOAD_LEN == 28); } }
pub fn meta_TimSvin() { proof { assert(TimSvin::CLASS == 0xd); assert(TimSvin::ID == 0x4); assert(TimSvin::MAX_PAYLOAD_LEN == 28); } }
pub fn meta_NavTimeLs() { proof { assert(NavTimeLs::CLASS == 0x1); assert(NavTimeLs::ID == 0x26); assert(NavTimeLs::MAX_PAYLOAD_LEN == 24); } }
pub fn meta_CfgTmode3() { proof { assert(CfgTmode3::CLASS == 0x6); assert(CfgTmode3::ID == 0x71); assert(CfgTmode3::MAX_PAYLOAD_LEN == 40); } }
pub fn meta_CfgValSet() { proof { assert(CfgValSet::CLASS == 0x6); assert(CfgValSet::ID == 0x8a); assert(CfgValSet::MAX_PAYLOAD_LEN == 772); } }
pub fn meta_CfgPrtI2c() { proof { assert(CfgPrtI2c::CLASS == 0x6); assert(CfgPrtI2c::ID == 0x0); assert(CfgPrtI2c::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_CfgPrtUart() { proof { assert(CfgPrtUart::CLASS == 0x6); assert(CfgPrtUart::ID == 0x0); assert(CfgPrtUart::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_CfgPrtSpi() { proof { assert(CfgPrtSpi::CLASS == 0x6); assert(CfgPrtSpi::ID == 0x0); assert(CfgPrtSpi::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_NavTimeUTC() { proof { assert(NavTimeUTC::CLASS == 0x1); assert(NavTimeUTC::ID == 0x21); assert(NavTimeUTC::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_CfgRate() { proof { assert(CfgRate::CLASS == 0x6); assert(CfgRate::ID == 0x8); assert(CfgRate::MAX_PAYLOAD_LEN == 6); } }
pub fn meta_CfgMsgSinglePort() { proof { assert(CfgMsgSinglePort::CLASS == 0x6); assert(CfgMsgSinglePort::ID == 0x1); assert(CfgMsgSinglePort::MAX_PAYLOAD_LEN == 3); } }
pub fn meta_CfgMsgAllPorts() { proof { assert(CfgMsgAllPorts::CLASS == 0x6); assert(CfgMsgAllPorts::ID == 0x1); assert(CfgMsgAllPorts::MAX_PAYLOAD_LEN == 8); } }
pub fn meta_CfgNav5() { proof { assert(CfgNav5::CLASS == 0x6); assert(CfgNav5::ID == 0x24); assert(CfgNav5::MAX_PAYLOAD_LEN == 36); } }
pub fn meta_CfgNavX5() { proof { assert(CfgNavX5::CLASS == 0x6); assert(CfgNavX5::ID == 0x23); assert(CfgNavX5::MAX_PAYLOAD_LEN == 40); } }
pub fn meta_MgaAck() { proof { assert(MgaAck::CLASS == 0x13); assert(MgaAck::ID == 0x60); assert(MgaAck::MAX_PAYLOAD_LEN == 8); } }
pub fn meta_MgaGloEph() { proof { assert(MgaGloEph::CLASS == 0x13); assert(MgaGloEph::ID == 0x6); assert(MgaGloEph::MAX_PAYLOAD_LEN == 48); } }
pub fn meta_MgaGpsIono() { proof { assert(MgaGpsIono::CLASS == 0x13); assert(MgaGpsIono::ID == 0x0); assert(MgaGpsIono::MAX_PAYLOAD_LEN == 16); } }
pub fn meta_MgaGpsEph() { proof { assert(MgaGpsEph::CLASS == 0x13); assert(MgaGpsEph::ID == 0x0); assert(MgaGpsEph::MAX_PAYLOAD_LEN == 68); } }
pub fn meta_TimTp() { proof { assert(TimTp::CLASS == 0xd); assert(TimTp::ID == 0x1); assert(TimTp::MAX_PAYLOAD_LEN == 16); } }
pub fn meta_TimTm2() { proof { assert(TimTm2::CLASS == 0xd); assert(TimTm2::ID == 0x3); assert(TimTm2::MAX_PAYLOAD_LEN == 28); } }
pub fn meta_RxmRawx() { proof { assert(RxmRawx::CLASS == 0x2); assert(RxmRawx::ID == 0x15); assert(RxmRawx::MAX_PAYLOAD_LEN == 8176); } }
pub fn meta_MonHw() { proof { assert(MonHw::CLASS == 0xa); assert(MonHw::ID == 0x9); assert(MonHw::MAX_PAYLOAD_LEN == 60); } }
pub fn meta_MonGnss() { proof { assert(MonGnss::CLASS == 0xa); assert(MonGnss::ID == 0x28); assert(MonGnss::MAX_PAYLOAD_LEN == 8); } }
pub fn meta_MonVer() { proof { assert(MonVer::CLASS == 0xa); assert(MonVer::ID == 0x4); assert(MonVer::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_RxmRtcm() { proof { assert(RxmRtcm::CLASS == 0x2); assert(RxmRtcm::ID == 0x32); assert(RxmRtcm::MAX_PAYLOAD_LEN == 8); } }
pub fn meta_EsfMeas() { proof { assert(EsfMeas::CLASS == 0x10); assert(EsfMeas::ID == 0x2); assert(EsfMeas::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_EsfRaw() { proof { assert(EsfRaw::CLASS == 0x10); assert(EsfRaw::ID == 0x3); assert(EsfRaw::MAX_PAYLOAD_LEN == 1240); } }
pub fn meta_EsfIns() { proof { assert(EsfIns::CLASS == 0x10); assert(EsfIns::ID == 0x15); assert(EsfIns::MAX_PAYLOAD_LEN == 36); } }
pub fn meta_HnrAtt() { proof { assert(HnrAtt::CLASS == 0x28); assert(HnrAtt::ID == 0x1); assert(HnrAtt::MAX_PAYLOAD_LEN == 32); } }
pub fn meta_HnrIns() { proof { assert(HnrIns::CLASS == 0x28); assert(HnrIns::ID == 0x2); assert(HnrIns::MAX_PAYLOAD_LEN == 36); } }
pub fn meta_HnrPvt() { proof { assert(HnrPvt::CLASS == 0x28); assert(HnrPvt::ID == 0x0); assert(HnrPvt::MAX_PAYLOAD_LEN == 72); } }
pub fn meta_NavAtt() { proof { assert(NavAtt::CLASS == 0x1); assert(NavAtt::ID == 0x5); assert(NavAtt::MAX_PAYLOAD_LEN == 32); } }
pub fn meta_NavClock() { proof { assert(NavClock::CLASS == 0x1); assert(NavClock::ID == 0x22); assert(NavClock::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_RxmSfrbx() { proof { assert(RxmSfrbx::CLASS == 0x2); assert(RxmSfrbx::ID == 0x13); assert(RxmSfrbx::MAX_PAYLOAD_LEN == 72); } }
pub fn meta_NavVelECEF() { proof { assert(NavVelECEF::CLASS == 0x1); assert(NavVelECEF::ID == 0x11); assert(NavVelECEF::MAX_PAYLOAD_LEN == 20); } }
pub fn meta_MgaGpsEPH() { proof { assert(MgaGpsEPH::CLASS == 0x13); assert(MgaGpsEPH::ID == 0x0); assert(MgaGpsEPH::MAX_PAYLOAD_LEN == 68); } }
pub fn meta_RxmRawxInfo() { proof { assert(RxmRawxInfo::CLASS == 0x2); assert(RxmRawxInfo::ID == 0x15); assert(RxmRawxInfo::MAX_PAYLOAD_LEN == 32); } }
pub fn meta_SecUniqId() { proof { assert(SecUniqId::CLASS == 0x27); assert(SecUniqId::ID == 0x3); assert(SecUniqId::MAX_PAYLOAD_LEN == 9); } }
/// the report for a frame carries the class and id of that frame
pub fn codes_of_frame(class: u8, id: u8, payload: &[u8]) {
    let r = match_packet(class, id, payload);
    match r { Ok(p) => { let c = p.class_and_msg_id(); assert(c == (class, id)); }, Err(_) => { assert(false); } }
}
%source error
%take enum ParserError
%source ubx_packets
%take struct UbxUnknownPacketRef
%source exp
%take struct NavPosLlh
%take impl UbxPacketMeta for NavPosLlh
%only impl UbxPacketMeta for NavPosLlh = CLASS ID MAX_PAYLOAD_LEN
%take struct NavVelNed
%take impl UbxPacketMeta for NavVelNed
%only impl UbxPacketMeta for NavVelNed = CLASS ID MAX_PAYLOAD_LEN
%take struct NavHpPosLlh
%take impl UbxPacketMeta for NavHpPosLlh
%only impl UbxPacketMeta for NavHpPosLlh = CLASS ID MAX_PAYLOAD_LEN
%take struct NavHpPosEcef
%take impl UbxPacketMeta for NavHpPosEcef
%only impl UbxPacketMeta for NavHpPosEcef = CLASS ID MAX_PAYLOAD_LEN
%take struct NavPvt
%take impl UbxPacketMeta for NavPvt
%only impl UbxPacketMeta for NavPvt = CLASS ID MAX_PAYLOAD_LEN
%take struct NavStatus
%take impl UbxPacketMeta for NavStatus
%only impl UbxPacketMeta for NavStatus = CLASS ID MAX_PAYLOAD_LEN
%take struct NavDop
%take impl UbxPacketMeta for NavDop
%only impl UbxPacketMeta for NavDop = CLASS ID MAX_PAYLOAD_LEN
%take struct NavEoe
%take impl UbxPacketMeta for NavEoe
%only impl UbxPacketMeta for NavEoe = CLASS ID MAX_PAYLOAD_LEN
%take struct NavSolution
%take impl UbxPacketMeta for NavSolution
%only impl UbxPacketMeta for NavSolution = CLASS ID MAX_PAYLOAD_LEN
%take struct NavSatSvInfo
%take impl UbxPacketMeta for NavSatSvInfo
%only impl UbxPacketMeta for NavSatSvInfo = CLASS ID MAX_PAYLOAD_LEN
%take struct NavSat
%take impl UbxPacketMeta for NavSat
%only impl UbxPacketMeta for NavSat = CLASS ID MAX_PAYLOAD_LEN
%take struct NavOdo
%take impl UbxPacketMeta for NavOdo
%only impl UbxPacketMeta for NavOdo = CLASS ID MAX_PAYLOAD_LEN
%take struct NavResetOdo
%take impl UbxPacketMeta for NavResetOdo
%only impl UbxPacketMeta for NavResetOdo = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgOdo
%take impl UbxPacketMeta for CfgOdo
%only impl UbxPacketMeta for CfgOdo = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgItfm
%take impl UbxPacketMeta for CfgItfm
%only impl UbxPacketMeta for CfgItfm = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgInf
%take impl UbxPacketMeta for CfgInf
%only impl UbxPacketMeta for CfgInf = CLASS ID MAX_PAYLOAD_LEN
%take struct InfError
%take impl UbxPacketMeta for InfError
%only impl UbxPacketMeta for InfError = CLASS ID MAX_PAYLOAD_LEN
%take struct InfNotice
%take impl UbxPacketMeta for InfNotice
%only impl UbxPacketMeta for InfNotice = CLASS ID MAX_PAYLOAD_LEN
%take struct InfTest
%take impl UbxPacketMeta for InfTest
%only impl UbxPacketMeta for InfTest = CLASS ID MAX_PAYLOAD_LEN
%take struct InfWarning
%take impl UbxPacketMeta for InfWarning
%only impl UbxPacketMeta for InfWarning = CLASS ID MAX_PAYLOAD_LEN
%take struct InfDebug
%take impl UbxPacketMeta for InfDebug
%only impl UbxPacketMeta for InfDebug = CLASS ID MAX_PAYLOAD_LEN
%take struct AidIni
%take impl UbxPacketMeta for AidIni
%only impl UbxPacketMeta for AidIni = CLASS ID MAX_PAYLOAD_LEN
%take struct AlpSrv
%take impl UbxPacketMeta for AlpSrv
%only impl UbxPacketMeta for AlpSrv = CLASS ID MAX_PAYLOAD_LEN
%take struct AckAck
%take impl UbxPacketMeta for AckAck
%only impl UbxPacketMeta for AckAck = CLASS ID MAX_PAYLOAD_LEN
%take struct AckNak
%take impl UbxPacketMeta for AckNak
%only impl UbxPacketMeta for AckNak = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgRst
%take impl UbxPacketMeta for CfgRst
%only impl UbxPacketMeta for CfgRst = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgAnt
%take impl UbxPacketMeta for CfgAnt
%only impl UbxPacketMeta for CfgAnt = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTp5
%take impl UbxPacketMeta for CfgTp5
%only impl UbxPacketMeta for CfgTp5 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTmode2
%take impl UbxPacketMeta for CfgTmode2
%only impl UbxPacketMeta for CfgTmode2 = CLASS ID MAX_PAYLOAD_LEN
%take struct TimSvin
%take impl UbxPacketMeta for TimSvin
%only impl UbxPacketMeta for TimSvin = CLASS ID MAX_PAYLOAD_LEN
%take struct NavTimeLs
%take impl UbxPacketMeta for NavTimeLs
%only impl UbxPacketMeta for NavTimeLs = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTmode3
%take impl UbxPacketMeta for CfgTmode3
%only impl UbxPacketMeta for CfgTmode3 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgValSet
%take impl UbxPacketMeta for CfgValSet
%only impl UbxPacketMeta for CfgValSet = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtI2c
%take impl UbxPacketMeta for CfgPrtI2c
%only impl UbxPacketMeta for CfgPrtI2c = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtUart
%take impl UbxPacketMeta for CfgPrtUart
%only impl UbxPacketMeta for CfgPrtUart = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtSpi
%take impl UbxPacketMeta for CfgPrtSpi
%only impl UbxPacketMeta for CfgPrtSpi = CLASS ID MAX_PAYLOAD_LEN
%take struct NavTimeUTC
%take impl UbxPacketMeta for NavTimeUTC
%only impl UbxPacketMeta for NavTimeUTC = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgRate
%take impl UbxPacketMeta for CfgRate
%only impl UbxPacketMeta for CfgRate = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgMsgSinglePort
%take impl UbxPacketMeta for CfgMsgSinglePort
%only impl UbxPacketMeta for CfgMsgSinglePort = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgMsgAllPorts
%take impl UbxPacketMeta for CfgMsgAllPorts
%only impl UbxPacketMeta for CfgMsgAllPorts = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgNav5
%take impl UbxPacketMeta for CfgNav5
%only impl UbxPacketMeta for CfgNav5 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgNavX5
%take impl UbxPacketMeta for CfgNavX5
%only impl UbxPacketMeta for CfgNavX5 = CLASS ID MAX_PAYLOAD_LEN
%take struct MgaAck
%take impl UbxPacketMeta for MgaAck
%only impl UbxPacketMeta for MgaAck = CLASS ID MAX_PAYLOAD_LEN
%take struct MgaGloEph
%take impl UbxPacketMeta for MgaGloEph
%only impl UbxPacketMeta for MgaGloEph = CLASS ID MAX_PAYLOAD_LEN
%take struct MgaGpsIono
%take impl UbxPacketMeta for MgaGpsIono
%only impl UbxPacketMeta for MgaGpsIono = CLASS ID MAX_PAYLOAD_LEN
%take struct MgaGpsEph
%take impl UbxPacketMeta for MgaGpsEph
%only impl UbxPacketMeta for MgaGpsEph = CLASS ID MAX_PAYLOAD_LEN
%take struct TimTp
%take impl UbxPacketMeta for TimTp
%only impl UbxPacketMeta for TimTp = CLASS ID MAX_PAYLOAD_LEN
%take struct TimTm2
%take impl UbxPacketMeta for TimTm2
%only impl UbxPacketMeta for TimTm2 = CLASS ID MAX_PAYLOAD_LEN
%take struct RxmRawx
%take impl UbxPacketMeta for RxmRawx
%only impl UbxPacketMeta for RxmRawx = CLASS ID MAX_PAYLOAD_LEN
%take struct MonHw
%take impl UbxPacketMeta for MonHw
%only impl UbxPacketMeta for MonHw = CLASS ID MAX_PAYLOAD_LEN
%take struct MonGnss
%take impl UbxPacketMeta for MonGnss
%only impl UbxPacketMeta for MonGnss = CLASS ID MAX_PAYLOAD_LEN
%take struct MonVer
%take impl UbxPacketMeta for MonVer
%only impl UbxPacketMeta for MonVer = CLASS ID MAX_PAYLOAD_LEN
%take struct RxmRtcm
%take impl UbxPacketMeta for RxmRtcm
%only impl UbxPacketMeta for RxmRtcm = CLASS ID MAX_PAYLOAD_LEN
%take struct EsfMeas
%take impl UbxPacketMeta for EsfMeas
%only impl UbxPacketMeta for EsfMeas = CLASS ID MAX_PAYLOAD_LEN
%take struct EsfRaw
%take impl UbxPacketMeta for EsfRaw
%only impl UbxPacketMeta for EsfRaw = CLASS ID MAX_PAYLOAD_LEN
%take struct EsfIns
%take impl UbxPacketMeta for EsfIns
%only impl UbxPacketMeta for EsfIns = CLASS ID MAX_PAYLOAD_LEN
%take struct HnrAtt
%take impl UbxPacketMeta for HnrAtt
%only impl UbxPacketMeta for HnrAtt = CLASS ID MAX_PAYLOAD_LEN
%take struct HnrIns
%take impl UbxPacketMeta for HnrIns
%only impl UbxPacketMeta for HnrIns = CLASS ID MAX_PAYLOAD_LEN
%take struct HnrPvt
%take impl UbxPacketMeta for HnrPvt
%only impl UbxPacketMeta for HnrPvt = CLASS ID MAX_PAYLOAD_LEN
%take struct NavAtt
%take impl UbxPacketMeta for NavAtt
%only impl UbxPacketMeta for NavAtt = CLASS ID MAX_PAYLOAD_LEN
%take struct NavClock
%take impl UbxPacketMeta for NavClock
%only impl UbxPacketMeta for NavClock = CLASS ID MAX_PAYLOAD_LEN
%take struct RxmSfrbx
%take impl UbxPacketMeta for RxmSfrbx
%only impl UbxPacketMeta for RxmSfrbx = CLASS ID MAX_PAYLOAD_LEN
%take struct NavVelECEF
%take impl UbxPacketMeta for NavVelECEF
%only impl UbxPacketMeta for NavVelECEF = CLASS ID MAX_PAYLOAD_LEN
%take struct MgaGpsEPH
%take impl UbxPacketMeta for MgaGpsEPH
%only impl UbxPacketMeta for MgaGpsEPH = CLASS ID MAX_PAYLOAD_LEN
%take struct RxmRawxInfo
%take impl UbxPacketMeta for RxmRawxInfo
%only impl UbxPacketMeta for RxmRawxInfo = CLASS ID MAX_PAYLOAD_LEN
%take struct SecUniqId
%take impl UbxPacketMeta for SecUniqId
%only impl UbxPacketMeta for SecUniqId = CLASS ID MAX_PAYLOAD_LEN
%drop struct NavPosLlhRef
%drop struct NavStatusRef
%drop struct NavDopRef
%drop struct NavPvtRef
%drop struct NavSolutionRef
%drop struct NavVelNedRef
%drop struct NavHpPosLlhRef
%drop struct NavHpPosEcefRef
%drop struct NavTimeUTCRef
%drop struct NavTimeLsRef
%drop struct NavSatRef
%drop struct NavEoeRef
%drop struct NavOdoRef
%drop struct CfgOdoRef
%drop struct MgaAckRef
%drop struct MgaGpsIonoRef
%drop struct MgaGpsEphRef
%drop struct MgaGloEphRef
%drop struct AlpSrvRef
%drop struct AckAckRef
%drop struct AckNakRef
%drop struct CfgItfmRef
%drop struct CfgPrtI2cRef
%drop struct CfgPrtSpiRef
%drop struct CfgPrtUartRef
%drop struct CfgNav5Ref
%drop struct CfgAntRef
%drop struct CfgTmode2Ref
%drop struct CfgTmode3Ref
%drop struct CfgTp5Ref
%drop struct InfErrorRef
%drop struct InfWarningRef
%drop struct InfNoticeRef
%drop struct InfTestRef
%drop struct InfDebugRef
%drop struct RxmRawxRef
%drop struct TimTpRef
%drop struct TimTm2Ref
%drop struct MonVerRef
%drop struct MonGnssRef
%drop struct MonHwRef
%drop struct RxmRtcmRef
%drop struct EsfMeasRef
%drop struct EsfInsRef
%drop struct HnrAttRef
%drop struct HnrInsRef
%drop struct HnrPvtRef
%drop struct NavAttRef
%drop struct NavClockRef
%drop struct NavVelECEFRef
%drop struct MgaGpsEPHRef
%drop struct RxmSfrbxRef
%drop struct EsfRawRef
%drop struct TimSvinRef
%drop struct SecUniqIdRef
%take enum PacketRef
%take impl PacketRef
%take fn match_packet
%take fn max_u16
%take const MAX_PAYLOAD_LEN
%fn PacketRef::class_and_msg_id | ret=r
        ensures r == codes(*self),
%fn match_packet | ret=r
        ensures r is Ok, dispatched(class, msg_id, payload@, r->Ok_0),
%fn max_u16 | ret=r
        ensures r == if a < b { b } else { a },
%constfn MAX_PAYLOAD_LEN
        ensures r == 8176,
%gsubst
($a::CLASS, $b::ID) if ==> (c_, m_) if c_ == $a::CLASS && m_ == $b::ID &&
;;
const fn max_u16 ==> fn max_u16
