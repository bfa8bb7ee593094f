%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%open
%prelude
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
pub trait FrameFrom<X>: Sized { fn frame_from(x: X) -> Self; }
pub open spec fn CfgNav5DynModel_valid(x: u8) -> bool { x == 0 || x == 2 || x == 3 || x == 4 || x == 5 || x == 6 || x == 7 || x == 8 || x == 9 || x == 10 }
pub open spec fn CfgNav5FixMode_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
pub open spec fn CfgNav5UtcStandard_valid(x: u8) -> bool { x == 0 || x == 3 || x == 6 || x == 7 }
pub open spec fn OdoProfile_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 || x == 3 || x == 4 }
pub open spec fn I2cPortId_valid(x: u8) -> bool { x == 0 }
#[verifier::external_body] /*stub: flags*/ pub struct CfgNav5Params(u16);
pub uninterp spec fn CfgNav5Params_of(x: u16) -> CfgNav5Params; /*stub: flags*/
impl CfgNav5Params {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgNav5Params_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgNav5Params_code(e: CfgNav5Params) -> u16; /*stub: flags*/
impl CfgNav5Params {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == CfgNav5Params_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgNav5Params(e: CfgNav5Params)
    ensures #[trigger] CfgNav5Params_of(CfgNav5Params_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5DynModel(u8);
pub uninterp spec fn CfgNav5DynModel_of(x: u8) -> CfgNav5DynModel; /*stub: enums*/
impl CfgNav5DynModel {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5DynModel_valid(x), ensures r == CfgNav5DynModel_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5DynModel_valid(x), { unimplemented!() }
}
pub uninterp spec fn CfgNav5DynModel_code(e: CfgNav5DynModel) -> u8; /*stub: enums*/
impl CfgNav5DynModel {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgNav5DynModel_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_CfgNav5DynModel(e: CfgNav5DynModel)
    ensures CfgNav5DynModel_valid(CfgNav5DynModel_code(e)), #[trigger] CfgNav5DynModel_of(CfgNav5DynModel_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5FixMode(u8);
pub uninterp spec fn CfgNav5FixMode_of(x: u8) -> CfgNav5FixMode; /*stub: enums*/
impl CfgNav5FixMode {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5FixMode_valid(x), ensures r == CfgNav5FixMode_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5FixMode_valid(x), { unimplemented!() }
}
pub uninterp spec fn CfgNav5FixMode_code(e: CfgNav5FixMode) -> u8; /*stub: enums*/
impl CfgNav5FixMode {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgNav5FixMode_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_CfgNav5FixMode(e: CfgNav5FixMode)
    ensures CfgNav5FixMode_valid(CfgNav5FixMode_code(e)), #[trigger] CfgNav5FixMode_of(CfgNav5FixMode_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct CfgNav5UtcStandard(u8);
pub uninterp spec fn CfgNav5UtcStandard_of(x: u8) -> CfgNav5UtcStandard; /*stub: enums*/
impl CfgNav5UtcStandard {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgNav5UtcStandard_valid(x), ensures r == CfgNav5UtcStandard_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgNav5UtcStandard_valid(x), { unimplemented!() }
}
pub uninterp spec fn CfgNav5UtcStandard_code(e: CfgNav5UtcStandard) -> u8; /*stub: enums*/
impl CfgNav5UtcStandard {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgNav5UtcStandard_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_CfgNav5UtcStandard(e: CfgNav5UtcStandard)
    ensures CfgNav5UtcStandard_valid(CfgNav5UtcStandard_code(e)), #[trigger] CfgNav5UtcStandard_of(CfgNav5UtcStandard_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct OdoCogFilterFlags(u8);
pub uninterp spec fn OdoCogFilterFlags_of(x: u8) -> OdoCogFilterFlags; /*stub: flags*/
impl OdoCogFilterFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == OdoCogFilterFlags_of(x), { unimplemented!() }
}
pub uninterp spec fn OdoCogFilterFlags_code(e: OdoCogFilterFlags) -> u8; /*stub: flags*/
impl OdoCogFilterFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u8) ensures r == OdoCogFilterFlags_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_OdoCogFilterFlags(e: OdoCogFilterFlags)
    ensures #[trigger] OdoCogFilterFlags_of(OdoCogFilterFlags_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct OdoProfile(u8);
pub uninterp spec fn OdoProfile_of(x: u8) -> OdoProfile; /*stub: enums*/
impl OdoProfile {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires OdoProfile_valid(x), ensures r == OdoProfile_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == OdoProfile_valid(x), { unimplemented!() }
}
pub uninterp spec fn OdoProfile_code(e: OdoProfile) -> u8; /*stub: enums*/
impl OdoProfile {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == OdoProfile_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_OdoProfile(e: OdoProfile)
    ensures OdoProfile_valid(OdoProfile_code(e)), #[trigger] OdoProfile_of(OdoProfile_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct I2cPortId(u8);
pub uninterp spec fn I2cPortId_of(x: u8) -> I2cPortId; /*stub: enums*/
impl I2cPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires I2cPortId_valid(x), ensures r == I2cPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == I2cPortId_valid(x), { unimplemented!() }
}
pub uninterp spec fn I2cPortId_code(e: I2cPortId) -> u8; /*stub: enums*/
impl I2cPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == I2cPortId_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_I2cPortId(e: I2cPortId)
    ensures I2cPortId_valid(I2cPortId_code(e)), #[trigger] I2cPortId_of(I2cPortId_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn InProtoMask_code(e: InProtoMask) -> u16; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == InProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_InProtoMask(e: InProtoMask)
    ensures #[trigger] InProtoMask_of(InProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn OutProtoMask_code(e: OutProtoMask) -> u16; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == OutProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_OutProtoMask(e: OutProtoMask)
    ensures #[trigger] OutProtoMask_of(OutProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct CfgInfMask(u8);
pub uninterp spec fn CfgInfMask_of(x: u8) -> CfgInfMask; /*stub: flags*/
impl CfgInfMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgInfMask_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgInfMask_code(e: CfgInfMask) -> u8; /*stub: flags*/
impl CfgInfMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgInfMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgInfMask(e: CfgInfMask)
    ensures #[trigger] CfgInfMask_of(CfgInfMask_code(e)) == e,
{ }
/// payload of a CfgNav5 message with these field values
pub open spec fn enc_CfgNav5(b: CfgNav5Builder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(CfgNav5Params_code(b.mask))
    + ToLe::enc(CfgNav5DynModel_code(b.dyn_model))
    + ToLe::enc(CfgNav5FixMode_code(b.fix_mode))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var))
    + ToLe::enc(b.min_elev_degrees)
    + ToLe::enc(b.dr_limit)
    + ToLe::enc(sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop))
    + ToLe::enc(sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop))
    + ToLe::enc(b.pacc)
    + ToLe::enc(b.tacc)
    + ToLe::enc(sb_u8::<f32>(f32::div_spec(1.0f32, 0.01f32), b.static_hold_thresh))
    + ToLe::enc(b.dgps_time_out)
    + ToLe::enc(b.cno_thresh_num_svs)
    + ToLe::enc(b.cno_thresh)
    + b.reserved1@
    + ToLe::enc(b.static_hold_max_dist)
    + ToLe::enc(CfgNav5UtcStandard_code(b.utc_standard))
    + b.reserved2@
}
pub proof fn bytes_CfgNav5(b: CfgNav5Builder)
    ensures enc_CfgNav5(b).len() == 36,
        enc_CfgNav5(b)[0] == b0((CfgNav5Params_code(b.mask)) as int),
        enc_CfgNav5(b)[1] == b1((CfgNav5Params_code(b.mask)) as int),
        enc_CfgNav5(b)[2] == CfgNav5DynModel_code(b.dyn_model),
        enc_CfgNav5(b)[3] == CfgNav5FixMode_code(b.fix_mode),
        enc_CfgNav5(b)[4] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int, 0x80000000)),
        enc_CfgNav5(b)[5] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int, 0x80000000)),
        enc_CfgNav5(b)[6] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int, 0x80000000)),
        enc_CfgNav5(b)[7] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int, 0x80000000)),
        enc_CfgNav5(b)[8] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int),
        enc_CfgNav5(b)[9] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int),
        enc_CfgNav5(b)[10] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int),
        enc_CfgNav5(b)[11] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int),
        enc_CfgNav5(b)[12] == b0(us((b.min_elev_degrees) as int, 0x80)),
        enc_CfgNav5(b)[13] == b.dr_limit,
        enc_CfgNav5(b)[14] == b0((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop)) as int),
        enc_CfgNav5(b)[15] == b1((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop)) as int),
        enc_CfgNav5(b)[16] == b0((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop)) as int),
        enc_CfgNav5(b)[17] == b1((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop)) as int),
        enc_CfgNav5(b)[18] == b0((b.pacc) as int),
        enc_CfgNav5(b)[19] == b1((b.pacc) as int),
        enc_CfgNav5(b)[20] == b0((b.tacc) as int),
        enc_CfgNav5(b)[21] == b1((b.tacc) as int),
        enc_CfgNav5(b)[22] == sb_u8::<f32>(f32::div_spec(1.0f32, 0.01f32), b.static_hold_thresh),
        enc_CfgNav5(b)[23] == b.dgps_time_out,
        enc_CfgNav5(b)[24] == b.cno_thresh_num_svs,
        enc_CfgNav5(b)[25] == b.cno_thresh,
        enc_CfgNav5(b)[26] == b.reserved1@[0],
        enc_CfgNav5(b)[27] == b.reserved1@[1],
        enc_CfgNav5(b)[28] == b0((b.static_hold_max_dist) as int),
        enc_CfgNav5(b)[29] == b1((b.static_hold_max_dist) as int),
        enc_CfgNav5(b)[30] == CfgNav5UtcStandard_code(b.utc_standard),
        enc_CfgNav5(b)[31] == b.reserved2@[0],
        enc_CfgNav5(b)[32] == b.reserved2@[1],
        enc_CfgNav5(b)[33] == b.reserved2@[2],
        enc_CfgNav5(b)[34] == b.reserved2@[3],
        enc_CfgNav5(b)[35] == b.reserved2@[4],
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(CfgNav5Params_code(b.mask));
    assert(s1.len() == 2);
    let s2 = s1 + ToLe::enc(CfgNav5DynModel_code(b.dyn_model));
    assert(s2.len() == 3);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    let s3 = s2 + ToLe::enc(CfgNav5FixMode_code(b.fix_mode));
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    let s4 = s3 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt));
    assert(s4.len() == 8);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var));
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    let s6 = s5 + ToLe::enc(b.min_elev_degrees);
    assert(s6.len() == 13);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(b.dr_limit);
    assert(s7.len() == 14);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    let s8 = s7 + ToLe::enc(sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop));
    assert(s8.len() == 16);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    let s9 = s8 + ToLe::enc(sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop));
    assert(s9.len() == 18);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    let s10 = s9 + ToLe::enc(b.pacc);
    assert(s10.len() == 20);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    assert(s10[15] == s9[15]);
    assert(s10[16] == s9[16]);
    assert(s10[17] == s9[17]);
    let s11 = s10 + ToLe::enc(b.tacc);
    assert(s11.len() == 22);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    assert(s11[17] == s10[17]);
    assert(s11[18] == s10[18]);
    assert(s11[19] == s10[19]);
    let s12 = s11 + ToLe::enc(sb_u8::<f32>(f32::div_spec(1.0f32, 0.01f32), b.static_hold_thresh));
    assert(s12.len() == 23);
    assert(s12[0] == s11[0]);
    assert(s12[1] == s11[1]);
    assert(s12[2] == s11[2]);
    assert(s12[3] == s11[3]);
    assert(s12[4] == s11[4]);
    assert(s12[5] == s11[5]);
    assert(s12[6] == s11[6]);
    assert(s12[7] == s11[7]);
    assert(s12[8] == s11[8]);
    assert(s12[9] == s11[9]);
    assert(s12[10] == s11[10]);
    assert(s12[11] == s11[11]);
    assert(s12[12] == s11[12]);
    assert(s12[13] == s11[13]);
    assert(s12[14] == s11[14]);
    assert(s12[15] == s11[15]);
    assert(s12[16] == s11[16]);
    assert(s12[17] == s11[17]);
    assert(s12[18] == s11[18]);
    assert(s12[19] == s11[19]);
    assert(s12[20] == s11[20]);
    assert(s12[21] == s11[21]);
    let s13 = s12 + ToLe::enc(b.dgps_time_out);
    assert(s13.len() == 24);
    assert(s13[0] == s12[0]);
    assert(s13[1] == s12[1]);
    assert(s13[2] == s12[2]);
    assert(s13[3] == s12[3]);
    assert(s13[4] == s12[4]);
    assert(s13[5] == s12[5]);
    assert(s13[6] == s12[6]);
    assert(s13[7] == s12[7]);
    assert(s13[8] == s12[8]);
    assert(s13[9] == s12[9]);
    assert(s13[10] == s12[10]);
    assert(s13[11] == s12[11]);
    assert(s13[12] == s12[12]);
    assert(s13[13] == s12[13]);
    assert(s13[14] == s12[14]);
    assert(s13[15] == s12[15]);
    assert(s13[16] == s12[16]);
    assert(s13[17] == s12[17]);
    assert(s13[18] == s12[18]);
    assert(s13[19] == s12[19]);
    assert(s13[20] == s12[20]);
    assert(s13[21] == s12[21]);
    assert(s13[22] == s12[22]);
    let s14 = s13 + ToLe::enc(b.cno_thresh_num_svs);
    assert(s14.len() == 25);
    assert(s14[0] == s13[0]);
    assert(s14[1] == s13[1]);
    assert(s14[2] == s13[2]);
    assert(s14[3] == s13[3]);
    assert(s14[4] == s13[4]);
    assert(s14[5] == s13[5]);
    assert(s14[6] == s13[6]);
    assert(s14[7] == s13[7]);
    assert(s14[8] == s13[8]);
    assert(s14[9] == s13[9]);
    assert(s14[10] == s13[10]);
    assert(s14[11] == s13[11]);
    assert(s14[12] == s13[12]);
    assert(s14[13] == s13[13]);
    assert(s14[14] == s13[14]);
    assert(s14[15] == s13[15]);
    assert(s14[16] == s13[16]);
    assert(s14[17] == s13[17]);
    assert(s14[18] == s13[18]);
    assert(s14[19] == s13[19]);
    assert(s14[20] == s13[20]);
    assert(s14[21] == s13[21]);
    assert(s14[22] == s13[22]);
    assert(s14[23] == s13[23]);
    let s15 = s14 + ToLe::enc(b.cno_thresh);
    assert(s15.len() == 26);
    assert(s15[0] == s14[0]);
    assert(s15[1] == s14[1]);
    assert(s15[2] == s14[2]);
    assert(s15[3] == s14[3]);
    assert(s15[4] == s14[4]);
    assert(s15[5] == s14[5]);
    assert(s15[6] == s14[6]);
    assert(s15[7] == s14[7]);
    assert(s15[8] == s14[8]);
    assert(s15[9] == s14[9]);
    assert(s15[10] == s14[10]);
    assert(s15[11] == s14[11]);
    assert(s15[12] == s14[12]);
    assert(s15[13] == s14[13]);
    assert(s15[14] == s14[14]);
    assert(s15[15] == s14[15]);
    assert(s15[16] == s14[16]);
    assert(s15[17] == s14[17]);
    assert(s15[18] == s14[18]);
    assert(s15[19] == s14[19]);
    assert(s15[20] == s14[20]);
    assert(s15[21] == s14[21]);
    assert(s15[22] == s14[22]);
    assert(s15[23] == s14[23]);
    assert(s15[24] == s14[24]);
    let s16 = s15 + b.reserved1@;
    assert(s16.len() == 28);
    assert(s16[0] == s15[0]);
    assert(s16[1] == s15[1]);
    assert(s16[2] == s15[2]);
    assert(s16[3] == s15[3]);
    assert(s16[4] == s15[4]);
    assert(s16[5] == s15[5]);
    assert(s16[6] == s15[6]);
    assert(s16[7] == s15[7]);
    assert(s16[8] == s15[8]);
    assert(s16[9] == s15[9]);
    assert(s16[10] == s15[10]);
    assert(s16[11] == s15[11]);
    assert(s16[12] == s15[12]);
    assert(s16[13] == s15[13]);
    assert(s16[14] == s15[14]);
    assert(s16[15] == s15[15]);
    assert(s16[16] == s15[16]);
    assert(s16[17] == s15[17]);
    assert(s16[18] == s15[18]);
    assert(s16[19] == s15[19]);
    assert(s16[20] == s15[20]);
    assert(s16[21] == s15[21]);
    assert(s16[22] == s15[22]);
    assert(s16[23] == s15[23]);
    assert(s16[24] == s15[24]);
    assert(s16[25] == s15[25]);
    let s17 = s16 + ToLe::enc(b.static_hold_max_dist);
    assert(s17.len() == 30);
    assert(s17[0] == s16[0]);
    assert(s17[1] == s16[1]);
    assert(s17[2] == s16[2]);
    assert(s17[3] == s16[3]);
    assert(s17[4] == s16[4]);
    assert(s17[5] == s16[5]);
    assert(s17[6] == s16[6]);
    assert(s17[7] == s16[7]);
    assert(s17[8] == s16[8]);
    assert(s17[9] == s16[9]);
    assert(s17[10] == s16[10]);
    assert(s17[11] == s16[11]);
    assert(s17[12] == s16[12]);
    assert(s17[13] == s16[13]);
    assert(s17[14] == s16[14]);
    assert(s17[15] == s16[15]);
    assert(s17[16] == s16[16]);
    assert(s17[17] == s16[17]);
    assert(s17[18] == s16[18]);
    assert(s17[19] == s16[19]);
    assert(s17[20] == s16[20]);
    assert(s17[21] == s16[21]);
    assert(s17[22] == s16[22]);
    assert(s17[23] == s16[23]);
    assert(s17[24] == s16[24]);
    assert(s17[25] == s16[25]);
    assert(s17[26] == s16[26]);
    assert(s17[27] == s16[27]);
    let s18 = s17 + ToLe::enc(CfgNav5UtcStandard_code(b.utc_standard));
    assert(s18.len() == 31);
    assert(s18[0] == s17[0]);
    assert(s18[1] == s17[1]);
    assert(s18[2] == s17[2]);
    assert(s18[3] == s17[3]);
    assert(s18[4] == s17[4]);
    assert(s18[5] == s17[5]);
    assert(s18[6] == s17[6]);
    assert(s18[7] == s17[7]);
    assert(s18[8] == s17[8]);
    assert(s18[9] == s17[9]);
    assert(s18[10] == s17[10]);
    assert(s18[11] == s17[11]);
    assert(s18[12] == s17[12]);
    assert(s18[13] == s17[13]);
    assert(s18[14] == s17[14]);
    assert(s18[15] == s17[15]);
    assert(s18[16] == s17[16]);
    assert(s18[17] == s17[17]);
    assert(s18[18] == s17[18]);
    assert(s18[19] == s17[19]);
    assert(s18[20] == s17[20]);
    assert(s18[21] == s17[21]);
    assert(s18[22] == s17[22]);
    assert(s18[23] == s17[23]);
    assert(s18[24] == s17[24]);
    assert(s18[25] == s17[25]);
    assert(s18[26] == s17[26]);
    assert(s18[27] == s17[27]);
    assert(s18[28] == s17[28]);
    assert(s18[29] == s17[29]);
    let s19 = s18 + b.reserved2@;
    assert(s19.len() == 36);
    assert(s19[0] == s18[0]);
    assert(s19[1] == s18[1]);
    assert(s19[2] == s18[2]);
    assert(s19[3] == s18[3]);
    assert(s19[4] == s18[4]);
    assert(s19[5] == s18[5]);
    assert(s19[6] == s18[6]);
    assert(s19[7] == s18[7]);
    assert(s19[8] == s18[8]);
    assert(s19[9] == s18[9]);
    assert(s19[10] == s18[10]);
    assert(s19[11] == s18[11]);
    assert(s19[12] == s18[12]);
    assert(s19[13] == s18[13]);
    assert(s19[14] == s18[14]);
    assert(s19[15] == s18[15]);
    assert(s19[16] == s18[16]);
    assert(s19[17] == s18[17]);
    assert(s19[18] == s18[18]);
    assert(s19[19] == s18[19]);
    assert(s19[20] == s18[20]);
    assert(s19[21] == s18[21]);
    assert(s19[22] == s18[22]);
    assert(s19[23] == s18[23]);
    assert(s19[24] == s18[24]);
    assert(s19[25] == s18[25]);
    assert(s19[26] == s18[26]);
    assert(s19[27] == s18[27]);
    assert(s19[28] == s18[28]);
    assert(s19[29] == s18[29]);
    assert(s19[30] == s18[30]);
}
pub open spec fn wf_CfgNav5(s: Seq<u8>) -> bool { s.len() == 36 && CfgNav5DynModel_valid(s[2]) && CfgNav5FixMode_valid(s[3]) && CfgNav5UtcStandard_valid(s[30]) }
/// contract of CfgNav5Ref::mask
pub open spec fn get_CfgNav5_mask(s: Seq<u8>, r: CfgNav5Params) -> bool { r == CfgNav5Params_of((le2(s, 0)) as u16) }
/// contract of CfgNav5Ref::dyn_model
pub open spec fn get_CfgNav5_dyn_model(s: Seq<u8>, r: CfgNav5DynModel) -> bool { r == CfgNav5DynModel_of((s[2] as int) as u8) }
/// contract of CfgNav5Ref::fix_mode
pub open spec fn get_CfgNav5_fix_mode(s: Seq<u8>, r: CfgNav5FixMode) -> bool { r == CfgNav5FixMode_of((s[3] as int) as u8) }
/// contract of CfgNav5Ref::fixed_alt
pub open spec fn get_CfgNav5_fixed_alt(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 4), 0x80000000)), 0.01f64) }
/// contract of CfgNav5Ref::fixed_alt_var
pub open spec fn get_CfgNav5_fixed_alt_var(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 8)), 0.0001f64) }
/// contract of CfgNav5Ref::min_elev_degrees
pub open spec fn get_CfgNav5_min_elev_degrees(s: Seq<u8>, r: i8) -> bool { r == sg(s[12] as int, 0x80) }
/// contract of CfgNav5Ref::dr_limit
pub open spec fn get_CfgNav5_dr_limit(s: Seq<u8>, r: u8) -> bool { r == s[13] as int }
/// contract of CfgNav5Ref::pdop
pub open spec fn get_CfgNav5_pdop(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(le2(s, 14)), 0.1f32) }
/// contract of CfgNav5Ref::tdop
pub open spec fn get_CfgNav5_tdop(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(le2(s, 16)), 0.1f32) }
/// contract of CfgNav5Ref::pacc
pub open spec fn get_CfgNav5_pacc(s: Seq<u8>, r: u16) -> bool { r == le2(s, 18) }
/// contract of CfgNav5Ref::tacc
pub open spec fn get_CfgNav5_tacc(s: Seq<u8>, r: u16) -> bool { r == le2(s, 20) }
/// contract of CfgNav5Ref::static_hold_thresh
pub open spec fn get_CfgNav5_static_hold_thresh(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(s[22] as int), 0.01f32) }
/// contract of CfgNav5Ref::dgps_time_out
pub open spec fn get_CfgNav5_dgps_time_out(s: Seq<u8>, r: u8) -> bool { r == s[23] as int }
/// contract of CfgNav5Ref::cno_thresh_num_svs
pub open spec fn get_CfgNav5_cno_thresh_num_svs(s: Seq<u8>, r: u8) -> bool { r == s[24] as int }
/// contract of CfgNav5Ref::cno_thresh
pub open spec fn get_CfgNav5_cno_thresh(s: Seq<u8>, r: u8) -> bool { r == s[25] as int }
/// contract of CfgNav5Ref::reserved1
pub open spec fn get_CfgNav5_reserved1(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[26] && r@[1] == s[27] }
/// contract of CfgNav5Ref::static_hold_max_dist
pub open spec fn get_CfgNav5_static_hold_max_dist(s: Seq<u8>, r: u16) -> bool { r == le2(s, 28) }
/// contract of CfgNav5Ref::utc_standard
pub open spec fn get_CfgNav5_utc_standard(s: Seq<u8>, r: CfgNav5UtcStandard) -> bool { r == CfgNav5UtcStandard_of((s[30] as int) as u8) }
/// contract of CfgNav5Ref::reserved2
pub open spec fn get_CfgNav5_reserved2(s: Seq<u8>, r: [u8; 5]) -> bool { r@.len() == 5 && r@[0] == s[31] && r@[1] == s[32] && r@[2] == s[33] && r@[3] == s[34] && r@[4] == s[35] }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgNav5(b: CfgNav5Builder)
    ensures wf_CfgNav5(enc_CfgNav5(b)),
        (forall|r: CfgNav5Params| #[trigger] get_CfgNav5_mask(enc_CfgNav5(b), r) ==> r == b.mask),
        (forall|r: CfgNav5DynModel| #[trigger] get_CfgNav5_dyn_model(enc_CfgNav5(b), r) ==> r == b.dyn_model),
        (forall|r: CfgNav5FixMode| #[trigger] get_CfgNav5_fix_mode(enc_CfgNav5(b), r) ==> r == b.fix_mode),
        (forall|r: f64| #[trigger] get_CfgNav5_fixed_alt(enc_CfgNav5(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int), 0.01f64)),
        (forall|r: f64| #[trigger] get_CfgNav5_fixed_alt_var(enc_CfgNav5(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int), 0.0001f64)),
        (forall|r: i8| #[trigger] get_CfgNav5_min_elev_degrees(enc_CfgNav5(b), r) ==> r == b.min_elev_degrees),
        (forall|r: u8| #[trigger] get_CfgNav5_dr_limit(enc_CfgNav5(b), r) ==> r == b.dr_limit),
        (forall|r: f32| #[trigger] get_CfgNav5_pdop(enc_CfgNav5(b), r) ==> r == mul32(to32((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop)) as int), 0.1f32)),
        (forall|r: f32| #[trigger] get_CfgNav5_tdop(enc_CfgNav5(b), r) ==> r == mul32(to32((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop)) as int), 0.1f32)),
        (forall|r: u16| #[trigger] get_CfgNav5_pacc(enc_CfgNav5(b), r) ==> r == b.pacc),
        (forall|r: u16| #[trigger] get_CfgNav5_tacc(enc_CfgNav5(b), r) ==> r == b.tacc),
        (forall|r: f32| #[trigger] get_CfgNav5_static_hold_thresh(enc_CfgNav5(b), r) ==> r == mul32(to32((sb_u8::<f32>(f32::div_spec(1.0f32, 0.01f32), b.static_hold_thresh)) as int), 0.01f32)),
        (forall|r: u8| #[trigger] get_CfgNav5_dgps_time_out(enc_CfgNav5(b), r) ==> r == b.dgps_time_out),
        (forall|r: u8| #[trigger] get_CfgNav5_cno_thresh_num_svs(enc_CfgNav5(b), r) ==> r == b.cno_thresh_num_svs),
        (forall|r: u8| #[trigger] get_CfgNav5_cno_thresh(enc_CfgNav5(b), r) ==> r == b.cno_thresh),
        (forall|r: [u8; 2]| #[trigger] get_CfgNav5_reserved1(enc_CfgNav5(b), r) ==> r@ =~= b.reserved1@),
        (forall|r: u16| #[trigger] get_CfgNav5_static_hold_max_dist(enc_CfgNav5(b), r) ==> r == b.static_hold_max_dist),
        (forall|r: CfgNav5UtcStandard| #[trigger] get_CfgNav5_utc_standard(enc_CfgNav5(b), r) ==> r == b.utc_standard),
        (forall|r: [u8; 5]| #[trigger] get_CfgNav5_reserved2(enc_CfgNav5(b), r) ==> r@ =~= b.reserved2@),
{
    bytes_CfgNav5(b);
    code_CfgNav5Params(b.mask); code_CfgNav5DynModel(b.dyn_model); code_CfgNav5FixMode(b.fix_mode); code_CfgNav5UtcStandard(b.utc_standard); 
    lemma_b2((CfgNav5Params_code(b.mask)) as int); assert((le2(enc_CfgNav5(b), 0)) == CfgNav5Params_code(b.mask));
    assert((enc_CfgNav5(b)[2] as int) == CfgNav5DynModel_code(b.dyn_model));
    assert((enc_CfgNav5(b)[3] as int) == CfgNav5FixMode_code(b.fix_mode));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt)) as int, 0x80000000)); assert((sg(le4(enc_CfgNav5(b), 4), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 0.01f64), b.fixed_alt));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var)) as int); assert((le4(enc_CfgNav5(b), 8)) == sb_u32::<f64>(f64::div_spec(1.0f64, 0.0001f64), b.fixed_alt_var));
    lemma_b1(us((b.min_elev_degrees) as int, 0x80)); assert((sg(enc_CfgNav5(b)[12] as int, 0x80)) == b.min_elev_degrees);
    assert((enc_CfgNav5(b)[13] as int) == b.dr_limit);
    lemma_b2((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop)) as int); assert((le2(enc_CfgNav5(b), 14)) == sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.pdop));
    lemma_b2((sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop)) as int); assert((le2(enc_CfgNav5(b), 16)) == sb_u16::<f32>(f32::div_spec(1.0f32, 0.1f32), b.tdop));
    lemma_b2((b.pacc) as int); assert((le2(enc_CfgNav5(b), 18)) == b.pacc);
    lemma_b2((b.tacc) as int); assert((le2(enc_CfgNav5(b), 20)) == b.tacc);
    assert((enc_CfgNav5(b)[22] as int) == sb_u8::<f32>(f32::div_spec(1.0f32, 0.01f32), b.static_hold_thresh));
    assert((enc_CfgNav5(b)[23] as int) == b.dgps_time_out);
    assert((enc_CfgNav5(b)[24] as int) == b.cno_thresh_num_svs);
    assert((enc_CfgNav5(b)[25] as int) == b.cno_thresh);
    lemma_b2((b.static_hold_max_dist) as int); assert((le2(enc_CfgNav5(b), 28)) == b.static_hold_max_dist);
    assert((enc_CfgNav5(b)[30] as int) == CfgNav5UtcStandard_code(b.utc_standard));
}
/// payload of a CfgOdo message with these field values
pub open spec fn enc_CfgOdo(b: CfgOdoBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.version)
    + b.reserved@
    + ToLe::enc(OdoCogFilterFlags_code(b.flags))
    + ToLe::enc(OdoProfile_code(b.odo_cfg))
    + b.reserved2@
    + ToLe::enc(b.cog_max_speed)
    + ToLe::enc(b.cog_max_pos_acc)
    + b.reserved3@
    + ToLe::enc(b.vel_lp_gain)
    + ToLe::enc(b.cog_lp_gain)
    + b.reserved4@
}
pub proof fn bytes_CfgOdo(b: CfgOdoBuilder)
    ensures enc_CfgOdo(b).len() == 20,
        enc_CfgOdo(b)[0] == b.version,
        enc_CfgOdo(b)[1] == b.reserved@[0],
        enc_CfgOdo(b)[2] == b.reserved@[1],
        enc_CfgOdo(b)[3] == b.reserved@[2],
        enc_CfgOdo(b)[4] == OdoCogFilterFlags_code(b.flags),
        enc_CfgOdo(b)[5] == OdoProfile_code(b.odo_cfg),
        enc_CfgOdo(b)[6] == b.reserved2@[0],
        enc_CfgOdo(b)[7] == b.reserved2@[1],
        enc_CfgOdo(b)[8] == b.reserved2@[2],
        enc_CfgOdo(b)[9] == b.reserved2@[3],
        enc_CfgOdo(b)[10] == b.reserved2@[4],
        enc_CfgOdo(b)[11] == b.reserved2@[5],
        enc_CfgOdo(b)[12] == b.cog_max_speed,
        enc_CfgOdo(b)[13] == b.cog_max_pos_acc,
        enc_CfgOdo(b)[14] == b.reserved3@[0],
        enc_CfgOdo(b)[15] == b.reserved3@[1],
        enc_CfgOdo(b)[16] == b.vel_lp_gain,
        enc_CfgOdo(b)[17] == b.cog_lp_gain,
        enc_CfgOdo(b)[18] == b.reserved4@[0],
        enc_CfgOdo(b)[19] == b.reserved4@[1],
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.version);
    assert(s1.len() == 1);
    let s2 = s1 + b.reserved@;
    assert(s2.len() == 4);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(OdoCogFilterFlags_code(b.flags));
    assert(s3.len() == 5);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    assert(s3[3] == s2[3]);
    let s4 = s3 + ToLe::enc(OdoProfile_code(b.odo_cfg));
    assert(s4.len() == 6);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    assert(s4[4] == s3[4]);
    let s5 = s4 + b.reserved2@;
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    let s6 = s5 + ToLe::enc(b.cog_max_speed);
    assert(s6.len() == 13);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(b.cog_max_pos_acc);
    assert(s7.len() == 14);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    let s8 = s7 + b.reserved3@;
    assert(s8.len() == 16);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    let s9 = s8 + ToLe::enc(b.vel_lp_gain);
    assert(s9.len() == 17);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    let s10 = s9 + ToLe::enc(b.cog_lp_gain);
    assert(s10.len() == 18);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    assert(s10[15] == s9[15]);
    assert(s10[16] == s9[16]);
    let s11 = s10 + b.reserved4@;
    assert(s11.len() == 20);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    assert(s11[17] == s10[17]);
}
pub open spec fn wf_CfgOdo(s: Seq<u8>) -> bool { s.len() == 20 && OdoProfile_valid(s[5]) }
/// contract of CfgOdoRef::version
pub open spec fn get_CfgOdo_version(s: Seq<u8>, r: u8) -> bool { r == s[0] as int }
/// contract of CfgOdoRef::reserved
pub open spec fn get_CfgOdo_reserved(s: Seq<u8>, r: [u8; 3]) -> bool { r@.len() == 3 && r@[0] == s[1] && r@[1] == s[2] && r@[2] == s[3] }
/// contract of CfgOdoRef::flags
pub open spec fn get_CfgOdo_flags(s: Seq<u8>, r: OdoCogFilterFlags) -> bool { r == OdoCogFilterFlags_of((s[4] as int) as u8) }
/// contract of CfgOdoRef::odo_cfg
pub open spec fn get_CfgOdo_odo_cfg(s: Seq<u8>, r: OdoProfile) -> bool { r == OdoProfile_of((s[5] as int) as u8) }
/// contract of CfgOdoRef::reserved2
pub open spec fn get_CfgOdo_reserved2(s: Seq<u8>, r: [u8; 6]) -> bool { r@.len() == 6 && r@[0] == s[6] && r@[1] == s[7] && r@[2] == s[8] && r@[3] == s[9] && r@[4] == s[10] && r@[5] == s[11] }
/// contract of CfgOdoRef::cog_max_speed
pub open spec fn get_CfgOdo_cog_max_speed(s: Seq<u8>, r: u8) -> bool { r == s[12] as int }
/// contract of CfgOdoRef::cog_max_pos_acc
pub open spec fn get_CfgOdo_cog_max_pos_acc(s: Seq<u8>, r: u8) -> bool { r == s[13] as int }
/// contract of CfgOdoRef::reserved3
pub open spec fn get_CfgOdo_reserved3(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[14] && r@[1] == s[15] }
/// contract of CfgOdoRef::vel_lp_gain
pub open spec fn get_CfgOdo_vel_lp_gain(s: Seq<u8>, r: u8) -> bool { r == s[16] as int }
/// contract of CfgOdoRef::cog_lp_gain
pub open spec fn get_CfgOdo_cog_lp_gain(s: Seq<u8>, r: u8) -> bool { r == s[17] as int }
/// contract of CfgOdoRef::reserved4
pub open spec fn get_CfgOdo_reserved4(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[18] && r@[1] == s[19] }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgOdo(b: CfgOdoBuilder)
    ensures wf_CfgOdo(enc_CfgOdo(b)),
        (forall|r: u8| #[trigger] get_CfgOdo_version(enc_CfgOdo(b), r) ==> r == b.version),
        (forall|r: [u8; 3]| #[trigger] get_CfgOdo_reserved(enc_CfgOdo(b), r) ==> r@ =~= b.reserved@),
        (forall|r: OdoCogFilterFlags| #[trigger] get_CfgOdo_flags(enc_CfgOdo(b), r) ==> r == b.flags),
        (forall|r: OdoProfile| #[trigger] get_CfgOdo_odo_cfg(enc_CfgOdo(b), r) ==> r == b.odo_cfg),
        (forall|r: [u8; 6]| #[trigger] get_CfgOdo_reserved2(enc_CfgOdo(b), r) ==> r@ =~= b.reserved2@),
        (forall|r: u8| #[trigger] get_CfgOdo_cog_max_speed(enc_CfgOdo(b), r) ==> r == b.cog_max_speed),
        (forall|r: u8| #[trigger] get_CfgOdo_cog_max_pos_acc(enc_CfgOdo(b), r) ==> r == b.cog_max_pos_acc),
        (forall|r: [u8; 2]| #[trigger] get_CfgOdo_reserved3(enc_CfgOdo(b), r) ==> r@ =~= b.reserved3@),
        (forall|r: u8| #[trigger] get_CfgOdo_vel_lp_gain(enc_CfgOdo(b), r) ==> r == b.vel_lp_gain),
        (forall|r: u8| #[trigger] get_CfgOdo_cog_lp_gain(enc_CfgOdo(b), r) ==> r == b.cog_lp_gain),
        (forall|r: [u8; 2]| #[trigger] get_CfgOdo_reserved4(enc_CfgOdo(b), r) ==> r@ =~= b.reserved4@),
{
    bytes_CfgOdo(b);
    code_OdoCogFilterFlags(b.flags); code_OdoProfile(b.odo_cfg); 
    assert((enc_CfgOdo(b)[0] as int) == b.version);
    assert((enc_CfgOdo(b)[4] as int) == OdoCogFilterFlags_code(b.flags));
    assert((enc_CfgOdo(b)[5] as int) == OdoProfile_code(b.odo_cfg));
    assert((enc_CfgOdo(b)[12] as int) == b.cog_max_speed);
    assert((enc_CfgOdo(b)[13] as int) == b.cog_max_pos_acc);
    assert((enc_CfgOdo(b)[16] as int) == b.vel_lp_gain);
    assert((enc_CfgOdo(b)[17] as int) == b.cog_lp_gain);
}
/// payload of a CfgPrtI2c message with these field values
pub open spec fn enc_CfgPrtI2c(b: CfgPrtI2cBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(I2cPortId_code(b.portid))
    + ToLe::enc(b.reserved1)
    + ToLe::enc(b.tx_ready)
    + ToLe::enc(b.mode)
    + ToLe::enc(b.reserved2)
    + ToLe::enc(InProtoMask_code(b.in_proto_mask))
    + ToLe::enc(OutProtoMask_code(b.out_proto_mask))
    + ToLe::enc(b.flags)
    + ToLe::enc(b.reserved3)
}
pub proof fn bytes_CfgPrtI2c(b: CfgPrtI2cBuilder)
    ensures enc_CfgPrtI2c(b).len() == 20,
        enc_CfgPrtI2c(b)[0] == I2cPortId_code(b.portid),
        enc_CfgPrtI2c(b)[1] == b.reserved1,
        enc_CfgPrtI2c(b)[2] == b0((b.tx_ready) as int),
        enc_CfgPrtI2c(b)[3] == b1((b.tx_ready) as int),
        enc_CfgPrtI2c(b)[4] == b0((b.mode) as int),
        enc_CfgPrtI2c(b)[5] == b1((b.mode) as int),
        enc_CfgPrtI2c(b)[6] == b2((b.mode) as int),
        enc_CfgPrtI2c(b)[7] == b3((b.mode) as int),
        enc_CfgPrtI2c(b)[8] == b0((b.reserved2) as int),
        enc_CfgPrtI2c(b)[9] == b1((b.reserved2) as int),
        enc_CfgPrtI2c(b)[10] == b2((b.reserved2) as int),
        enc_CfgPrtI2c(b)[11] == b3((b.reserved2) as int),
        enc_CfgPrtI2c(b)[12] == b0((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtI2c(b)[13] == b1((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtI2c(b)[14] == b0((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtI2c(b)[15] == b1((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtI2c(b)[16] == b0((b.flags) as int),
        enc_CfgPrtI2c(b)[17] == b1((b.flags) as int),
        enc_CfgPrtI2c(b)[18] == b0((b.reserved3) as int),
        enc_CfgPrtI2c(b)[19] == b1((b.reserved3) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(I2cPortId_code(b.portid));
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.reserved1);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(b.tx_ready);
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(b.mode);
    assert(s4.len() == 8);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(b.reserved2);
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    let s6 = s5 + ToLe::enc(InProtoMask_code(b.in_proto_mask));
    assert(s6.len() == 14);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(OutProtoMask_code(b.out_proto_mask));
    assert(s7.len() == 16);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    assert(s7[13] == s6[13]);
    let s8 = s7 + ToLe::enc(b.flags);
    assert(s8.len() == 18);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    let s9 = s8 + ToLe::enc(b.reserved3);
    assert(s9.len() == 20);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
}
pub open spec fn wf_CfgPrtI2c(s: Seq<u8>) -> bool { s.len() == 20 && I2cPortId_valid(s[0]) }
/// contract of CfgPrtI2cRef::portid
pub open spec fn get_CfgPrtI2c_portid(s: Seq<u8>, r: I2cPortId) -> bool { r == I2cPortId_of((s[0] as int) as u8) }
/// contract of CfgPrtI2cRef::reserved1
pub open spec fn get_CfgPrtI2c_reserved1(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgPrtI2cRef::tx_ready
pub open spec fn get_CfgPrtI2c_tx_ready(s: Seq<u8>, r: u16) -> bool { r == le2(s, 2) }
/// contract of CfgPrtI2cRef::mode
pub open spec fn get_CfgPrtI2c_mode(s: Seq<u8>, r: u32) -> bool { r == le4(s, 4) }
/// contract of CfgPrtI2cRef::reserved2
pub open spec fn get_CfgPrtI2c_reserved2(s: Seq<u8>, r: u32) -> bool { r == le4(s, 8) }
/// contract of CfgPrtI2cRef::in_proto_mask
pub open spec fn get_CfgPrtI2c_in_proto_mask(s: Seq<u8>, r: InProtoMask) -> bool { r == InProtoMask_of((le2(s, 12)) as u16) }
/// contract of CfgPrtI2cRef::out_proto_mask
pub open spec fn get_CfgPrtI2c_out_proto_mask(s: Seq<u8>, r: OutProtoMask) -> bool { r == OutProtoMask_of((le2(s, 14)) as u16) }
/// contract of CfgPrtI2cRef::flags
pub open spec fn get_CfgPrtI2c_flags(s: Seq<u8>, r: u16) -> bool { r == le2(s, 16) }
/// contract of CfgPrtI2cRef::reserved3
pub open spec fn get_CfgPrtI2c_reserved3(s: Seq<u8>, r: u16) -> bool { r == le2(s, 18) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgPrtI2c(b: CfgPrtI2cBuilder)
    ensures wf_CfgPrtI2c(enc_CfgPrtI2c(b)),
        (forall|r: I2cPortId| #[trigger] get_CfgPrtI2c_portid(enc_CfgPrtI2c(b), r) ==> r == b.portid),
        (forall|r: u8| #[trigger] get_CfgPrtI2c_reserved1(enc_CfgPrtI2c(b), r) ==> r == b.reserved1),
        (forall|r: u16| #[trigger] get_CfgPrtI2c_tx_ready(enc_CfgPrtI2c(b), r) ==> r == b.tx_ready),
        (forall|r: u32| #[trigger] get_CfgPrtI2c_mode(enc_CfgPrtI2c(b), r) ==> r == b.mode),
        (forall|r: u32| #[trigger] get_CfgPrtI2c_reserved2(enc_CfgPrtI2c(b), r) ==> r == b.reserved2),
        (forall|r: InProtoMask| #[trigger] get_CfgPrtI2c_in_proto_mask(enc_CfgPrtI2c(b), r) ==> r == b.in_proto_mask),
        (forall|r: OutProtoMask| #[trigger] get_CfgPrtI2c_out_proto_mask(enc_CfgPrtI2c(b), r) ==> r == b.out_proto_mask),
        (forall|r: u16| #[trigger] get_CfgPrtI2c_flags(enc_CfgPrtI2c(b), r) ==> r == b.flags),
        (forall|r: u16| #[trigger] get_CfgPrtI2c_reserved3(enc_CfgPrtI2c(b), r) ==> r == b.reserved3),
{
    bytes_CfgPrtI2c(b);
    code_I2cPortId(b.portid); code_InProtoMask(b.in_proto_mask); code_OutProtoMask(b.out_proto_mask); 
    assert((enc_CfgPrtI2c(b)[0] as int) == I2cPortId_code(b.portid));
    assert((enc_CfgPrtI2c(b)[1] as int) == b.reserved1);
    lemma_b2((b.tx_ready) as int); assert((le2(enc_CfgPrtI2c(b), 2)) == b.tx_ready);
    lemma_b4((b.mode) as int); assert((le4(enc_CfgPrtI2c(b), 4)) == b.mode);
    lemma_b4((b.reserved2) as int); assert((le4(enc_CfgPrtI2c(b), 8)) == b.reserved2);
    lemma_b2((InProtoMask_code(b.in_proto_mask)) as int); assert((le2(enc_CfgPrtI2c(b), 12)) == InProtoMask_code(b.in_proto_mask));
    lemma_b2((OutProtoMask_code(b.out_proto_mask)) as int); assert((le2(enc_CfgPrtI2c(b), 14)) == OutProtoMask_code(b.out_proto_mask));
    lemma_b2((b.flags) as int); assert((le2(enc_CfgPrtI2c(b), 16)) == b.flags);
    lemma_b2((b.reserved3) as int); assert((le2(enc_CfgPrtI2c(b), 18)) == b.reserved3);
}
/// payload of a CfgInf message with these field values
pub open spec fn enc_CfgInf(b: CfgInfBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.protocol_id)
    + b.reserved@
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_0))
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_1))
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_2))
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_3))
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_4))
    + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_5))
}
pub proof fn bytes_CfgInf(b: CfgInfBuilder)
    ensures enc_CfgInf(b).len() == 10,
        enc_CfgInf(b)[0] == b.protocol_id,
        enc_CfgInf(b)[1] == b.reserved@[0],
        enc_CfgInf(b)[2] == b.reserved@[1],
        enc_CfgInf(b)[3] == b.reserved@[2],
        enc_CfgInf(b)[4] == CfgInfMask_code(b.inf_msg_mask_0),
        enc_CfgInf(b)[5] == CfgInfMask_code(b.inf_msg_mask_1),
        enc_CfgInf(b)[6] == CfgInfMask_code(b.inf_msg_mask_2),
        enc_CfgInf(b)[7] == CfgInfMask_code(b.inf_msg_mask_3),
        enc_CfgInf(b)[8] == CfgInfMask_code(b.inf_msg_mask_4),
        enc_CfgInf(b)[9] == CfgInfMask_code(b.inf_msg_mask_5),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.protocol_id);
    assert(s1.len() == 1);
    let s2 = s1 + b.reserved@;
    assert(s2.len() == 4);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_0));
    assert(s3.len() == 5);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    assert(s3[3] == s2[3]);
    let s4 = s3 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_1));
    assert(s4.len() == 6);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    assert(s4[4] == s3[4]);
    let s5 = s4 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_2));
    assert(s5.len() == 7);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    let s6 = s5 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_3));
    assert(s6.len() == 8);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    let s7 = s6 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_4));
    assert(s7.len() == 9);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    let s8 = s7 + ToLe::enc(CfgInfMask_code(b.inf_msg_mask_5));
    assert(s8.len() == 10);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
}
pub open spec fn wf_CfgInf(s: Seq<u8>) -> bool { s.len() == 10 }
/// contract of CfgInfRef::protocol_id
pub open spec fn get_CfgInf_protocol_id(s: Seq<u8>, r: u8) -> bool { r == s[0] as int }
/// contract of CfgInfRef::reserved
pub open spec fn get_CfgInf_reserved(s: Seq<u8>, r: [u8; 3]) -> bool { r@.len() == 3 && r@[0] == s[1] && r@[1] == s[2] && r@[2] == s[3] }
/// contract of CfgInfRef::inf_msg_mask_0
pub open spec fn get_CfgInf_inf_msg_mask_0(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[4] as int) as u8) }
/// contract of CfgInfRef::inf_msg_mask_1
pub open spec fn get_CfgInf_inf_msg_mask_1(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[5] as int) as u8) }
/// contract of CfgInfRef::inf_msg_mask_2
pub open spec fn get_CfgInf_inf_msg_mask_2(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[6] as int) as u8) }
/// contract of CfgInfRef::inf_msg_mask_3
pub open spec fn get_CfgInf_inf_msg_mask_3(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[7] as int) as u8) }
/// contract of CfgInfRef::inf_msg_mask_4
pub open spec fn get_CfgInf_inf_msg_mask_4(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[8] as int) as u8) }
/// contract of CfgInfRef::inf_msg_mask_5
pub open spec fn get_CfgInf_inf_msg_mask_5(s: Seq<u8>, r: CfgInfMask) -> bool { r == CfgInfMask_of((s[9] as int) as u8) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgInf(b: CfgInfBuilder)
    ensures wf_CfgInf(enc_CfgInf(b)),
        (forall|r: u8| #[trigger] get_CfgInf_protocol_id(enc_CfgInf(b), r) ==> r == b.protocol_id),
        (forall|r: [u8; 3]| #[trigger] get_CfgInf_reserved(enc_CfgInf(b), r) ==> r@ =~= b.reserved@),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_0(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_0),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_1(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_1),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_2(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_2),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_3(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_3),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_4(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_4),
        (forall|r: CfgInfMask| #[trigger] get_CfgInf_inf_msg_mask_5(enc_CfgInf(b), r) ==> r == b.inf_msg_mask_5),
{
    bytes_CfgInf(b);
    code_CfgInfMask(b.inf_msg_mask_0); code_CfgInfMask(b.inf_msg_mask_1); code_CfgInfMask(b.inf_msg_mask_2); code_CfgInfMask(b.inf_msg_mask_3); code_CfgInfMask(b.inf_msg_mask_4); code_CfgInfMask(b.inf_msg_mask_5); 
    assert((enc_CfgInf(b)[0] as int) == b.protocol_id);
    assert((enc_CfgInf(b)[4] as int) == CfgInfMask_code(b.inf_msg_mask_0));
    assert((enc_CfgInf(b)[5] as int) == CfgInfMask_code(b.inf_msg_mask_1));
    assert((enc_CfgInf(b)[6] as int) == CfgInfMask_code(b.inf_msg_mask_2));
    assert((enc_CfgInf(b)[7] as int) == CfgInfMask_code(b.inf_msg_mask_3));
    assert((enc_CfgInf(b)[8] as int) == CfgInfMask_code(b.inf_msg_mask_4));
    assert((enc_CfgInf(b)[9] as int) == CfgInfMask_code(b.inf_msg_mask_5));
}
/// payload of a CfgMsgAllPorts message with these field values
pub open spec fn enc_CfgMsgAllPorts(b: CfgMsgAllPortsBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.msg_class)
    + ToLe::enc(b.msg_id)
    + b.rates@
}
pub proof fn bytes_CfgMsgAllPorts(b: CfgMsgAllPortsBuilder)
    ensures enc_CfgMsgAllPorts(b).len() == 8,
        enc_CfgMsgAllPorts(b)[0] == b.msg_class,
        enc_CfgMsgAllPorts(b)[1] == b.msg_id,
        enc_CfgMsgAllPorts(b)[2] == b.rates@[0],
        enc_CfgMsgAllPorts(b)[3] == b.rates@[1],
        enc_CfgMsgAllPorts(b)[4] == b.rates@[2],
        enc_CfgMsgAllPorts(b)[5] == b.rates@[3],
        enc_CfgMsgAllPorts(b)[6] == b.rates@[4],
        enc_CfgMsgAllPorts(b)[7] == b.rates@[5],
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.msg_class);
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.msg_id);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + b.rates@;
    assert(s3.len() == 8);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
}
/// payload of a NavResetOdo message with these field values
pub open spec fn enc_NavResetOdo(b: NavResetOdoBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
}
pub proof fn bytes_NavResetOdo(b: NavResetOdoBuilder)
    ensures enc_NavResetOdo(b).len() == 0,
{
    let s0 = Seq::<u8>::empty();
}
%postlude
%source exp
%take struct CfgNav5
%take impl UbxPacketMeta for CfgNav5
%only impl UbxPacketMeta for CfgNav5 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgNav5Builder
%take impl CfgNav5Builder
%only impl CfgNav5Builder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgNav5Builder
%header impl UbxPacketCreator for CfgNav5Builder
impl CfgNav5Builder
%take impl From<CfgNav5Builder> for [u8;44usize]
%header impl From<CfgNav5Builder> for [u8;44usize]
impl FrameFrom<CfgNav5Builder> for [u8; 44]
%fn CfgNav5Builder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x24u8, enc_CfgNav5(self)),
%start CfgNav5Builder::into_packet_bytes
        proof { bytes_CfgNav5(self); }
%end CfgNav5Builder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x24u8, enc_CfgNav5(self))); }
%fn <From<CfgNav5Builder> for [u8;44usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x24u8, enc_CfgNav5(x)),
%fn <UbxPacketCreator for CfgNav5Builder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x24u8, enc_CfgNav5(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgNav5Builder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgNav5(self); lemma_frame(w0, 0x6u8, 0x24u8, enc_CfgNav5(self)); }
%end <UbxPacketCreator for CfgNav5Builder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x24u8, b0(36), b1(36)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgNav5(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgNav5(me) + seq![ck.0, ck.1]));
        }
%take struct CfgOdo
%take impl UbxPacketMeta for CfgOdo
%only impl UbxPacketMeta for CfgOdo = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgOdoBuilder
%take impl CfgOdoBuilder
%only impl CfgOdoBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgOdoBuilder
%header impl UbxPacketCreator for CfgOdoBuilder
impl CfgOdoBuilder
%take impl From<CfgOdoBuilder> for [u8;28usize]
%header impl From<CfgOdoBuilder> for [u8;28usize]
impl FrameFrom<CfgOdoBuilder> for [u8; 28]
%fn CfgOdoBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x1eu8, enc_CfgOdo(self)),
%start CfgOdoBuilder::into_packet_bytes
        proof { bytes_CfgOdo(self); }
%end CfgOdoBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x1eu8, enc_CfgOdo(self))); }
%fn <From<CfgOdoBuilder> for [u8;28usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x1eu8, enc_CfgOdo(x)),
%fn <UbxPacketCreator for CfgOdoBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x1eu8, enc_CfgOdo(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgOdoBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgOdo(self); lemma_frame(w0, 0x6u8, 0x1eu8, enc_CfgOdo(self)); }
%end <UbxPacketCreator for CfgOdoBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x1eu8, b0(20), b1(20)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgOdo(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgOdo(me) + seq![ck.0, ck.1]));
        }
%take struct CfgPrtI2c
%take impl UbxPacketMeta for CfgPrtI2c
%only impl UbxPacketMeta for CfgPrtI2c = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtI2cBuilder
%take impl CfgPrtI2cBuilder
%only impl CfgPrtI2cBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgPrtI2cBuilder
%header impl UbxPacketCreator for CfgPrtI2cBuilder
impl CfgPrtI2cBuilder
%take impl From<CfgPrtI2cBuilder> for [u8;28usize]
%header impl From<CfgPrtI2cBuilder> for [u8;28usize]
impl FrameFrom<CfgPrtI2cBuilder> for [u8; 28]
%fn CfgPrtI2cBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtI2c(self)),
%start CfgPrtI2cBuilder::into_packet_bytes
        proof { bytes_CfgPrtI2c(self); }
%end CfgPrtI2cBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x0u8, enc_CfgPrtI2c(self))); }
%fn <From<CfgPrtI2cBuilder> for [u8;28usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtI2c(x)),
%fn <UbxPacketCreator for CfgPrtI2cBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x0u8, enc_CfgPrtI2c(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgPrtI2cBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgPrtI2c(self); lemma_frame(w0, 0x6u8, 0x0u8, enc_CfgPrtI2c(self)); }
%end <UbxPacketCreator for CfgPrtI2cBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x0u8, b0(20), b1(20)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgPrtI2c(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgPrtI2c(me) + seq![ck.0, ck.1]));
        }
%take struct CfgInf
%take impl UbxPacketMeta for CfgInf
%only impl UbxPacketMeta for CfgInf = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgInfBuilder
%take impl CfgInfBuilder
%only impl CfgInfBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgInfBuilder
%header impl UbxPacketCreator for CfgInfBuilder
impl CfgInfBuilder
%take impl From<CfgInfBuilder> for [u8;18usize]
%header impl From<CfgInfBuilder> for [u8;18usize]
impl FrameFrom<CfgInfBuilder> for [u8; 18]
%fn CfgInfBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x2u8, enc_CfgInf(self)),
%start CfgInfBuilder::into_packet_bytes
        proof { bytes_CfgInf(self); }
%end CfgInfBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x2u8, enc_CfgInf(self))); }
%fn <From<CfgInfBuilder> for [u8;18usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x2u8, enc_CfgInf(x)),
%fn <UbxPacketCreator for CfgInfBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x2u8, enc_CfgInf(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgInfBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgInf(self); lemma_frame(w0, 0x6u8, 0x2u8, enc_CfgInf(self)); }
%end <UbxPacketCreator for CfgInfBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x2u8, b0(10), b1(10)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgInf(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgInf(me) + seq![ck.0, ck.1]));
        }
%take struct CfgMsgAllPorts
%take impl UbxPacketMeta for CfgMsgAllPorts
%only impl UbxPacketMeta for CfgMsgAllPorts = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgMsgAllPortsBuilder
%take impl CfgMsgAllPortsBuilder
%only impl CfgMsgAllPortsBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgMsgAllPortsBuilder
%header impl UbxPacketCreator for CfgMsgAllPortsBuilder
impl CfgMsgAllPortsBuilder
%take impl From<CfgMsgAllPortsBuilder> for [u8;16usize]
%header impl From<CfgMsgAllPortsBuilder> for [u8;16usize]
impl FrameFrom<CfgMsgAllPortsBuilder> for [u8; 16]
%fn CfgMsgAllPortsBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x1u8, enc_CfgMsgAllPorts(self)),
%start CfgMsgAllPortsBuilder::into_packet_bytes
        proof { bytes_CfgMsgAllPorts(self); }
%end CfgMsgAllPortsBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x1u8, enc_CfgMsgAllPorts(self))); }
%fn <From<CfgMsgAllPortsBuilder> for [u8;16usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x1u8, enc_CfgMsgAllPorts(x)),
%fn <UbxPacketCreator for CfgMsgAllPortsBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x1u8, enc_CfgMsgAllPorts(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgMsgAllPortsBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgMsgAllPorts(self); lemma_frame(w0, 0x6u8, 0x1u8, enc_CfgMsgAllPorts(self)); }
%end <UbxPacketCreator for CfgMsgAllPortsBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x1u8, b0(8), b1(8)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgMsgAllPorts(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgMsgAllPorts(me) + seq![ck.0, ck.1]));
        }
%take struct NavResetOdo
%take impl UbxPacketMeta for NavResetOdo
%only impl UbxPacketMeta for NavResetOdo = CLASS ID MAX_PAYLOAD_LEN
%take struct NavResetOdoBuilder
%take impl NavResetOdoBuilder
%only impl NavResetOdoBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for NavResetOdoBuilder
%header impl UbxPacketCreator for NavResetOdoBuilder
impl NavResetOdoBuilder
%take impl From<NavResetOdoBuilder> for [u8;8usize]
%header impl From<NavResetOdoBuilder> for [u8;8usize]
impl FrameFrom<NavResetOdoBuilder> for [u8; 8]
%fn NavResetOdoBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x1u8, 0x10u8, enc_NavResetOdo(self)),
%start NavResetOdoBuilder::into_packet_bytes
        proof { bytes_NavResetOdo(self); }
%end NavResetOdoBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x1u8, 0x10u8, enc_NavResetOdo(self))); }
%fn <From<NavResetOdoBuilder> for [u8;8usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x1u8, 0x10u8, enc_NavResetOdo(x)),
%fn <UbxPacketCreator for NavResetOdoBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x1u8, 0x10u8, enc_NavResetOdo(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for NavResetOdoBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_NavResetOdo(self); lemma_frame(w0, 0x1u8, 0x10u8, enc_NavResetOdo(self)); }
%end <UbxPacketCreator for NavResetOdoBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x1u8, 0x10u8, b0(0), b1(0)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_NavResetOdo(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_NavResetOdo(me) + seq![ck.0, ck.1]));
        }
