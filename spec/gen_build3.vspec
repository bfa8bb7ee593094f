%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%open
%prelude
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
pub trait FrameFrom<X>: Sized { fn frame_from(x: X) -> Self; }
pub open spec fn CfgTmode2TimeXferModes_valid(x: u8) -> bool { x == 0 || x == 1 || x == 2 }
pub open spec fn SpiPortId_valid(x: u8) -> bool { x == 4 }
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode3RcvrMode(u8);
pub uninterp spec fn CfgTmode3RcvrMode_of(x: u8) -> CfgTmode3RcvrMode; /*stub: flags*/
impl CfgTmode3RcvrMode {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgTmode3RcvrMode_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgTmode3RcvrMode_code(e: CfgTmode3RcvrMode) -> u8; /*stub: flags*/
impl CfgTmode3RcvrMode {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgTmode3RcvrMode_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgTmode3RcvrMode(e: CfgTmode3RcvrMode)
    ensures #[trigger] CfgTmode3RcvrMode_of(CfgTmode3RcvrMode_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode3Flags(u8);
pub uninterp spec fn CfgTmode3Flags_of(x: u8) -> CfgTmode3Flags; /*stub: flags*/
impl CfgTmode3Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == CfgTmode3Flags_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgTmode3Flags_code(e: CfgTmode3Flags) -> u8; /*stub: flags*/
impl CfgTmode3Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgTmode3Flags_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgTmode3Flags(e: CfgTmode3Flags)
    ensures #[trigger] CfgTmode3Flags_of(CfgTmode3Flags_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct CfgTmode2TimeXferModes(u8);
pub uninterp spec fn CfgTmode2TimeXferModes_of(x: u8) -> CfgTmode2TimeXferModes; /*stub: enums*/
impl CfgTmode2TimeXferModes {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgTmode2TimeXferModes_valid(x), ensures r == CfgTmode2TimeXferModes_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgTmode2TimeXferModes_valid(x), { unimplemented!() }
}
pub uninterp spec fn CfgTmode2TimeXferModes_code(e: CfgTmode2TimeXferModes) -> u8; /*stub: enums*/
impl CfgTmode2TimeXferModes {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgTmode2TimeXferModes_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_CfgTmode2TimeXferModes(e: CfgTmode2TimeXferModes)
    ensures CfgTmode2TimeXferModes_valid(CfgTmode2TimeXferModes_code(e)), #[trigger] CfgTmode2TimeXferModes_of(CfgTmode2TimeXferModes_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct CfgTmode2Flags(u16);
pub uninterp spec fn CfgTmode2Flags_of(x: u16) -> CfgTmode2Flags; /*stub: flags*/
impl CfgTmode2Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgTmode2Flags_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgTmode2Flags_code(e: CfgTmode2Flags) -> u16; /*stub: flags*/
impl CfgTmode2Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == CfgTmode2Flags_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgTmode2Flags(e: CfgTmode2Flags)
    ensures #[trigger] CfgTmode2Flags_of(CfgTmode2Flags_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct SpiPortId(u8);
pub uninterp spec fn SpiPortId_of(x: u8) -> SpiPortId; /*stub: enums*/
impl SpiPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires SpiPortId_valid(x), ensures r == SpiPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == SpiPortId_valid(x), { unimplemented!() }
}
pub uninterp spec fn SpiPortId_code(e: SpiPortId) -> u8; /*stub: enums*/
impl SpiPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == SpiPortId_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_SpiPortId(e: SpiPortId)
    ensures SpiPortId_valid(SpiPortId_code(e)), #[trigger] SpiPortId_of(SpiPortId_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn InProtoMask_code(e: InProtoMask) -> u16; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == InProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_InProtoMask(e: InProtoMask)
    ensures #[trigger] InProtoMask_of(InProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn OutProtoMask_code(e: OutProtoMask) -> u16; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == OutProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_OutProtoMask(e: OutProtoMask)
    ensures #[trigger] OutProtoMask_of(OutProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct AntFlags(u16);
pub uninterp spec fn AntFlags_of(x: u16) -> AntFlags; /*stub: flags*/
impl AntFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == AntFlags_of(x), { unimplemented!() }
}
pub uninterp spec fn AntFlags_code(e: AntFlags) -> u16; /*stub: flags*/
impl AntFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == AntFlags_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_AntFlags(e: AntFlags)
    ensures #[trigger] AntFlags_of(AntFlags_code(e)) == e,
{ }
/// payload of a CfgTmode3 message with these field values
pub open spec fn enc_CfgTmode3(b: CfgTmode3Builder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.version)
    + ToLe::enc(b.reserved1)
    + ToLe::enc(CfgTmode3RcvrMode_code(b.rcvr_mode))
    + ToLe::enc(CfgTmode3Flags_code(b.flags))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt))
    + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp))
    + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp))
    + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp))
    + ToLe::enc(b.reserved2)
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc))
    + ToLe::enc(b.sv_in_min_duration)
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit))
    + b.reserved3@
}
pub proof fn bytes_CfgTmode3(b: CfgTmode3Builder)
    ensures enc_CfgTmode3(b).len() == 40,
        enc_CfgTmode3(b)[0] == b.version,
        enc_CfgTmode3(b)[1] == b.reserved1,
        enc_CfgTmode3(b)[2] == CfgTmode3RcvrMode_code(b.rcvr_mode),
        enc_CfgTmode3(b)[3] == CfgTmode3Flags_code(b.flags),
        enc_CfgTmode3(b)[4] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode3(b)[5] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode3(b)[6] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode3(b)[7] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode3(b)[8] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode3(b)[9] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode3(b)[10] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode3(b)[11] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode3(b)[12] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode3(b)[13] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode3(b)[14] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode3(b)[15] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode3(b)[16] == b0(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp)) as int, 0x80)),
        enc_CfgTmode3(b)[17] == b0(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp)) as int, 0x80)),
        enc_CfgTmode3(b)[18] == b0(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp)) as int, 0x80)),
        enc_CfgTmode3(b)[19] == b.reserved2,
        enc_CfgTmode3(b)[20] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode3(b)[21] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode3(b)[22] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode3(b)[23] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode3(b)[24] == b0((b.sv_in_min_duration) as int),
        enc_CfgTmode3(b)[25] == b1((b.sv_in_min_duration) as int),
        enc_CfgTmode3(b)[26] == b2((b.sv_in_min_duration) as int),
        enc_CfgTmode3(b)[27] == b3((b.sv_in_min_duration) as int),
        enc_CfgTmode3(b)[28] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int),
        enc_CfgTmode3(b)[29] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int),
        enc_CfgTmode3(b)[30] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int),
        enc_CfgTmode3(b)[31] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int),
        enc_CfgTmode3(b)[32] == b.reserved3@[0],
        enc_CfgTmode3(b)[33] == b.reserved3@[1],
        enc_CfgTmode3(b)[34] == b.reserved3@[2],
        enc_CfgTmode3(b)[35] == b.reserved3@[3],
        enc_CfgTmode3(b)[36] == b.reserved3@[4],
        enc_CfgTmode3(b)[37] == b.reserved3@[5],
        enc_CfgTmode3(b)[38] == b.reserved3@[6],
        enc_CfgTmode3(b)[39] == b.reserved3@[7],
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.version);
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.reserved1);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(CfgTmode3RcvrMode_code(b.rcvr_mode));
    assert(s3.len() == 3);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(CfgTmode3Flags_code(b.flags));
    assert(s4.len() == 4);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    let s5 = s4 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat));
    assert(s5.len() == 8);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    let s6 = s5 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon));
    assert(s6.len() == 12);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    let s7 = s6 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt));
    assert(s7.len() == 16);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    let s8 = s7 + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp));
    assert(s8.len() == 17);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    let s9 = s8 + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp));
    assert(s9.len() == 18);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    let s10 = s9 + ToLe::enc(sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp));
    assert(s10.len() == 19);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    assert(s10[15] == s9[15]);
    assert(s10[16] == s9[16]);
    assert(s10[17] == s9[17]);
    let s11 = s10 + ToLe::enc(b.reserved2);
    assert(s11.len() == 20);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    assert(s11[17] == s10[17]);
    assert(s11[18] == s10[18]);
    let s12 = s11 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc));
    assert(s12.len() == 24);
    assert(s12[0] == s11[0]);
    assert(s12[1] == s11[1]);
    assert(s12[2] == s11[2]);
    assert(s12[3] == s11[3]);
    assert(s12[4] == s11[4]);
    assert(s12[5] == s11[5]);
    assert(s12[6] == s11[6]);
    assert(s12[7] == s11[7]);
    assert(s12[8] == s11[8]);
    assert(s12[9] == s11[9]);
    assert(s12[10] == s11[10]);
    assert(s12[11] == s11[11]);
    assert(s12[12] == s11[12]);
    assert(s12[13] == s11[13]);
    assert(s12[14] == s11[14]);
    assert(s12[15] == s11[15]);
    assert(s12[16] == s11[16]);
    assert(s12[17] == s11[17]);
    assert(s12[18] == s11[18]);
    assert(s12[19] == s11[19]);
    let s13 = s12 + ToLe::enc(b.sv_in_min_duration);
    assert(s13.len() == 28);
    assert(s13[0] == s12[0]);
    assert(s13[1] == s12[1]);
    assert(s13[2] == s12[2]);
    assert(s13[3] == s12[3]);
    assert(s13[4] == s12[4]);
    assert(s13[5] == s12[5]);
    assert(s13[6] == s12[6]);
    assert(s13[7] == s12[7]);
    assert(s13[8] == s12[8]);
    assert(s13[9] == s12[9]);
    assert(s13[10] == s12[10]);
    assert(s13[11] == s12[11]);
    assert(s13[12] == s12[12]);
    assert(s13[13] == s12[13]);
    assert(s13[14] == s12[14]);
    assert(s13[15] == s12[15]);
    assert(s13[16] == s12[16]);
    assert(s13[17] == s12[17]);
    assert(s13[18] == s12[18]);
    assert(s13[19] == s12[19]);
    assert(s13[20] == s12[20]);
    assert(s13[21] == s12[21]);
    assert(s13[22] == s12[22]);
    assert(s13[23] == s12[23]);
    let s14 = s13 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit));
    assert(s14.len() == 32);
    assert(s14[0] == s13[0]);
    assert(s14[1] == s13[1]);
    assert(s14[2] == s13[2]);
    assert(s14[3] == s13[3]);
    assert(s14[4] == s13[4]);
    assert(s14[5] == s13[5]);
    assert(s14[6] == s13[6]);
    assert(s14[7] == s13[7]);
    assert(s14[8] == s13[8]);
    assert(s14[9] == s13[9]);
    assert(s14[10] == s13[10]);
    assert(s14[11] == s13[11]);
    assert(s14[12] == s13[12]);
    assert(s14[13] == s13[13]);
    assert(s14[14] == s13[14]);
    assert(s14[15] == s13[15]);
    assert(s14[16] == s13[16]);
    assert(s14[17] == s13[17]);
    assert(s14[18] == s13[18]);
    assert(s14[19] == s13[19]);
    assert(s14[20] == s13[20]);
    assert(s14[21] == s13[21]);
    assert(s14[22] == s13[22]);
    assert(s14[23] == s13[23]);
    assert(s14[24] == s13[24]);
    assert(s14[25] == s13[25]);
    assert(s14[26] == s13[26]);
    assert(s14[27] == s13[27]);
    let s15 = s14 + b.reserved3@;
    assert(s15.len() == 40);
    assert(s15[0] == s14[0]);
    assert(s15[1] == s14[1]);
    assert(s15[2] == s14[2]);
    assert(s15[3] == s14[3]);
    assert(s15[4] == s14[4]);
    assert(s15[5] == s14[5]);
    assert(s15[6] == s14[6]);
    assert(s15[7] == s14[7]);
    assert(s15[8] == s14[8]);
    assert(s15[9] == s14[9]);
    assert(s15[10] == s14[10]);
    assert(s15[11] == s14[11]);
    assert(s15[12] == s14[12]);
    assert(s15[13] == s14[13]);
    assert(s15[14] == s14[14]);
    assert(s15[15] == s14[15]);
    assert(s15[16] == s14[16]);
    assert(s15[17] == s14[17]);
    assert(s15[18] == s14[18]);
    assert(s15[19] == s14[19]);
    assert(s15[20] == s14[20]);
    assert(s15[21] == s14[21]);
    assert(s15[22] == s14[22]);
    assert(s15[23] == s14[23]);
    assert(s15[24] == s14[24]);
    assert(s15[25] == s14[25]);
    assert(s15[26] == s14[26]);
    assert(s15[27] == s14[27]);
    assert(s15[28] == s14[28]);
    assert(s15[29] == s14[29]);
    assert(s15[30] == s14[30]);
    assert(s15[31] == s14[31]);
}
pub open spec fn wf_CfgTmode3(s: Seq<u8>) -> bool { s.len() == 40 }
/// contract of CfgTmode3Ref::version
pub open spec fn get_CfgTmode3_version(s: Seq<u8>, r: u8) -> bool { r == s[0] as int }
/// contract of CfgTmode3Ref::reserved1
pub open spec fn get_CfgTmode3_reserved1(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgTmode3Ref::rcvr_mode
pub open spec fn get_CfgTmode3_rcvr_mode(s: Seq<u8>, r: CfgTmode3RcvrMode) -> bool { r == CfgTmode3RcvrMode_of((s[2] as int) as u8) }
/// contract of CfgTmode3Ref::flags
pub open spec fn get_CfgTmode3_flags(s: Seq<u8>, r: CfgTmode3Flags) -> bool { r == CfgTmode3Flags_of((s[3] as int) as u8) }
/// contract of CfgTmode3Ref::ecef_x_or_lat
pub open spec fn get_CfgTmode3_ecef_x_or_lat(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 4), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode3Ref::ecef_y_or_lon
pub open spec fn get_CfgTmode3_ecef_y_or_lon(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 8), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode3Ref::ecef_z_or_alt
pub open spec fn get_CfgTmode3_ecef_z_or_alt(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 12), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode3Ref::ecef_x_or_lat_hp
pub open spec fn get_CfgTmode3_ecef_x_or_lat_hp(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(sg(s[16] as int, 0x80)), 1.0f32) }
/// contract of CfgTmode3Ref::ecef_y_or_lon_hp
pub open spec fn get_CfgTmode3_ecef_y_or_lon_hp(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(sg(s[17] as int, 0x80)), 1.0f32) }
/// contract of CfgTmode3Ref::ecef_z_or_alt_hp
pub open spec fn get_CfgTmode3_ecef_z_or_alt_hp(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(sg(s[18] as int, 0x80)), 1.0f32) }
/// contract of CfgTmode3Ref::reserved2
pub open spec fn get_CfgTmode3_reserved2(s: Seq<u8>, r: u8) -> bool { r == s[19] as int }
/// contract of CfgTmode3Ref::fixed_pos_acc
pub open spec fn get_CfgTmode3_fixed_pos_acc(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 20)), 1e-4f64) }
/// contract of CfgTmode3Ref::sv_in_min_duration
pub open spec fn get_CfgTmode3_sv_in_min_duration(s: Seq<u8>, r: u32) -> bool { r == le4(s, 24) }
/// contract of CfgTmode3Ref::sv_in_accur_limit
pub open spec fn get_CfgTmode3_sv_in_accur_limit(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 28)), 1e-4f64) }
/// contract of CfgTmode3Ref::reserved3
pub open spec fn get_CfgTmode3_reserved3(s: Seq<u8>, r: [u8; 8]) -> bool { r@.len() == 8 && r@[0] == s[32] && r@[1] == s[33] && r@[2] == s[34] && r@[3] == s[35] && r@[4] == s[36] && r@[5] == s[37] && r@[6] == s[38] && r@[7] == s[39] }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgTmode3(b: CfgTmode3Builder)
    ensures wf_CfgTmode3(enc_CfgTmode3(b)),
        (forall|r: u8| #[trigger] get_CfgTmode3_version(enc_CfgTmode3(b), r) ==> r == b.version),
        (forall|r: u8| #[trigger] get_CfgTmode3_reserved1(enc_CfgTmode3(b), r) ==> r == b.reserved1),
        (forall|r: CfgTmode3RcvrMode| #[trigger] get_CfgTmode3_rcvr_mode(enc_CfgTmode3(b), r) ==> r == b.rcvr_mode),
        (forall|r: CfgTmode3Flags| #[trigger] get_CfgTmode3_flags(enc_CfgTmode3(b), r) ==> r == b.flags),
        (forall|r: f64| #[trigger] get_CfgTmode3_ecef_x_or_lat(enc_CfgTmode3(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int), 1e-2f64)),
        (forall|r: f64| #[trigger] get_CfgTmode3_ecef_y_or_lon(enc_CfgTmode3(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int), 1e-2f64)),
        (forall|r: f64| #[trigger] get_CfgTmode3_ecef_z_or_alt(enc_CfgTmode3(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int), 1e-2f64)),
        (forall|r: f32| #[trigger] get_CfgTmode3_ecef_x_or_lat_hp(enc_CfgTmode3(b), r) ==> r == mul32(to32((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp)) as int), 1.0f32)),
        (forall|r: f32| #[trigger] get_CfgTmode3_ecef_y_or_lon_hp(enc_CfgTmode3(b), r) ==> r == mul32(to32((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp)) as int), 1.0f32)),
        (forall|r: f32| #[trigger] get_CfgTmode3_ecef_z_or_alt_hp(enc_CfgTmode3(b), r) ==> r == mul32(to32((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp)) as int), 1.0f32)),
        (forall|r: u8| #[trigger] get_CfgTmode3_reserved2(enc_CfgTmode3(b), r) ==> r == b.reserved2),
        (forall|r: f64| #[trigger] get_CfgTmode3_fixed_pos_acc(enc_CfgTmode3(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int), 1e-4f64)),
        (forall|r: u32| #[trigger] get_CfgTmode3_sv_in_min_duration(enc_CfgTmode3(b), r) ==> r == b.sv_in_min_duration),
        (forall|r: f64| #[trigger] get_CfgTmode3_sv_in_accur_limit(enc_CfgTmode3(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int), 1e-4f64)),
        (forall|r: [u8; 8]| #[trigger] get_CfgTmode3_reserved3(enc_CfgTmode3(b), r) ==> r@ =~= b.reserved3@),
{
    bytes_CfgTmode3(b);
    code_CfgTmode3RcvrMode(b.rcvr_mode); code_CfgTmode3Flags(b.flags); 
    assert((enc_CfgTmode3(b)[0] as int) == b.version);
    assert((enc_CfgTmode3(b)[1] as int) == b.reserved1);
    assert((enc_CfgTmode3(b)[2] as int) == CfgTmode3RcvrMode_code(b.rcvr_mode));
    assert((enc_CfgTmode3(b)[3] as int) == CfgTmode3Flags_code(b.flags));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode3(b), 4), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode3(b), 8), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode3(b), 12), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt));
    lemma_b1(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp)) as int, 0x80)); assert((sg(enc_CfgTmode3(b)[16] as int, 0x80)) == sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_x_or_lat_hp));
    lemma_b1(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp)) as int, 0x80)); assert((sg(enc_CfgTmode3(b)[17] as int, 0x80)) == sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_y_or_lon_hp));
    lemma_b1(us((sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp)) as int, 0x80)); assert((sg(enc_CfgTmode3(b)[18] as int, 0x80)) == sb_i8::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ecef_z_or_alt_hp));
    assert((enc_CfgTmode3(b)[19] as int) == b.reserved2);
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc)) as int); assert((le4(enc_CfgTmode3(b), 20)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.fixed_pos_acc));
    lemma_b4((b.sv_in_min_duration) as int); assert((le4(enc_CfgTmode3(b), 24)) == b.sv_in_min_duration);
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit)) as int); assert((le4(enc_CfgTmode3(b), 28)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1e-4f64), b.sv_in_accur_limit));
}
/// payload of a AidIni message with these field values
pub open spec fn enc_AidIni(b: AidIniBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.ecef_x_or_lat)
    + ToLe::enc(b.ecef_y_or_lon)
    + ToLe::enc(b.ecef_z_or_alt)
    + ToLe::enc(b.pos_accuracy)
    + ToLe::enc(b.time_cfg)
    + ToLe::enc(b.week_or_ym)
    + ToLe::enc(b.tow_or_hms)
    + ToLe::enc(b.tow_ns)
    + ToLe::enc(b.tm_accuracy_ms)
    + ToLe::enc(b.tm_accuracy_ns)
    + ToLe::enc(b.clk_drift_or_freq)
    + ToLe::enc(b.clk_drift_or_freq_accuracy)
    + ToLe::enc(b.flags)
}
pub proof fn bytes_AidIni(b: AidIniBuilder)
    ensures enc_AidIni(b).len() == 48,
        enc_AidIni(b)[0] == b0(us((b.ecef_x_or_lat) as int, 0x80000000)),
        enc_AidIni(b)[1] == b1(us((b.ecef_x_or_lat) as int, 0x80000000)),
        enc_AidIni(b)[2] == b2(us((b.ecef_x_or_lat) as int, 0x80000000)),
        enc_AidIni(b)[3] == b3(us((b.ecef_x_or_lat) as int, 0x80000000)),
        enc_AidIni(b)[4] == b0(us((b.ecef_y_or_lon) as int, 0x80000000)),
        enc_AidIni(b)[5] == b1(us((b.ecef_y_or_lon) as int, 0x80000000)),
        enc_AidIni(b)[6] == b2(us((b.ecef_y_or_lon) as int, 0x80000000)),
        enc_AidIni(b)[7] == b3(us((b.ecef_y_or_lon) as int, 0x80000000)),
        enc_AidIni(b)[8] == b0(us((b.ecef_z_or_alt) as int, 0x80000000)),
        enc_AidIni(b)[9] == b1(us((b.ecef_z_or_alt) as int, 0x80000000)),
        enc_AidIni(b)[10] == b2(us((b.ecef_z_or_alt) as int, 0x80000000)),
        enc_AidIni(b)[11] == b3(us((b.ecef_z_or_alt) as int, 0x80000000)),
        enc_AidIni(b)[12] == b0((b.pos_accuracy) as int),
        enc_AidIni(b)[13] == b1((b.pos_accuracy) as int),
        enc_AidIni(b)[14] == b2((b.pos_accuracy) as int),
        enc_AidIni(b)[15] == b3((b.pos_accuracy) as int),
        enc_AidIni(b)[16] == b0((b.time_cfg) as int),
        enc_AidIni(b)[17] == b1((b.time_cfg) as int),
        enc_AidIni(b)[18] == b0((b.week_or_ym) as int),
        enc_AidIni(b)[19] == b1((b.week_or_ym) as int),
        enc_AidIni(b)[20] == b0((b.tow_or_hms) as int),
        enc_AidIni(b)[21] == b1((b.tow_or_hms) as int),
        enc_AidIni(b)[22] == b2((b.tow_or_hms) as int),
        enc_AidIni(b)[23] == b3((b.tow_or_hms) as int),
        enc_AidIni(b)[24] == b0(us((b.tow_ns) as int, 0x80000000)),
        enc_AidIni(b)[25] == b1(us((b.tow_ns) as int, 0x80000000)),
        enc_AidIni(b)[26] == b2(us((b.tow_ns) as int, 0x80000000)),
        enc_AidIni(b)[27] == b3(us((b.tow_ns) as int, 0x80000000)),
        enc_AidIni(b)[28] == b0((b.tm_accuracy_ms) as int),
        enc_AidIni(b)[29] == b1((b.tm_accuracy_ms) as int),
        enc_AidIni(b)[30] == b2((b.tm_accuracy_ms) as int),
        enc_AidIni(b)[31] == b3((b.tm_accuracy_ms) as int),
        enc_AidIni(b)[32] == b0((b.tm_accuracy_ns) as int),
        enc_AidIni(b)[33] == b1((b.tm_accuracy_ns) as int),
        enc_AidIni(b)[34] == b2((b.tm_accuracy_ns) as int),
        enc_AidIni(b)[35] == b3((b.tm_accuracy_ns) as int),
        enc_AidIni(b)[36] == b0(us((b.clk_drift_or_freq) as int, 0x80000000)),
        enc_AidIni(b)[37] == b1(us((b.clk_drift_or_freq) as int, 0x80000000)),
        enc_AidIni(b)[38] == b2(us((b.clk_drift_or_freq) as int, 0x80000000)),
        enc_AidIni(b)[39] == b3(us((b.clk_drift_or_freq) as int, 0x80000000)),
        enc_AidIni(b)[40] == b0((b.clk_drift_or_freq_accuracy) as int),
        enc_AidIni(b)[41] == b1((b.clk_drift_or_freq_accuracy) as int),
        enc_AidIni(b)[42] == b2((b.clk_drift_or_freq_accuracy) as int),
        enc_AidIni(b)[43] == b3((b.clk_drift_or_freq_accuracy) as int),
        enc_AidIni(b)[44] == b0((b.flags) as int),
        enc_AidIni(b)[45] == b1((b.flags) as int),
        enc_AidIni(b)[46] == b2((b.flags) as int),
        enc_AidIni(b)[47] == b3((b.flags) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.ecef_x_or_lat);
    assert(s1.len() == 4);
    let s2 = s1 + ToLe::enc(b.ecef_y_or_lon);
    assert(s2.len() == 8);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    assert(s2[2] == s1[2]);
    assert(s2[3] == s1[3]);
    let s3 = s2 + ToLe::enc(b.ecef_z_or_alt);
    assert(s3.len() == 12);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    assert(s3[3] == s2[3]);
    assert(s3[4] == s2[4]);
    assert(s3[5] == s2[5]);
    assert(s3[6] == s2[6]);
    assert(s3[7] == s2[7]);
    let s4 = s3 + ToLe::enc(b.pos_accuracy);
    assert(s4.len() == 16);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    assert(s4[4] == s3[4]);
    assert(s4[5] == s3[5]);
    assert(s4[6] == s3[6]);
    assert(s4[7] == s3[7]);
    assert(s4[8] == s3[8]);
    assert(s4[9] == s3[9]);
    assert(s4[10] == s3[10]);
    assert(s4[11] == s3[11]);
    let s5 = s4 + ToLe::enc(b.time_cfg);
    assert(s5.len() == 18);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    assert(s5[8] == s4[8]);
    assert(s5[9] == s4[9]);
    assert(s5[10] == s4[10]);
    assert(s5[11] == s4[11]);
    assert(s5[12] == s4[12]);
    assert(s5[13] == s4[13]);
    assert(s5[14] == s4[14]);
    assert(s5[15] == s4[15]);
    let s6 = s5 + ToLe::enc(b.week_or_ym);
    assert(s6.len() == 20);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    assert(s6[12] == s5[12]);
    assert(s6[13] == s5[13]);
    assert(s6[14] == s5[14]);
    assert(s6[15] == s5[15]);
    assert(s6[16] == s5[16]);
    assert(s6[17] == s5[17]);
    let s7 = s6 + ToLe::enc(b.tow_or_hms);
    assert(s7.len() == 24);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    assert(s7[13] == s6[13]);
    assert(s7[14] == s6[14]);
    assert(s7[15] == s6[15]);
    assert(s7[16] == s6[16]);
    assert(s7[17] == s6[17]);
    assert(s7[18] == s6[18]);
    assert(s7[19] == s6[19]);
    let s8 = s7 + ToLe::enc(b.tow_ns);
    assert(s8.len() == 28);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    assert(s8[16] == s7[16]);
    assert(s8[17] == s7[17]);
    assert(s8[18] == s7[18]);
    assert(s8[19] == s7[19]);
    assert(s8[20] == s7[20]);
    assert(s8[21] == s7[21]);
    assert(s8[22] == s7[22]);
    assert(s8[23] == s7[23]);
    let s9 = s8 + ToLe::enc(b.tm_accuracy_ms);
    assert(s9.len() == 32);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
    assert(s9[18] == s8[18]);
    assert(s9[19] == s8[19]);
    assert(s9[20] == s8[20]);
    assert(s9[21] == s8[21]);
    assert(s9[22] == s8[22]);
    assert(s9[23] == s8[23]);
    assert(s9[24] == s8[24]);
    assert(s9[25] == s8[25]);
    assert(s9[26] == s8[26]);
    assert(s9[27] == s8[27]);
    let s10 = s9 + ToLe::enc(b.tm_accuracy_ns);
    assert(s10.len() == 36);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    assert(s10[15] == s9[15]);
    assert(s10[16] == s9[16]);
    assert(s10[17] == s9[17]);
    assert(s10[18] == s9[18]);
    assert(s10[19] == s9[19]);
    assert(s10[20] == s9[20]);
    assert(s10[21] == s9[21]);
    assert(s10[22] == s9[22]);
    assert(s10[23] == s9[23]);
    assert(s10[24] == s9[24]);
    assert(s10[25] == s9[25]);
    assert(s10[26] == s9[26]);
    assert(s10[27] == s9[27]);
    assert(s10[28] == s9[28]);
    assert(s10[29] == s9[29]);
    assert(s10[30] == s9[30]);
    assert(s10[31] == s9[31]);
    let s11 = s10 + ToLe::enc(b.clk_drift_or_freq);
    assert(s11.len() == 40);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    assert(s11[17] == s10[17]);
    assert(s11[18] == s10[18]);
    assert(s11[19] == s10[19]);
    assert(s11[20] == s10[20]);
    assert(s11[21] == s10[21]);
    assert(s11[22] == s10[22]);
    assert(s11[23] == s10[23]);
    assert(s11[24] == s10[24]);
    assert(s11[25] == s10[25]);
    assert(s11[26] == s10[26]);
    assert(s11[27] == s10[27]);
    assert(s11[28] == s10[28]);
    assert(s11[29] == s10[29]);
    assert(s11[30] == s10[30]);
    assert(s11[31] == s10[31]);
    assert(s11[32] == s10[32]);
    assert(s11[33] == s10[33]);
    assert(s11[34] == s10[34]);
    assert(s11[35] == s10[35]);
    let s12 = s11 + ToLe::enc(b.clk_drift_or_freq_accuracy);
    assert(s12.len() == 44);
    assert(s12[0] == s11[0]);
    assert(s12[1] == s11[1]);
    assert(s12[2] == s11[2]);
    assert(s12[3] == s11[3]);
    assert(s12[4] == s11[4]);
    assert(s12[5] == s11[5]);
    assert(s12[6] == s11[6]);
    assert(s12[7] == s11[7]);
    assert(s12[8] == s11[8]);
    assert(s12[9] == s11[9]);
    assert(s12[10] == s11[10]);
    assert(s12[11] == s11[11]);
    assert(s12[12] == s11[12]);
    assert(s12[13] == s11[13]);
    assert(s12[14] == s11[14]);
    assert(s12[15] == s11[15]);
    assert(s12[16] == s11[16]);
    assert(s12[17] == s11[17]);
    assert(s12[18] == s11[18]);
    assert(s12[19] == s11[19]);
    assert(s12[20] == s11[20]);
    assert(s12[21] == s11[21]);
    assert(s12[22] == s11[22]);
    assert(s12[23] == s11[23]);
    assert(s12[24] == s11[24]);
    assert(s12[25] == s11[25]);
    assert(s12[26] == s11[26]);
    assert(s12[27] == s11[27]);
    assert(s12[28] == s11[28]);
    assert(s12[29] == s11[29]);
    assert(s12[30] == s11[30]);
    assert(s12[31] == s11[31]);
    assert(s12[32] == s11[32]);
    assert(s12[33] == s11[33]);
    assert(s12[34] == s11[34]);
    assert(s12[35] == s11[35]);
    assert(s12[36] == s11[36]);
    assert(s12[37] == s11[37]);
    assert(s12[38] == s11[38]);
    assert(s12[39] == s11[39]);
    let s13 = s12 + ToLe::enc(b.flags);
    assert(s13.len() == 48);
    assert(s13[0] == s12[0]);
    assert(s13[1] == s12[1]);
    assert(s13[2] == s12[2]);
    assert(s13[3] == s12[3]);
    assert(s13[4] == s12[4]);
    assert(s13[5] == s12[5]);
    assert(s13[6] == s12[6]);
    assert(s13[7] == s12[7]);
    assert(s13[8] == s12[8]);
    assert(s13[9] == s12[9]);
    assert(s13[10] == s12[10]);
    assert(s13[11] == s12[11]);
    assert(s13[12] == s12[12]);
    assert(s13[13] == s12[13]);
    assert(s13[14] == s12[14]);
    assert(s13[15] == s12[15]);
    assert(s13[16] == s12[16]);
    assert(s13[17] == s12[17]);
    assert(s13[18] == s12[18]);
    assert(s13[19] == s12[19]);
    assert(s13[20] == s12[20]);
    assert(s13[21] == s12[21]);
    assert(s13[22] == s12[22]);
    assert(s13[23] == s12[23]);
    assert(s13[24] == s12[24]);
    assert(s13[25] == s12[25]);
    assert(s13[26] == s12[26]);
    assert(s13[27] == s12[27]);
    assert(s13[28] == s12[28]);
    assert(s13[29] == s12[29]);
    assert(s13[30] == s12[30]);
    assert(s13[31] == s12[31]);
    assert(s13[32] == s12[32]);
    assert(s13[33] == s12[33]);
    assert(s13[34] == s12[34]);
    assert(s13[35] == s12[35]);
    assert(s13[36] == s12[36]);
    assert(s13[37] == s12[37]);
    assert(s13[38] == s12[38]);
    assert(s13[39] == s12[39]);
    assert(s13[40] == s12[40]);
    assert(s13[41] == s12[41]);
    assert(s13[42] == s12[42]);
    assert(s13[43] == s12[43]);
}
/// payload of a CfgTmode2 message with these field values
pub open spec fn enc_CfgTmode2(b: CfgTmode2Builder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(CfgTmode2TimeXferModes_code(b.time_transfer_mode))
    + ToLe::enc(b.reserved1)
    + ToLe::enc(CfgTmode2Flags_code(b.flags))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc))
    + ToLe::enc(b.survey_in_min_duration)
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit))
}
pub proof fn bytes_CfgTmode2(b: CfgTmode2Builder)
    ensures enc_CfgTmode2(b).len() == 28,
        enc_CfgTmode2(b)[0] == CfgTmode2TimeXferModes_code(b.time_transfer_mode),
        enc_CfgTmode2(b)[1] == b.reserved1,
        enc_CfgTmode2(b)[2] == b0((CfgTmode2Flags_code(b.flags)) as int),
        enc_CfgTmode2(b)[3] == b1((CfgTmode2Flags_code(b.flags)) as int),
        enc_CfgTmode2(b)[4] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode2(b)[5] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode2(b)[6] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode2(b)[7] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)),
        enc_CfgTmode2(b)[8] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode2(b)[9] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode2(b)[10] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode2(b)[11] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)),
        enc_CfgTmode2(b)[12] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode2(b)[13] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode2(b)[14] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode2(b)[15] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)),
        enc_CfgTmode2(b)[16] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode2(b)[17] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode2(b)[18] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode2(b)[19] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int),
        enc_CfgTmode2(b)[20] == b0((b.survey_in_min_duration) as int),
        enc_CfgTmode2(b)[21] == b1((b.survey_in_min_duration) as int),
        enc_CfgTmode2(b)[22] == b2((b.survey_in_min_duration) as int),
        enc_CfgTmode2(b)[23] == b3((b.survey_in_min_duration) as int),
        enc_CfgTmode2(b)[24] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int),
        enc_CfgTmode2(b)[25] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int),
        enc_CfgTmode2(b)[26] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int),
        enc_CfgTmode2(b)[27] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(CfgTmode2TimeXferModes_code(b.time_transfer_mode));
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.reserved1);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(CfgTmode2Flags_code(b.flags));
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat));
    assert(s4.len() == 8);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon));
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    let s6 = s5 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt));
    assert(s6.len() == 16);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc));
    assert(s7.len() == 20);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    assert(s7[13] == s6[13]);
    assert(s7[14] == s6[14]);
    assert(s7[15] == s6[15]);
    let s8 = s7 + ToLe::enc(b.survey_in_min_duration);
    assert(s8.len() == 24);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    assert(s8[16] == s7[16]);
    assert(s8[17] == s7[17]);
    assert(s8[18] == s7[18]);
    assert(s8[19] == s7[19]);
    let s9 = s8 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit));
    assert(s9.len() == 28);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
    assert(s9[18] == s8[18]);
    assert(s9[19] == s8[19]);
    assert(s9[20] == s8[20]);
    assert(s9[21] == s8[21]);
    assert(s9[22] == s8[22]);
    assert(s9[23] == s8[23]);
}
pub open spec fn wf_CfgTmode2(s: Seq<u8>) -> bool { s.len() == 28 && CfgTmode2TimeXferModes_valid(s[0]) }
/// contract of CfgTmode2Ref::time_transfer_mode
pub open spec fn get_CfgTmode2_time_transfer_mode(s: Seq<u8>, r: CfgTmode2TimeXferModes) -> bool { r == CfgTmode2TimeXferModes_of((s[0] as int) as u8) }
/// contract of CfgTmode2Ref::reserved1
pub open spec fn get_CfgTmode2_reserved1(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgTmode2Ref::flags
pub open spec fn get_CfgTmode2_flags(s: Seq<u8>, r: CfgTmode2Flags) -> bool { r == CfgTmode2Flags_of((le2(s, 2)) as u16) }
/// contract of CfgTmode2Ref::ecef_x_or_lat
pub open spec fn get_CfgTmode2_ecef_x_or_lat(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 4), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode2Ref::ecef_y_or_lon
pub open spec fn get_CfgTmode2_ecef_y_or_lon(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 8), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode2Ref::ecef_z_or_alt
pub open spec fn get_CfgTmode2_ecef_z_or_alt(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 12), 0x80000000)), 1e-2f64) }
/// contract of CfgTmode2Ref::fixed_pos_acc
pub open spec fn get_CfgTmode2_fixed_pos_acc(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 16)), 1e-3f64) }
/// contract of CfgTmode2Ref::survey_in_min_duration
pub open spec fn get_CfgTmode2_survey_in_min_duration(s: Seq<u8>, r: u32) -> bool { r == le4(s, 20) }
/// contract of CfgTmode2Ref::survery_in_accur_limit
pub open spec fn get_CfgTmode2_survery_in_accur_limit(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 24)), 1e-3f64) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgTmode2(b: CfgTmode2Builder)
    ensures wf_CfgTmode2(enc_CfgTmode2(b)),
        (forall|r: CfgTmode2TimeXferModes| #[trigger] get_CfgTmode2_time_transfer_mode(enc_CfgTmode2(b), r) ==> r == b.time_transfer_mode),
        (forall|r: u8| #[trigger] get_CfgTmode2_reserved1(enc_CfgTmode2(b), r) ==> r == b.reserved1),
        (forall|r: CfgTmode2Flags| #[trigger] get_CfgTmode2_flags(enc_CfgTmode2(b), r) ==> r == b.flags),
        (forall|r: f64| #[trigger] get_CfgTmode2_ecef_x_or_lat(enc_CfgTmode2(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int), 1e-2f64)),
        (forall|r: f64| #[trigger] get_CfgTmode2_ecef_y_or_lon(enc_CfgTmode2(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int), 1e-2f64)),
        (forall|r: f64| #[trigger] get_CfgTmode2_ecef_z_or_alt(enc_CfgTmode2(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int), 1e-2f64)),
        (forall|r: f64| #[trigger] get_CfgTmode2_fixed_pos_acc(enc_CfgTmode2(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int), 1e-3f64)),
        (forall|r: u32| #[trigger] get_CfgTmode2_survey_in_min_duration(enc_CfgTmode2(b), r) ==> r == b.survey_in_min_duration),
        (forall|r: f64| #[trigger] get_CfgTmode2_survery_in_accur_limit(enc_CfgTmode2(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int), 1e-3f64)),
{
    bytes_CfgTmode2(b);
    code_CfgTmode2TimeXferModes(b.time_transfer_mode); code_CfgTmode2Flags(b.flags); 
    assert((enc_CfgTmode2(b)[0] as int) == CfgTmode2TimeXferModes_code(b.time_transfer_mode));
    assert((enc_CfgTmode2(b)[1] as int) == b.reserved1);
    lemma_b2((CfgTmode2Flags_code(b.flags)) as int); assert((le2(enc_CfgTmode2(b), 2)) == CfgTmode2Flags_code(b.flags));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode2(b), 4), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_x_or_lat));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode2(b), 8), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_y_or_lon));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt)) as int, 0x80000000)); assert((sg(le4(enc_CfgTmode2(b), 12), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1e-2f64), b.ecef_z_or_alt));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc)) as int); assert((le4(enc_CfgTmode2(b), 16)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.fixed_pos_acc));
    lemma_b4((b.survey_in_min_duration) as int); assert((le4(enc_CfgTmode2(b), 20)) == b.survey_in_min_duration);
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit)) as int); assert((le4(enc_CfgTmode2(b), 24)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1e-3f64), b.survery_in_accur_limit));
}
/// payload of a CfgPrtSpi message with these field values
pub open spec fn enc_CfgPrtSpi(b: CfgPrtSpiBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(SpiPortId_code(b.portid))
    + ToLe::enc(b.reserved0)
    + ToLe::enc(b.tx_ready)
    + ToLe::enc(b.mode)
    + ToLe::enc(b.reserved3)
    + ToLe::enc(InProtoMask_code(b.in_proto_mask))
    + ToLe::enc(OutProtoMask_code(b.out_proto_mask))
    + ToLe::enc(b.flags)
    + ToLe::enc(b.reserved5)
}
pub proof fn bytes_CfgPrtSpi(b: CfgPrtSpiBuilder)
    ensures enc_CfgPrtSpi(b).len() == 20,
        enc_CfgPrtSpi(b)[0] == SpiPortId_code(b.portid),
        enc_CfgPrtSpi(b)[1] == b.reserved0,
        enc_CfgPrtSpi(b)[2] == b0((b.tx_ready) as int),
        enc_CfgPrtSpi(b)[3] == b1((b.tx_ready) as int),
        enc_CfgPrtSpi(b)[4] == b0((b.mode) as int),
        enc_CfgPrtSpi(b)[5] == b1((b.mode) as int),
        enc_CfgPrtSpi(b)[6] == b2((b.mode) as int),
        enc_CfgPrtSpi(b)[7] == b3((b.mode) as int),
        enc_CfgPrtSpi(b)[8] == b0((b.reserved3) as int),
        enc_CfgPrtSpi(b)[9] == b1((b.reserved3) as int),
        enc_CfgPrtSpi(b)[10] == b2((b.reserved3) as int),
        enc_CfgPrtSpi(b)[11] == b3((b.reserved3) as int),
        enc_CfgPrtSpi(b)[12] == b0((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtSpi(b)[13] == b1((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtSpi(b)[14] == b0((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtSpi(b)[15] == b1((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtSpi(b)[16] == b0((b.flags) as int),
        enc_CfgPrtSpi(b)[17] == b1((b.flags) as int),
        enc_CfgPrtSpi(b)[18] == b0((b.reserved5) as int),
        enc_CfgPrtSpi(b)[19] == b1((b.reserved5) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(SpiPortId_code(b.portid));
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.reserved0);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(b.tx_ready);
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(b.mode);
    assert(s4.len() == 8);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(b.reserved3);
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    let s6 = s5 + ToLe::enc(InProtoMask_code(b.in_proto_mask));
    assert(s6.len() == 14);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(OutProtoMask_code(b.out_proto_mask));
    assert(s7.len() == 16);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    assert(s7[13] == s6[13]);
    let s8 = s7 + ToLe::enc(b.flags);
    assert(s8.len() == 18);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    let s9 = s8 + ToLe::enc(b.reserved5);
    assert(s9.len() == 20);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
}
pub open spec fn wf_CfgPrtSpi(s: Seq<u8>) -> bool { s.len() == 20 && SpiPortId_valid(s[0]) }
/// contract of CfgPrtSpiRef::portid
pub open spec fn get_CfgPrtSpi_portid(s: Seq<u8>, r: SpiPortId) -> bool { r == SpiPortId_of((s[0] as int) as u8) }
/// contract of CfgPrtSpiRef::reserved0
pub open spec fn get_CfgPrtSpi_reserved0(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgPrtSpiRef::tx_ready
pub open spec fn get_CfgPrtSpi_tx_ready(s: Seq<u8>, r: u16) -> bool { r == le2(s, 2) }
/// contract of CfgPrtSpiRef::mode
pub open spec fn get_CfgPrtSpi_mode(s: Seq<u8>, r: u32) -> bool { r == le4(s, 4) }
/// contract of CfgPrtSpiRef::reserved3
pub open spec fn get_CfgPrtSpi_reserved3(s: Seq<u8>, r: u32) -> bool { r == le4(s, 8) }
/// contract of CfgPrtSpiRef::in_proto_mask
pub open spec fn get_CfgPrtSpi_in_proto_mask(s: Seq<u8>, r: InProtoMask) -> bool { r == InProtoMask_of((le2(s, 12)) as u16) }
/// contract of CfgPrtSpiRef::out_proto_mask
pub open spec fn get_CfgPrtSpi_out_proto_mask(s: Seq<u8>, r: OutProtoMask) -> bool { r == OutProtoMask_of((le2(s, 14)) as u16) }
/// contract of CfgPrtSpiRef::flags
pub open spec fn get_CfgPrtSpi_flags(s: Seq<u8>, r: u16) -> bool { r == le2(s, 16) }
/// contract of CfgPrtSpiRef::reserved5
pub open spec fn get_CfgPrtSpi_reserved5(s: Seq<u8>, r: u16) -> bool { r == le2(s, 18) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgPrtSpi(b: CfgPrtSpiBuilder)
    ensures wf_CfgPrtSpi(enc_CfgPrtSpi(b)),
        (forall|r: SpiPortId| #[trigger] get_CfgPrtSpi_portid(enc_CfgPrtSpi(b), r) ==> r == b.portid),
        (forall|r: u8| #[trigger] get_CfgPrtSpi_reserved0(enc_CfgPrtSpi(b), r) ==> r == b.reserved0),
        (forall|r: u16| #[trigger] get_CfgPrtSpi_tx_ready(enc_CfgPrtSpi(b), r) ==> r == b.tx_ready),
        (forall|r: u32| #[trigger] get_CfgPrtSpi_mode(enc_CfgPrtSpi(b), r) ==> r == b.mode),
        (forall|r: u32| #[trigger] get_CfgPrtSpi_reserved3(enc_CfgPrtSpi(b), r) ==> r == b.reserved3),
        (forall|r: InProtoMask| #[trigger] get_CfgPrtSpi_in_proto_mask(enc_CfgPrtSpi(b), r) ==> r == b.in_proto_mask),
        (forall|r: OutProtoMask| #[trigger] get_CfgPrtSpi_out_proto_mask(enc_CfgPrtSpi(b), r) ==> r == b.out_proto_mask),
        (forall|r: u16| #[trigger] get_CfgPrtSpi_flags(enc_CfgPrtSpi(b), r) ==> r == b.flags),
        (forall|r: u16| #[trigger] get_CfgPrtSpi_reserved5(enc_CfgPrtSpi(b), r) ==> r == b.reserved5),
{
    bytes_CfgPrtSpi(b);
    code_SpiPortId(b.portid); code_InProtoMask(b.in_proto_mask); code_OutProtoMask(b.out_proto_mask); 
    assert((enc_CfgPrtSpi(b)[0] as int) == SpiPortId_code(b.portid));
    assert((enc_CfgPrtSpi(b)[1] as int) == b.reserved0);
    lemma_b2((b.tx_ready) as int); assert((le2(enc_CfgPrtSpi(b), 2)) == b.tx_ready);
    lemma_b4((b.mode) as int); assert((le4(enc_CfgPrtSpi(b), 4)) == b.mode);
    lemma_b4((b.reserved3) as int); assert((le4(enc_CfgPrtSpi(b), 8)) == b.reserved3);
    lemma_b2((InProtoMask_code(b.in_proto_mask)) as int); assert((le2(enc_CfgPrtSpi(b), 12)) == InProtoMask_code(b.in_proto_mask));
    lemma_b2((OutProtoMask_code(b.out_proto_mask)) as int); assert((le2(enc_CfgPrtSpi(b), 14)) == OutProtoMask_code(b.out_proto_mask));
    lemma_b2((b.flags) as int); assert((le2(enc_CfgPrtSpi(b), 16)) == b.flags);
    lemma_b2((b.reserved5) as int); assert((le2(enc_CfgPrtSpi(b), 18)) == b.reserved5);
}
/// payload of a CfgMsgSinglePort message with these field values
pub open spec fn enc_CfgMsgSinglePort(b: CfgMsgSinglePortBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.msg_class)
    + ToLe::enc(b.msg_id)
    + ToLe::enc(b.rate)
}
pub proof fn bytes_CfgMsgSinglePort(b: CfgMsgSinglePortBuilder)
    ensures enc_CfgMsgSinglePort(b).len() == 3,
        enc_CfgMsgSinglePort(b)[0] == b.msg_class,
        enc_CfgMsgSinglePort(b)[1] == b.msg_id,
        enc_CfgMsgSinglePort(b)[2] == b.rate,
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.msg_class);
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.msg_id);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(b.rate);
    assert(s3.len() == 3);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
}
/// payload of a CfgAnt message with these field values
pub open spec fn enc_CfgAnt(b: CfgAntBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(AntFlags_code(b.flags))
    + ToLe::enc(b.pins)
}
pub proof fn bytes_CfgAnt(b: CfgAntBuilder)
    ensures enc_CfgAnt(b).len() == 4,
        enc_CfgAnt(b)[0] == b0((AntFlags_code(b.flags)) as int),
        enc_CfgAnt(b)[1] == b1((AntFlags_code(b.flags)) as int),
        enc_CfgAnt(b)[2] == b0((b.pins) as int),
        enc_CfgAnt(b)[3] == b1((b.pins) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(AntFlags_code(b.flags));
    assert(s1.len() == 2);
    let s2 = s1 + ToLe::enc(b.pins);
    assert(s2.len() == 4);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
}
pub open spec fn wf_CfgAnt(s: Seq<u8>) -> bool { s.len() == 4 }
/// contract of CfgAntRef::flags
pub open spec fn get_CfgAnt_flags(s: Seq<u8>, r: AntFlags) -> bool { r == AntFlags_of((le2(s, 0)) as u16) }
/// contract of CfgAntRef::pins
pub open spec fn get_CfgAnt_pins(s: Seq<u8>, r: u16) -> bool { r == le2(s, 2) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgAnt(b: CfgAntBuilder)
    ensures wf_CfgAnt(enc_CfgAnt(b)),
        (forall|r: AntFlags| #[trigger] get_CfgAnt_flags(enc_CfgAnt(b), r) ==> r == b.flags),
        (forall|r: u16| #[trigger] get_CfgAnt_pins(enc_CfgAnt(b), r) ==> r == b.pins),
{
    bytes_CfgAnt(b);
    code_AntFlags(b.flags); 
    lemma_b2((AntFlags_code(b.flags)) as int); assert((le2(enc_CfgAnt(b), 0)) == AntFlags_code(b.flags));
    lemma_b2((b.pins) as int); assert((le2(enc_CfgAnt(b), 2)) == b.pins);
}
%postlude
%source exp
%take struct CfgTmode3
%take impl UbxPacketMeta for CfgTmode3
%only impl UbxPacketMeta for CfgTmode3 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTmode3Builder
%take impl CfgTmode3Builder
%only impl CfgTmode3Builder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgTmode3Builder
%header impl UbxPacketCreator for CfgTmode3Builder
impl CfgTmode3Builder
%take impl From<CfgTmode3Builder> for [u8;48usize]
%header impl From<CfgTmode3Builder> for [u8;48usize]
impl FrameFrom<CfgTmode3Builder> for [u8; 48]
%fn CfgTmode3Builder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x71u8, enc_CfgTmode3(self)),
%start CfgTmode3Builder::into_packet_bytes
        proof { bytes_CfgTmode3(self); }
%end CfgTmode3Builder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x71u8, enc_CfgTmode3(self))); }
%fn <From<CfgTmode3Builder> for [u8;48usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x71u8, enc_CfgTmode3(x)),
%fn <UbxPacketCreator for CfgTmode3Builder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x71u8, enc_CfgTmode3(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgTmode3Builder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgTmode3(self); lemma_frame(w0, 0x6u8, 0x71u8, enc_CfgTmode3(self)); }
%end <UbxPacketCreator for CfgTmode3Builder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x71u8, b0(40), b1(40)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgTmode3(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgTmode3(me) + seq![ck.0, ck.1]));
        }
%take struct AidIni
%take impl UbxPacketMeta for AidIni
%only impl UbxPacketMeta for AidIni = CLASS ID MAX_PAYLOAD_LEN
%take struct AidIniBuilder
%take impl AidIniBuilder
%only impl AidIniBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for AidIniBuilder
%header impl UbxPacketCreator for AidIniBuilder
impl AidIniBuilder
%take impl From<AidIniBuilder> for [u8;56usize]
%header impl From<AidIniBuilder> for [u8;56usize]
impl FrameFrom<AidIniBuilder> for [u8; 56]
%fn AidIniBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0xbu8, 0x1u8, enc_AidIni(self)),
%start AidIniBuilder::into_packet_bytes
        proof { bytes_AidIni(self); }
%end AidIniBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0xbu8, 0x1u8, enc_AidIni(self))); }
%fn <From<AidIniBuilder> for [u8;56usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0xbu8, 0x1u8, enc_AidIni(x)),
%fn <UbxPacketCreator for AidIniBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0xbu8, 0x1u8, enc_AidIni(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for AidIniBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_AidIni(self); lemma_frame(w0, 0xbu8, 0x1u8, enc_AidIni(self)); }
%end <UbxPacketCreator for AidIniBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0xbu8, 0x1u8, b0(48), b1(48)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_AidIni(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_AidIni(me) + seq![ck.0, ck.1]));
        }
%take struct CfgTmode2
%take impl UbxPacketMeta for CfgTmode2
%only impl UbxPacketMeta for CfgTmode2 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTmode2Builder
%take impl CfgTmode2Builder
%only impl CfgTmode2Builder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgTmode2Builder
%header impl UbxPacketCreator for CfgTmode2Builder
impl CfgTmode2Builder
%take impl From<CfgTmode2Builder> for [u8;36usize]
%header impl From<CfgTmode2Builder> for [u8;36usize]
impl FrameFrom<CfgTmode2Builder> for [u8; 36]
%fn CfgTmode2Builder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x3du8, enc_CfgTmode2(self)),
%start CfgTmode2Builder::into_packet_bytes
        proof { bytes_CfgTmode2(self); }
%end CfgTmode2Builder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x3du8, enc_CfgTmode2(self))); }
%fn <From<CfgTmode2Builder> for [u8;36usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x3du8, enc_CfgTmode2(x)),
%fn <UbxPacketCreator for CfgTmode2Builder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x3du8, enc_CfgTmode2(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgTmode2Builder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgTmode2(self); lemma_frame(w0, 0x6u8, 0x3du8, enc_CfgTmode2(self)); }
%end <UbxPacketCreator for CfgTmode2Builder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x3du8, b0(28), b1(28)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgTmode2(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgTmode2(me) + seq![ck.0, ck.1]));
        }
%take struct CfgPrtSpi
%take impl UbxPacketMeta for CfgPrtSpi
%only impl UbxPacketMeta for CfgPrtSpi = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtSpiBuilder
%take impl CfgPrtSpiBuilder
%only impl CfgPrtSpiBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgPrtSpiBuilder
%header impl UbxPacketCreator for CfgPrtSpiBuilder
impl CfgPrtSpiBuilder
%take impl From<CfgPrtSpiBuilder> for [u8;28usize]
%header impl From<CfgPrtSpiBuilder> for [u8;28usize]
impl FrameFrom<CfgPrtSpiBuilder> for [u8; 28]
%fn CfgPrtSpiBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtSpi(self)),
%start CfgPrtSpiBuilder::into_packet_bytes
        proof { bytes_CfgPrtSpi(self); }
%end CfgPrtSpiBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x0u8, enc_CfgPrtSpi(self))); }
%fn <From<CfgPrtSpiBuilder> for [u8;28usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtSpi(x)),
%fn <UbxPacketCreator for CfgPrtSpiBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x0u8, enc_CfgPrtSpi(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgPrtSpiBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgPrtSpi(self); lemma_frame(w0, 0x6u8, 0x0u8, enc_CfgPrtSpi(self)); }
%end <UbxPacketCreator for CfgPrtSpiBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x0u8, b0(20), b1(20)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgPrtSpi(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgPrtSpi(me) + seq![ck.0, ck.1]));
        }
%take struct CfgMsgSinglePort
%take impl UbxPacketMeta for CfgMsgSinglePort
%only impl UbxPacketMeta for CfgMsgSinglePort = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgMsgSinglePortBuilder
%take impl CfgMsgSinglePortBuilder
%only impl CfgMsgSinglePortBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgMsgSinglePortBuilder
%header impl UbxPacketCreator for CfgMsgSinglePortBuilder
impl CfgMsgSinglePortBuilder
%take impl From<CfgMsgSinglePortBuilder> for [u8;11usize]
%header impl From<CfgMsgSinglePortBuilder> for [u8;11usize]
impl FrameFrom<CfgMsgSinglePortBuilder> for [u8; 11]
%fn CfgMsgSinglePortBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x1u8, enc_CfgMsgSinglePort(self)),
%start CfgMsgSinglePortBuilder::into_packet_bytes
        proof { bytes_CfgMsgSinglePort(self); }
%end CfgMsgSinglePortBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x1u8, enc_CfgMsgSinglePort(self))); }
%fn <From<CfgMsgSinglePortBuilder> for [u8;11usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x1u8, enc_CfgMsgSinglePort(x)),
%fn <UbxPacketCreator for CfgMsgSinglePortBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x1u8, enc_CfgMsgSinglePort(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgMsgSinglePortBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgMsgSinglePort(self); lemma_frame(w0, 0x6u8, 0x1u8, enc_CfgMsgSinglePort(self)); }
%end <UbxPacketCreator for CfgMsgSinglePortBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x1u8, b0(3), b1(3)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgMsgSinglePort(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgMsgSinglePort(me) + seq![ck.0, ck.1]));
        }
%take struct CfgAnt
%take impl UbxPacketMeta for CfgAnt
%only impl UbxPacketMeta for CfgAnt = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgAntBuilder
%take impl CfgAntBuilder
%only impl CfgAntBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgAntBuilder
%header impl UbxPacketCreator for CfgAntBuilder
impl CfgAntBuilder
%take impl From<CfgAntBuilder> for [u8;12usize]
%header impl From<CfgAntBuilder> for [u8;12usize]
impl FrameFrom<CfgAntBuilder> for [u8; 12]
%fn CfgAntBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x13u8, enc_CfgAnt(self)),
%start CfgAntBuilder::into_packet_bytes
        proof { bytes_CfgAnt(self); }
%end CfgAntBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x13u8, enc_CfgAnt(self))); }
%fn <From<CfgAntBuilder> for [u8;12usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x13u8, enc_CfgAnt(x)),
%fn <UbxPacketCreator for CfgAntBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x13u8, enc_CfgAnt(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgAntBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgAnt(self); lemma_frame(w0, 0x6u8, 0x13u8, enc_CfgAnt(self)); }
%end <UbxPacketCreator for CfgAntBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x13u8, b0(4), b1(4)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgAnt(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgAnt(me) + seq![ck.0, ck.1]));
        }
