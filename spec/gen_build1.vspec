%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%open
%prelude
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
pub trait FrameFrom<X>: Sized { fn frame_from(x: X) -> Self; }
pub open spec fn CfgTp5TimePulseMode_valid(x: u8) -> bool { x == 0 || x == 1 }
pub open spec fn UartPortId_valid(x: u8) -> bool { x == 1 || x == 2 || x == 3 }
/// the mode words UartMode::from can decode (known finding: it panics on the others)
pub open spec fn UartMode_ok(x: u32) -> bool {
    let d = (x / 64) % 4;
    let p = (x / 512) % 8;
    (d == 2 || d == 3) && (p == 0 || p == 1 || p == 4 || p == 5)
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgNavX5Params1(u16);
pub uninterp spec fn CfgNavX5Params1_of(x: u16) -> CfgNavX5Params1; /*stub: flags*/
impl CfgNavX5Params1 {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == CfgNavX5Params1_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgNavX5Params1_code(e: CfgNavX5Params1) -> u16; /*stub: flags*/
impl CfgNavX5Params1 {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == CfgNavX5Params1_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgNavX5Params1(e: CfgNavX5Params1)
    ensures #[trigger] CfgNavX5Params1_of(CfgNavX5Params1_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct CfgNavX5Params2(u32);
pub uninterp spec fn CfgNavX5Params2_of(x: u32) -> CfgNavX5Params2; /*stub: flags*/
impl CfgNavX5Params2 {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgNavX5Params2_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgNavX5Params2_code(e: CfgNavX5Params2) -> u32; /*stub: flags*/
impl CfgNavX5Params2 {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u32) ensures r == CfgNavX5Params2_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgNavX5Params2(e: CfgNavX5Params2)
    ensures #[trigger] CfgNavX5Params2_of(CfgNavX5Params2_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct CfgTp5TimePulseMode(u8);
pub uninterp spec fn CfgTp5TimePulseMode_of(x: u8) -> CfgTp5TimePulseMode; /*stub: enums*/
impl CfgTp5TimePulseMode {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires CfgTp5TimePulseMode_valid(x), ensures r == CfgTp5TimePulseMode_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == CfgTp5TimePulseMode_valid(x), { unimplemented!() }
}
pub uninterp spec fn CfgTp5TimePulseMode_code(e: CfgTp5TimePulseMode) -> u8; /*stub: enums*/
impl CfgTp5TimePulseMode {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgTp5TimePulseMode_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_CfgTp5TimePulseMode(e: CfgTp5TimePulseMode)
    ensures CfgTp5TimePulseMode_valid(CfgTp5TimePulseMode_code(e)), #[trigger] CfgTp5TimePulseMode_of(CfgTp5TimePulseMode_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct CfgTp5Flags(u32);
pub uninterp spec fn CfgTp5Flags_of(x: u32) -> CfgTp5Flags; /*stub: flags*/
impl CfgTp5Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgTp5Flags_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgTp5Flags_code(e: CfgTp5Flags) -> u32; /*stub: flags*/
impl CfgTp5Flags {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u32) ensures r == CfgTp5Flags_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_CfgTp5Flags(e: CfgTp5Flags)
    ensures #[trigger] CfgTp5Flags_of(CfgTp5Flags_code(e)) == e,
{ }
#[verifier::external_body] /*stub: enums*/ pub struct UartPortId(u8);
pub uninterp spec fn UartPortId_of(x: u8) -> UartPortId; /*stub: enums*/
impl UartPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn from_unchecked(x: u8) -> (r: Self) requires UartPortId_valid(x), ensures r == UartPortId_of(x), { unimplemented!() }
  #[verifier::external_body] /*stub: enums*/ pub fn is_valid(x: u8) -> (r: bool) ensures r == UartPortId_valid(x), { unimplemented!() }
}
pub uninterp spec fn UartPortId_code(e: UartPortId) -> u8; /*stub: enums*/
impl UartPortId {
  #[verifier::external_body] /*stub: enums*/ pub fn into_raw(self) -> (r: u8) ensures r == UartPortId_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: enums*/ pub broadcast proof fn code_UartPortId(e: UartPortId)
    ensures UartPortId_valid(UartPortId_code(e)), #[trigger] UartPortId_of(UartPortId_code(e)) == e,
{ }
#[verifier::external_body] /*stub: words*/ pub struct UartMode(u32);
pub uninterp spec fn UartMode_of(x: u32) -> UartMode; /*stub: words*/
impl UartMode {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) requires UartMode_ok(x), ensures r == UartMode_of(x), { unimplemented!() }
}
pub uninterp spec fn UartMode_code(e: UartMode) -> u32; /*stub: words*/
impl UartMode {
  #[verifier::external_body] /*stub: words*/ pub fn into_raw(self) -> (r: u32) ensures r == UartMode_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: words*/ pub broadcast proof fn code_UartMode(e: UartMode)
    ensures UartMode_ok(UartMode_code(e)), #[trigger] UartMode_of(UartMode_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct InProtoMask(u16);
pub uninterp spec fn InProtoMask_of(x: u16) -> InProtoMask; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == InProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn InProtoMask_code(e: InProtoMask) -> u16; /*stub: flags*/
impl InProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == InProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_InProtoMask(e: InProtoMask)
    ensures #[trigger] InProtoMask_of(InProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct OutProtoMask(u16);
pub uninterp spec fn OutProtoMask_of(x: u16) -> OutProtoMask; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == OutProtoMask_of(x), { unimplemented!() }
}
pub uninterp spec fn OutProtoMask_code(e: OutProtoMask) -> u16; /*stub: flags*/
impl OutProtoMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == OutProtoMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_OutProtoMask(e: OutProtoMask)
    ensures #[trigger] OutProtoMask_of(OutProtoMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: flags*/ pub struct NavBbrMask(u16);
pub uninterp spec fn NavBbrMask_of(x: u16) -> NavBbrMask; /*stub: flags*/
impl NavBbrMask {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u16) -> (r: Self) ensures r == NavBbrMask_of(x), { unimplemented!() }
}
pub uninterp spec fn NavBbrMask_code(e: NavBbrMask) -> u16; /*stub: flags*/
impl NavBbrMask {
  #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u16) ensures r == NavBbrMask_code(self), { unimplemented!() }
}
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: flags*/ pub broadcast proof fn code_NavBbrMask(e: NavBbrMask)
    ensures #[trigger] NavBbrMask_of(NavBbrMask_code(e)) == e,
{ }
#[verifier::external_body] /*stub: words*/ pub struct ResetMode(u8);
pub uninterp spec fn ResetMode_of(x: u8) -> ResetMode; /*stub: words*/
impl ResetMode {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u8) -> (r: Self) ensures r == ResetMode_of(x), { unimplemented!() }
}
pub uninterp spec fn ResetMode_code(e: ResetMode) -> u8; /*stub: words*/
impl ResetMode {
  #[verifier::external_body] /*stub: words*/ pub fn into_raw(self) -> (r: u8) ensures r == ResetMode_code(self), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct AlignmentToReferenceTime(u8);
pub uninterp spec fn AlignmentToReferenceTime_of(x: u8) -> AlignmentToReferenceTime; /*stub: words*/
impl AlignmentToReferenceTime {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u8) -> (r: Self) ensures r == AlignmentToReferenceTime_of(x), { unimplemented!() }
}
pub uninterp spec fn AlignmentToReferenceTime_code(e: AlignmentToReferenceTime) -> u16; /*stub: words*/
impl AlignmentToReferenceTime {
  #[verifier::external_body] /*stub: words*/ pub fn into_raw(self) -> (r: u16) ensures r == AlignmentToReferenceTime_code(self), { unimplemented!() }
}
#[verifier::external_body] /*stub: words*/ pub struct CfgItfmConfig(u32);
pub uninterp spec fn CfgItfmConfig_of(x: u32) -> CfgItfmConfig; /*stub: words*/
impl CfgItfmConfig {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgItfmConfig_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgItfmConfig_code(e: CfgItfmConfig) -> u32; /*stub: words*/
impl CfgItfmConfig {
  #[verifier::external_body] /*stub: words*/ pub fn into_raw(self) -> (r: u32) ensures r == CfgItfmConfig_code(self), { unimplemented!() }
}
/// the sub-values fit their bits
pub uninterp spec fn CfgItfmConfig_fits(e: CfgItfmConfig) -> bool; /*stub: words*/
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: words*/ pub broadcast proof fn code_CfgItfmConfig(e: CfgItfmConfig)
    ensures CfgItfmConfig_fits(e) ==> #[trigger] CfgItfmConfig_of(CfgItfmConfig_code(e)) == e,
{ }
#[verifier::external_body] /*stub: words*/ pub struct CfgItfmConfig2(u32);
pub uninterp spec fn CfgItfmConfig2_of(x: u32) -> CfgItfmConfig2; /*stub: words*/
impl CfgItfmConfig2 {
  #[verifier::external_body] /*stub: words*/ pub fn from(x: u32) -> (r: Self) ensures r == CfgItfmConfig2_of(x), { unimplemented!() }
}
pub uninterp spec fn CfgItfmConfig2_code(e: CfgItfmConfig2) -> u32; /*stub: words*/
impl CfgItfmConfig2 {
  #[verifier::external_body] /*stub: words*/ pub fn into_raw(self) -> (r: u32) ensures r == CfgItfmConfig2_code(self), { unimplemented!() }
}
/// the sub-values fit their bits
pub uninterp spec fn CfgItfmConfig2_fits(e: CfgItfmConfig2) -> bool; /*stub: words*/
/// what was encoded decodes to itself
#[verifier::external_body] /*stub: words*/ pub broadcast proof fn code_CfgItfmConfig2(e: CfgItfmConfig2)
    ensures CfgItfmConfig2_fits(e) ==> #[trigger] CfgItfmConfig2_of(CfgItfmConfig2_code(e)) == e,
{ }
/// payload of a CfgNavX5 message with these field values
pub open spec fn enc_CfgNavX5(b: CfgNavX5Builder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.version)
    + ToLe::enc(CfgNavX5Params1_code(b.mask1))
    + ToLe::enc(CfgNavX5Params2_code(b.mask2))
    + b.reserved1@
    + ToLe::enc(b.min_svs)
    + ToLe::enc(b.max_svs)
    + ToLe::enc(b.min_cno_dbhz)
    + ToLe::enc(b.reserved2)
    + ToLe::enc(b.ini_fix_3d)
    + b.reserved3@
    + ToLe::enc(b.ack_aiding)
    + ToLe::enc(b.wkn_rollover)
    + ToLe::enc(b.sig_atten_comp_mode)
    + ToLe::enc(b.reserved4)
    + b.reserved5@
    + b.reserved6@
    + ToLe::enc(b.use_ppp)
    + ToLe::enc(b.aop_cfg)
    + b.reserved7@
    + ToLe::enc(b.aop_orb_max_err)
    + b.reserved8@
    + b.reserved9@
    + ToLe::enc(b.use_adr)
}
pub proof fn bytes_CfgNavX5(b: CfgNavX5Builder)
    ensures enc_CfgNavX5(b).len() == 40,
        enc_CfgNavX5(b)[0] == b0((b.version) as int),
        enc_CfgNavX5(b)[1] == b1((b.version) as int),
        enc_CfgNavX5(b)[2] == b0((CfgNavX5Params1_code(b.mask1)) as int),
        enc_CfgNavX5(b)[3] == b1((CfgNavX5Params1_code(b.mask1)) as int),
        enc_CfgNavX5(b)[4] == b0((CfgNavX5Params2_code(b.mask2)) as int),
        enc_CfgNavX5(b)[5] == b1((CfgNavX5Params2_code(b.mask2)) as int),
        enc_CfgNavX5(b)[6] == b2((CfgNavX5Params2_code(b.mask2)) as int),
        enc_CfgNavX5(b)[7] == b3((CfgNavX5Params2_code(b.mask2)) as int),
        enc_CfgNavX5(b)[8] == b.reserved1@[0],
        enc_CfgNavX5(b)[9] == b.reserved1@[1],
        enc_CfgNavX5(b)[10] == b.min_svs,
        enc_CfgNavX5(b)[11] == b.max_svs,
        enc_CfgNavX5(b)[12] == b.min_cno_dbhz,
        enc_CfgNavX5(b)[13] == b.reserved2,
        enc_CfgNavX5(b)[14] == b.ini_fix_3d,
        enc_CfgNavX5(b)[15] == b.reserved3@[0],
        enc_CfgNavX5(b)[16] == b.reserved3@[1],
        enc_CfgNavX5(b)[17] == b.ack_aiding,
        enc_CfgNavX5(b)[18] == b0((b.wkn_rollover) as int),
        enc_CfgNavX5(b)[19] == b1((b.wkn_rollover) as int),
        enc_CfgNavX5(b)[20] == b.sig_atten_comp_mode,
        enc_CfgNavX5(b)[21] == b.reserved4,
        enc_CfgNavX5(b)[22] == b.reserved5@[0],
        enc_CfgNavX5(b)[23] == b.reserved5@[1],
        enc_CfgNavX5(b)[24] == b.reserved6@[0],
        enc_CfgNavX5(b)[25] == b.reserved6@[1],
        enc_CfgNavX5(b)[26] == b.use_ppp,
        enc_CfgNavX5(b)[27] == b.aop_cfg,
        enc_CfgNavX5(b)[28] == b.reserved7@[0],
        enc_CfgNavX5(b)[29] == b.reserved7@[1],
        enc_CfgNavX5(b)[30] == b0((b.aop_orb_max_err) as int),
        enc_CfgNavX5(b)[31] == b1((b.aop_orb_max_err) as int),
        enc_CfgNavX5(b)[32] == b.reserved8@[0],
        enc_CfgNavX5(b)[33] == b.reserved8@[1],
        enc_CfgNavX5(b)[34] == b.reserved8@[2],
        enc_CfgNavX5(b)[35] == b.reserved8@[3],
        enc_CfgNavX5(b)[36] == b.reserved9@[0],
        enc_CfgNavX5(b)[37] == b.reserved9@[1],
        enc_CfgNavX5(b)[38] == b.reserved9@[2],
        enc_CfgNavX5(b)[39] == b.use_adr,
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.version);
    assert(s1.len() == 2);
    let s2 = s1 + ToLe::enc(CfgNavX5Params1_code(b.mask1));
    assert(s2.len() == 4);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    let s3 = s2 + ToLe::enc(CfgNavX5Params2_code(b.mask2));
    assert(s3.len() == 8);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    assert(s3[3] == s2[3]);
    let s4 = s3 + b.reserved1@;
    assert(s4.len() == 10);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    assert(s4[4] == s3[4]);
    assert(s4[5] == s3[5]);
    assert(s4[6] == s3[6]);
    assert(s4[7] == s3[7]);
    let s5 = s4 + ToLe::enc(b.min_svs);
    assert(s5.len() == 11);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    assert(s5[8] == s4[8]);
    assert(s5[9] == s4[9]);
    let s6 = s5 + ToLe::enc(b.max_svs);
    assert(s6.len() == 12);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    let s7 = s6 + ToLe::enc(b.min_cno_dbhz);
    assert(s7.len() == 13);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    let s8 = s7 + ToLe::enc(b.reserved2);
    assert(s8.len() == 14);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    let s9 = s8 + ToLe::enc(b.ini_fix_3d);
    assert(s9.len() == 15);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    let s10 = s9 + b.reserved3@;
    assert(s10.len() == 17);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    let s11 = s10 + ToLe::enc(b.ack_aiding);
    assert(s11.len() == 18);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    let s12 = s11 + ToLe::enc(b.wkn_rollover);
    assert(s12.len() == 20);
    assert(s12[0] == s11[0]);
    assert(s12[1] == s11[1]);
    assert(s12[2] == s11[2]);
    assert(s12[3] == s11[3]);
    assert(s12[4] == s11[4]);
    assert(s12[5] == s11[5]);
    assert(s12[6] == s11[6]);
    assert(s12[7] == s11[7]);
    assert(s12[8] == s11[8]);
    assert(s12[9] == s11[9]);
    assert(s12[10] == s11[10]);
    assert(s12[11] == s11[11]);
    assert(s12[12] == s11[12]);
    assert(s12[13] == s11[13]);
    assert(s12[14] == s11[14]);
    assert(s12[15] == s11[15]);
    assert(s12[16] == s11[16]);
    assert(s12[17] == s11[17]);
    let s13 = s12 + ToLe::enc(b.sig_atten_comp_mode);
    assert(s13.len() == 21);
    assert(s13[0] == s12[0]);
    assert(s13[1] == s12[1]);
    assert(s13[2] == s12[2]);
    assert(s13[3] == s12[3]);
    assert(s13[4] == s12[4]);
    assert(s13[5] == s12[5]);
    assert(s13[6] == s12[6]);
    assert(s13[7] == s12[7]);
    assert(s13[8] == s12[8]);
    assert(s13[9] == s12[9]);
    assert(s13[10] == s12[10]);
    assert(s13[11] == s12[11]);
    assert(s13[12] == s12[12]);
    assert(s13[13] == s12[13]);
    assert(s13[14] == s12[14]);
    assert(s13[15] == s12[15]);
    assert(s13[16] == s12[16]);
    assert(s13[17] == s12[17]);
    assert(s13[18] == s12[18]);
    assert(s13[19] == s12[19]);
    let s14 = s13 + ToLe::enc(b.reserved4);
    assert(s14.len() == 22);
    assert(s14[0] == s13[0]);
    assert(s14[1] == s13[1]);
    assert(s14[2] == s13[2]);
    assert(s14[3] == s13[3]);
    assert(s14[4] == s13[4]);
    assert(s14[5] == s13[5]);
    assert(s14[6] == s13[6]);
    assert(s14[7] == s13[7]);
    assert(s14[8] == s13[8]);
    assert(s14[9] == s13[9]);
    assert(s14[10] == s13[10]);
    assert(s14[11] == s13[11]);
    assert(s14[12] == s13[12]);
    assert(s14[13] == s13[13]);
    assert(s14[14] == s13[14]);
    assert(s14[15] == s13[15]);
    assert(s14[16] == s13[16]);
    assert(s14[17] == s13[17]);
    assert(s14[18] == s13[18]);
    assert(s14[19] == s13[19]);
    assert(s14[20] == s13[20]);
    let s15 = s14 + b.reserved5@;
    assert(s15.len() == 24);
    assert(s15[0] == s14[0]);
    assert(s15[1] == s14[1]);
    assert(s15[2] == s14[2]);
    assert(s15[3] == s14[3]);
    assert(s15[4] == s14[4]);
    assert(s15[5] == s14[5]);
    assert(s15[6] == s14[6]);
    assert(s15[7] == s14[7]);
    assert(s15[8] == s14[8]);
    assert(s15[9] == s14[9]);
    assert(s15[10] == s14[10]);
    assert(s15[11] == s14[11]);
    assert(s15[12] == s14[12]);
    assert(s15[13] == s14[13]);
    assert(s15[14] == s14[14]);
    assert(s15[15] == s14[15]);
    assert(s15[16] == s14[16]);
    assert(s15[17] == s14[17]);
    assert(s15[18] == s14[18]);
    assert(s15[19] == s14[19]);
    assert(s15[20] == s14[20]);
    assert(s15[21] == s14[21]);
    let s16 = s15 + b.reserved6@;
    assert(s16.len() == 26);
    assert(s16[0] == s15[0]);
    assert(s16[1] == s15[1]);
    assert(s16[2] == s15[2]);
    assert(s16[3] == s15[3]);
    assert(s16[4] == s15[4]);
    assert(s16[5] == s15[5]);
    assert(s16[6] == s15[6]);
    assert(s16[7] == s15[7]);
    assert(s16[8] == s15[8]);
    assert(s16[9] == s15[9]);
    assert(s16[10] == s15[10]);
    assert(s16[11] == s15[11]);
    assert(s16[12] == s15[12]);
    assert(s16[13] == s15[13]);
    assert(s16[14] == s15[14]);
    assert(s16[15] == s15[15]);
    assert(s16[16] == s15[16]);
    assert(s16[17] == s15[17]);
    assert(s16[18] == s15[18]);
    assert(s16[19] == s15[19]);
    assert(s16[20] == s15[20]);
    assert(s16[21] == s15[21]);
    assert(s16[22] == s15[22]);
    assert(s16[23] == s15[23]);
    let s17 = s16 + ToLe::enc(b.use_ppp);
    assert(s17.len() == 27);
    assert(s17[0] == s16[0]);
    assert(s17[1] == s16[1]);
    assert(s17[2] == s16[2]);
    assert(s17[3] == s16[3]);
    assert(s17[4] == s16[4]);
    assert(s17[5] == s16[5]);
    assert(s17[6] == s16[6]);
    assert(s17[7] == s16[7]);
    assert(s17[8] == s16[8]);
    assert(s17[9] == s16[9]);
    assert(s17[10] == s16[10]);
    assert(s17[11] == s16[11]);
    assert(s17[12] == s16[12]);
    assert(s17[13] == s16[13]);
    assert(s17[14] == s16[14]);
    assert(s17[15] == s16[15]);
    assert(s17[16] == s16[16]);
    assert(s17[17] == s16[17]);
    assert(s17[18] == s16[18]);
    assert(s17[19] == s16[19]);
    assert(s17[20] == s16[20]);
    assert(s17[21] == s16[21]);
    assert(s17[22] == s16[22]);
    assert(s17[23] == s16[23]);
    assert(s17[24] == s16[24]);
    assert(s17[25] == s16[25]);
    let s18 = s17 + ToLe::enc(b.aop_cfg);
    assert(s18.len() == 28);
    assert(s18[0] == s17[0]);
    assert(s18[1] == s17[1]);
    assert(s18[2] == s17[2]);
    assert(s18[3] == s17[3]);
    assert(s18[4] == s17[4]);
    assert(s18[5] == s17[5]);
    assert(s18[6] == s17[6]);
    assert(s18[7] == s17[7]);
    assert(s18[8] == s17[8]);
    assert(s18[9] == s17[9]);
    assert(s18[10] == s17[10]);
    assert(s18[11] == s17[11]);
    assert(s18[12] == s17[12]);
    assert(s18[13] == s17[13]);
    assert(s18[14] == s17[14]);
    assert(s18[15] == s17[15]);
    assert(s18[16] == s17[16]);
    assert(s18[17] == s17[17]);
    assert(s18[18] == s17[18]);
    assert(s18[19] == s17[19]);
    assert(s18[20] == s17[20]);
    assert(s18[21] == s17[21]);
    assert(s18[22] == s17[22]);
    assert(s18[23] == s17[23]);
    assert(s18[24] == s17[24]);
    assert(s18[25] == s17[25]);
    assert(s18[26] == s17[26]);
    let s19 = s18 + b.reserved7@;
    assert(s19.len() == 30);
    assert(s19[0] == s18[0]);
    assert(s19[1] == s18[1]);
    assert(s19[2] == s18[2]);
    assert(s19[3] == s18[3]);
    assert(s19[4] == s18[4]);
    assert(s19[5] == s18[5]);
    assert(s19[6] == s18[6]);
    assert(s19[7] == s18[7]);
    assert(s19[8] == s18[8]);
    assert(s19[9] == s18[9]);
    assert(s19[10] == s18[10]);
    assert(s19[11] == s18[11]);
    assert(s19[12] == s18[12]);
    assert(s19[13] == s18[13]);
    assert(s19[14] == s18[14]);
    assert(s19[15] == s18[15]);
    assert(s19[16] == s18[16]);
    assert(s19[17] == s18[17]);
    assert(s19[18] == s18[18]);
    assert(s19[19] == s18[19]);
    assert(s19[20] == s18[20]);
    assert(s19[21] == s18[21]);
    assert(s19[22] == s18[22]);
    assert(s19[23] == s18[23]);
    assert(s19[24] == s18[24]);
    assert(s19[25] == s18[25]);
    assert(s19[26] == s18[26]);
    assert(s19[27] == s18[27]);
    let s20 = s19 + ToLe::enc(b.aop_orb_max_err);
    assert(s20.len() == 32);
    assert(s20[0] == s19[0]);
    assert(s20[1] == s19[1]);
    assert(s20[2] == s19[2]);
    assert(s20[3] == s19[3]);
    assert(s20[4] == s19[4]);
    assert(s20[5] == s19[5]);
    assert(s20[6] == s19[6]);
    assert(s20[7] == s19[7]);
    assert(s20[8] == s19[8]);
    assert(s20[9] == s19[9]);
    assert(s20[10] == s19[10]);
    assert(s20[11] == s19[11]);
    assert(s20[12] == s19[12]);
    assert(s20[13] == s19[13]);
    assert(s20[14] == s19[14]);
    assert(s20[15] == s19[15]);
    assert(s20[16] == s19[16]);
    assert(s20[17] == s19[17]);
    assert(s20[18] == s19[18]);
    assert(s20[19] == s19[19]);
    assert(s20[20] == s19[20]);
    assert(s20[21] == s19[21]);
    assert(s20[22] == s19[22]);
    assert(s20[23] == s19[23]);
    assert(s20[24] == s19[24]);
    assert(s20[25] == s19[25]);
    assert(s20[26] == s19[26]);
    assert(s20[27] == s19[27]);
    assert(s20[28] == s19[28]);
    assert(s20[29] == s19[29]);
    let s21 = s20 + b.reserved8@;
    assert(s21.len() == 36);
    assert(s21[0] == s20[0]);
    assert(s21[1] == s20[1]);
    assert(s21[2] == s20[2]);
    assert(s21[3] == s20[3]);
    assert(s21[4] == s20[4]);
    assert(s21[5] == s20[5]);
    assert(s21[6] == s20[6]);
    assert(s21[7] == s20[7]);
    assert(s21[8] == s20[8]);
    assert(s21[9] == s20[9]);
    assert(s21[10] == s20[10]);
    assert(s21[11] == s20[11]);
    assert(s21[12] == s20[12]);
    assert(s21[13] == s20[13]);
    assert(s21[14] == s20[14]);
    assert(s21[15] == s20[15]);
    assert(s21[16] == s20[16]);
    assert(s21[17] == s20[17]);
    assert(s21[18] == s20[18]);
    assert(s21[19] == s20[19]);
    assert(s21[20] == s20[20]);
    assert(s21[21] == s20[21]);
    assert(s21[22] == s20[22]);
    assert(s21[23] == s20[23]);
    assert(s21[24] == s20[24]);
    assert(s21[25] == s20[25]);
    assert(s21[26] == s20[26]);
    assert(s21[27] == s20[27]);
    assert(s21[28] == s20[28]);
    assert(s21[29] == s20[29]);
    assert(s21[30] == s20[30]);
    assert(s21[31] == s20[31]);
    let s22 = s21 + b.reserved9@;
    assert(s22.len() == 39);
    assert(s22[0] == s21[0]);
    assert(s22[1] == s21[1]);
    assert(s22[2] == s21[2]);
    assert(s22[3] == s21[3]);
    assert(s22[4] == s21[4]);
    assert(s22[5] == s21[5]);
    assert(s22[6] == s21[6]);
    assert(s22[7] == s21[7]);
    assert(s22[8] == s21[8]);
    assert(s22[9] == s21[9]);
    assert(s22[10] == s21[10]);
    assert(s22[11] == s21[11]);
    assert(s22[12] == s21[12]);
    assert(s22[13] == s21[13]);
    assert(s22[14] == s21[14]);
    assert(s22[15] == s21[15]);
    assert(s22[16] == s21[16]);
    assert(s22[17] == s21[17]);
    assert(s22[18] == s21[18]);
    assert(s22[19] == s21[19]);
    assert(s22[20] == s21[20]);
    assert(s22[21] == s21[21]);
    assert(s22[22] == s21[22]);
    assert(s22[23] == s21[23]);
    assert(s22[24] == s21[24]);
    assert(s22[25] == s21[25]);
    assert(s22[26] == s21[26]);
    assert(s22[27] == s21[27]);
    assert(s22[28] == s21[28]);
    assert(s22[29] == s21[29]);
    assert(s22[30] == s21[30]);
    assert(s22[31] == s21[31]);
    assert(s22[32] == s21[32]);
    assert(s22[33] == s21[33]);
    assert(s22[34] == s21[34]);
    assert(s22[35] == s21[35]);
    let s23 = s22 + ToLe::enc(b.use_adr);
    assert(s23.len() == 40);
    assert(s23[0] == s22[0]);
    assert(s23[1] == s22[1]);
    assert(s23[2] == s22[2]);
    assert(s23[3] == s22[3]);
    assert(s23[4] == s22[4]);
    assert(s23[5] == s22[5]);
    assert(s23[6] == s22[6]);
    assert(s23[7] == s22[7]);
    assert(s23[8] == s22[8]);
    assert(s23[9] == s22[9]);
    assert(s23[10] == s22[10]);
    assert(s23[11] == s22[11]);
    assert(s23[12] == s22[12]);
    assert(s23[13] == s22[13]);
    assert(s23[14] == s22[14]);
    assert(s23[15] == s22[15]);
    assert(s23[16] == s22[16]);
    assert(s23[17] == s22[17]);
    assert(s23[18] == s22[18]);
    assert(s23[19] == s22[19]);
    assert(s23[20] == s22[20]);
    assert(s23[21] == s22[21]);
    assert(s23[22] == s22[22]);
    assert(s23[23] == s22[23]);
    assert(s23[24] == s22[24]);
    assert(s23[25] == s22[25]);
    assert(s23[26] == s22[26]);
    assert(s23[27] == s22[27]);
    assert(s23[28] == s22[28]);
    assert(s23[29] == s22[29]);
    assert(s23[30] == s22[30]);
    assert(s23[31] == s22[31]);
    assert(s23[32] == s22[32]);
    assert(s23[33] == s22[33]);
    assert(s23[34] == s22[34]);
    assert(s23[35] == s22[35]);
    assert(s23[36] == s22[36]);
    assert(s23[37] == s22[37]);
    assert(s23[38] == s22[38]);
}
pub open spec fn wf_CfgNavX5(s: Seq<u8>) -> bool { s.len() == 40 }
/// contract of CfgNavX5Ref::version
pub open spec fn get_CfgNavX5_version(s: Seq<u8>, r: u16) -> bool { r == le2(s, 0) }
/// contract of CfgNavX5Ref::mask1
pub open spec fn get_CfgNavX5_mask1(s: Seq<u8>, r: CfgNavX5Params1) -> bool { r == CfgNavX5Params1_of((le2(s, 2)) as u16) }
/// contract of CfgNavX5Ref::mask2
pub open spec fn get_CfgNavX5_mask2(s: Seq<u8>, r: CfgNavX5Params2) -> bool { r == CfgNavX5Params2_of((le4(s, 4)) as u32) }
/// contract of CfgNavX5Ref::reserved1
pub open spec fn get_CfgNavX5_reserved1(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[8] && r@[1] == s[9] }
/// contract of CfgNavX5Ref::min_svs
pub open spec fn get_CfgNavX5_min_svs(s: Seq<u8>, r: u8) -> bool { r == s[10] as int }
/// contract of CfgNavX5Ref::max_svs
pub open spec fn get_CfgNavX5_max_svs(s: Seq<u8>, r: u8) -> bool { r == s[11] as int }
/// contract of CfgNavX5Ref::min_cno_dbhz
pub open spec fn get_CfgNavX5_min_cno_dbhz(s: Seq<u8>, r: u8) -> bool { r == s[12] as int }
/// contract of CfgNavX5Ref::reserved2
pub open spec fn get_CfgNavX5_reserved2(s: Seq<u8>, r: u8) -> bool { r == s[13] as int }
/// contract of CfgNavX5Ref::ini_fix_3d
pub open spec fn get_CfgNavX5_ini_fix_3d(s: Seq<u8>, r: u8) -> bool { r == s[14] as int }
/// contract of CfgNavX5Ref::reserved3
pub open spec fn get_CfgNavX5_reserved3(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[15] && r@[1] == s[16] }
/// contract of CfgNavX5Ref::ack_aiding
pub open spec fn get_CfgNavX5_ack_aiding(s: Seq<u8>, r: u8) -> bool { r == s[17] as int }
/// contract of CfgNavX5Ref::wkn_rollover
pub open spec fn get_CfgNavX5_wkn_rollover(s: Seq<u8>, r: u16) -> bool { r == le2(s, 18) }
/// contract of CfgNavX5Ref::sig_atten_comp_mode
pub open spec fn get_CfgNavX5_sig_atten_comp_mode(s: Seq<u8>, r: u8) -> bool { r == s[20] as int }
/// contract of CfgNavX5Ref::reserved4
pub open spec fn get_CfgNavX5_reserved4(s: Seq<u8>, r: u8) -> bool { r == s[21] as int }
/// contract of CfgNavX5Ref::reserved5
pub open spec fn get_CfgNavX5_reserved5(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[22] && r@[1] == s[23] }
/// contract of CfgNavX5Ref::reserved6
pub open spec fn get_CfgNavX5_reserved6(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[24] && r@[1] == s[25] }
/// contract of CfgNavX5Ref::use_ppp
pub open spec fn get_CfgNavX5_use_ppp(s: Seq<u8>, r: u8) -> bool { r == s[26] as int }
/// contract of CfgNavX5Ref::aop_cfg
pub open spec fn get_CfgNavX5_aop_cfg(s: Seq<u8>, r: u8) -> bool { r == s[27] as int }
/// contract of CfgNavX5Ref::reserved7
pub open spec fn get_CfgNavX5_reserved7(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[28] && r@[1] == s[29] }
/// contract of CfgNavX5Ref::aop_orb_max_err
pub open spec fn get_CfgNavX5_aop_orb_max_err(s: Seq<u8>, r: u16) -> bool { r == le2(s, 30) }
/// contract of CfgNavX5Ref::reserved8
pub open spec fn get_CfgNavX5_reserved8(s: Seq<u8>, r: [u8; 4]) -> bool { r@.len() == 4 && r@[0] == s[32] && r@[1] == s[33] && r@[2] == s[34] && r@[3] == s[35] }
/// contract of CfgNavX5Ref::reserved9
pub open spec fn get_CfgNavX5_reserved9(s: Seq<u8>, r: [u8; 3]) -> bool { r@.len() == 3 && r@[0] == s[36] && r@[1] == s[37] && r@[2] == s[38] }
/// contract of CfgNavX5Ref::use_adr
pub open spec fn get_CfgNavX5_use_adr(s: Seq<u8>, r: u8) -> bool { r == s[39] as int }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgNavX5(b: CfgNavX5Builder)
    ensures wf_CfgNavX5(enc_CfgNavX5(b)),
        (forall|r: u16| #[trigger] get_CfgNavX5_version(enc_CfgNavX5(b), r) ==> r == b.version),
        (forall|r: CfgNavX5Params1| #[trigger] get_CfgNavX5_mask1(enc_CfgNavX5(b), r) ==> r == b.mask1),
        (forall|r: CfgNavX5Params2| #[trigger] get_CfgNavX5_mask2(enc_CfgNavX5(b), r) ==> r == b.mask2),
        (forall|r: [u8; 2]| #[trigger] get_CfgNavX5_reserved1(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved1@),
        (forall|r: u8| #[trigger] get_CfgNavX5_min_svs(enc_CfgNavX5(b), r) ==> r == b.min_svs),
        (forall|r: u8| #[trigger] get_CfgNavX5_max_svs(enc_CfgNavX5(b), r) ==> r == b.max_svs),
        (forall|r: u8| #[trigger] get_CfgNavX5_min_cno_dbhz(enc_CfgNavX5(b), r) ==> r == b.min_cno_dbhz),
        (forall|r: u8| #[trigger] get_CfgNavX5_reserved2(enc_CfgNavX5(b), r) ==> r == b.reserved2),
        (forall|r: u8| #[trigger] get_CfgNavX5_ini_fix_3d(enc_CfgNavX5(b), r) ==> r == b.ini_fix_3d),
        (forall|r: [u8; 2]| #[trigger] get_CfgNavX5_reserved3(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved3@),
        (forall|r: u8| #[trigger] get_CfgNavX5_ack_aiding(enc_CfgNavX5(b), r) ==> r == b.ack_aiding),
        (forall|r: u16| #[trigger] get_CfgNavX5_wkn_rollover(enc_CfgNavX5(b), r) ==> r == b.wkn_rollover),
        (forall|r: u8| #[trigger] get_CfgNavX5_sig_atten_comp_mode(enc_CfgNavX5(b), r) ==> r == b.sig_atten_comp_mode),
        (forall|r: u8| #[trigger] get_CfgNavX5_reserved4(enc_CfgNavX5(b), r) ==> r == b.reserved4),
        (forall|r: [u8; 2]| #[trigger] get_CfgNavX5_reserved5(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved5@),
        (forall|r: [u8; 2]| #[trigger] get_CfgNavX5_reserved6(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved6@),
        (forall|r: u8| #[trigger] get_CfgNavX5_use_ppp(enc_CfgNavX5(b), r) ==> r == b.use_ppp),
        (forall|r: u8| #[trigger] get_CfgNavX5_aop_cfg(enc_CfgNavX5(b), r) ==> r == b.aop_cfg),
        (forall|r: [u8; 2]| #[trigger] get_CfgNavX5_reserved7(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved7@),
        (forall|r: u16| #[trigger] get_CfgNavX5_aop_orb_max_err(enc_CfgNavX5(b), r) ==> r == b.aop_orb_max_err),
        (forall|r: [u8; 4]| #[trigger] get_CfgNavX5_reserved8(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved8@),
        (forall|r: [u8; 3]| #[trigger] get_CfgNavX5_reserved9(enc_CfgNavX5(b), r) ==> r@ =~= b.reserved9@),
        (forall|r: u8| #[trigger] get_CfgNavX5_use_adr(enc_CfgNavX5(b), r) ==> r == b.use_adr),
{
    bytes_CfgNavX5(b);
    code_CfgNavX5Params1(b.mask1); code_CfgNavX5Params2(b.mask2); 
    lemma_b2((b.version) as int); assert((le2(enc_CfgNavX5(b), 0)) == b.version);
    lemma_b2((CfgNavX5Params1_code(b.mask1)) as int); assert((le2(enc_CfgNavX5(b), 2)) == CfgNavX5Params1_code(b.mask1));
    lemma_b4((CfgNavX5Params2_code(b.mask2)) as int); assert((le4(enc_CfgNavX5(b), 4)) == CfgNavX5Params2_code(b.mask2));
    assert((enc_CfgNavX5(b)[10] as int) == b.min_svs);
    assert((enc_CfgNavX5(b)[11] as int) == b.max_svs);
    assert((enc_CfgNavX5(b)[12] as int) == b.min_cno_dbhz);
    assert((enc_CfgNavX5(b)[13] as int) == b.reserved2);
    assert((enc_CfgNavX5(b)[14] as int) == b.ini_fix_3d);
    assert((enc_CfgNavX5(b)[17] as int) == b.ack_aiding);
    lemma_b2((b.wkn_rollover) as int); assert((le2(enc_CfgNavX5(b), 18)) == b.wkn_rollover);
    assert((enc_CfgNavX5(b)[20] as int) == b.sig_atten_comp_mode);
    assert((enc_CfgNavX5(b)[21] as int) == b.reserved4);
    assert((enc_CfgNavX5(b)[26] as int) == b.use_ppp);
    assert((enc_CfgNavX5(b)[27] as int) == b.aop_cfg);
    lemma_b2((b.aop_orb_max_err) as int); assert((le2(enc_CfgNavX5(b), 30)) == b.aop_orb_max_err);
    assert((enc_CfgNavX5(b)[39] as int) == b.use_adr);
}
/// payload of a CfgTp5 message with these field values
pub open spec fn enc_CfgTp5(b: CfgTp5Builder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(CfgTp5TimePulseMode_code(b.tp_idx))
    + ToLe::enc(b.version)
    + b.reserved1@
    + ToLe::enc(sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay))
    + ToLe::enc(sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio))
    + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock))
    + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay))
    + ToLe::enc(CfgTp5Flags_code(b.flags))
}
pub proof fn bytes_CfgTp5(b: CfgTp5Builder)
    ensures enc_CfgTp5(b).len() == 32,
        enc_CfgTp5(b)[0] == CfgTp5TimePulseMode_code(b.tp_idx),
        enc_CfgTp5(b)[1] == b.version,
        enc_CfgTp5(b)[2] == b.reserved1@[0],
        enc_CfgTp5(b)[3] == b.reserved1@[1],
        enc_CfgTp5(b)[4] == b0(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay)) as int, 0x8000)),
        enc_CfgTp5(b)[5] == b1(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay)) as int, 0x8000)),
        enc_CfgTp5(b)[6] == b0(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay)) as int, 0x8000)),
        enc_CfgTp5(b)[7] == b1(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay)) as int, 0x8000)),
        enc_CfgTp5(b)[8] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int),
        enc_CfgTp5(b)[9] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int),
        enc_CfgTp5(b)[10] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int),
        enc_CfgTp5(b)[11] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int),
        enc_CfgTp5(b)[12] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int),
        enc_CfgTp5(b)[13] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int),
        enc_CfgTp5(b)[14] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int),
        enc_CfgTp5(b)[15] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int),
        enc_CfgTp5(b)[16] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int),
        enc_CfgTp5(b)[17] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int),
        enc_CfgTp5(b)[18] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int),
        enc_CfgTp5(b)[19] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int),
        enc_CfgTp5(b)[20] == b0((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int),
        enc_CfgTp5(b)[21] == b1((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int),
        enc_CfgTp5(b)[22] == b2((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int),
        enc_CfgTp5(b)[23] == b3((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int),
        enc_CfgTp5(b)[24] == b0(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int, 0x80000000)),
        enc_CfgTp5(b)[25] == b1(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int, 0x80000000)),
        enc_CfgTp5(b)[26] == b2(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int, 0x80000000)),
        enc_CfgTp5(b)[27] == b3(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int, 0x80000000)),
        enc_CfgTp5(b)[28] == b0((CfgTp5Flags_code(b.flags)) as int),
        enc_CfgTp5(b)[29] == b1((CfgTp5Flags_code(b.flags)) as int),
        enc_CfgTp5(b)[30] == b2((CfgTp5Flags_code(b.flags)) as int),
        enc_CfgTp5(b)[31] == b3((CfgTp5Flags_code(b.flags)) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(CfgTp5TimePulseMode_code(b.tp_idx));
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.version);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + b.reserved1@;
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay));
    assert(s4.len() == 6);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay));
    assert(s5.len() == 8);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    let s6 = s5 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period));
    assert(s6.len() == 12);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    let s7 = s6 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock));
    assert(s7.len() == 16);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    let s8 = s7 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio));
    assert(s8.len() == 20);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    let s9 = s8 + ToLe::enc(sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock));
    assert(s9.len() == 24);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
    assert(s9[18] == s8[18]);
    assert(s9[19] == s8[19]);
    let s10 = s9 + ToLe::enc(sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay));
    assert(s10.len() == 28);
    assert(s10[0] == s9[0]);
    assert(s10[1] == s9[1]);
    assert(s10[2] == s9[2]);
    assert(s10[3] == s9[3]);
    assert(s10[4] == s9[4]);
    assert(s10[5] == s9[5]);
    assert(s10[6] == s9[6]);
    assert(s10[7] == s9[7]);
    assert(s10[8] == s9[8]);
    assert(s10[9] == s9[9]);
    assert(s10[10] == s9[10]);
    assert(s10[11] == s9[11]);
    assert(s10[12] == s9[12]);
    assert(s10[13] == s9[13]);
    assert(s10[14] == s9[14]);
    assert(s10[15] == s9[15]);
    assert(s10[16] == s9[16]);
    assert(s10[17] == s9[17]);
    assert(s10[18] == s9[18]);
    assert(s10[19] == s9[19]);
    assert(s10[20] == s9[20]);
    assert(s10[21] == s9[21]);
    assert(s10[22] == s9[22]);
    assert(s10[23] == s9[23]);
    let s11 = s10 + ToLe::enc(CfgTp5Flags_code(b.flags));
    assert(s11.len() == 32);
    assert(s11[0] == s10[0]);
    assert(s11[1] == s10[1]);
    assert(s11[2] == s10[2]);
    assert(s11[3] == s10[3]);
    assert(s11[4] == s10[4]);
    assert(s11[5] == s10[5]);
    assert(s11[6] == s10[6]);
    assert(s11[7] == s10[7]);
    assert(s11[8] == s10[8]);
    assert(s11[9] == s10[9]);
    assert(s11[10] == s10[10]);
    assert(s11[11] == s10[11]);
    assert(s11[12] == s10[12]);
    assert(s11[13] == s10[13]);
    assert(s11[14] == s10[14]);
    assert(s11[15] == s10[15]);
    assert(s11[16] == s10[16]);
    assert(s11[17] == s10[17]);
    assert(s11[18] == s10[18]);
    assert(s11[19] == s10[19]);
    assert(s11[20] == s10[20]);
    assert(s11[21] == s10[21]);
    assert(s11[22] == s10[22]);
    assert(s11[23] == s10[23]);
    assert(s11[24] == s10[24]);
    assert(s11[25] == s10[25]);
    assert(s11[26] == s10[26]);
    assert(s11[27] == s10[27]);
}
pub open spec fn wf_CfgTp5(s: Seq<u8>) -> bool { s.len() == 32 && CfgTp5TimePulseMode_valid(s[0]) }
/// contract of CfgTp5Ref::tp_idx
pub open spec fn get_CfgTp5_tp_idx(s: Seq<u8>, r: CfgTp5TimePulseMode) -> bool { r == CfgTp5TimePulseMode_of((s[0] as int) as u8) }
/// contract of CfgTp5Ref::version
pub open spec fn get_CfgTp5_version(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgTp5Ref::reserved1
pub open spec fn get_CfgTp5_reserved1(s: Seq<u8>, r: [u8; 2]) -> bool { r@.len() == 2 && r@[0] == s[2] && r@[1] == s[3] }
/// contract of CfgTp5Ref::ant_cable_delay
pub open spec fn get_CfgTp5_ant_cable_delay(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(sg(le2(s, 4), 0x8000)), 1.0f32) }
/// contract of CfgTp5Ref::rf_group_delay
pub open spec fn get_CfgTp5_rf_group_delay(s: Seq<u8>, r: f32) -> bool { r == mul32(to32(sg(le2(s, 6), 0x8000)), 1.0f32) }
/// contract of CfgTp5Ref::freq_period
pub open spec fn get_CfgTp5_freq_period(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 8)), 1.0f64) }
/// contract of CfgTp5Ref::freq_period_lock
pub open spec fn get_CfgTp5_freq_period_lock(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 12)), 1.0f64) }
/// contract of CfgTp5Ref::pulse_len_ratio
pub open spec fn get_CfgTp5_pulse_len_ratio(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 16)), 1.0f64) }
/// contract of CfgTp5Ref::pulse_len_ratio_lock
pub open spec fn get_CfgTp5_pulse_len_ratio_lock(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(le4(s, 20)), 1.0f64) }
/// contract of CfgTp5Ref::user_delay
pub open spec fn get_CfgTp5_user_delay(s: Seq<u8>, r: f64) -> bool { r == mul64(to64(sg(le4(s, 24), 0x80000000)), 1.0f64) }
/// contract of CfgTp5Ref::flags
pub open spec fn get_CfgTp5_flags(s: Seq<u8>, r: CfgTp5Flags) -> bool { r == CfgTp5Flags_of((le4(s, 28)) as u32) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgTp5(b: CfgTp5Builder)
    ensures wf_CfgTp5(enc_CfgTp5(b)),
        (forall|r: CfgTp5TimePulseMode| #[trigger] get_CfgTp5_tp_idx(enc_CfgTp5(b), r) ==> r == b.tp_idx),
        (forall|r: u8| #[trigger] get_CfgTp5_version(enc_CfgTp5(b), r) ==> r == b.version),
        (forall|r: [u8; 2]| #[trigger] get_CfgTp5_reserved1(enc_CfgTp5(b), r) ==> r@ =~= b.reserved1@),
        (forall|r: f32| #[trigger] get_CfgTp5_ant_cable_delay(enc_CfgTp5(b), r) ==> r == mul32(to32((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay)) as int), 1.0f32)),
        (forall|r: f32| #[trigger] get_CfgTp5_rf_group_delay(enc_CfgTp5(b), r) ==> r == mul32(to32((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay)) as int), 1.0f32)),
        (forall|r: f64| #[trigger] get_CfgTp5_freq_period(enc_CfgTp5(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int), 1.0f64)),
        (forall|r: f64| #[trigger] get_CfgTp5_freq_period_lock(enc_CfgTp5(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int), 1.0f64)),
        (forall|r: f64| #[trigger] get_CfgTp5_pulse_len_ratio(enc_CfgTp5(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int), 1.0f64)),
        (forall|r: f64| #[trigger] get_CfgTp5_pulse_len_ratio_lock(enc_CfgTp5(b), r) ==> r == mul64(to64((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int), 1.0f64)),
        (forall|r: f64| #[trigger] get_CfgTp5_user_delay(enc_CfgTp5(b), r) ==> r == mul64(to64((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int), 1.0f64)),
        (forall|r: CfgTp5Flags| #[trigger] get_CfgTp5_flags(enc_CfgTp5(b), r) ==> r == b.flags),
{
    bytes_CfgTp5(b);
    code_CfgTp5TimePulseMode(b.tp_idx); code_CfgTp5Flags(b.flags); 
    assert((enc_CfgTp5(b)[0] as int) == CfgTp5TimePulseMode_code(b.tp_idx));
    assert((enc_CfgTp5(b)[1] as int) == b.version);
    lemma_b2(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay)) as int, 0x8000)); assert((sg(le2(enc_CfgTp5(b), 4), 0x8000)) == sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.ant_cable_delay));
    lemma_b2(us((sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay)) as int, 0x8000)); assert((sg(le2(enc_CfgTp5(b), 6), 0x8000)) == sb_i16::<f32>(f32::div_spec(1.0f32, 1.0f32), b.rf_group_delay));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period)) as int); assert((le4(enc_CfgTp5(b), 8)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock)) as int); assert((le4(enc_CfgTp5(b), 12)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.freq_period_lock));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio)) as int); assert((le4(enc_CfgTp5(b), 16)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio));
    lemma_b4((sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock)) as int); assert((le4(enc_CfgTp5(b), 20)) == sb_u32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.pulse_len_ratio_lock));
    lemma_b4(us((sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay)) as int, 0x80000000)); assert((sg(le4(enc_CfgTp5(b), 24), 0x80000000)) == sb_i32::<f64>(f64::div_spec(1.0f64, 1.0f64), b.user_delay));
    lemma_b4((CfgTp5Flags_code(b.flags)) as int); assert((le4(enc_CfgTp5(b), 28)) == CfgTp5Flags_code(b.flags));
}
/// payload of a CfgPrtUart message with these field values
pub open spec fn enc_CfgPrtUart(b: CfgPrtUartBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(UartPortId_code(b.portid))
    + ToLe::enc(b.reserved0)
    + ToLe::enc(b.tx_ready)
    + ToLe::enc(UartMode_code(b.mode))
    + ToLe::enc(b.baud_rate)
    + ToLe::enc(InProtoMask_code(b.in_proto_mask))
    + ToLe::enc(OutProtoMask_code(b.out_proto_mask))
    + ToLe::enc(b.flags)
    + ToLe::enc(b.reserved5)
}
pub proof fn bytes_CfgPrtUart(b: CfgPrtUartBuilder)
    ensures enc_CfgPrtUart(b).len() == 20,
        enc_CfgPrtUart(b)[0] == UartPortId_code(b.portid),
        enc_CfgPrtUart(b)[1] == b.reserved0,
        enc_CfgPrtUart(b)[2] == b0((b.tx_ready) as int),
        enc_CfgPrtUart(b)[3] == b1((b.tx_ready) as int),
        enc_CfgPrtUart(b)[4] == b0((UartMode_code(b.mode)) as int),
        enc_CfgPrtUart(b)[5] == b1((UartMode_code(b.mode)) as int),
        enc_CfgPrtUart(b)[6] == b2((UartMode_code(b.mode)) as int),
        enc_CfgPrtUart(b)[7] == b3((UartMode_code(b.mode)) as int),
        enc_CfgPrtUart(b)[8] == b0((b.baud_rate) as int),
        enc_CfgPrtUart(b)[9] == b1((b.baud_rate) as int),
        enc_CfgPrtUart(b)[10] == b2((b.baud_rate) as int),
        enc_CfgPrtUart(b)[11] == b3((b.baud_rate) as int),
        enc_CfgPrtUart(b)[12] == b0((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtUart(b)[13] == b1((InProtoMask_code(b.in_proto_mask)) as int),
        enc_CfgPrtUart(b)[14] == b0((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtUart(b)[15] == b1((OutProtoMask_code(b.out_proto_mask)) as int),
        enc_CfgPrtUart(b)[16] == b0((b.flags) as int),
        enc_CfgPrtUart(b)[17] == b1((b.flags) as int),
        enc_CfgPrtUart(b)[18] == b0((b.reserved5) as int),
        enc_CfgPrtUart(b)[19] == b1((b.reserved5) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(UartPortId_code(b.portid));
    assert(s1.len() == 1);
    let s2 = s1 + ToLe::enc(b.reserved0);
    assert(s2.len() == 2);
    assert(s2[0] == s1[0]);
    let s3 = s2 + ToLe::enc(b.tx_ready);
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    let s4 = s3 + ToLe::enc(UartMode_code(b.mode));
    assert(s4.len() == 8);
    assert(s4[0] == s3[0]);
    assert(s4[1] == s3[1]);
    assert(s4[2] == s3[2]);
    assert(s4[3] == s3[3]);
    let s5 = s4 + ToLe::enc(b.baud_rate);
    assert(s5.len() == 12);
    assert(s5[0] == s4[0]);
    assert(s5[1] == s4[1]);
    assert(s5[2] == s4[2]);
    assert(s5[3] == s4[3]);
    assert(s5[4] == s4[4]);
    assert(s5[5] == s4[5]);
    assert(s5[6] == s4[6]);
    assert(s5[7] == s4[7]);
    let s6 = s5 + ToLe::enc(InProtoMask_code(b.in_proto_mask));
    assert(s6.len() == 14);
    assert(s6[0] == s5[0]);
    assert(s6[1] == s5[1]);
    assert(s6[2] == s5[2]);
    assert(s6[3] == s5[3]);
    assert(s6[4] == s5[4]);
    assert(s6[5] == s5[5]);
    assert(s6[6] == s5[6]);
    assert(s6[7] == s5[7]);
    assert(s6[8] == s5[8]);
    assert(s6[9] == s5[9]);
    assert(s6[10] == s5[10]);
    assert(s6[11] == s5[11]);
    let s7 = s6 + ToLe::enc(OutProtoMask_code(b.out_proto_mask));
    assert(s7.len() == 16);
    assert(s7[0] == s6[0]);
    assert(s7[1] == s6[1]);
    assert(s7[2] == s6[2]);
    assert(s7[3] == s6[3]);
    assert(s7[4] == s6[4]);
    assert(s7[5] == s6[5]);
    assert(s7[6] == s6[6]);
    assert(s7[7] == s6[7]);
    assert(s7[8] == s6[8]);
    assert(s7[9] == s6[9]);
    assert(s7[10] == s6[10]);
    assert(s7[11] == s6[11]);
    assert(s7[12] == s6[12]);
    assert(s7[13] == s6[13]);
    let s8 = s7 + ToLe::enc(b.flags);
    assert(s8.len() == 18);
    assert(s8[0] == s7[0]);
    assert(s8[1] == s7[1]);
    assert(s8[2] == s7[2]);
    assert(s8[3] == s7[3]);
    assert(s8[4] == s7[4]);
    assert(s8[5] == s7[5]);
    assert(s8[6] == s7[6]);
    assert(s8[7] == s7[7]);
    assert(s8[8] == s7[8]);
    assert(s8[9] == s7[9]);
    assert(s8[10] == s7[10]);
    assert(s8[11] == s7[11]);
    assert(s8[12] == s7[12]);
    assert(s8[13] == s7[13]);
    assert(s8[14] == s7[14]);
    assert(s8[15] == s7[15]);
    let s9 = s8 + ToLe::enc(b.reserved5);
    assert(s9.len() == 20);
    assert(s9[0] == s8[0]);
    assert(s9[1] == s8[1]);
    assert(s9[2] == s8[2]);
    assert(s9[3] == s8[3]);
    assert(s9[4] == s8[4]);
    assert(s9[5] == s8[5]);
    assert(s9[6] == s8[6]);
    assert(s9[7] == s8[7]);
    assert(s9[8] == s8[8]);
    assert(s9[9] == s8[9]);
    assert(s9[10] == s8[10]);
    assert(s9[11] == s8[11]);
    assert(s9[12] == s8[12]);
    assert(s9[13] == s8[13]);
    assert(s9[14] == s8[14]);
    assert(s9[15] == s8[15]);
    assert(s9[16] == s8[16]);
    assert(s9[17] == s8[17]);
}
pub open spec fn wf_CfgPrtUart(s: Seq<u8>) -> bool { s.len() == 20 && UartPortId_valid(s[0]) }
/// contract of CfgPrtUartRef::portid
pub open spec fn get_CfgPrtUart_portid(s: Seq<u8>, r: UartPortId) -> bool { r == UartPortId_of((s[0] as int) as u8) }
/// contract of CfgPrtUartRef::reserved0
pub open spec fn get_CfgPrtUart_reserved0(s: Seq<u8>, r: u8) -> bool { r == s[1] as int }
/// contract of CfgPrtUartRef::tx_ready
pub open spec fn get_CfgPrtUart_tx_ready(s: Seq<u8>, r: u16) -> bool { r == le2(s, 2) }
/// contract of CfgPrtUartRef::mode
pub open spec fn get_CfgPrtUart_mode(s: Seq<u8>, r: UartMode) -> bool { r == UartMode_of((le4(s, 4)) as u32) }
/// contract of CfgPrtUartRef::baud_rate
pub open spec fn get_CfgPrtUart_baud_rate(s: Seq<u8>, r: u32) -> bool { r == le4(s, 8) }
/// contract of CfgPrtUartRef::in_proto_mask
pub open spec fn get_CfgPrtUart_in_proto_mask(s: Seq<u8>, r: InProtoMask) -> bool { r == InProtoMask_of((le2(s, 12)) as u16) }
/// contract of CfgPrtUartRef::out_proto_mask
pub open spec fn get_CfgPrtUart_out_proto_mask(s: Seq<u8>, r: OutProtoMask) -> bool { r == OutProtoMask_of((le2(s, 14)) as u16) }
/// contract of CfgPrtUartRef::flags
pub open spec fn get_CfgPrtUart_flags(s: Seq<u8>, r: u16) -> bool { r == le2(s, 16) }
/// contract of CfgPrtUartRef::reserved5
pub open spec fn get_CfgPrtUart_reserved5(s: Seq<u8>, r: u16) -> bool { r == le2(s, 18) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgPrtUart(b: CfgPrtUartBuilder)
    ensures wf_CfgPrtUart(enc_CfgPrtUart(b)),
        (forall|r: UartPortId| #[trigger] get_CfgPrtUart_portid(enc_CfgPrtUart(b), r) ==> r == b.portid),
        (forall|r: u8| #[trigger] get_CfgPrtUart_reserved0(enc_CfgPrtUart(b), r) ==> r == b.reserved0),
        (forall|r: u16| #[trigger] get_CfgPrtUart_tx_ready(enc_CfgPrtUart(b), r) ==> r == b.tx_ready),
        UartMode_ok(le4(enc_CfgPrtUart(b), 4) as u32),
        (forall|r: UartMode| #[trigger] get_CfgPrtUart_mode(enc_CfgPrtUart(b), r) ==> r == b.mode),
        (forall|r: u32| #[trigger] get_CfgPrtUart_baud_rate(enc_CfgPrtUart(b), r) ==> r == b.baud_rate),
        (forall|r: InProtoMask| #[trigger] get_CfgPrtUart_in_proto_mask(enc_CfgPrtUart(b), r) ==> r == b.in_proto_mask),
        (forall|r: OutProtoMask| #[trigger] get_CfgPrtUart_out_proto_mask(enc_CfgPrtUart(b), r) ==> r == b.out_proto_mask),
        (forall|r: u16| #[trigger] get_CfgPrtUart_flags(enc_CfgPrtUart(b), r) ==> r == b.flags),
        (forall|r: u16| #[trigger] get_CfgPrtUart_reserved5(enc_CfgPrtUart(b), r) ==> r == b.reserved5),
{
    bytes_CfgPrtUart(b);
    code_UartPortId(b.portid); code_UartMode(b.mode); code_InProtoMask(b.in_proto_mask); code_OutProtoMask(b.out_proto_mask); 
    assert((enc_CfgPrtUart(b)[0] as int) == UartPortId_code(b.portid));
    assert((enc_CfgPrtUart(b)[1] as int) == b.reserved0);
    lemma_b2((b.tx_ready) as int); assert((le2(enc_CfgPrtUart(b), 2)) == b.tx_ready);
    lemma_b4((UartMode_code(b.mode)) as int); assert((le4(enc_CfgPrtUart(b), 4)) == UartMode_code(b.mode));
    lemma_b4((b.baud_rate) as int); assert((le4(enc_CfgPrtUart(b), 8)) == b.baud_rate);
    lemma_b2((InProtoMask_code(b.in_proto_mask)) as int); assert((le2(enc_CfgPrtUart(b), 12)) == InProtoMask_code(b.in_proto_mask));
    lemma_b2((OutProtoMask_code(b.out_proto_mask)) as int); assert((le2(enc_CfgPrtUart(b), 14)) == OutProtoMask_code(b.out_proto_mask));
    lemma_b2((b.flags) as int); assert((le2(enc_CfgPrtUart(b), 16)) == b.flags);
    lemma_b2((b.reserved5) as int); assert((le2(enc_CfgPrtUart(b), 18)) == b.reserved5);
}
/// payload of a CfgRst message with these field values
pub open spec fn enc_CfgRst(b: CfgRstBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(NavBbrMask_code(b.nav_bbr_mask))
    + ToLe::enc(ResetMode_code(b.reset_mode))
    + ToLe::enc(b.reserved1)
}
pub proof fn bytes_CfgRst(b: CfgRstBuilder)
    ensures enc_CfgRst(b).len() == 4,
        enc_CfgRst(b)[0] == b0((NavBbrMask_code(b.nav_bbr_mask)) as int),
        enc_CfgRst(b)[1] == b1((NavBbrMask_code(b.nav_bbr_mask)) as int),
        enc_CfgRst(b)[2] == ResetMode_code(b.reset_mode),
        enc_CfgRst(b)[3] == b.reserved1,
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(NavBbrMask_code(b.nav_bbr_mask));
    assert(s1.len() == 2);
    let s2 = s1 + ToLe::enc(ResetMode_code(b.reset_mode));
    assert(s2.len() == 3);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    let s3 = s2 + ToLe::enc(b.reserved1);
    assert(s3.len() == 4);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
}
/// payload of a CfgRate message with these field values
pub open spec fn enc_CfgRate(b: CfgRateBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(b.measure_rate_ms)
    + ToLe::enc(b.nav_rate)
    + ToLe::enc(AlignmentToReferenceTime_code(b.time_ref))
}
pub proof fn bytes_CfgRate(b: CfgRateBuilder)
    ensures enc_CfgRate(b).len() == 6,
        enc_CfgRate(b)[0] == b0((b.measure_rate_ms) as int),
        enc_CfgRate(b)[1] == b1((b.measure_rate_ms) as int),
        enc_CfgRate(b)[2] == b0((b.nav_rate) as int),
        enc_CfgRate(b)[3] == b1((b.nav_rate) as int),
        enc_CfgRate(b)[4] == b0((AlignmentToReferenceTime_code(b.time_ref)) as int),
        enc_CfgRate(b)[5] == b1((AlignmentToReferenceTime_code(b.time_ref)) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(b.measure_rate_ms);
    assert(s1.len() == 2);
    let s2 = s1 + ToLe::enc(b.nav_rate);
    assert(s2.len() == 4);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    let s3 = s2 + ToLe::enc(AlignmentToReferenceTime_code(b.time_ref));
    assert(s3.len() == 6);
    assert(s3[0] == s2[0]);
    assert(s3[1] == s2[1]);
    assert(s3[2] == s2[2]);
    assert(s3[3] == s2[3]);
}
/// payload of a CfgItfm message with these field values
pub open spec fn enc_CfgItfm(b: CfgItfmBuilder) -> Seq<u8> {
    Seq::<u8>::empty()
    + ToLe::enc(CfgItfmConfig_code(b.config))
    + ToLe::enc(CfgItfmConfig2_code(b.config2))
}
pub proof fn bytes_CfgItfm(b: CfgItfmBuilder)
    ensures enc_CfgItfm(b).len() == 8,
        enc_CfgItfm(b)[0] == b0((CfgItfmConfig_code(b.config)) as int),
        enc_CfgItfm(b)[1] == b1((CfgItfmConfig_code(b.config)) as int),
        enc_CfgItfm(b)[2] == b2((CfgItfmConfig_code(b.config)) as int),
        enc_CfgItfm(b)[3] == b3((CfgItfmConfig_code(b.config)) as int),
        enc_CfgItfm(b)[4] == b0((CfgItfmConfig2_code(b.config2)) as int),
        enc_CfgItfm(b)[5] == b1((CfgItfmConfig2_code(b.config2)) as int),
        enc_CfgItfm(b)[6] == b2((CfgItfmConfig2_code(b.config2)) as int),
        enc_CfgItfm(b)[7] == b3((CfgItfmConfig2_code(b.config2)) as int),
{
    let s0 = Seq::<u8>::empty();
    let s1 = s0 + ToLe::enc(CfgItfmConfig_code(b.config));
    assert(s1.len() == 4);
    let s2 = s1 + ToLe::enc(CfgItfmConfig2_code(b.config2));
    assert(s2.len() == 8);
    assert(s2[0] == s1[0]);
    assert(s2[1] == s1[1]);
    assert(s2[2] == s1[2]);
    assert(s2[3] == s1[3]);
}
pub open spec fn wf_CfgItfm(s: Seq<u8>) -> bool { s.len() == 8 }
/// contract of CfgItfmRef::config
pub open spec fn get_CfgItfm_config(s: Seq<u8>, r: CfgItfmConfig) -> bool { r == CfgItfmConfig_of((le4(s, 0)) as u32) }
/// contract of CfgItfmRef::config2
pub open spec fn get_CfgItfm_config2(s: Seq<u8>, r: CfgItfmConfig2) -> bool { r == CfgItfmConfig2_of((le4(s, 4)) as u32) }
/// what every accessor of the received message returns for a built one
pub proof fn theorem_roundtrip_CfgItfm(b: CfgItfmBuilder)
    ensures wf_CfgItfm(enc_CfgItfm(b)),
        (forall|r: CfgItfmConfig| #[trigger] get_CfgItfm_config(enc_CfgItfm(b), r) ==> CfgItfmConfig_fits(b.config) ==> r == b.config),
        (forall|r: CfgItfmConfig2| #[trigger] get_CfgItfm_config2(enc_CfgItfm(b), r) ==> CfgItfmConfig2_fits(b.config2) ==> r == b.config2),
{
    bytes_CfgItfm(b);
    code_CfgItfmConfig(b.config); code_CfgItfmConfig2(b.config2); 
    lemma_b4((CfgItfmConfig_code(b.config)) as int); assert((le4(enc_CfgItfm(b), 0)) == CfgItfmConfig_code(b.config));
    lemma_b4((CfgItfmConfig2_code(b.config2)) as int); assert((le4(enc_CfgItfm(b), 4)) == CfgItfmConfig2_code(b.config2));
}
%postlude
%source exp
%take struct CfgNavX5
%take impl UbxPacketMeta for CfgNavX5
%only impl UbxPacketMeta for CfgNavX5 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgNavX5Builder
%take impl CfgNavX5Builder
%only impl CfgNavX5Builder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgNavX5Builder
%header impl UbxPacketCreator for CfgNavX5Builder
impl CfgNavX5Builder
%take impl From<CfgNavX5Builder> for [u8;48usize]
%header impl From<CfgNavX5Builder> for [u8;48usize]
impl FrameFrom<CfgNavX5Builder> for [u8; 48]
%fn CfgNavX5Builder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x23u8, enc_CfgNavX5(self)),
%start CfgNavX5Builder::into_packet_bytes
        proof { bytes_CfgNavX5(self); }
%end CfgNavX5Builder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x23u8, enc_CfgNavX5(self))); }
%fn <From<CfgNavX5Builder> for [u8;48usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x23u8, enc_CfgNavX5(x)),
%fn <UbxPacketCreator for CfgNavX5Builder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x23u8, enc_CfgNavX5(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgNavX5Builder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgNavX5(self); lemma_frame(w0, 0x6u8, 0x23u8, enc_CfgNavX5(self)); }
%end <UbxPacketCreator for CfgNavX5Builder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x23u8, b0(40), b1(40)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgNavX5(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgNavX5(me) + seq![ck.0, ck.1]));
        }
%take struct CfgTp5
%take impl UbxPacketMeta for CfgTp5
%only impl UbxPacketMeta for CfgTp5 = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgTp5Builder
%take impl CfgTp5Builder
%only impl CfgTp5Builder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgTp5Builder
%header impl UbxPacketCreator for CfgTp5Builder
impl CfgTp5Builder
%take impl From<CfgTp5Builder> for [u8;40usize]
%header impl From<CfgTp5Builder> for [u8;40usize]
impl FrameFrom<CfgTp5Builder> for [u8; 40]
%fn CfgTp5Builder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x31u8, enc_CfgTp5(self)),
%start CfgTp5Builder::into_packet_bytes
        proof { bytes_CfgTp5(self); }
%end CfgTp5Builder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x31u8, enc_CfgTp5(self))); }
%fn <From<CfgTp5Builder> for [u8;40usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x31u8, enc_CfgTp5(x)),
%fn <UbxPacketCreator for CfgTp5Builder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x31u8, enc_CfgTp5(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgTp5Builder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgTp5(self); lemma_frame(w0, 0x6u8, 0x31u8, enc_CfgTp5(self)); }
%end <UbxPacketCreator for CfgTp5Builder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x31u8, b0(32), b1(32)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgTp5(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgTp5(me) + seq![ck.0, ck.1]));
        }
%take struct CfgPrtUart
%take impl UbxPacketMeta for CfgPrtUart
%only impl UbxPacketMeta for CfgPrtUart = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgPrtUartBuilder
%take impl CfgPrtUartBuilder
%only impl CfgPrtUartBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgPrtUartBuilder
%header impl UbxPacketCreator for CfgPrtUartBuilder
impl CfgPrtUartBuilder
%take impl From<CfgPrtUartBuilder> for [u8;28usize]
%header impl From<CfgPrtUartBuilder> for [u8;28usize]
impl FrameFrom<CfgPrtUartBuilder> for [u8; 28]
%fn CfgPrtUartBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtUart(self)),
%start CfgPrtUartBuilder::into_packet_bytes
        proof { bytes_CfgPrtUart(self); }
%end CfgPrtUartBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x0u8, enc_CfgPrtUart(self))); }
%fn <From<CfgPrtUartBuilder> for [u8;28usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x0u8, enc_CfgPrtUart(x)),
%fn <UbxPacketCreator for CfgPrtUartBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x0u8, enc_CfgPrtUart(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgPrtUartBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgPrtUart(self); lemma_frame(w0, 0x6u8, 0x0u8, enc_CfgPrtUart(self)); }
%end <UbxPacketCreator for CfgPrtUartBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x0u8, b0(20), b1(20)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgPrtUart(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgPrtUart(me) + seq![ck.0, ck.1]));
        }
%take struct CfgRst
%take impl UbxPacketMeta for CfgRst
%only impl UbxPacketMeta for CfgRst = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgRstBuilder
%take impl CfgRstBuilder
%only impl CfgRstBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgRstBuilder
%header impl UbxPacketCreator for CfgRstBuilder
impl CfgRstBuilder
%take impl From<CfgRstBuilder> for [u8;12usize]
%header impl From<CfgRstBuilder> for [u8;12usize]
impl FrameFrom<CfgRstBuilder> for [u8; 12]
%fn CfgRstBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x4u8, enc_CfgRst(self)),
%start CfgRstBuilder::into_packet_bytes
        proof { bytes_CfgRst(self); }
%end CfgRstBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x4u8, enc_CfgRst(self))); }
%fn <From<CfgRstBuilder> for [u8;12usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x4u8, enc_CfgRst(x)),
%fn <UbxPacketCreator for CfgRstBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x4u8, enc_CfgRst(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgRstBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgRst(self); lemma_frame(w0, 0x6u8, 0x4u8, enc_CfgRst(self)); }
%end <UbxPacketCreator for CfgRstBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x4u8, b0(4), b1(4)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgRst(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgRst(me) + seq![ck.0, ck.1]));
        }
%take struct CfgRate
%take impl UbxPacketMeta for CfgRate
%only impl UbxPacketMeta for CfgRate = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgRateBuilder
%take impl CfgRateBuilder
%only impl CfgRateBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgRateBuilder
%header impl UbxPacketCreator for CfgRateBuilder
impl CfgRateBuilder
%take impl From<CfgRateBuilder> for [u8;14usize]
%header impl From<CfgRateBuilder> for [u8;14usize]
impl FrameFrom<CfgRateBuilder> for [u8; 14]
%fn CfgRateBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x8u8, enc_CfgRate(self)),
%start CfgRateBuilder::into_packet_bytes
        proof { bytes_CfgRate(self); }
%end CfgRateBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x8u8, enc_CfgRate(self))); }
%fn <From<CfgRateBuilder> for [u8;14usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x8u8, enc_CfgRate(x)),
%fn <UbxPacketCreator for CfgRateBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x8u8, enc_CfgRate(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgRateBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgRate(self); lemma_frame(w0, 0x6u8, 0x8u8, enc_CfgRate(self)); }
%end <UbxPacketCreator for CfgRateBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x8u8, b0(6), b1(6)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgRate(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgRate(me) + seq![ck.0, ck.1]));
        }
%take struct CfgItfm
%take impl UbxPacketMeta for CfgItfm
%only impl UbxPacketMeta for CfgItfm = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgItfmBuilder
%take impl CfgItfmBuilder
%only impl CfgItfmBuilder = PACKET_LEN into_packet_bytes
%take impl UbxPacketCreator for CfgItfmBuilder
%header impl UbxPacketCreator for CfgItfmBuilder
impl CfgItfmBuilder
%take impl From<CfgItfmBuilder> for [u8;16usize]
%header impl From<CfgItfmBuilder> for [u8;16usize]
impl FrameFrom<CfgItfmBuilder> for [u8; 16]
%fn CfgItfmBuilder::into_packet_bytes | ret=r
        ensures r@ == frame(0x6u8, 0x39u8, enc_CfgItfm(self)),
%start CfgItfmBuilder::into_packet_bytes
        proof { bytes_CfgItfm(self); }
%end CfgItfmBuilder::into_packet_bytes
        proof { assert(ret@ =~= frame(0x6u8, 0x39u8, enc_CfgItfm(self))); }
%fn <From<CfgItfmBuilder> for [u8;16usize]>::from | ret=r | rename=frame_from
        ensures r@ == frame(0x6u8, 0x39u8, enc_CfgItfm(x)),
%fn <UbxPacketCreator for CfgItfmBuilder>::create_packet | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + frame(0x6u8, 0x39u8, enc_CfgItfm(self)),
            r is Err ==> final(out).err() == Some(r->Err_0),
%start <UbxPacketCreator for CfgItfmBuilder>::create_packet
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_CfgItfm(self); lemma_frame(w0, 0x6u8, 0x39u8, enc_CfgItfm(self)); }
%end <UbxPacketCreator for CfgItfmBuilder>::create_packet
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x6u8, 0x39u8, b0(8), b1(8)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_CfgItfm(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_CfgItfm(me) + seq![ck.0, ck.1]));
        }
