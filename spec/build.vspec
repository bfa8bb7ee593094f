%# Shared by the units over the packet builders (macro-expanded text of /repo).
%prelude
/// `w`, then a header, then the payload bytes so far
#[verifier::opaque]
pub open spec fn cat(w: Seq<u8>, h: Seq<u8>, e: Seq<u8>) -> Seq<u8> { w + h + e }
/// checksum of a header and the payload bytes so far
#[verifier::opaque]
pub open spec fn cks(h: Seq<u8>, e: Seq<u8>) -> (u8, u8) { ubx_cksum(h + e) }
pub broadcast proof fn lemma_cat(w: Seq<u8>, h: Seq<u8>, e: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] (cat(w, h, e) + b) == cat(w, h, e + b),
{ reveal(cat); assert(w + h + e + b =~= w + h + (e + b)); }
pub broadcast proof fn lemma_cks(h: Seq<u8>, e: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] fl_from(cks(h, e), b) == cks(h, e + b),
{ reveal(cks); lemma_fl_concat((0u8, 0u8), h + e, b); assert(h + e + b =~= h + (e + b)); }
pub proof fn lemma_begin(w: Seq<u8>)
    ensures forall|h: Seq<u8>| #[trigger] (w + h) == cat(w, h, Seq::empty()),
        forall|h: Seq<u8>| #[trigger] fl_from((0u8, 0u8), h) == cks(h, Seq::empty()),
{
    reveal(cat); reveal(cks);
    assert forall|h: Seq<u8>| #[trigger] (w + h) == cat(w, h, Seq::empty()) by { assert(w + h + Seq::<u8>::empty() =~= w + h); }
    assert forall|h: Seq<u8>| #[trigger] fl_from((0u8, 0u8), h) == cks(h, Seq::empty()) by { assert(h + Seq::<u8>::empty() =~= h); }
}
/// header, payload and checksum make the frame
pub proof fn lemma_frame(w: Seq<u8>, class: u8, id: u8, p: Seq<u8>)
    ensures ({
        let h = seq![0xb5u8, 0x62u8, class, id, b0(p.len() as int), b1(p.len() as int)];
        let ck = cks(h.subrange(2, 6), p);
        cat(w, h, p + seq![ck.0, ck.1]) == w + frame(class, id, p)
    }),
{
    reveal(cat); reveal(cks);
    let h = seq![0xb5u8, 0x62u8, class, id, b0(p.len() as int), b1(p.len() as int)];
    assert(h.subrange(2, 6) + p =~= body(class, id, p));
    let ck = ubx_cksum(body(class, id, p));
    assert(w + h + (p + seq![ck.0, ck.1]) =~= w + frame(class, id, p));
}

// uN::to_le_bytes: the array length is an anonymous constant, the extraction renames the calls.
pub trait ToLe: Sized {
    type Out;
    spec fn outv(o: Self::Out) -> Seq<u8>;
    spec fn enc(self) -> Seq<u8>;
    fn to_le_v(self) -> (r: Self::Out)
        ensures Self::outv(r) == self.enc();
}
impl ToLe for u8 {
    type Out = [u8; 1];
    open spec fn outv(o: [u8; 1]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { seq![self] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 1]) { self.to_le_bytes() }
}
impl ToLe for i8 {
    type Out = [u8; 1];
    open spec fn outv(o: [u8; 1]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { seq![b0(us(self as int, 0x80))] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 1]) { self.to_le_bytes() }
}
impl ToLe for u16 {
    type Out = [u8; 2];
    open spec fn outv(o: [u8; 2]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { seq![b0(self as int), b1(self as int)] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
impl ToLe for i16 {
    type Out = [u8; 2];
    open spec fn outv(o: [u8; 2]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { let v = us(self as int, 0x8000); seq![b0(v), b1(v)] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
impl ToLe for u32 {
    type Out = [u8; 4];
    open spec fn outv(o: [u8; 4]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { seq![b0(self as int), b1(self as int), b2(self as int), b3(self as int)] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
impl ToLe for i32 {
    type Out = [u8; 4];
    open spec fn outv(o: [u8; 4]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { let v = us(self as int, 0x80000000); seq![b0(v), b1(v), b2(v), b3(v)] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}

// quotient of two floats: the function the hardware computes
pub trait FloatDiv: Sized + Copy {
    spec fn div_spec(a: Self, b: Self) -> Self;
    fn fdiv(a: Self, b: Self) -> (r: Self)
        ensures r == Self::div_spec(a, b);
}
pub uninterp spec fn div64(a: f64, b: f64) -> f64;
pub uninterp spec fn div32(a: f32, b: f32) -> f32;
impl FloatDiv for f64 {
    open spec fn div_spec(a: f64, b: f64) -> f64 { div64(a, b) }
    #[verifier::external_body]
    fn fdiv(a: f64, b: f64) -> (r: f64) { a / b }
}
impl FloatDiv for f32 {
    open spec fn div_spec(a: f32, b: f32) -> f32 { div32(a, b) }
    #[verifier::external_body]
    fn fdiv(a: f32, b: f32) -> (r: f32) { a / b }
}
pub fn fdiv<T: FloatDiv>(a: T, b: T) -> (r: T) ensures r == T::div_spec(a, b), { T::fdiv(a, b) }

// ---------------------------------------------------------------- ScaleBack (its own contract: unit scaleback)
pub struct ScaleBack<T>(pub T);
/*stub: scaleback*/ pub uninterp spec fn sb_i8<T>(k: T, x: T) -> i8;
/*stub: scaleback*/ pub uninterp spec fn sb_i16<T>(k: T, x: T) -> i16;
/*stub: scaleback*/ pub uninterp spec fn sb_i32<T>(k: T, x: T) -> i32;
/*stub: scaleback*/ pub uninterp spec fn sb_u8<T>(k: T, x: T) -> u8;
/*stub: scaleback*/ pub uninterp spec fn sb_u16<T>(k: T, x: T) -> u16;
/*stub: scaleback*/ pub uninterp spec fn sb_u32<T>(k: T, x: T) -> u32;
impl<T> ScaleBack<T> {
    #[verifier::external_body] /*stub: scaleback*/
    fn as_i8(self, x: T) -> (r: i8) ensures r == sb_i8(self.0, x), { unimplemented!() }
    #[verifier::external_body] /*stub: scaleback*/
    fn as_i16(self, x: T) -> (r: i16) ensures r == sb_i16(self.0, x), { unimplemented!() }
    #[verifier::external_body] /*stub: scaleback*/
    fn as_i32(self, x: T) -> (r: i32) ensures r == sb_i32(self.0, x), { unimplemented!() }
    #[verifier::external_body] /*stub: scaleback*/
    fn as_u8(self, x: T) -> (r: u8) ensures r == sb_u8(self.0, x), { unimplemented!() }
    #[verifier::external_body] /*stub: scaleback*/
    fn as_u16(self, x: T) -> (r: u16) ensures r == sb_u16(self.0, x), { unimplemented!() }
    #[verifier::external_body] /*stub: scaleback*/
    fn as_u32(self, x: T) -> (r: u32) ensures r == sb_u32(self.0, x), { unimplemented!() }
}

pub trait ByDefault: Sized {
    spec fn is_dflt(r: Self) -> bool;
    fn dflt() -> (r: Self) ensures Self::is_dflt(r);
}
impl ByDefault for u8 {
    open spec fn is_dflt(r: u8) -> bool { r == 0 }
    fn dflt() -> u8 { 0 }
}

%source error
%take enum MemWriterError
%source exp ubx_packets
%take const SYNC_CHAR_1
%take const SYNC_CHAR_2
%take fn ubx_checksum
%take struct UbxChecksumCalc
%take impl UbxChecksumCalc
%take impl Default for UbxChecksumCalc
%take trait MemWriter

%header impl Default for UbxChecksumCalc
impl UbxChecksumCalc
%fn <Default for UbxChecksumCalc>::default | ret=r
        ensures r.st() == (0u8, 0u8),
%insert impl UbxChecksumCalc
    pub closed spec fn st(&self) -> (u8, u8) { (self.ck_a, self.ck_b) }
%fn UbxChecksumCalc::update
        ensures final(self).st() == fl_from(old(self).st(), chunk@),
%start UbxChecksumCalc::update
        proof { assert(chunk@.take(0) =~= Seq::<u8>::empty()); }
%loop UbxChecksumCalc::update 0 for it
            invariant self.st() == fl_from(old(self).st(), chunk@.take(it.index@)), 0 <= it.index@ <= chunk@.len(),
%loopstart UbxChecksumCalc::update 0
            proof { lemma_fl_push(old(self).st(), chunk@, it.index@); }
%loopafter UbxChecksumCalc::update 0
        proof { assert(chunk@.take(chunk@.len() as int) =~= chunk@); }
%fn UbxChecksumCalc::result | ret=r
        ensures r == self.st(),
%fn ubx_checksum | ret=r
        ensures r == ubx_cksum(data@),
            forall|s: Seq<u8>| s =~= data@ ==> #[trigger] ubx_cksum(s) == r,
%start ubx_checksum
        proof { assert(data@.take(0) =~= Seq::<u8>::empty()); }
%loop ubx_checksum 0 for it
            invariant (ck_a, ck_b) == ubx_cksum(data@.take(it.index@)), 0 <= it.index@ <= data@.len(),
%loopstart ubx_checksum 0
            proof { lemma_fl_push((0u8, 0u8), data@, it.index@); }
%loopafter ubx_checksum 0
        proof { assert(data@.take(data@.len() as int) =~= data@); }

%insert trait MemWriter
    /// everything the writer has accepted so far
    spec fn written(&self) -> Seq<u8>;
    /// the error it returned, if it has refused a request
    spec fn err(&self) -> Option<MemWriterError<Self::Error>>;
%fn MemWriter::reserve_allocate | ret=r
        requires old(self).err() is None,
        ensures final(self).written() == old(self).written(),
            r is Ok ==> final(self).err() is None,
            r is Err ==> final(self).err() == Some(r->Err_0),
%fn MemWriter::write | ret=r
        requires old(self).err() is None,
        ensures
            r is Ok ==> final(self).err() is None && final(self).written() == old(self).written() + buf@,
            r is Err ==> final(self).err() == Some(r->Err_0) && final(self).written() == old(self).written(),

%gsubst
::core::default::Default::default() ==> ByDefault::dflt()
;;
.to_le_bytes() ==> .to_le_v()
;;
ScaleBack::<f32>(1. / $s) ==> ScaleBack::<f32>(fdiv(1., $s))
;;
ScaleBack::<f64>(1. / $s) ==> ScaleBack::<f64>(fdiv(1., $s))
