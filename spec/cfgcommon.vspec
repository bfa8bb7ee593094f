%# Shared by the units over the configuration items and the configuration-set message.
%open
%prelude
pub open spec fn hi(r: int) -> int { r / 0x100000000 }
impl ToLe for u64 {
    type Out = [u8; 8];
    open spec fn outv(o: [u8; 8]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { let v = self as int; seq![b0(v), b1(v), b2(v), b3(v), b0(hi(v)), b1(hi(v)), b2(hi(v)), b3(hi(v))] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
impl ToLe for usize {
    type Out = [u8; 8];
    open spec fn outv(o: [u8; 8]) -> Seq<u8> { o@ }
    open spec fn enc(self) -> Seq<u8> { let v = self as int; seq![b0(v), b1(v), b2(v), b3(v), b0(hi(v)), b1(hi(v)), b2(hi(v)), b3(hi(v))] }
    #[verifier::external_body] /*discharged: kani std_le*/
    fn to_le_v(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
// core::iter::Extend<u8> (and, for the message builder, Deref to a byte slice): what the outputs have to do
pub trait Sink {
    spec fn sv(&self) -> Seq<u8>;
    fn extend_once(&mut self, b: u8)
        ensures final(self).sv() == old(self).sv().push(b);
}
pub trait SliceSink: Sink {
    fn len_v(&self) -> (r: usize)
        ensures r == self.sv().len();
    fn set_v(&mut self, i: usize, b: u8)
        requires i < old(self).sv().len(),
        ensures final(self).sv() == old(self).sv().update(i as int, b);
    fn from_v(&self, i: usize) -> (r: &[u8])
        requires i <= self.sv().len(),
        ensures r@ == self.sv().skip(i as int);
}
impl Sink for Vec<u8> {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    fn extend_once(&mut self, b: u8) { self.push(b) }
}
impl SliceSink for Vec<u8> {
    fn len_v(&self) -> (r: usize) { self.len() }
    fn set_v(&mut self, i: usize, b: u8) { self[i] = b; }
    fn from_v(&self, i: usize) -> (r: &[u8]) { &self.as_slice()[i..] }
}
/// whether the bytes `e` fit
#[verifier::opaque]
pub open spec fn room(s: Seq<u8>, e: Seq<u8>) -> bool { s.len() >= e.len() }
/// `s` with its first bytes replaced by `e`
#[verifier::opaque]
pub open spec fn put(s: Seq<u8>, e: Seq<u8>) -> Seq<u8> { e + s.skip(e.len() as int) }
%gsubst
$b.extend(core::iter::once($x)) ==> $b.extend_once($x)
;;
const fn ==> fn
