%# ublox/src/ubx_packets.rs: poll requests, the vector as a writer; rate helpers.
%open
%prelude
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
// std::io::Write for Vec<u8> appends everything and cannot fail (documentation of std)
#[verifier::external_body]
pub fn vec_io_write(v: &mut Vec<u8>, buf: &[u8]) -> (r: Result<usize, std::io::Error>)
    ensures r is Ok, r->Ok_0 == buf@.len(), final(v)@ == old(v)@ + buf@,
{ std::io::Write::write(v, buf) }
%take impl MemWriter for Vec<u8>
%insert impl MemWriter for Vec<u8>
    open spec fn written(&self) -> Seq<u8> { self@ }
    open spec fn err(&self) -> Option<MemWriterError<std::io::Error>> { None }
%take struct UbxPacketRequest
%take impl UbxPacketRequest
%fn UbxPacketRequest::request_for | ret=r
        ensures r.req_class == T::CLASS, r.req_id == T::ID,
%fn UbxPacketRequest::request_for_unknown | ret=r
        ensures r.req_class == req_class, r.req_id == req_id,
%fn UbxPacketRequest::into_packet_bytes | ret=r
        ensures r@ == frame(self.req_class, self.req_id, Seq::empty()),
%end UbxPacketRequest::into_packet_bytes
        proof { reveal(b0); reveal(b1); assert(ret@ =~= frame(self.req_class, self.req_id, Seq::empty())); }
%take struct CfgMsgSinglePortBuilder
%take struct CfgMsgAllPortsBuilder
%take struct CfgMsgSinglePort
%take struct CfgMsgAllPorts
%take impl CfgMsgSinglePortBuilder
%only impl CfgMsgSinglePortBuilder = set_rate_for
%take impl CfgMsgAllPortsBuilder
%only impl CfgMsgAllPortsBuilder = set_rate_for
%fn CfgMsgSinglePortBuilder::set_rate_for | ret=r
        ensures r.msg_class == T::CLASS, r.msg_id == T::ID, r.rate == rate,
%fn CfgMsgAllPortsBuilder::set_rate_for | ret=r
        ensures r.msg_class == T::CLASS, r.msg_id == T::ID, r.rates == rates,
%gsubst
<dyn std::io::Write>::write(self, buf) ==> vec_io_write(self, buf)
;;
.map_err(MemWriterError::Custom) ==> .map_err(|e: std::io::Error| MemWriterError::Custom(e))
%postlude
/// The two ways to use a poll request of a declared message.
pub fn theorem_request_for<T: UbxPacketMeta>() -> (r: [u8; 8])
    ensures r@ == frame(T::CLASS, T::ID, Seq::empty()),
{ UbxPacketRequest::request_for::<T>().into_packet_bytes() }
pub fn theorem_request_for_unknown(class: u8, id: u8) -> (r: [u8; 8])
    ensures r@ == frame(class, id, Seq::empty()),
{ UbxPacketRequest::request_for_unknown(class, id).into_packet_bytes() }
