%# Configuration items (cfg_val.rs) and the configuration-set message.
%open
%shard 8 impl UbxChecksumCalc
%prelude
pub open spec fn le2(s: Seq<u8>, o: int) -> int { s[o] + 0x100 * s[o + 1] }
pub open spec fn le4(s: Seq<u8>, o: int) -> int { s[o] + 0x100 * s[o + 1] + 0x10000 * s[o + 2] + 0x1000000 * s[o + 3] }
pub open spec fn le8(s: Seq<u8>, o: int) -> int { le4(s, o) + 0x100000000 * le4(s, o + 4) }
pub open spec fn sg(n: int, half: int) -> int { if n < half { n } else { n - 2 * half } }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le2(b@, 0), { u16::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn i16_from_le_bytes(b: [u8; 2]) -> (r: i16) ensures r == sg(le2(b@, 0), 0x8000), { i16::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le4(b@, 0), { u32::from_le_bytes(b) }
#[verifier::external_body] /*discharged: kani std_le*/
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le8(b@, 0), { u64::from_le_bytes(b) }

/// documented size classes of a key: bytes of the value
pub open spec fn class_len(k: int) -> int { let c = (k / 0x10000000) % 8; if c == 3 { 2 } else if c == 4 { 4 } else if c == 5 { 8 } else { 1 } }
pub open spec fn size_of_class(s: StorageSize) -> int { match s { StorageSize::OneBit => 1int, StorageSize::OneByte => 1, StorageSize::TwoBytes => 2, StorageSize::FourBytes => 4, StorageSize::EightBytes => 8 } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// encodings: the key, little-endian, followed by the value in 1, 2, 4 or 8 bytes, little-endian
#[verifier::opaque]
pub open spec fn kv1(k: int, r: int) -> Seq<u8> { seq![b0(k), b1(k), b2(k), b3(k), b0(r)] }
#[verifier::opaque]
pub open spec fn kv2(k: int, r: int) -> Seq<u8> { seq![b0(k), b1(k), b2(k), b3(k), b0(r), b1(r)] }
#[verifier::opaque]
pub open spec fn kv4(k: int, r: int) -> Seq<u8> { seq![b0(k), b1(k), b2(k), b3(k), b0(r), b1(r), b2(r), b3(r)] }
#[verifier::opaque]
pub open spec fn kv8(k: int, r: int) -> Seq<u8> { seq![b0(k), b1(k), b2(k), b3(k), b0(r), b1(r), b2(r), b3(r), b0(hi(r)), b1(hi(r)), b2(hi(r)), b3(hi(r))] }
pub broadcast proof fn lemma_kv_len(k: int, r: int)
    ensures #![trigger kv1(k, r)] #![trigger kv2(k, r)] #![trigger kv4(k, r)] #![trigger kv8(k, r)]
        kv1(k, r).len() == 5, kv2(k, r).len() == 6, kv4(k, r).len() == 8, kv8(k, r).len() == 12,
{ reveal(kv1); reveal(kv2); reveal(kv4); reveal(kv8); }
pub proof fn lemma_kv(k: int, r: int)
    requires 0 <= k < 0x100000000,
    ensures
        0 <= r < 0x100 ==> kv1(k, r)[4] == r,
        0 <= r < 0x10000 ==> le2(kv2(k, r), 4) == r,
        0 <= r < 0x100000000 ==> le4(kv4(k, r), 4) == r,
        0 <= r < 0x10000000000000000 ==> le8(kv8(k, r), 4) == r,
        le4(kv1(k, r), 0) == k, le4(kv2(k, r), 0) == k, le4(kv4(k, r), 0) == k, le4(kv8(k, r), 0) == k,
{
    reveal(kv1); reveal(kv2); reveal(kv4); reveal(kv8);
    lemma_b4(k);
    if 0 <= r < 0x100 { lemma_b1(r); }
    if 0 <= r < 0x10000 { lemma_b2(r); }
    if 0 <= r < 0x100000000 { lemma_b4(r); }
    if 0 <= r < 0x10000000000000000 {
        let l = r % 0x100000000;
        lemma_b4(l);
        lemma_b4(hi(r));
        assert(b0(l) == b0(r) && b1(l) == b1(r) && b2(l) == b2(r) && b3(l) == b3(r)) by {
            reveal(b0); reveal(b1); reveal(b2); reveal(b3);
            let u = r as u64;
            let v = (u % 0x100000000) as u64;
            assert(v % 0x100 == u % 0x100 && (v / 0x100) % 0x100 == (u / 0x100) % 0x100 && (v / 0x10000) % 0x100 == (u / 0x10000) % 0x100 && (v / 0x1000000) % 0x100 == (u / 0x1000000) % 0x100) by (bit_vector)
                requires v == u % 0x100000000;
        }
    }
}
#[verifier::external_body] /*discharged: its precondition (never called)*/
pub fn unreachable_panic() -> ! requires false, { panic!() }
pub struct CfgInfMask { pub b: u8 }
impl CfgInfMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub fn from_bits_truncate(bits: u8) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
impl Clone for CfgInfMask { fn clone(&self) -> (r: Self) ensures r == *self, { *self } }
impl Copy for CfgInfMask {}
/// `b[..n].copy_from_slice(s)`
pub fn put_front(b: &mut [u8], n: usize, s: &[u8])
    requires n == s@.len(), room(old(b)@, s@),
    ensures final(b)@ == put(old(b)@, s@),
{
    proof { reveal(room); }
    b[..n].copy_from_slice(s);
    reveal(put);
    assert(b@ =~= s@ + old(b)@.skip(n as int));
}
%source exp
%take struct KeyId
%derive struct KeyId :: #[derive(Clone, Copy)]
%take enum StorageSize
%take impl KeyId
%take impl StorageSize
%take enum CfgVal
%take impl CfgVal
%constfn KeyId::SIZE
        ensures r == 4,
%fn StorageSize::to_usize | ret=r
        ensures r == size_of_class(self),
%fn KeyId::value_size | ret=r
        ensures size_of_class(r) == class_len(self.0 as int), r == ({ let c = (self.0 as int / 0x10000000) % 8;
            if c == 2 { StorageSize::OneByte } else if c == 3 { StorageSize::TwoBytes } else if c == 4 { StorageSize::FourBytes } else if c == 5 { StorageSize::EightBytes } else { StorageSize::OneBit } }),
%start KeyId::value_size
        proof { let x = self.0; assert((x >> 28) & 7 == (x / 0x10000000) % 8) by (bit_vector); }
%fn KeyId::group_id | ret=r
        ensures r == (self.0 as int / 0x10000) % 0x100,
%start KeyId::group_id
        proof { let x = self.0; assert((x >> 16) as u8 == (x / 0x10000) % 0x100) by (bit_vector); }
%fn KeyId::item_id | ret=r
        ensures r == self.0 as int % 0x100,
%start KeyId::item_id
        proof { let x = self.0; assert(x as u8 == x % 0x100) by (bit_vector); }
%start CfgVal::write_to
        hide(item);
%start CfgVal::extend_to
        hide(item);
%start CfgVal::len
        broadcast use lemma_kv_len;
%start CfgVal::is_empty
        proof { lemma_item_len(*self); }
%fn CfgVal::len | ret=r
        ensures r == item(*self).len(),
%fn CfgVal::is_empty | ret=r
        ensures !r,
%fn CfgVal::parse | ret=r
        requires buf@.len() >= 4, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%fn CfgVal::write_to | ret=r
        requires room(old(buf)@, item(*self)),
        ensures r == item(*self).len(), final(buf)@ == put(old(buf)@, item(*self)),
%fn CfgVal::extend_to | ret=r
        ensures r == item(*self).len(), final(buf).sv() == old(buf).sv() + item(*self),
%subst CfgVal::extend_to
T: core::iter::Extend<u8> ==> T: Sink
%gsubst
Self::KEY ==> Self::KEY()
;;
KeyId::SIZE ==> KeyId::SIZE()
;;
$b[..$n].copy_from_slice(&$s[..]) ==> put_front($b, $n, &$s)
;;
::core::panicking::panic($m) ==> unreachable_panic()
;;
::core::panicking::panic_fmt($m) ==> unreachable_panic()
;;
u32::from_le_bytes( ==> u32_from_le_bytes(
;;
u16::from_le_bytes( ==> u16_from_le_bytes(
;;
i16::from_le_bytes( ==> i16_from_le_bytes(
;;
u64::from_le_bytes( ==> u64_from_le_bytes(
