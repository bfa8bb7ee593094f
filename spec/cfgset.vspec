%# The configuration-set message: builder and item iterator (packets.rs), over the contracts of the items (unit cfg).
%prelude
/// a configuration item, its encoding and the item at the start of some bytes: spec/gen_cfg.vspec
#[verifier::external_body] /*stub: cfg*/
pub struct CfgVal { x: u8 }
pub uninterp spec fn item(v: CfgVal) -> Seq<u8>; /*stub: cfg*/
pub uninterp spec fn item_at(s: Seq<u8>) -> Option<CfgVal>; /*stub: cfg*/
#[verifier::external_body] /*stub: cfg*/
pub proof fn theorem_item_roundtrip(v: CfgVal, t: Seq<u8>)
    ensures item_at(item(v) + t) == Some(v),
{ unimplemented!() }
#[verifier::external_body] /*stub: cfg*/
pub proof fn lemma_item_len(v: CfgVal)
    ensures 5 <= item(v).len() <= 12,
{ unimplemented!() }
impl CfgVal {
    #[verifier::external_body] /*stub: cfg*/
    pub fn len(&self) -> (r: usize)
        ensures r == item(*self).len(),
    { unimplemented!() }
    #[verifier::external_body] /*stub: cfg*/
    pub fn parse(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
    { unimplemented!() }
    #[verifier::external_body] /*stub: cfg*/
    pub fn extend_to<T: Sink>(&self, buf: &mut T) -> (r: usize)
        ensures r == item(*self).len(), final(buf).sv() == old(buf).sv() + item(*self),
    { unimplemented!() }
    #[verifier::external_body] /*stub: cfg*/
    pub fn write_to(&self, buf: &mut [u8]) -> (r: usize)
        requires room(old(buf)@, item(*self)),
        ensures r == item(*self).len(), final(buf)@ == put(old(buf)@, item(*self)),
    { unimplemented!() }
}
#[verifier::external_body] /*stub: flags*/ pub struct CfgLayer(u8);
pub uninterp spec fn CfgLayer_code(e: CfgLayer) -> u8; /*stub: flags*/
impl CfgLayer {
    #[verifier::external_body] /*stub: flags*/ pub fn into_raw(self) -> (r: u8) ensures r == CfgLayer_code(self), { unimplemented!() }
}
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }
/// the encodings of a list of items, in order
pub open spec fn items(s: Seq<CfgVal>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { items(s.drop_last()) + item(s.last()) } }
pub proof fn lemma_items_push(s: Seq<CfgVal>, i: int)
    requires 0 <= i < s.len(),
    ensures items(s.take(i + 1)) == items(s.take(i)) + item(s[i]),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
/// the encodings of a part of the list are no longer than those of the list
pub proof fn lemma_items_mono(s: Seq<CfgVal>, i: int)
    requires 0 <= i <= s.len(),
    ensures items(s.take(i)).len() <= items(s).len(), items(s).take(items(s.take(i)).len() as int) == items(s.take(i)),
    decreases s.len() - i,
{
    if i == s.len() { assert(s.take(i) =~= s); assert(items(s).take(items(s).len() as int) =~= items(s)); }
    else {
        lemma_items_mono(s, i + 1);
        lemma_items_push(s, i);
        let n = items(s.take(i)).len() as int;
        assert(items(s).take(n) =~= items(s).take(items(s.take(i + 1)).len() as int).take(n));
        assert((items(s.take(i)) + item(s[i])).take(n) =~= items(s.take(i)));
    }
}
/// behind the first `i` encodings comes the next one
pub proof fn lemma_items_at(s: Seq<CfgVal>, i: int)
    requires 0 <= i < s.len(),
    ensures ({
        let n = items(s.take(i)).len() as int;
        let rest = items(s).skip(n);
        n + item(s[i]).len() == items(s.take(i + 1)).len() <= items(s).len() && item_at(rest) == Some(s[i]) && rest.len() > 0
    }),
{
    lemma_items_push(s, i);
    lemma_items_mono(s, i + 1);
    let n = items(s.take(i)).len() as int;
    let m = items(s.take(i + 1)).len() as int;
    let rest = items(s).skip(n);
    assert(items(s).take(m).skip(n) =~= item(s[i]));
    assert(rest =~= item(s[i]) + items(s).skip(m));
    theorem_item_roundtrip(s[i], items(s).skip(m));
    lemma_item_len(s[i]);
    assert(items(s.take(i + 1)).len() == n + item(s[i]).len());
    assert(rest.len() == items(s).len() - n);
}

/// the payload of the message: version, layers, two reserved bytes, then the items
pub open spec fn set_payload(b: CfgValSetBuilder) -> Seq<u8> {
    seq![b.version, CfgLayer_code(b.layers), b0(b.reserved1 as int), b1(b.reserved1 as int)] + items(b.cfg_data@)
}
pub open spec fn head6(n: int) -> Seq<u8> { seq![0xb5u8, 0x62u8, 0x06u8, 0x8au8, b0(n), b1(n)] }
%source exp
%take struct CfgValSet
%take impl UbxPacketMeta for CfgValSet
%only impl UbxPacketMeta for CfgValSet = CLASS ID MAX_PAYLOAD_LEN
%take struct CfgValSetBuilder
%take impl CfgValSetBuilder
%fn CfgValSetBuilder::into_packet_vec | ret=r
        requires set_payload(self).len() <= 0xffff,
        ensures r@ == frame(0x06, 0x8a, set_payload(self)),
%fn CfgValSetBuilder::extend_to
        requires set_payload(self).len() <= 0xffff, old(out).sv().len() + 0x10010 <= usize::MAX,
        ensures final(out).sv() == old(out).sv() + frame(0x06, 0x8a, set_payload(self)),
%subst CfgValSetBuilder::extend_to
T: core::iter::Extend<u8> + core::ops::DerefMut<Target = [u8]> ==> T: SliceSink
;;
out.len() ==> out.len_v()
;;
out[$i] = $v; ==> out.set_v($i, $v);
;;
&out[$i ..] ==> out.from_v($i)
%take struct CfgValIter
%take impl CfgValIter
%take impl Iterator for CfgValIter
%header impl Iterator for CfgValIter
impl<'a> CfgValIter<'a>
%subst <Iterator for CfgValIter>::next
Option<Self::Item> ==> Option<CfgVal>
%insert impl CfgValIter
    /// the bytes not yet read
    pub open spec fn rest(&self) -> Seq<u8> { self.data@.skip(self.offset as int) }
%fn CfgValIter::new | ret=r
        requires items(values@).len() <= old(data)@.len(),
        ensures r.offset == 0, r.data@ == items(values@),
%fn <Iterator for CfgValIter>::next | ret=r
        requires old(self).offset <= old(self).data@.len(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 4 && item_at(old(self).rest()) is Some && item(item_at(old(self).rest())->0).len() <= old(self).rest().len(),
        ensures final(self).data == old(self).data,
            old(self).rest().len() == 0 ==> r is None && final(self).offset == old(self).offset,
            old(self).rest().len() > 0 ==> r == item_at(old(self).rest()) && final(self).offset == old(self).offset + item(r->0).len(),
%start CfgValSetBuilder::extend_to
        let ghost w0 = out.sv();
%loop CfgValSetBuilder::extend_to 0 for it
            invariant out.sv() =~= w0 + header@.take(it.index@), 0 <= it.index@ <= header@.len(),
%loopafter CfgValSetBuilder::extend_to 0
        proof { assert(header@.take(header@.len() as int) =~= header@); }
%loopbefore CfgValSetBuilder::extend_to 1
                let ghost w1 = out.sv();
%loop CfgValSetBuilder::extend_to 1 for it
            invariant out.sv() =~= w1 + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgValSetBuilder::extend_to 1
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%loopbefore CfgValSetBuilder::extend_to 2
                let ghost w2 = out.sv();
%loop CfgValSetBuilder::extend_to 2 for it
            invariant out.sv() =~= w2 + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgValSetBuilder::extend_to 2
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%loopbefore CfgValSetBuilder::extend_to 3
                let ghost w3 = out.sv();
%loop CfgValSetBuilder::extend_to 3 for it
            invariant out.sv() =~= w3 + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgValSetBuilder::extend_to 3
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%loopbefore CfgValSetBuilder::extend_to 4
        let ghost w4 = out.sv();
%loop CfgValSetBuilder::extend_to 4 for it
            invariant out.sv() == w4 + items(self.cfg_data@.take(it.index@)), 0 <= it.index@ <= self.cfg_data@.len(),
                len_bytes == 4 + items(self.cfg_data@.take(it.index@)).len(), items(self.cfg_data@).len() <= 0xffff,
%loopstart CfgValSetBuilder::extend_to 4
            proof { lemma_items_push(self.cfg_data@, it.index@); lemma_items_mono(self.cfg_data@, it.index@ + 1); assert(w4 + (items(self.cfg_data@.take(it.index@)) + item(*f)) =~= w4 + items(self.cfg_data@.take(it.index@)) + item(*f)); }
%loopafter CfgValSetBuilder::extend_to 4
        let ghost p = set_payload(self);
        proof {
            assert(self.cfg_data@.take(self.cfg_data@.len() as int) =~= self.cfg_data@);
            assert(len_bytes == p.len());
            assert(out.sv() =~= w0 + head6(0).update(4, 0).update(5, 0) + p);
        }
%end CfgValSetBuilder::extend_to
        proof {
            assert(out.sv() =~= w0 + frame(0x06, 0x8a, p));
        }
%loop CfgValIter::new 0 for it
            invariant data@.len() == old(data)@.len(), offset == items(values@.take(it.index@)).len(), 0 <= it.index@ <= values@.len(),
                items(values@).len() <= data@.len(), data@.take(offset as int) == items(values@.take(it.index@)),
%loopstart CfgValIter::new 0
            let ghost d0 = data@;
            let ghost o0 = offset as int;
            proof { assert(vstd::slice::spec_slice_len(&*data) == data@.len()); lemma_items_push(values@, it.index@); lemma_items_mono(values@, it.index@ + 1); reveal(room); reveal(put); }
%loopend CfgValIter::new 0
            proof { assert(data@.take(offset as int) =~= d0.take(o0) + item(*value)); }
%loopafter CfgValIter::new 0
        proof { assert(values@.take(values@.len() as int) =~= values@); }
%postlude
/// Reading the payload written for a list of items gives these items, in order, and then ends.
pub fn theorem_items_roundtrip(data: &mut [u8], values: &[CfgVal])
    requires items(values@).len() <= old(data)@.len(),
{
    let mut it = CfgValIter::new(data, values);
    let mut n: usize = 0;
    while n < values.len()
        invariant 0 <= n <= values@.len(), it.data@ == items(values@), it.offset == items(values@.take(n as int)).len(),
        decreases values@.len() - n,
    {
        proof { lemma_items_at(values@, n as int); lemma_item_len(values@[n as int]); lemma_items_mono(values@, n as int); lemma_items_mono(values@, n + 1); }
        let r = it.next();
        assert(r == Some(values@[n as int]));
        n += 1;
    }
    proof { assert(values@.take(n as int) =~= values@); assert(it.rest() =~= Seq::empty()); }
    let r = it.next();
    assert(r is None);
}
