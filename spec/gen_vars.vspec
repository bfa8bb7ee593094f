%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
#[verifier::external_body] /*stub: flags*/ pub struct RecStatFlags(u8);
pub uninterp spec fn RecStatFlags_of(x: u8) -> RecStatFlags; /*stub: flags*/
impl RecStatFlags {
  #[verifier::external_body] /*stub: flags*/ pub fn from(x: u8) -> (r: Self) ensures r == RecStatFlags_of(x), { unimplemented!() }
}
/// the value yielded for the block `b`
pub open spec fn NavSatIter_item(x: NavSatSvInfoRef, b: Seq<u8>) -> bool { x.0@ == b }
/// the value yielded for the block `b`
pub open spec fn MonVerExtensionIter_item(x: &str, b: Seq<u8>) -> bool { text_of(str_bytes(x), b) }
/// the value yielded for the block `b`
pub open spec fn EsfMeasDataIter_item(x: EsfMeasData, b: Seq<u8>) -> bool { x.data_type == (le4(b, 0) / 0x1000000) % 64 && x.data_field == le4(b, 0) % 0x1000000 }
/// the value yielded for the block `b`
pub open spec fn EsfRawDataIter_item(x: EsfRawData, b: Seq<u8>) -> bool { x.data_type == le4(b, 0) / 0x1000000 && x.data_field == le4(b, 0) % 0x1000000 && x.sensor_time_tag == le4(b, 4) }
/// the value yielded for the block `b`
pub open spec fn DwrdIter_item(x: u32, b: Seq<u8>) -> bool { x == le4(b, 0) }
/// the value yielded for the block `b`
pub open spec fn RxmRawxInfoIter_item(x: RxmRawxInfoRef, b: Seq<u8>) -> bool { x.0@ == b }
/// bytes taken by the measurements, and by the calibration time tag
pub open spec fn esf_len(s: Seq<u8>) -> int { 4 * ((le2(s, 4) / 0x800) % 32) }
pub open spec fn esf_cal(s: Seq<u8>) -> int { if (le2(s, 4) / 8) % 2 == 1 { 4 } else { 0 } }
pub proof fn lemma_flag16(f: u16)
    ensures f >> 11 & 0x1f == (f / 0x800) % 32, (f & 0x8 != 0) == ((f / 8) % 2 == 1),
{
    assert(f >> 11 & 0x1f == (f / 0x800) % 32) by (bit_vector);
    assert((f & 0x8 != 0) == ((f / 8) % 2 == 1)) by (bit_vector);
}
/// every block of 30 bytes is a zero-terminated text
pub open spec fn texts(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() / 30nat ==> is_cstr(#[trigger] block(s, 30, k)) }
/// the payloads of NavSat the parser accepts
pub open spec fn wf_NavSat(s: Seq<u8>) -> bool { s.len() >= 8 && (s.len() - 8) % 12 == 0 }
/// the payloads of MonVer the parser accepts
pub open spec fn wf_MonVer(s: Seq<u8>) -> bool { s.len() >= 40 && (s.len() - 40) % 30 == 0 && is_cstr(s.subrange(0, 30)) && is_cstr(s.subrange(30, 40)) && texts(s.subrange(40, s.len() as int)) }
/// the payloads of EsfMeas the parser accepts
pub open spec fn wf_EsfMeas(s: Seq<u8>) -> bool { s.len() >= 8 && (s.len() - 8) % 4 == 0 && s.len() >= 8 + esf_len(s) + esf_cal(s) }
/// the payloads of EsfRaw the parser accepts
pub open spec fn wf_EsfRaw(s: Seq<u8>) -> bool { s.len() >= 4 && (s.len() - 4) % 8 == 0 }
/// the payloads of RxmSfrbx the parser accepts
pub open spec fn wf_RxmSfrbx(s: Seq<u8>) -> bool { s.len() >= 8 && (s.len() - 8) % 4 == 0 }
/// the payloads of RxmRawx the parser accepts
pub open spec fn wf_RxmRawx(s: Seq<u8>) -> bool { s.len() >= 16 && (s.len() - 16) % 32 == 0 }
/// the payloads of InfError the parser accepts
pub open spec fn wf_InfError(s: Seq<u8>) -> bool { s.len() >= 0 }
/// the payloads of InfNotice the parser accepts
pub open spec fn wf_InfNotice(s: Seq<u8>) -> bool { s.len() >= 0 }
/// the payloads of InfTest the parser accepts
pub open spec fn wf_InfTest(s: Seq<u8>) -> bool { s.len() >= 0 }
/// the payloads of InfWarning the parser accepts
pub open spec fn wf_InfWarning(s: Seq<u8>) -> bool { s.len() >= 0 }
/// the payloads of InfDebug the parser accepts
pub open spec fn wf_InfDebug(s: Seq<u8>) -> bool { s.len() >= 0 }
%postlude
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_NavSatIter<'a>(s: &'a [u8]) -> (v: Vec<NavSatSvInfoRef<'a>>)
    requires s@.len() % 12nat == 0,
    ensures v@.len() == s@.len() / 12nat, forall|k: int| 0 <= k < v@.len() ==> NavSatIter_item(#[trigger] v@[k], block(s@, 12, k)),
{
    let mut v: Vec<NavSatSvInfoRef<'a>> = Vec::new();
    let mut it = NavSatIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 12); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 12 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 12nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> NavSatIter_item(#[trigger] v@[k], block(s@, 12, k)),
        ensures 12 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> NavSatIter_item(#[trigger] v@[k], block(s@, 12, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 12) =~= block(s@, 12, v@.len() as int));
                    assert(r0.subrange(12, r0.len() as int) =~= s@.subrange(o + 12, s@.len() as int));
                    o = o + 12;
                }
                v.push(x);
            },
        }
    }
    v
}
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_MonVerExtensionIter<'a>(s: &'a [u8]) -> (v: Vec<&'a str>)
    requires s@.len() % 30nat == 0, texts(s@),
    ensures v@.len() == s@.len() / 30nat, forall|k: int| 0 <= k < v@.len() ==> MonVerExtensionIter_item(#[trigger] v@[k], block(s@, 30, k)),
{
    let mut v: Vec<&'a str> = Vec::new();
    let mut it = MonVerExtensionIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 30); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 30 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 30nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> MonVerExtensionIter_item(#[trigger] v@[k], block(s@, 30, k)),
        ensures 30 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> MonVerExtensionIter_item(#[trigger] v@[k], block(s@, 30, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 30) =~= block(s@, 30, v@.len() as int));
                    assert(r0.subrange(30, r0.len() as int) =~= s@.subrange(o + 30, s@.len() as int));
                    o = o + 30;
                }
                v.push(x);
            },
        }
    }
    v
}
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_EsfMeasDataIter<'a>(s: &'a [u8]) -> (v: Vec<EsfMeasData>)
    requires s@.len() % 4nat == 0,
    ensures v@.len() == s@.len() / 4nat, forall|k: int| 0 <= k < v@.len() ==> EsfMeasDataIter_item(#[trigger] v@[k], block(s@, 4, k)),
{
    let mut v: Vec<EsfMeasData> = Vec::new();
    let mut it = EsfMeasDataIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 4); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 4 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 4nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> EsfMeasDataIter_item(#[trigger] v@[k], block(s@, 4, k)),
        ensures 4 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> EsfMeasDataIter_item(#[trigger] v@[k], block(s@, 4, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 4) =~= block(s@, 4, v@.len() as int));
                    assert(r0.subrange(4, r0.len() as int) =~= s@.subrange(o + 4, s@.len() as int));
                    o = o + 4;
                }
                v.push(x);
            },
        }
    }
    v
}
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_EsfRawDataIter<'a>(s: &'a [u8]) -> (v: Vec<EsfRawData>)
    requires s@.len() % 8nat == 0,
    ensures v@.len() == s@.len() / 8nat, forall|k: int| 0 <= k < v@.len() ==> EsfRawDataIter_item(#[trigger] v@[k], block(s@, 8, k)),
{
    let mut v: Vec<EsfRawData> = Vec::new();
    let mut it = EsfRawDataIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 8); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 8 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 8nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> EsfRawDataIter_item(#[trigger] v@[k], block(s@, 8, k)),
        ensures 8 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> EsfRawDataIter_item(#[trigger] v@[k], block(s@, 8, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 8) =~= block(s@, 8, v@.len() as int));
                    assert(r0.subrange(8, r0.len() as int) =~= s@.subrange(o + 8, s@.len() as int));
                    o = o + 8;
                }
                v.push(x);
            },
        }
    }
    v
}
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_DwrdIter<'a>(s: &'a [u8]) -> (v: Vec<u32>)
    requires s@.len() % 4nat == 0,
    ensures v@.len() == s@.len() / 4nat, forall|k: int| 0 <= k < v@.len() ==> DwrdIter_item(#[trigger] v@[k], block(s@, 4, k)),
{
    let mut v: Vec<u32> = Vec::new();
    let mut it = DwrdIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 4); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 4 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 4nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> DwrdIter_item(#[trigger] v@[k], block(s@, 4, k)),
        ensures 4 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> DwrdIter_item(#[trigger] v@[k], block(s@, 4, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 4) =~= block(s@, 4, v@.len() as int));
                    assert(r0.subrange(4, r0.len() as int) =~= s@.subrange(o + 4, s@.len() as int));
                    o = o + 4;
                }
                v.push(x);
            },
        }
    }
    v
}
/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_RxmRawxInfoIter<'a>(s: &'a [u8]) -> (v: Vec<RxmRawxInfoRef<'a>>)
    requires s@.len() % 32nat == 0,
    ensures v@.len() == s@.len() / 32nat, forall|k: int| 0 <= k < v@.len() ==> RxmRawxInfoIter_item(#[trigger] v@[k], block(s@, 32, k)),
{
    let mut v: Vec<RxmRawxInfoRef<'a>> = Vec::new();
    let mut it = RxmRawxInfoIter::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, 32); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == 32 * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() % 32nat == 0,
            forall|k: int| 0 <= k < v@.len() ==> RxmRawxInfoIter_item(#[trigger] v@[k], block(s@, 32, k)),
        ensures 32 * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> RxmRawxInfoIter_item(#[trigger] v@[k], block(s@, 32, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, 32) =~= block(s@, 32, v@.len() as int));
                    assert(r0.subrange(32, r0.len() as int) =~= s@.subrange(o + 32, s@.len() as int));
                    o = o + 32;
                }
                v.push(x);
            },
        }
    }
    v
}
%source error
%take enum ParserError
%source exp
%take struct NavSatSvInfoRef
%take struct RxmRawxInfoRef
%take fn convert_to_str
%take fn is_valid
%take fn convert_to_str_unchecked
%take fn is_cstr_valid
%fn convert_to_str | ret=r
        ensures r is Some <==> is_utf8(bytes@), r is Some ==> str_bytes(r->0) == bytes@,
%fn is_valid | ret=r
        ensures r,
%fn is_cstr_valid | ret=r
        ensures r == is_cstr(bytes@),
%start is_cstr_valid
        proof { assert forall|k: int, j: int| ends_at(bytes@, k) && ends_at(bytes@, j) implies k == j by { lemma_ends_unique(bytes@, j, k); } }
%fn convert_to_str_unchecked | ret=r
        requires is_cstr(bytes@),
        ensures text_of(str_bytes(r), bytes@),
%start convert_to_str_unchecked
        proof { assert forall|k: int, j: int| ends_at(bytes@, k) && ends_at(bytes@, j) implies k == j by { lemma_ends_unique(bytes@, j, k); } }
%take struct EsfMeasData
%take struct EsfRawData
%take struct EsfMeas
%take impl EsfMeas
%fn EsfMeas::calib_tag | ret=r
        ensures r is Some <==> bytes@.len() == 4, r is Some ==> r->0 == le4(bytes@, 0),
%take struct NavSatIter
%take impl NavSatIter
%take impl Iterator for NavSatIter
%header impl Iterator for NavSatIter
impl<'a> NavSatIter<'a>
%insert impl NavSatIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { self.data@.subrange(self.offset as int, self.data@.len() as int) }
    pub open spec fn wf(self) -> bool { self.offset <= self.data@.len() && self.rest().len() % 12nat == 0 }
%fn NavSatIter::new | ret=r
        ensures r.rest() == data@, data@.len() % 12nat == 0 ==> r.wf(),
%start NavSatIter::new
        proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
%fn NavSatIter::is_valid | ret=r
        ensures r == (bytes@.len() % 12nat == 0),
%fn <Iterator for NavSatIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 12 && final(self).rest() == old(self).rest().subrange(12, old(self).rest().len() as int) && r is Some && NavSatIter_item(r->0, old(self).rest().subrange(0, 12)),
%subst <Iterator for NavSatIter>::next
Self::Item ==> NavSatSvInfoRef<'a>
%start <Iterator for NavSatIter>::next
        proof {
            let (d, o, r) = (self.data@, self.offset as int, self.rest());
            if o < d.len() {
                assert(r.subrange(0, 12) =~= d.subrange(o, o + 12));
                assert(r.subrange(12, r.len() as int) =~= d.subrange(o + 12, d.len() as int));
            }
        }
%take struct MonVerExtensionIter
%take impl MonVerExtensionIter
%take impl Iterator for MonVerExtensionIter
%header impl Iterator for MonVerExtensionIter
impl<'a> MonVerExtensionIter<'a>
%insert impl MonVerExtensionIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { self.data@.subrange(self.offset as int, self.data@.len() as int) }
    pub open spec fn wf(self) -> bool { self.offset <= self.data@.len() && self.rest().len() % 30nat == 0 && texts(self.rest()) }
%fn MonVerExtensionIter::new | ret=r
        ensures r.rest() == data@, data@.len() % 30nat == 0 && texts(data@) ==> r.wf(),
%start MonVerExtensionIter::new
        proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
%fn MonVerExtensionIter::is_valid | ret=r
        ensures r == (payload@.len() % 30nat == 0 && texts(payload@)),
%fn <Iterator for MonVerExtensionIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 30 && final(self).rest() == old(self).rest().subrange(30, old(self).rest().len() as int) && r is Some && MonVerExtensionIter_item(r->0, old(self).rest().subrange(0, 30)),
%subst <Iterator for MonVerExtensionIter>::next
Self::Item ==> &'a str
%start <Iterator for MonVerExtensionIter>::next
        proof {
            let (d, o, r) = (self.data@, self.offset as int, self.rest());
            if o < d.len() {
                let t = r.subrange(30, r.len() as int);
                assert(r.subrange(0, 30) =~= d.subrange(o, o + 30));
                assert(t =~= d.subrange(o + 30, d.len() as int));
                assert(block(r, 30, 0) =~= d.subrange(o, o + 30));
                assert forall|k: int| 0 <= k < t.len() / 30nat implies is_cstr(#[trigger] block(t, 30, k)) by {
                    assert(block(t, 30, k) =~= block(r, 30, k + 1));
                }
            }
        }
%take struct EsfMeasDataIter
%take impl EsfMeasDataIter
%take impl Iterator for EsfMeasDataIter
%header impl Iterator for EsfMeasDataIter
impl<'a> EsfMeasDataIter<'a>
%insert impl EsfMeasDataIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { ce_rest(self.0) }
    pub open spec fn wf(self) -> bool { ce_size(self.0) == 4 && self.rest().len() % 4nat == 0 }
%fn EsfMeasDataIter::new | ret=r
        ensures r.rest() == bytes@, bytes@.len() % 4nat == 0 ==> r.wf(),
%fn EsfMeasDataIter::is_valid | ret=r
        ensures r == (bytes@.len() % 4nat == 0),
%fn <Iterator for EsfMeasDataIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 4 && final(self).rest() == old(self).rest().subrange(4, old(self).rest().len() as int) && r is Some && EsfMeasDataIter_item(r->0, old(self).rest().subrange(0, 4)),
%subst <Iterator for EsfMeasDataIter>::next
Self::Item ==> EsfMeasData
%start <Iterator for EsfMeasDataIter>::next
        proof {
            assert forall|d: u32| #![trigger d & 0xFFFFFF] (d & 0x3F000000) >> 24 == (d / 0x1000000) % 64 && (d >> 24) & 0xFF == d / 0x1000000 && d & 0xFFFFFF == d % 0x1000000 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d & 0x3F000000] (d & 0x3F000000) >> 24 == (d / 0x1000000) % 64 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d >> 24i32] (d >> 24) & 0xFF == d / 0x1000000 by { lemma_mask(d); }
        }
%take struct EsfRawDataIter
%take impl EsfRawDataIter
%take impl Iterator for EsfRawDataIter
%header impl Iterator for EsfRawDataIter
impl<'a> EsfRawDataIter<'a>
%insert impl EsfRawDataIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { ce_rest(self.0) }
    pub open spec fn wf(self) -> bool { ce_size(self.0) == 8 && self.rest().len() % 8nat == 0 }
%fn EsfRawDataIter::new | ret=r
        ensures r.rest() == bytes@, bytes@.len() % 8nat == 0 ==> r.wf(),
%fn EsfRawDataIter::is_valid | ret=r
        ensures r == (bytes@.len() % 8nat == 0),
%fn <Iterator for EsfRawDataIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 8 && final(self).rest() == old(self).rest().subrange(8, old(self).rest().len() as int) && r is Some && EsfRawDataIter_item(r->0, old(self).rest().subrange(0, 8)),
%subst <Iterator for EsfRawDataIter>::next
Self::Item ==> EsfRawData
%start <Iterator for EsfRawDataIter>::next
        proof {
            assert forall|d: u32| #![trigger d & 0xFFFFFF] (d & 0x3F000000) >> 24 == (d / 0x1000000) % 64 && (d >> 24) & 0xFF == d / 0x1000000 && d & 0xFFFFFF == d % 0x1000000 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d & 0x3F000000] (d & 0x3F000000) >> 24 == (d / 0x1000000) % 64 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d >> 24i32] (d >> 24) & 0xFF == d / 0x1000000 by { lemma_mask(d); }
        }
%take struct DwrdIter
%take impl DwrdIter
%take impl Iterator for DwrdIter
%header impl Iterator for DwrdIter
impl<'a> DwrdIter<'a>
%insert impl DwrdIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { ce_rest(self.0) }
    pub open spec fn wf(self) -> bool { ce_size(self.0) == 4 && self.rest().len() % 4nat == 0 }
%fn DwrdIter::new | ret=r
        ensures r.rest() == bytes@, bytes@.len() % 4nat == 0 ==> r.wf(),
%fn DwrdIter::is_valid | ret=r
        ensures r == (bytes@.len() % 4nat == 0),
%fn <Iterator for DwrdIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 4 && final(self).rest() == old(self).rest().subrange(4, old(self).rest().len() as int) && r is Some && DwrdIter_item(r->0, old(self).rest().subrange(0, 4)),
%subst <Iterator for DwrdIter>::next
Self::Item ==> u32
%take struct RxmRawxInfoIter
%take impl RxmRawxInfoIter
%take impl Iterator for RxmRawxInfoIter
%header impl Iterator for RxmRawxInfoIter
impl<'a> RxmRawxInfoIter<'a>
%insert impl RxmRawxInfoIter
    /// what is still to be yielded
    pub open spec fn rest(self) -> Seq<u8> { ce_rest(self.0) }
    pub open spec fn wf(self) -> bool { ce_size(self.0) == 32 && self.rest().len() % 32nat == 0 }
%fn RxmRawxInfoIter::new | ret=r
        ensures r.rest() == data@, data@.len() % 32nat == 0 ==> r.wf(),
%fn RxmRawxInfoIter::is_valid | ret=r
        ensures r == (bytes@.len() % 32nat == 0),
%fn <Iterator for RxmRawxInfoIter>::next | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= 32 && final(self).rest() == old(self).rest().subrange(32, old(self).rest().len() as int) && r is Some && RxmRawxInfoIter_item(r->0, old(self).rest().subrange(0, 32)),
%subst <Iterator for RxmRawxInfoIter>::next
Self::Item ==> RxmRawxInfoRef<'a>
%fn EsfMeasRef::data_len | ret=r
        requires self.0@.len() >= 8,
        ensures r == esf_len(self.0@),
%start EsfMeasRef::data_len
        proof { assert forall|f: u16| (#[trigger] (f >> 11i32)) & 0x1f == (f / 0x800) % 32 by { lemma_flag16(f); } }
%fn EsfMeasRef::calib_tag_len | ret=r
        requires self.0@.len() >= 8,
        ensures r == esf_cal(self.0@),
%start EsfMeasRef::calib_tag_len
        proof { assert forall|f: u16| ((#[trigger] (f & 0x8)) != 0) == ((f / 8) % 2 == 1) by { lemma_flag16(f); } }
%take struct NavSatRef
%take impl NavSatRef
%fn NavSatRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for NavSatRef
%header impl Debug for NavSatRef
impl<'a> NavSatRef<'a>
%fn <Debug for NavSatRef>::fmt | rename=debug_fmt
        requires wf_NavSat(self.0@),
%fn NavSatRef::validate | ret=r
        ensures r is Ok <==> wf_NavSat(payload@),
%fn NavSatRef::itow | ret=r
        requires self.0@.len() >= 8,
        ensures r == le4(self.0@, 0),
%fn NavSatRef::version | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[4] as int,
%fn NavSatRef::num_svs | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[5] as int,
%fn NavSatRef::reserved | ret=r
        requires self.0@.len() >= 8,
        ensures r@.len() == 2 && r@[0] == self.0@[6] && r@[1] == self.0@[7],
%fn NavSatRef::svs | ret=r
        requires wf_NavSat(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(8, self.0@.len() as int),
%take struct MonVerRef
%take impl MonVerRef
%fn MonVerRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for MonVerRef
%header impl Debug for MonVerRef
impl<'a> MonVerRef<'a>
%fn <Debug for MonVerRef>::fmt | rename=debug_fmt
        requires wf_MonVer(self.0@),
%fn MonVerRef::validate | ret=r
        ensures r is Ok <==> wf_MonVer(payload@),
%fn MonVerRef::software_version | ret=r
        requires wf_MonVer(self.0@),
        ensures text_of(str_bytes(r), self.0@.subrange(0, 30)),
%fn MonVerRef::software_version_raw | ret=r
        requires wf_MonVer(self.0@),
        ensures r@ == self.0@.subrange(0, 30),
%fn MonVerRef::hardware_version | ret=r
        requires wf_MonVer(self.0@),
        ensures text_of(str_bytes(r), self.0@.subrange(30, 40)),
%fn MonVerRef::hardware_version_raw | ret=r
        requires wf_MonVer(self.0@),
        ensures r@ == self.0@.subrange(30, 40),
%fn MonVerRef::extension | ret=r
        requires wf_MonVer(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(40, self.0@.len() as int),
%take struct EsfMeasRef
%take impl EsfMeasRef
%fn EsfMeasRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for EsfMeasRef
%header impl Debug for EsfMeasRef
impl<'a> EsfMeasRef<'a>
%fn <Debug for EsfMeasRef>::fmt | rename=debug_fmt
        requires wf_EsfMeas(self.0@),
%fn EsfMeasRef::validate | ret=r
        ensures r is Ok <==> wf_EsfMeas(payload@),
%fn EsfMeasRef::time_tag | ret=r
        requires self.0@.len() >= 8,
        ensures r == le4(self.0@, 0),
%fn EsfMeasRef::flags | ret=r
        requires self.0@.len() >= 8,
        ensures r == le2(self.0@, 4),
%fn EsfMeasRef::id | ret=r
        requires self.0@.len() >= 8,
        ensures r == le2(self.0@, 6),
%fn EsfMeasRef::data | ret=r
        requires wf_EsfMeas(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(8, 8 + esf_len(self.0@)),
%fn EsfMeasRef::calib_tag | ret=r
        requires wf_EsfMeas(self.0@),
        ensures r is Some <==> (le2(self.0@, 4) / 8) % 2 == 1, r is Some ==> r->0 == le4(self.0@, 8 + esf_len(self.0@)),
%take struct EsfRawRef
%take impl EsfRawRef
%fn EsfRawRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for EsfRawRef
%header impl Debug for EsfRawRef
impl<'a> EsfRawRef<'a>
%fn <Debug for EsfRawRef>::fmt | rename=debug_fmt
        requires wf_EsfRaw(self.0@),
%fn EsfRawRef::validate | ret=r
        ensures r is Ok <==> wf_EsfRaw(payload@),
%fn EsfRawRef::msss | ret=r
        requires self.0@.len() >= 4,
        ensures r == le4(self.0@, 0),
%fn EsfRawRef::data | ret=r
        requires wf_EsfRaw(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(4, self.0@.len() as int),
%take struct RxmSfrbxRef
%take impl RxmSfrbxRef
%fn RxmSfrbxRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for RxmSfrbxRef
%header impl Debug for RxmSfrbxRef
impl<'a> RxmSfrbxRef<'a>
%fn <Debug for RxmSfrbxRef>::fmt | rename=debug_fmt
        requires wf_RxmSfrbx(self.0@),
%fn RxmSfrbxRef::validate | ret=r
        ensures r is Ok <==> wf_RxmSfrbx(payload@),
%fn RxmSfrbxRef::gnss_id | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[0] as int,
%fn RxmSfrbxRef::sv_id | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[1] as int,
%fn RxmSfrbxRef::reserved1 | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[2] as int,
%fn RxmSfrbxRef::freq_id | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[3] as int,
%fn RxmSfrbxRef::num_words | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[4] as int,
%fn RxmSfrbxRef::reserved2 | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[5] as int,
%fn RxmSfrbxRef::version | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[6] as int,
%fn RxmSfrbxRef::reserved3 | ret=r
        requires self.0@.len() >= 8,
        ensures r == self.0@[7] as int,
%fn RxmSfrbxRef::dwrd | ret=r
        requires wf_RxmSfrbx(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(8, self.0@.len() as int),
%take struct RxmRawxRef
%take impl RxmRawxRef
%fn RxmRawxRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for RxmRawxRef
%header impl Debug for RxmRawxRef
impl<'a> RxmRawxRef<'a>
%fn <Debug for RxmRawxRef>::fmt | rename=debug_fmt
        requires wf_RxmRawx(self.0@),
%fn RxmRawxRef::validate | ret=r
        ensures r is Ok <==> wf_RxmRawx(payload@),
%fn RxmRawxRef::rcv_tow | ret=r
        requires self.0@.len() >= 16,
        ensures r == f64_bits(le8(self.0@, 0)),
%fn RxmRawxRef::week | ret=r
        requires self.0@.len() >= 16,
        ensures r == le2(self.0@, 8),
%fn RxmRawxRef::leap_s | ret=r
        requires self.0@.len() >= 16,
        ensures r == sg(self.0@[10] as int, 0x80),
%fn RxmRawxRef::num_meas | ret=r
        requires self.0@.len() >= 16,
        ensures r == self.0@[11] as int,
%fn RxmRawxRef::rec_stat_raw | ret=r
        requires self.0@.len() >= 16,
        ensures r == self.0@[12] as int,
%fn RxmRawxRef::rec_stat | ret=r
        requires self.0@.len() >= 16,
        ensures r == RecStatFlags_of((self.0@[12] as int) as u8),
%fn RxmRawxRef::version | ret=r
        requires self.0@.len() >= 16,
        ensures r == self.0@[13] as int,
%fn RxmRawxRef::reserved1 | ret=r
        requires self.0@.len() >= 16,
        ensures r@.len() == 2 && r@[0] == self.0@[14] && r@[1] == self.0@[15],
%fn RxmRawxRef::measurements | ret=r
        requires wf_RxmRawx(self.0@),
        ensures r.wf(), r.rest() == self.0@.subrange(16, self.0@.len() as int),
%take struct InfErrorRef
%take impl InfErrorRef
%fn InfErrorRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for InfErrorRef
%header impl Debug for InfErrorRef
impl<'a> InfErrorRef<'a>
%fn <Debug for InfErrorRef>::fmt | rename=debug_fmt
        requires wf_InfError(self.0@),
%fn InfErrorRef::validate | ret=r
        ensures r is Ok <==> wf_InfError(payload@),
%fn InfErrorRef::message | ret=r
        requires wf_InfError(self.0@),
        ensures r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,
%start InfErrorRef::message
        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }
%take struct InfNoticeRef
%take impl InfNoticeRef
%fn InfNoticeRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for InfNoticeRef
%header impl Debug for InfNoticeRef
impl<'a> InfNoticeRef<'a>
%fn <Debug for InfNoticeRef>::fmt | rename=debug_fmt
        requires wf_InfNotice(self.0@),
%fn InfNoticeRef::validate | ret=r
        ensures r is Ok <==> wf_InfNotice(payload@),
%fn InfNoticeRef::message | ret=r
        requires wf_InfNotice(self.0@),
        ensures r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,
%start InfNoticeRef::message
        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }
%take struct InfTestRef
%take impl InfTestRef
%fn InfTestRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for InfTestRef
%header impl Debug for InfTestRef
impl<'a> InfTestRef<'a>
%fn <Debug for InfTestRef>::fmt | rename=debug_fmt
        requires wf_InfTest(self.0@),
%fn InfTestRef::validate | ret=r
        ensures r is Ok <==> wf_InfTest(payload@),
%fn InfTestRef::message | ret=r
        requires wf_InfTest(self.0@),
        ensures r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,
%start InfTestRef::message
        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }
%take struct InfWarningRef
%take impl InfWarningRef
%fn InfWarningRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for InfWarningRef
%header impl Debug for InfWarningRef
impl<'a> InfWarningRef<'a>
%fn <Debug for InfWarningRef>::fmt | rename=debug_fmt
        requires wf_InfWarning(self.0@),
%fn InfWarningRef::validate | ret=r
        ensures r is Ok <==> wf_InfWarning(payload@),
%fn InfWarningRef::message | ret=r
        requires wf_InfWarning(self.0@),
        ensures r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,
%start InfWarningRef::message
        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }
%take struct InfDebugRef
%take impl InfDebugRef
%fn InfDebugRef::as_bytes | ret=r
        ensures r@ == self.0@,
%take impl Debug for InfDebugRef
%header impl Debug for InfDebugRef
impl<'a> InfDebugRef<'a>
%fn <Debug for InfDebugRef>::fmt | rename=debug_fmt
        requires wf_InfDebug(self.0@),
%fn InfDebugRef::validate | ret=r
        ensures r is Ok <==> wf_InfDebug(payload@),
%fn InfDebugRef::message | ret=r
        requires wf_InfDebug(self.0@),
        ensures r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,
%start InfDebugRef::message
        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }
