%# Contracts for ublox/src/parser.rs (the text of the functions is taken from /repo on every run)
%index
%prelude
// ---------------------------------------------------------------- framing rules
pub const MAX_PAYLOAD_LEN: u16 = 8176; // value proved equal to the crate's constant in the packet unit

/// What one call of `next` can report.
pub ghost enum Outcome {
    Frame { class: u8, id: u8, payload: Seq<u8> },
    BadChecksum { expect: int, got: int },
}
pub open spec fn s1() -> u8 { 0xb5u8 }
pub open spec fn s2() -> u8 { 0x62u8 }
pub open spec fn le16(a: u8, b: u8) -> int { a + 256 * b }
pub open spec fn max_payload() -> int { 8176 }

/// The stream from the next candidate header on: everything before the first
/// sync pair that is followed by an acceptable length (or that the available
/// bytes cannot rule out yet) is skipped.
pub open spec fn cand(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if s[0] != s1() { cand(s.skip(1)) }
    else if s.len() < 2 { s }
    else if s[1] != s2() { cand(s.skip(1)) }
    else if s.len() < 6 { s }
    else if le16(s[4], s[5]) > max_payload() { cand(s.skip(2)) }
    else { s }
}
/// `s` starts with a full header (sync pair, class, id, acceptable length)
pub open spec fn has_header(s: Seq<u8>) -> bool {
    s.len() >= 6 && s[0] == s1() && s[1] == s2() && le16(s[4], s[5]) <= max_payload()
}
pub open spec fn plen(s: Seq<u8>) -> int { le16(s[4], s[5]) }

/// Reference semantics of one step of the parser on the stream `s`:
/// what is reported, and what remains.
pub open spec fn step(s: Seq<u8>) -> (Option<Outcome>, Seq<u8>) {
    let c = cand(s);
    if !has_header(c) { (None, c) }
    else {
        let n = plen(c);
        if c.len() < n + 8 { (None, c) }
        else if ubx_cksum(c.subrange(2, n + 6)) != (c[n + 6], c[n + 7]) {
            let k = ubx_cksum(c.subrange(2, n + 6));
            (Some(Outcome::BadChecksum { expect: le16(c[n + 6], c[n + 7]), got: le16(k.0, k.1) }), c.skip(2))
        } else {
            (Some(Outcome::Frame { class: c[2], id: c[3], payload: c.subrange(6, n + 6) }), c.skip(n + 8))
        }
    }
}

pub proof fn lemma_cand_len(s: Seq<u8>)
    ensures cand(s).len() <= s.len(), cand(s).len() > 0 ==> cand(s)[0] == s1(),
        !has_header(cand(s)) ==> cand(s).len() < 6,
    decreases s.len(),
{
    if s.len() == 0 {}
    else if s[0] != s1() { lemma_cand_len(s.skip(1)); }
    else if s.len() < 2 {}
    else if s[1] != s2() { lemma_cand_len(s.skip(1)); }
    else if s.len() < 6 {}
    else if le16(s[4], s[5]) > max_payload() { lemma_cand_len(s.skip(2)); }
    else {}
}

pub proof fn lemma_cand_idem(s: Seq<u8>)
    ensures cand(cand(s)) == cand(s),
    decreases s.len(),
{
    if s.len() == 0 {}
    else if s[0] != s1() { lemma_cand_idem(s.skip(1)); }
    else if s.len() < 2 {}
    else if s[1] != s2() { lemma_cand_idem(s.skip(1)); }
    else if s.len() < 6 {}
    else if le16(s[4], s[5]) > max_payload() { lemma_cand_idem(s.skip(2)); }
    else {}
}

/// Bytes without a sync byte in front do not matter.
pub proof fn lemma_cand_skip(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != s1(),
    ensures cand(s) == cand(s.skip(k)),
    decreases k,
{
    if k == 0 { assert(s.skip(0) =~= s); }
    else {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < k - 1 implies t[i] != s1() by { assert(t[i] == s[i + 1]); }
        lemma_cand_skip(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
    }
}

/// More bytes behind a stream do not change what was skipped in front of it.
pub proof fn lemma_cand_append(s: Seq<u8>, w: Seq<u8>)
    ensures cand(s + w) == cand(cand(s) + w),
        has_header(cand(s)) ==> cand(s + w) == cand(s) + w,
    decreases s.len(),
{
    if s.len() == 0 { assert(s + w =~= cand(s) + w); }
    else if s[0] != s1() {
        assert((s + w).skip(1) =~= s.skip(1) + w);
        lemma_cand_append(s.skip(1), w);
    }
    else if s.len() < 2 {}
    else if s[1] != s2() {
        assert((s + w).skip(1) =~= s.skip(1) + w);
        lemma_cand_append(s.skip(1), w);
    }
    else if s.len() < 6 {}
    else if le16(s[4], s[5]) > max_payload() {
        assert((s + w).skip(2) =~= s.skip(2) + w);
        lemma_cand_append(s.skip(2), w);
    }
    else {
        assert(has_header(s + w));
        assert(cand(s + w) == s + w);
    }
}

/// Chunking, one step: an outcome decided on `s` is decided the same way on any
/// extension of `s`; an undecided `s` can be replaced by what remains of it.
pub proof fn lemma_step_append(s: Seq<u8>, w: Seq<u8>)
    ensures
        step(s).0 is Some ==> step(s + w) == (step(s).0, step(s).1 + w),
        step(s).0 is None ==> step(s + w) == step(step(s).1 + w),
        step(s).0 is Some ==> step(s).1.len() < s.len(),
        step(s).1.len() <= s.len(),
{
    lemma_cand_len(s);
    lemma_cand_append(s, w);
    lemma_cand_idem(s);
    let c = cand(s);
    if has_header(c) {
        let n = plen(c);
        let d = c + w;
        assert(has_header(d));
        assert(plen(d) == n);
        if c.len() >= n + 8 {
            assert(d.subrange(2, n + 6) =~= c.subrange(2, n + 6));
            assert(d.subrange(6, n + 6) =~= c.subrange(6, n + 6));
            assert(d.skip(2) =~= c.skip(2) + w);
            assert(d.skip(n + 8) =~= c.skip(n + 8) + w);
        } else {
            assert(cand(d) == d) ;
        }
    }
}

/// The outcomes a parser reports on a stream, driven until it reports nothing.
pub open spec fn run(s: Seq<u8>) -> (Seq<Outcome>, Seq<u8>)
    decreases s.len(),
    via run_decreases
{
    match step(s).0 {
        None => (Seq::empty(), step(s).1),
        Some(o) => (seq![o] + run(step(s).1).0, run(step(s).1).1),
    }
}
#[via_fn]
proof fn run_decreases(s: Seq<u8>) { lemma_step_append(s, Seq::empty()); }

/// Chunking, whole run: parsing `s + w` equals parsing `s` and then parsing `w`
/// behind what `s` left over.
pub proof fn theorem_chunking(s: Seq<u8>, w: Seq<u8>)
    ensures
        run(s + w).0 == run(s).0 + run(run(s).1 + w).0,
        run(s + w).1 == run(run(s).1 + w).1,
    decreases s.len(),
{
    lemma_step_append(s, w);
    match step(s).0 {
        None => {
            assert(run(s).1 == step(s).1);
            lemma_step_append(step(s).1, w);
            // one unfolding on both sides
            assert(run(s + w) == run(step(s).1 + w));
            assert(run(s).0 + run(run(s).1 + w).0 =~= run(run(s).1 + w).0);
        }
        Some(o) => {
            let r = step(s).1;
            theorem_chunking(r, w);
            assert(step(s + w) == (Some(o), r + w));
            assert(run(s + w).0 == seq![o] + run(r + w).0);
            assert(run(s).0 + run(run(s).1 + w).0 =~= seq![o] + (run(r).0 + run(run(r).1 + w).0));
        }
    }
}

/// Any number of chunks: feeding the chunks one after the other reports what
/// feeding their concatenation reports.
pub open spec fn run_chunks(rest: Seq<u8>, chunks: Seq<Seq<u8>>) -> (Seq<Outcome>, Seq<u8>)
    decreases chunks.len(),
{
    if chunks.len() == 0 { (Seq::empty(), rest) }
    else {
        let a = run_chunks(rest, chunks.drop_last());
        let b = run(a.1 + chunks.last());
        (a.0 + b.0, b.1)
    }
}
pub open spec fn concat(chunks: Seq<Seq<u8>>) -> Seq<u8>
    decreases chunks.len(),
{
    if chunks.len() == 0 { Seq::empty() } else { concat(chunks.drop_last()) + chunks.last() }
}
pub proof fn theorem_any_chunking(chunks: Seq<Seq<u8>>)
    requires chunks.len() > 0,
    ensures run_chunks(Seq::empty(), chunks) == run(concat(chunks)),
    decreases chunks.len(),
{
    let init = chunks.drop_last();
    if init.len() == 0 {
        assert(Seq::<u8>::empty() + chunks.last() =~= chunks.last());
        assert(concat(init) + chunks.last() =~= chunks.last());
        assert(run_chunks(Seq::empty(), init).0 + run(chunks.last()).0 =~= run(chunks.last()).0);
    } else {
        theorem_any_chunking(init);
        theorem_chunking(concat(init), chunks.last());
    }
}

// ---------------------------------------------------------------- what surrounds the parser
/// The typed packet; its contents are the subject of the packet unit.
#[verifier::external_body]
pub struct PacketRef<'a>(&'a [u8]);
pub uninterp spec fn dispatched<'a>(class: u8, id: u8, payload: Seq<u8>, r: Result<PacketRef<'a>, ParserError>) -> bool; /*stub: disp*/
#[verifier::external_body] /*stub: disp*/
pub fn match_packet(class: u8, msg_id: u8, payload: &[u8]) -> (r: Result<PacketRef, ParserError>)
    ensures dispatched(class, msg_id, payload@, r),
{ unimplemented!() }

// Vec::drain(0..n) dropped at once; the result type of drain has no specification.
#[verifier::external_body]
pub fn vec_drain_front(v: &mut Vec<u8>, n: core::ops::Range<usize>)
    requires n.start == 0, n.end <= old(v)@.len(),
    ensures final(v)@ == old(v)@.skip(n.end as int),
{ v.drain(n); }

// core::ptr::copy(p.add(from), p, n) on the elements of one slice.
#[verifier::external_body]
pub fn slice_ptr_copy(s: &mut [u8], from: usize, n: usize)
    requires from + n <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(from as int, from + n) + old(s)@.skip(n as int),
{ s.copy_within(from..from + n, 0) }

pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max_int(a: int, b: int) -> int { if a >= b { a } else { b } }

%source error
%take enum ParserError
%source ubx_packets
%take const SYNC_CHAR_1
%take const SYNC_CHAR_2
%source parser
%all
%fn <Default for Parser<Vec<u8>>>::default | ret=r
        ensures r.inv(), r.v() == Seq::<u8>::empty(), r.cap() == usize::MAX,

%gsubst
core::cmp::min(==> cmp_min(
;;
u16::from_le_bytes(==> u16_from_le_bytes_v(
;;
core::usize::MAX ==> usize::MAX

%header trait UnderlyingBuffer
pub trait UnderlyingBuffer

%insert trait UnderlyingBuffer
    /// The bytes currently stored.
    spec fn v(&self) -> Seq<u8>;
    /// The number of bytes that can be stored.
    spec fn cap(&self) -> nat;
    /// Representation invariant.
    spec fn inv(&self) -> bool;
    proof fn lemma_inv(&self)
        requires self.inv(),
        ensures self.v().len() <= self.cap(), self.cap() <= usize::MAX;
    // buf[i] and buf[a..b], that is, the two Index supertraits
    fn at(&self, i: usize) -> (r: &u8)
        requires self.inv(), i < self.v().len(),
        ensures *r == self.v()[i as int];
    fn sub(&self, r: core::ops::Range<usize>) -> (o: &[u8])
        requires self.inv(), r.start <= r.end <= self.v().len(),
        ensures o@ == self.v().subrange(r.start as int, r.end as int);

%fn UnderlyingBuffer::clear
        requires old(self).inv(),
        ensures final(self).inv(), final(self).v() == Seq::<u8>::empty(), final(self).cap() == old(self).cap(),
%fn UnderlyingBuffer::len | ret=r
        requires self.inv(),
        ensures r == self.v().len(),
%fn UnderlyingBuffer::max_capacity | ret=r
        requires self.inv(),
        ensures r == self.cap(),
%fn UnderlyingBuffer::extend_from_slice | ret=r
        requires old(self).inv(), old(self).v().len() + other@.len() <= usize::MAX,
        ensures final(self).inv(), final(self).cap() == old(self).cap(),
            r == max_int(0, old(self).v().len() + other@.len() - old(self).cap()),
            final(self).v() == old(self).v() + other@.take(other@.len() - r),
%fn UnderlyingBuffer::drain
        requires old(self).inv(), count <= old(self).v().len(),
        ensures final(self).inv(), final(self).cap() == old(self).cap(),
            final(self).v() == old(self).v().skip(count as int),
%fn UnderlyingBuffer::find | ret=r
        requires self.inv(),
        ensures match r {
            Some(k) => k < self.v().len() && self.v()[k as int] == value
                && forall|i: int| 0 <= i < k ==> self.v()[i] != value,
            None => forall|i: int| 0 <= i < self.v().len() ==> self.v()[i] != value,
        },
%subst UnderlyingBuffer::find
($a .. $b).find(|&$i| $e) ==> { let rg_ = $a..$b; let f_ = |$i: usize| -> (b: bool)
            requires self.inv(), i < self.v().len(), ensures b == (self.v()[i as int] == value), { $e };
            let r_ = range_find(rg_, f_);
            proof { assert forall|i: int| 0 <= i < (match r_ { Some(k) => k as int, None => self.v().len() as int }) implies self.v()[i] != value by {
                assert(call_ensures(f_, (i as usize,), false)); } }
            r_ }
%fn UnderlyingBuffer::is_empty | ret=r
        requires self.inv(),
        ensures r == (self.v().len() == 0),

%insert impl UnderlyingBuffer for Vec<u8>
    open spec fn v(&self) -> Seq<u8> { self@ }
    open spec fn cap(&self) -> nat { usize::MAX as nat }
    open spec fn inv(&self) -> bool { true }
    proof fn lemma_inv(&self) { assert(self@.len() == vstd::std_specs::vec::spec_vec_len(self)); }
    fn at(&self, i: usize) -> (r: &u8) { &self[i] }
    fn sub(&self, r: core::ops::Range<usize>) -> (o: &[u8]) { &self.as_slice()[r.start..r.end] }
%fn <UnderlyingBuffer for Vec<u8>>::clear
%subst <UnderlyingBuffer for Vec<u8>>::clear
self.clear() ==> Vec::clear(self)
%fn <UnderlyingBuffer for Vec<u8>>::len | ret=r
%subst <UnderlyingBuffer for Vec<u8>>::len
self.len() ==> Vec::len(self)
%fn <UnderlyingBuffer for Vec<u8>>::max_capacity | ret=r
%fn <UnderlyingBuffer for Vec<u8>>::extend_from_slice | ret=r
%subst <UnderlyingBuffer for Vec<u8>>::extend_from_slice
self.extend_from_slice( ==> Vec::extend_from_slice(self,
%end <UnderlyingBuffer for Vec<u8>>::extend_from_slice
        proof { assert(other@.take(other@.len() as int) =~= other@); }
%subst <UnderlyingBuffer for Vec<u8>>::drain
self.drain( ==> vec_drain_front(self,
%fn <UnderlyingBuffer for Vec<u8>>::drain
%fn <UnderlyingBuffer for Vec<u8>>::find | ret=r
%subst <UnderlyingBuffer for Vec<u8>>::find
self.iter().position(|$x| $e) ==> slice_position(self.as_slice(), |$x: &u8| -> (b: bool) ensures b == (*elem == value), { $e })

%insert impl FixedLinearBuffer
    pub closed spec fn fv(&self) -> Seq<u8> { self.buffer@.take(self.len as int) }
    pub closed spec fn fcap(&self) -> nat { self.buffer@.len() }
    pub closed spec fn finv(&self) -> bool { self.len <= self.buffer@.len() }
%fn FixedLinearBuffer::new | ret=r
        ensures r.finv(), r.fv() == Seq::<u8>::empty(), r.fcap() == old(buf)@.len(),
%end FixedLinearBuffer::new
        proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); }

%header impl Index<Range<usize>> for FixedLinearBuffer
impl<'a> FixedLinearBuffer<'a>
%header impl Index<usize> for FixedLinearBuffer
impl<'a> FixedLinearBuffer<'a>
%fn <Index<Range<usize>> for FixedLinearBuffer>::index | rename=index_range | ret=r
        requires self.finv(), index.start <= index.end <= self.fv().len(),
        ensures r@ == self.fv().subrange(index.start as int, index.end as int),
%subst <Index<Range<usize>> for FixedLinearBuffer>::index
Self::Output ==> [u8]
;;
self.buffer.index(index) ==> (&*self.buffer).sub(index)
%end <Index<Range<usize>> for FixedLinearBuffer>::index
        proof { assert(self.buffer@.subrange(index.start as int, index.end as int) =~= self.fv().subrange(index.start as int, index.end as int)); }
%fn <Index<usize> for FixedLinearBuffer>::index | rename=index_at | ret=r
        requires self.finv(), index < self.fcap(),
        ensures index < self.fv().len() ==> *r == self.fv()[index as int],
%subst <Index<usize> for FixedLinearBuffer>::index
Self::Output ==> u8

%insert impl UnderlyingBuffer for FixedLinearBuffer
    closed spec fn v(&self) -> Seq<u8> { self.fv() }
    closed spec fn cap(&self) -> nat { self.fcap() }
    closed spec fn inv(&self) -> bool { self.finv() }
    proof fn lemma_inv(&self) { assert(self.buffer@.len() == vstd::slice::spec_slice_len(self.buffer)); }
    fn at(&self, i: usize) -> (r: &u8) { self.index_at(i) }
    fn sub(&self, r: core::ops::Range<usize>) -> (o: &[u8]) { self.index_range(r) }
%fn <UnderlyingBuffer for FixedLinearBuffer>::clear
%end <UnderlyingBuffer for FixedLinearBuffer>::clear
%fn <UnderlyingBuffer for FixedLinearBuffer>::len | ret=r
%fn <UnderlyingBuffer for FixedLinearBuffer>::max_capacity | ret=r
%fn <UnderlyingBuffer for FixedLinearBuffer>::extend_from_slice | ret=r
%fn <UnderlyingBuffer for FixedLinearBuffer>::drain
%subst <UnderlyingBuffer for FixedLinearBuffer>::drain
let $p = $b.as_mut_ptr(); unsafe { core::ptr::copy($p2.add($from), $p3, $n); } ==> slice_ptr_copy(&mut *$b, $from, $n);
%fn <UnderlyingBuffer for FixedLinearBuffer>::find | ret=r
%subst <UnderlyingBuffer for FixedLinearBuffer>::find
($a .. $b).find(|&$i| $e) ==> { let rg_ = $a..$b; let f_ = |$i: usize| -> (b: bool)
            requires self.finv(), i < self.fv().len(), ensures b == (self.fv()[i as int] == value), { $e };
            let r_ = range_find(rg_, f_);
            proof { assert forall|i: int| 0 <= i < (match r_ { Some(k) => k as int, None => self.fv().len() as int }) implies self.fv()[i] != value by {
                assert(call_ensures(f_, (i as usize,), false)); } }
            r_ }
%# ------------------------------------------------------------ Parser
%insert impl Parser
    pub closed spec fn base(&self) -> T { self.buf }
    pub closed spec fn v(&self) -> Seq<u8> { self.buf.v() }
    pub closed spec fn cap(&self) -> nat { self.buf.cap() }
    pub closed spec fn inv(&self) -> bool { self.buf.inv() }
%fn Parser::new | ret=r
        requires underlying.inv(),
        ensures r.inv(), r.v() == underlying.v(), r.cap() == underlying.cap(),
%fn Parser::is_buffer_empty | ret=r
        requires self.inv(),
        ensures r == (self.v().len() == 0),
%fn Parser::buffer_len | ret=r
        requires self.inv(),
        ensures r == self.v().len(),
%fn Parser::consume | ret=r
        requires old(self).inv(), old(self).v().len() + 2 * new_data@.len() <= usize::MAX,
        ensures r.inv(), r.cap() == old(self).cap(),
            cand(r.v()) == cand(old(self).v() + new_data@),
            r.v().len() <= old(self).v().len() + new_data@.len(),
            r.fin() == final(self).base(),
%loopbefore Parser::consume 0
        let ghost fin_ = buf.fin();
%loopstart Parser::consume 0
            proof { if buf.v()[i as int] == s1() { lemma_cand_skip(buf.v(), i as int); } }
%start Parser::consume
        proof { self.buf.lemma_inv(); }
%loop Parser::consume 0 for it
            invariant_except_break
                buf.inv(), buf.cap() == old(self).cap(), buf.fin() == fin_,
                buf.v() == old(self).v() + new_data@,
                it.snapshot.end == buf.v().len(),
                forall|j: int| 0 <= j < i ==> buf.v()[j] != s1(),
            ensures
                buf.inv(), buf.cap() == old(self).cap(), buf.fin() == fin_,
                cand(buf.v()) == cand(old(self).v() + new_data@),
                buf.v().len() <= old(self).v().len() + new_data@.len(),

%# ------------------------------------------------------------ DualBuffer
%header impl Index<usize> for DualBuffer<T>
impl<'a, T: UnderlyingBuffer> DualBuffer<'a, T>
%insert impl DualBuffer
    /// The bytes still to be consumed: the rest of the base buffer, then the rest of the new one.
    spec fn v(&self) -> Seq<u8> {
        self.buf.v().skip(self.off as int) + self.new_buf@.skip(self.new_buf_offset as int)
    }
    spec fn cap(&self) -> nat { self.buf.cap() }
    spec fn inv(&self) -> bool {
        &&& self.buf.inv()
        &&& self.off <= self.buf.v().len()
        &&& self.new_buf_offset <= self.new_buf@.len()
        &&& self.buf.v().len() <= self.buf.cap() <= usize::MAX
        &&& self.buf.v().len() + (self.new_buf@.len() - self.new_buf_offset) + self.new_buf@.len() <= usize::MAX
    }
    /// What the base buffer will be when this borrow of it ends.
    #[verifier::prophetic]
    spec fn fin(&self) -> T { *final(self.buf) }
    /// Bytes of the view that are in the base buffer.
    spec fn under(&self) -> int { self.buf.v().len() - self.off }
    /// Whether the next `n` bytes can be provided as one slice once `d` bytes are drained.
    spec fn contiguous(&self, d: int, n: int) -> bool {
        let u = self.under() - min_int(self.under(), d);
        n <= u || u == 0 || n <= self.cap()
    }
%fn <Index<usize> for DualBuffer<T>>::index | rename=at | ret=r
        requires self.inv(), index < self.v().len(),
        ensures *r == self.v()[index as int],
%fn DualBuffer::new | ret=r
        requires old(buf).inv(), old(buf).v().len() + 2 * new_buf@.len() <= usize::MAX,
        ensures r.inv(), r.v() == old(buf).v() + new_buf@, r.cap() == old(buf).cap(), r.fin() == *final(buf),
%start DualBuffer::new
        proof { buf.lemma_inv(); }
%fn DualBuffer::clear
        requires old(self).inv(),
        ensures final(self).inv(), final(self).fin() == old(self).fin(), final(self).cap() == old(self).cap(), final(self).v() == Seq::<u8>::empty(),
%end DualBuffer::clear
        proof { assert(self.v().skip(self.v().len() as int) =~= Seq::<u8>::empty()); }
%fn DualBuffer::drain
        requires old(self).inv(), count <= old(self).v().len(),
        ensures final(self).inv(), final(self).fin() == old(self).fin(), final(self).cap() == old(self).cap(),
            final(self).v() == old(self).v().skip(count as int),
            final(self).under() == old(self).under() - min_int(old(self).under(), count as int),
%end DualBuffer::drain
        proof { assert(self.v() =~= old(self).v().skip(count as int)); }
%fn DualBuffer::len | ret=r
        requires self.inv(),
        ensures r == self.v().len(),
%fn DualBuffer::potential_lost_bytes | ret=r
        requires self.inv(),
        ensures r == max_int(0, self.v().len() - self.cap()),
%fn DualBuffer::can_drain_and_take | ret=r
        requires self.inv(), drain <= self.v().len(),
        ensures r == (drain + take <= self.v().len() && self.contiguous(drain as int, take as int)),
%fn DualBuffer::peek_raw | ret=r
        requires self.inv(), range.start <= range.end <= self.v().len(),
        ensures r.0@ + r.1@ == self.v().subrange(range.start as int, range.end as int),
%end DualBuffer::peek_raw
        proof { assert(a@ + b@ =~= self.v().subrange(range.start as int, range.end as int)); }
%fn DualBuffer::take | ret=r
        requires old(self).inv(), count <= old(self).v().len(),
        ensures final(self).inv(), final(self).fin() == old(self).fin(), final(self).cap() == old(self).cap(),
            match r {
                Ok(s) => s@ == old(self).v().take(count as int)
                    && final(self).v() == old(self).v().skip(count as int),
                Err(e) => !old(self).contiguous(0, count as int)
                    && e == ParserError::OutOfMemory { required_size: count }
                    && final(self).v() == old(self).v(),
            },
%header impl Drop for DualBuffer<T>
impl<'a, T: UnderlyingBuffer> DualBuffer<'a, T>
%fn <Drop for DualBuffer<T>>::drop | rename=on_drop
        requires old(self).inv(),
        ensures final(self).buf.inv(), final(self).buf.cap() == old(self).cap(), final(self).fin() == old(self).fin(),
            final(self).buf.v() == old(self).v().take(min_int(old(self).v().len() as int, old(self).cap() as int)),

%# ------------------------------------------------------------ checksum
%insert impl UbxChecksumCalc
    pub closed spec fn st(&self) -> (u8, u8) { (self.ck_a, self.ck_b) }
%fn UbxChecksumCalc::new | ret=r
        ensures r.st() == (0u8, 0u8),
%fn UbxChecksumCalc::update
        ensures final(self).st() == fl_from(old(self).st(), bytes@),
%start UbxChecksumCalc::update
        proof { assert(bytes@.take(0) =~= Seq::<u8>::empty()); }
%loop UbxChecksumCalc::update 0 for it
            invariant (a, b) == fl_from(old(self).st(), bytes@.take(it.index@)), 0 <= it.index@ <= bytes@.len(),
%loopstart UbxChecksumCalc::update 0
            proof { lemma_fl_push(old(self).st(), bytes@, it.index@); }
%loopafter UbxChecksumCalc::update 0
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%fn UbxChecksumCalc::result | ret=r
        ensures r == self.st(),

%# ------------------------------------------------------------ ParserIter
%insert impl ParserIter
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> T { self.buf.fin() }
    /// The end of the iteration: the iterator is dropped.
    pub fn end(&mut self)
        requires old(self).inv(),
        ensures final(self).fin() == old(self).fin(), final(self).now().inv(), final(self).now().cap() == old(self).cap(),
            final(self).now().v() == old(self).v().take(min_int(old(self).v().len() as int, old(self).cap() as int)),
    { self.buf.on_drop() }
    /// The base buffer.
    pub closed spec fn now(&self) -> T { *self.buf.buf }
    pub closed spec fn v(&self) -> Seq<u8> { self.buf.v() }
    pub closed spec fn cap(&self) -> nat { self.buf.cap() }
    pub closed spec fn inv(&self) -> bool { self.buf.inv() }
%fn ParserIter::find_sync | ret=r
        requires self.inv(),
        ensures match r {
            Some(k) => k < self.v().len() && self.v()[k as int] == s1()
                && forall|i: int| 0 <= i < k ==> self.v()[i] != s1(),
            None => forall|i: int| 0 <= i < self.v().len() ==> self.v()[i] != s1(),
        },
%subst ParserIter::find_sync
($a .. $b).find(|&$i| $e) ==> { let rg_ = $a..$b; let f_ = |$i: usize| -> (b: bool)
            requires self.inv(), i < self.v().len(), ensures b == (self.v()[i as int] == s1()), { $e };
            let r_ = range_find(rg_, f_);
            proof { assert forall|i: int| 0 <= i < (match r_ { Some(k) => k as int, None => self.v().len() as int }) implies self.v()[i] != s1() by {
                assert(call_ensures(f_, (i as usize,), false)); } }
            r_ }
%fn ParserIter::extract_packet | ret=r
        requires old(self).inv(), has_header(old(self).v()), pack_len == plen(old(self).v()),
        ensures final(self).inv(), final(self).fin() == old(self).fin(), final(self).cap() == old(self).cap(),
            reported(old(self).v(), old(self).cap(), final(self).v(), r),
            r is None ==> final(self).v().len() <= max_int(old(self).cap() as int, 5),
%start ParserIter::extract_packet
        proof {
            let s0 = self.v();
            let n = pack_len as int;
            assert(cand(s0) == s0);
            if s0.len() >= n + 8 {
                let body = s0.subrange(2, n + 6);
                assert forall|x: Seq<u8>, y: Seq<u8>| x + y == body implies #[trigger] fl_from(fl_from((0u8, 0u8), x), y) == ubx_cksum(body) by {
                    lemma_fl_concat((0u8, 0u8), x, y);
                }
                assert(s0.skip(6).take(n + 2).take(n) =~= s0.subrange(6, n + 6));
                assert(s0.skip(6).take(n + 2).subrange(0, n) =~= s0.subrange(6, n + 6));
                assert(s0.skip(6).skip(n + 2) =~= s0.skip(n + 8));
            }
        }
%fn ParserIter::next | ret=r
        requires old(self).inv(),
        ensures final(self).inv(), final(self).fin() == old(self).fin(), final(self).cap() == old(self).cap(),
            reported(old(self).v(), old(self).cap(), final(self).v(), r),
            r is None ==> final(self).v().len() <= max_int(old(self).cap() as int, 5),
%loop ParserIter::next 0 while
            invariant self.inv(), self.cap() == old(self).cap(), self.fin() == old(self).fin(), cand(self.v()) == cand(old(self).v()),
            decreases self.v().len(),
%loopstart ParserIter::next 0
            proof {
                let s0 = self.v();
                assert forall|k: int| 0 <= k <= s0.len() && (forall|i: int| 0 <= i < k ==> s0[i] != s1()) implies cand(s0) == cand(#[trigger] s0.skip(k)) by {
                    lemma_cand_skip(s0, k);
                }
                assert(s0.skip(s0.len() as int) =~= Seq::<u8>::empty());
            }
%postlude
/// What one step may report on the stream `s` and leave behind as `rest`, in
/// terms of the reference semantics `step`.
pub open spec fn reported<'a>(s: Seq<u8>, cap: nat, rest: Seq<u8>, r: Option<Result<PacketRef<'a>, ParserError>>) -> bool {
    ||| rest == step(s).1 && agrees(step(s).0, r)
    // a frame that the buffer cannot hold
    ||| has_header(cand(s)) && plen(cand(s)) + 8 > cap && cand(s).len() > cap
        && rest == cand(s).skip(2)
        && r == Some(Err::<PacketRef<'a>, _>(ParserError::OutOfMemory { required_size: (plen(cand(s)) + 2) as usize }))
}
pub open spec fn agrees<'a>(o: Option<Outcome>, r: Option<Result<PacketRef<'a>, ParserError>>) -> bool {
    match o {
        None => r is None,
        Some(Outcome::Frame { class, id, payload }) => r is Some && dispatched(class, id, payload, r.unwrap()),
        Some(Outcome::BadChecksum { expect, got }) => r is Some && r.unwrap() is Err
            && r.unwrap()->Err_0 == (ParserError::InvalidChecksum { expect: expect as u16, got: got as u16 }),
    }
}

/// One chunk, as every caller handles it: consume, next until None, drop the iterator.
pub fn drive_chunk<T: UnderlyingBuffer>(p: &mut Parser<T>, data: &[u8]) -> (out: Ghost<Seq<Outcome>>)
    requires
        old(p).inv(),
        old(p).v().len() + 2 * data@.len() <= usize::MAX,
        old(p).cap() >= 5,
        fits(old(p).v() + data@, old(p).cap()),
    ensures
        final(p).inv(),
        final(p).v() == run(old(p).v() + data@).1,
        out@ == run(old(p).v() + data@).0,
        final(p).cap() == old(p).cap(),
{
    let ghost s0 = p.v() + data@;
    let ghost mut out: Seq<Outcome> = Seq::empty();
    let mut it = p.consume(data);
    let ghost fin_ = it.fin();
    let ghost cap_ = it.cap();
    proof { lemma_run_cand(it.v()); lemma_run_cand(s0); lemma_fits_cand(s0, cap_); lemma_fits_cand(it.v(), cap_); assert(out + run(it.v()).0 =~= run(s0).0); }
    loop
        invariant it.inv(), it.fin() == fin_, it.cap() == cap_, cap_ >= 5, fits(it.v(), cap_),
            run(s0).0 == out + run(it.v()).0,
            run(s0).1 == run(it.v()).1,
        ensures it.inv(), it.fin() == fin_, it.cap() == cap_, out == run(s0).0, it.v() == run(s0).1, it.v().len() <= it.cap(),
        decreases it.v().len(),
    {
        let ghost s = it.v();
        proof { lemma_step_append(s, Seq::empty()); lemma_cand_len(s); }
        match it.next() {
            None => { proof { assert(out + Seq::<Outcome>::empty() =~= out); } break; }
            Some(_) => {
                proof {
                    let o = step(s).0.unwrap();
                    assert(out.push(o) + run(it.v()).0 =~= out + (seq![o] + run(it.v()).0));
                    out = out.push(o);
                }
            }
        }
    }
    it.end();
    proof { assert(run(s0).1.take(run(s0).1.len() as int) =~= run(s0).1); }
    Ghost(out)
}
/// Every frame the stream announces, as far as it is known, fits a buffer of `cap` bytes.
pub open spec fn fits(s: Seq<u8>, cap: nat) -> bool
    decreases s.len(),
    via fits_decreases
{
    &&& has_header(cand(s)) ==> plen(cand(s)) + 8 <= cap
    &&& step(s).0 is Some ==> fits(step(s).1, cap)
}
#[via_fn]
proof fn fits_decreases(s: Seq<u8>, cap: nat) { lemma_step_append(s, Seq::empty()); }
pub proof fn lemma_fits_cand(s: Seq<u8>, cap: nat)
    ensures fits(s, cap) == fits(cand(s), cap),
{ lemma_cand_idem(s); }
/// A buffer that holds the largest supported frame holds all of them.
pub proof fn lemma_fits_all(s: Seq<u8>, cap: nat)
    requires cap >= max_payload() + 8,
    ensures fits(s, cap),
    decreases s.len(),
{
    lemma_step_append(s, Seq::empty());
    lemma_cand_len(s);
    if step(s).0 is Some { lemma_fits_all(step(s).1, cap); }
}
pub proof fn lemma_run_cand(s: Seq<u8>)
    ensures run(s) == run(cand(s)),
{ lemma_cand_idem(s); }

/// A built frame of acceptable length, handed to a parser that holds nothing, is
/// reported as one packet with its class, id and payload, and nothing remains.
pub proof fn theorem_built_frame(class: u8, id: u8, p: Seq<u8>)
    requires p.len() <= max_payload(),
    ensures run(frame(class, id, p)) == (seq![Outcome::Frame { class, id, payload: p }], Seq::<u8>::empty()),
{
    let f = frame(class, id, p);
    let n = p.len() as int;
    lemma_b2(n);
    assert(f.len() == n + 8);
    assert(f[0] == s1() && f[1] == s2() && f[2] == class && f[3] == id && f[4] == b0(n) && f[5] == b1(n));
    assert(plen(f) == n);
    assert(cand(f) == f);
    assert(f.subrange(2, n + 6) =~= body(class, id, p));
    assert(f.subrange(6, n + 6) =~= p);
    assert(f.skip(n + 8) =~= Seq::<u8>::empty());
    let z = Seq::<u8>::empty();
    assert(cand(z) == z);
    assert(step(z) == (None::<Outcome>, z));
    assert(run(z) == (Seq::<Outcome>::empty(), z));
    assert(run(f).0 =~= seq![Outcome::Frame { class, id, payload: p }]);
}


/// A complete frame with a correct checksum.
pub open spec fn is_frame(s: Seq<u8>) -> bool {
    &&& has_header(s)
    &&& s.len() == plen(s) + 8
    &&& ubx_cksum(s.subrange(2, plen(s) + 6)) == (s[plen(s) + 6], s[plen(s) + 7])
}
/// A frame of which one byte of class, id or payload was altered is refused.
pub proof fn theorem_altered_frame(s: Seq<u8>, k: int, x: u8)
    requires is_frame(s), k == 2 || k == 3 || 6 <= k < plen(s) + 6, x != s[k],
    ensures step(s).0 == Some(Outcome::Frame { class: s[2], id: s[3], payload: s.subrange(6, plen(s) + 6) }),
        step(s.update(k, x)).0 is Some, step(s.update(k, x)).0.unwrap() is BadChecksum,
{
    let t = s.update(k, x);
    let n = plen(s);
    assert(has_header(t) && plen(t) == n && cand(t) == t && cand(s) == s);
    let (a, b) = (s.subrange(2, n + 6), t.subrange(2, n + 6));
    assert forall|i: int| 0 <= i < a.len() && i != k - 2 implies a[i] == b[i] by { assert(a[i] == s[i + 2]); assert(b[i] == t[i + 2]); }
    assert(a[k - 2] == s[k] && b[k - 2] == x);
    theorem_single_byte(a, b, k - 2);
}

/// One chunk of which the caller takes at most `limit` reports before it drops
/// the iterator: what was not consumed comes first in the next round.
pub fn drive_chunk_upto<T: UnderlyingBuffer>(p: &mut Parser<T>, data: &[u8], limit: usize) -> (out: Ghost<Seq<Outcome>>)
    requires
        old(p).inv(),
        old(p).v().len() + 2 * data@.len() <= usize::MAX,
        old(p).cap() == usize::MAX,
    ensures
        final(p).inv(), final(p).cap() == old(p).cap(),
        out@.len() <= limit,
        forall|w: Seq<u8>| #![trigger run(final(p).v() + w)] run(old(p).v() + data@ + w).0 == out@ + run(final(p).v() + w).0
            && run(old(p).v() + data@ + w).1 == run(final(p).v() + w).1,
{
    let ghost s0 = p.v() + data@;
    let ghost mut out: Seq<Outcome> = Seq::empty();
    let mut it = p.consume(data);
    let ghost fin_ = it.fin();
    let ghost cap_ = it.cap();
    proof {
        assert forall|w: Seq<u8>| #![trigger run(it.v() + w)] run(s0 + w).0 == out + run(it.v() + w).0 && run(s0 + w).1 == run(it.v() + w).1 by {
            lemma_cand_append(it.v(), w);
            lemma_cand_append(s0, w);
            lemma_run_cand(it.v() + w);
            lemma_run_cand(s0 + w);
            lemma_run_cand(cand(s0) + w);
            assert(out + run(it.v() + w).0 =~= run(it.v() + w).0);
        }
    }
    let mut n: usize = 0;
    while n < limit
        invariant it.inv(), it.fin() == fin_, it.cap() == cap_, cap_ == usize::MAX, out.len() == n, n <= limit,
            forall|w: Seq<u8>| #![trigger run(it.v() + w)] run(s0 + w).0 == out + run(it.v() + w).0 && run(s0 + w).1 == run(it.v() + w).1,
            it.v().len() <= usize::MAX,
        decreases limit - n,
    {
        let ghost s = it.v();
        proof { lemma_step_append(s, Seq::empty()); lemma_cand_len(s); }
        match it.next() {
            None => {
                proof {
                    assert forall|w: Seq<u8>| #![trigger run(it.v() + w)] run(s0 + w).0 == out + run(it.v() + w).0 && run(s0 + w).1 == run(it.v() + w).1 by {
                        lemma_step_append(s, w);
                        assert(run(s + w) == run(it.v() + w));
                    }
                }
                break;
            }
            Some(_) => {
                proof {
                    let o = step(s).0.unwrap();
                    assert forall|w: Seq<u8>| #![trigger run(it.v() + w)] run(s0 + w).0 == out.push(o) + run(it.v() + w).0 && run(s0 + w).1 == run(it.v() + w).1 by {
                        lemma_step_append(s, w);
                        assert(run(s + w).0 == seq![o] + run(it.v() + w).0);
                        assert(out.push(o) + run(it.v() + w).0 =~= out + (seq![o] + run(it.v() + w).0));
                    }
                    out = out.push(o);
                }
                n += 1;
            }
        }
    }
    let ghost sv = it.v();
    it.end();
    proof {
        assert(sv.take(sv.len() as int) =~= sv);
        assert(p.v() == sv);
    }
    Ghost(out)
}
