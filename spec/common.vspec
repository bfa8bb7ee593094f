%# Specification functions shared by the parser and the packet units.
%prelude
// ---------------------------------------------------------------- UBX checksum
/// One step of the 8-bit Fletcher checksum of the UBX protocol.
pub open spec fn fl_step(p: (u8, u8), b: u8) -> (u8, u8) {
    let a = ((p.0 + b) % 256) as u8;
    (a, ((p.1 + a) % 256) as u8)
}
/// Checksum of `s`, started from the state `p`.
pub open spec fn fl_from(p: (u8, u8), s: Seq<u8>) -> (u8, u8)
    decreases s.len(),
{
    if s.len() == 0 { p } else { fl_step(fl_from(p, s.drop_last()), s.last()) }
}
/// The UBX checksum of a byte sequence.
pub open spec fn ubx_cksum(s: Seq<u8>) -> (u8, u8) { fl_from((0u8, 0u8), s) }

pub proof fn lemma_fl_push(p: (u8, u8), s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures fl_from(p, s.take(i + 1)) == fl_step(fl_from(p, s.take(i)), s[i]),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}

/// Incremental computation over any split of the data equals one computation.
pub proof fn lemma_fl_concat(p: (u8, u8), s: Seq<u8>, t: Seq<u8>)
    ensures fl_from(fl_from(p, s), t) == fl_from(p, s + t),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
    } else {
        lemma_fl_concat(p, s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
    }
}

/// States that differ in the first component stay different.
pub proof fn lemma_fl_differ(p: (u8, u8), q: (u8, u8), s: Seq<u8>)
    requires p.0 != q.0,
    ensures fl_from(p, s).0 != fl_from(q, s).0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_fl_differ(p, q, s.drop_last()); }
}
/// One altered byte changes the checksum.
pub proof fn theorem_single_byte(s: Seq<u8>, t: Seq<u8>, k: int)
    requires s.len() == t.len(), 0 <= k < s.len(), s[k] != t[k],
        forall|i: int| 0 <= i < s.len() && i != k ==> s[i] == t[i],
    ensures ubx_cksum(s) != ubx_cksum(t),
{
    let z = (0u8, 0u8);
    assert(s.take(k) =~= t.take(k));
    lemma_fl_push(z, s, k);
    lemma_fl_push(z, t, k);
    assert(s.skip(k + 1) =~= t.skip(k + 1));
    lemma_fl_concat(z, s.take(k + 1), s.skip(k + 1));
    lemma_fl_concat(z, t.take(k + 1), t.skip(k + 1));
    assert(s.take(k + 1) + s.skip(k + 1) =~= s);
    assert(t.take(k + 1) + t.skip(k + 1) =~= t);
    lemma_fl_differ(fl_from(z, s.take(k + 1)), fl_from(z, t.take(k + 1)), s.skip(k + 1));
}

// ---------------------------------------------------------------- frames
/// byte `k` of the little-endian form of a non-negative number
#[verifier::opaque]
pub open spec fn b0(v: int) -> u8 { (v % 0x100) as u8 }
#[verifier::opaque]
pub open spec fn b1(v: int) -> u8 { ((v / 0x100) % 0x100) as u8 }
#[verifier::opaque]
pub open spec fn b2(v: int) -> u8 { ((v / 0x10000) % 0x100) as u8 }
#[verifier::opaque]
pub open spec fn b3(v: int) -> u8 { ((v / 0x1000000) % 0x100) as u8 }
pub proof fn lemma_b1(v: int) requires 0 <= v < 0x100, ensures b0(v) == v, { reveal(b0); }
pub proof fn lemma_b2(v: int) requires 0 <= v < 0x10000, ensures b0(v) + 0x100 * b1(v) == v, { reveal(b0); reveal(b1); }
pub proof fn lemma_b4(v: int) requires 0 <= v < 0x100000000, ensures b0(v) + 0x100 * b1(v) + 0x10000 * b2(v) + 0x1000000 * b3(v) == v,
{
    reveal(b0); reveal(b1); reveal(b2); reveal(b3);
    let u = v as u32;
    assert((u % 0x100) + 0x100 * ((u / 0x100) % 0x100) + 0x10000 * ((u / 0x10000) % 0x100) + 0x1000000 * ((u / 0x1000000) % 0x100) == u) by (bit_vector);
}
/// two's complement pattern of `v` in `2 * half` values
pub open spec fn us(v: int, half: int) -> int { if v < 0 { v + 2 * half } else { v } }
/// class, id, length and payload: what the checksum covers
pub open spec fn body(class: u8, id: u8, p: Seq<u8>) -> Seq<u8> { seq![class, id, b0(p.len() as int), b1(p.len() as int)] + p }
/// The frame of the UBX protocol.
pub open spec fn frame(class: u8, id: u8, p: Seq<u8>) -> Seq<u8> {
    let ck = ubx_cksum(body(class, id, p));
    seq![0xb5u8, 0x62u8] + body(class, id, p) + seq![ck.0, ck.1]
}

/*discharged: unit std_le (Kani)*/ pub assume_specification [ u8::overflowing_add ](a: u8, b: u8) -> (r: (u8, bool))
    ensures r.0 == (a + b) % 256, r.1 == (a + b > 255);

// u16::from_le_bytes cannot be given an assume_specification (its array length
// is an anonymous constant); the extraction renames the call.
#[verifier::external_body] /*discharged: unit std_le (Kani)*/
pub fn u16_from_le_bytes_v(b: [u8; 2]) -> (r: u16)
    ensures r == b[0] + 256 * b[1],
{ u16::from_le_bytes(b) }

pub fn cmp_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }

/// `(a..b).find(f)`: core::iter's definition (the first element in order for
/// which the closure returns true).
pub fn range_find<F: Fn(usize) -> bool>(r: core::ops::Range<usize>, f: F) -> (o: Option<usize>)
    requires forall|i: usize| r.start <= i < r.end ==> call_requires(f, (i,)),
    ensures match o {
        Some(k) => r.start <= k < r.end && call_ensures(f, (k,), true)
            && forall|i: usize| r.start <= i < k ==> call_ensures(f, (i,), false),
        None => forall|i: usize| r.start <= i < r.end ==> call_ensures(f, (i,), false),
    },
{
    let mut i = r.start;
    while i < r.end
        invariant r.start <= i, r.start <= r.end ==> i <= r.end,
            forall|i: usize| r.start <= i < r.end ==> call_requires(f, (i,)),
            forall|j: usize| r.start <= j < i ==> call_ensures(f, (j,), false),
        decreases r.end - i,
    {
        if f(i) { return Some(i); }
        i += 1;
    }
    None
}

/// `s.iter().position(f)`: core::iter's definition.
pub fn slice_position<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (o: Option<usize>)
    requires forall|i: int| #![auto] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
    ensures match o {
        Some(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), true)
            && forall|i: int| #![auto] 0 <= i < k ==> call_ensures(f, (&s@[i],), false),
        None => forall|i: int| #![auto] 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), false),
    },
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(),
            forall|i: int| #![auto] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
            forall|j: int| #![auto] 0 <= j < i ==> call_ensures(f, (&s@[j],), false),
        decreases s@.len() - i,
    {
        if f(&s[i]) { return Some(i); }
        i += 1;
    }
    None
}

// Index expressions are extracted as the calls they stand for.
pub trait SliceIdx {
    spec fn sv(&self) -> Seq<u8>;
    fn at(&self, i: usize) -> (r: &u8)
        requires i < self.sv().len(),
        ensures *r == self.sv()[i as int];
    fn sub(&self, r: core::ops::Range<usize>) -> (o: &[u8])
        requires r.start <= r.end <= self.sv().len(),
        ensures o@ == self.sv().subrange(r.start as int, r.end as int);
}
impl SliceIdx for [u8] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    fn at(&self, i: usize) -> (r: &u8) { &self[i] }
    fn sub(&self, r: core::ops::Range<usize>) -> (o: &[u8]) { &self[r.start..r.end] }
}
