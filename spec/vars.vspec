%# Variable-length messages: repeated blocks, strings, optional parts.
%prelude
// ---------------------------------------------------------------- UTF-8 and text
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
/// whether the bytes are UTF-8, and the bytes of a text (core::str, kept abstract)
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
pub uninterp spec fn str_bytes(s: &str) -> Seq<u8>;
pub assume_specification<'a> [ core::str::from_utf8 ](v: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures r is Ok <==> is_utf8(v@), r is Ok ==> str_bytes(r->Ok_0) == v@;
/// `k` is the position of the terminating zero
pub open spec fn ends_at(s: Seq<u8>, k: int) -> bool {
    0 <= k < s.len() && s[k] == 0 && forall|j: int| 0 <= j < k ==> s[j] != 0
}
pub open spec fn is_cstr(s: Seq<u8>) -> bool { exists|k: int| ends_at(s, k) && is_utf8(#[trigger] s.subrange(0, k)) }
/// the text is exactly the bytes in front of the terminating zero
pub open spec fn text_of(t: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| ends_at(s, k) && t == #[trigger] s.subrange(0, k) }
pub proof fn lemma_ends_unique(s: Seq<u8>, j: int, k: int)
    requires ends_at(s, j), ends_at(s, k),
    ensures j == k,
{ if j < k { assert(s[j] != 0); } else if k < j { assert(s[k] != 0); } }

// ---------------------------------------------------------------- core::slice::ChunksExact
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExChunksExact<'a, T: 'a>(core::slice::ChunksExact<'a, T>);
pub uninterp spec fn ce_rest<T>(c: core::slice::ChunksExact<T>) -> Seq<T>;
pub uninterp spec fn ce_size<T>(c: core::slice::ChunksExact<T>) -> int;
pub assume_specification<'a, T> [ <[T]>::chunks_exact ](s: &'a [T], n: usize) -> (r: core::slice::ChunksExact<'a, T>)
    requires n > 0,
    ensures ce_rest(r) == s@, ce_size(r) == n;
pub assume_specification<'a, T> [ <core::slice::ChunksExact<'a, T> as core::iter::Iterator>::next ](c: &mut core::slice::ChunksExact<'a, T>) -> (r: Option<&'a [T]>)
    ensures ce_size(*final(c)) == ce_size(*old(c)),
        ce_rest(*old(c)).len() < ce_size(*old(c)) ==> r is None && ce_rest(*final(c)) == ce_rest(*old(c)),
        ce_rest(*old(c)).len() >= ce_size(*old(c)) ==> r is Some && r->0@ == ce_rest(*old(c)).subrange(0, ce_size(*old(c)))
            && ce_rest(*final(c)) == ce_rest(*old(c)).subrange(ce_size(*old(c)), ce_rest(*old(c)).len() as int);

/// `s.chunks(n).all(f)`: core's definition (pieces of `n` bytes, the last one may be shorter)
pub fn chunks_all<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, f: F) -> (o: bool)
    requires n > 0, forall|x: &[u8]| call_requires(f, (x,)),
    ensures s@.len() % n as nat == 0 ==> (o ==> forall|k: int| #![trigger block(s@, n as int, k)] 0 <= k < s@.len() / n as nat ==> exists|x: &[u8]| x@ == block(s@, n as int, k) && call_ensures(f, (x,), true)),
        s@.len() % n as nat == 0 ==> (!o ==> exists|k: int| #![trigger block(s@, n as int, k)] 0 <= k < s@.len() / n as nat && exists|x: &[u8]| x@ == block(s@, n as int, k) && call_ensures(f, (x,), false)),
{
    let mut i: usize = 0;
    let ghost mut k: int = 0;
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, n as int); }
    loop
        invariant_except_break n > 0, 0 <= i <= s@.len(), forall|x: &[u8]| call_requires(f, (x,)),
            s@.len() == n * (s@.len() / n as nat) + s@.len() % n as nat,
            0 <= k, s@.len() % n as nat == 0 ==> i == n * k && k <= s@.len() / n as nat,
            s@.len() % n as nat == 0 ==> forall|j: int| #![trigger block(s@, n as int, j)] 0 <= j < k ==> exists|x: &[u8]| x@ == block(s@, n as int, j) && call_ensures(f, (x,), true),
        ensures n > 0, s@.len() % n as nat == 0 ==> forall|j: int| #![trigger block(s@, n as int, j)] 0 <= j < s@.len() / n as nat ==> exists|x: &[u8]| x@ == block(s@, n as int, j) && call_ensures(f, (x,), true),
        decreases s@.len() - i,
    {
        if i >= s.len() {
            proof { if s@.len() % n as nat == 0 { let q = (s@.len() / n as nat) as int; assert(k == q) by (nonlinear_arith) requires n * k == n * q, n > 0; } }
            break;
        }
        let e = if s.len() - i < n { s.len() } else { i + n };
        let x = &s[i..e];
        proof {
            if s@.len() % n as nat == 0 {
                let q = (s@.len() / n as nat) as int;
                assert(k < q) by (nonlinear_arith) requires n * k < n * q, n > 0;
                assert(n * (k + 1) <= n * q) by (nonlinear_arith) requires k + 1 <= q, n > 0;
                assert(n * (k + 1) == n * k + n) by (nonlinear_arith);
                assert(e == i + n);
                assert(x@ == block(s@, n as int, k));
            }
        }
        if !f(x) { return false; }
        proof {
            if s@.len() % n as nat == 0 && e == s@.len() {
                let q = (s@.len() / n as nat) as int;
                assert(k + 1 == q) by (nonlinear_arith) requires n * (k + 1) == n * q, n > 0;
            }
            k = k + 1;
        }
        if e == s.len() { break; }
        i = e;
    }
    true
}
/// the k-th block of `n` bytes
pub open spec fn block(s: Seq<u8>, n: int, k: int) -> Seq<u8> { s.subrange(n * k, n * k + n) }
pub proof fn lemma_block(s: Seq<u8>, n: int, k: int, o: int)
    requires n > 0, s.len() % n as nat == 0, 0 <= o, o == n * k, o < s.len(),
    ensures o + n <= s.len(), block(s, n, k) == s.subrange(o, o + n), 0 <= k < s.len() / n as nat, n * (k + 1) == o + n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s.len() as int, n);
    let q = (s.len() / n as nat) as int;
    assert(k < q) by (nonlinear_arith) requires n * k < n * q, n > 0;
    assert(n * (k + 1) <= n * q) by (nonlinear_arith) requires k + 1 <= q, n > 0;
    assert(n * (k + 1) == n * k + n) by (nonlinear_arith);
    assert(k >= 0) by (nonlinear_arith) requires n * k >= 0, n > 0;
}

// `x.try_into()` from a slice to an array of the same length
pub fn array4(s: &[u8]) -> (r: [u8; 4])
    requires s@.len() == 4,
    ensures r@ == s@,
{ let r = [s[0], s[1], s[2], s[3]]; assert(r@ =~= s@); r }
pub fn u32_narrow(x: u32) -> (r: u8)
    requires x <= 255,
    ensures r == x,
{ x as u8 }
pub proof fn lemma_mask(d: u32)
    ensures (d & 0x3F000000) >> 24 == (d / 0x1000000) % 64, (d >> 24) & 0xFF == d / 0x1000000, d & 0xFFFFFF == d % 0x1000000,
{
    assert((d & 0x3F000000) >> 24 == (d / 0x1000000) % 64) by (bit_vector);
    assert((d >> 24) & 0xFF == d / 0x1000000) by (bit_vector);
    assert(d & 0xFFFFFF == d % 0x1000000) by (bit_vector);
}

%gsubst
|$x| *$y == $z) ==> |$x: &u8| -> (res: bool) ensures res == (*$x == $z), { *$y == $z })
;;
$recv.iter().position( ==> slice_position($recv, 
;;
$recv.chunks(30).all( ==> chunks_all($recv, 30, 
;;
mon_ver::is_cstr_valid ==> is_cstr_valid
;;
mon_ver::convert_to_str_unchecked ==> convert_to_str_unchecked
;;
inf::convert_to_str ==> convert_to_str
;;
inf::is_valid ==> is_valid
;;
&self.0[{ let offset = $a; offset..offset + $b }] ==> { let offset = $a; &self.0[offset..offset + $b] }
;;
self.0.next()?.try_into().map(u32::from_le_bytes).unwrap() ==> u32_from_le_bytes(array4(self.0.next()?))
;;
u32::from_le_bytes($x[$a].try_into().unwrap()) ==> u32_from_le_bytes(array4(&$x[$a]))
;;
u32::from_le_bytes($x.try_into().unwrap()) ==> u32_from_le_bytes(array4($x))
;;
bytes.try_into().ok().map(u32::from_le_bytes) ==> (if bytes.len() == 4 { Some(u32_from_le_bytes(array4(bytes))) } else { None })
;;
(($d & $m) >> $k).try_into().unwrap() ==> u32_narrow(($d & $m) >> $k)
;;
(($d >> $k) & $m).try_into().unwrap() ==> u32_narrow(($d >> $k) & $m)
;;
self.0.next().map(RxmRawxInfoRef) ==> (match self.0.next() { Some(x) => Some(RxmRawxInfoRef(x)), None => None })
;;
self.0.next().map(|$x| $e) ==> (match self.0.next() { Some($x) => Some($e), None => None })
