#!/usr/bin/env python3
"""Writes the contracts of the generated packet code (spec/gen_*.vspec) from the
frozen layout table spec/layout.json.  Run by hand; the result is committed."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(V + '/spec/layout.json'))
P = {p['name']: p for p in L['packets']}
EN = {e['name']: e for e in L['enums']}
BF = {b['name']: b for b in L['bitflags']}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}
NUMT = ('f64', 'f32')
RECV = [p for p in L['packets'] if p['kind'].startswith('recv')]
SEND = [p for p in L['packets'] if p['kind'].endswith('send')]
VAR = ['NavSat', 'MonVer', 'EsfMeas', 'EsfRaw', 'RxmSfrbx', 'RxmRawx', 'InfError', 'InfNotice', 'InfTest', 'InfWarning', 'InfDebug']
TUPLE = ('TimTpFlags', 'TimTpRefInfo', 'TimTm2Flags')  # built by their tuple constructor
WORDS = {'FixStatusInfo': 'u8', 'NavSatSvFlags': 'u32', 'CfgItfmConfig': 'u32', 'CfgItfmConfig2': 'u32', 'UartMode': 'u32'}
RAWONLY = {'ResetMode': 'u8', 'AlignmentToReferenceTime': 'u16'}


def intval(ty, off, s='s'):
    """the integer stored at `off`"""
    o = str(off)
    if ty == 'u8': return '%s[%s] as int' % (s, o)
    if ty == 'i8': return 'sg(%s[%s] as int, 0x80)' % (s, o)
    if ty in ('u16', 'u32', 'u64'): return 'le%d(%s, %s)' % (BITS[ty] // 8, s, o)
    if ty in ('i16', 'i32', 'i64'): return 'sg(le%d(%s, %s), 0x%x)' % (BITS[ty] // 8, s, o, 1 << (BITS[ty] - 1))
    raise Exception(ty)


def flit(x, ty):
    x = x.replace('_', '')
    return '%s%s' % (x, ty) if ('.' in x or 'e' in x) else '%s.0%s' % (x, ty)


def rawspec(f, r='r', s='self.0@'):
    """`r` is the unscaled stored value"""
    ty = f['ty']
    if 'bytes' in f:
        n = f['bytes']
        return '%s@.len() == %d && %s' % (r, n, ' && '.join('%s@[%d] == %s[%d]' % (r, k, s, f['off'] + k) for k in range(n)) or 'true')
    if ty in ('f32', 'f64'): return '%s == %s_bits(%s)' % (r, ty, intval('u' + ty[1:], f['off'], s))
    return '%s == %s' % (r, intval(ty, f['off'], s))


def accessor(f):
    return f.get('alias', f['name'])


def accspec(f, r='r', s='self.0@'):
    m = f.get('map_type')
    if not m: return rawspec(f, r, s)
    v = intval(f['ty'], f['off'], s)
    if m in NUMT:
        b = m[1:]
        c = 'to%s(%s)' % (b, v)
        return '%s == %s' % (r, 'mul%s(%s, %s)' % (b, c, flit(f['scale'], m)) if 'scale' in f else c)
    return '%s == %s_of((%s) as %s)' % (r, m, v, f['ty'])


def enum_valid(e):
    return ' || '.join('x == %d' % c for _, c in e['variants'])


def wf_terms(p, s='s'):
    out = ['%s.len() == %d' % (s, p['len'])]
    for f in p['fields']:
        if f.get('may_fail'):
            out.append('%s_valid(%s[%d])' % (f['map_type'], s, f['off']))
    return out


def valid_def(n):
    return 'pub open spec fn %s_valid(x: %s) -> bool { %s }\n' % (n, EN[n]['repr'], enum_valid(EN[n]))


def stub(m, out):
    """opaque stand-in for a type whose own contracts are proved elsewhere"""
    if m in EN:
        e = EN[m]; t = e['repr']; un = 'from_unchecked' in e['attrs']; unit = 'enums'
    elif m in BF:
        t = BF[m]['repr']; un = False; unit = 'flags'
    elif m in WORDS:
        t = WORDS[m]; un = False; unit = 'words'
    else:
        t = 'u8'; un = False; unit = 'words'
    tup = m in TUPLE
    if tup:
        out.append('pub struct %s(pub u8);\npub open spec fn %s_of(x: u8) -> %s { %s(x) }\n' % (m, m, m, m))
        return
    out.append('#[verifier::external_body] /*stub: %s*/ pub struct %s(%s);\npub uninterp spec fn %s_of(x: %s) -> %s; /*stub: %s*/\n' % (unit, m, t, m, t, m, unit))
    fn = 'from_unchecked' if un else 'from'
    req = ''
    if un: req = ' requires %s_valid(x),' % m
    if m == 'UartMode': req = ' requires UartMode_ok(x),'
    out.append('impl %s {\n  #[verifier::external_body] /*stub: %s*/ pub fn %s(x: %s) -> (r: Self)%s ensures r == %s_of(x), { unimplemented!() }\n' % (m, unit, fn, t, req, m))
    if un: out.append('  #[verifier::external_body] /*stub: %s*/ pub fn is_valid(x: %s) -> (r: bool) ensures r == %s_valid(x), { unimplemented!() }\n' % (unit, t, m))
    out.append('}\n')


UARTOK = '''/// the mode words UartMode::from can decode (known finding: it panics on the others)
pub open spec fn UartMode_ok(x: u32) -> bool {
    let d = (x / 64) % 4;
    let p = (x / 512) % 8;
    (d == 2 || d == 3) && (p == 0 || p == 1 || p == 4 || p == 5)
}
'''

ACKX = '''%%fn %sRef::%s | ret=r
        requires wf_%s(self.0@),
        ensures r == (self.0@[0] == T::CLASS && self.0@[1] == T::ID),
'''


def write(name, text):
    open('%s/spec/%s.vspec' % (V, name), 'w').write('%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.\n' + text)


def debug_dirs(n, extra=''):
    """the generated Debug implementation, as a method"""
    k = '<Debug for %sRef>::fmt' % n
    return "%%%%take impl Debug for %sRef\n%%%%header impl Debug for %sRef\nimpl<'a> %sRef<'a>\n%%%%fn %s | rename=debug_fmt\n        requires wf_%s(self.0@)%s,\n".replace('%%%%', '%%') % (n, n, n, k, n, extra)


def acc_unit(name, packs):
    pre, sp = [], ['%source error\n%take enum ParserError\n%source exp\n']
    types = []
    for p in packs:
        for f in p['fields']:
            m = f.get('map_type')
            if m and m not in NUMT and m not in types: types.append(m)
    for m in types:
        if m in EN and 'from_unchecked' in EN[m]['attrs']: pre.append(valid_def(m))
    if 'UartMode' in types: pre.append(UARTOK)
    for m in types: stub(m, pre)
    need_meta = False
    for p in packs:
        n = p['name']
        pre.append('/// the payloads of %s the parser accepts\npub open spec fn wf_%s(s: Seq<u8>) -> bool { %s }\n' % (n, n, ' && '.join(wf_terms(p))))
        sp.append('%%take struct %sRef\n%%take impl %sRef\n' % (n, n))
        sp.append('%%fn %sRef::as_bytes | ret=r\n        ensures r@ == self.0@,\n' % n)
        for f in p['fields']:
            a = accessor(f)
            req = 'wf_%s(self.0@)' % n
            if f.get('map_type') == 'UartMode': req += ', UartMode_ok(le4(self.0@, %d) as u32)' % f['off']
            if f.get('map_type'):
                sp.append('%%fn %sRef::%s_raw | ret=r\n        requires wf_%s(self.0@),\n        ensures %s,\n' % (n, a, n, rawspec(f)))
            sp.append('%%fn %sRef::%s | ret=r\n        requires %s,\n        ensures %s,\n' % (n, a, req, accspec(f)))
        sp.append(debug_dirs(n, ', UartMode_ok(le4(self.0@, %d) as u32)' % [f['off'] for f in p['fields'] if f.get('map_type') == 'UartMode'][0] if any(f.get('map_type') == 'UartMode' for f in p['fields']) else ''))
        sp.append('%%fn %sRef::validate | ret=r\n        ensures r is Ok <==> wf_%s(payload@),\n' % (n, n))
        if n in ('AckAck', 'AckNak'):
            need_meta = True
            sp.append(ACKX % (n, 'is_ack_for' if n == 'AckAck' else 'is_nak_for', n))
    if need_meta: sp.insert(1, '%take trait UbxPacketMeta\n')
    write(name, '%prelude\n' + ''.join(pre) + ''.join(sp))


def enums_unit():
    pre, sp = [], ['%source exp\n']
    for e in L['enums']:
        n, t = e['name'], e['repr']
        vs = list(e['variants'])
        sp.append('%%take enum %s\n%%take impl %s\n%%derive enum %s :: #[derive(Clone, Copy)] #[repr(%s)]\n' % (n, n, n, t))
        if 'rest_reserved' in e['attrs']:
            codes = {c for _, c in vs}
            vs += [['Reserved%d' % c, c] for c in range(256) if c not in codes]
        vs.sort(key=lambda v: v[1])
        pre.append('/// documented codes of %s%s\npub open spec fn %s_of(x: %s) -> %s {\n    match x { %s, _ => %s::%s }\n}\n' % (
            n, ', all others reserved' if 'rest_reserved' in e['attrs'] else '', n, t, n,
            ', '.join('%d%s => %s::%s' % (c, t, n, v) for v, c in (vs if len(vs) < 256 else vs[:-1])), n, vs[-1][0]))
        if 'from' in e['attrs']:
            sp.append('%%fn %s::from | ret=r\n        ensures r == %s_of(x),\n' % (n, n))
        if 'from_unchecked' in e['attrs']:
            pre.append(valid_def(n))
            sp.append('%%fn %s::from_unchecked | ret=r\n        requires %s_valid(x),\n        ensures r == %s_of(x),\n' % (n, n, n))
            sp.append('%%fn %s::is_valid | ret=r\n        ensures r == %s_valid(x),\n' % (n, n))
        if 'into_raw' in e['attrs']:
            pre.append('pub open spec fn %s_code(e: %s) -> %s {\n    match e { %s }\n}\n' % (n, n, t, ', '.join('%s::%s => %d' % (n, v, c) for v, c in vs)))
            sp.append('%%fn %s::into_raw | ret=r\n        ensures r == %s_code(self),\n' % (n, n))
            pre.append('/// decoding inverts encoding, and the other way round on documented codes\npub proof fn theorem_%s_roundtrip(e: %s, x: %s)\n    ensures %s_valid(%s_code(e)), %s_of(%s_code(e)) == e, %s_valid(x) ==> %s_code(%s_of(x)) == x,\n{}\n' % (n, n, t, n, n, n, n, n, n, n))
        else:
            pre.append('/// no undocumented code decodes to a documented variant\npub proof fn theorem_%s_exact(x: %s)\n    ensures %s,\n{}\n' % (n, t, ', '.join('%s_of(x) is %s <==> x == %d' % (n, v, c) for v, c in e['variants'])))
    write('gen_enums', '%prelude\n#[verifier::external_body] /*discharged: its precondition (never called)*/\npub fn unreachable_panic() -> ! requires false, { panic!() }\n' + ''.join(pre) +
          '%gsubst\n::core::panicking::panic($m) ==> unreachable_panic()\n;;\n::core::panicking::panic_fmt($m) ==> unreachable_panic()\n;;\nconst fn into_raw ==> fn into_raw\n' + ''.join(sp))


def flags_unit():
    pre, sp = [], ['%source exp\n']
    for b in L['bitflags']:
        n, t = b['name'], b['repr']
        w = BITS[t]
        cs = [list(c) for c in b['consts']]
        used = 0
        for _, v in cs: used |= v
        cs += [['RESERVED%d' % k, 1 << k] for k in range(w) if not used >> k & 1]
        pre.append('''pub struct %(n)s { pub b: %(t)s }
impl %(n)s {
    // the bitflags crate: bits unknown to the declaration are cut off
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_retain(bits: %(t)s) -> (r: Self) ensures r.b == bits, { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn from_bits_truncate(bits: %(t)s) -> (r: Self) ensures r.b == bits & %(n)s_all(), { unimplemented!() }
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: %(t)s) ensures r == self.b, { unimplemented!() }
}
/// all declared bits of %(n)s (reserved ones included)
pub open spec fn %(n)s_all() -> %(t)s { 0x%(all)x }
''' % dict(n=n, t=t, all=(1 << w) - 1))
        sp.append('%%take impl %s\n%%only impl %s = from into_raw %s\n' % (n, n, ' '.join(c for c, _ in cs)))
        if 'from' in b['attrs']:
            sp.append('%%fn %s::from | ret=r\n        ensures r.b == x,\n%%end %s::from\n        proof { assert(x & 0x%x%s == x) by (bit_vector); }\n' % (n, n, (1 << w) - 1, t))
        if 'into_raw' in b['attrs']:
            sp.append('%%fn %s::into_raw | ret=r\n        ensures r == self.b,\n' % n)
        for c, v in cs:
            sp.append('%%constfn %s::%s\n        ensures r.b == 0x%x,\n' % (n, c, v))
        pre.append(''.join('pub proof fn const_%s_%s()\n    ensures (1 as %s) << %du32 == 0x%x,\n{ assert((1 as %s) << %du32 == 0x%x) by (bit_vector); }\n' % (n, c, t, v.bit_length() - 1, v, t, v.bit_length() - 1, v) for c, v in []))
    # shifts of 1 by constants
    ax = []
    for t in ('u8', 'u16', 'u32'):
        for k in range(BITS[t]):
            ax.append('    assert((1 as %s) << %du32 == 0x%x) by (bit_vector);' % (t, k, 1 << k))
    write('gen_flags', '%prelude\n' + ''.join(pre) + '%gsubst\nconst fn from ==> fn from\n;;\nconst fn into_raw ==> fn into_raw\n;;\n(1 as u8) << $k) ==> shl8($k))\n;;\n(1 as u16) << $k) ==> shl16($k))\n;;\n(1 as u32) << $k) ==> shl32($k))\n%prelude\n' + ''.join('''pub fn shl%d(k: u32) -> (r: u%d) requires k < %d, ensures %s, { proof { %s } (1 as u%d) << k }
''' % (BITS[t], BITS[t], BITS[t], ', '.join('k == %d ==> r == 0x%x' % (k, 1 << k) for k in range(BITS[t])), ' '.join('assert((1 as %s) << %du32 == 0x%x) by (bit_vector);' % (t, k, 1 << k) for k in range(BITS[t])), BITS[t]) for t in ('u8', 'u16', 'u32')) + ''.join(sp))
    # the constructors the bitflags crate provides, checked on the real crate by Kani
    write('gen_bits', '%plain\n%prelude\n#[cfg(kani)]\nmod h {\n' + ''.join('''    #[kani::proof] fn %(n)s() { let x: %(t)s = kani::any(); assert!(ublox::%(n)s::from_bits_truncate(x).bits() == x & 0x%(a)x); assert!(ublox::%(n)s::from_bits_retain(x).bits() == x); }
''' % dict(n=b['name'], t=b['repr'], a=(1 << BITS[b['repr']]) - 1) for b in L['bitflags']) + '''    #[kani::proof]
    #[kani::should_panic]
    fn probe() { let x: u8 = kani::any(); assert!(ublox::%s::from_bits_truncate(x).bits() != 77); }
}
''' % L['bitflags'][0]['name'])


def disp_unit():
    names = [n for n in L['recv'] if n != 'UbxUnknownPacketRef']
    pre, sp = ['// FIXED_PAYLOAD_LEN (used nowhere in the crate) is an Option constant, which the verifier does not take in traits\npub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }\n'], ['%source error\n%take enum ParserError\n%source ubx_packets\n%take struct UbxUnknownPacketRef\n%source exp\n']
    for p in L['packets']:
        n = p['name']
        sp.append('%%take struct %s\n%%take impl UbxPacketMeta for %s\n%%only impl UbxPacketMeta for %s = CLASS ID MAX_PAYLOAD_LEN\n' % (n, n, n))
    for n in names:
        pre.append('pub uninterp spec fn wf_%s(s: Seq<u8>) -> bool; /*stub: acc*/\npub struct %sRef<\'a>(pub &\'a [u8]);\nimpl<\'a> %sRef<\'a> {\n  #[verifier::external_body] /*stub: acc*/ pub fn validate(payload: &[u8]) -> (r: Result<(), ParserError>) ensures r is Ok <==> wf_%s(payload@), { unimplemented!() }\n}\n' % (n, n, n, n))
        sp.append('%%drop struct %sRef\n' % n)
    pre.append('/// class and id of a frame name the message and its payload satisfies the message\'s rules\n')
    for n in names:
        p = P[n]
        pre.append('pub open spec fn is_%s(class: u8, id: u8, s: Seq<u8>) -> bool { class == 0x%x && id == 0x%x && wf_%s(s) }\n' % (n, p['cls'], p['id'], n))
    pre.append('pub open spec fn known(class: u8, id: u8, s: Seq<u8>) -> bool {\n    %s\n}\n' % '\n    || '.join('is_%s(class, id, s)' % n for n in names))
    post = ['pub open spec fn dispatched(class: u8, id: u8, s: Seq<u8>, p: PacketRef) -> bool {\n    match p {\n']
    for n in names: post.append('        PacketRef::%s(x) => x.0@ == s && is_%s(class, id, s),\n' % (n, n))
    post.append('        PacketRef::Unknown(u) => u.payload@ == s && u.class == class && u.msg_id == id && !known(class, id, s),\n    }\n}\n')
    post.append('pub open spec fn codes(p: PacketRef) -> (u8, u8) {\n    match p {\n')
    for n in names: post.append('        PacketRef::%s(x) => (0x%xu8, 0x%xu8),\n' % (n, P[n]['cls'], P[n]['id']))
    post.append('        PacketRef::Unknown(u) => (u.class, u.msg_id),\n    }\n}\n')
    # declared class, id and lengths of every message, whoever reads them
    for p in L['packets']:
        n = p['name']
        post.append('pub fn meta_%s() { proof { assert(%s::CLASS == 0x%x); assert(%s::ID == 0x%x); assert(%s::MAX_PAYLOAD_LEN == %d); } }\n' % (
            n, n, p['cls'], n, p['id'], n, p.get('max', p.get('len'))))
    post.append('/// the report for a frame carries the class and id of that frame\npub fn codes_of_frame(class: u8, id: u8, payload: &[u8]) {\n    let r = match_packet(class, id, payload);\n    match r { Ok(p) => { let c = p.class_and_msg_id(); assert(c == (class, id)); }, Err(_) => { assert(false); } }\n}\n')
    sp.append('%take enum PacketRef\n%take impl PacketRef\n%take fn match_packet\n%take fn max_u16\n%take const MAX_PAYLOAD_LEN\n')
    sp.append("""%fn PacketRef::class_and_msg_id | ret=r
        ensures r == codes(*self),
%fn match_packet | ret=r
        ensures r is Ok, dispatched(class, msg_id, payload@, r->Ok_0),
%fn max_u16 | ret=r
        ensures r == if a < b { b } else { a },
%constfn MAX_PAYLOAD_LEN
        ensures r == """ + str(max(p.get('max', p.get('len')) for p in RECV if p['name'] in names)) + """,
%gsubst
($a::CLASS, $b::ID) if ==> (c_, m_) if c_ == $a::CLASS && m_ == $b::ID &&
;;
const fn max_u16 ==> fn max_u16
""")
    write('gen_disp', '%open\n%prelude\n' + ''.join(pre) + '%postlude\n' + ''.join(post) + ''.join(sp))

# iterator -> (block size, item, contract of an item x on its block b)
ITERS = {
    'NavSatIter': (12, 'NavSatSvInfoRef', 'x.0@ == b'),
    'MonVerExtensionIter': (30, "&'a str", 'text_of(str_bytes(x), b)'),
    'EsfMeasDataIter': (4, 'EsfMeasData', 'x.data_type == (le4(b, 0) / 0x1000000) % 64 && x.data_field == le4(b, 0) % 0x1000000'),
    'EsfRawDataIter': (8, 'EsfRawData', 'x.data_type == le4(b, 0) / 0x1000000 && x.data_field == le4(b, 0) % 0x1000000 && x.sensor_time_tag == le4(b, 4)'),
    'DwrdIter': (4, 'u32', 'x == le4(b, 0)'),
    'RxmRawxInfoIter': (32, 'RxmRawxInfoRef', 'x.0@ == b'),
}
VITER = {'NavSat': ('svs', 'NavSatIter', 8), 'MonVer': ('extension', 'MonVerExtensionIter', 40), 'EsfMeas': ('data', 'EsfMeasDataIter', 8),
         'EsfRaw': ('data', 'EsfRawDataIter', 4), 'RxmSfrbx': ('dwrd', 'DwrdIter', 8), 'RxmRawx': ('measurements', 'RxmRawxInfoIter', 16)}
OFFS = ('NavSatIter', 'MonVerExtensionIter')
ALLSTART = '        proof { assert forall|d: u32| (#[trigger] (d & 0x3F000000)) >> 24 == (d / 0x1000000) % 64 && (d >> 24) & 0xFF == d / 0x1000000 && d & 0xFFFFFF == d % 0x1000000 by { lemma_mask(d); } }\n'
ESFNEXT = """%%start %s
        proof {
            assert forall|d: u32| #![trigger d & 0xFFFFFF] (d & 0x3F000000) >> 24 == (d / 0x1000000) %% 64 && (d >> 24) & 0xFF == d / 0x1000000 && d & 0xFFFFFF == d %% 0x1000000 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d & 0x3F000000] (d & 0x3F000000) >> 24 == (d / 0x1000000) %% 64 by { lemma_mask(d); }
            assert forall|d: u32| #![trigger d >> 24i32] (d >> 24) & 0xFF == d / 0x1000000 by { lemma_mask(d); }
        }
"""
OFFNEXT = {'NavSatIter': """%%start %s
        proof {
            let (d, o, r) = (self.data@, self.offset as int, self.rest());
            if o < d.len() {
                assert(r.subrange(0, 12) =~= d.subrange(o, o + 12));
                assert(r.subrange(12, r.len() as int) =~= d.subrange(o + 12, d.len() as int));
            }
        }
""", 'MonVerExtensionIter': """%%start %s
        proof {
            let (d, o, r) = (self.data@, self.offset as int, self.rest());
            if o < d.len() {
                let t = r.subrange(30, r.len() as int);
                assert(r.subrange(0, 30) =~= d.subrange(o, o + 30));
                assert(t =~= d.subrange(o + 30, d.len() as int));
                assert(block(r, 30, 0) =~= d.subrange(o, o + 30));
                assert forall|k: int| 0 <= k < t.len() / 30nat implies is_cstr(#[trigger] block(t, 30, k)) by {
                    assert(block(t, 30, k) =~= block(r, 30, k + 1));
                }
            }
        }
"""}
DRAIN = """/// The iterator yields exactly the blocks of `s`, in order, and then ends.
pub fn theorem_all_%(it)s<'a>(s: &'a [u8]) -> (v: Vec<%(item)s>)
    requires s@.len() %% %(n)dnat == 0%(txt)s,
    ensures v@.len() == s@.len() / %(n)dnat, forall|k: int| 0 <= k < v@.len() ==> %(it)s_item(#[trigger] v@[k], block(s@, %(n)d, k)),
{
    let mut v: Vec<%(item)s> = Vec::new();
    let mut it = %(it)s::new(s);
    let ghost mut o: int = 0;
    proof { assert(s@.subrange(0, s@.len() as int) =~= s@); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s@.len() as int, %(n)d); }
    loop
        invariant_except_break it.wf(), 0 <= o <= s@.len(), o == %(n)d * v@.len(), it.rest() == s@.subrange(o, s@.len() as int), s@.len() %% %(n)dnat == 0,
            forall|k: int| 0 <= k < v@.len() ==> %(it)s_item(#[trigger] v@[k], block(s@, %(n)d, k)),
        ensures %(n)d * v@.len() == s@.len(), forall|k: int| 0 <= k < v@.len() ==> %(it)s_item(#[trigger] v@[k], block(s@, %(n)d, k)),
        decreases s@.len() - o,
    {
        let ghost r0 = it.rest();
        match it.next() {
            None => { break; },
            Some(x) => {
                proof {
                    assert(r0.subrange(0, %(n)d) =~= block(s@, %(n)d, v@.len() as int));
                    assert(r0.subrange(%(n)d, r0.len() as int) =~= s@.subrange(o + %(n)d, s@.len() as int));
                    o = o + %(n)d;
                }
                v.push(x);
            },
        }
    }
    v
}
"""
ESFLEMMA = """/// bytes taken by the measurements, and by the calibration time tag
pub open spec fn esf_len(s: Seq<u8>) -> int { 4 * ((le2(s, 4) / 0x800) % 32) }
pub open spec fn esf_cal(s: Seq<u8>) -> int { if (le2(s, 4) / 8) % 2 == 1 { 4 } else { 0 } }
pub proof fn lemma_flag16(f: u16)
    ensures f >> 11 & 0x1f == (f / 0x800) % 32, (f & 0x8 != 0) == ((f / 8) % 2 == 1),
{
    assert(f >> 11 & 0x1f == (f / 0x800) % 32) by (bit_vector);
    assert((f & 0x8 != 0) == ((f / 8) % 2 == 1)) by (bit_vector);
}
/// every block of 30 bytes is a zero-terminated text
pub open spec fn texts(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() / 30nat ==> is_cstr(#[trigger] block(s, 30, k)) }
"""
TXT = """%fn convert_to_str | ret=r
        ensures r is Some <==> is_utf8(bytes@), r is Some ==> str_bytes(r->0) == bytes@,
%fn is_valid | ret=r
        ensures r,
%fn is_cstr_valid | ret=r
        ensures r == is_cstr(bytes@),
%start is_cstr_valid
        proof { assert forall|k: int, j: int| ends_at(bytes@, k) && ends_at(bytes@, j) implies k == j by { lemma_ends_unique(bytes@, j, k); } }
%fn convert_to_str_unchecked | ret=r
        requires is_cstr(bytes@),
        ensures text_of(str_bytes(r), bytes@),
%start convert_to_str_unchecked
        proof { assert forall|k: int, j: int| ends_at(bytes@, k) && ends_at(bytes@, j) implies k == j by { lemma_ends_unique(bytes@, j, k); } }
"""
ESFFN = """%fn EsfMeasRef::data_len | ret=r
        requires self.0@.len() >= 8,
        ensures r == esf_len(self.0@),
%start EsfMeasRef::data_len
        proof { assert forall|f: u16| (#[trigger] (f >> 11i32)) & 0x1f == (f / 0x800) % 32 by { lemma_flag16(f); } }
%fn EsfMeasRef::calib_tag_len | ret=r
        requires self.0@.len() >= 8,
        ensures r == esf_cal(self.0@),
%start EsfMeasRef::calib_tag_len
        proof { assert forall|f: u16| ((#[trigger] (f & 0x8)) != 0) == ((f / 8) % 2 == 1) by { lemma_flag16(f); } }
"""


def vars_unit():
    pre, sp = [], ['%source error\n%take enum ParserError\n%source exp\n']
    stub('RecStatFlags', pre)
    for n in ('NavSatSvInfo', 'RxmRawxInfo'): sp.append('%%take struct %sRef\n' % n)
    sp.append('%take fn convert_to_str\n%take fn is_valid\n%take fn convert_to_str_unchecked\n%take fn is_cstr_valid\n')
    sp.append(TXT)
    for t in ('EsfMeasData', 'EsfRawData', 'EsfMeas'): sp.append('%%take struct %s\n' % t)
    sp.append('%take impl EsfMeas\n%fn EsfMeas::calib_tag | ret=r\n        ensures r is Some <==> bytes@.len() == 4, r is Some ==> r->0 == le4(bytes@, 0),\n')
    post = []
    for it, (n, item, con) in ITERS.items():
        sp.append('%%take struct %s\n%%take impl %s\n%%take impl Iterator for %s\n' % (it, it, it))
        sp.append("%%header impl Iterator for %s\nimpl<'a> %s<'a>\n" % (it, it))
        off = it in OFFS
        sp.append('%%insert impl %s\n' % it)
        if off:
            sp.append('    /// what is still to be yielded\n    pub open spec fn rest(self) -> Seq<u8> { self.data@.subrange(self.offset as int, self.data@.len() as int) }\n')
            sp.append('    pub open spec fn wf(self) -> bool { self.offset <= self.data@.len() && self.rest().len() %% %dnat == 0%s }\n' % (n, ' && texts(self.rest())' if 'MonVer' in it else ''))
        else:
            sp.append('    /// what is still to be yielded\n    pub open spec fn rest(self) -> Seq<u8> { ce_rest(self.0) }\n')
            sp.append('    pub open spec fn wf(self) -> bool { ce_size(self.0) == %d && self.rest().len() %% %dnat == 0 }\n' % (n, n))
        arg = 'data' if off or 'Rawx' in it else 'bytes'
        val = 'payload' if 'MonVer' in it else 'bytes'
        txt = ' && texts(%s@)' % arg if 'MonVer' in it else ''
        sp.append('%%fn %s::new | ret=r\n        ensures r.rest() == %s@, %s@.len() %% %dnat == 0%s ==> r.wf(),\n' % (it, arg, arg, n, txt))
        if off: sp.append('%%start %s::new\n        proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }\n' % it)
        sp.append('%%fn %s::is_valid | ret=r\n        ensures r == (%s@.len() %% %dnat == 0%s),\n' % (it, val, n, txt.replace(arg + '@', val + '@')))
        key = '<Iterator for %s>::next' % it
        sp.append('''%%fn %s | ret=r
        requires old(self).wf(),
        ensures final(self).wf(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> old(self).rest().len() >= %d && final(self).rest() == old(self).rest().subrange(%d, old(self).rest().len() as int) && r is Some && %s_item(r->0, old(self).rest().subrange(0, %d)),
''' % (key, n, n, it, n))
        sp.append('%%subst %s\nSelf::Item ==> %s\n' % (key, item.replace('Ref', "Ref<'a>")))
        if 'Esf' in it: sp.append(ESFNEXT % key)
        if off: sp.append(OFFNEXT[it] % key)
        pre.append('/// the value yielded for the block `b`\npub open spec fn %s_item(x: %s, b: Seq<u8>) -> bool { %s }\n' % (it, item.replace("'a ", ''), con))
        post.append(DRAIN % dict(it=it, n=n, item=item.replace('Ref', "Ref<'a>"), txt=(', texts(s@)' if 'MonVer' in it else '')))
    pre.append(ESFLEMMA)
    sp.append(ESFFN)
    for n in VAR:
        p = P[n]
        sp.append('%%take struct %sRef\n%%take impl %sRef\n' % (n, n))
        sp.append('%%fn %sRef::as_bytes | ret=r\n        ensures r@ == self.0@,\n' % n)
        fixed = sum(f['width'] or 0 for f in p['fields'])
        wf = ['s.len() >= %d' % fixed]
        if n in VITER:
            acc, it, o = VITER[n]
            wf.append('(s.len() - %d) %% %d == 0' % (o, ITERS[it][0]))
        if n == 'EsfMeas': wf.append('s.len() >= 8 + esf_len(s) + esf_cal(s)')
        if n == 'MonVer': wf += ['is_cstr(s.subrange(0, 30))', 'is_cstr(s.subrange(30, 40))', 'texts(s.subrange(40, s.len() as int))']
        pre.append('/// the payloads of %s the parser accepts\npub open spec fn wf_%s(s: Seq<u8>) -> bool { %s }\n' % (n, n, ' && '.join(wf)))
        sp.append(debug_dirs(n))
        sp.append('%%fn %sRef::validate | ret=r\n        ensures r is Ok <==> wf_%s(payload@),\n' % (n, n))
        for f in p['fields']:
            a = accessor(f)
            k = '%%fn %sRef::%s | ret=r\n        requires wf_%s(self.0@),\n        ensures ' % (n, a, n)
            if n.startswith('Inf'):
                sp.append(k + 'r is Some <==> is_utf8(self.0@), r is Some ==> str_bytes(r->0) == self.0@,\n%%start %sRef::%s\n        proof { assert(self.0@.subrange(0, self.0@.len() as int) =~= self.0@); }\n' % (n, a))
            elif n in VITER and a == VITER[n][0]:
                end = 'self.0@.len() as int' if n != 'EsfMeas' else '8 + esf_len(self.0@)'
                sp.append(k + 'r.wf(), r.rest() == self.0@.subrange(%d, %s),\n' % (VITER[n][2], end))
            elif a == 'calib_tag':
                sp.append(k + 'r is Some <==> (le2(self.0@, 4) / 8) % 2 == 1, r is Some ==> r->0 == le4(self.0@, 8 + esf_len(self.0@)),\n')
            elif f.get('map_type') == '&str':
                sub = 'self.0@.subrange(%d, %d)' % (f['off'], f['off'] + f['bytes'])
                sp.append(k + 'text_of(str_bytes(r), %s),\n' % sub)
                sp.append('%%fn %sRef::%s_raw | ret=r\n        requires wf_%s(self.0@),\n        ensures r@ == %s,\n' % (n, a, n, sub))
            else:
                if f.get('map_type'):
                    sp.append('%%fn %sRef::%s_raw | ret=r\n        requires self.0@.len() >= %d,\n        ensures %s,\n' % (n, a, fixed, rawspec(f)))
                sp.append('%%fn %sRef::%s | ret=r\n        requires self.0@.len() >= %d,\n        ensures %s,\n' % (n, a, fixed, accspec(f)))
    write('gen_vars', '%prelude\n' + ''.join(pre) + '%postlude\n' + ''.join(post) + ''.join(sp))


FIXSEND = [p for p in SEND if p['name'] != 'CfgValSet']
UT = {'i8': 'u8', 'i16': 'u16', 'i32': 'u32'}


def build_stub(m, out):
    """opaque stand-in for a field type of a builder; its contracts are proved in its own unit"""
    stub(m, out)
    if m in EN: t, unit = EN[m]['repr'], 'enums'
    elif m in BF: t, unit = BF[m]['repr'], 'flags'
    else: t, unit = dict(WORDS, **RAWONLY)[m], 'words'
    out.append('pub uninterp spec fn %s_code(e: %s) -> %s; /*stub: %s*/\n' % (m, m, t, unit))
    out.append('impl %s {\n  #[verifier::external_body] /*stub: %s*/ pub fn into_raw(self) -> (r: %s) ensures r == %s_code(self), { unimplemented!() }\n}\n' % (m, unit, t, m))
    if m in RAWONLY: return
    ok = '%s_valid(%s_code(e)), ' % (m, m) if m in EN and 'from_unchecked' in EN[m]['attrs'] else '%s_ok(%s_code(e)), ' % (m, m) if m == 'UartMode' else ''
    fits = ''
    if m.startswith('CfgItfmConfig'):
        out.append('/// the sub-values fit their bits\npub uninterp spec fn %s_fits(e: %s) -> bool; /*stub: words*/\n' % (m, m))
        fits = '%s_fits(e) ==> ' % m
    out.append('/// what was encoded decodes to itself\n#[verifier::external_body] /*stub: %s*/ pub broadcast proof fn code_%s(e: %s)\n    ensures %s%s#[trigger] %s_of(%s_code(e)) == e,\n{ }\n' % (unit, m, m, ok, fits, m, m))


def stored(f, b='b'):
    """the integer a builder field is stored as"""
    x = '%s.%s' % (b, f['name'])
    m = f.get('map_type')
    if not m: return x
    if m in NUMT:
        return 'sb_%s::<%s>(%s::div_spec(1.0%s, %s), %s)' % (f['ty'], m, m, m, flit(f['scale'], m), x)
    return '%s_code(%s)' % (m, x)


def encbytes(f, b='b'):
    if 'bytes' in f: return ['%s.%s@[%d]' % (b, f['name'], k) for k in range(f['bytes'])]
    v = stored(f, b)
    t = f['ty']
    if t == 'u8': return [v]
    n = f['width']
    v = '(%s) as int' % v
    if t in UT: v = 'us(%s, 0x%x)' % (v, 1 << (8 * n - 1))
    if n == 1: return ['b0(%s)' % v]
    return ['b%d(%s)' % (k, v) for k in range(n)]


def lem(f):
    if f['ty'] == 'u8': return ''
    v = '(%s) as int' % stored(f)
    if f['ty'] in ('i8', 'i16', 'i32'): v = 'us(%s, 0x%x)' % (v, 1 << (8 * f['width'] - 1))
    return 'lemma_b%d(%s); ' % (f['width'], v)


def roundtrip(p, B, pre):
    """the payload built from `b` is accepted, and the accessors' contracts give the fields of `b` back"""
    n = p['name']
    pre.append('pub open spec fn wf_%s(s: Seq<u8>) -> bool { %s }\n' % (n, ' && '.join(wf_terms(p))))
    ens = ['wf_%s(enc_%s(b))' % (n, n)]
    for f in p['fields']:
        m = f.get('map_type')
        if 'bytes' in f: t, want, r = '[u8; %d]' % f['bytes'], 'r@ =~= b.%s@' % f['name'], '%s'
        elif not m: t, want = f['ty'], 'r == b.%s' % f['name']
        elif m in NUMT:
            k = 'to%s((%s) as int)' % (m[1:], stored(f))
            t, want = m, 'r == ' + ('mul%s(%s, %s)' % (m[1:], k, flit(f['scale'], m)) if 'scale' in f else k)
        else: t, want = m, ('%s_fits(b.%s) ==> ' % (m, f['name']) if m.startswith('CfgItfmConfig') else '') + 'r == b.%s' % f['name']
        if m == 'UartMode': ens.append('UartMode_ok(le4(enc_%s(b), %d) as u32)' % (n, f['off']))
        a = 'get_%s_%s' % (n, accessor(f))
        pre.append('/// contract of %sRef::%s\npub open spec fn %s(s: Seq<u8>, r: %s) -> bool { %s }\n' % (n, accessor(f), a, t, accspec(f, s='s')))
        ens.append('(forall|r: %s| #[trigger] %s(enc_%s(b), r) ==> %s)' % (t, a, n, want))
    hints = []
    for f in p['fields']:
        if 'bytes' not in f and f.get('map_type') and f['map_type'] not in NUMT:
            hints.append('code_%s(b.%s); ' % (f['map_type'], f['name']))
    pre.append('/// what every accessor of the received message returns for a built one\npub proof fn theorem_roundtrip_%s(b: %s)\n    ensures %s,\n{\n    bytes_%s(b);\n    %s\n%s}\n' % (n, B, ',\n        '.join(ens), n, ''.join(hints),
        ''.join('    %sassert((%s) == %s);\n' % (lem(f), intval(f['ty'], f['off'], 'enc_%s(b)' % n), stored(f)) for f in p['fields'] if 'bytes' not in f)))


def build_unit(name, packs):
    pre, sp, post = [], ['%source exp\n'], []
    types = []
    for p in packs:
        for f in p['fields']:
            m = f.get('map_type')
            if m and m not in NUMT and m not in types: types.append(m)
    pre.append('pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; const MAX_PAYLOAD_LEN: u16; }\npub trait FrameFrom<X>: Sized { fn frame_from(x: X) -> Self; }\n')
    for m in types:
        if m in EN and 'from_unchecked' in EN[m]['attrs']: pre.append(valid_def(m))
    if 'UartMode' in types: pre.append(UARTOK)
    for m in types: build_stub(m, pre)
    for p in packs:
        n, N = p['name'], p['len'] + 8
        B = n + 'Builder'
        parts = [(('b.%s@' % f['name']) if 'bytes' in f else 'ToLe::enc(%s)' % stored(f), encbytes(f)) for f in p['fields']]
        assert sum(len(x) for _, x in parts) == p['len']
        pre.append('/// payload of a %s message with these field values\npub open spec fn enc_%s(b: %s) -> Seq<u8> {\n    Seq::<u8>::empty()%s\n}\n' % (n, n, B, ''.join('\n    + ' + x for x, _ in parts)))
        steps, acc = [], []
        steps.append('    let s0 = Seq::<u8>::empty();\n')
        for i, (x, bs) in enumerate(parts):
            acc += bs
            steps.append('    let s%d = s%d + %s;\n    assert(s%d.len() == %d);\n' % (i + 1, i, x, i + 1, len(acc)))
            for k in range(len(acc) - len(bs)): steps.append('    assert(s%d[%d] == s%d[%d]);\n' % (i + 1, k, i, k))
        pre.append('pub proof fn bytes_%s(b: %s)\n    ensures enc_%s(b).len() == %d%s,\n{\n%s}\n' % (n, B, n, len(acc), ''.join(',\n        enc_%s(b)[%d] == %s' % (n, k, x) for k, x in enumerate(acc)), ''.join(steps)))
        fr = 'frame(0x%xu8, 0x%xu8, enc_%s(%%s))' % (p['cls'], p['id'], n)
        if p['kind'] == 'recv_send': roundtrip(p, B, pre)
        sp.append('%%take struct %s\n%%take impl UbxPacketMeta for %s\n%%only impl UbxPacketMeta for %s = CLASS ID MAX_PAYLOAD_LEN\n' % (n, n, n))
        sp.append('%%take struct %s\n%%take impl %s\n%%only impl %s = PACKET_LEN into_packet_bytes\n%%take impl UbxPacketCreator for %s\n' % (B, B, B, B))
        sp.append('%%header impl UbxPacketCreator for %s\nimpl %s\n' % (B, B))
        sp.append('%%take impl From<%s> for [u8;%dusize]\n%%header impl From<%s> for [u8;%dusize]\nimpl FrameFrom<%s> for [u8; %d]\n' % (B, N, B, N, B, N))
        sp.append('%%fn %s::into_packet_bytes | ret=r\n        ensures r@ == %s,\n' % (B, fr % 'self'))
        sp.append('%%start %s::into_packet_bytes\n        proof { bytes_%s(self); }\n%%end %s::into_packet_bytes\n        proof { assert(ret@ =~= %s); }\n' % (B, n, B, fr % 'self'))
        sp.append('%%fn <From<%s> for [u8;%dusize]>::from | ret=r | rename=frame_from\n        ensures r@ == %s,\n' % (B, N, fr % 'x'))
        k = '<UbxPacketCreator for %s>::create_packet' % B
        sp.append("""%%fn %s | ret=r
        requires old(out).err() is None,
        ensures r is Ok ==> final(out).err() is None && final(out).written() == old(out).written() + %s,
            r is Err ==> final(out).err() == Some(r->Err_0),
%%start %s
        broadcast use lemma_cat, lemma_cks;
        let ghost w0 = out.written();
        let ghost me = self;
        proof { lemma_begin(w0); bytes_%s(self); lemma_frame(w0, 0x%xu8, 0x%xu8, enc_%s(self)); }
%%end %s
        proof {
            let h = seq![0xb5u8, 0x62u8, 0x%xu8, 0x%xu8, b0(%d), b1(%d)];
            assert(header@ =~= h);
            assert(header@.subrange(2, 6) == h.subrange(2, 6));
            let ck = cks(h.subrange(2, 6), enc_%s(me));
            assert([ck_a, ck_b]@ =~= seq![ck.0, ck.1]);
            assert(out.written() == cat(w0, h, enc_%s(me) + seq![ck.0, ck.1]));
        }
""" % (k, fr % 'self', k, n, p['cls'], p['id'], n, k, p['cls'], p['id'], p['len'], p['len'], n, n))
    write(name, '%open\n%prelude\n' + ''.join(pre) + '%postlude\n' + ''.join(post) + ''.join(sp))


# packed words: method -> (lowest bit, width, kind of result)
def chain(alts, other):
    """the alternative of the field value: [(code, expression)], otherwise"""
    return lambda v: '{ let v = %s; %sif true { %s } else { arbitrary() } }' % (v, ''.join('if v == %d { %s } else ' % a for a in alts), other)


def en(t, d, other=None):
    return chain([(c, '%s::%s' % (t, n)) for c, n in d], other if '(' in (other or '') else '%s::%s' % (t, other or d[-1][1]))


def opt(t, d):
    return chain([(c, 'Some(%s)' % (n if t == 'bool' else '%s::%s' % (t, n))) for c, n in d], 'None::<%s>' % t)


FLAG = lambda v: '%s == 1' % v
WORDFNS = {
    'FixStatusInfo': ('u8', [('has_pr_prr_correction', 0, 1, FLAG),
                             ('map_matching', 6, 2, en('MapMatchingStatus', [(0, 'None'), (1, 'Valid'), (2, 'Used'), (3, 'Dr')]))]),
    'NavSatSvFlags': ('u32', [('quality_ind', 0, 3, en('NavSatQualityIndicator', [(0, 'NoSignal'), (1, 'Searching'), (2, 'SignalAcquired'), (3, 'SignalDetected'), (4, 'CodeLock'), (5, 'CarrierLock'), (6, 'CarrierLock'), (7, 'CarrierLock')])),
                              ('sv_used', 3, 1, FLAG),
                              ('health', 4, 2, en('NavSatSvHealth', [(1, 'Healthy'), (2, 'Unhealthy')], 'NavSatSvHealth::Unknown(v as u8)')),
                              ('differential_correction_available', 6, 1, FLAG), ('smoothed', 7, 1, FLAG),
                              ('orbit_source', 8, 3, en('NavSatOrbitSource', list(enumerate(['NoInfoAvailable', 'Ephemeris', 'Almanac', 'AssistNowOffline', 'AssistNowAutonomous'])), 'NavSatOrbitSource::Other(v as u8)')),
                              ('ephemeris_available', 11, 1, FLAG), ('almanac_available', 12, 1, FLAG), ('an_offline_available', 13, 1, FLAG), ('an_auto_available', 14, 1, FLAG),
                              ('sbas_corr', 16, 1, FLAG), ('rtcm_corr', 17, 1, FLAG), ('slas_corr', 18, 1, FLAG), ('spartn_corr', 19, 1, FLAG), ('pr_corr', 20, 1, FLAG), ('cr_corr', 21, 1, FLAG), ('do_corr', 22, 1, FLAG)]),
    'TimTpFlags': ('u8', [('time_base', 0, 1, en('TimTpTimeBase', [(0, 'Gnss'), (1, 'Utc')])), ('utc_available', 1, 1, FLAG),
                          ('raim_active', 2, 2, opt('bool', [(1, 'false'), (2, 'true')])), ('q_err_valid', 4, 1, lambda v: '%s == 0' % v)]),
    'TimTpRefInfo': ('u8', [('time_ref_gnss', 0, 4, opt('TimTpRefInfoTimeRefGnss', list(enumerate(['Gps', 'Glo', 'Bds', 'Gal', 'NavIc'])))),
                            ('utc_standard', 4, 4, opt('TimTpRefInfoUtcStandard', list(enumerate(['Crl', 'Nist', 'Usno', 'Bipm', 'Eu', 'Su', 'Ntsc', 'Npli'], 1))))]),
    'TimTm2Flags': ('u8', [('mode', 0, 1, en('TimTm2Mode', [(0, 'Single'), (1, 'Running')])), ('run', 1, 1, en('TimTm2Run', [(0, 'Armed'), (1, 'Stopped')])),
                           ('new_falling_edge', 2, 1, FLAG), ('new_rising_edge', 7, 1, FLAG),
                           ('time_base', 3, 2, en('TimTm2TimeBase', [(0, 'Receiver'), (1, 'Gnss'), (2, 'Utc'), (3, 'Reserved')])), ('utc_available', 5, 1, FLAG), ('time_valid', 6, 1, FLAG)]),
}
WORDENUMS = ['MapMatchingStatus', 'NavSatQualityIndicator', 'NavSatSvHealth', 'NavSatOrbitSource', 'TimTpTimeBase', 'TimTpRefInfoTimeRefGnss', 'TimTpRefInfoUtcStandard', 'TimTm2Mode', 'TimTm2Run', 'TimTm2TimeBase']
# sub-fields of words that are also built: struct -> (lowest bit, width)
SUBW = {'CfgItfmBbThreshold': (0, 4), 'CfgItfmCwThreshold': (4, 5), 'CfgItfmAlgoBits': (9, 22), 'CfgItfmGeneralBits': (0, 12)}
SUBDEF = {'CfgItfmBbThreshold': 3, 'CfgItfmCwThreshold': 15, 'CfgItfmAlgoBits': 0x16B156, 'CfgItfmGeneralBits': 0x31E}
# enumerated sub-fields: enum -> (lowest bit, width, decode alternatives, other, codes)
SUBE = {'DataBits': (6, 2, [(2, 'Seven'), (3, 'Eight')], None, {'Seven': 2, 'Eight': 3}),
        'Parity': (9, 3, [(0, 'Even'), (1, 'Odd'), (4, 'None'), (5, 'None')], None, {'Even': 0, 'Odd': 1, 'None': 4}),
        'StopBits': (12, 2, [(0, 'One'), (1, 'OneHalf'), (2, 'Two'), (3, 'Half')], None, {'One': 0, 'OneHalf': 1, 'Two': 2, 'Half': 3})}


def bitfacts(t, lo, n):
    """the usual ways to write the bits lo..lo+n of x (a variable of type t), as (x / 2^lo) % 2^n"""
    w = BITS[t]
    L, N = 1 << lo, 1 << n
    m, ML = N - 1, (N - 1) << lo
    v = '(x / 0x%x) %% 0x%x' % (L, N) if lo + n < w or lo + n > 32 else 'x / 0x%x' % L
    v = '(x / 0x%x) %% 0x%x' % (L, N)
    out = ['(x >> %d) & 0x%x == %s' % (lo, m, v), '(x & 0x%x) >> %d == %s' % (ML, lo, v), '(x & 0x%x == 0) == (%s == 0)' % (ML, v), '(x & 0x%x) / 0x%x == %s' % (ML, L, v)]
    if lo == 0: out.append('x & 0x%x == %s' % (m, v))
    if lo + n == w: out.append('x >> %d == %s' % (lo, v))
    if n == 1: out.append('(x & 0x%x == 0x%x) == (%s == 1)' % (ML, ML, v))
    # the same masks and shifts before constant folding
    out += ['x >> %d == x / 0x%x' % (lo, L), '0x%x%s << %d == 0x%x%s' % (m, t, lo, ML, t)]
    if n < w: out.append('1%s << %d == 0x%x%s' % (t, n, N, t))
    if 0 < lo + n < w: out.append('(x << %d) >> %d == %s' % (w - lo - n, w - n, v))
    return out


WORDPRE = UARTOK + """pub open spec fn DataBits_bits(e: DataBits) -> int { match e { DataBits::Seven => 2, DataBits::Eight => 3 } }
pub open spec fn Parity_bits(e: Parity) -> int { match e { Parity::Even => 0, Parity::Odd => 1, Parity::None => 4 } }
pub open spec fn StopBits_bits(e: StopBits) -> int { match e { StopBits::One => 0, StopBits::OneHalf => 1, StopBits::Two => 2, StopBits::Half => 3 } }
pub open spec fn UartMode_val(e: UartMode) -> int { DataBits_bits(e.data_bits) * 0x40 + Parity_bits(e.parity) * 0x200 + StopBits_bits(e.stop_bits) * 0x1000 }
pub open spec fn UartMode_is(e: UartMode, x: int) -> bool {
    let d = fld(x, 0x40, 4); let p = fld(x, 0x200, 8); let s = fld(x, 0x1000, 4);
    (e.data_bits == if d == 2 { DataBits::Seven } else { DataBits::Eight })
    && (e.parity == if p == 0 { Parity::Even } else if p == 1 { Parity::Odd } else { Parity::None })
    && (e.stop_bits == if s == 0 { StopBits::One } else if s == 1 { StopBits::OneHalf } else if s == 2 { StopBits::Two } else { StopBits::Half })
}
/// what a mode encodes to decodes to the same mode, and is decodable
pub proof fn theorem_UartMode_roundtrip(e: UartMode, r: UartMode, x: u32)
    requires x == UartMode_val(e), UartMode_is(r, x as int),
    ensures UartMode_ok(x), r == e,
{}
pub open spec fn ResetMode_code(e: ResetMode) -> u8 {
    match e { ResetMode::HardwareResetImmediately => 0, ResetMode::ControlledSoftwareReset => 1, ResetMode::ControlledSoftwareResetGpsOnly => 2, ResetMode::HardwareResetAfterShutdown => 4, ResetMode::ControlledGpsStop => 8, ResetMode::ControlledGpsStart => 9 }
}
pub open spec fn AlignmentToReferenceTime_code(e: AlignmentToReferenceTime) -> u16 {
    match e { AlignmentToReferenceTime::Utc => 0, AlignmentToReferenceTime::Gps => 1, AlignmentToReferenceTime::Glo => 2, AlignmentToReferenceTime::Bds => 3, AlignmentToReferenceTime::Gal => 4 }
}
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// the word of a jamming detection configuration; sub-values that do not fit their bits are cut to them
pub open spec fn CfgItfmConfig_val(e: CfgItfmConfig) -> int {
    (e.bb_threshold.0 as int) % 0x10 + ((e.cw_threshold.0 as int) % 0x20) * 0x10 + ((e.algorithm_bits.0 as int) % 0x400000) * 0x200 + b2i(e.enable) * 0x80000000
}
pub open spec fn CfgItfmConfig_is(e: CfgItfmConfig, x: int) -> bool {
    e.bb_threshold.0 == fld(x, 1, 0x10) && e.cw_threshold.0 == fld(x, 0x10, 0x20) && e.algorithm_bits.0 == fld(x, 0x200, 0x400000) && e.enable == (fld(x, 0x80000000, 2) == 1)
}
pub open spec fn CfgItfmConfig_fits(e: CfgItfmConfig) -> bool { e.bb_threshold.0 < 0x10 && e.cw_threshold.0 < 0x20 && e.algorithm_bits.0 < 0x400000 }
/// every word decodes to a configuration that encodes to that word; and the other way round where the sub-values fit their bits
pub proof fn theorem_CfgItfmConfig_roundtrip(e: CfgItfmConfig, r: CfgItfmConfig, x: u32)
    requires CfgItfmConfig_is(r, x as int),
    ensures CfgItfmConfig_fits(r), CfgItfmConfig_val(r) == x, x == CfgItfmConfig_val(e) && CfgItfmConfig_fits(e) ==> r == e,
{}
pub open spec fn ant_code(e: CfgItfmAntennaSettings) -> int {
    match e { CfgItfmAntennaSettings::Unknown => 0, CfgItfmAntennaSettings::Active => 1, CfgItfmAntennaSettings::Passive => 2 }
}
pub open spec fn ant_of(c: int) -> CfgItfmAntennaSettings {
    if c == 1 { CfgItfmAntennaSettings::Active } else if c == 2 { CfgItfmAntennaSettings::Passive } else { CfgItfmAntennaSettings::Unknown }
}
pub open spec fn CfgItfmConfig2_val(e: CfgItfmConfig2) -> int {
    (e.general.0 as int) % 0x1000 + ant_code(e.antenna) * 0x1000 + b2i(e.scan_aux_bands) * 0x4000
}
pub open spec fn CfgItfmConfig2_is(e: CfgItfmConfig2, x: int) -> bool {
    e.general.0 == fld(x, 1, 0x1000) && e.antenna == ant_of(fld(x, 0x1000, 4)) && e.scan_aux_bands == (fld(x, 0x4000, 2) == 1)
}
pub open spec fn CfgItfmConfig2_fits(e: CfgItfmConfig2) -> bool { e.general.0 < 0x1000 }
pub proof fn theorem_CfgItfmConfig2_roundtrip(e: CfgItfmConfig2, r: CfgItfmConfig2, x: u32)
    requires CfgItfmConfig2_is(r, x as int),
    ensures CfgItfmConfig2_fits(r), x < 0x8000 && fld(x as int, 0x1000, 4) != 3 ==> CfgItfmConfig2_val(r) == x, x == CfgItfmConfig2_val(e) && CfgItfmConfig2_fits(e) ==> r == e,
{}
"""


def orfacts(conds):
    """parts in disjoint bits add up, in whatever order they are joined"""
    vs = ['abcd'[i] for i in range(len(conds))]
    d = ', '.join('%s: u32' % v for v in vs)
    c = ' && '.join('(%s)' % k.replace('$', v) for k, v in zip(conds, vs))
    return """            assert(forall|x: u32, y: u32| #[trigger] (x | y) == (y | x)) by (bit_vector);
            assert(forall|x: u32, y: u32, z: u32| #[trigger] ((x | y) | z) == (x | (y | z))) by (bit_vector);
            assert(forall|%s| (%s) ==> #[trigger] (%s) == %s) by (bit_vector);
            assert(0u32 << 31u32 == 0u32 && 1u32 << 31u32 == 0x80000000u32 && 0u32 << 14u32 == 0u32 && 1u32 << 14u32 == 0x4000u32) by (bit_vector);
            assert(0u32 << 12u32 == 0u32 && 1u32 << 12u32 == 0x1000u32 && 2u32 << 12u32 == 0x2000u32) by (bit_vector);
""" % (d, c, ' | '.join(vs), ' + '.join(vs))


WORDCOMP = ''.join("""%%take struct %s
%%derive struct %s :: #[derive(Clone, Copy)]
%%take impl %s
%%take impl From<u32> for %s
%%header impl From<u32> for %s
impl %s
%%fn %s::into_raw | ret=r
        ensures r == %s_val(self),
%%start %s::into_raw
        proof {
%s        }
%%fn <From<u32> for %s>::from | ret=r
        %sensures %s_is(r, %s as int),
%%start <From<u32> for %s>::from
        proof {
            let x = %s;
%s        }
""" % ((s,) * 9 + (orfacts(conds), s, 'requires UartMode_ok(mode),\n        ' if s == 'UartMode' else '', s, arg, s, arg, ''.join('            assert(%s) by (bit_vector);\n' % b for lo, n in extra for b in bitfacts('u32', lo, n)))) for s, arg, conds, extra in [
    ('CfgItfmConfig', 'cfg', ['$ == 0 || $ == 0x80000000', '$ % 0x10 == 0 && $ < 0x200', '$ < 0x10', '$ % 0x200 == 0 && $ < 0x80000000'], [(31, 1)]),
    ('CfgItfmConfig2', 'cfg', ['$ == 0 || $ == 0x4000', '$ < 0x1000', '$ == 0 || $ == 0x1000 || $ == 0x2000'], [(14, 1)]),
    ('UartMode', 'mode', ['$ == 0x80 || $ == 0xc0', '$ == 0 || $ == 0x200 || $ == 0x800', '$ == 0 || $ == 0x1000 || $ == 0x2000 || $ == 0x3000'], [])]) + """%fn CfgItfmConfig::new | ret=r
        ensures r.enable == enable, r.bb_threshold.0 == bb_threshold, r.cw_threshold.0 == cw_threshold, r.algorithm_bits.0 == 0x16B156,
%fn CfgItfmConfig2::new | ret=r
        ensures r.general.0 == 0x31E, r.antenna == antenna, r.scan_aux_bands == scan_aux_bands,
%fn UartMode::new | ret=r
        ensures r.data_bits == data_bits, r.parity == parity, r.stop_bits == stop_bits,
%take enum CfgItfmAntennaSettings
%derive enum CfgItfmAntennaSettings :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl CfgItfmAntennaSettings
%fn CfgItfmAntennaSettings::from_unchecked
        requires x < 3,
%fn CfgItfmAntennaSettings::into_raw | ret=r
        ensures r == ant_code(self),
%take impl From<u32> for CfgItfmAntennaSettings
%header impl From<u32> for CfgItfmAntennaSettings
impl CfgItfmAntennaSettings
%fn <From<u32> for CfgItfmAntennaSettings>::from | ret=r
        ensures r == ant_of(fld(cfg as int, 0x1000, 4)),
%start <From<u32> for CfgItfmAntennaSettings>::from
        proof {
            let x = cfg;
""" + ''.join('            assert(%s) by (bit_vector);\n' % b for b in bitfacts('u32', 12, 2)) + """        }
%gsubst
Self::MASK ==> Self::MASK()
"""


def words_unit():
    sp = ['%source exp\n']
    for e in WORDENUMS: sp.append('%%take enum %s\n' % e)
    for s, (t, fns) in WORDFNS.items():
        sp.append('%%take struct %s\n%%take impl %s\n%%derive struct %s :: #[derive(Clone, Copy)]\n' % (s, s, s))
        if s not in TUPLE: sp.append('%%fn %s::from | ret=r\n        ensures r.0 == x,\n' % s)
        for (f, lo, n, k) in fns:
            v = 'fld(self.0 as int, 0x%x, 0x%x)' % (1 << lo, 1 << n)
            sp.append('%%fn %s::%s | ret=r\n        ensures r == (%s),\n' % (s, f, k(v)))
            sp.append('%%start %s::%s\n        proof {\n            let x = self.0;\n%s        }\n' % (s, f, ''.join('            assert(%s) by (bit_vector);\n' % b for b in bitfacts(t, lo, n))))
    facts = lambda t, var, lo, n: ''.join('            assert(%s) by (bit_vector);\n' % b for b in bitfacts(t, lo, n))
    # words that are also built from their sub-fields
    for s, (lo, n) in SUBW.items():
        sp.append('%%take struct %s\n%%derive struct %s :: #[derive(Clone, Copy)]\n%%take impl %s\n%%take impl From<u32> for %s\n%%header impl From<u32> for %s\nimpl %s\n' % (s, s, s, s, s, s))
        sp.append('%%constfn %s::MASK\n        ensures r == 0x%x,\n;;\n        proof { assert(1u32 << %du32 == 0x%xu32) by (bit_vector); }\n' % (s, (1 << n) - 1, n, 1 << n))
        sp.append('%%fn <From<u32> for %s>::from | ret=r\n        ensures r.0 == fld(cfg as int, 0x%x, 0x%x),\n%%start <From<u32> for %s>::from\n        proof {\n            let x = cfg;\n%s        }\n' % (s, 1 << lo, 1 << n, s, facts('u32', 'cfg', lo, n)))
        m = (1 << n) - 1
        sp.append('%%take impl Default for %s\n%%header impl Default for %s\nimpl %s\n%%fn <Default for %s>::default | ret=r\n        ensures r.0 == 0x%x,\n' % (s, s, s, s, SUBDEF[s]))
        sp.append('%%fn %s::into_raw | ret=r\n        ensures r == (self.0 %% 0x%x) * 0x%x,\n%%start %s::into_raw\n        proof {\n            let x = self.0;\n            assert((x & 0x%x) << %d == (x %% 0x%x) * 0x%x) by (bit_vector);\n            assert((x << %d) & 0x%x == (x %% 0x%x) * 0x%x) by (bit_vector);\n            assert((x & 0x%x) == (x %% 0x%x)) by (bit_vector);\n        }\n' % (
            s, 1 << n, 1 << lo, s, m, lo, 1 << n, 1 << lo, lo, m << lo, 1 << n, 1 << lo, m, 1 << n))
    for s, (lo, n, alts, other, codes) in SUBE.items():
        sp.append('%%take enum %s\n%%derive enum %s :: #[derive(Clone, Copy)]\n%%take impl %s\n%%take impl From<u32> for %s\n%%header impl From<u32> for %s\nimpl %s\n' % (s, s, s, s, s, s))
        v = 'fld(mode as int, 0x%x, 0x%x)' % (1 << lo, 1 << n)
        sp.append('%%constfn %s::MASK\n        ensures r == 0x%x,\n' % (s, (1 << n) - 1))
        sp.append('%%fn <From<u32> for %s>::from | ret=r\n        requires %s,\n        ensures r == (%s),\n%%start <From<u32> for %s>::from\n        proof {\n            let x = mode;\n%s        }\n' % (
            s, ' || '.join('%s == %d' % (v, c) for c, _ in alts), en(s, alts)(v), s, facts('u32', 'mode', lo, n)))
        sp.append('%%fn %s::into_raw | ret=r\n        ensures r == %s_bits(self) * 0x%x,\n%%start %s::into_raw\n        proof {\n%s        }\n' % (
            s, s, 1 << lo, s, ''.join('            assert(0x%xu32 << %du32 == 0x%xu32) by (bit_vector);\n' % (c, lo, c << lo) for c in sorted(codes.values()))))
    for s in RAWONLY:
        sp.append('%%take enum %s\n%%derive enum %s :: #[derive(Clone, Copy)] #[repr(%s)]\n%%take impl %s\n%%fn %s::into_raw | ret=r\n        ensures r == %s_code(self),\n' % (s, s, RAWONLY[s], s, s, s))
    sp.append(WORDCOMP)
    write('gen_words', """%open
%prelude
""" + WORDPRE + """
/// the value of the bits of `x` from the one with weight `p`, `n` values wide
pub open spec fn fld(x: int, p: int, n: int) -> int { (x / p) % n }
#[verifier::external_body] /*discharged: its precondition (never called)*/
pub fn unreachable_panic() -> ! requires false, { panic!() }
""" + '%gsubst\n::core::panicking::panic($m) ==> unreachable_panic()\n;;\n::core::panicking::panic_fmt($m) ==> unreachable_panic()\n;;\nconst fn ==> fn\n' + ''.join(sp))


def scaleback_unit():
    combos = sorted({(f['map_type'], f['ty'], float(f['scale'])) for p in SEND for f in p['fields'] if f.get('map_type') in NUMT and 'scale' in f})
    o = ['%postlude\n#[cfg(kani)]\nmod h {\n    use super::*;\n']
    for (t, i, sc) in combos:
        o.append('    #[kani::proof_for_contract(ScaleBack::<%s>::as_%s)]\n    fn as_%s__%s_%s() { ScaleBack::<%s>(1. / %r).as_%s(kani::any()); }\n' % (t, i, i, t, repr(sc).replace('.', '_').replace('-', 'm'), t, sc, i))
    o.append('    /// must fail: the contracts are not vacuous\n    #[kani::proof]\n    #[kani::should_panic]\n    fn probe() { let x: f32 = kani::any(); let r = ScaleBack::<f32>(1.).as_i8(x); assert!(r != 77); }\n}\n')
    for i in sorted({i for _, i, _ in combos}):
        o.append('%%fn ScaleBack::as_%s | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, %s::MIN as f64, %s::MAX as f64)))]\n' % (i, i, i))
    write('gen_scaleback', ''.join(o))


# ---------------------------------------------------------------- configuration items
CFG = json.load(open(V + '/spec/cfg.json'))
CFGW = {'u16': 2, 'i16': 2, 'u32': 4, 'u64': 8}
CFGENUM = {
    'DataBits': ['Eight', 'Seven'], 'Parity': ['None', 'Odd', 'Even'], 'StopBits': ['Half', 'One', 'OneHalf', 'Two'],
    'AlignmentToReferenceTime': ['Utc', 'Gps', 'Glo', 'Bds', 'Gal'], 'TpPulse': ['Period', 'Freq'], 'TpPulseLength': ['Ratio', 'Length'],
}


def cfg_unit():
    w = lambda c: CFGW.get(c['ty'], 1)

    def raw(t, e):
        if t == 'bool': return 'b2i(%s)' % e
        if t == 'i16': return 'us(%s as int, 0x8000)' % e
        if t == 'CfgInfMask': return '(%s.b as int)' % e
        if t in CFGENUM: return '%s_item(%s)' % (t, e)
        return '(%s as int)' % e

    def val(t, n):
        if t == 'bool': return 'if %s == 0 { Some(false) } else if %s == 1 { Some(true) } else { None }' % (n, n)
        if t == 'i16': return 'Some(sg(%s, 0x8000) as i16)' % n
        if t == 'CfgInfMask': return 'Some(CfgInfMask { b: (%s) as u8 })' % n
        if t in CFGENUM: return '%s_of_item(%s)' % (t, n)
        return 'Some((%s) as %s)' % (n, t)
    o = ['%prelude\n']
    for t, vs in CFGENUM.items():
        o.append('/// the documented codes of %s as a configuration value\n' % t)
        o.append('pub open spec fn %s_item(e: %s) -> int { match e { %s } }\n' % (t, t, ', '.join('%s::%s => %d' % (t, v, i) for i, v in enumerate(vs))))
        o.append('pub open spec fn %s_of_item(n: int) -> Option<%s> { %s else { None } }\n' % (t, t, ' else '.join('if n == %d { Some(%s::%s) }' % (i, t, v) for i, v in enumerate(vs))))
    o.append('/// the bytes an item stands for\npub open spec fn item(v: CfgVal) -> Seq<u8> { match v {\n')
    for c in CFG: o.append('    CfgVal::%s(x) => kv%d(0x%08x, %s),\n' % (c['name'], w(c), c['key'], raw(c['ty'], 'x')))
    o.append('} }\n')
    for t in sorted({c['ty'] for c in CFG}):
        n = {1: 's[4] as int', 2: 'le2(s, 4)', 4: 'le4(s, 4)', 8: 'le8(s, 4)'}[CFGW.get(t, 1)]
        o.append('pub open spec fn val_%s(s: Seq<u8>) -> Option<%s> { if s.len() < %d { None } else { %s } }\n' % (t, t, 4 + CFGW.get(t, 1), val(t, n)))
    o.append('/// the item at the start of `s`, if there is one (the key is looked up by bisection)\npub open spec fn item_at(s: Seq<u8>) -> Option<CfgVal> { let k = le4(s, 0);\n')

    def look(cs):
        if len(cs) == 1:
            c = cs[0]
            return 'if k != 0x%08x { None } else { match val_%s(s) { Some(x) => Some(CfgVal::%s(x)), None => None } }' % (c['key'], c['ty'], c['name'])
        m = len(cs) // 2
        return 'if k < 0x%08x {\n%s\n} else {\n%s\n}' % (cs[m]['key'], look(cs[:m]), look(cs[m:]))
    o.append(look(sorted(CFG, key=lambda c: c['key'])) + ' }\n')
    o.append('pub proof fn lemma_item_len(v: CfgVal)\n    ensures 5 <= item(v).len() <= 12,\n{ broadcast use lemma_kv_len; }\n')
    for i, c in enumerate(CFG):
        e = 'kv%d(0x%08x, %s)' % (w(c), c['key'], raw(c['ty'], 'x'))
        if i % 55 == 0: o.append(('} pub use rt%d::*;\n' % (i // 55 - 1) if i else '') + 'pub mod rt%d { use super::*;\n' % (i // 55))
        o.append('pub proof fn rt_%s(x: %s, t: Seq<u8>)\n    ensures item_at(%s + t) == Some(CfgVal::%s(x)), le4(%s, 0) == 0x%08x, %s.len() == 4 + class_len(0x%08x),\n{ broadcast use lemma_kv_len; lemma_kv(0x%08x, %s); }\n' % (c['name'], c['ty'], e, c['name'], e, c['key'], e, c['key'], c['key'], raw(c['ty'], 'x')))
    o.append('} pub use rt%d::*;\n' % ((len(CFG) - 1) // 55))
    o.append('/// decoding what was encoded, whatever follows it\npub proof fn theorem_item_roundtrip(v: CfgVal, t: Seq<u8>)\n    ensures\n        item_at(item(v) + t) == Some(v),\n        // the size class in the key agrees with the number of value bytes\n        item(v).len() == 4 + class_len(le4(item(v), 0)),\n{\n    hide(item_at);\n    match v {\n')
    for c in CFG: o.append('        CfgVal::%s(x) => { rt_%s(x, t); }\n' % (c['name'], c['name']))
    o.append('    }\n}\n%source exp\n')
    for t in CFGENUM: o.append('%%take enum %s\n%%derive enum %s :: #[derive(Clone, Copy)] #[repr(u8)]\n' % (t, t))
    for i, c in enumerate(CFG):
        n = c['name']
        e = 'kv%d(0x%08x, %s)' % (w(c), c['key'], raw(c['ty'], '(*value)'))
        o.append('%%loop CfgVal::extend_to %d for it\n            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),\n%%loopafter CfgVal::extend_to %d\n        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }\n' % (i, i))
        o.append('%%arm CfgVal::extend_to %s | self, value, buf\n<T: Sink>(this: &Self, value: &%s, buf: &mut T) -> (r: usize)\n        requires *this == CfgVal::%s(*value),\n        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),\n' % (n, c['ty'], n))
        o.append('%%arm CfgVal::write_to %s | self, value, buf\n(this: &Self, value: &%s, buf: &mut [u8]) -> (r: usize)\n        requires *this == CfgVal::%s(*value), room(old(buf)@, item(*this)),\n        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),\n' % (n, c['ty'], n))
        o.append('%%arm CfgVal::parse %d | buf\n(buf: &[u8]) -> (r: Self)\n        requires buf@.len() >= 4, le4(buf@, 0) == %d, item_at(buf@) is Some,\n        ensures r == item_at(buf@)->0,\n' % (c['key'], c['key']))
        o.append('%%take struct %s\n%%take impl %s\n%%derive struct %s :: #[derive(Clone, Copy)]\n' % (n, n, n))
        o.append('%%constfn %s::KEY\n        ensures r.0 == 0x%08x,\n%%constfn %s::SIZE\n        ensures r == %d,\n' % (n, c['key'], n, 4 + w(c)))
        o.append('%%fn %s::into_cfg_kv_bytes | ret=r\n        ensures r@ =~= kv%d(0x%08x, %s),\n' % (n, w(c), c['key'], raw(c['ty'], 'self.0')))
        o.append('%%start %s::into_cfg_kv_bytes\n        proof { reveal(kv%d);%s }\n' % (n, w(c), ' reveal(b0);' if w(c) == 1 else ''))
        o.append('%%subst %s::into_cfg_kv_bytes\n[u8; Self::SIZE] ==> [u8; %d]\n' % (n, 4 + w(c)))
    o.append('%gsubst\n')
    o.append(';;\n'.join('[u8; %s::SIZE] ==> [u8; %d]\n;;\n%s::SIZE ==> %s::SIZE()\n' % (c['name'], 4 + w(c), c['name'], c['name']) for c in CFG))
    write('gen_cfg', ''.join(o))


TYPES = dict(
    NavPosLlh=['lon_degrees', 'lat_degrees', 'height_msl'],
    NavHpPosLlh=['lon_degrees', 'lat_degrees', 'height_msl', 'lon_hp_degrees', 'lat_hp_degrees', 'height_hp_msl'],
    NavHpPosEcef=['ecef_x_cm', 'ecef_y_cm', 'ecef_z_cm', 'ecef_x_hp_mm', 'ecef_y_hp_mm', 'ecef_z_hp_mm'],
    NavVelNed=['ground_speed', 'heading_degrees'],
    NavPvt=['lon_degrees', 'lat_degrees', 'height_msl', 'ground_speed', 'heading_degrees'])


def types_unit():
    """positions and velocities (types.rs): the accessors used are taken and verified as well"""
    pre, sp = [], []

    def val(p, a):  # value of an accessor over the payload bytes
        return accspec([f for f in P[p]['fields'] if accessor(f) == a][0], '@', 'packet.0@').split('== ', 1)[1]

    for n, accs in TYPES.items():
        p = P[n]
        sp.append('%%take struct %sRef\n%%take impl %sRef\n%%only impl %sRef = %s\n' % (n, n, n, ' '.join(accs)))
        for f in p['fields']:
            if accessor(f) in accs: sp.append('%%fn %sRef::%s | ret=r\n        requires self.0@.len() == %d,\n        ensures %s,\n' % (n, accessor(f), p['len'], accspec(f)))
    conv = [('NavPosLlh', 'Position', dict(lon='lon_degrees', lat='lat_degrees', alt='height_msl')), ('NavPvt', 'Position', dict(lon='lon_degrees', lat='lat_degrees', alt='height_msl')),
            ('NavVelNed', 'Velocity', dict(speed='ground_speed', heading='heading_degrees')), ('NavPvt', 'Velocity', dict(speed='ground_speed', heading='heading_degrees')),
            ('NavHpPosLlh', 'Position', dict(lon=('lon_degrees', 'lon_hp_degrees', 'add64(%s, %s)'), lat=('lat_degrees', 'lat_hp_degrees', 'add64(%s, %s)'), alt=('height_msl', 'height_hp_msl', 'add64(%s, mul64(%s, 1e-3f64))'))),
            ('NavHpPosEcef', 'PositionECEF', {c: ('ecef_%s_cm' % c, 'ecef_%s_hp_mm' % c, 'mul64(1e-2f64, add64(%s, mul64(0.1f64, %s)))') for c in 'xyz'})]
    for n, t, fs in conv:
        k = 'From<&%sRef> for %s' % (n, t)
        ens = ', '.join('r.%s == %s' % (f, val(n, a) if isinstance(a, str) else a[2] % (val(n, a[0]), val(n, a[1]))) for f, a in fs.items())
        sp.append('%%take impl %s\n%%header impl %s\nimpl<\'a> %s\n%%fn <%s>::from | ret=r rename=from_%s\n        requires packet.0@.len() == %d,\n        ensures %s,\n%%start <%s>::from\n        broadcast use axiom_mul64_comm, axiom_add64_comm;\n' % (k, k, t, k, n, P[n]['len'], ens, k))
    write('gen_types', """%floatops <From<
%prelude
pub uninterp spec fn add64(a: f64, b: f64) -> f64;
pub uninterp spec fn sub64(a: f64, b: f64) -> f64;
pub uninterp spec fn div64(a: f64, b: f64) -> f64;
// IEEE addition and multiplication are commutative
pub broadcast axiom fn axiom_mul64_comm(a: f64, b: f64) ensures #[trigger] mul64(a, b) == mul64(b, a);
pub broadcast axiom fn axiom_add64_comm(a: f64, b: f64) ensures #[trigger] add64(a, b) == add64(b, a);
#[verifier::external_body]
pub fn fadd(a: f64, b: f64) -> (r: f64) ensures r == add64(a, b), { a + b }
#[verifier::external_body]
pub fn fsub(a: f64, b: f64) -> (r: f64) ensures r == sub64(a, b), { a - b }
#[verifier::external_body]
pub fn fdiv(a: f64, b: f64) -> (r: f64) ensures r == div64(a, b), { a / b }
%source exp
%take struct Position
%take struct PositionECEF
%take struct Velocity
""" + ''.join(sp).replace('ret=r rename', 'ret=r | rename'))


def serde_unit():
    """serialisation: every field of every message is given to the serialiser under its name, once and in order"""
    names = [n for n in L['recv'] if n != 'UbxUnknownPacketRef']
    pre, sp = [], ['%source exps\n%take struct UbxUnknownPacketRef\n%take struct FieldIter\n%take struct PacketSerializer\n']
    pre.append('/// the serialised form of what an accessor returns for a payload (its value is a function of the payload by its contract)\npub uninterp spec fn value_of(msg: int, field: int, payload: Seq<u8>) -> Form; /*stub: acc*/\n')
    pre.append('/// the payload satisfies the rules of the message\npub uninterp spec fn accepted(msg: int, payload: Seq<u8>) -> bool; /*stub: acc*/\n')
    pre.append('pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; }\n')
    enums = {e['name']: e for e in L['enums']}
    flags = {b['name']: b for b in L['bitflags']}
    types = set()
    ensf = []
    for i, p in enumerate(RECV):
        n = p['name']
        acc = []
        for j, f in enumerate(p['fields']):
            m = f.get('map_type')
            it = m in ITERS
            t = m or f['ty']
            if m and m not in NUMT and not m.startswith(('&', 'Option')): types.add(m)
            acc.append('    #[verifier::external_body] /*stub: acc*/ pub fn %s(&self) -> (r: %s) requires accepted(%d, self.0@), ensures form_of(&%s) == value_of(%d, %d, self.0@), { unimplemented!() }\n' % (
                accessor(f), t.replace(m, m + "<'_>") if it else t, i, 'FieldIter(r)' if it else 'r', i, j))
        pre.append("pub struct %sRef<'a>(pub &'a [u8]);\nimpl<'a> %sRef<'a> {\n%s}\n" % (n, n, ''.join(acc)))
        pre.append('/// the entries of %s, field by field\npub open spec fn entries_%s(s: Seq<u8>) -> Seq<(Form, Form)> {\n    seq![%s]\n}\n' % (
            n, n, ', '.join('(form_of("%s"), value_of(%d, %d, s))' % (f['name'], i, j) for j, f in enumerate(p['fields']))))
        sp.append('%%drop struct %sRef\n' % n)
        k = 'SerializeUbxPacketFields for %sRef' % n
        sp.append("%%take impl %s\n%%insert impl %s\n    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_%s(self.0@) }\n    open spec fn fit_fields(&self) -> bool { accepted(%d, self.0@) }\n%%fn <%s>::serialize_fields | ret=r\n%%end <%s>::serialize_fields\n        proof { assert(state.log() =~= old(state).log() + entries_%s(self.0@)); }\n" % (k, k, n, i, k, k, n))
        k = 'Serialize for %sRef' % n
        sp.append("%%take impl %s\n%%insert impl %s\n    open spec fn form(&self) -> Form { map_form(entries_%s(self.0@)) }\n    open spec fn fit(&self) -> bool { accepted(%d, self.0@) }\n%%fn <%s>::serialize | ret=r\n" % (k, k, n, i, k))
        sp.append('%%take struct %s\n%%take impl UbxPacketMeta for %s\n%%only impl UbxPacketMeta for %s = CLASS ID\n' % (n, n, n))
    for t in sorted(types - set(enums) - set(flags)):
        pre.append('pub struct %s { x: u8 }\n' % (t + "<'a> { pub x: &'a [u8] }\n//" if t in ITERS else t))
    for t, e in sorted(enums.items()):
        vs = list(e['variants'])
        if 'rest_reserved' in e['attrs']: vs += [['Reserved%d' % c, c] for c in range(256) if c not in {c for _, c in vs}]
        pre.append('/// the code of %s\npub open spec fn %s_code(e: %s) -> u8 {\n    match e { %s }\n}\n' % (t, t, t, ', '.join('%s::%s => %d' % (t, v, c) for v, c in vs)))
        k = 'Serialize for %s' % t
        sp.append('%%take enum %s\n%%derive enum %s :: #[derive(Clone, Copy)] #[repr(%s)]\n%%take impl %s\n%%insert impl %s\n    open spec fn form(&self) -> Form { int_form(8, %s_code(*self) as int) }\n    open spec fn fit(&self) -> bool { true }\n%%fn <%s>::serialize | ret=r\n' % (t, t, e['repr'], k, k, t, k))
    for t, b in sorted(flags.items()):
        pre.append('pub struct %s { pub b: %s }\nimpl %s {\n    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: %s) ensures r == self.b, { unimplemented!() }\n}\n' % (t, b['repr'], t, b['repr']))
        k = 'Serialize for %s' % t
        sp.append('%%take impl %s\n%%insert impl %s\n    open spec fn form(&self) -> Form { int_form(%d, self.b as int) }\n    open spec fn fit(&self) -> bool { true }\n%%fn <%s>::serialize | ret=r\n' % (k, k, BITS[b['repr']], k))
    post = ['''impl<'a> serde::Serialize for UbxUnknownPacketRef<'a> {
    open spec fn form(&self) -> Form { form_of(self) }
    open spec fn fit(&self) -> bool { true }
    #[verifier::external_body] // written by serde_derive
    fn serialize<S>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) where S: serde::Serializer { unimplemented!() }
}
pub open spec fn packet_form(p: PacketRef) -> Form {
    match p {
''']
    fit = ['pub open spec fn packet_fit(p: PacketRef) -> bool {\n    match p {\n']
    for i, p in enumerate(RECV):
        n = p['name']
        if n not in names: continue
        post.append('        PacketRef::%s(m) => map_form(seq![(form_of("class"), form_of(&0x%xu8)), (form_of("msg_id"), form_of(&0x%xu8))] + entries_%s(m.0@)),\n' % (n, p['cls'], p['id'], n))
        fit.append('        PacketRef::%s(m) => accepted(%d, m.0@),\n' % (n, i))
    post.append('        PacketRef::Unknown(u) => form_of(&u),\n    }\n}\n')
    fit.append('        PacketRef::Unknown(u) => true,\n    }\n}\n')
    sp.append("""%take enum PacketRef
%take trait SerializeUbxPacketFields
%insert trait SerializeUbxPacketFields
    /// the entries to be written
    spec fn entries(&self) -> Seq<(Form, Form)>;
    spec fn fit_fields(&self) -> bool;
%fn SerializeUbxPacketFields::serialize_fields | ret=r
        requires self.fit_fields(),
        ensures r is Ok ==> final(serializer).log() == old(serializer).log() + self.entries(),
%take impl Serialize for PacketSerializer<T>
%insert impl Serialize for PacketSerializer<T>
    open spec fn form(&self) -> Form { map_form(seq![(form_of("class"), form_of(&self.class)), (form_of("msg_id"), form_of(&self.msg_id))] + self.msg.entries()) }
    open spec fn fit(&self) -> bool { self.msg.fit_fields() }
%fn <Serialize for PacketSerializer<T>>::serialize | ret=r
%end <Serialize for PacketSerializer<T>>::serialize
        proof { assert(state.log() =~= seq![(form_of("class"), form_of(&self.class)), (form_of("msg_id"), form_of(&self.msg_id))] + self.msg.entries()); }
%take impl Serialize for PacketRef
%insert impl Serialize for PacketRef
    open spec fn form(&self) -> Form { packet_form(*self) }
    open spec fn fit(&self) -> bool { packet_fit(*self) }
%fn <Serialize for PacketRef>::serialize | ret=r
%take impl Serialize for FieldIter<I>
%insert impl Serialize for FieldIter<I>
    open spec fn form(&self) -> Form { items_form(self.0) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for FieldIter<I>>::serialize | ret=r
%start <Serialize for FieldIter<I>>::serialize
        broadcast use axiom_clone_items;
%gsubst
crate::ubx_packets::FieldIter ==> FieldIter
;;
crate::ubx_packets::PacketSerializer ==> PacketSerializer
""")
    write('gen_serde', '%prelude\n' + ''.join(pre) + '%postlude\n' + ''.join(post + fit) + ''.join(sp))


def main():
    serde_unit()
    cfg_unit()
    types_unit()
    scaleback_unit()
    fixed = [p for p in RECV if p['name'] not in VAR]
    groups = [[] for _ in range(4)]
    for p in sorted(fixed, key=lambda p: -len(p['fields'])):
        min(groups, key=lambda g: sum(len(q['fields']) for q in g)).append(p)
    for i, g in enumerate(groups): acc_unit('gen_acc%d' % (i + 1), g)
    enums_unit()
    flags_unit()
    disp_unit()
    vars_unit()
    words_unit()
    groups = [[] for _ in range(3)]
    for p in sorted(FIXSEND, key=lambda p: -len(p['fields'])):
        min(groups, key=lambda g: sum(len(q['fields']) for q in g)).append(p)
    for i, g in enumerate(groups): build_unit('gen_build%d' % (i + 1), g)



main()
