#!/usr/bin/env python3
"""Writes replay/src/pk.rs (reading, building and judging every message through the
public API, against the layout table) from spec/layout.json.  Run by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(V + '/spec/layout.json'))
P = {p['name']: p for p in L['packets']}
EN = {e['name']: e for e in L['enums']}
BF = {b['name']: b for b in L['bitflags']}
NAMES = [n for n in L['recv'] if n != 'UbxUnknownPacketRef']
VAR = ['NavSat', 'MonVer', 'EsfMeas', 'EsfRaw', 'RxmSfrbx', 'RxmRawx', 'InfError', 'InfNotice', 'InfTest', 'InfWarning', 'InfDebug']
RANGE = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767), 'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1)}
o = ['//! Generated by tools/genrpack.py from spec/layout.json; do not edit.\n#![allow(non_snake_case, unused_variables, clippy::all)]\nuse crate::pkh::*;\nuse crate::Rng;\nuse ublox::*;\n']
w = o.append


def acc(f): return f.get('alias', f['name'])
def sgn(f): return 'true' if f['ty'][0] == 'i' else 'false'
def fl(x, t):
    x = x.replace('_', '')
    return (x if ('.' in x or 'e' in x) else x + '.0') + t


for n, e in EN.items():
    un = 'from_unchecked' in e['attrs']
    w('pub fn name_%s(x: i128) -> String {\n    match x {\n%s        x => format!("Reserved{}", x),\n    }\n}\n' % (n, ''.join('        %d => "%s".into(),\n' % (c, v) for v, c in e['variants'])))
    w('pub fn mk_%s(x: u64) -> (%s, i128) {\n    match x %% %d {\n%s    }\n}\n' % (n, n, len(e['variants']), ''.join('        %s => (%s::%s, %d),\n' % (i if i < len(e['variants']) - 1 else '_', n, v, c) for i, (v, c) in enumerate(e['variants']))))
w('/// every declared code and bit\npub fn codes() -> R {\n')
for n, e in EN.items():
    for v, c in e['variants']: w('    ck("%s::%s", %s::%s as i128, %d)?;\n' % (n, v, n, v, c))
for n, b in BF.items():
    for v, c in b['consts']: w('    ck("%s::%s", %s::%s.bits() as i128, 0x%x)?;\n' % (n, v, n, v, c))
    m = {'u8': 0xff, 'u16': 0xffff, 'u32': 0xffffffff}[b['repr']]
    w('    for x in probes(0x%x) { ck("%s::from_bits_truncate", %s::from_bits_truncate(x as _).bits() as i128, x)?; }\n' % (m, n, n))
w('    Ok(())\n}\n')


def check(n, f, pre='r'):
    a = acc(f)
    k = '%s.%s' % (n, a)
    m, ty = f.get('map_type'), f['ty']
    out = []
    if 'bytes' in f and not m:
        return ['ckb("%s", &%s.%s()[..], &b[%d..%d])?;' % (k, pre, a, f['off'], f['off'] + f['bytes'])]
    if ty in ('f32', 'f64') and not m:
        u = 'u' + ty[1:]
        return ['ckf("%s", %s.%s() as f64, %s::from_bits(int(b, %d, %d, false) as %s) as f64, 0.0)?;' % (k, pre, a, ty, f['off'], f['width'], u)]
    raw = 'int(b, %d, %d, %s)' % (f['off'], f['width'], sgn(f))
    if not m: return ['ck("%s", %s.%s() as i128, %s)?;' % (k, pre, a, raw)]
    out.append('ck("%s_raw", %s.%s_raw() as i128, %s)?;' % (k, pre, a, raw))
    if m in ('f64', 'f32'):
        out.append('ckf("%s", %s.%s() as f64, %s as f64 * %s, %s)?;' % (k, pre, a, raw, fl(f.get('scale', '1'), 'f64'), '1e-13' if m == 'f64' else '3e-7'))
    elif m in EN: out.append('cks("%s", format!("{:?}", %s.%s()), name_%s(%s))?;' % (k, pre, a, m, raw))
    elif m in BF: out.append('ck("%s", %s.%s().bits() as i128, %s)?;' % (k, pre, a, raw))
    elif m == 'UartMode':
        out.append('let w = %s as u32;\n    match crate::guard(|| show_UartMode(&%s.%s())) {\n        Ok(s) => cks("%s", s, want_UartMode(w))?,\n        Err(e) => return Err((if uart_ok(w) { "panic".into() } else { "uartmode-undecodable".into() }, format!("CfgPrtUartRef::mode() on mode word {:#x}: {}", w, e))),\n    }' % (raw, pre, a, k))
    else: out.append('cks("%s", show_%s(&%s.%s()), want_%s(%s as _))?;' % (k, m, pre, a, m, raw))
    return out


for p in L['packets']:
    n = p['name']
    if not p['kind'].startswith('recv') or n in ('CfgInf', 'CfgNavX5'): continue
    w('pub fn read_%s(r: &%sRef<\'_>, b: &[u8]) -> R {\n    ckb("%s.as_bytes", r.as_bytes(), b)?;\n' % (n, n, n) if n not in ('NavSatSvInfo', 'RxmRawxInfo') else 'pub fn read_%s(r: &%sRef<\'_>, b: &[u8]) -> R {\n    ckb("%s.as_bytes", r.as_bytes(), b)?;\n' % (n, n, n))
    late = []
    for f in p['fields']:
        if f['width'] == 0 or (f.get('map_type') in ('&str',)): continue
        c = check(n, f)
        if f.get('map_type') == 'UartMode': late += c
        else: w(''.join('    %s\n' % x for x in c))
    if n in VAR: w('    var_%s(r, b)?;\n' % ('Inf' if n.startswith('Inf') else n) if not n.startswith('Inf') else '    var_Inf("%s", r.message(), b)?;\n' % n)
    w(''.join('    %s\n' % x for x in late))
    w('    Ok(())\n}\n')
w('pub fn read(p: &PacketRef<\'_>, b: &[u8]) -> R {\n    #[allow(unreachable_patterns)]\n    match p {\n%s        _ => Ok(()),\n    }\n}\n' % ''.join('        PacketRef::%s(r) => read_%s(r, b),\n' % (n, n) for n in NAMES))
w('/// calls every accessor and drains every iterator\npub fn touch(p: &PacketRef<\'_>) {\n    use std::hint::black_box as bb;\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in NAMES:
    t = []
    for f in P[n]['fields']:
        it = (f.get('map_type') or '').endswith('Iter')
        t.append('for x in r.%s() { bb(format!("{:?}", x)); }' % acc(f) if it else 'bb(r.%s());' % acc(f))
        if f.get('map_type') and f['width'] and not it: t.append('bb(r.%s_raw());' % acc(f))
    w('        PacketRef::%s(r) => { %s }\n' % (n, ' '.join(t)))
w('        _ => {}\n    }\n}\n')
w('/// the rules the payload of a message has to satisfy\npub fn wf(name: &str, s: &[u8]) -> bool {\n    match name {\n')
for n in NAMES:
    p = P[n]
    if n in VAR: w('        "%s" => wf_%s(s),\n' % (n, 'Inf' if n.startswith('Inf') else n)); continue
    t = ['s.len() == %d' % p['len']]
    for f in p['fields']:
        if f.get('may_fail'): t.append('[%s].contains(&s[%d])' % (', '.join(str(c) for _, c in EN[f['map_type']]['variants']), f['off']))
    w('        "%s" => %s,\n' % (n, ' && '.join(t)))
w('        _ => false,\n    }\n}\n')
w('/// puts documented codes where the message demands them\npub fn fix(name: &str, s: &mut [u8], g: &mut Rng) {\n    match name {\n')
for n in NAMES:
    p = P[n]
    t = ['s[%d] = *g.pick(&[%s]);' % (f['off'], ', '.join('%du8' % c for _, c in EN[f['map_type']]['variants'])) for f in p['fields'] if f.get('may_fail') and f['map_type'] in EN]
    if t: w('        "%s" => { %s }\n' % (n, ' '.join(t)))
w('        _ => {}\n    }\n}\n')
w('/// offsets of enumerated and bit-mask fields: name, offset, width, whether undocumented codes are refused\npub const CODED: &[(&str, usize, usize, bool)] = &[\n')
for n in NAMES:
    if n in VAR: continue
    for f in P[n]['fields']:
        if f.get('map_type') in EN or f.get('map_type') in BF: w('    ("%s", %d, %d, %s),\n' % (n, f['off'], f['width'], 'true' if f.get('may_fail') else 'false'))
w('];\npub const WORDS: &[(&str, usize, usize)] = &[\n')
for n in NAMES:
    if n in VAR: continue
    for f in P[n]['fields']:
        m = f.get('map_type')
        if m and m not in EN and m not in BF and m not in ('f64', 'f32'): w('    ("%s", %d, %d),\n' % (n, f['off'], f['width']))
w('];\n')

# ---- builders
SENDS = [p for p in L['packets'] if p['kind'].endswith('send') and p['name'] != 'CfgValSet']
for p in SENDS:
    n = p['name']
    w('fn mk_%s(v: &[u64]) -> (%sBuilder, Vec<Exp>) {\n    let mut e: Vec<Exp> = Vec::new();\n' % (n, n))
    fs = []
    for i, f in enumerate(p['fields']):
        m, ty = f.get('map_type'), f['ty']
        k = '%s.%s' % (n, acc(f))
        at = '"%s", %d, %d' % (k, f['off'], f['width'] or 0)
        if 'bytes' in f:
            w('    let f%d: [u8; %d] = bytes_of(v[%d]);\n    e.push(Exp::bytes("%s", %d, &f%d));\n' % (i, f['bytes'], i, k, f['off'], i))
        elif m in ('f64', 'f32'):
            lo, hi = RANGE[ty]
            w('    let f%d = fval_%s(v[%d], %s, %d, %d);\n    e.push(Exp::scaled(%s, f%d as f64, %s, %d, %d, %s));\n' % (i, m, i, fl(f['scale'], 'f64'), lo, hi, at, i, fl(f['scale'], 'f64'), lo, hi, '1e-15' if m == 'f64' else '2.4e-7'))
        elif m in BF:
            mask = {'u8': 0xff, 'u16': 0xffff, 'u32': 0xffffffff}[ty]
            w('    let f%d = %s::from_bits_truncate(v[%d] as _);\n    e.push(Exp::int(%s, (v[%d] & 0x%x) as i128));\n' % (i, m, i, at, i, mask))
        elif m:
            w('    let (f%d, c) = mk_%s(v[%d]);\n    e.push(Exp::int(%s, c));\n' % (i, m, i, at))
        elif ty in ('f32', 'f64'):
            w('    let f%d = %s::from_bits(v[%d] as _);\n    e.push(Exp::int(%s, (v[%d] as u%s) as i128));\n' % (i, ty, i, at, i, ty[1:]))
        else:
            w('    let f%d = v[%d] as %s;\n    e.push(Exp::int(%s, f%d as i128));\n' % (i, i, ty, at, i))
        fs.append('%s: f%d' % (f['name'], i))
    w('    (%sBuilder { %s }, e)\n}\n' % (n, ', '.join(fs)))
w('pub const BUILDERS: &[Builder] = &[\n')
for p in SENDS:
    n = p['name']
    w('    Builder { name: "%s", class: 0x%x, id: 0x%x, len: %d, fields: %d, recv: %s, forms: |v, w| forms!(mk_%s, %d, v, w) },\n' % (n, p['cls'], p['id'], p['len'], len(p['fields']), 'true' if n in NAMES else 'false', n, p['len'] + 8))
w('];\n')
w('pub fn defaults() -> Vec<(&\'static str, Vec<u8>)> {\n    vec![\n%s    ]\n}\n' % ''.join('        ("%s", %sBuilder::default().into_packet_bytes().to_vec()),\n' % (p['name'], p['name']) for p in SENDS if p['default']))
# ---- requests
w('/// name, class, id and poll request of every message\npub fn requests() -> Vec<(&\'static str, u8, u8, Vec<u8>)> {\n    vec![\n')
for p in L['packets']: w('        ("%s", 0x%x, 0x%x, UbxPacketRequest::request_for::<%s>().into_packet_bytes().to_vec()),\n' % (p['name'], p['cls'], p['id'], p['name'] + ('' if p['name'] != 'CfgValSet' else "<'static>")))
w('    ]\n}\n/// acknowledgement tests for every message\npub fn acks(a: &AckAckRef<\'_>) -> Vec<(&\'static str, bool)> {\n    vec![\n')
for p in L['packets']: w('        ("%s", a.is_ack_for::<%s>()),\n' % (p['name'], p['name']))
w('    ]\n}\npub fn naks(a: &AckNakRef<\'_>) -> Vec<(&\'static str, bool)> {\n    vec![\n')
for p in L['packets']: w('        ("%s", a.is_nak_for::<%s>()),\n' % (p['name'], p['name']))
w('    ]\n}\npub fn rates(r: u8, rs: [u8; 6]) -> Vec<(&\'static str, u8, u8, Vec<u8>, Vec<u8>)> {\n    vec![\n')
for p in L['packets']: w('        ("%s", 0x%x, 0x%x, CfgMsgSinglePortBuilder::set_rate_for::<%s>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<%s>(rs).into_packet_bytes().to_vec()),\n' % (p['name'], p['cls'], p['id'], p['name'], p['name']))
w('    ]\n}\n')
s = ''.join(o).replace("::<CfgValSet<'static>>", '::<CfgValSet>')
open(V + '/replay/src/pk.rs', 'w').write(s)
print(len(s))
