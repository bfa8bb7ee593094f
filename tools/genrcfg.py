#!/usr/bin/env python3
"""Writes replay/src/cfgitems.rs (every configuration item with its documented key, width and
codes, built through the public API) from spec/cfg.json.  Run by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/spec/cfg.json'))
EN = {
    'DataBits': ['Eight', 'Seven'], 'Parity': ['None', 'Odd', 'Even'], 'StopBits': ['Half', 'One', 'OneHalf', 'Two'],
    'AlignmentToReferenceTime': ['Utc', 'Gps', 'Glo', 'Bds', 'Gal'], 'TpPulse': ['Period', 'Freq'], 'TpPulseLength': ['Ratio', 'Length'],
}
MASK = [('ERROR', 1), ('WARNING', 2), ('NOTICE', 4), ('TEST', 8), ('DEBUG', 16)]
o = ['//! Generated by tools/genrcfg.py from spec/cfg.json; do not edit.\n#![allow(clippy::all)]\nuse ublox::cfg_val::*;\nuse ublox::*;\n']
w = o.append
for t, vs in EN.items():
    w('fn mk_%s(x: u64) -> (%s, u64) {\n    match x %% %d {\n%s    }\n}\n' % (t, t, len(vs), ''.join('        %s => (%s::%s, %d),\n' % (i if i < len(vs) - 1 else '_', t, v, i) for i, v in enumerate(vs))))
w('fn mk_CfgInfMask(x: u64) -> (CfgInfMask, u64) {\n    let mut m = CfgInfMask::empty();\n    let mut r = 0;\n%s    (m, r)\n}\n' % ''.join('    if x & %d != 0 { m |= CfgInfMask::%s; r |= %d; }\n' % (v, n, v) for n, v in MASK))
w('pub const N: usize = %d;\n/// item number `i` with a value made from `x`; its bytes\npub fn item(i: usize, x: u64) -> (CfgVal, Vec<u8>) {\n    match i {\n' % len(C))
for i, c in enumerate(C):
    t, n = c['ty'], {'u16': 2, 'i16': 2, 'u32': 4, 'u64': 8}.get(c['ty'], 1)
    if t == 'bool': a, r = 'x % 2 == 1', 'x % 2'
    elif t in ('u8', 'u16', 'i16', 'u32', 'u64'): a, r = 'x as %s' % t, 'x'
    else: a, r = 'mk_%s(x).0' % t, 'mk_%s(x).1' % t
    w('        %d => (CfgVal::%s(%s), enc(0x%08x, %s, %d)),\n' % (i, c['name'], a, c['key'], r, n))
w('        _ => unreachable!(),\n    }\n}\nfn enc(k: u32, r: u64, n: usize) -> Vec<u8> {\n    let mut v = k.to_le_bytes().to_vec();\n    v.extend_from_slice(&r.to_le_bytes()[..n]);\n    v\n}\n')
open(V + '/replay/src/cfgitems.rs', 'w').write(''.join(o).replace('fn mk_', '#[allow(non_snake_case)]\nfn mk_'))
