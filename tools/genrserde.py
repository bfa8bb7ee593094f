#!/usr/bin/env python3
"""Writes replay_serde/src/entries.rs (the entries every message has to be serialised
with) from spec/layout.json.  Run by hand."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(V + '/spec/layout.json'))
P = {p['name']: p for p in L['packets']}
EN = {e['name'] for e in L['enums']}
BF = {b['name'] for b in L['bitflags']}
NAMES = [n for n in L['recv'] if n != 'UbxUnknownPacketRef']
o = ['//! Generated by tools/genrserde.py from spec/layout.json; do not edit.\n#![allow(unreachable_patterns, clippy::all)]\nuse crate::{compare, js, seq};\nuse replay::pkh::R;\nuse ublox::*;\n']
w = o.append


def val(r, f):
    a = f.get('alias', f['name'])
    m = f.get('map_type') or f['ty']
    if m in BF: return 'js(&%s.%s().bits())' % (r, a)
    if m in EN and f['width']: return 'js(&%s.%s_raw())' % (r, a)
    return ('seq(%s.%s())' if m.endswith('Iter') else 'js(&%s.%s())') % (r, a)


def ent(n, r): return 'vec![%s]' % ', '.join('("%s".to_string(), %s)' % (f['name'], val(r, f)) for f in P[n]['fields'])


w('/// the entries of a packet, and what is written for the packet without class and id\npub fn fields(p: &PacketRef<\'_>) -> (Vec<(String, String)>, String) {\n    match p {\n')
for n in NAMES: w('        PacketRef::%s(r) => (%s, js(r)),\n' % (n, ent(n, 'r')))
w('        _ => (vec![("".into(), "".into())], String::new()),\n    }\n}\n')
w('/// the blocks inside a packet that are messages of their own\npub fn nested(p: &PacketRef<\'_>) -> R {\n    match p {\n')
for n, f, b in (('NavSat', 'svs', 'NavSatSvInfo'), ('RxmRawx', 'measurements', 'RxmRawxInfo')):
    w('        PacketRef::%s(r) => { for x in r.%s() { compare("%s", &js(&x), &%s)?; } Ok(()) }\n' % (n, f, b, ent(b, 'x')))
w('        _ => Ok(()),\n    }\n}\n')
open(V + '/replay_serde/src/entries.rs', 'w').write(''.join(o))
