#!/usr/bin/env python3
"""Writes replay/src/info.rs (committed): class, id and payload of any PacketRef, through the public API."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=json.load(open(V+'/spec/layout.json'))
L['recv']=[x for x in L['recv'] if x!='UbxUnknownPacketRef']
o=['//! Generated by tools/geninfo.py from spec/layout.json.','use ublox::PacketRef;',
'/// Name, class, id and payload of a packet.',
'#[allow(unreachable_patterns)]',
"pub fn info<'a>(p: &'a PacketRef<'_>) -> Option<(&'static str, u8, u8, &'a [u8])> {",
'    let (c, i) = p.class_and_msg_id();',
'    Some(match p {']
for n in L['recv']:
    o.append(f'        PacketRef::{n}(x) => ("{n}", c, i, x.as_bytes()),')
o+=['        PacketRef::Unknown(u) => ("Unknown", u.class, u.msg_id, u.payload),','        _ => return None,','    })','}',
'/// Class, id, least payload length and whether the length is fixed, per message.',
'pub const KNOWN: &[(&str, u8, u8, usize, bool)] = &[']
for n in L['recv']:
    p=next(q for q in L['packets'] if q['name']==n)
    mn=p.get('len')
    if mn is None: mn=sum(f['width'] or 0 for f in p['fields'])
    o.append(f'    ("{n}", {p["cls"]}, {p["id"]}, {mn}, {"true" if "len" in p else "false"}),')
o.append('];')
open(V+'/replay/src/info.rs','w').write('\n'.join(o)+'\n')
