#!/usr/bin/env python3
"""Derives the message layout table from the *declarations* in packets.rs (field
order, widths, scales, codes), without going through the derive macros. Run once;
the result, /verif/spec/layout.json, is frozen, reviewed by hand and is what the
contracts are generated from. It is never regenerated by a check."""
import json, re, sys
SRC=sys.argv[1] if len(sys.argv)>1 else '/repo/ublox/src/ubx_packets/packets.rs'
s=open(SRC).read()
s=re.sub(r'//[^\n]*','',s)
W={'u8':1,'i8':1,'u16':2,'i16':2,'u32':4,'i32':4,'u64':8,'i64':8,'f32':4,'f64':8}
def num(t):
    t=t.replace('_','').strip()
    return int(t,0)
def split_top(t,sep=','):
    out=[];d=0;cur=''
    for c in t:
        if c in '([{<': d+=1
        if c in ')]}>': d-=1
        if c==sep and d==0: out.append(cur.strip()); cur=''
        else: cur+=c
    if cur.strip(): out.append(cur.strip())
    return out
def attrs_of(t):
    r={}
    for kv in split_top(re.sub(r'\s+',' ',t)):
        if '=' in kv:
            k,v=kv.split('=',1); r[k.strip()]=v.strip()
        else: r[kv]=True
    return r
def balanced(i,o='{',c='}'):
    d=0
    while True:
        if s[i]==o: d+=1
        elif s[i]==c:
            d-=1
            if d==0: return i
        i+=1
lay={'packets':[],'enums':[],'bitflags':[]}
for m in re.finditer(r'#\[(ubx_packet_recv|ubx_packet_send|ubx_packet_recv_send)\]\s*#\[ubx\(',s):
    j=balanced(m.end()-1,'(',')')
    a=attrs_of(s[m.end():j])
    hm=re.compile(r'\]\s*((?:#\[[^\]]*\]\s*)*)(?:pub )?struct (\w+)(<[^>]*>)?\s*\{').match(s,j+1)
    name=hm.group(2); b=hm.end()-1; e=balanced(b)
    body=s[b+1:e]
    fields=[];off=0
    i=0
    fl=split_top(body)
    for f in fl:
        fa={}
        while f.startswith('#['):
            d=0
            for k,c in enumerate(f):
                if c=='[': d+=1
                if c==']':
                    d-=1
                    if d==0: break
            at=f[2:k].strip(); f=f[k+1:].strip()
            if at.startswith('ubx('): fa.update(attrs_of(at[4:-1]))
        fm=re.match(r'(?:pub )?(\w+)\s*:\s*(.*)$',f,re.S)
        fn,ty=fm.group(1),fm.group(2).strip()
        am=re.match(r'\[u8;\s*(\d+)\]$',ty)
        if ty in W: w=W[ty]
        elif am: w=int(am.group(1))
        else: w=None
        fd=dict(name=fn,ty=ty,off=off,width=w)
        if am: fd['bytes']=w
        for k in('map_type','scale','alias','from','is_valid','size_fn'):
            if k in fa: fd[k]=fa[k]
        for k in('may_fail','get_as_ref'):
            if k in fa: fd[k]=True
        if fa.get('into'): fd['into']=fa['into']
        extra=set(fa)-{'map_type','scale','alias','from','is_valid','size_fn','may_fail','get_as_ref','into'}
        assert not extra,(name,fn,extra)
        fields.append(fd)
        off = None if (w is None or (am and w==0)) or off is None else off+w
    p=dict(name=name,kind=m.group(1)[11:],cls=num(a['class']),id=num(a['id']),fields=fields)
    if 'fixed_payload_len' in a: p['len']=num(a['fixed_payload_len'])
    if 'max_payload_len' in a: p['max']=num(a['max_payload_len'])
    p['default']= 'default_for_builder' in str(a.get('flags',''))
    if 'len' in p: assert off==p['len'],(name,off,p['len'])
    lay['packets'].append(p)
for m in re.finditer(r'#\[ubx_extend\]\s*#\[ubx\(([^)]*)\)\]\s*#\[repr\((\w+)\)\]\s*(?:#\[(?:[^\[\]]|\[[^\]]*\])*\]\s*)*(?:pub )?enum (\w+)\s*\{',s):
    e=balanced(m.end()-1)
    vs=[];nxt=0
    for v in split_top(s[m.end():e]):
        v=re.sub(r'#\[[^\]]*\]\s*','',v).strip()
        vm=re.match(r'(\w+)(?:\s*=\s*(\S+))?$',v)
        val=num(vm.group(2)) if vm.group(2) else nxt
        nxt=val+1
        vs.append([vm.group(1),val])
    at=attrs_of(m.group(1))
    lay['enums'].append(dict(name=m.group(3),repr=m.group(2),variants=vs,attrs=sorted(at)))
for m in re.finditer(r'#\[ubx_extend_bitflags\]\s*#\[ubx\(([^)]*)\)\]\s*bitflags!\s*\{\s*(?:#\[[^\]]*\]\s*)*(?:pub )?struct (\w+)\s*:\s*(\w+)\s*\{',s):
    e=balanced(m.end()-1)
    cs=[]
    for cm in re.finditer(r'const (\w+)\s*=\s*([^;]+);',s[m.end():e]):
        ex=cm.group(2).strip()
        try: v=num(ex)
        except ValueError:
            env={n:x for n,x in cs}
            ex2=re.sub(r'Self::(\w+)\.bits(?:\(\))?',lambda q:str(env[q.group(1)]),ex)
            v=eval(ex2)
        cs.append([cm.group(1),v])
    lay['bitflags'].append(dict(name=m.group(2),repr=m.group(3),consts=cs,attrs=sorted(attrs_of(m.group(1)))))
m=re.search(r'define_recv_packets!\(\s*enum (\w+)\s*\{(.*?)\}\s*\)',s,re.S)
lay['recv']=[x.strip() for x in m.group(2).replace('_ = ','').split(',') if x.strip()]
json.dump(lay,open('/verif/spec/layout.json','w'),indent=0)
print(len(lay['packets']),len(lay['enums']),len(lay['bitflags']),len(lay['recv']))
