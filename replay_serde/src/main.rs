//! Serialised packets (C21): class, id and every accessor value under the field's name.
mod entries;
use replay::cases::*;
use replay::pk::wf;
use replay::pkh::*;
use replay::*;
use serde::de::{Deserializer, MapAccess, Visitor};
use serde_json::value::RawValue;
use ublox::*;

/// The entries of a JSON object as they are written, duplicates included.
pub struct Entries(pub Vec<(String, String)>);
impl<'de> serde::Deserialize<'de> for Entries {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Entries;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a map") }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Entries, A::Error> {
                let mut v = Vec::new();
                while let Some(k) = m.next_key::<String>()? {
                    let x: &'de RawValue = m.next_value()?;
                    v.push((k, x.get().to_string()));
                }
                Ok(Entries(v))
            }
        }
        d.deserialize_map(V)
    }
}
pub fn js<T: serde::Serialize + ?Sized>(x: &T) -> String { serde_json::to_string(x).unwrap_or_else(|e| format!("error: {}", e)) }
pub fn seq<I: Iterator>(it: I) -> String where I::Item: serde::Serialize {
    format!("[{}]", it.map(|x| js(&x)).collect::<Vec<_>>().join(","))
}
pub fn compare(name: &str, text: &str, want: &[(String, String)]) -> R {
    let got = match serde_json::from_str::<Entries>(text) { Ok(x) => x.0, Err(x) => return e("no-map", format!("{} is not serialised as a map ({}): {}", name, x, text)) };
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.0 == w.0 && g.1 == w.1 => {}
            g => return e("entry", format!("entry {} of {} is {:?} instead of {:?}", i, name, g, w)),
        }
    }
    if got.len() > want.len() { return e("extra", format!("{} has the unexpected entry {:?}", name, got[want.len()])); }
    Ok(())
}

fn check(name: &str, p: &[u8]) -> Out {
    if name == "Unknown" {
        let (c, d, b) = (p[0], p[1], &p[2..]);
        if info::KNOWN.iter().any(|k| k.1 == c && k.2 == d) { return Ok("trivial".into()); }
        parse_one(&frame(c, d, b), &mut |pk| compare("an unknown packet", &js(pk), &[("payload".into(), js(b)), ("class".into(), js(&c)), ("msg_id".into(), js(&d))]))?;
        return Ok("unknown".into());
    }
    if !wf(name, p) { return Ok("trivial".into()); }
    let (c, d, _, _) = known(name);
    parse_one(&frame(c, d, p), &mut |pk| {
        let uart = if let PacketRef::CfgPrtUart(_) = pk { !uart_ok(int(p, 4, 4, false) as u32) } else { false };
        match guard(|| {
            let mut want = vec![("class".to_string(), c.to_string()), ("msg_id".to_string(), d.to_string())];
            let fields = entries::fields(pk);
            want.extend(fields.0.clone());
            compare(name, &js(pk), &want)?;
            compare(name, &fields.1, &fields.0)?;
            entries::nested(pk)
        }) {
            Ok(r) => r,
            Err(x) => e(if uart { "uartmode-undecodable" } else { "panic" }, format!("serialising {}: {}", name, x)),
        }
    })?;
    Ok(name.to_string())
}

fn main() {
    let a = args();
    let n = if a.tier == "thorough" { 1_500_000 } else { 250_000 };
    Runner { args: a }.run(
        n,
        |g, i| {
            let k = (i % (info::KNOWN.len() as u64 + 1)) as usize;
            if k == info::KNOWN.len() { let n = 2 + g.below(20); return format!("serde Unknown {}", hex(&g.bytes(n))); }
            let name = info::KNOWN[k].0;
            format!("serde {} {}", name, hex(&payload(name, g)))
        },
        |c| { let t = split(c); check(&t[1], &unhex(t.get(2).map_or("", |x| x))) },
    )
}
