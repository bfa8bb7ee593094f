//! Payloads that satisfy the rules of a message, and the packet the parser makes of a frame.
use crate::pk::*;
use crate::pkh::*;
use crate::*;
use ublox::*;

pub type Out = Result<String, (String, String)>;
pub fn e<T>(k: &str, w: String) -> Result<T, (String, String)> { Err((k.to_string(), w)) }

/// what the parser reports for a frame alone
pub fn parse_one(f: &[u8], look: &mut dyn FnMut(&PacketRef<'_>) -> R) -> R {
    let mut p = Parser::default();
    let mut it = p.consume(f);
    match it.next() {
        Some(Ok(pk)) => look(&pk)?,
        o => return e("parse", format!("a well-formed frame is reported as {}", match o { Some(Err(x)) => format!("{:?}", x), _ => "nothing".into() })),
    }
    if it.next().is_some() { return e("parse", "more than one packet".into()); }
    Ok(())
}
pub fn known(name: &str) -> (u8, u8, usize, bool) { let k = info::KNOWN.iter().find(|k| k.0 == name).unwrap(); (k.1, k.2, k.3, k.4) }

/// A payload of `name`, satisfying its rules.
pub fn payload(name: &str, g: &mut Rng) -> Vec<u8> {
    let (_, _, n, fixed) = known(name);
    let mut v: Vec<u8> = (0..n).map(|_| match g.below(6) { 0 => 0, 1 => 0xff, 2 => 1 << g.below(8), _ => g.byte() }).collect();
    if !fixed {
        let count = match g.below(4) { 0 => 0, 1 => 1, 2 => g.below(5), _ => if g.chance(1, 12) { g.below(250) } else { g.below(40) } };
        match name {
            "NavSat" => v.extend(g.bytes(12 * count)),
            "EsfRaw" => v.extend(g.bytes(8 * count)),
            "RxmSfrbx" => v.extend(g.bytes(4 * count)),
            "RxmRawx" => v.extend(g.bytes(32 * count)),
            "EsfMeas" => { let n = 4 * (v[5] as usize / 8) + if v[4] / 8 % 2 == 1 { 4 } else { 0 } + if g.chance(1, 5) { 4 * g.below(3) } else { 0 }; v.extend(g.bytes(n)) }
            "MonVer" => {
                v.clear();
                for n in [30, 10].iter().copied().chain((0..count.min(12)).map(|_| 30)) {
                    let mut t: Vec<u8> = Vec::new();
                    let want = match g.below(4) { 0 => 0, 1 => n - 1, _ => g.below(n) };
                    while t.len() < want { if g.chance(1, 8) && t.len() + 2 <= want { t.extend("é".as_bytes()) } else { t.push(1 + g.byte() % 127) } }
                    t.push(0);
                    while t.len() < n { t.push(g.byte()) }
                    v.extend(t);
                }
            }
            _ => { // Inf*
                let n = g.below(60);
                for _ in 0..n { if g.chance(1, 12) { v.push(g.byte()) } else { v.push(g.byte() % 128) } }
            }
        }
    }
    fix(name, &mut v, g);
    v
}
pub fn split(c: &str) -> Vec<String> { c.split(' ').map(|x| x.to_string()).collect() }
