//! Configuration items and the configuration-set message through the public API (C14, C15).
use replay::cfgitems::{item, N};
use replay::pkh::*;
use replay::*;
use ublox::cfg_val::CfgVal;
use ublox::*;

type Out = Result<String, (String, String)>;
fn e<T>(k: &str, w: String) -> Result<T, (String, String)> { Err((k.to_string(), w)) }

fn item_check(i: usize, x: u64, tail: &[u8]) -> Out {
    let (v, want) = item(i, x);
    let what = format!("{:?}", v);
    if v.len() != want.len() { return e("len", format!("{}: length {} instead of {}", what, v.len(), want.len())); }
    if v.is_empty() { return e("is_empty", what); }
    let mut out = tail.to_vec();
    let n = v.extend_to(&mut out);
    if n != want.len() { return e("extend_to-len", format!("{}: {} instead of {}", what, n, want.len())); }
    let mut w2 = tail.to_vec();
    w2.extend_from_slice(&want);
    ckb(&format!("extend_to {}", what), &out, &w2)?;
    let mut buf = vec![0xa5u8; want.len()];
    buf.extend_from_slice(tail);
    let n = guard(|| v.write_to(&mut buf)).or_else(|x| e("write_to-panic", format!("{}: {}", what, x)))?;
    if n != want.len() { return e("write_to-len", format!("{}: {} instead of {}", what, n, want.len())); }
    let mut w3 = want.clone();
    w3.extend_from_slice(tail);
    ckb(&format!("write_to {}", what), &buf, &w3)?;
    let back = guard(|| CfgVal::parse(&buf)).or_else(|x| e("parse-panic", format!("{}: {}", what, x)))?;
    if format!("{:?}", back) != what { return e("parse", format!("{} is decoded as {:?}", what, back)); }
    Ok("item".into())
}
fn mask(layers: u8) -> CfgLayer {
    let mut m = CfgLayer::empty();
    if layers & 1 != 0 { m |= CfgLayer::RAM; }
    if layers & 2 != 0 { m |= CfgLayer::BBR; }
    if layers & 4 != 0 { m |= CfgLayer::FLASH; }
    m
}
fn set_check(version: u8, layers: u8, reserved1: u16, prior: &[u8], l: &[(usize, u64)]) -> Out {
    let vals: Vec<CfgVal> = l.iter().map(|(i, x)| item(*i, *x).0).collect();
    let mut bytes = vec![];
    for (i, x) in l { bytes.extend(item(*i, *x).1); }
    let mut p = vec![version, layers & 7, reserved1 as u8, (reserved1 >> 8) as u8];
    p.extend_from_slice(&bytes);
    if p.len() > 65535 { return Ok("trivial".into()); }
    let f = frame(0x06, 0x8a, &p);
    let b = || CfgValSetBuilder { version, layers: mask(layers), reserved1, cfg_data: &vals };
    let got = guard(|| (&b)().into_packet_vec()).or_else(|x| e("vec-panic", x))?;
    ckb("into_packet_vec", &got, &f)?;
    let mut out = prior.to_vec();
    guard(|| (&b)().extend_to(&mut out)).or_else(|x| e("extend_to-panic", x))?;
    let mut want = prior.to_vec();
    want.extend_from_slice(&f);
    ckb("extend_to", &out, &want)?;
    let mut data = vec![0xa5u8; bytes.len() + prior.len() % 7];
    let seen = guard(|| CfgValIter::new(&mut data, &vals).take(vals.len() + 3).map(|x| format!("{:?}", x)).collect::<Vec<_>>()).or_else(|x| e("iter-panic", x))?;
    let given: Vec<String> = vals.iter().map(|x| format!("{:?}", x)).collect();
    if seen != given { return e("iter", format!("{} items are read back as {} items: {:?}", given.len(), seen.len(), seen.iter().zip(given.iter()).find(|(a, b)| a != b))); }
    Ok(if l.len() > 1 { format!("set {}", if prior.is_empty() { "first" } else { "appended" }) } else { "trivial".into() })
}

fn main() {
    let a = args();
    let p1 = a.prop.clone();
    let thorough = a.tier == "thorough";
    let n: u64 = if p1 == "C14" { 1_000_000 } else { 200_000 };
    Runner { args: a }.run(
        n * if thorough { 8 } else { 1 },
        move |g, i| {
            if p1 == "C14" {
                let x = if g.chance(1, 3) { g.next() % 8 } else { g.raw(*g.clone().pick(&[8u32, 16, 32, 64])) };
                let n = g.below(12);
                return format!("item {} {} {}", i as usize % N, x, hex(&g.bytes(n)));
            }
            let n = match g.below(8) { 0 => 0, 1 => 1, 2..=5 => g.below(20), 6 => g.below(300), _ => g.below(1200) };
            let m = if g.chance(1, 3) { 0 } else { g.below(70) };
            let l: Vec<String> = (0..n).map(|_| format!("{}:{}", g.below(N), g.raw(32))).collect();
            format!("set {} {} {} {} {}", g.byte(), g.byte(), g.next() as u16, l.join(","), hex(&g.bytes(m)))
        },
        move |c| {
            let t: Vec<&str> = c.split(' ').collect();
            let num = |k: usize| t[k].parse::<u64>().unwrap();
            match t[0] {
                "item" => item_check(num(1) as usize, num(2), &unhex(t.get(3).copied().unwrap_or(""))),
                "set" => {
                    let l: Vec<(usize, u64)> = t[4].split(',').filter(|x| !x.is_empty()).map(|x| { let (i, v) = x.split_once(':').unwrap(); (i.parse().unwrap(), v.parse().unwrap()) }).collect();
                    set_check(num(1) as u8, num(2) as u8, num(3) as u16, &unhex(t.get(5).copied().unwrap_or("")), &l)
                }
                _ => e("case", "unknown case".into()),
            }
        },
    )
}
