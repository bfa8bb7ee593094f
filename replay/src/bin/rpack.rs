//! Messages through the public API: decoding, dispatch, building (C07-C13, C16-C20).
#![allow(non_snake_case)]
use replay::cases::*;
use replay::pk::*;
use replay::pkh::*;
use replay::*;
use ublox::*;

fn has(list: &[&'static str], g: &mut Rng) -> &'static str { *g.pick(list) }
const VAR: &[&str] = &["NavSat", "MonVer", "EsfMeas", "EsfRaw", "RxmSfrbx", "RxmRawx", "InfError", "InfNotice", "InfTest", "InfWarning", "InfDebug"];
const WORDMSG: &[&str] = &["NavStatus", "CfgItfm", "CfgPrtUart", "TimTp", "TimTm2", "NavSat"];


// ------------------------------------------------------------------ reading
fn read_case(prop: &str, g: &mut Rng, i: u64) -> Case {
    let n = info::KNOWN.len() as u64;
    let mut name = info::KNOWN[(i % n) as usize].0;
    if prop == "C13" { name = has(VAR, g) }
    if prop == "C18" { name = has(WORDMSG, g) }
    if prop == "C19" { name = has(&["NavPosLlh", "NavHpPosLlh", "NavHpPosEcef", "NavVelNed", "NavPvt", "NavPvt", "NavPvt"], g) }
    let mut p = payload(name, g);
    if prop == "C17" {
        let c = *g.pick(CODED);
        name = c.0;
        p = payload(name, g);
        for k in 0..c.2 { p[c.1 + k] = if g.chance(1, 3) { 1 << g.below(8) } else { g.byte() }; }
        if c.2 == 1 { p[c.1] = (i / 7) as u8; }
    }
    if prop == "C18" {
        let ws: Vec<_> = WORDS.iter().filter(|w| w.0 == name).collect();
        if !ws.is_empty() {
            let c = **g.pick(&ws);
            let r = match g.below(3) { 0 => 1u64 << g.below(8 * c.2), 1 => !(1u64 << g.below(8 * c.2)), _ => g.next() };
            for k in 0..c.2 { p[c.1 + k] = (r >> (8 * k)) as u8; }
            if c.2 == 1 { p[c.1] = (i / 3) as u8; }
            fix(name, &mut p, g);
            if name == "CfgPrtUart" { p[0] = 1 + (i % 3) as u8; }
        }
    }
    if prop == "C19" && name == "NavPvt" && g.chance(7, 8) {
        // mostly valid, with single fields out of range
        let y: u16 = match g.below(8) { 0 => g.next() as u16, 1 => 2000, 2 => 1900, 3 => 0, 4 => 65535, _ => 1980 + g.below(120) as u16 };
        p[4..6].copy_from_slice(&y.to_le_bytes());
        p[6] = 1 + g.below(12) as u8; p[7] = 1 + g.below(31) as u8; p[8] = g.below(24) as u8; p[9] = g.below(60) as u8; p[10] = g.below(60) as u8;
        let ns: i32 = match g.below(9) { 0 => 0, 1 => -1, 2 => 999_999_999, 3 => -999_999_999, 4 => 1_000_000_000, 5 => -1_000_000_000, 6 => i32::MIN, 7 => g.next() as i32, _ => (g.next() % 2_000_000_000) as i32 - 1_000_000_000 };
        p[16..20].copy_from_slice(&ns.to_le_bytes());
        match g.below(16) { 0 => p[6] = 0, 1 => p[6] = 13, 2 => p[7] = 0, 3 => p[7] = 32, 4 => p[8] = 24, 5 => p[9] = 60, 6 => p[10] = 60, 7 => { p[6] = 2; p[7] = 28 + g.below(3) as u8 }, 8 => { p[6] = 12; p[7] = 31; p[8] = 23; p[9] = 59; p[10] = 59 }, 9 => { p[6] = 1; p[7] = 1; p[8] = 0; p[9] = 0; p[10] = 0 }, _ => {} }
    }
    if prop == "C08" {
        match g.below(8) {
            0 => { let n = g.below(p.len() + 1); p.truncate(n) }
            1 => { let n = 1 + g.below(12); let b = g.bytes(n); p.extend(b) }
            2 | 3 => { if !p.is_empty() { let k = g.below(p.len().min(48)); p[k] = g.byte(); } }
            4 => { let n = *g.pick(&[0usize, 1, 8175, 8176]); p = g.bytes(n) }
            5 => { if !p.is_empty() { p.pop(); } }
            _ => {}
        }
        let (mut c, mut d, _, _) = known(name);
        match g.below(8) { 0 => c = g.byte(), 1 => d = g.byte(), 2 => { let k = *g.pick(info::KNOWN); c = k.1; d = k.2 }, 3 => std::mem::swap(&mut c, &mut d), _ => {} }
        return format!("dispatch {} {} {}", c, d, hex(&p));
    }
    if prop == "C09" && g.chance(1, 3) {
        // payloads that miss the rules: whatever the parser accepts has to be readable
        match g.below(6) {
            0 => { let n = g.below(p.len() + 1); p.truncate(n) }
            1 => { let n = 1 + g.below(40); let b = g.bytes(n); p.extend(b) }
            2 => { p.pop(); }
            _ => { if !p.is_empty() { for _ in 0..1 + g.below(3) { let k = g.below(p.len()); p[k] = g.byte() | 0x80 * (g.below(2) as u8); } } }
        }
    }
    format!("read {} {}", name, hex(&p))
}
fn dispatch(c: u8, d: u8, p: &[u8]) -> Out {
    let possible: Vec<&str> = info::KNOWN.iter().filter(|k| k.1 == c && k.2 == d && wf(k.0, p)).map(|k| k.0).collect();
    parse_one(&frame(c, d, p), &mut |pk| {
        let (name, c2, d2, bytes) = match info::info(pk) { Some(x) => x, None => return e("dispatch", "a message that is not in the table".into()) };
        ck("class", c2 as i128, c as i128)?;
        ck("id", d2 as i128, d as i128)?;
        ckb("payload", bytes, p)?;
        if name == "Unknown" && possible.is_empty() { return Ok(()); }
        if possible.contains(&name) { return Ok(()); }
        e("dispatch", format!("class {:#x} id {:#x} with {} bytes is reported as {}, expected {:?}", c, d, p.len(), name, possible))
    })?;
    Ok(if possible.is_empty() { "unknown".into() } else { format!("typed {}", possible[0]) })
}
fn read_check(prop: &str, name: &str, p: &[u8]) -> Out {
    let (c, d, _, _) = known(name);
    if !wf(name, p) {
        if prop == "C09" {
            parse_one(&frame(c, d, p), &mut |pk| {
                if let PacketRef::CfgPrtUart(_) = pk { return Ok(()); }
                match guard(|| { touch(pk); format!("{:?}", pk).len() + format!("{:#?}", pk).len() }) { Ok(_) => Ok(()), Err(x) => e("debug-panic", format!("reading or formatting {}: {}", name, x)) }
            })?;
            return Ok(format!("{} breaking a rule", name));
        }
        if prop == "C17" || prop == "C18" { return dispatch(c, d, p); }
        return Ok("trivial".into());
    }
    parse_one(&frame(c, d, p), &mut |pk| {
        let (n2, _, _, bytes) = match info::info(pk) { Some(x) => x, None => return e("dispatch", "a message that is not in the table".into()) };
        if n2 != name && !(name.eq_ignore_ascii_case(n2)) { return e("dispatch", format!("{} is reported as {}", name, n2)); }
        ckb("payload", bytes, p)?;
        if prop == "C19" { return types(pk, p); }
        let uart = if let PacketRef::CfgPrtUart(_) = pk { !uart_ok(int(p, 4, 4, false) as u32) } else { false };
        if prop == "C09" && !uart {
            match guard(|| format!("{:?}", pk).len() + format!("{:#?}", pk).len()) { Ok(_) => {}, Err(x) => return e("debug-panic", format!("formatting {}: {}", name, x)) }
        }
        match guard(|| read(pk, p)) {
            Ok(r) => match r {
                // the value is the business of the other properties
                Err((k, _)) if prop == "C17" && k == "uartmode-undecodable" => Ok(()),
                Err((k, w)) if prop == "C09" && k != "panic" && k != "uartmode-undecodable" => { let _ = w; Ok(()) }
                r => r,
            },
            Err(x) => e("panic", format!("reading {}: {}", name, x)),
        }
    })?;
    Ok(name.to_string())
}
// ------------------------------------------------------------------ positions and times
fn near(k: &str, got: f64, want: f64) -> R { if (got - want).abs() <= want.abs() * 1e-12 + 1e-12 { Ok(()) } else { e(k, format!("{}: {:?} instead of {:?}", k, got, want)) } }
fn days(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01 in the proleptic Gregorian calendar, counted year by year in 400-year cycles
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let ml = |y: i64, m: i64| [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
    let cyc = (y - 1970).div_euclid(400);
    let y0 = 1970 + cyc * 400;
    let mut n = cyc * 146_097;
    for k in y0..y { n += if leap(k) { 366 } else { 365 } }
    for k in 1..m { n += ml(y, k) }
    n + d - 1
}
fn types(pk: &PacketRef<'_>, p: &[u8]) -> R {
    use std::convert::TryFrom;
    let i = |off, w| int(p, off, w, true) as f64;
    match pk {
        PacketRef::NavPosLlh(r) => { let q = Position::from(r); near("lon", q.lon, i(4, 4) / 1e7)?; near("lat", q.lat, i(8, 4) / 1e7)?; near("alt", q.alt, i(16, 4) / 1e3) }
        PacketRef::NavHpPosLlh(r) => {
            let q = Position::from(r);
            near("hp lon", q.lon, i(8, 4) / 1e7 + i(24, 1) / 1e9)?; near("hp lat", q.lat, i(12, 4) / 1e7 + i(25, 1) / 1e9)?;
            near("hp alt", q.alt, i(20, 4) / 1e3 + i(27, 1) / 1e4)
        }
        PacketRef::NavHpPosEcef(r) => {
            let q = PositionECEF::from(r);
            near("ecef x", q.x, i(8, 4) / 1e2 + i(20, 1) / 1e4)?; near("ecef y", q.y, i(12, 4) / 1e2 + i(21, 1) / 1e4)?; near("ecef z", q.z, i(16, 4) / 1e2 + i(22, 1) / 1e4)
        }
        PacketRef::NavVelNed(r) => { let q = Velocity::from(r); near("speed", q.speed, int(p, 20, 4, false) as f64 / 1e2)?; near("heading", q.heading, i(24, 4) / 1e5) }
        PacketRef::NavPvt(r) => {
            let q = Position::from(r);
            near("pvt lon", q.lon, i(24, 4) / 1e7)?; near("pvt lat", q.lat, i(28, 4) / 1e7)?; near("pvt alt", q.alt, i(36, 4) / 1e3)?;
            let v = Velocity::from(r);
            near("pvt speed", v.speed, int(p, 60, 4, false) as f64 / 1e3)?; near("pvt heading", v.heading, i(64, 4) / 1e5)?;
            let (y, mo, d, h, mi, s, ns) = (int(p, 4, 2, false) as i64, p[6] as i64, p[7] as i64, p[8] as i64, p[9] as i64, p[10] as i64, int(p, 16, 4, true) as i64);
            let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
            let want = if mo < 1 || mo > 12 || d < 1 || d > [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(mo as usize + 11) % 12] { "InvalidDate".to_string() }
                else if h > 23 || mi > 59 || s > 59 { "InvalidTime".into() }
                else if ns.abs() >= 1_000_000_000 { "InvalidNanoseconds".into() }
                else { let t = (days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s) as i128 * 1_000_000_000 + ns as i128; format!("{}", t) };
            let got = match guard(|| chrono::DateTime::<chrono::Utc>::try_from(r)) {
                Err(x) => return e("time-panic", x),
                Ok(Ok(t)) => format!("{}", t.timestamp() as i128 * 1_000_000_000 + t.timestamp_subsec_nanos() as i128),
                Ok(Err(x)) => format!("{:?}", x),
            };
            cks("time", got, want)
        }
        _ => Ok(()),
    }
}
// ------------------------------------------------------------------ building
fn build_case(prop: &str, g: &mut Rng, i: u64) -> Case {
    let k = (i % BUILDERS.len() as u64) as usize;
    let b = &BUILDERS[if prop == "C16" { *g.pick(&BUILDERS.iter().enumerate().filter(|b| ["CfgTp5", "CfgTmode2", "CfgTmode3", "CfgNav5"].contains(&b.1.name)).map(|b| b.0).collect::<Vec<_>>()) } else { k }];
    let v: Vec<String> = (0..b.fields).map(|_| format!("{:x}", g.raw(64))).collect();
    format!("build {} {} {}", b.name, g.below(12), v.join(","))
}
fn build_check(prop: &str, name: &str, at: usize, v: &[u64]) -> Out {
    let b = BUILDERS.iter().find(|b| b.name == name).unwrap();
    let mut w = FW::new(at / 2, at % 2 == 0);
    let f = (b.forms)(v, &mut w);
    let fr = &f.bytes;
    if prop == "C11" {
        ckb("into array", &f.array, fr)?;
        if !f.stream_ok { return e("stream", "streaming to a vector fails".into()); }
        ckb("prior content", &f.stream[..3], &[0xb5, 0x62, 1])?;
        ckb("streamed", &f.stream[3..], fr)?;
        match (&f.fw, w.failed) {
            (Ok(()), false) => ckb("streamed to a writer", &w.buf, fr)?,
            (Ok(()), true) => return e("writer", format!("the error of call {} is swallowed", w.at)),
            (Err(_), false) => return e("writer", "an error without a failing call".into()),
            (Err(MemWriterError::Custom(c)), true) => { if !w.custom || *c != 7700 + w.at as u32 { return e("writer", "another error than the writer's".into()); } }
            (Err(MemWriterError::NotEnoughMem), true) => { if w.custom { return e("writer", "another error than the writer's".into()); } }
        }
        if w.after > 0 { return e("writer", format!("{} calls after the failure of call {}", w.after, w.at)); }
        if !fr.starts_with(&w.buf) { return e("writer", "the bytes before the failure are not the beginning of the frame".into()); }
        return Ok(format!("{} failing={}", name, w.failed));
    }
    ck("frame length", fr.len() as i128, b.len as i128 + 8)?;
    let (a, c) = fletcher(&fr[2..fr.len() - 2]);
    if prop == "C10" {
        ckb("header", &fr[..6], &[0xb5, 0x62, b.class, b.id, b.len as u8, (b.len >> 8) as u8])?;
        ckb("checksum", &fr[fr.len() - 2..], &[a, c])?;
    }
    let p = &fr[6..fr.len() - 2];
    let mut scaled = false;
    for x in &f.exp {
        if prop == "C16" && !x.is_scaled() { continue; }
        if prop == "C12" && !b.recv { continue; }
        scaled |= x.is_scaled();
        x.check(p)?;
    }
    if prop == "C12" {
        parse_one(fr, &mut |pk| {
            let (n2, c2, d2, bytes) = match info::info(pk) { Some(x) => x, None => return e("dispatch", "a message that is not in the table".into()) };
            ckb("payload", bytes, p)?;
            ck("class", c2 as i128, b.class as i128)?;
            ck("id", d2 as i128, b.id as i128)?;
            if b.recv { if n2 != name { return e("dispatch", format!("a built {} is parsed as {}", name, n2)); } }
            read(pk, p)
        })?;
    }
    Ok(if prop == "C16" && !scaled { "trivial".into() } else { name.to_string() })
}
// ------------------------------------------------------------------ requests
fn misc_check(a: u8, b: u8, r: u8, rs: [u8; 6]) -> Out {
    let want = frame(a, b, &[]);
    ckb("request_for_unknown", &UbxPacketRequest::request_for_unknown(a, b).into_packet_bytes(), &want)?;
    for (n, c, d, f) in requests() { ckb(&format!("request_for {}", n), &f, &frame(c, d, &[]))?; }
    let ids: std::collections::BTreeMap<&str, (u8, u8)> = requests().iter().map(|x| (x.0, (x.1, x.2))).collect();
    parse_one(&frame(5, 1, &[a, b]), &mut |pk| match pk {
        PacketRef::AckAck(x) => { for (n, m) in acks(x) { if m != (ids[n] == (a, b)) { return e("is_ack_for", format!("{} for class {:#x} id {:#x}: {}", n, a, b, m)); } } Ok(()) }
        _ => e("ack", "not an acknowledgement".into()),
    })?;
    parse_one(&frame(5, 0, &[a, b]), &mut |pk| match pk {
        PacketRef::AckNak(x) => { for (n, m) in naks(x) { if m != (ids[n] == (a, b)) { return e("is_nak_for", format!("{} for class {:#x} id {:#x}: {}", n, a, b, m)); } } Ok(()) }
        _ => e("nak", "not a rejection".into()),
    })?;
    for (n, c, d, one, all) in rates(r, rs) {
        ckb(&format!("set_rate_for {} (current port)", n), &one, &frame(6, 1, &[c, d, r]))?;
        let mut p = vec![c, d];
        p.extend_from_slice(&rs);
        ckb(&format!("set_rate_for {} (all ports)", n), &all, &frame(6, 1, &p))?;
    }
    Ok(if ids.values().any(|x| *x == (a, b)) { "known".into() } else { "other".into() })
}

// ------------------------------------------------------------------ aiding start values (C19)
fn aid_case(g: &mut Rng) -> Case {
    let mut f = || -> f64 { match g.below(8) { 0 => f64::from_bits(g.next()), 1 => *g.pick(&[0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 214.7483647, -214.7483648, 214.7483648, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 21474836.47]), 2 => g.next() as i32 as f64 / 1e7, _ => (g.next() as i64 as f64) / 2f64.powi(63) * 180.0 } };
    let (a, b, c) = (f(), f(), f());
    let y = 2000 + g.below(100);
    let m = 1 + g.below(12);
    let d = 1 + match g.below(4) { 0 => 0, 1 => 27, _ => g.below(28) };
    let n = match g.below(4) { 0 => 0, 1 => 999_999_999, _ => g.below(1_000_000_000) };
    format!("aid {:x} {:x} {:x} {} {} {} {} {} {} {} {:x}", a.to_bits(), b.to_bits(), c.to_bits(), y, m, d, g.below(24), g.below(60), g.below(60), n, g.next() as u32)
}
fn aid_check(t: &[String]) -> Out {
    use chrono::TimeZone;
    let x = |i: usize| -> u64 { u64::from_str_radix(&t[i], 16).unwrap() };
    let v = |i: usize| -> u32 { t[i].parse().unwrap() };
    let (lat, lon, alt) = (f64::from_bits(x(1)), f64::from_bits(x(2)), f64::from_bits(x(3)));
    let k = x(11) as u32;
    let mut b = AidIniBuilder::default();
    b.flags = k & 0x9c; b.pos_accuracy = k; b.time_cfg = (k >> 3) as u16; b.tm_accuracy_ms = k >> 1; b.tm_accuracy_ns = k >> 2; b.clk_drift_or_freq = k as i32; b.clk_drift_or_freq_accuracy = k >> 5;
    let mut want = [0u8; 48];
    let mut put = |o: usize, n: usize, w: u64| for i in 0..n { want[o + i] = (w >> (8 * i)) as u8; };
    put(12, 4, k as u64); put(16, 2, (k >> 3) as u64); put(28, 4, (k >> 1) as u64); put(32, 4, (k >> 2) as u64); put(36, 4, k as u64); put(40, 4, (k >> 5) as u64); put(44, 4, (k & 0x9c) as u64);
    let mut flags = k & 0x9c;
    let (pos, tim) = (k & 0x1000 == 0, k & 0x2000 == 0);
    if pos { b = guard(|| b.set_position(Position { lat, lon, alt })).map_err(|m| ("panic".to_string(), m))?; flags |= 0x21; }
    if tim {
        let d = match chrono::NaiveDate::from_ymd_opt(v(4) as i32, v(5), v(6)).and_then(|d| d.and_hms_nano_opt(v(7), v(8), v(9), v(10))) { Some(d) => d, None => return Ok("trivial".into()) };
        b = guard(|| b.set_time(chrono::Utc.from_utc_datetime(&d))).map_err(|m| ("panic".to_string(), m))?;
        flags |= 0x402;
        put(18, 2, ((v(4) - 2000) * 100 + v(5)) as u64);
        put(20, 4, (v(6) * 1_000_000 + v(7) * 10_000 + v(8) * 100 + v(9)) as u64);
        put(24, 4, v(10) as u64);
    }
    put(44, 4, flags as u64);
    let got = b.into_packet_bytes();
    let p = &got[6..54];
    if pos {
        for (o, w, n) in [(0, lat * 1e7, "latitude"), (4, lon * 1e7, "longitude"), (8, alt * 100.0, "height")] {
            let s = i32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]]);
            let ok = if w >= 2147483647.0 { s == i32::MAX } else if w <= -2147483648.0 { s == i32::MIN } else { w.is_nan() || (s as f64 - w).abs() < 1.0 };
            if !ok { return e("aid", format!("{} {} units is stored as {}", n, w, s)); }
        }
    }
    ckb("aiding start values behind the position", &p[12..], &want[12..])?;
    Ok(format!("aid{}{}", if pos { " position" } else { "" }, if tim { " time" } else { "" }))
}

fn main() {
    let a = args();
    let prop = a.prop.clone();
    let thorough = a.tier == "thorough";
    let n: u64 = match prop.as_str() { "C20" => 6_000, "C19" | "C18" => 400_000, "C09" => 500_000, _ => 1_000_000 };
    let (p1, p2) = (prop.clone(), prop.clone());
    Runner { args: a }.run(
        n * if thorough { 8 } else { 1 },
        move |g, i| match p1.as_str() {
            "C10" | "C11" | "C12" | "C16" => build_case(&p1, g, i),
            "C17" if i == 0 => "codes".into(),
            "C19" if i % 16 == 7 => aid_case(g),
            "C17" | "C18" if g.chance(1, 4) => build_case(&p1, g, g.clone().next()),
            "C20" => {
                let (mut c, mut d) = (g.byte(), g.byte());
                if g.chance(2, 3) { let k = g.pick(info::KNOWN); c = k.1; d = k.2; }
                if g.chance(1, 4) { c = 6; d = g.byte(); }
                format!("misc {} {} {} {}", c, d, g.byte(), hex(&g.bytes(6)))
            }
            _ => read_case(&p1, g, i),
        },
        move |c| {
            let t = split(c);
            match t[0].as_str() {
                "aid" => aid_check(&t),
                "codes" => { codes()?; Ok("codes".into()) }
                "dispatch" => dispatch(t[1].parse().unwrap(), t[2].parse().unwrap(), &unhex(t.get(3).map_or("", |x| x))),
                "read" => read_check(&p2, &t[1], &unhex(t.get(2).map_or("", |x| x))),
                "build" => {
                    let v: Vec<u64> = t.get(3).map_or("", |x| x).split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                    build_check(if p2 == "C17" || p2 == "C18" { "C10" } else { &p2 }, &t[1], t[2].parse().unwrap(), &v)
                }
                "misc" => { let r = unhex(&t[4]); misc_check(t[1].parse().unwrap(), t[2].parse().unwrap(), t[3].parse().unwrap(), [r[0], r[1], r[2], r[3], r[4], r[5]]) }
                _ => e("case", "unknown case".into()),
            }
        },
    )
}
