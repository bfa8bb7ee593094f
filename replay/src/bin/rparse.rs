//! Replay for the parser properties C01-C06: the real parser against the
//! reference in lib.rs, on structured random streams, chunkings and capacities.
use replay::info::{info, KNOWN};
use replay::*;
use ublox::{FixedLinearBuffer, Parser, ParserError, ParserIter, UbxPacketRequest, UnderlyingBuffer};

// ------------------------------------------------------------------ cases
/// stream, chunk lengths, per-chunk limit of reports (usize::MAX: until the end), capacity (0: growable)
#[derive(Clone, Debug)]
struct Case { stream: Vec<u8>, cuts: Vec<usize>, stops: Vec<usize>, cap: usize, pre: usize }
fn enc(c: &Case) -> String {
    let j = |v: &Vec<usize>| v.iter().map(|x| if *x == usize::MAX { "-".to_string() } else { x.to_string() }).collect::<Vec<_>>().join(",");
    format!("stream={} cuts={} stops={} cap={} pre={}", hex(&c.stream), j(&c.cuts), j(&c.stops), c.cap, c.pre)
}
fn dec(s: &str) -> Case {
    let get = |k: &str| s.split(' ').find_map(|p| p.strip_prefix(&format!("{}=", k))).unwrap().to_string();
    let j = |s: String| s.split(',').filter(|x| !x.is_empty()).map(|x| if x == "-" { usize::MAX } else { x.parse().unwrap() }).collect::<Vec<usize>>();
    Case { stream: unhex(&get("stream")), cuts: j(get("cuts")), stops: j(get("stops")), cap: get("cap").parse().unwrap(), pre: get("pre").parse().unwrap() }
}
fn payload_len(r: &mut Rng, big: bool) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2..=6 => r.below(20),
        7 | 8 => r.below(100),
        9 => r.pick(KNOWN).3,
        10 => 245 + r.below(20),
        _ => if big { *r.pick(&[8175, 8176, 8170, 4096, 1240, 772]) } else { r.below(300) },
    }
}
fn payload(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(5);
    (0..n).map(|_| match mode {
        0 => 0xb5,
        1 => *r.pick(&[0xb5, 0x62]),
        2 => *r.pick(&[0xb5, 0x62, 0, 1, 2, 255, 8, 6]),
        3 => 255,
        _ => r.byte(),
    }).collect()
}
fn class_id(r: &mut Rng) -> (u8, u8) {
    match r.below(4) {
        0 => (r.byte(), r.byte()),
        1 => (0xb5, 0x62),
        _ => { let k = r.pick(KNOWN); (k.1, k.2) }
    }
}
/// `tight`: announced frames stay within `cap`
fn stream(r: &mut Rng, cap: usize, fits: bool, big: bool) -> Vec<u8> {
    let mut s = Vec::new();
    let pieces = 1 + r.below(if big { 5 } else { 9 });
    for _ in 0..pieces {
        match r.below(14) {
            0 | 1 => { let n = r.below(12); s.extend(payload(r, n)); }
            2 => s.push(0xb5),
            3 => s.extend([0xb5, 0xb5, 0x62]),
            4 => {
                // a header that announces a lot
                let (c, i) = class_id(r);
                let n: usize = *r.pick(&[8176, 8177, 65535, 8192, 9000, 300, 40]);
                s.extend([0xb5, 0x62, c, i, n as u8, (n >> 8) as u8]);
            }
            5 => {
                // a damaged frame
                let (c, i) = class_id(r);
                let n = payload_len(r, false);
                let p = payload(r, n);
                let mut f = frame(c, i, &p);
                let k = r.below(f.len());
                f[k] ^= 1 << r.below(8);
                s.extend(f);
            }
            6 => {
                // a truncated frame
                let (c, i) = class_id(r);
                let n = payload_len(r, false);
                let p = payload(r, n);
                let f = frame(c, i, &p);
                let k = r.below(f.len());
                s.extend(&f[..k]);
            }
            7 => {
                // a frame around a frame
                let (c, i) = class_id(r);
                let n = r.below(10);
                let q = payload(r, n);
                let inner = frame(c, i, &q);
                let mut p = { let k = r.below(4); payload(r, k) };
                p.extend(inner);
                let mut f = frame(i, c, &p);
                if r.chance(1, 2) { let k = f.len() - 1 - r.below(2); f[k] ^= 0x40; }
                s.extend(f);
            }
            8 if cap > 8 => {
                // a frame around the capacity
                let (c, i) = class_id(r);
                let n = (cap - 8 + 3).saturating_sub(r.below(7)).min(8176);
                let p = payload(r, n);
                s.extend(frame(c, i, &p));
            }
            _ => {
                let (c, i) = class_id(r);
                let n = if r.chance(1, 4) {
                    let k = KNOWN.iter().filter(|k| (k.1, k.2) == (c, i)).next();
                    k.map(|k| k.3).unwrap_or(3)
                } else { payload_len(r, big) };
                let p = if fits && cap > 8 { let n = n.min(cap - 8); payload(r, n) } else { payload(r, n) };
                s.extend(frame(c, i, &p));
            }
        }
        if r.chance(1, 12) { let k = r.below(s.len() + 1); s.truncate(k); }
    }
    s
}
fn chunking(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    let mode = r.below(6);
    while left > 0 {
        let k = match mode {
            0 => left,
            1 => if n > 3000 { 1 + r.below(200) } else { 1 },
            2 => 1 + r.below(8),
            3 => 1 + r.below(40),
            4 => if r.chance(1, 3) { 0 } else { 1 + r.below(n.min(120)) },
            _ => 1 + r.below(left),
        }.min(left);
        v.push(k);
        left -= k;
    }
    if r.chance(1, 4) { v.push(0); }
    if v.is_empty() { v.push(0); }
    v
}

// ------------------------------------------------------------------ driving the real parser
fn observe(x: Result<ublox::PacketRef<'_>, ParserError>) -> Outcome {
    match x {
        Ok(p) => match info(&p) {
            Some((_, c, i, pl)) => Outcome::Frame { class: c, id: i, payload: pl.to_vec() },
            None => Outcome::Other("a packet of a message that is not known".into()),
        },
        Err(ParserError::InvalidChecksum { expect, got }) => Outcome::BadChecksum { expect, got },
        Err(ParserError::OutOfMemory { required_size }) => Outcome::OutOfMemory { required: required_size },
        Err(e) => Outcome::Other(format!("{:?}", e)),
    }
}
type Bad = (String, String);
fn bad(k: &str, w: String) -> Bad { (k.into(), w) }

struct Seen { outcomes: Vec<Outcome>, left: usize, oom: usize }
/// Drives the parser over the chunks; every report is compared with the framing rules.
fn drive<T: UnderlyingBuffer>(p: &mut Parser<T>, c: &Case, cap: usize) -> Result<Seen, Bad> {
    // bytes not consumed yet, by the reference; None: the fixed buffer lost bytes (early stop), no longer predictable
    let mut s: Option<Vec<u8>> = Some(c.stream[..c.pre].to_vec());
    let mut pos = c.pre;
    let mut out = Vec::new();
    let mut oom = 0;
    for (n, &k) in c.cuts.iter().enumerate() {
        let chunk = &c.stream[pos..pos + k];
        pos += k;
        if let Some(s) = &mut s { s.extend_from_slice(chunk); }
        let pending = p.buffer_len() + k;
        let stop = c.stops.get(n).copied().unwrap_or(usize::MAX);
        let mut it: ParserIter<T> = p.consume(chunk);
        let mut reports = 0;
        let mut ended = false;
        while reports < stop {
            let x = match it.next() { None => { ended = true; break }, Some(x) => observe(x) };
            reports += 1;
            if reports > pending { return Err(bad("progress", format!("chunk {}: {} reports from {} pending bytes", n, reports, pending))); }
            if let Outcome::OutOfMemory { required } = &x {
                oom += 1;
                if let Some(t) = &mut s {
                    let i = cand(t);
                    let plen = if t.len() >= i + 6 { t[i + 4] as usize + 256 * t[i + 5] as usize } else { usize::MAX / 4 };
                    if plen > MAX_PAYLOAD || plen + 8 <= cap { return Err(bad("oom", format!("chunk {}: out-of-memory reported although the frame fits {} bytes or there is none", n, cap))); }
                    if *required != plen + 2 { return Err(bad("oom-size", format!("chunk {}: out-of-memory report names {} instead of {}", n, required, plen + 2))); }
                    *t = t[i + 2..].to_vec();
                }
            } else if let Some(t) = &mut s {
                let (o, used) = step(t);
                match o {
                    Some(o) if o == x => { *t = t[used..].to_vec(); }
                    o => return Err(bad(match &x { Outcome::Frame { .. } => "frame", Outcome::BadChecksum { .. } => "checksum", _ => "other" },
                        format!("chunk {}, report {}: expected {:?}, observed {:?}", n, reports, o, x))),
                }
            }
            out.push(x);
        }
        if ended {
            if let Some(t) = &mut s {
                let (o, used) = step(t);
                if let Some(o) = o { return Err(bad("missed", format!("chunk {}: nothing reported, expected {:?}", n, o))); }
                *t = t[used..].to_vec();
            }
        }
        drop(it);
        if p.buffer_len() > cap { return Err(bad("pending", format!("{} bytes pending in a buffer of {}", p.buffer_len(), cap))); }
        if p.is_buffer_empty() != (p.buffer_len() == 0) { return Err(bad("pending", "is_buffer_empty disagrees with buffer_len".into())); }
        let keep = p.buffer_len();
        if let Some(t) = &mut s {
            if ended && cap >= 5 {
                // nothing may be lost; garbage in front of the next candidate may be dropped or kept
                if keep < t.len() { return Err(bad("lost", format!("chunk {}: {} undecided bytes, only {} pending", n, t.len(), keep))); }
                if cap == usize::MAX && !t.is_empty() && keep != t.len() { return Err(bad("pending", format!("chunk {}: {} undecided bytes, {} pending", n, t.len(), keep))); }
            } else if t.len() > cap || cap < 5 {
                s = None; // the caller stopped early and the fixed buffer cannot hold the rest
            }
        }
    }
    Ok(Seen { outcomes: out, left: p.buffer_len(), oom })
}
fn with_cap<R>(cap: usize, pre: &[u8], f: impl FnOnce(&mut dyn Drv) -> Result<R, Bad>) -> Result<R, Bad> {
    if cap == 0 {
        let mut p = Parser::new(pre.to_vec());
        f(&mut p)
    } else {
        let mut mem = vec![0xa5u8; cap + 64];
        let r = {
            let (_, rest) = mem.split_at_mut(32);
            let (m, _) = rest.split_at_mut(cap);
            let mut b = FixedLinearBuffer::new(m);
            b.extend_from_slice(pre);
            let mut p = Parser::new(b);
            f(&mut p)
        };
        if mem[..32].iter().any(|x| *x != 0xa5) || mem[32 + cap..].iter().any(|x| *x != 0xa5) { return Err(bad("memory", "memory outside the buffer was changed".into())); }
        r
    }
}
trait Drv { fn go(&mut self, c: &Case) -> Result<Seen, Bad>; }
impl Drv for Parser<Vec<u8>> { fn go(&mut self, c: &Case) -> Result<Seen, Bad> { drive(self, c, usize::MAX) } }
impl<'a> Drv for Parser<FixedLinearBuffer<'a>> { fn go(&mut self, c: &Case) -> Result<Seen, Bad> { drive(self, c, c.cap) } }
fn execute(c: &Case) -> Result<Seen, Bad> { with_cap(c.cap, &c.stream[..c.pre], |d| d.go(c)) }

fn classify(s: &Seen) -> String {
    let f = s.outcomes.iter().filter(|o| matches!(o, Outcome::Frame { .. })).count();
    let b = s.outcomes.iter().filter(|o| matches!(o, Outcome::BadChecksum { .. })).count();
    if s.outcomes.is_empty() && s.left == 0 { return "trivial".into(); }
    let m = |x: usize| match x { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "5+" };
    format!("frames {} bad {} oom {} left {}", m(f), m(b), m(s.oom), if s.left == 0 { "0" } else { ">0" })
}

// ------------------------------------------------------------------ C05: the buffers as queues
fn queue_case(text: &str) -> Result<String, Bad> {
    // ops as numbers: seed cap count
    let v: Vec<u64> = text.split(' ').map(|x| x.parse().unwrap()).collect();
    let (seed, cap, n) = (v[0], v[1] as usize, v[2]);
    let mut r = Rng::new(seed);
    if cap == 0 {
        let mut b: Vec<u8> = Vec::new();
        queue_run(&mut b, usize::MAX, n, &mut r)
    } else {
        let mut mem = vec![0xa5u8; cap + 64];
        let res = {
            let (_, rest) = mem.split_at_mut(32);
            let (m, _) = rest.split_at_mut(cap);
            let mut b = FixedLinearBuffer::new(m);
            queue_run(&mut b, cap, n, &mut r)
        };
        if mem[..32].iter().any(|x| *x != 0xa5) || mem[32 + cap..].iter().any(|x| *x != 0xa5) { return Err(bad("memory", "memory outside the buffer was changed".into())); }
        res
    }
}
fn queue_run<T: UnderlyingBuffer>(b: &mut T, cap: usize, n: u64, r: &mut Rng) -> Result<String, Bad> {
    let mut q: Vec<u8> = Vec::new();
    let mut trace = String::new();
    let mut full = false;
    if b.max_capacity() != cap { return Err(bad("capacity", format!("max_capacity is {} instead of {}", b.max_capacity(), cap))); }
    for _ in 0..n {
        match r.below(8) {
            0 | 1 | 2 => {
                let k = match r.below(4) { 0 => 0, 1 => r.below(5), 2 => r.below(20), _ => (cap.min(60)).saturating_sub(q.len()) + r.below(3) };
                let d: Vec<u8> = (0..k).map(|_| r.byte() % 7).collect();
                trace += &format!(" extend({})", k);
                let fit = (cap - q.len()).min(k);
                q.extend(&d[..fit]);
                if fit < k { full = true; }
                let got = b.extend_from_slice(&d);
                if got != k - fit { return Err(bad("extend", format!("{}: returned {} instead of {}", trace, got, k - fit))); }
            }
            3 | 4 => {
                let k = match r.below(4) { 0 => q.len(), 1 => 0, _ => r.below(q.len() + 1) };
                trace += &format!(" drain({})", k);
                q.drain(..k);
                b.drain(k);
            }
            5 if r.chance(1, 6) => { trace += " clear"; q.clear(); b.clear(); }
            _ => {
                let x = r.byte() % 8;
                let (g, e) = (b.find(x), q.iter().position(|y| *y == x));
                if g != e { return Err(bad("find", format!("{}: find({}) = {:?} instead of {:?}", trace, x, g, e))); }
            }
        }
        if b.len() != q.len() { return Err(bad("len", format!("{}: length {} instead of {}", trace, b.len(), q.len()))); }
        if b.is_empty() != q.is_empty() { return Err(bad("len", format!("{}: is_empty wrong", trace))); }
        if b.max_capacity() != cap { return Err(bad("capacity", format!("{}: max_capacity is {}", trace, b.max_capacity()))); }
        for (i, x) in q.iter().enumerate() {
            if b[i] != *x { return Err(bad("index", format!("{}: element {} is {} instead of {}", trace, i, b[i], x))); }
        }
        let (x, y) = (r.below(q.len() + 1), r.below(q.len() + 1));
        let (x, y) = (x.min(y), x.max(y));
        if b[x..y] != q[x..y] { return Err(bad("range", format!("{}: range {}..{} is wrong", trace, x, y))); }
        if b[0..q.len()] != q[..] { return Err(bad("range", format!("{}: the whole range is wrong", trace))); }
    }
    Ok(format!("{} {}", if cap == usize::MAX { "growable" } else { "fixed" }, if full { "overfull" } else { "fits" }))
}

// ------------------------------------------------------------------ C06
fn checksum_case(text: &str) -> Result<String, Bad> {
    let v: Vec<u64> = text.split(' ').map(|x| x.parse().unwrap()).collect();
    match v[0] {
        0 => {
            // all ids of one class
            let c = v[1] as u8;
            for i in 0..=255u8 {
                let b = UbxPacketRequest::request_for_unknown(c, i).into_packet_bytes();
                if b[..] != frame(c, i, &[])[..] { return Err(bad("poll", format!("poll request for {:#x} {:#x} is {}", c, i, hex(&b)))); }
            }
            Ok("poll requests".into())
        }
        1 => {
            let mut r = Rng::new(v[1]);
            let (c, i) = class_id(&mut r);
            let n = payload_len(&mut r, v[2] == 1);
            let p = payload(&mut r, n);
            let good = frame(c, i, &p);
            let cuts = chunking(&mut r, good.len());
            let case = |f: &Vec<u8>| Case { stream: f.clone(), cuts: cuts.clone(), stops: vec![], cap: 0, pre: 0 };
            let s = execute(&case(&good))?;
            if s.outcomes.first() != Some(&Outcome::Frame { class: c, id: i, payload: p.clone() }) { return Err(bad("reject", format!("a frame with a correct checksum was not accepted: {}", hex(&good)))); }
            // alter one byte of class, id or payload
            let k = match r.below(4) { 0 => 2, 1 => 3, _ => if n == 0 { 2 } else { 6 + r.below(n) } };
            let mut f = good.clone();
            let d = if r.chance(1, 2) { 1 << r.below(8) } else { 1 + (r.byte() % 255) };
            f[k] ^= d;
            let s = execute(&case(&f))?;
            let want = Outcome::Frame { class: f[2], id: f[3], payload: f[6..n + 6].to_vec() };
            if s.outcomes.contains(&want) { return Err(bad("accept", format!("a frame with an altered byte was accepted: {}", hex(&f)))); }
            // any other checksum is refused
            let mut f = good.clone();
            let k = f.len() - 1 - r.below(2);
            f[k] ^= d;
            let s = execute(&case(&f))?;
            if s.outcomes.contains(&Outcome::Frame { class: c, id: i, payload: p }) { return Err(bad("accept", format!("a frame with a wrong checksum was accepted: {}", hex(&f)))); }
            Ok(format!("frames of {} bytes", match n { 0 => "0", 1..=31 => "1-31", 32..=255 => "32-255", _ => "256+" }))
        }
        _ => {
            // the checksum of a built frame of variable length
            let mut r = Rng::new(v[1]);
            let n = r.below(200);
            let items: Vec<ublox::cfg_val::CfgVal> = (0..n).map(|_| ublox::cfg_val::CfgVal::Uart1Baudrate(r.next() as u32)).collect();
            let b = ublox::CfgValSetBuilder { version: r.byte(), layers: ublox::CfgLayer::RAM, reserved1: r.next() as u16, cfg_data: &items }.into_packet_vec();
            let k = b.len();
            if k < 8 || fletcher(&b[2..k - 2]) != (b[k - 2], b[k - 1]) { return Err(bad("built", format!("the checksum of a built frame is wrong: {}", hex(&b)))); }
            Ok("built frames".into())
        }
    }
}

fn main() {
    let a = args();
    let thorough = a.tier == "thorough";
    let prop = a.prop.clone();
    let scale = if thorough { 25 } else { 1 };
    let rn = Runner { args: a };
    match prop.as_str() {
        "C05" => rn.run(400_000 * scale,
            |r, _| { let cap = match r.below(3) { 0 => 0, 1 => 1 + r.below(12), _ => 1 + r.below(80) }; format!("{} {} {}", r.next(), cap, 1 + r.below(40)) },
            queue_case),
        "C06" => rn.run(200_000 * scale,
            |r, i| if i < 256 { format!("0 {}", i) } else if i % 50 == 0 { format!("2 {} 0", r.next()) } else { format!("1 {} {}", r.next(), (i % 40 == 0) as u8) },
            checksum_case),
        _ => {
            let p1 = prop.clone();
            let p2 = prop.clone();
            rn.run(if prop == "C02" { 400_000 } else { 600_000 } * scale,
                move |r, i| {
                    let big = i % 50 == 0;
                    let (cap, fits) = match p1.as_str() {
                        "C03" => (if r.chance(1, 8) { *r.pick(&[8184, 8183, 1300]) } else if r.chance(1, 4) { 5 + r.below(8) } else { 8 + r.below(80) }, r.chance(2, 3)),
                        "C04" => (match r.below(4) { 0 => 0, 1 => 1 + r.below(9), _ => 8 + r.below(60) }, false),
                        _ => (0, false),
                    };
                    let s = stream(r, cap, fits, big);
                    let early = match p1.as_str() { "C01" => 0, "C03" => r.below(2) * r.below(2), _ => r.below(2) };
                    let pre = if r.chance(1, 10) { r.below(s.len() + 1).min(if cap == 0 { 40 } else { cap }) } else { 0 };
                    let cuts = if p1 == "C01" && r.chance(1, 2) { vec![s.len() - pre] } else { chunking(r, s.len() - pre) };
                    let stops = cuts.iter().map(|_| if early == 1 && r.chance(1, 2) { r.below(3) } else { usize::MAX }).collect();
                    enc(&Case { stream: s, cuts, stops, cap, pre })
                },
                move |t| {
                    let c = dec(t);
                    let x = execute(&c)?;
                    if p2 == "C02" {
                        // finish what is left with an endless last round, then compare with one chunk
                        let mut c1 = c.clone();
                        c1.cuts.push(0);
                        c1.stops.resize(c1.cuts.len(), usize::MAX);
                        let x1 = execute(&c1)?;
                        let one = Case { stream: c.stream.clone(), cuts: vec![c.stream.len() - c.pre], stops: vec![], cap: c.cap, pre: c.pre };
                        let y = execute(&one)?;
                        if x1.outcomes != y.outcomes { return Err(bad("chunking", format!("in chunks: {:?}; at once: {:?}", x1.outcomes, y.outcomes))); }
                    }
                    if p2 == "C03" && largest_announced(&c.stream) <= c.cap && c.stops.iter().all(|s| *s == usize::MAX) {
                        let mut g = c.clone();
                        g.cap = 0;
                        let y = execute(&g)?;
                        if x.outcomes != y.outcomes { return Err(bad("fixed", format!("fixed: {:?}; growable: {:?}", x.outcomes, y.outcomes))); }
                        return Ok(format!("fits; {}", classify(&x)));
                    }
                    Ok(classify(&x))
                })
        }
    }
}
