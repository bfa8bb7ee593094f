//! Shared parts of the replay programs: a deterministic generator of random
//! values, an independent reference for the UBX framing rules, and reporting.
pub mod cfgitems;
pub mod info;
#[allow(non_snake_case)]
pub mod pkh;
pub mod cases;
pub mod pk;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ random
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
    /// An integer of `bits` bits, extremes and powers of two preferred.
    pub fn raw(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(10) {
            0 => 0,
            1 => m,
            2 => 1u64 << (bits - 1),
            3 => (1u64 << (bits - 1)) - 1,
            4 => 1u64 << self.below(bits as usize),
            5 => self.next() % 16,
            6 => m - self.next() % 16,
            _ => self.next(),
        };
        v & m
    }
}

// ------------------------------------------------------------------ reference
pub const MAX_PAYLOAD: usize = 8176;
pub fn fletcher(data: &[u8]) -> (u8, u8) {
    // the definition, with unbounded arithmetic
    let mut a: u64 = 0;
    let mut b: u64 = 0;
    for x in data {
        a = (a + *x as u64) % 256;
        b = (b + a) % 256;
    }
    (a as u8, b as u8)
}
pub fn frame(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, payload.len() as u8, (payload.len() >> 8) as u8];
    v.extend_from_slice(payload);
    let (a, b) = fletcher(&v[2..]);
    v.push(a);
    v.push(b);
    v
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Outcome {
    Frame { class: u8, id: u8, payload: Vec<u8> },
    BadChecksum { expect: u16, got: u16 },
    OutOfMemory { required: usize },
    Other(String),
}
/// Position of the next candidate header in `s`.
pub fn cand(s: &[u8]) -> usize {
    let mut i = 0;
    while i < s.len() {
        if s[i] != 0xb5 { i += 1; continue; }
        if s.len() - i < 2 { return i; }
        if s[i + 1] != 0x62 { i += 1; continue; }
        if s.len() - i < 6 { return i; }
        if (s[i + 4] as usize) + 256 * (s[i + 5] as usize) > MAX_PAYLOAD { i += 2; continue; }
        return i;
    }
    i
}
/// One step of the framing rules: what is reported and how many bytes are consumed.
pub fn step(s: &[u8]) -> (Option<Outcome>, usize) {
    let i = cand(s);
    let c = &s[i..];
    if c.len() < 6 { return (None, i); }
    let n = (c[4] as usize) + 256 * (c[5] as usize);
    if c.len() < n + 8 { return (None, i); }
    let (a, b) = fletcher(&c[2..n + 6]);
    if (a, b) != (c[n + 6], c[n + 7]) {
        let o = Outcome::BadChecksum { expect: u16::from(c[n + 6]) + 256 * u16::from(c[n + 7]), got: u16::from(a) + 256 * u16::from(b) };
        return (Some(o), i + 2);
    }
    (Some(Outcome::Frame { class: c[2], id: c[3], payload: c[6..n + 6].to_vec() }), i + n + 8)
}
/// Everything the framing rules report on `s`, and what is left undecided.
pub fn run(s: &[u8]) -> (Vec<Outcome>, Vec<u8>) {
    let mut v = Vec::new();
    let mut p = 0;
    loop {
        let (o, k) = step(&s[p..]);
        p += k;
        match o { Some(o) => v.push(o), None => return (v, s[p..].to_vec()) }
    }
}
/// Largest announced frame of the stream (payload plus 8), complete or not.
pub fn largest_announced(s: &[u8]) -> usize {
    let mut p = 0;
    let mut m = 0;
    loop {
        let c = p + cand(&s[p..]);
        if s.len() - c >= 6 { m = m.max(8 + s[c + 4] as usize + 256 * s[c + 5] as usize); }
        let (o, k) = step(&s[p..]);
        p += k;
        if o.is_none() { return m; }
    }
}

// ------------------------------------------------------------------ reporting
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.trim().bytes().collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
pub fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// A failing case, written out so that it can be replayed.
#[derive(Clone, Debug)]
pub struct Failure { pub key: String, pub what: String, pub case: String }

pub struct Args { pub prop: String, pub seed: u64, pub tier: String, pub out: String, pub replay: Option<String>, pub cases: Option<u64> }
pub fn args() -> Args {
    let mut a = Args { prop: String::new(), seed: 1, tier: "quick".into(), out: ".".into(), replay: None, cases: None };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--prop" => a.prop = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--tier" => a.tier = v(),
            "--out" => a.out = v(),
            "--cases" => a.cases = Some(v().parse().unwrap()),
            "--replay" => a.replay = Some(std::fs::read_to_string(v()).unwrap()),
            _ => panic!("unknown argument {}", x),
        }
    }
    a
}
/// Runs `f` and turns a panic into an error.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() };
        format!("panicked: {}", m)
    })
}
pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o
}

pub type Case = String;
/// Work in eight threads. `make(rng)` produces a case in text form, `check(case)` decides it:
/// Ok(class of the case) or Err((key, description)).
pub struct Runner { pub args: Args }
impl Runner {
    pub fn run(
        &self,
        cases: u64,
        make: impl Fn(&mut Rng, u64) -> Case + Send + Sync + 'static,
        check: impl Fn(&str) -> Result<String, (String, String)> + Send + Sync + 'static,
    ) -> ! {
        quiet_panics();
        let a = &self.args;
        if let Some(t) = &a.replay {
            let case = t.lines().find_map(|l| l.strip_prefix("case: ")).expect("replay file without a case").to_string();
            std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); println!("REPRODUCED hang: did not finish in 60 s"); std::process::exit(1); });
            let res = match guard(|| check(&case)) { Ok(r) => r, Err(e) => Err(("panic".into(), e)) };
            match res {
                Ok(_) => { println!("NOT-REPRODUCED"); std::process::exit(0) }
                Err((k, w)) => { println!("REPRODUCED {}: {}", k, w); std::process::exit(1) }
            }
        }
        let cases = a.cases.unwrap_or(cases);
        let threads = 8u64;
        let done = Arc::new(AtomicBool::new(false));
        let fails: Arc<Mutex<Vec<Failure>>> = Arc::default();
        let current: Arc<Vec<Mutex<(u64, Case)>>> = Arc::new((0..threads).map(|_| Mutex::new((0, String::new()))).collect());
        let evals = Arc::new(AtomicU64::new(0));
        let seen: Arc<Mutex<std::collections::HashSet<u64>>> = Arc::default();
        let classes: Arc<Mutex<std::collections::BTreeMap<String, (u64, String)>>> = Arc::default();
        let make = Arc::new(make);
        let check = Arc::new(check);
        let seed = a.seed;
        let mut hs = Vec::new();
        for t in 0..threads {
            let (fails, current, evals, seen, classes, make, check) = (fails.clone(), current.clone(), evals.clone(), seen.clone(), classes.clone(), make.clone(), check.clone());
            hs.push(std::thread::spawn(move || {
                let mut i = t;
                let mut local_cls: std::collections::BTreeMap<String, (u64, String)> = Default::default();
                let mut local_seen: Vec<u64> = Vec::new();
                while i < cases {
                    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
                    let case = make(&mut rng, i);
                    *current[t as usize].lock().unwrap() = (i + 1, case.clone());
                    let r = match guard(|| check(&case)) { Ok(r) => r, Err(e) => Err(("panic".to_string(), e)) };
                    evals.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Ok(class) => {
                            if class != "trivial" { local_seen.push(hash(&case)); }
                            let e = local_cls.entry(class).or_insert_with(|| (0, case.clone()));
                            e.0 += 1;
                        }
                        Err((key, what)) => {
                            let mut f = fails.lock().unwrap();
                            if f.iter().filter(|x| x.key == key).count() < 1 && f.len() < 40 { f.push(Failure { key, what, case }); }
                        }
                    }
                    i += threads;
                }
                current[t as usize].lock().unwrap().0 = 0;
                seen.lock().unwrap().extend(local_seen);
                let mut c = classes.lock().unwrap();
                for (k, v) in local_cls { let e = c.entry(k).or_insert_with(|| (0, v.1.clone())); e.0 += v.0; }
            }));
        }
        // a case that does not end is a failure, too
        {
            let (fails, current, done, out, prop) = (fails.clone(), current.clone(), done.clone(), a.out.clone(), a.prop.clone());
            std::thread::spawn(move || {
                let mut last: Vec<(u64, u32)> = vec![(0, 0); threads as usize];
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    if done.load(Ordering::SeqCst) { return; }
                    for t in 0..threads as usize {
                        let c = current[t].lock().unwrap().clone();
                        if c.0 != 0 && c.0 == last[t].0 { last[t].1 += 1 } else { last[t] = (c.0, 0) }
                        if last[t].1 > 60 {
                            let f = Failure { key: "hang".into(), what: "did not finish in 30 s".into(), case: c.1 };
                            if let Ok(mut g) = fails.try_lock() { g.push(f.clone()); }
                            report(&prop, &out, &[f], 0, 0, &Default::default());
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        for h in hs { let _ = h.join(); }
        done.store(true, Ordering::SeqCst);
        let f = fails.lock().unwrap();
        let n = seen.lock().unwrap().len() as u64;
        report(&a.prop, &a.out, &f, evals.load(Ordering::SeqCst), n, &classes.lock().unwrap());
        std::process::exit(if f.is_empty() { 0 } else { 1 });
    }
}
fn report(prop: &str, out: &str, fails: &[Failure], evals: u64, distinct: u64, classes: &std::collections::BTreeMap<String, (u64, String)>) {
    let mut js = String::new();
    for (i, f) in fails.iter().enumerate() {
        let path = format!("{}/{}-{}.replay", out, prop, i);
        let _ = std::fs::write(&path, format!("property: {}\nkey: {}\nwhat: {}\ncase: {}\n", prop, f.key, f.what.replace('\n', " "), f.case));
        if i > 0 { js.push(','); }
        js += &format!("{{\"key\":\"{}\",\"what\":\"{}\",\"path\":\"{}\"}}", esc(&f.key), esc(&f.what.chars().take(1500).collect::<String>()), esc(&path));
    }
    let mut cs = String::new();
    for (i, (k, v)) in classes.iter().enumerate() {
        if i > 0 { cs.push(','); }
        cs += &format!("{{\"class\":\"{}\",\"count\":{},\"sample\":\"{}\"}}", esc(k), v.0, esc(&v.1.chars().take(300).collect::<String>()));
    }
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"failures\":[{}],\"classes\":[{}]}}", evals, distinct, js, cs);
}
