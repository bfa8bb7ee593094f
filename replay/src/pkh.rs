//! Helpers of the generated message table: comparing accessor values with the bytes, choosing field
//! values, and the independent meaning of the packed words.
use ublox::*;
pub type R = Result<(), (String, String)>;

pub fn int(p: &[u8], off: usize, w: usize, signed: bool) -> i128 {
    let mut v: i128 = 0;
    for k in 0..w { v += (p[off + k] as i128) << (8 * k); }
    if signed && v >= 1i128 << (8 * w - 1) { v -= 1i128 << (8 * w); }
    v
}
pub fn ck(k: &str, got: i128, want: i128) -> R { if got == want { Ok(()) } else { Err((k.into(), format!("{}: {} ({:#x}) instead of {} ({:#x})", k, got, got, want, want))) } }
pub fn ckf(k: &str, got: f64, want: f64, tol: f64) -> R {
    if (got.is_nan() && want.is_nan()) || got == want || (got - want).abs() <= want.abs() * tol { Ok(()) } else { Err((k.into(), format!("{}: {:?} instead of {:?}", k, got, want))) }
}
pub fn cks(k: &str, got: String, want: String) -> R { if got == want { Ok(()) } else { Err((k.into(), format!("{}: {} instead of {}", k, got, want))) } }
pub fn ckb(k: &str, got: &[u8], want: &[u8]) -> R { if got == want { Ok(()) } else { Err((k.into(), format!("{}: {} instead of {}", k, crate::hex(got), crate::hex(want)))) } }
pub fn probes(m: i128) -> Vec<i128> {
    let mut v = vec![0, m, m & 0x5555_5555, m & 0xaaaa_aaaa];
    let mut k = 1;
    while k <= m { v.push(k); v.push(m & !k); k <<= 1; }
    v
}

// ------------------------------------------------------------------ packed words
pub fn uart_ok(w: u32) -> bool { ((w >> 6) & 3) >= 2 && [0, 1, 4, 5].contains(&((w >> 9) & 7)) }
pub fn show_UartMode(m: &UartMode) -> String { format!("{:?}", m) }
pub fn want_UartMode(w: u32) -> String {
    let d = if (w >> 6) & 3 == 2 { "Seven" } else { "Eight" };
    let p = match (w >> 9) & 7 { 0 => "Even", 1 => "Odd", _ => "None" };
    let s = ["One", "OneHalf", "Two", "Half"][(w >> 12) as usize & 3];
    format!("UartMode {{ data_bits: {}, parity: {}, stop_bits: {} }}", d, p, s)
}
pub fn show_FixStatusInfo(x: &FixStatusInfo) -> String { format!("{} {:?}", x.has_pr_prr_correction(), x.map_matching()) }
pub fn want_FixStatusInfo(x: u8) -> String { format!("{} {}", x % 2 == 1, ["None", "Valid", "Used", "Dr"][x as usize / 64]) }
pub fn show_NavSatSvFlags(x: &NavSatSvFlags) -> String {
    format!("{:?} {} {:?} {} {} {:?} {:?}", x.quality_ind(), x.sv_used(), x.health(), x.differential_correction_available(), x.smoothed(), x.orbit_source(),
        [x.ephemeris_available(), x.almanac_available(), x.an_offline_available(), x.an_auto_available(), x.sbas_corr(), x.rtcm_corr(), x.slas_corr(), x.spartn_corr(), x.pr_corr(), x.cr_corr(), x.do_corr()])
}
pub fn want_NavSatSvFlags(x: u32) -> String {
    let b = |k: u32| (x >> k) % 2 == 1;
    let q = ["NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock"][(x % 8) as usize];
    let h = ["Unknown(0)", "Healthy", "Unhealthy", "Unknown(3)"][(x / 16 % 4) as usize];
    let o = ["NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline", "AssistNowAutonomous", "Other(5)", "Other(6)", "Other(7)"][(x / 256 % 8) as usize];
    format!("{} {} {} {} {} {} {:?}", q, b(3), h, b(6), b(7), o, [b(11), b(12), b(13), b(14), b(16), b(17), b(18), b(19), b(20), b(21), b(22)])
}
pub fn show_CfgItfmConfig(x: &CfgItfmConfig) -> String { format!("{:?}", x) }
pub fn want_CfgItfmConfig(x: u32) -> String {
    format!("CfgItfmConfig {{ enable: {}, bb_threshold: CfgItfmBbThreshold({}), cw_threshold: CfgItfmCwThreshold({}), algorithm_bits: CfgItfmAlgoBits({}) }}", x >= 1 << 31, x % 16, x / 16 % 32, x / 512 % (1 << 22))
}
pub fn show_CfgItfmConfig2(x: &CfgItfmConfig2) -> String { format!("{:?}", x) }
pub fn want_CfgItfmConfig2(x: u32) -> String {
    format!("CfgItfmConfig2 {{ general: CfgItfmGeneralBits({}), antenna: {}, scan_aux_bands: {} }}", x % 4096, ["Unknown", "Active", "Passive", "Unknown"][(x / 4096 % 4) as usize], x / 16384 % 2 == 1)
}
pub fn show_TimTpFlags(x: &TimTpFlags) -> String { format!("{:?} {} {:?} {}", x.time_base(), x.utc_available(), x.raim_active(), x.q_err_valid()) }
pub fn want_TimTpFlags(x: u8) -> String {
    format!("{} {} {} {}", if x % 2 == 0 { "Gnss" } else { "Utc" }, x / 2 % 2 == 1, ["None", "Some(false)", "Some(true)", "None"][(x / 4 % 4) as usize], x / 16 % 2 == 0)
}
pub fn show_TimTpRefInfo(x: &TimTpRefInfo) -> String { format!("{:?} {:?}", x.time_ref_gnss(), x.utc_standard()) }
pub fn want_TimTpRefInfo(x: u8) -> String {
    let g = match x % 16 { 0 => "Some(Gps)", 1 => "Some(Glo)", 2 => "Some(Bds)", 3 => "Some(Gal)", 4 => "Some(NavIc)", _ => "None" };
    let u = match x / 16 { 1 => "Some(Crl)", 2 => "Some(Nist)", 3 => "Some(Usno)", 4 => "Some(Bipm)", 5 => "Some(Eu)", 6 => "Some(Su)", 7 => "Some(Ntsc)", 8 => "Some(Npli)", _ => "None" };
    format!("{} {}", g, u)
}
pub fn show_TimTm2Flags(x: &TimTm2Flags) -> String {
    let m = match x.mode() { TimTm2Mode::Single => 0, TimTm2Mode::Running => 1 };
    let r = match x.run() { TimTm2Run::Armed => 0, TimTm2Run::Stopped => 1 };
    #[allow(unreachable_patterns)]
    let t = match x.time_base() { TimTm2TimeBase::Receiver => 0, TimTm2TimeBase::Gnss => 1, TimTm2TimeBase::Utc => 2, _ => 3 };
    format!("{} {} {} {} {} {} {}", m, r, x.new_falling_edge(), t, x.utc_available(), x.time_valid(), x.new_rising_edge())
}
pub fn want_TimTm2Flags(x: u8) -> String {
    let b = |k: u8| (x >> k) % 2 == 1;
    format!("{} {} {} {} {} {} {}", x % 2, x / 2 % 2, b(2), x / 8 % 4, b(5), b(6), b(7))
}
pub fn mk_CfgItfmConfig(v: u64) -> (CfgItfmConfig, i128) {
    if v % 3 == 0 {
        let r = (v >> 8) as u32;
        return (CfgItfmConfig::from(r), r as i128);
    }
    let (e, b, c) = (v % 2 == 1, (v >> 8) as u32 % 40, (v >> 40) as u32 % 80);
    (CfgItfmConfig::new(e, b, c), ((e as i128) << 31) + ((c as i128 % 32) << 4) + (b as i128 % 16) + (0x16b156 << 9))
}
pub fn mk_CfgItfmConfig2(v: u64) -> (CfgItfmConfig2, i128) {
    let a = [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive];
    if v % 3 == 0 {
        let r = (v >> 8) as u32;
        let ant = if r >> 12 & 3 == 3 { 0 } else { r >> 12 & 3 };
        return (CfgItfmConfig2::from(r), (r % 4096 + (ant << 12) + (r & 0x4000)) as i128);
    }
    let (k, x) = ((v >> 8) as usize % 3, v >> 20 & 1 == 1);
    (CfgItfmConfig2::new(a[k], x), 0x31e + ((k as i128) << 12) + ((x as i128) << 14))
}
pub fn mk_UartMode(v: u64) -> (UartMode, i128) {
    let (d, p, s) = (v % 2, v / 2 % 3, v / 6 % 4);
    let db = if d == 0 { DataBits::Seven } else { DataBits::Eight };
    let pa = match p { 0 => Parity::Even, 1 => Parity::Odd, _ => Parity::None };
    let sb = match s { 0 => StopBits::One, 1 => StopBits::OneHalf, 2 => StopBits::Two, _ => StopBits::Half };
    (UartMode::new(db, pa, sb), ((2 + d as i128) << 6) + ([0, 1, 4][p as usize] << 9) + ((s as i128) << 12))
}
pub fn mk_ResetMode(v: u64) -> (ResetMode, i128) {
    match v % 6 {
        0 => (ResetMode::HardwareResetImmediately, 0),
        1 => (ResetMode::ControlledSoftwareReset, 1),
        2 => (ResetMode::ControlledSoftwareResetGpsOnly, 2),
        3 => (ResetMode::HardwareResetAfterShutdown, 4),
        4 => (ResetMode::ControlledGpsStop, 8),
        _ => (ResetMode::ControlledGpsStart, 9),
    }
}
pub fn mk_AlignmentToReferenceTime(v: u64) -> (AlignmentToReferenceTime, i128) {
    use AlignmentToReferenceTime::*;
    match v % 5 { 0 => (Utc, 0), 1 => (Gps, 1), 2 => (Glo, 2), 3 => (Bds, 3), _ => (Gal, 4) }
}

// ------------------------------------------------------------------ variable-length messages
fn text(b: &[u8]) -> &[u8] { let n = b.iter().position(|x| *x == 0).unwrap(); &b[..n] }
fn is_text(b: &[u8]) -> bool { b.iter().position(|x| *x == 0).map_or(false, |n| std::str::from_utf8(&b[..n]).is_ok()) }
pub fn wf_Inf(_s: &[u8]) -> bool { true }
pub fn wf_NavSat(s: &[u8]) -> bool { s.len() >= 8 && (s.len() - 8) % 12 == 0 }
pub fn wf_MonVer(s: &[u8]) -> bool { s.len() >= 40 && (s.len() - 40) % 30 == 0 && is_text(&s[..30]) && is_text(&s[30..40]) && s[40..].chunks(30).all(is_text) }
fn esf(s: &[u8]) -> (usize, usize) { let f = int(s, 4, 2, false) as usize; (4 * (f / 0x800 % 32), if f / 8 % 2 == 1 { 4 } else { 0 }) }
pub fn wf_EsfMeas(s: &[u8]) -> bool { s.len() >= 8 && s.len() % 4 == 0 && s.len() >= 8 + esf(s).0 + esf(s).1 }
pub fn wf_EsfRaw(s: &[u8]) -> bool { s.len() >= 4 && (s.len() - 4) % 8 == 0 }
pub fn wf_RxmSfrbx(s: &[u8]) -> bool { s.len() >= 8 && (s.len() - 8) % 4 == 0 }
pub fn wf_RxmRawx(s: &[u8]) -> bool { s.len() >= 16 && (s.len() - 16) % 32 == 0 }
fn count<T>(k: &str, it: &mut dyn Iterator<Item = T>, blocks: &[u8], n: usize, mut f: impl FnMut(&T, &[u8]) -> R) -> R {
    let mut i = 0;
    while let Some(x) = it.next() {
        if (i + 1) * n > blocks.len() { return Err((k.into(), format!("{}: more than {} elements", k, i))); }
        f(&x, &blocks[i * n..(i + 1) * n])?;
        i += 1;
    }
    ck(k, i as i128, (blocks.len() / n) as i128)?;
    if it.next().is_some() { return Err((k.into(), format!("{}: goes on behind its end", k))); }
    Ok(())
}
pub fn var_Inf(n: &str, m: Option<&str>, b: &[u8]) -> R { cks(n, format!("{:?}", m), format!("{:?}", std::str::from_utf8(b).ok())) }
pub fn var_NavSat(r: &NavSatRef<'_>, b: &[u8]) -> R { count("NavSat.svs", &mut r.svs(), &b[8..], 12, |x, c| crate::pk::read_NavSatSvInfo(x, c)) }
pub fn var_MonVer(r: &MonVerRef<'_>, b: &[u8]) -> R {
    ckb("MonVer.software_version", r.software_version().as_bytes(), text(&b[..30]))?;
    ckb("MonVer.hardware_version", r.hardware_version().as_bytes(), text(&b[30..40]))?;
    ckb("MonVer.software_version_raw", &r.software_version_raw()[..], &b[..30])?;
    ckb("MonVer.hardware_version_raw", &r.hardware_version_raw()[..], &b[30..40])?;
    count("MonVer.extension", &mut r.extension(), &b[40..], 30, |x, c| ckb("MonVer.extension", x.as_bytes(), text(c)))
}
pub fn var_EsfMeas(r: &EsfMeasRef<'_>, b: &[u8]) -> R {
    let (d, c) = esf(b);
    count("EsfMeas.data", &mut r.data(), &b[8..8 + d], 4, |x, c| {
        ck("EsfMeas.data.data_type", x.data_type as i128, int(c, 3, 1, false) % 64)?;
        ck("EsfMeas.data.data_field", x.data_field as i128, int(c, 0, 3, false))
    })?;
    let want = if c == 0 { None } else { Some(int(b, 8 + d, 4, false)) };
    cks("EsfMeas.calib_tag", format!("{:?}", r.calib_tag()), format!("{:?}", want))
}
pub fn var_EsfRaw(r: &EsfRawRef<'_>, b: &[u8]) -> R {
    count("EsfRaw.data", &mut r.data(), &b[4..], 8, |x, c| {
        ck("EsfRaw.data.data_type", x.data_type as i128, int(c, 3, 1, false))?;
        ck("EsfRaw.data.data_field", x.data_field as i128, int(c, 0, 3, false))?;
        ck("EsfRaw.data.sensor_time_tag", x.sensor_time_tag as i128, int(c, 4, 4, false))
    })
}
pub fn var_RxmSfrbx(r: &RxmSfrbxRef<'_>, b: &[u8]) -> R { count("RxmSfrbx.dwrd", &mut r.dwrd(), &b[8..], 4, |x, c| ck("RxmSfrbx.dwrd", *x as i128, int(c, 0, 4, false))) }
pub fn var_RxmRawx(r: &RxmRawxRef<'_>, b: &[u8]) -> R { count("RxmRawx.measurements", &mut r.measurements(), &b[16..], 32, |x, c| crate::pk::read_RxmRawxInfo(x, c)) }

// ------------------------------------------------------------------ builders
pub fn bytes_of<const N: usize>(v: u64) -> [u8; N] { let mut g = crate::Rng::new(v); let mut a = [0; N]; for x in a.iter_mut() { *x = g.byte() } a }
pub fn fval_f64(v: u64, scale: f64, lo: i64, hi: i64) -> f64 {
    let mut g = crate::Rng::new(v);
    let span = (hi - lo) as f64;
    match g.below(16) {
        0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY,
        3 => f64::from_bits(g.next()),
        4 => (hi as f64 + g.below(3) as f64 - 1.0 + [0.25, 0.75][g.below(2)]) * scale,
        5 => (lo as f64 + g.below(3) as f64 - 1.0 + [0.25, 0.75][g.below(2)]) * scale,
        6 => (lo as f64 + span * (g.below(4000) as f64 / 1000.0 - 1.5)) * scale,
        7 => 0.0 * if g.chance(1, 2) { -1.0 } else { 1.0 },
        8 => hi as f64 * scale, 9 => lo as f64 * scale,
        10 | 11 => (g.below(2000) as f64 - 1000.0) / 4.0 * scale,
        _ => { let n = lo as i128 + (g.next() as i128 % (hi as i128 - lo as i128 + 1)); (n as f64 + g.below(9) as f64 / 10.0 - 0.4) * scale }
    }
}
pub fn fval_f32(v: u64, scale: f64, lo: i64, hi: i64) -> f32 {
    if v % 16 == 5 { return f32::from_bits((v >> 8) as u32); }
    fval_f64(v, scale, lo, hi) as f32
}
pub enum What { Int(i128), Bytes(Vec<u8>), Scaled { x: f64, scale: f64, lo: i128, hi: i128, eps: f64 } }
pub struct Exp { pub name: &'static str, pub off: usize, pub w: usize, pub what: What }
impl Exp {
    pub fn int(name: &'static str, off: usize, w: usize, v: i128) -> Exp { Exp { name, off, w, what: What::Int(v) } }
    pub fn bytes(name: &'static str, off: usize, b: &[u8]) -> Exp { Exp { name, off, w: b.len(), what: What::Bytes(b.to_vec()) } }
    pub fn scaled(name: &'static str, off: usize, w: usize, x: f64, scale: f64, lo: i128, hi: i128, eps: f64) -> Exp { Exp { name, off, w, what: What::Scaled { x, scale, lo, hi, eps } } }
    pub fn check(&self, p: &[u8]) -> R {
        match &self.what {
            What::Bytes(b) => ckb(self.name, &p[self.off..self.off + self.w], b),
            What::Int(v) => ck(self.name, int(p, self.off, self.w, *v < 0), *v),
            What::Scaled { x, scale, lo, hi, eps } => {
                let n = int(p, self.off, self.w, *lo < 0);
                if x.is_nan() { return Ok(()); }
                let ideal = x / scale;
                let slack = 0.5 + ideal.abs() * eps;
                let ok = if ideal > *hi as f64 + slack { n == *hi } else if ideal < *lo as f64 - slack { n == *lo }
                    else { let c = ideal.max(*lo as f64).min(*hi as f64); (n as f64 - c).abs() <= slack + 1e-12 };
                if ok { Ok(()) } else { Err((self.name.into(), format!("{}: {:?} with scale {:?} is stored as {} (range {}..={})", self.name, x, scale, n, lo, hi))) }
            }
        }
    }
    pub fn is_scaled(&self) -> bool { matches!(self.what, What::Scaled { .. }) }
}
/// A writer that fails at call number `at`, and notes what happens afterwards.
pub struct FW { pub at: usize, pub custom: bool, pub calls: usize, pub failed: bool, pub after: usize, pub buf: Vec<u8> }
impl FW {
    pub fn new(at: usize, custom: bool) -> FW { FW { at, custom, calls: 0, failed: false, after: 0, buf: vec![] } }
    fn call(&mut self) -> Result<(), MemWriterError<u32>> {
        if self.failed { self.after += 1; }
        self.calls += 1;
        if self.calls == self.at + 1 { self.failed = true; return Err(if self.custom { MemWriterError::Custom(7700 + self.at as u32) } else { MemWriterError::NotEnoughMem }); }
        Ok(())
    }
}
impl MemWriter for FW {
    type Error = u32;
    fn reserve_allocate(&mut self, _len: usize) -> Result<(), MemWriterError<u32>> { self.call() }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<u32>> { self.call()?; self.buf.extend_from_slice(b); Ok(()) }
}
pub struct Forms { pub exp: Vec<Exp>, pub bytes: Vec<u8>, pub array: Vec<u8>, pub stream: Vec<u8>, pub stream_ok: bool, pub fw: Result<(), MemWriterError<u32>> }
pub struct Builder { pub name: &'static str, pub class: u8, pub id: u8, pub len: usize, pub fields: usize, pub recv: bool, pub forms: fn(&[u64], &mut FW) -> Forms }
#[macro_export]
macro_rules! forms {
    ($mk:ident, $n:expr, $v:expr, $w:expr) => {{
        let (b, exp) = $mk($v);
        let bytes = b.into_packet_bytes().to_vec();
        let array: [u8; $n] = $mk($v).0.into();
        let mut stream = vec![0xb5, 0x62, 1];
        let stream_ok = $mk($v).0.create_packet(&mut stream).is_ok();
        let fw = $mk($v).0.create_packet($w);
        Forms { exp, bytes, array: array.to_vec(), stream, stream_ok, fw }
    }};
}
pub use crate::forms;
