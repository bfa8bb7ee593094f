%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%open
%prelude
/// the mode words UartMode::from can decode (known finding: it panics on the others)
pub open spec fn UartMode_ok(x: u32) -> bool {
    let d = (x / 64) % 4;
    let p = (x / 512) % 8;
    (d == 2 || d == 3) && (p == 0 || p == 1 || p == 4 || p == 5)
}
pub open spec fn DataBits_bits(e: DataBits) -> int { match e { DataBits::Seven => 2, DataBits::Eight => 3 } }
pub open spec fn Parity_bits(e: Parity) -> int { match e { Parity::Even => 0, Parity::Odd => 1, Parity::None => 4 } }
pub open spec fn StopBits_bits(e: StopBits) -> int { match e { StopBits::One => 0, StopBits::OneHalf => 1, StopBits::Two => 2, StopBits::Half => 3 } }
pub open spec fn UartMode_val(e: UartMode) -> int { DataBits_bits(e.data_bits) * 0x40 + Parity_bits(e.parity) * 0x200 + StopBits_bits(e.stop_bits) * 0x1000 }
pub open spec fn UartMode_is(e: UartMode, x: int) -> bool {
    let d = fld(x, 0x40, 4); let p = fld(x, 0x200, 8); let s = fld(x, 0x1000, 4);
    (e.data_bits == if d == 2 { DataBits::Seven } else { DataBits::Eight })
    && (e.parity == if p == 0 { Parity::Even } else if p == 1 { Parity::Odd } else { Parity::None })
    && (e.stop_bits == if s == 0 { StopBits::One } else if s == 1 { StopBits::OneHalf } else if s == 2 { StopBits::Two } else { StopBits::Half })
}
/// what a mode encodes to decodes to the same mode, and is decodable
pub proof fn theorem_UartMode_roundtrip(e: UartMode, r: UartMode, x: u32)
    requires x == UartMode_val(e), UartMode_is(r, x as int),
    ensures UartMode_ok(x), r == e,
{}
pub open spec fn ResetMode_code(e: ResetMode) -> u8 {
    match e { ResetMode::HardwareResetImmediately => 0, ResetMode::ControlledSoftwareReset => 1, ResetMode::ControlledSoftwareResetGpsOnly => 2, ResetMode::HardwareResetAfterShutdown => 4, ResetMode::ControlledGpsStop => 8, ResetMode::ControlledGpsStart => 9 }
}
pub open spec fn AlignmentToReferenceTime_code(e: AlignmentToReferenceTime) -> u16 {
    match e { AlignmentToReferenceTime::Utc => 0, AlignmentToReferenceTime::Gps => 1, AlignmentToReferenceTime::Glo => 2, AlignmentToReferenceTime::Bds => 3, AlignmentToReferenceTime::Gal => 4 }
}
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// the word of a jamming detection configuration; sub-values that do not fit their bits are cut to them
pub open spec fn CfgItfmConfig_val(e: CfgItfmConfig) -> int {
    (e.bb_threshold.0 as int) % 0x10 + ((e.cw_threshold.0 as int) % 0x20) * 0x10 + ((e.algorithm_bits.0 as int) % 0x400000) * 0x200 + b2i(e.enable) * 0x80000000
}
pub open spec fn CfgItfmConfig_is(e: CfgItfmConfig, x: int) -> bool {
    e.bb_threshold.0 == fld(x, 1, 0x10) && e.cw_threshold.0 == fld(x, 0x10, 0x20) && e.algorithm_bits.0 == fld(x, 0x200, 0x400000) && e.enable == (fld(x, 0x80000000, 2) == 1)
}
pub open spec fn CfgItfmConfig_fits(e: CfgItfmConfig) -> bool { e.bb_threshold.0 < 0x10 && e.cw_threshold.0 < 0x20 && e.algorithm_bits.0 < 0x400000 }
/// every word decodes to a configuration that encodes to that word; and the other way round where the sub-values fit their bits
pub proof fn theorem_CfgItfmConfig_roundtrip(e: CfgItfmConfig, r: CfgItfmConfig, x: u32)
    requires CfgItfmConfig_is(r, x as int),
    ensures CfgItfmConfig_fits(r), CfgItfmConfig_val(r) == x, x == CfgItfmConfig_val(e) && CfgItfmConfig_fits(e) ==> r == e,
{}
pub open spec fn ant_code(e: CfgItfmAntennaSettings) -> int {
    match e { CfgItfmAntennaSettings::Unknown => 0, CfgItfmAntennaSettings::Active => 1, CfgItfmAntennaSettings::Passive => 2 }
}
pub open spec fn ant_of(c: int) -> CfgItfmAntennaSettings {
    if c == 1 { CfgItfmAntennaSettings::Active } else if c == 2 { CfgItfmAntennaSettings::Passive } else { CfgItfmAntennaSettings::Unknown }
}
pub open spec fn CfgItfmConfig2_val(e: CfgItfmConfig2) -> int {
    (e.general.0 as int) % 0x1000 + ant_code(e.antenna) * 0x1000 + b2i(e.scan_aux_bands) * 0x4000
}
pub open spec fn CfgItfmConfig2_is(e: CfgItfmConfig2, x: int) -> bool {
    e.general.0 == fld(x, 1, 0x1000) && e.antenna == ant_of(fld(x, 0x1000, 4)) && e.scan_aux_bands == (fld(x, 0x4000, 2) == 1)
}
pub open spec fn CfgItfmConfig2_fits(e: CfgItfmConfig2) -> bool { e.general.0 < 0x1000 }
pub proof fn theorem_CfgItfmConfig2_roundtrip(e: CfgItfmConfig2, r: CfgItfmConfig2, x: u32)
    requires CfgItfmConfig2_is(r, x as int),
    ensures CfgItfmConfig2_fits(r), x < 0x8000 && fld(x as int, 0x1000, 4) != 3 ==> CfgItfmConfig2_val(r) == x, x == CfgItfmConfig2_val(e) && CfgItfmConfig2_fits(e) ==> r == e,
{}

/// the value of the bits of `x` from the one with weight `p`, `n` values wide
pub open spec fn fld(x: int, p: int, n: int) -> int { (x / p) % n }
#[verifier::external_body] /*discharged: its precondition (never called)*/
pub fn unreachable_panic() -> ! requires false, { panic!() }
%gsubst
::core::panicking::panic($m) ==> unreachable_panic()
;;
::core::panicking::panic_fmt($m) ==> unreachable_panic()
;;
const fn ==> fn
%source exp
%take enum MapMatchingStatus
%take enum NavSatQualityIndicator
%take enum NavSatSvHealth
%take enum NavSatOrbitSource
%take enum TimTpTimeBase
%take enum TimTpRefInfoTimeRefGnss
%take enum TimTpRefInfoUtcStandard
%take enum TimTm2Mode
%take enum TimTm2Run
%take enum TimTm2TimeBase
%take struct FixStatusInfo
%take impl FixStatusInfo
%derive struct FixStatusInfo :: #[derive(Clone, Copy)]
%fn FixStatusInfo::from | ret=r
        ensures r.0 == x,
%fn FixStatusInfo::has_pr_prr_correction | ret=r
        ensures r == (fld(self.0 as int, 0x1, 0x2) == 1),
%start FixStatusInfo::has_pr_prr_correction
        proof {
            let x = self.0;
            assert((x >> 0) & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1) >> 0 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0) == ((x / 0x1) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x1) / 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert(x & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0x1) == ((x / 0x1) % 0x2 == 1)) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0x1u8 << 0 == 0x1u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 7) >> 7 == (x / 0x1) % 0x2) by (bit_vector);
        }
%fn FixStatusInfo::map_matching | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x40, 0x4); if v == 0 { MapMatchingStatus::None } else if v == 1 { MapMatchingStatus::Valid } else if v == 2 { MapMatchingStatus::Used } else if v == 3 { MapMatchingStatus::Dr } else if true { MapMatchingStatus::Dr } else { arbitrary() } }),
%start FixStatusInfo::map_matching
        proof {
            let x = self.0;
            assert((x >> 6) & 0x3 == (x / 0x40) % 0x4) by (bit_vector);
            assert((x & 0xc0) >> 6 == (x / 0x40) % 0x4) by (bit_vector);
            assert((x & 0xc0 == 0) == ((x / 0x40) % 0x4 == 0)) by (bit_vector);
            assert((x & 0xc0) / 0x40 == (x / 0x40) % 0x4) by (bit_vector);
            assert(x >> 6 == (x / 0x40) % 0x4) by (bit_vector);
            assert(x >> 6 == x / 0x40) by (bit_vector);
            assert(0x3u8 << 6 == 0xc0u8) by (bit_vector);
            assert(1u8 << 2 == 0x4u8) by (bit_vector);
        }
%take struct NavSatSvFlags
%take impl NavSatSvFlags
%derive struct NavSatSvFlags :: #[derive(Clone, Copy)]
%fn NavSatSvFlags::from | ret=r
        ensures r.0 == x,
%fn NavSatSvFlags::quality_ind | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x1, 0x8); if v == 0 { NavSatQualityIndicator::NoSignal } else if v == 1 { NavSatQualityIndicator::Searching } else if v == 2 { NavSatQualityIndicator::SignalAcquired } else if v == 3 { NavSatQualityIndicator::SignalDetected } else if v == 4 { NavSatQualityIndicator::CodeLock } else if v == 5 { NavSatQualityIndicator::CarrierLock } else if v == 6 { NavSatQualityIndicator::CarrierLock } else if v == 7 { NavSatQualityIndicator::CarrierLock } else if true { NavSatQualityIndicator::CarrierLock } else { arbitrary() } }),
%start NavSatSvFlags::quality_ind
        proof {
            let x = self.0;
            assert((x >> 0) & 0x7 == (x / 0x1) % 0x8) by (bit_vector);
            assert((x & 0x7) >> 0 == (x / 0x1) % 0x8) by (bit_vector);
            assert((x & 0x7 == 0) == ((x / 0x1) % 0x8 == 0)) by (bit_vector);
            assert((x & 0x7) / 0x1 == (x / 0x1) % 0x8) by (bit_vector);
            assert(x & 0x7 == (x / 0x1) % 0x8) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0x7u32 << 0 == 0x7u32) by (bit_vector);
            assert(1u32 << 3 == 0x8u32) by (bit_vector);
            assert((x << 29) >> 29 == (x / 0x1) % 0x8) by (bit_vector);
        }
%fn NavSatSvFlags::sv_used | ret=r
        ensures r == (fld(self.0 as int, 0x8, 0x2) == 1),
%start NavSatSvFlags::sv_used
        proof {
            let x = self.0;
            assert((x >> 3) & 0x1 == (x / 0x8) % 0x2) by (bit_vector);
            assert((x & 0x8) >> 3 == (x / 0x8) % 0x2) by (bit_vector);
            assert((x & 0x8 == 0) == ((x / 0x8) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x8) / 0x8 == (x / 0x8) % 0x2) by (bit_vector);
            assert((x & 0x8 == 0x8) == ((x / 0x8) % 0x2 == 1)) by (bit_vector);
            assert(x >> 3 == x / 0x8) by (bit_vector);
            assert(0x1u32 << 3 == 0x8u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 28) >> 31 == (x / 0x8) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::health | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x10, 0x4); if v == 1 { NavSatSvHealth::Healthy } else if v == 2 { NavSatSvHealth::Unhealthy } else if true { NavSatSvHealth::Unknown(v as u8) } else { arbitrary() } }),
%start NavSatSvFlags::health
        proof {
            let x = self.0;
            assert((x >> 4) & 0x3 == (x / 0x10) % 0x4) by (bit_vector);
            assert((x & 0x30) >> 4 == (x / 0x10) % 0x4) by (bit_vector);
            assert((x & 0x30 == 0) == ((x / 0x10) % 0x4 == 0)) by (bit_vector);
            assert((x & 0x30) / 0x10 == (x / 0x10) % 0x4) by (bit_vector);
            assert(x >> 4 == x / 0x10) by (bit_vector);
            assert(0x3u32 << 4 == 0x30u32) by (bit_vector);
            assert(1u32 << 2 == 0x4u32) by (bit_vector);
            assert((x << 26) >> 30 == (x / 0x10) % 0x4) by (bit_vector);
        }
%fn NavSatSvFlags::differential_correction_available | ret=r
        ensures r == (fld(self.0 as int, 0x40, 0x2) == 1),
%start NavSatSvFlags::differential_correction_available
        proof {
            let x = self.0;
            assert((x >> 6) & 0x1 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40) >> 6 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40 == 0) == ((x / 0x40) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x40) / 0x40 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40 == 0x40) == ((x / 0x40) % 0x2 == 1)) by (bit_vector);
            assert(x >> 6 == x / 0x40) by (bit_vector);
            assert(0x1u32 << 6 == 0x40u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 25) >> 31 == (x / 0x40) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::smoothed | ret=r
        ensures r == (fld(self.0 as int, 0x80, 0x2) == 1),
%start NavSatSvFlags::smoothed
        proof {
            let x = self.0;
            assert((x >> 7) & 0x1 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80) >> 7 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80 == 0) == ((x / 0x80) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x80) / 0x80 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80 == 0x80) == ((x / 0x80) % 0x2 == 1)) by (bit_vector);
            assert(x >> 7 == x / 0x80) by (bit_vector);
            assert(0x1u32 << 7 == 0x80u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 24) >> 31 == (x / 0x80) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::orbit_source | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x100, 0x8); if v == 0 { NavSatOrbitSource::NoInfoAvailable } else if v == 1 { NavSatOrbitSource::Ephemeris } else if v == 2 { NavSatOrbitSource::Almanac } else if v == 3 { NavSatOrbitSource::AssistNowOffline } else if v == 4 { NavSatOrbitSource::AssistNowAutonomous } else if true { NavSatOrbitSource::Other(v as u8) } else { arbitrary() } }),
%start NavSatSvFlags::orbit_source
        proof {
            let x = self.0;
            assert((x >> 8) & 0x7 == (x / 0x100) % 0x8) by (bit_vector);
            assert((x & 0x700) >> 8 == (x / 0x100) % 0x8) by (bit_vector);
            assert((x & 0x700 == 0) == ((x / 0x100) % 0x8 == 0)) by (bit_vector);
            assert((x & 0x700) / 0x100 == (x / 0x100) % 0x8) by (bit_vector);
            assert(x >> 8 == x / 0x100) by (bit_vector);
            assert(0x7u32 << 8 == 0x700u32) by (bit_vector);
            assert(1u32 << 3 == 0x8u32) by (bit_vector);
            assert((x << 21) >> 29 == (x / 0x100) % 0x8) by (bit_vector);
        }
%fn NavSatSvFlags::ephemeris_available | ret=r
        ensures r == (fld(self.0 as int, 0x800, 0x2) == 1),
%start NavSatSvFlags::ephemeris_available
        proof {
            let x = self.0;
            assert((x >> 11) & 0x1 == (x / 0x800) % 0x2) by (bit_vector);
            assert((x & 0x800) >> 11 == (x / 0x800) % 0x2) by (bit_vector);
            assert((x & 0x800 == 0) == ((x / 0x800) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x800) / 0x800 == (x / 0x800) % 0x2) by (bit_vector);
            assert((x & 0x800 == 0x800) == ((x / 0x800) % 0x2 == 1)) by (bit_vector);
            assert(x >> 11 == x / 0x800) by (bit_vector);
            assert(0x1u32 << 11 == 0x800u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 20) >> 31 == (x / 0x800) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::almanac_available | ret=r
        ensures r == (fld(self.0 as int, 0x1000, 0x2) == 1),
%start NavSatSvFlags::almanac_available
        proof {
            let x = self.0;
            assert((x >> 12) & 0x1 == (x / 0x1000) % 0x2) by (bit_vector);
            assert((x & 0x1000) >> 12 == (x / 0x1000) % 0x2) by (bit_vector);
            assert((x & 0x1000 == 0) == ((x / 0x1000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x1000) / 0x1000 == (x / 0x1000) % 0x2) by (bit_vector);
            assert((x & 0x1000 == 0x1000) == ((x / 0x1000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 12 == x / 0x1000) by (bit_vector);
            assert(0x1u32 << 12 == 0x1000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 19) >> 31 == (x / 0x1000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::an_offline_available | ret=r
        ensures r == (fld(self.0 as int, 0x2000, 0x2) == 1),
%start NavSatSvFlags::an_offline_available
        proof {
            let x = self.0;
            assert((x >> 13) & 0x1 == (x / 0x2000) % 0x2) by (bit_vector);
            assert((x & 0x2000) >> 13 == (x / 0x2000) % 0x2) by (bit_vector);
            assert((x & 0x2000 == 0) == ((x / 0x2000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x2000) / 0x2000 == (x / 0x2000) % 0x2) by (bit_vector);
            assert((x & 0x2000 == 0x2000) == ((x / 0x2000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 13 == x / 0x2000) by (bit_vector);
            assert(0x1u32 << 13 == 0x2000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 18) >> 31 == (x / 0x2000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::an_auto_available | ret=r
        ensures r == (fld(self.0 as int, 0x4000, 0x2) == 1),
%start NavSatSvFlags::an_auto_available
        proof {
            let x = self.0;
            assert((x >> 14) & 0x1 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000) >> 14 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000 == 0) == ((x / 0x4000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x4000) / 0x4000 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000 == 0x4000) == ((x / 0x4000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 14 == x / 0x4000) by (bit_vector);
            assert(0x1u32 << 14 == 0x4000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 17) >> 31 == (x / 0x4000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::sbas_corr | ret=r
        ensures r == (fld(self.0 as int, 0x10000, 0x2) == 1),
%start NavSatSvFlags::sbas_corr
        proof {
            let x = self.0;
            assert((x >> 16) & 0x1 == (x / 0x10000) % 0x2) by (bit_vector);
            assert((x & 0x10000) >> 16 == (x / 0x10000) % 0x2) by (bit_vector);
            assert((x & 0x10000 == 0) == ((x / 0x10000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x10000) / 0x10000 == (x / 0x10000) % 0x2) by (bit_vector);
            assert((x & 0x10000 == 0x10000) == ((x / 0x10000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 16 == x / 0x10000) by (bit_vector);
            assert(0x1u32 << 16 == 0x10000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 15) >> 31 == (x / 0x10000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::rtcm_corr | ret=r
        ensures r == (fld(self.0 as int, 0x20000, 0x2) == 1),
%start NavSatSvFlags::rtcm_corr
        proof {
            let x = self.0;
            assert((x >> 17) & 0x1 == (x / 0x20000) % 0x2) by (bit_vector);
            assert((x & 0x20000) >> 17 == (x / 0x20000) % 0x2) by (bit_vector);
            assert((x & 0x20000 == 0) == ((x / 0x20000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x20000) / 0x20000 == (x / 0x20000) % 0x2) by (bit_vector);
            assert((x & 0x20000 == 0x20000) == ((x / 0x20000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 17 == x / 0x20000) by (bit_vector);
            assert(0x1u32 << 17 == 0x20000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 14) >> 31 == (x / 0x20000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::slas_corr | ret=r
        ensures r == (fld(self.0 as int, 0x40000, 0x2) == 1),
%start NavSatSvFlags::slas_corr
        proof {
            let x = self.0;
            assert((x >> 18) & 0x1 == (x / 0x40000) % 0x2) by (bit_vector);
            assert((x & 0x40000) >> 18 == (x / 0x40000) % 0x2) by (bit_vector);
            assert((x & 0x40000 == 0) == ((x / 0x40000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x40000) / 0x40000 == (x / 0x40000) % 0x2) by (bit_vector);
            assert((x & 0x40000 == 0x40000) == ((x / 0x40000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 18 == x / 0x40000) by (bit_vector);
            assert(0x1u32 << 18 == 0x40000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 13) >> 31 == (x / 0x40000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::spartn_corr | ret=r
        ensures r == (fld(self.0 as int, 0x80000, 0x2) == 1),
%start NavSatSvFlags::spartn_corr
        proof {
            let x = self.0;
            assert((x >> 19) & 0x1 == (x / 0x80000) % 0x2) by (bit_vector);
            assert((x & 0x80000) >> 19 == (x / 0x80000) % 0x2) by (bit_vector);
            assert((x & 0x80000 == 0) == ((x / 0x80000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x80000) / 0x80000 == (x / 0x80000) % 0x2) by (bit_vector);
            assert((x & 0x80000 == 0x80000) == ((x / 0x80000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 19 == x / 0x80000) by (bit_vector);
            assert(0x1u32 << 19 == 0x80000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 12) >> 31 == (x / 0x80000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::pr_corr | ret=r
        ensures r == (fld(self.0 as int, 0x100000, 0x2) == 1),
%start NavSatSvFlags::pr_corr
        proof {
            let x = self.0;
            assert((x >> 20) & 0x1 == (x / 0x100000) % 0x2) by (bit_vector);
            assert((x & 0x100000) >> 20 == (x / 0x100000) % 0x2) by (bit_vector);
            assert((x & 0x100000 == 0) == ((x / 0x100000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x100000) / 0x100000 == (x / 0x100000) % 0x2) by (bit_vector);
            assert((x & 0x100000 == 0x100000) == ((x / 0x100000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 20 == x / 0x100000) by (bit_vector);
            assert(0x1u32 << 20 == 0x100000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 11) >> 31 == (x / 0x100000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::cr_corr | ret=r
        ensures r == (fld(self.0 as int, 0x200000, 0x2) == 1),
%start NavSatSvFlags::cr_corr
        proof {
            let x = self.0;
            assert((x >> 21) & 0x1 == (x / 0x200000) % 0x2) by (bit_vector);
            assert((x & 0x200000) >> 21 == (x / 0x200000) % 0x2) by (bit_vector);
            assert((x & 0x200000 == 0) == ((x / 0x200000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x200000) / 0x200000 == (x / 0x200000) % 0x2) by (bit_vector);
            assert((x & 0x200000 == 0x200000) == ((x / 0x200000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 21 == x / 0x200000) by (bit_vector);
            assert(0x1u32 << 21 == 0x200000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 10) >> 31 == (x / 0x200000) % 0x2) by (bit_vector);
        }
%fn NavSatSvFlags::do_corr | ret=r
        ensures r == (fld(self.0 as int, 0x400000, 0x2) == 1),
%start NavSatSvFlags::do_corr
        proof {
            let x = self.0;
            assert((x >> 22) & 0x1 == (x / 0x400000) % 0x2) by (bit_vector);
            assert((x & 0x400000) >> 22 == (x / 0x400000) % 0x2) by (bit_vector);
            assert((x & 0x400000 == 0) == ((x / 0x400000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x400000) / 0x400000 == (x / 0x400000) % 0x2) by (bit_vector);
            assert((x & 0x400000 == 0x400000) == ((x / 0x400000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 22 == x / 0x400000) by (bit_vector);
            assert(0x1u32 << 22 == 0x400000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 9) >> 31 == (x / 0x400000) % 0x2) by (bit_vector);
        }
%take struct TimTpFlags
%take impl TimTpFlags
%derive struct TimTpFlags :: #[derive(Clone, Copy)]
%fn TimTpFlags::time_base | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x1, 0x2); if v == 0 { TimTpTimeBase::Gnss } else if v == 1 { TimTpTimeBase::Utc } else if true { TimTpTimeBase::Utc } else { arbitrary() } }),
%start TimTpFlags::time_base
        proof {
            let x = self.0;
            assert((x >> 0) & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1) >> 0 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0) == ((x / 0x1) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x1) / 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert(x & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0x1) == ((x / 0x1) % 0x2 == 1)) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0x1u8 << 0 == 0x1u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 7) >> 7 == (x / 0x1) % 0x2) by (bit_vector);
        }
%fn TimTpFlags::utc_available | ret=r
        ensures r == (fld(self.0 as int, 0x2, 0x2) == 1),
%start TimTpFlags::utc_available
        proof {
            let x = self.0;
            assert((x >> 1) & 0x1 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2) >> 1 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2 == 0) == ((x / 0x2) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x2) / 0x2 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2 == 0x2) == ((x / 0x2) % 0x2 == 1)) by (bit_vector);
            assert(x >> 1 == x / 0x2) by (bit_vector);
            assert(0x1u8 << 1 == 0x2u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 6) >> 7 == (x / 0x2) % 0x2) by (bit_vector);
        }
%fn TimTpFlags::raim_active | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x4, 0x4); if v == 1 { Some(false) } else if v == 2 { Some(true) } else if true { None::<bool> } else { arbitrary() } }),
%start TimTpFlags::raim_active
        proof {
            let x = self.0;
            assert((x >> 2) & 0x3 == (x / 0x4) % 0x4) by (bit_vector);
            assert((x & 0xc) >> 2 == (x / 0x4) % 0x4) by (bit_vector);
            assert((x & 0xc == 0) == ((x / 0x4) % 0x4 == 0)) by (bit_vector);
            assert((x & 0xc) / 0x4 == (x / 0x4) % 0x4) by (bit_vector);
            assert(x >> 2 == x / 0x4) by (bit_vector);
            assert(0x3u8 << 2 == 0xcu8) by (bit_vector);
            assert(1u8 << 2 == 0x4u8) by (bit_vector);
            assert((x << 4) >> 6 == (x / 0x4) % 0x4) by (bit_vector);
        }
%fn TimTpFlags::q_err_valid | ret=r
        ensures r == (fld(self.0 as int, 0x10, 0x2) == 0),
%start TimTpFlags::q_err_valid
        proof {
            let x = self.0;
            assert((x >> 4) & 0x1 == (x / 0x10) % 0x2) by (bit_vector);
            assert((x & 0x10) >> 4 == (x / 0x10) % 0x2) by (bit_vector);
            assert((x & 0x10 == 0) == ((x / 0x10) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x10) / 0x10 == (x / 0x10) % 0x2) by (bit_vector);
            assert((x & 0x10 == 0x10) == ((x / 0x10) % 0x2 == 1)) by (bit_vector);
            assert(x >> 4 == x / 0x10) by (bit_vector);
            assert(0x1u8 << 4 == 0x10u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 3) >> 7 == (x / 0x10) % 0x2) by (bit_vector);
        }
%take struct TimTpRefInfo
%take impl TimTpRefInfo
%derive struct TimTpRefInfo :: #[derive(Clone, Copy)]
%fn TimTpRefInfo::time_ref_gnss | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x1, 0x10); if v == 0 { Some(TimTpRefInfoTimeRefGnss::Gps) } else if v == 1 { Some(TimTpRefInfoTimeRefGnss::Glo) } else if v == 2 { Some(TimTpRefInfoTimeRefGnss::Bds) } else if v == 3 { Some(TimTpRefInfoTimeRefGnss::Gal) } else if v == 4 { Some(TimTpRefInfoTimeRefGnss::NavIc) } else if true { None::<TimTpRefInfoTimeRefGnss> } else { arbitrary() } }),
%start TimTpRefInfo::time_ref_gnss
        proof {
            let x = self.0;
            assert((x >> 0) & 0xf == (x / 0x1) % 0x10) by (bit_vector);
            assert((x & 0xf) >> 0 == (x / 0x1) % 0x10) by (bit_vector);
            assert((x & 0xf == 0) == ((x / 0x1) % 0x10 == 0)) by (bit_vector);
            assert((x & 0xf) / 0x1 == (x / 0x1) % 0x10) by (bit_vector);
            assert(x & 0xf == (x / 0x1) % 0x10) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0xfu8 << 0 == 0xfu8) by (bit_vector);
            assert(1u8 << 4 == 0x10u8) by (bit_vector);
            assert((x << 4) >> 4 == (x / 0x1) % 0x10) by (bit_vector);
        }
%fn TimTpRefInfo::utc_standard | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x10, 0x10); if v == 1 { Some(TimTpRefInfoUtcStandard::Crl) } else if v == 2 { Some(TimTpRefInfoUtcStandard::Nist) } else if v == 3 { Some(TimTpRefInfoUtcStandard::Usno) } else if v == 4 { Some(TimTpRefInfoUtcStandard::Bipm) } else if v == 5 { Some(TimTpRefInfoUtcStandard::Eu) } else if v == 6 { Some(TimTpRefInfoUtcStandard::Su) } else if v == 7 { Some(TimTpRefInfoUtcStandard::Ntsc) } else if v == 8 { Some(TimTpRefInfoUtcStandard::Npli) } else if true { None::<TimTpRefInfoUtcStandard> } else { arbitrary() } }),
%start TimTpRefInfo::utc_standard
        proof {
            let x = self.0;
            assert((x >> 4) & 0xf == (x / 0x10) % 0x10) by (bit_vector);
            assert((x & 0xf0) >> 4 == (x / 0x10) % 0x10) by (bit_vector);
            assert((x & 0xf0 == 0) == ((x / 0x10) % 0x10 == 0)) by (bit_vector);
            assert((x & 0xf0) / 0x10 == (x / 0x10) % 0x10) by (bit_vector);
            assert(x >> 4 == (x / 0x10) % 0x10) by (bit_vector);
            assert(x >> 4 == x / 0x10) by (bit_vector);
            assert(0xfu8 << 4 == 0xf0u8) by (bit_vector);
            assert(1u8 << 4 == 0x10u8) by (bit_vector);
        }
%take struct TimTm2Flags
%take impl TimTm2Flags
%derive struct TimTm2Flags :: #[derive(Clone, Copy)]
%fn TimTm2Flags::mode | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x1, 0x2); if v == 0 { TimTm2Mode::Single } else if v == 1 { TimTm2Mode::Running } else if true { TimTm2Mode::Running } else { arbitrary() } }),
%start TimTm2Flags::mode
        proof {
            let x = self.0;
            assert((x >> 0) & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1) >> 0 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0) == ((x / 0x1) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x1) / 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert(x & 0x1 == (x / 0x1) % 0x2) by (bit_vector);
            assert((x & 0x1 == 0x1) == ((x / 0x1) % 0x2 == 1)) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0x1u8 << 0 == 0x1u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 7) >> 7 == (x / 0x1) % 0x2) by (bit_vector);
        }
%fn TimTm2Flags::run | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x2, 0x2); if v == 0 { TimTm2Run::Armed } else if v == 1 { TimTm2Run::Stopped } else if true { TimTm2Run::Stopped } else { arbitrary() } }),
%start TimTm2Flags::run
        proof {
            let x = self.0;
            assert((x >> 1) & 0x1 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2) >> 1 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2 == 0) == ((x / 0x2) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x2) / 0x2 == (x / 0x2) % 0x2) by (bit_vector);
            assert((x & 0x2 == 0x2) == ((x / 0x2) % 0x2 == 1)) by (bit_vector);
            assert(x >> 1 == x / 0x2) by (bit_vector);
            assert(0x1u8 << 1 == 0x2u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 6) >> 7 == (x / 0x2) % 0x2) by (bit_vector);
        }
%fn TimTm2Flags::new_falling_edge | ret=r
        ensures r == (fld(self.0 as int, 0x4, 0x2) == 1),
%start TimTm2Flags::new_falling_edge
        proof {
            let x = self.0;
            assert((x >> 2) & 0x1 == (x / 0x4) % 0x2) by (bit_vector);
            assert((x & 0x4) >> 2 == (x / 0x4) % 0x2) by (bit_vector);
            assert((x & 0x4 == 0) == ((x / 0x4) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x4) / 0x4 == (x / 0x4) % 0x2) by (bit_vector);
            assert((x & 0x4 == 0x4) == ((x / 0x4) % 0x2 == 1)) by (bit_vector);
            assert(x >> 2 == x / 0x4) by (bit_vector);
            assert(0x1u8 << 2 == 0x4u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 5) >> 7 == (x / 0x4) % 0x2) by (bit_vector);
        }
%fn TimTm2Flags::new_rising_edge | ret=r
        ensures r == (fld(self.0 as int, 0x80, 0x2) == 1),
%start TimTm2Flags::new_rising_edge
        proof {
            let x = self.0;
            assert((x >> 7) & 0x1 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80) >> 7 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80 == 0) == ((x / 0x80) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x80) / 0x80 == (x / 0x80) % 0x2) by (bit_vector);
            assert(x >> 7 == (x / 0x80) % 0x2) by (bit_vector);
            assert((x & 0x80 == 0x80) == ((x / 0x80) % 0x2 == 1)) by (bit_vector);
            assert(x >> 7 == x / 0x80) by (bit_vector);
            assert(0x1u8 << 7 == 0x80u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
        }
%fn TimTm2Flags::time_base | ret=r
        ensures r == ({ let v = fld(self.0 as int, 0x8, 0x4); if v == 0 { TimTm2TimeBase::Receiver } else if v == 1 { TimTm2TimeBase::Gnss } else if v == 2 { TimTm2TimeBase::Utc } else if v == 3 { TimTm2TimeBase::Reserved } else if true { TimTm2TimeBase::Reserved } else { arbitrary() } }),
%start TimTm2Flags::time_base
        proof {
            let x = self.0;
            assert((x >> 3) & 0x3 == (x / 0x8) % 0x4) by (bit_vector);
            assert((x & 0x18) >> 3 == (x / 0x8) % 0x4) by (bit_vector);
            assert((x & 0x18 == 0) == ((x / 0x8) % 0x4 == 0)) by (bit_vector);
            assert((x & 0x18) / 0x8 == (x / 0x8) % 0x4) by (bit_vector);
            assert(x >> 3 == x / 0x8) by (bit_vector);
            assert(0x3u8 << 3 == 0x18u8) by (bit_vector);
            assert(1u8 << 2 == 0x4u8) by (bit_vector);
            assert((x << 3) >> 6 == (x / 0x8) % 0x4) by (bit_vector);
        }
%fn TimTm2Flags::utc_available | ret=r
        ensures r == (fld(self.0 as int, 0x20, 0x2) == 1),
%start TimTm2Flags::utc_available
        proof {
            let x = self.0;
            assert((x >> 5) & 0x1 == (x / 0x20) % 0x2) by (bit_vector);
            assert((x & 0x20) >> 5 == (x / 0x20) % 0x2) by (bit_vector);
            assert((x & 0x20 == 0) == ((x / 0x20) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x20) / 0x20 == (x / 0x20) % 0x2) by (bit_vector);
            assert((x & 0x20 == 0x20) == ((x / 0x20) % 0x2 == 1)) by (bit_vector);
            assert(x >> 5 == x / 0x20) by (bit_vector);
            assert(0x1u8 << 5 == 0x20u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 2) >> 7 == (x / 0x20) % 0x2) by (bit_vector);
        }
%fn TimTm2Flags::time_valid | ret=r
        ensures r == (fld(self.0 as int, 0x40, 0x2) == 1),
%start TimTm2Flags::time_valid
        proof {
            let x = self.0;
            assert((x >> 6) & 0x1 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40) >> 6 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40 == 0) == ((x / 0x40) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x40) / 0x40 == (x / 0x40) % 0x2) by (bit_vector);
            assert((x & 0x40 == 0x40) == ((x / 0x40) % 0x2 == 1)) by (bit_vector);
            assert(x >> 6 == x / 0x40) by (bit_vector);
            assert(0x1u8 << 6 == 0x40u8) by (bit_vector);
            assert(1u8 << 1 == 0x2u8) by (bit_vector);
            assert((x << 1) >> 7 == (x / 0x40) % 0x2) by (bit_vector);
        }
%take struct CfgItfmBbThreshold
%derive struct CfgItfmBbThreshold :: #[derive(Clone, Copy)]
%take impl CfgItfmBbThreshold
%take impl From<u32> for CfgItfmBbThreshold
%header impl From<u32> for CfgItfmBbThreshold
impl CfgItfmBbThreshold
%constfn CfgItfmBbThreshold::MASK
        ensures r == 0xf,
;;
        proof { assert(1u32 << 4u32 == 0x10u32) by (bit_vector); }
%fn <From<u32> for CfgItfmBbThreshold>::from | ret=r
        ensures r.0 == fld(cfg as int, 0x1, 0x10),
%start <From<u32> for CfgItfmBbThreshold>::from
        proof {
            let x = cfg;
            assert((x >> 0) & 0xf == (x / 0x1) % 0x10) by (bit_vector);
            assert((x & 0xf) >> 0 == (x / 0x1) % 0x10) by (bit_vector);
            assert((x & 0xf == 0) == ((x / 0x1) % 0x10 == 0)) by (bit_vector);
            assert((x & 0xf) / 0x1 == (x / 0x1) % 0x10) by (bit_vector);
            assert(x & 0xf == (x / 0x1) % 0x10) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0xfu32 << 0 == 0xfu32) by (bit_vector);
            assert(1u32 << 4 == 0x10u32) by (bit_vector);
            assert((x << 28) >> 28 == (x / 0x1) % 0x10) by (bit_vector);
        }
%take impl Default for CfgItfmBbThreshold
%header impl Default for CfgItfmBbThreshold
impl CfgItfmBbThreshold
%fn <Default for CfgItfmBbThreshold>::default | ret=r
        ensures r.0 == 0x3,
%fn CfgItfmBbThreshold::into_raw | ret=r
        ensures r == (self.0 % 0x10) * 0x1,
%start CfgItfmBbThreshold::into_raw
        proof {
            let x = self.0;
            assert((x & 0xf) << 0 == (x % 0x10) * 0x1) by (bit_vector);
            assert((x << 0) & 0xf == (x % 0x10) * 0x1) by (bit_vector);
            assert((x & 0xf) == (x % 0x10)) by (bit_vector);
        }
%take struct CfgItfmCwThreshold
%derive struct CfgItfmCwThreshold :: #[derive(Clone, Copy)]
%take impl CfgItfmCwThreshold
%take impl From<u32> for CfgItfmCwThreshold
%header impl From<u32> for CfgItfmCwThreshold
impl CfgItfmCwThreshold
%constfn CfgItfmCwThreshold::MASK
        ensures r == 0x1f,
;;
        proof { assert(1u32 << 5u32 == 0x20u32) by (bit_vector); }
%fn <From<u32> for CfgItfmCwThreshold>::from | ret=r
        ensures r.0 == fld(cfg as int, 0x10, 0x20),
%start <From<u32> for CfgItfmCwThreshold>::from
        proof {
            let x = cfg;
            assert((x >> 4) & 0x1f == (x / 0x10) % 0x20) by (bit_vector);
            assert((x & 0x1f0) >> 4 == (x / 0x10) % 0x20) by (bit_vector);
            assert((x & 0x1f0 == 0) == ((x / 0x10) % 0x20 == 0)) by (bit_vector);
            assert((x & 0x1f0) / 0x10 == (x / 0x10) % 0x20) by (bit_vector);
            assert(x >> 4 == x / 0x10) by (bit_vector);
            assert(0x1fu32 << 4 == 0x1f0u32) by (bit_vector);
            assert(1u32 << 5 == 0x20u32) by (bit_vector);
            assert((x << 23) >> 27 == (x / 0x10) % 0x20) by (bit_vector);
        }
%take impl Default for CfgItfmCwThreshold
%header impl Default for CfgItfmCwThreshold
impl CfgItfmCwThreshold
%fn <Default for CfgItfmCwThreshold>::default | ret=r
        ensures r.0 == 0xf,
%fn CfgItfmCwThreshold::into_raw | ret=r
        ensures r == (self.0 % 0x20) * 0x10,
%start CfgItfmCwThreshold::into_raw
        proof {
            let x = self.0;
            assert((x & 0x1f) << 4 == (x % 0x20) * 0x10) by (bit_vector);
            assert((x << 4) & 0x1f0 == (x % 0x20) * 0x10) by (bit_vector);
            assert((x & 0x1f) == (x % 0x20)) by (bit_vector);
        }
%take struct CfgItfmAlgoBits
%derive struct CfgItfmAlgoBits :: #[derive(Clone, Copy)]
%take impl CfgItfmAlgoBits
%take impl From<u32> for CfgItfmAlgoBits
%header impl From<u32> for CfgItfmAlgoBits
impl CfgItfmAlgoBits
%constfn CfgItfmAlgoBits::MASK
        ensures r == 0x3fffff,
;;
        proof { assert(1u32 << 22u32 == 0x400000u32) by (bit_vector); }
%fn <From<u32> for CfgItfmAlgoBits>::from | ret=r
        ensures r.0 == fld(cfg as int, 0x200, 0x400000),
%start <From<u32> for CfgItfmAlgoBits>::from
        proof {
            let x = cfg;
            assert((x >> 9) & 0x3fffff == (x / 0x200) % 0x400000) by (bit_vector);
            assert((x & 0x7ffffe00) >> 9 == (x / 0x200) % 0x400000) by (bit_vector);
            assert((x & 0x7ffffe00 == 0) == ((x / 0x200) % 0x400000 == 0)) by (bit_vector);
            assert((x & 0x7ffffe00) / 0x200 == (x / 0x200) % 0x400000) by (bit_vector);
            assert(x >> 9 == x / 0x200) by (bit_vector);
            assert(0x3fffffu32 << 9 == 0x7ffffe00u32) by (bit_vector);
            assert(1u32 << 22 == 0x400000u32) by (bit_vector);
            assert((x << 1) >> 10 == (x / 0x200) % 0x400000) by (bit_vector);
        }
%take impl Default for CfgItfmAlgoBits
%header impl Default for CfgItfmAlgoBits
impl CfgItfmAlgoBits
%fn <Default for CfgItfmAlgoBits>::default | ret=r
        ensures r.0 == 0x16b156,
%fn CfgItfmAlgoBits::into_raw | ret=r
        ensures r == (self.0 % 0x400000) * 0x200,
%start CfgItfmAlgoBits::into_raw
        proof {
            let x = self.0;
            assert((x & 0x3fffff) << 9 == (x % 0x400000) * 0x200) by (bit_vector);
            assert((x << 9) & 0x7ffffe00 == (x % 0x400000) * 0x200) by (bit_vector);
            assert((x & 0x3fffff) == (x % 0x400000)) by (bit_vector);
        }
%take struct CfgItfmGeneralBits
%derive struct CfgItfmGeneralBits :: #[derive(Clone, Copy)]
%take impl CfgItfmGeneralBits
%take impl From<u32> for CfgItfmGeneralBits
%header impl From<u32> for CfgItfmGeneralBits
impl CfgItfmGeneralBits
%constfn CfgItfmGeneralBits::MASK
        ensures r == 0xfff,
;;
        proof { assert(1u32 << 12u32 == 0x1000u32) by (bit_vector); }
%fn <From<u32> for CfgItfmGeneralBits>::from | ret=r
        ensures r.0 == fld(cfg as int, 0x1, 0x1000),
%start <From<u32> for CfgItfmGeneralBits>::from
        proof {
            let x = cfg;
            assert((x >> 0) & 0xfff == (x / 0x1) % 0x1000) by (bit_vector);
            assert((x & 0xfff) >> 0 == (x / 0x1) % 0x1000) by (bit_vector);
            assert((x & 0xfff == 0) == ((x / 0x1) % 0x1000 == 0)) by (bit_vector);
            assert((x & 0xfff) / 0x1 == (x / 0x1) % 0x1000) by (bit_vector);
            assert(x & 0xfff == (x / 0x1) % 0x1000) by (bit_vector);
            assert(x >> 0 == x / 0x1) by (bit_vector);
            assert(0xfffu32 << 0 == 0xfffu32) by (bit_vector);
            assert(1u32 << 12 == 0x1000u32) by (bit_vector);
            assert((x << 20) >> 20 == (x / 0x1) % 0x1000) by (bit_vector);
        }
%take impl Default for CfgItfmGeneralBits
%header impl Default for CfgItfmGeneralBits
impl CfgItfmGeneralBits
%fn <Default for CfgItfmGeneralBits>::default | ret=r
        ensures r.0 == 0x31e,
%fn CfgItfmGeneralBits::into_raw | ret=r
        ensures r == (self.0 % 0x1000) * 0x1,
%start CfgItfmGeneralBits::into_raw
        proof {
            let x = self.0;
            assert((x & 0xfff) << 0 == (x % 0x1000) * 0x1) by (bit_vector);
            assert((x << 0) & 0xfff == (x % 0x1000) * 0x1) by (bit_vector);
            assert((x & 0xfff) == (x % 0x1000)) by (bit_vector);
        }
%take enum DataBits
%derive enum DataBits :: #[derive(Clone, Copy)]
%take impl DataBits
%take impl From<u32> for DataBits
%header impl From<u32> for DataBits
impl DataBits
%constfn DataBits::MASK
        ensures r == 0x3,
%fn <From<u32> for DataBits>::from | ret=r
        requires fld(mode as int, 0x40, 0x4) == 2 || fld(mode as int, 0x40, 0x4) == 3,
        ensures r == ({ let v = fld(mode as int, 0x40, 0x4); if v == 2 { DataBits::Seven } else if v == 3 { DataBits::Eight } else if true { DataBits::Eight } else { arbitrary() } }),
%start <From<u32> for DataBits>::from
        proof {
            let x = mode;
            assert((x >> 6) & 0x3 == (x / 0x40) % 0x4) by (bit_vector);
            assert((x & 0xc0) >> 6 == (x / 0x40) % 0x4) by (bit_vector);
            assert((x & 0xc0 == 0) == ((x / 0x40) % 0x4 == 0)) by (bit_vector);
            assert((x & 0xc0) / 0x40 == (x / 0x40) % 0x4) by (bit_vector);
            assert(x >> 6 == x / 0x40) by (bit_vector);
            assert(0x3u32 << 6 == 0xc0u32) by (bit_vector);
            assert(1u32 << 2 == 0x4u32) by (bit_vector);
            assert((x << 24) >> 30 == (x / 0x40) % 0x4) by (bit_vector);
        }
%fn DataBits::into_raw | ret=r
        ensures r == DataBits_bits(self) * 0x40,
%start DataBits::into_raw
        proof {
            assert(0x2u32 << 6u32 == 0x80u32) by (bit_vector);
            assert(0x3u32 << 6u32 == 0xc0u32) by (bit_vector);
        }
%take enum Parity
%derive enum Parity :: #[derive(Clone, Copy)]
%take impl Parity
%take impl From<u32> for Parity
%header impl From<u32> for Parity
impl Parity
%constfn Parity::MASK
        ensures r == 0x7,
%fn <From<u32> for Parity>::from | ret=r
        requires fld(mode as int, 0x200, 0x8) == 0 || fld(mode as int, 0x200, 0x8) == 1 || fld(mode as int, 0x200, 0x8) == 4 || fld(mode as int, 0x200, 0x8) == 5,
        ensures r == ({ let v = fld(mode as int, 0x200, 0x8); if v == 0 { Parity::Even } else if v == 1 { Parity::Odd } else if v == 4 { Parity::None } else if v == 5 { Parity::None } else if true { Parity::None } else { arbitrary() } }),
%start <From<u32> for Parity>::from
        proof {
            let x = mode;
            assert((x >> 9) & 0x7 == (x / 0x200) % 0x8) by (bit_vector);
            assert((x & 0xe00) >> 9 == (x / 0x200) % 0x8) by (bit_vector);
            assert((x & 0xe00 == 0) == ((x / 0x200) % 0x8 == 0)) by (bit_vector);
            assert((x & 0xe00) / 0x200 == (x / 0x200) % 0x8) by (bit_vector);
            assert(x >> 9 == x / 0x200) by (bit_vector);
            assert(0x7u32 << 9 == 0xe00u32) by (bit_vector);
            assert(1u32 << 3 == 0x8u32) by (bit_vector);
            assert((x << 20) >> 29 == (x / 0x200) % 0x8) by (bit_vector);
        }
%fn Parity::into_raw | ret=r
        ensures r == Parity_bits(self) * 0x200,
%start Parity::into_raw
        proof {
            assert(0x0u32 << 9u32 == 0x0u32) by (bit_vector);
            assert(0x1u32 << 9u32 == 0x200u32) by (bit_vector);
            assert(0x4u32 << 9u32 == 0x800u32) by (bit_vector);
        }
%take enum StopBits
%derive enum StopBits :: #[derive(Clone, Copy)]
%take impl StopBits
%take impl From<u32> for StopBits
%header impl From<u32> for StopBits
impl StopBits
%constfn StopBits::MASK
        ensures r == 0x3,
%fn <From<u32> for StopBits>::from | ret=r
        requires fld(mode as int, 0x1000, 0x4) == 0 || fld(mode as int, 0x1000, 0x4) == 1 || fld(mode as int, 0x1000, 0x4) == 2 || fld(mode as int, 0x1000, 0x4) == 3,
        ensures r == ({ let v = fld(mode as int, 0x1000, 0x4); if v == 0 { StopBits::One } else if v == 1 { StopBits::OneHalf } else if v == 2 { StopBits::Two } else if v == 3 { StopBits::Half } else if true { StopBits::Half } else { arbitrary() } }),
%start <From<u32> for StopBits>::from
        proof {
            let x = mode;
            assert((x >> 12) & 0x3 == (x / 0x1000) % 0x4) by (bit_vector);
            assert((x & 0x3000) >> 12 == (x / 0x1000) % 0x4) by (bit_vector);
            assert((x & 0x3000 == 0) == ((x / 0x1000) % 0x4 == 0)) by (bit_vector);
            assert((x & 0x3000) / 0x1000 == (x / 0x1000) % 0x4) by (bit_vector);
            assert(x >> 12 == x / 0x1000) by (bit_vector);
            assert(0x3u32 << 12 == 0x3000u32) by (bit_vector);
            assert(1u32 << 2 == 0x4u32) by (bit_vector);
            assert((x << 18) >> 30 == (x / 0x1000) % 0x4) by (bit_vector);
        }
%fn StopBits::into_raw | ret=r
        ensures r == StopBits_bits(self) * 0x1000,
%start StopBits::into_raw
        proof {
            assert(0x0u32 << 12u32 == 0x0u32) by (bit_vector);
            assert(0x1u32 << 12u32 == 0x1000u32) by (bit_vector);
            assert(0x2u32 << 12u32 == 0x2000u32) by (bit_vector);
            assert(0x3u32 << 12u32 == 0x3000u32) by (bit_vector);
        }
%take enum ResetMode
%derive enum ResetMode :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl ResetMode
%fn ResetMode::into_raw | ret=r
        ensures r == ResetMode_code(self),
%take enum AlignmentToReferenceTime
%derive enum AlignmentToReferenceTime :: #[derive(Clone, Copy)] #[repr(u16)]
%take impl AlignmentToReferenceTime
%fn AlignmentToReferenceTime::into_raw | ret=r
        ensures r == AlignmentToReferenceTime_code(self),
%take struct CfgItfmConfig
%derive struct CfgItfmConfig :: #[derive(Clone, Copy)]
%take impl CfgItfmConfig
%take impl From<u32> for CfgItfmConfig
%header impl From<u32> for CfgItfmConfig
impl CfgItfmConfig
%fn CfgItfmConfig::into_raw | ret=r
        ensures r == CfgItfmConfig_val(self),
%start CfgItfmConfig::into_raw
        proof {
            assert(forall|x: u32, y: u32| #[trigger] (x | y) == (y | x)) by (bit_vector);
            assert(forall|x: u32, y: u32, z: u32| #[trigger] ((x | y) | z) == (x | (y | z))) by (bit_vector);
            assert(forall|a: u32, b: u32, c: u32, d: u32| ((a == 0 || a == 0x80000000) && (b % 0x10 == 0 && b < 0x200) && (c < 0x10) && (d % 0x200 == 0 && d < 0x80000000)) ==> #[trigger] (a | b | c | d) == a + b + c + d) by (bit_vector);
            assert(0u32 << 31u32 == 0u32 && 1u32 << 31u32 == 0x80000000u32 && 0u32 << 14u32 == 0u32 && 1u32 << 14u32 == 0x4000u32) by (bit_vector);
            assert(0u32 << 12u32 == 0u32 && 1u32 << 12u32 == 0x1000u32 && 2u32 << 12u32 == 0x2000u32) by (bit_vector);
        }
%fn <From<u32> for CfgItfmConfig>::from | ret=r
        ensures CfgItfmConfig_is(r, cfg as int),
%start <From<u32> for CfgItfmConfig>::from
        proof {
            let x = cfg;
            assert((x >> 31) & 0x1 == (x / 0x80000000) % 0x2) by (bit_vector);
            assert((x & 0x80000000) >> 31 == (x / 0x80000000) % 0x2) by (bit_vector);
            assert((x & 0x80000000 == 0) == ((x / 0x80000000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x80000000) / 0x80000000 == (x / 0x80000000) % 0x2) by (bit_vector);
            assert(x >> 31 == (x / 0x80000000) % 0x2) by (bit_vector);
            assert((x & 0x80000000 == 0x80000000) == ((x / 0x80000000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 31 == x / 0x80000000) by (bit_vector);
            assert(0x1u32 << 31 == 0x80000000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
        }
%take struct CfgItfmConfig2
%derive struct CfgItfmConfig2 :: #[derive(Clone, Copy)]
%take impl CfgItfmConfig2
%take impl From<u32> for CfgItfmConfig2
%header impl From<u32> for CfgItfmConfig2
impl CfgItfmConfig2
%fn CfgItfmConfig2::into_raw | ret=r
        ensures r == CfgItfmConfig2_val(self),
%start CfgItfmConfig2::into_raw
        proof {
            assert(forall|x: u32, y: u32| #[trigger] (x | y) == (y | x)) by (bit_vector);
            assert(forall|x: u32, y: u32, z: u32| #[trigger] ((x | y) | z) == (x | (y | z))) by (bit_vector);
            assert(forall|a: u32, b: u32, c: u32| ((a == 0 || a == 0x4000) && (b < 0x1000) && (c == 0 || c == 0x1000 || c == 0x2000)) ==> #[trigger] (a | b | c) == a + b + c) by (bit_vector);
            assert(0u32 << 31u32 == 0u32 && 1u32 << 31u32 == 0x80000000u32 && 0u32 << 14u32 == 0u32 && 1u32 << 14u32 == 0x4000u32) by (bit_vector);
            assert(0u32 << 12u32 == 0u32 && 1u32 << 12u32 == 0x1000u32 && 2u32 << 12u32 == 0x2000u32) by (bit_vector);
        }
%fn <From<u32> for CfgItfmConfig2>::from | ret=r
        ensures CfgItfmConfig2_is(r, cfg as int),
%start <From<u32> for CfgItfmConfig2>::from
        proof {
            let x = cfg;
            assert((x >> 14) & 0x1 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000) >> 14 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000 == 0) == ((x / 0x4000) % 0x2 == 0)) by (bit_vector);
            assert((x & 0x4000) / 0x4000 == (x / 0x4000) % 0x2) by (bit_vector);
            assert((x & 0x4000 == 0x4000) == ((x / 0x4000) % 0x2 == 1)) by (bit_vector);
            assert(x >> 14 == x / 0x4000) by (bit_vector);
            assert(0x1u32 << 14 == 0x4000u32) by (bit_vector);
            assert(1u32 << 1 == 0x2u32) by (bit_vector);
            assert((x << 17) >> 31 == (x / 0x4000) % 0x2) by (bit_vector);
        }
%take struct UartMode
%derive struct UartMode :: #[derive(Clone, Copy)]
%take impl UartMode
%take impl From<u32> for UartMode
%header impl From<u32> for UartMode
impl UartMode
%fn UartMode::into_raw | ret=r
        ensures r == UartMode_val(self),
%start UartMode::into_raw
        proof {
            assert(forall|x: u32, y: u32| #[trigger] (x | y) == (y | x)) by (bit_vector);
            assert(forall|x: u32, y: u32, z: u32| #[trigger] ((x | y) | z) == (x | (y | z))) by (bit_vector);
            assert(forall|a: u32, b: u32, c: u32| ((a == 0x80 || a == 0xc0) && (b == 0 || b == 0x200 || b == 0x800) && (c == 0 || c == 0x1000 || c == 0x2000 || c == 0x3000)) ==> #[trigger] (a | b | c) == a + b + c) by (bit_vector);
            assert(0u32 << 31u32 == 0u32 && 1u32 << 31u32 == 0x80000000u32 && 0u32 << 14u32 == 0u32 && 1u32 << 14u32 == 0x4000u32) by (bit_vector);
            assert(0u32 << 12u32 == 0u32 && 1u32 << 12u32 == 0x1000u32 && 2u32 << 12u32 == 0x2000u32) by (bit_vector);
        }
%fn <From<u32> for UartMode>::from | ret=r
        requires UartMode_ok(mode),
        ensures UartMode_is(r, mode as int),
%start <From<u32> for UartMode>::from
        proof {
            let x = mode;
        }
%fn CfgItfmConfig::new | ret=r
        ensures r.enable == enable, r.bb_threshold.0 == bb_threshold, r.cw_threshold.0 == cw_threshold, r.algorithm_bits.0 == 0x16B156,
%fn CfgItfmConfig2::new | ret=r
        ensures r.general.0 == 0x31E, r.antenna == antenna, r.scan_aux_bands == scan_aux_bands,
%fn UartMode::new | ret=r
        ensures r.data_bits == data_bits, r.parity == parity, r.stop_bits == stop_bits,
%take enum CfgItfmAntennaSettings
%derive enum CfgItfmAntennaSettings :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl CfgItfmAntennaSettings
%fn CfgItfmAntennaSettings::from_unchecked
        requires x < 3,
%fn CfgItfmAntennaSettings::into_raw | ret=r
        ensures r == ant_code(self),
%take impl From<u32> for CfgItfmAntennaSettings
%header impl From<u32> for CfgItfmAntennaSettings
impl CfgItfmAntennaSettings
%fn <From<u32> for CfgItfmAntennaSettings>::from | ret=r
        ensures r == ant_of(fld(cfg as int, 0x1000, 4)),
%start <From<u32> for CfgItfmAntennaSettings>::from
        proof {
            let x = cfg;
            assert((x >> 12) & 0x3 == (x / 0x1000) % 0x4) by (bit_vector);
            assert((x & 0x3000) >> 12 == (x / 0x1000) % 0x4) by (bit_vector);
            assert((x & 0x3000 == 0) == ((x / 0x1000) % 0x4 == 0)) by (bit_vector);
            assert((x & 0x3000) / 0x1000 == (x / 0x1000) % 0x4) by (bit_vector);
            assert(x >> 12 == x / 0x1000) by (bit_vector);
            assert(0x3u32 << 12 == 0x3000u32) by (bit_vector);
            assert(1u32 << 2 == 0x4u32) by (bit_vector);
            assert((x << 18) >> 30 == (x / 0x1000) % 0x4) by (bit_vector);
        }
%gsubst
Self::MASK ==> Self::MASK()
