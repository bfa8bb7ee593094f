%# AidIniBuilder::{set_position, set_time} of the real crate (path dependency) with the real chrono, checked by Kani
%# for every position and every UTC time of the years the message can express (no loops, no bounds).
%plain
%prelude
#[cfg(kani)]
mod h {
    use chrono::prelude::*;
    use ublox::{AidIniBuilder, Position};
    fn any_builder() -> AidIniBuilder {
        AidIniBuilder {
            ecef_x_or_lat: kani::any(), ecef_y_or_lon: kani::any(), ecef_z_or_alt: kani::any(), pos_accuracy: kani::any(), time_cfg: kani::any(), week_or_ym: kani::any(),
            tow_or_hms: kani::any(), tow_ns: kani::any(), tm_accuracy_ms: kani::any(), tm_accuracy_ns: kani::any(), clk_drift_or_freq: kani::any(),
            clk_drift_or_freq_accuracy: kani::any(), flags: kani::any(),
        }
    }
    fn copy(a: &AidIniBuilder) -> AidIniBuilder {
        AidIniBuilder {
            ecef_x_or_lat: a.ecef_x_or_lat, ecef_y_or_lon: a.ecef_y_or_lon, ecef_z_or_alt: a.ecef_z_or_alt, pos_accuracy: a.pos_accuracy, time_cfg: a.time_cfg, week_or_ym: a.week_or_ym,
            tow_or_hms: a.tow_or_hms, tow_ns: a.tow_ns, tm_accuracy_ms: a.tm_accuracy_ms, tm_accuracy_ns: a.tm_accuracy_ns, clk_drift_or_freq: a.clk_drift_or_freq,
            clk_drift_or_freq_accuracy: a.clk_drift_or_freq_accuracy, flags: a.flags,
        }
    }
    fn others(a: &AidIniBuilder, b: &AidIniBuilder) -> bool {
        a.pos_accuracy == b.pos_accuracy && a.time_cfg == b.time_cfg && a.tm_accuracy_ms == b.tm_accuracy_ms && a.tm_accuracy_ns == b.tm_accuracy_ns
            && a.clk_drift_or_freq == b.clk_drift_or_freq && a.clk_drift_or_freq_accuracy == b.clk_drift_or_freq_accuracy
    }
    /// less than one unit away from `v`, the nearest bound outside the range
    fn stored(n: i32, v: f64) -> bool {
        n == v as i32 || if v >= 2147483647.0 { n == i32::MAX } else if v <= -2147483648.0 { n == i32::MIN } else { v.is_nan() || ((n as f64) - 1.0 < v && v < (n as f64) + 1.0) }
    }
    #[kani::proof]
    fn set_position__lat() {
        let (lat, lon, alt): (f64, f64, f64) = kani::any();
        let b = any_builder().set_position(Position { lat, lon, alt });
        assert!(stored(b.ecef_x_or_lat, lat * 1e7));
    }
    #[kani::proof]
    fn set_position__lon() {
        let (lat, lon, alt): (f64, f64, f64) = kani::any();
        let b = any_builder().set_position(Position { lat, lon, alt });
        assert!(stored(b.ecef_y_or_lon, lon * 1e7));
    }
    #[kani::proof]
    fn set_position__alt() {
        let (lat, lon, alt): (f64, f64, f64) = kani::any();
        let b = any_builder().set_position(Position { lat, lon, alt });
        assert!(stored(b.ecef_z_or_alt, alt * 100.0));
    }
    #[kani::proof]
    fn set_position__rest() {
        let a = any_builder();
        let (lat, lon, alt): (f64, f64, f64) = kani::any();
        let b = copy(&a).set_position(Position { lat, lon, alt });
        // position valid, given as latitude, longitude and height; nothing else changes
        assert!(b.flags == a.flags | 0x01 | 0x20);
        assert!(others(&a, &b) && b.week_or_ym == a.week_or_ym && b.tow_or_hms == a.tow_or_hms && b.tow_ns == a.tow_ns);
    }
    #[kani::proof]
    fn set_time() {
        let a = any_builder();
        let (y, mo, d, h, mi, s, n): (i32, u32, u32, u32, u32, u32, u32) = kani::any();
        kani::assume(2000 <= y && y <= 2099);
        if let Some(t) = NaiveDate::from_ymd_opt(y, mo, d) {
            if let Some(t) = t.and_hms_nano_opt(h, mi, s, n) {
                kani::assume(n < 1_000_000_000);
                let b = copy(&a).set_time(Utc.from_utc_datetime(&t));
                assert!(b.week_or_ym as i32 == (y - 2000) * 100 + mo as i32);
                assert!(b.tow_or_hms == d * 1_000_000 + h * 10_000 + mi * 100 + s);
                assert!(b.tow_ns == n as i32);
                // time valid, given as UTC; nothing else changes
                assert!(b.flags == a.flags | 0x02 | 0x400);
                assert!(others(&a, &b) && b.ecef_x_or_lat == a.ecef_x_or_lat && b.ecef_y_or_lon == a.ecef_y_or_lon && b.ecef_z_or_alt == a.ecef_z_or_alt);
            }
        }
    }
    #[kani::proof]
    #[kani::should_panic]
    fn probe() {
        let b = any_builder().set_time(Utc.from_utc_datetime(&NaiveDate::from_ymd_opt(2024, 2, 29).unwrap().and_hms_opt(1, 2, 3).unwrap()));
        assert!(b.week_or_ym != 2402 && b.flags != 0x402);
    }
}
