%# TryFrom<&NavPvtRef> for DateTime<Utc>: the function as it is, the accessors it reads the packet
%# with and the real chrono crate, checked by Kani for every payload (no loops, no bounds).
%plain
%prelude
use chrono::prelude::*;
use core::{convert::TryFrom, fmt};
%source error
%take enum DateTimeError
%derive enum DateTimeError :: #[derive(PartialEq, Debug)]
%source exp
%take struct NavPvtRef
%take impl NavPvtRef
%only impl NavPvtRef = year month day hour min sec nanosecond valid flags2_raw
%source types
%all
%drop struct Position
%drop struct PositionECEF
%drop struct Velocity
%drop struct FieldIter
%drop impl Debug for FieldIter<I>
%drop impl fmt::Debug for FieldIter<I>
%drop impl Serialize for FieldIter<I>
%drop impl From<&NavPosLlhRef> for Position
%drop impl From<&NavHpPosLlhRef> for Position
%drop impl From<&NavHpPosEcefRef> for PositionECEF
%drop impl From<&NavVelNedRef> for Velocity
%drop impl From<&NavPvtRef> for Position
%drop impl From<&NavPvtRef> for Velocity
%postlude
#[cfg(kani)]
mod h {
    use super::*;
    fn leap(y: i32) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
    fn dim(y: i32, m: u32) -> u32 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap(y) { 29 } else { 28 }, _ => 0 } }
    fn convert() -> ([u8; 92], Result<DateTime<Utc>, DateTimeError>) {
        let p: [u8; 92] = kani::any();
        let r = DateTime::<Utc>::try_from(&NavPvtRef(&p));
        (p, r)
    }
    fn date_ok(p: &[u8; 92]) -> bool {
        let (y, m, d) = (p[4] as i32 + 256 * p[5] as i32, p[6] as u32, p[7] as u32);
        1 <= m && m <= 12 && 1 <= d && d <= dim(y, m)
    }
    fn time_ok(p: &[u8; 92]) -> bool { p[8] < 24 && p[9] < 60 && p[10] < 60 }
    fn nanos(p: &[u8; 92]) -> i32 { (p[16] as u32 | (p[17] as u32) << 8 | (p[18] as u32) << 16 | (p[19] as u32) << 24) as i32 }
    fn nanos_ok(p: &[u8; 92]) -> bool { -1_000_000_000 < nanos(p) && nanos(p) < 1_000_000_000 }

    /// an instant is returned exactly for valid fields, and otherwise the error names an invalid part
    #[kani::proof]
    fn datetime_errors() {
        let (p, r) = convert();
        match r {
            Ok(_) => assert!(date_ok(&p) && time_ok(&p) && nanos_ok(&p)),
            Err(DateTimeError::InvalidDate) => assert!(!date_ok(&p)),
            Err(DateTimeError::InvalidTime) => assert!(!time_ok(&p)),
            Err(DateTimeError::InvalidNanoseconds) => assert!(!nanos_ok(&p)),
        }
    }
    /// the instant is the calendar date and time of day of the packet, moved by its nanoseconds
    #[kani::proof]
    fn datetime_instant() {
        let (p, r) = convert();
        if let Ok(r) = r {
            let (mut y, mut m, mut d) = (p[4] as i32 + 256 * p[5] as i32, p[6] as u32, p[7] as u32);
            let mut s = p[8] as i32 * 3600 + p[9] as i32 * 60 + p[10] as i32;
            let mut n = nanos(&p);
            if n < 0 {
                n += 1_000_000_000;
                s -= 1;
            }
            if s < 0 {
                s += 86400;
                d -= 1;
                if d == 0 {
                    m -= 1;
                    if m == 0 { m = 12; y -= 1; }
                    d = dim(y, m);
                }
            }
            let r = r.naive_utc();
            assert!(r.year() == y && r.month() == m && r.day() == d);
            assert!(r.num_seconds_from_midnight() as i32 == s && r.nanosecond() as i32 == n);
        }
    }
    #[kani::proof]
    #[kani::should_panic]
    fn probe() {
        let (_, r) = convert();
        if let Ok(r) = r { assert!(r.naive_utc().nanosecond() != 77); }
    }
}
