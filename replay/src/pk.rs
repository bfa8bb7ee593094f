//! Generated by tools/genrpack.py from spec/layout.json; do not edit.
#![allow(non_snake_case, unused_variables, clippy::all)]
use crate::pkh::*;
use crate::Rng;
use ublox::*;
pub fn name_GpsFix(x: i128) -> String {
    match x {
        0 => "NoFix".into(),
        1 => "DeadReckoningOnly".into(),
        2 => "Fix2D".into(),
        3 => "Fix3D".into(),
        4 => "GPSPlusDeadReckoning".into(),
        5 => "TimeOnlyFix".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_GpsFix(x: u64) -> (GpsFix, i128) {
    match x % 6 {
        0 => (GpsFix::NoFix, 0),
        1 => (GpsFix::DeadReckoningOnly, 1),
        2 => (GpsFix::Fix2D, 2),
        3 => (GpsFix::Fix3D, 3),
        4 => (GpsFix::GPSPlusDeadReckoning, 4),
        _ => (GpsFix::TimeOnlyFix, 5),
    }
}
pub fn name_NavStatusFlags2(x: i128) -> String {
    match x {
        0 => "Acquisition".into(),
        1 => "Tracking".into(),
        2 => "PowerOptimizedTracking".into(),
        3 => "Inactive".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_NavStatusFlags2(x: u64) -> (NavStatusFlags2, i128) {
    match x % 4 {
        0 => (NavStatusFlags2::Acquisition, 0),
        1 => (NavStatusFlags2::Tracking, 1),
        2 => (NavStatusFlags2::PowerOptimizedTracking, 2),
        _ => (NavStatusFlags2::Inactive, 3),
    }
}
pub fn name_OdoProfile(x: i128) -> String {
    match x {
        0 => "Running".into(),
        1 => "Cycling".into(),
        2 => "Swimming".into(),
        3 => "Car".into(),
        4 => "Custom".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_OdoProfile(x: u64) -> (OdoProfile, i128) {
    match x % 5 {
        0 => (OdoProfile::Running, 0),
        1 => (OdoProfile::Cycling, 1),
        2 => (OdoProfile::Swimming, 2),
        3 => (OdoProfile::Car, 3),
        _ => (OdoProfile::Custom, 4),
    }
}
pub fn name_CfgItfmAntennaSettings(x: i128) -> String {
    match x {
        0 => "Unknown".into(),
        1 => "Active".into(),
        2 => "Passive".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgItfmAntennaSettings(x: u64) -> (CfgItfmAntennaSettings, i128) {
    match x % 3 {
        0 => (CfgItfmAntennaSettings::Unknown, 0),
        1 => (CfgItfmAntennaSettings::Active, 1),
        _ => (CfgItfmAntennaSettings::Passive, 2),
    }
}
pub fn name_CfgTp5TimePulseMode(x: i128) -> String {
    match x {
        0 => "TimePulse".into(),
        1 => "TimePulse2".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgTp5TimePulseMode(x: u64) -> (CfgTp5TimePulseMode, i128) {
    match x % 2 {
        0 => (CfgTp5TimePulseMode::TimePulse, 0),
        _ => (CfgTp5TimePulseMode::TimePulse2, 1),
    }
}
pub fn name_CfgTmode2TimeXferModes(x: i128) -> String {
    match x {
        0 => "Disabled".into(),
        1 => "SurveyIn".into(),
        2 => "FixedMode".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgTmode2TimeXferModes(x: u64) -> (CfgTmode2TimeXferModes, i128) {
    match x % 3 {
        0 => (CfgTmode2TimeXferModes::Disabled, 0),
        1 => (CfgTmode2TimeXferModes::SurveyIn, 1),
        _ => (CfgTmode2TimeXferModes::FixedMode, 2),
    }
}
pub fn name_I2cPortId(x: i128) -> String {
    match x {
        0 => "I2c".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_I2cPortId(x: u64) -> (I2cPortId, i128) {
    match x % 1 {
        _ => (I2cPortId::I2c, 0),
    }
}
pub fn name_UartPortId(x: i128) -> String {
    match x {
        1 => "Uart1".into(),
        2 => "Uart2".into(),
        3 => "Usb".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_UartPortId(x: u64) -> (UartPortId, i128) {
    match x % 3 {
        0 => (UartPortId::Uart1, 1),
        1 => (UartPortId::Uart2, 2),
        _ => (UartPortId::Usb, 3),
    }
}
pub fn name_SpiPortId(x: i128) -> String {
    match x {
        4 => "Spi".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_SpiPortId(x: u64) -> (SpiPortId, i128) {
    match x % 1 {
        _ => (SpiPortId::Spi, 4),
    }
}
pub fn name_CfgNav5DynModel(x: i128) -> String {
    match x {
        0 => "Portable".into(),
        2 => "Stationary".into(),
        3 => "Pedestrian".into(),
        4 => "Automotive".into(),
        5 => "Sea".into(),
        6 => "AirborneWithLess1gAcceleration".into(),
        7 => "AirborneWithLess2gAcceleration".into(),
        8 => "AirborneWith4gAcceleration".into(),
        9 => "WristWornWatch".into(),
        10 => "Bike".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgNav5DynModel(x: u64) -> (CfgNav5DynModel, i128) {
    match x % 10 {
        0 => (CfgNav5DynModel::Portable, 0),
        1 => (CfgNav5DynModel::Stationary, 2),
        2 => (CfgNav5DynModel::Pedestrian, 3),
        3 => (CfgNav5DynModel::Automotive, 4),
        4 => (CfgNav5DynModel::Sea, 5),
        5 => (CfgNav5DynModel::AirborneWithLess1gAcceleration, 6),
        6 => (CfgNav5DynModel::AirborneWithLess2gAcceleration, 7),
        7 => (CfgNav5DynModel::AirborneWith4gAcceleration, 8),
        8 => (CfgNav5DynModel::WristWornWatch, 9),
        _ => (CfgNav5DynModel::Bike, 10),
    }
}
pub fn name_CfgNav5FixMode(x: i128) -> String {
    match x {
        1 => "Only2D".into(),
        2 => "Only3D".into(),
        3 => "Auto2D3D".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgNav5FixMode(x: u64) -> (CfgNav5FixMode, i128) {
    match x % 3 {
        0 => (CfgNav5FixMode::Only2D, 1),
        1 => (CfgNav5FixMode::Only3D, 2),
        _ => (CfgNav5FixMode::Auto2D3D, 3),
    }
}
pub fn name_CfgNav5UtcStandard(x: i128) -> String {
    match x {
        0 => "Automatic".into(),
        3 => "Usno".into(),
        6 => "UtcSu".into(),
        7 => "UtcChina".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_CfgNav5UtcStandard(x: u64) -> (CfgNav5UtcStandard, i128) {
    match x % 4 {
        0 => (CfgNav5UtcStandard::Automatic, 0),
        1 => (CfgNav5UtcStandard::Usno, 3),
        2 => (CfgNav5UtcStandard::UtcSu, 6),
        _ => (CfgNav5UtcStandard::UtcChina, 7),
    }
}
pub fn name_MsgAckInfoCode(x: i128) -> String {
    match x {
        0 => "Accepted".into(),
        1 => "RejectedNoTime".into(),
        2 => "RejectedBadVersion".into(),
        3 => "RejectedBadSize".into(),
        4 => "RejectedDBStoreFailed".into(),
        5 => "RejectedNotReady".into(),
        6 => "RejectedUnknownType".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_MsgAckInfoCode(x: u64) -> (MsgAckInfoCode, i128) {
    match x % 7 {
        0 => (MsgAckInfoCode::Accepted, 0),
        1 => (MsgAckInfoCode::RejectedNoTime, 1),
        2 => (MsgAckInfoCode::RejectedBadVersion, 2),
        3 => (MsgAckInfoCode::RejectedBadSize, 3),
        4 => (MsgAckInfoCode::RejectedDBStoreFailed, 4),
        5 => (MsgAckInfoCode::RejectedNotReady, 5),
        _ => (MsgAckInfoCode::RejectedUnknownType, 6),
    }
}
pub fn name_AntennaStatus(x: i128) -> String {
    match x {
        0 => "Init".into(),
        1 => "DontKnow".into(),
        2 => "Ok".into(),
        3 => "Short".into(),
        4 => "Open".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_AntennaStatus(x: u64) -> (AntennaStatus, i128) {
    match x % 5 {
        0 => (AntennaStatus::Init, 0),
        1 => (AntennaStatus::DontKnow, 1),
        2 => (AntennaStatus::Ok, 2),
        3 => (AntennaStatus::Short, 3),
        _ => (AntennaStatus::Open, 4),
    }
}
pub fn name_AntennaPower(x: i128) -> String {
    match x {
        0 => "Off".into(),
        1 => "On".into(),
        2 => "DontKnow".into(),
        x => format!("Reserved{}", x),
    }
}
pub fn mk_AntennaPower(x: u64) -> (AntennaPower, i128) {
    match x % 3 {
        0 => (AntennaPower::Off, 0),
        1 => (AntennaPower::On, 1),
        _ => (AntennaPower::DontKnow, 2),
    }
}
/// every declared code and bit
pub fn codes() -> R {
    ck("GpsFix::NoFix", GpsFix::NoFix as i128, 0)?;
    ck("GpsFix::DeadReckoningOnly", GpsFix::DeadReckoningOnly as i128, 1)?;
    ck("GpsFix::Fix2D", GpsFix::Fix2D as i128, 2)?;
    ck("GpsFix::Fix3D", GpsFix::Fix3D as i128, 3)?;
    ck("GpsFix::GPSPlusDeadReckoning", GpsFix::GPSPlusDeadReckoning as i128, 4)?;
    ck("GpsFix::TimeOnlyFix", GpsFix::TimeOnlyFix as i128, 5)?;
    ck("NavStatusFlags2::Acquisition", NavStatusFlags2::Acquisition as i128, 0)?;
    ck("NavStatusFlags2::Tracking", NavStatusFlags2::Tracking as i128, 1)?;
    ck("NavStatusFlags2::PowerOptimizedTracking", NavStatusFlags2::PowerOptimizedTracking as i128, 2)?;
    ck("NavStatusFlags2::Inactive", NavStatusFlags2::Inactive as i128, 3)?;
    ck("OdoProfile::Running", OdoProfile::Running as i128, 0)?;
    ck("OdoProfile::Cycling", OdoProfile::Cycling as i128, 1)?;
    ck("OdoProfile::Swimming", OdoProfile::Swimming as i128, 2)?;
    ck("OdoProfile::Car", OdoProfile::Car as i128, 3)?;
    ck("OdoProfile::Custom", OdoProfile::Custom as i128, 4)?;
    ck("CfgItfmAntennaSettings::Unknown", CfgItfmAntennaSettings::Unknown as i128, 0)?;
    ck("CfgItfmAntennaSettings::Active", CfgItfmAntennaSettings::Active as i128, 1)?;
    ck("CfgItfmAntennaSettings::Passive", CfgItfmAntennaSettings::Passive as i128, 2)?;
    ck("CfgTp5TimePulseMode::TimePulse", CfgTp5TimePulseMode::TimePulse as i128, 0)?;
    ck("CfgTp5TimePulseMode::TimePulse2", CfgTp5TimePulseMode::TimePulse2 as i128, 1)?;
    ck("CfgTmode2TimeXferModes::Disabled", CfgTmode2TimeXferModes::Disabled as i128, 0)?;
    ck("CfgTmode2TimeXferModes::SurveyIn", CfgTmode2TimeXferModes::SurveyIn as i128, 1)?;
    ck("CfgTmode2TimeXferModes::FixedMode", CfgTmode2TimeXferModes::FixedMode as i128, 2)?;
    ck("I2cPortId::I2c", I2cPortId::I2c as i128, 0)?;
    ck("UartPortId::Uart1", UartPortId::Uart1 as i128, 1)?;
    ck("UartPortId::Uart2", UartPortId::Uart2 as i128, 2)?;
    ck("UartPortId::Usb", UartPortId::Usb as i128, 3)?;
    ck("SpiPortId::Spi", SpiPortId::Spi as i128, 4)?;
    ck("CfgNav5DynModel::Portable", CfgNav5DynModel::Portable as i128, 0)?;
    ck("CfgNav5DynModel::Stationary", CfgNav5DynModel::Stationary as i128, 2)?;
    ck("CfgNav5DynModel::Pedestrian", CfgNav5DynModel::Pedestrian as i128, 3)?;
    ck("CfgNav5DynModel::Automotive", CfgNav5DynModel::Automotive as i128, 4)?;
    ck("CfgNav5DynModel::Sea", CfgNav5DynModel::Sea as i128, 5)?;
    ck("CfgNav5DynModel::AirborneWithLess1gAcceleration", CfgNav5DynModel::AirborneWithLess1gAcceleration as i128, 6)?;
    ck("CfgNav5DynModel::AirborneWithLess2gAcceleration", CfgNav5DynModel::AirborneWithLess2gAcceleration as i128, 7)?;
    ck("CfgNav5DynModel::AirborneWith4gAcceleration", CfgNav5DynModel::AirborneWith4gAcceleration as i128, 8)?;
    ck("CfgNav5DynModel::WristWornWatch", CfgNav5DynModel::WristWornWatch as i128, 9)?;
    ck("CfgNav5DynModel::Bike", CfgNav5DynModel::Bike as i128, 10)?;
    ck("CfgNav5FixMode::Only2D", CfgNav5FixMode::Only2D as i128, 1)?;
    ck("CfgNav5FixMode::Only3D", CfgNav5FixMode::Only3D as i128, 2)?;
    ck("CfgNav5FixMode::Auto2D3D", CfgNav5FixMode::Auto2D3D as i128, 3)?;
    ck("CfgNav5UtcStandard::Automatic", CfgNav5UtcStandard::Automatic as i128, 0)?;
    ck("CfgNav5UtcStandard::Usno", CfgNav5UtcStandard::Usno as i128, 3)?;
    ck("CfgNav5UtcStandard::UtcSu", CfgNav5UtcStandard::UtcSu as i128, 6)?;
    ck("CfgNav5UtcStandard::UtcChina", CfgNav5UtcStandard::UtcChina as i128, 7)?;
    ck("MsgAckInfoCode::Accepted", MsgAckInfoCode::Accepted as i128, 0)?;
    ck("MsgAckInfoCode::RejectedNoTime", MsgAckInfoCode::RejectedNoTime as i128, 1)?;
    ck("MsgAckInfoCode::RejectedBadVersion", MsgAckInfoCode::RejectedBadVersion as i128, 2)?;
    ck("MsgAckInfoCode::RejectedBadSize", MsgAckInfoCode::RejectedBadSize as i128, 3)?;
    ck("MsgAckInfoCode::RejectedDBStoreFailed", MsgAckInfoCode::RejectedDBStoreFailed as i128, 4)?;
    ck("MsgAckInfoCode::RejectedNotReady", MsgAckInfoCode::RejectedNotReady as i128, 5)?;
    ck("MsgAckInfoCode::RejectedUnknownType", MsgAckInfoCode::RejectedUnknownType as i128, 6)?;
    ck("AntennaStatus::Init", AntennaStatus::Init as i128, 0)?;
    ck("AntennaStatus::DontKnow", AntennaStatus::DontKnow as i128, 1)?;
    ck("AntennaStatus::Ok", AntennaStatus::Ok as i128, 2)?;
    ck("AntennaStatus::Short", AntennaStatus::Short as i128, 3)?;
    ck("AntennaStatus::Open", AntennaStatus::Open as i128, 4)?;
    ck("AntennaPower::Off", AntennaPower::Off as i128, 0)?;
    ck("AntennaPower::On", AntennaPower::On as i128, 1)?;
    ck("AntennaPower::DontKnow", AntennaPower::DontKnow as i128, 2)?;
    ck("NavHpPosEcefFlags::INVALID_ECEF", NavHpPosEcefFlags::INVALID_ECEF.bits() as i128, 0x1)?;
    for x in probes(0xff) { ck("NavHpPosEcefFlags::from_bits_truncate", NavHpPosEcefFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavPvtFlags::GPS_FIX_OK", NavPvtFlags::GPS_FIX_OK.bits() as i128, 0x1)?;
    ck("NavPvtFlags::DIFF_SOLN", NavPvtFlags::DIFF_SOLN.bits() as i128, 0x2)?;
    ck("NavPvtFlags::HEAD_VEH_VALID", NavPvtFlags::HEAD_VEH_VALID.bits() as i128, 0x20)?;
    ck("NavPvtFlags::CARR_SOLN_FLOAT", NavPvtFlags::CARR_SOLN_FLOAT.bits() as i128, 0x40)?;
    ck("NavPvtFlags::CARR_SOLN_FIXED", NavPvtFlags::CARR_SOLN_FIXED.bits() as i128, 0x80)?;
    for x in probes(0xff) { ck("NavPvtFlags::from_bits_truncate", NavPvtFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavPvtFlags2::CONFIRMED_AVAI", NavPvtFlags2::CONFIRMED_AVAI.bits() as i128, 0x20)?;
    ck("NavPvtFlags2::CONFIRMED_DATE", NavPvtFlags2::CONFIRMED_DATE.bits() as i128, 0x40)?;
    ck("NavPvtFlags2::CONFIRMED_TIME", NavPvtFlags2::CONFIRMED_TIME.bits() as i128, 0x80)?;
    for x in probes(0xff) { ck("NavPvtFlags2::from_bits_truncate", NavPvtFlags2::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavStatusFlags::GPS_FIX_OK", NavStatusFlags::GPS_FIX_OK.bits() as i128, 0x1)?;
    ck("NavStatusFlags::DIFF_SOLN", NavStatusFlags::DIFF_SOLN.bits() as i128, 0x2)?;
    ck("NavStatusFlags::WKN_SET", NavStatusFlags::WKN_SET.bits() as i128, 0x4)?;
    ck("NavStatusFlags::TOW_SET", NavStatusFlags::TOW_SET.bits() as i128, 0x8)?;
    for x in probes(0xff) { ck("NavStatusFlags::from_bits_truncate", NavStatusFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("OdoCogFilterFlags::USE_ODO", OdoCogFilterFlags::USE_ODO.bits() as i128, 0x1)?;
    ck("OdoCogFilterFlags::USE_COG", OdoCogFilterFlags::USE_COG.bits() as i128, 0x2)?;
    ck("OdoCogFilterFlags::OUT_LP_VEL", OdoCogFilterFlags::OUT_LP_VEL.bits() as i128, 0x4)?;
    ck("OdoCogFilterFlags::OUT_LP_COG", OdoCogFilterFlags::OUT_LP_COG.bits() as i128, 0x8)?;
    for x in probes(0xff) { ck("OdoCogFilterFlags::from_bits_truncate", OdoCogFilterFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgInfMask::ERROR", CfgInfMask::ERROR.bits() as i128, 0x1)?;
    ck("CfgInfMask::WARNING", CfgInfMask::WARNING.bits() as i128, 0x2)?;
    ck("CfgInfMask::NOTICE", CfgInfMask::NOTICE.bits() as i128, 0x4)?;
    ck("CfgInfMask::TEST", CfgInfMask::TEST.bits() as i128, 0x8)?;
    ck("CfgInfMask::DEBUG", CfgInfMask::DEBUG.bits() as i128, 0x10)?;
    for x in probes(0xff) { ck("CfgInfMask::from_bits_truncate", CfgInfMask::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("AntFlags::SVCS", AntFlags::SVCS.bits() as i128, 0x1)?;
    ck("AntFlags::SCD", AntFlags::SCD.bits() as i128, 0x2)?;
    ck("AntFlags::OCD", AntFlags::OCD.bits() as i128, 0x4)?;
    ck("AntFlags::PDWN_ON_SCD", AntFlags::PDWN_ON_SCD.bits() as i128, 0x8)?;
    ck("AntFlags::RECOVERY", AntFlags::RECOVERY.bits() as i128, 0x10)?;
    for x in probes(0xffff) { ck("AntFlags::from_bits_truncate", AntFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgTmode2Flags::LLA", CfgTmode2Flags::LLA.bits() as i128, 0x1)?;
    ck("CfgTmode2Flags::ALT_INVALID", CfgTmode2Flags::ALT_INVALID.bits() as i128, 0x2)?;
    for x in probes(0xffff) { ck("CfgTmode2Flags::from_bits_truncate", CfgTmode2Flags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavTimeLsFlags::VALID_CURR_LS", NavTimeLsFlags::VALID_CURR_LS.bits() as i128, 0x1)?;
    ck("NavTimeLsFlags::VALID_TIME_TO_LS_EVENT", NavTimeLsFlags::VALID_TIME_TO_LS_EVENT.bits() as i128, 0x2)?;
    for x in probes(0xff) { ck("NavTimeLsFlags::from_bits_truncate", NavTimeLsFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgTmode3RcvrMode::DISABLED", CfgTmode3RcvrMode::DISABLED.bits() as i128, 0x1)?;
    ck("CfgTmode3RcvrMode::SURVEY_IN", CfgTmode3RcvrMode::SURVEY_IN.bits() as i128, 0x2)?;
    ck("CfgTmode3RcvrMode::FIXED_MODE", CfgTmode3RcvrMode::FIXED_MODE.bits() as i128, 0x4)?;
    for x in probes(0xff) { ck("CfgTmode3RcvrMode::from_bits_truncate", CfgTmode3RcvrMode::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgTp5Flags::ACTIVE", CfgTp5Flags::ACTIVE.bits() as i128, 0x1)?;
    ck("CfgTp5Flags::LOCK_GNSS_FREQ", CfgTp5Flags::LOCK_GNSS_FREQ.bits() as i128, 0x2)?;
    ck("CfgTp5Flags::LOCKED_OTHER_SET", CfgTp5Flags::LOCKED_OTHER_SET.bits() as i128, 0x4)?;
    ck("CfgTp5Flags::IS_FREQ", CfgTp5Flags::IS_FREQ.bits() as i128, 0x8)?;
    ck("CfgTp5Flags::IS_LENGTH", CfgTp5Flags::IS_LENGTH.bits() as i128, 0x10)?;
    ck("CfgTp5Flags::ALIGN_TO_TOW", CfgTp5Flags::ALIGN_TO_TOW.bits() as i128, 0x20)?;
    ck("CfgTp5Flags::POLARITY", CfgTp5Flags::POLARITY.bits() as i128, 0x40)?;
    ck("CfgTp5Flags::UTC_TIME_GRID", CfgTp5Flags::UTC_TIME_GRID.bits() as i128, 0x80)?;
    ck("CfgTp5Flags::GPS_TIME_GRID", CfgTp5Flags::GPS_TIME_GRID.bits() as i128, 0x100)?;
    ck("CfgTp5Flags::GLO_TIME_GRID", CfgTp5Flags::GLO_TIME_GRID.bits() as i128, 0x200)?;
    ck("CfgTp5Flags::BDS_TIME_GRID", CfgTp5Flags::BDS_TIME_GRID.bits() as i128, 0x400)?;
    ck("CfgTp5Flags::GAL_TIME_GRID", CfgTp5Flags::GAL_TIME_GRID.bits() as i128, 0x800)?;
    ck("CfgTp5Flags::SYNC_MODE_0", CfgTp5Flags::SYNC_MODE_0.bits() as i128, 0x1000)?;
    ck("CfgTp5Flags::SYNC_MODE_1", CfgTp5Flags::SYNC_MODE_1.bits() as i128, 0x2000)?;
    for x in probes(0xffffffff) { ck("CfgTp5Flags::from_bits_truncate", CfgTp5Flags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgTmode3Flags::LLA", CfgTmode3Flags::LLA.bits() as i128, 0x1)?;
    for x in probes(0xff) { ck("CfgTmode3Flags::from_bits_truncate", CfgTmode3Flags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavBbrMask::EPHEMERIS", NavBbrMask::EPHEMERIS.bits() as i128, 0x1)?;
    ck("NavBbrMask::ALMANACH", NavBbrMask::ALMANACH.bits() as i128, 0x2)?;
    ck("NavBbrMask::HEALTH", NavBbrMask::HEALTH.bits() as i128, 0x4)?;
    ck("NavBbrMask::KLOBUCHARD", NavBbrMask::KLOBUCHARD.bits() as i128, 0x8)?;
    ck("NavBbrMask::POSITION", NavBbrMask::POSITION.bits() as i128, 0x10)?;
    ck("NavBbrMask::CLOCK_DRIFT", NavBbrMask::CLOCK_DRIFT.bits() as i128, 0x20)?;
    ck("NavBbrMask::OSCILATOR_PARAMETER", NavBbrMask::OSCILATOR_PARAMETER.bits() as i128, 0x40)?;
    ck("NavBbrMask::UTC_CORRECTION_PARAMETERS", NavBbrMask::UTC_CORRECTION_PARAMETERS.bits() as i128, 0x80)?;
    ck("NavBbrMask::RTC", NavBbrMask::RTC.bits() as i128, 0x100)?;
    ck("NavBbrMask::SFDR_PARAMETERS", NavBbrMask::SFDR_PARAMETERS.bits() as i128, 0x800)?;
    ck("NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS", NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS.bits() as i128, 0x1000)?;
    ck("NavBbrMask::TCT_PARAMETERS", NavBbrMask::TCT_PARAMETERS.bits() as i128, 0x2000)?;
    ck("NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS", NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS.bits() as i128, 0x8000)?;
    for x in probes(0xffff) { ck("NavBbrMask::from_bits_truncate", NavBbrMask::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgLayer::RAM", CfgLayer::RAM.bits() as i128, 0x1)?;
    ck("CfgLayer::BBR", CfgLayer::BBR.bits() as i128, 0x2)?;
    ck("CfgLayer::FLASH", CfgLayer::FLASH.bits() as i128, 0x4)?;
    for x in probes(0xff) { ck("CfgLayer::from_bits_truncate", CfgLayer::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("InProtoMask::UBLOX", InProtoMask::UBLOX.bits() as i128, 0x1)?;
    ck("InProtoMask::NMEA", InProtoMask::NMEA.bits() as i128, 0x2)?;
    ck("InProtoMask::RTCM", InProtoMask::RTCM.bits() as i128, 0x4)?;
    ck("InProtoMask::RTCM3", InProtoMask::RTCM3.bits() as i128, 0x20)?;
    for x in probes(0xffff) { ck("InProtoMask::from_bits_truncate", InProtoMask::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("OutProtoMask::UBLOX", OutProtoMask::UBLOX.bits() as i128, 0x1)?;
    ck("OutProtoMask::NMEA", OutProtoMask::NMEA.bits() as i128, 0x2)?;
    ck("OutProtoMask::RTCM3", OutProtoMask::RTCM3.bits() as i128, 0x20)?;
    for x in probes(0xffff) { ck("OutProtoMask::from_bits_truncate", OutProtoMask::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("NavTimeUtcFlags::VALID_TOW", NavTimeUtcFlags::VALID_TOW.bits() as i128, 0x1)?;
    ck("NavTimeUtcFlags::VALID_WKN", NavTimeUtcFlags::VALID_WKN.bits() as i128, 0x2)?;
    ck("NavTimeUtcFlags::VALID_UTC", NavTimeUtcFlags::VALID_UTC.bits() as i128, 0x4)?;
    for x in probes(0xff) { ck("NavTimeUtcFlags::from_bits_truncate", NavTimeUtcFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgNav5Params::DYN", CfgNav5Params::DYN.bits() as i128, 0x1)?;
    ck("CfgNav5Params::MIN_EL", CfgNav5Params::MIN_EL.bits() as i128, 0x2)?;
    ck("CfgNav5Params::POS_FIX_MODE", CfgNav5Params::POS_FIX_MODE.bits() as i128, 0x4)?;
    ck("CfgNav5Params::DR_LIM", CfgNav5Params::DR_LIM.bits() as i128, 0x8)?;
    ck("CfgNav5Params::POS_MASK_APPLY", CfgNav5Params::POS_MASK_APPLY.bits() as i128, 0x10)?;
    ck("CfgNav5Params::TIME_MASK", CfgNav5Params::TIME_MASK.bits() as i128, 0x20)?;
    ck("CfgNav5Params::STATIC_HOLD_MASK", CfgNav5Params::STATIC_HOLD_MASK.bits() as i128, 0x40)?;
    ck("CfgNav5Params::DGPS_MASK", CfgNav5Params::DGPS_MASK.bits() as i128, 0x80)?;
    ck("CfgNav5Params::CNO_THRESHOLD", CfgNav5Params::CNO_THRESHOLD.bits() as i128, 0x100)?;
    ck("CfgNav5Params::UTC", CfgNav5Params::UTC.bits() as i128, 0x400)?;
    for x in probes(0xffff) { ck("CfgNav5Params::from_bits_truncate", CfgNav5Params::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgNavX5Params1::MIN_MAX", CfgNavX5Params1::MIN_MAX.bits() as i128, 0x4)?;
    ck("CfgNavX5Params1::MIN_CNO", CfgNavX5Params1::MIN_CNO.bits() as i128, 0x8)?;
    ck("CfgNavX5Params1::INITIAL_3D_FIX", CfgNavX5Params1::INITIAL_3D_FIX.bits() as i128, 0x40)?;
    ck("CfgNavX5Params1::WKN_ROLL", CfgNavX5Params1::WKN_ROLL.bits() as i128, 0x200)?;
    ck("CfgNavX5Params1::AID_ACK", CfgNavX5Params1::AID_ACK.bits() as i128, 0x400)?;
    ck("CfgNavX5Params1::USE_PPP", CfgNavX5Params1::USE_PPP.bits() as i128, 0x2000)?;
    ck("CfgNavX5Params1::AOP_CFG", CfgNavX5Params1::AOP_CFG.bits() as i128, 0x4000)?;
    for x in probes(0xffff) { ck("CfgNavX5Params1::from_bits_truncate", CfgNavX5Params1::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("CfgNavX5Params2::USE_ADR", CfgNavX5Params2::USE_ADR.bits() as i128, 0x40)?;
    ck("CfgNavX5Params2::USE_SIG_ATTEN_COMP", CfgNavX5Params2::USE_SIG_ATTEN_COMP.bits() as i128, 0x80)?;
    for x in probes(0xffffffff) { ck("CfgNavX5Params2::from_bits_truncate", CfgNavX5Params2::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("RecStatFlags::LEAP_SEC", RecStatFlags::LEAP_SEC.bits() as i128, 0x1)?;
    ck("RecStatFlags::CLK_RESET", RecStatFlags::CLK_RESET.bits() as i128, 0x2)?;
    for x in probes(0xff) { ck("RecStatFlags::from_bits_truncate", RecStatFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("MonGnssConstellMask::GPS", MonGnssConstellMask::GPS.bits() as i128, 0x1)?;
    ck("MonGnssConstellMask::GLO", MonGnssConstellMask::GLO.bits() as i128, 0x2)?;
    ck("MonGnssConstellMask::BDC", MonGnssConstellMask::BDC.bits() as i128, 0x4)?;
    ck("MonGnssConstellMask::GAL", MonGnssConstellMask::GAL.bits() as i128, 0x8)?;
    for x in probes(0xff) { ck("MonGnssConstellMask::from_bits_truncate", MonGnssConstellMask::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("EsfInsBitFlags::VERSION", EsfInsBitFlags::VERSION.bits() as i128, 0x1)?;
    ck("EsfInsBitFlags::X_ANG_RATE_VALID", EsfInsBitFlags::X_ANG_RATE_VALID.bits() as i128, 0x100)?;
    ck("EsfInsBitFlags::Y_ANG_RATE_VALID", EsfInsBitFlags::Y_ANG_RATE_VALID.bits() as i128, 0x200)?;
    ck("EsfInsBitFlags::Z_ANG_RATE_VALID", EsfInsBitFlags::Z_ANG_RATE_VALID.bits() as i128, 0x400)?;
    ck("EsfInsBitFlags::X_ACCEL_VALID", EsfInsBitFlags::X_ACCEL_VALID.bits() as i128, 0x800)?;
    ck("EsfInsBitFlags::Y_ACCEL_VALID", EsfInsBitFlags::Y_ACCEL_VALID.bits() as i128, 0x1000)?;
    ck("EsfInsBitFlags::Z_ACCEL_VALID", EsfInsBitFlags::Z_ACCEL_VALID.bits() as i128, 0x2000)?;
    for x in probes(0xffffffff) { ck("EsfInsBitFlags::from_bits_truncate", EsfInsBitFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("HnrInsBitFlags::VERSION", HnrInsBitFlags::VERSION.bits() as i128, 0x1)?;
    ck("HnrInsBitFlags::X_ANG_RATE_VALID", HnrInsBitFlags::X_ANG_RATE_VALID.bits() as i128, 0x100)?;
    ck("HnrInsBitFlags::Y_ANG_RATE_VALID", HnrInsBitFlags::Y_ANG_RATE_VALID.bits() as i128, 0x200)?;
    ck("HnrInsBitFlags::Z_ANG_RATE_VALID", HnrInsBitFlags::Z_ANG_RATE_VALID.bits() as i128, 0x400)?;
    ck("HnrInsBitFlags::X_ACCEL_VALID", HnrInsBitFlags::X_ACCEL_VALID.bits() as i128, 0x800)?;
    ck("HnrInsBitFlags::Y_ACCEL_VALID", HnrInsBitFlags::Y_ACCEL_VALID.bits() as i128, 0x1000)?;
    ck("HnrInsBitFlags::Z_ACCEL_VALID", HnrInsBitFlags::Z_ACCEL_VALID.bits() as i128, 0x2000)?;
    for x in probes(0xffffffff) { ck("HnrInsBitFlags::from_bits_truncate", HnrInsBitFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("HnrPvtFlags::GPS_FIX_OK", HnrPvtFlags::GPS_FIX_OK.bits() as i128, 0x1)?;
    ck("HnrPvtFlags::DIFF_SOLN", HnrPvtFlags::DIFF_SOLN.bits() as i128, 0x2)?;
    ck("HnrPvtFlags::WKN_SET", HnrPvtFlags::WKN_SET.bits() as i128, 0x4)?;
    ck("HnrPvtFlags::TOW_SET", HnrPvtFlags::TOW_SET.bits() as i128, 0x8)?;
    ck("HnrPvtFlags::HEAD_VEH_VALID", HnrPvtFlags::HEAD_VEH_VALID.bits() as i128, 0x10)?;
    for x in probes(0xff) { ck("HnrPvtFlags::from_bits_truncate", HnrPvtFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("HnrPvtValidFlags::VALID_DATE", HnrPvtValidFlags::VALID_DATE.bits() as i128, 0x1)?;
    ck("HnrPvtValidFlags::VALID_TIME", HnrPvtValidFlags::VALID_TIME.bits() as i128, 0x2)?;
    ck("HnrPvtValidFlags::FULLY_RESOLVED", HnrPvtValidFlags::FULLY_RESOLVED.bits() as i128, 0x4)?;
    for x in probes(0xff) { ck("HnrPvtValidFlags::from_bits_truncate", HnrPvtValidFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("StdevFlags::STD_1", StdevFlags::STD_1.bits() as i128, 0x1)?;
    ck("StdevFlags::STD_2", StdevFlags::STD_2.bits() as i128, 0x2)?;
    ck("StdevFlags::STD_3", StdevFlags::STD_3.bits() as i128, 0x4)?;
    ck("StdevFlags::STD_4", StdevFlags::STD_4.bits() as i128, 0x8)?;
    for x in probes(0xff) { ck("StdevFlags::from_bits_truncate", StdevFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    ck("TrkStatFlags::PR_VALID", TrkStatFlags::PR_VALID.bits() as i128, 0x1)?;
    ck("TrkStatFlags::CP_VALID", TrkStatFlags::CP_VALID.bits() as i128, 0x2)?;
    ck("TrkStatFlags::HALF_CYCLE", TrkStatFlags::HALF_CYCLE.bits() as i128, 0x4)?;
    ck("TrkStatFlags::SUB_HALF_CYCLE", TrkStatFlags::SUB_HALF_CYCLE.bits() as i128, 0x8)?;
    for x in probes(0xff) { ck("TrkStatFlags::from_bits_truncate", TrkStatFlags::from_bits_truncate(x as _).bits() as i128, x)?; }
    Ok(())
}
pub fn read_NavPosLlh(r: &NavPosLlhRef<'_>, b: &[u8]) -> R {
    ckb("NavPosLlh.as_bytes", r.as_bytes(), b)?;
    ck("NavPosLlh.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavPosLlh.lon_degrees_raw", r.lon_degrees_raw() as i128, int(b, 4, 4, true))?;
    ckf("NavPosLlh.lon_degrees", r.lon_degrees() as f64, int(b, 4, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavPosLlh.lat_degrees_raw", r.lat_degrees_raw() as i128, int(b, 8, 4, true))?;
    ckf("NavPosLlh.lat_degrees", r.lat_degrees() as f64, int(b, 8, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavPosLlh.height_meters_raw", r.height_meters_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavPosLlh.height_meters", r.height_meters() as f64, int(b, 12, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPosLlh.height_msl_raw", r.height_msl_raw() as i128, int(b, 16, 4, true))?;
    ckf("NavPosLlh.height_msl", r.height_msl() as f64, int(b, 16, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPosLlh.h_ack_raw", r.h_ack_raw() as i128, int(b, 20, 4, false))?;
    ckf("NavPosLlh.h_ack", r.h_ack() as f64, int(b, 20, 4, false) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPosLlh.v_acc_raw", r.v_acc_raw() as i128, int(b, 24, 4, false))?;
    ckf("NavPosLlh.v_acc", r.v_acc() as f64, int(b, 24, 4, false) as f64 * 1e-3f64, 1e-13)?;
    Ok(())
}
pub fn read_NavVelNed(r: &NavVelNedRef<'_>, b: &[u8]) -> R {
    ckb("NavVelNed.as_bytes", r.as_bytes(), b)?;
    ck("NavVelNed.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavVelNed.vel_north_raw", r.vel_north_raw() as i128, int(b, 4, 4, true))?;
    ckf("NavVelNed.vel_north", r.vel_north() as f64, int(b, 4, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.vel_east_raw", r.vel_east_raw() as i128, int(b, 8, 4, true))?;
    ckf("NavVelNed.vel_east", r.vel_east() as f64, int(b, 8, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.vel_down_raw", r.vel_down_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavVelNed.vel_down", r.vel_down() as f64, int(b, 12, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.speed_3d_raw", r.speed_3d_raw() as i128, int(b, 16, 4, false))?;
    ckf("NavVelNed.speed_3d", r.speed_3d() as f64, int(b, 16, 4, false) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.ground_speed_raw", r.ground_speed_raw() as i128, int(b, 20, 4, false))?;
    ckf("NavVelNed.ground_speed", r.ground_speed() as f64, int(b, 20, 4, false) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.heading_degrees_raw", r.heading_degrees_raw() as i128, int(b, 24, 4, true))?;
    ckf("NavVelNed.heading_degrees", r.heading_degrees() as f64, int(b, 24, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavVelNed.speed_accuracy_estimate_raw", r.speed_accuracy_estimate_raw() as i128, int(b, 28, 4, false))?;
    ckf("NavVelNed.speed_accuracy_estimate", r.speed_accuracy_estimate() as f64, int(b, 28, 4, false) as f64 * 1e-2f64, 1e-13)?;
    ck("NavVelNed.course_heading_accuracy_estimate_raw", r.course_heading_accuracy_estimate_raw() as i128, int(b, 32, 4, false))?;
    ckf("NavVelNed.course_heading_accuracy_estimate", r.course_heading_accuracy_estimate() as f64, int(b, 32, 4, false) as f64 * 1e-5f64, 1e-13)?;
    Ok(())
}
pub fn read_NavHpPosLlh(r: &NavHpPosLlhRef<'_>, b: &[u8]) -> R {
    ckb("NavHpPosLlh.as_bytes", r.as_bytes(), b)?;
    ck("NavHpPosLlh.version", r.version() as i128, int(b, 0, 1, false))?;
    ckb("NavHpPosLlh.reserved1", &r.reserved1()[..], &b[1..4])?;
    ck("NavHpPosLlh.itow", r.itow() as i128, int(b, 4, 4, false))?;
    ck("NavHpPosLlh.lon_degrees_raw", r.lon_degrees_raw() as i128, int(b, 8, 4, true))?;
    ckf("NavHpPosLlh.lon_degrees", r.lon_degrees() as f64, int(b, 8, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavHpPosLlh.lat_degrees_raw", r.lat_degrees_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavHpPosLlh.lat_degrees", r.lat_degrees() as f64, int(b, 12, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavHpPosLlh.height_meters_raw", r.height_meters_raw() as i128, int(b, 16, 4, true))?;
    ckf("NavHpPosLlh.height_meters", r.height_meters() as f64, int(b, 16, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavHpPosLlh.height_msl_raw", r.height_msl_raw() as i128, int(b, 20, 4, true))?;
    ckf("NavHpPosLlh.height_msl", r.height_msl() as f64, int(b, 20, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavHpPosLlh.lon_hp_degrees_raw", r.lon_hp_degrees_raw() as i128, int(b, 24, 1, true))?;
    ckf("NavHpPosLlh.lon_hp_degrees", r.lon_hp_degrees() as f64, int(b, 24, 1, true) as f64 * 1e-9f64, 1e-13)?;
    ck("NavHpPosLlh.lat_hp_degrees_raw", r.lat_hp_degrees_raw() as i128, int(b, 25, 1, true))?;
    ckf("NavHpPosLlh.lat_hp_degrees", r.lat_hp_degrees() as f64, int(b, 25, 1, true) as f64 * 1e-9f64, 1e-13)?;
    ck("NavHpPosLlh.height_hp_meters_raw", r.height_hp_meters_raw() as i128, int(b, 26, 1, true))?;
    ckf("NavHpPosLlh.height_hp_meters", r.height_hp_meters() as f64, int(b, 26, 1, true) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosLlh.height_hp_msl_raw", r.height_hp_msl_raw() as i128, int(b, 27, 1, true))?;
    ckf("NavHpPosLlh.height_hp_msl", r.height_hp_msl() as f64, int(b, 27, 1, true) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosLlh.horizontal_accuracy_raw", r.horizontal_accuracy_raw() as i128, int(b, 28, 4, false))?;
    ckf("NavHpPosLlh.horizontal_accuracy", r.horizontal_accuracy() as f64, int(b, 28, 4, false) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosLlh.vertical_accuracy_raw", r.vertical_accuracy_raw() as i128, int(b, 32, 4, false))?;
    ckf("NavHpPosLlh.vertical_accuracy", r.vertical_accuracy() as f64, int(b, 32, 4, false) as f64 * 1e-1f64, 1e-13)?;
    Ok(())
}
pub fn read_NavHpPosEcef(r: &NavHpPosEcefRef<'_>, b: &[u8]) -> R {
    ckb("NavHpPosEcef.as_bytes", r.as_bytes(), b)?;
    ck("NavHpPosEcef.version", r.version() as i128, int(b, 0, 1, false))?;
    ckb("NavHpPosEcef.reserved1", &r.reserved1()[..], &b[1..4])?;
    ck("NavHpPosEcef.itow", r.itow() as i128, int(b, 4, 4, false))?;
    ck("NavHpPosEcef.ecef_x_cm_raw", r.ecef_x_cm_raw() as i128, int(b, 8, 4, true))?;
    ckf("NavHpPosEcef.ecef_x_cm", r.ecef_x_cm() as f64, int(b, 8, 4, true) as f64 * 1.0f64, 1e-13)?;
    ck("NavHpPosEcef.ecef_y_cm_raw", r.ecef_y_cm_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavHpPosEcef.ecef_y_cm", r.ecef_y_cm() as f64, int(b, 12, 4, true) as f64 * 1.0f64, 1e-13)?;
    ck("NavHpPosEcef.ecef_z_cm_raw", r.ecef_z_cm_raw() as i128, int(b, 16, 4, true))?;
    ckf("NavHpPosEcef.ecef_z_cm", r.ecef_z_cm() as f64, int(b, 16, 4, true) as f64 * 1.0f64, 1e-13)?;
    ck("NavHpPosEcef.ecef_x_hp_mm_raw", r.ecef_x_hp_mm_raw() as i128, int(b, 20, 1, true))?;
    ckf("NavHpPosEcef.ecef_x_hp_mm", r.ecef_x_hp_mm() as f64, int(b, 20, 1, true) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosEcef.ecef_y_hp_mm_raw", r.ecef_y_hp_mm_raw() as i128, int(b, 21, 1, true))?;
    ckf("NavHpPosEcef.ecef_y_hp_mm", r.ecef_y_hp_mm() as f64, int(b, 21, 1, true) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosEcef.ecef_z_hp_mm_raw", r.ecef_z_hp_mm_raw() as i128, int(b, 22, 1, true))?;
    ckf("NavHpPosEcef.ecef_z_hp_mm", r.ecef_z_hp_mm() as f64, int(b, 22, 1, true) as f64 * 1e-1f64, 1e-13)?;
    ck("NavHpPosEcef.flags_raw", r.flags_raw() as i128, int(b, 23, 1, false))?;
    ck("NavHpPosEcef.flags", r.flags().bits() as i128, int(b, 23, 1, false))?;
    ck("NavHpPosEcef.p_acc_raw", r.p_acc_raw() as i128, int(b, 24, 4, false))?;
    ckf("NavHpPosEcef.p_acc", r.p_acc() as f64, int(b, 24, 4, false) as f64 * 1e-1f64, 1e-13)?;
    Ok(())
}
pub fn read_NavPvt(r: &NavPvtRef<'_>, b: &[u8]) -> R {
    ckb("NavPvt.as_bytes", r.as_bytes(), b)?;
    ck("NavPvt.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavPvt.year", r.year() as i128, int(b, 4, 2, false))?;
    ck("NavPvt.month", r.month() as i128, int(b, 6, 1, false))?;
    ck("NavPvt.day", r.day() as i128, int(b, 7, 1, false))?;
    ck("NavPvt.hour", r.hour() as i128, int(b, 8, 1, false))?;
    ck("NavPvt.min", r.min() as i128, int(b, 9, 1, false))?;
    ck("NavPvt.sec", r.sec() as i128, int(b, 10, 1, false))?;
    ck("NavPvt.valid", r.valid() as i128, int(b, 11, 1, false))?;
    ck("NavPvt.time_accuracy", r.time_accuracy() as i128, int(b, 12, 4, false))?;
    ck("NavPvt.nanosecond", r.nanosecond() as i128, int(b, 16, 4, true))?;
    ck("NavPvt.fix_type_raw", r.fix_type_raw() as i128, int(b, 20, 1, false))?;
    cks("NavPvt.fix_type", format!("{:?}", r.fix_type()), name_GpsFix(int(b, 20, 1, false)))?;
    ck("NavPvt.flags_raw", r.flags_raw() as i128, int(b, 21, 1, false))?;
    ck("NavPvt.flags", r.flags().bits() as i128, int(b, 21, 1, false))?;
    ck("NavPvt.flags2_raw", r.flags2_raw() as i128, int(b, 22, 1, false))?;
    ck("NavPvt.flags2", r.flags2().bits() as i128, int(b, 22, 1, false))?;
    ck("NavPvt.num_satellites", r.num_satellites() as i128, int(b, 23, 1, false))?;
    ck("NavPvt.lon_degrees_raw", r.lon_degrees_raw() as i128, int(b, 24, 4, true))?;
    ckf("NavPvt.lon_degrees", r.lon_degrees() as f64, int(b, 24, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavPvt.lat_degrees_raw", r.lat_degrees_raw() as i128, int(b, 28, 4, true))?;
    ckf("NavPvt.lat_degrees", r.lat_degrees() as f64, int(b, 28, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("NavPvt.height_meters_raw", r.height_meters_raw() as i128, int(b, 32, 4, true))?;
    ckf("NavPvt.height_meters", r.height_meters() as f64, int(b, 32, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.height_msl_raw", r.height_msl_raw() as i128, int(b, 36, 4, true))?;
    ckf("NavPvt.height_msl", r.height_msl() as f64, int(b, 36, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.horiz_accuracy", r.horiz_accuracy() as i128, int(b, 40, 4, false))?;
    ck("NavPvt.vert_accuracy", r.vert_accuracy() as i128, int(b, 44, 4, false))?;
    ck("NavPvt.vel_north_raw", r.vel_north_raw() as i128, int(b, 48, 4, true))?;
    ckf("NavPvt.vel_north", r.vel_north() as f64, int(b, 48, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.vel_east_raw", r.vel_east_raw() as i128, int(b, 52, 4, true))?;
    ckf("NavPvt.vel_east", r.vel_east() as f64, int(b, 52, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.vel_down_raw", r.vel_down_raw() as i128, int(b, 56, 4, true))?;
    ckf("NavPvt.vel_down", r.vel_down() as f64, int(b, 56, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.ground_speed_raw", r.ground_speed_raw() as i128, int(b, 60, 4, false))?;
    ckf("NavPvt.ground_speed", r.ground_speed() as f64, int(b, 60, 4, false) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.heading_degrees_raw", r.heading_degrees_raw() as i128, int(b, 64, 4, true))?;
    ckf("NavPvt.heading_degrees", r.heading_degrees() as f64, int(b, 64, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavPvt.speed_accuracy_estimate_raw", r.speed_accuracy_estimate_raw() as i128, int(b, 68, 4, false))?;
    ckf("NavPvt.speed_accuracy_estimate", r.speed_accuracy_estimate() as f64, int(b, 68, 4, false) as f64 * 1e-3f64, 1e-13)?;
    ck("NavPvt.heading_accuracy_estimate_raw", r.heading_accuracy_estimate_raw() as i128, int(b, 72, 4, false))?;
    ckf("NavPvt.heading_accuracy_estimate", r.heading_accuracy_estimate() as f64, int(b, 72, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ck("NavPvt.pdop", r.pdop() as i128, int(b, 76, 2, false))?;
    ckb("NavPvt.reserved1", &r.reserved1()[..], &b[78..84])?;
    ck("NavPvt.heading_of_vehicle_degrees_raw", r.heading_of_vehicle_degrees_raw() as i128, int(b, 84, 4, true))?;
    ckf("NavPvt.heading_of_vehicle_degrees", r.heading_of_vehicle_degrees() as f64, int(b, 84, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavPvt.magnetic_declination_degrees_raw", r.magnetic_declination_degrees_raw() as i128, int(b, 88, 2, true))?;
    ckf("NavPvt.magnetic_declination_degrees", r.magnetic_declination_degrees() as f64, int(b, 88, 2, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavPvt.magnetic_declination_accuracy_degrees_raw", r.magnetic_declination_accuracy_degrees_raw() as i128, int(b, 90, 2, false))?;
    ckf("NavPvt.magnetic_declination_accuracy_degrees", r.magnetic_declination_accuracy_degrees() as f64, int(b, 90, 2, false) as f64 * 1e-2f64, 1e-13)?;
    Ok(())
}
pub fn read_NavStatus(r: &NavStatusRef<'_>, b: &[u8]) -> R {
    ckb("NavStatus.as_bytes", r.as_bytes(), b)?;
    ck("NavStatus.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavStatus.fix_type_raw", r.fix_type_raw() as i128, int(b, 4, 1, false))?;
    cks("NavStatus.fix_type", format!("{:?}", r.fix_type()), name_GpsFix(int(b, 4, 1, false)))?;
    ck("NavStatus.flags_raw", r.flags_raw() as i128, int(b, 5, 1, false))?;
    ck("NavStatus.flags", r.flags().bits() as i128, int(b, 5, 1, false))?;
    ck("NavStatus.fix_stat_raw", r.fix_stat_raw() as i128, int(b, 6, 1, false))?;
    cks("NavStatus.fix_stat", show_FixStatusInfo(&r.fix_stat()), want_FixStatusInfo(int(b, 6, 1, false) as _))?;
    ck("NavStatus.flags2_raw", r.flags2_raw() as i128, int(b, 7, 1, false))?;
    cks("NavStatus.flags2", format!("{:?}", r.flags2()), name_NavStatusFlags2(int(b, 7, 1, false)))?;
    ck("NavStatus.time_to_first_fix", r.time_to_first_fix() as i128, int(b, 8, 4, false))?;
    ck("NavStatus.uptime_ms", r.uptime_ms() as i128, int(b, 12, 4, false))?;
    Ok(())
}
pub fn read_NavDop(r: &NavDopRef<'_>, b: &[u8]) -> R {
    ckb("NavDop.as_bytes", r.as_bytes(), b)?;
    ck("NavDop.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavDop.geometric_dop_raw", r.geometric_dop_raw() as i128, int(b, 4, 2, false))?;
    ckf("NavDop.geometric_dop", r.geometric_dop() as f64, int(b, 4, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.position_dop_raw", r.position_dop_raw() as i128, int(b, 6, 2, false))?;
    ckf("NavDop.position_dop", r.position_dop() as f64, int(b, 6, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.time_dop_raw", r.time_dop_raw() as i128, int(b, 8, 2, false))?;
    ckf("NavDop.time_dop", r.time_dop() as f64, int(b, 8, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.vertical_dop_raw", r.vertical_dop_raw() as i128, int(b, 10, 2, false))?;
    ckf("NavDop.vertical_dop", r.vertical_dop() as f64, int(b, 10, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.horizontal_dop_raw", r.horizontal_dop_raw() as i128, int(b, 12, 2, false))?;
    ckf("NavDop.horizontal_dop", r.horizontal_dop() as f64, int(b, 12, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.northing_dop_raw", r.northing_dop_raw() as i128, int(b, 14, 2, false))?;
    ckf("NavDop.northing_dop", r.northing_dop() as f64, int(b, 14, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavDop.easting_dop_raw", r.easting_dop_raw() as i128, int(b, 16, 2, false))?;
    ckf("NavDop.easting_dop", r.easting_dop() as f64, int(b, 16, 2, false) as f64 * 1e-2f64, 3e-7)?;
    Ok(())
}
pub fn read_NavEoe(r: &NavEoeRef<'_>, b: &[u8]) -> R {
    ckb("NavEoe.as_bytes", r.as_bytes(), b)?;
    ck("NavEoe.itow", r.itow() as i128, int(b, 0, 4, false))?;
    Ok(())
}
pub fn read_NavSolution(r: &NavSolutionRef<'_>, b: &[u8]) -> R {
    ckb("NavSolution.as_bytes", r.as_bytes(), b)?;
    ck("NavSolution.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavSolution.ftow_ns", r.ftow_ns() as i128, int(b, 4, 4, true))?;
    ck("NavSolution.week", r.week() as i128, int(b, 8, 2, true))?;
    ck("NavSolution.fix_type_raw", r.fix_type_raw() as i128, int(b, 10, 1, false))?;
    cks("NavSolution.fix_type", format!("{:?}", r.fix_type()), name_GpsFix(int(b, 10, 1, false)))?;
    ck("NavSolution.flags_raw", r.flags_raw() as i128, int(b, 11, 1, false))?;
    ck("NavSolution.flags", r.flags().bits() as i128, int(b, 11, 1, false))?;
    ck("NavSolution.ecef_x_raw", r.ecef_x_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavSolution.ecef_x", r.ecef_x() as f64, int(b, 12, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.ecef_y_raw", r.ecef_y_raw() as i128, int(b, 16, 4, true))?;
    ckf("NavSolution.ecef_y", r.ecef_y() as f64, int(b, 16, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.ecef_z_raw", r.ecef_z_raw() as i128, int(b, 20, 4, true))?;
    ckf("NavSolution.ecef_z", r.ecef_z() as f64, int(b, 20, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.position_accuracy_estimate_raw", r.position_accuracy_estimate_raw() as i128, int(b, 24, 4, false))?;
    ckf("NavSolution.position_accuracy_estimate", r.position_accuracy_estimate() as f64, int(b, 24, 4, false) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.ecef_vx_raw", r.ecef_vx_raw() as i128, int(b, 28, 4, true))?;
    ckf("NavSolution.ecef_vx", r.ecef_vx() as f64, int(b, 28, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.ecef_vy_raw", r.ecef_vy_raw() as i128, int(b, 32, 4, true))?;
    ckf("NavSolution.ecef_vy", r.ecef_vy() as f64, int(b, 32, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.ecef_vz_raw", r.ecef_vz_raw() as i128, int(b, 36, 4, true))?;
    ckf("NavSolution.ecef_vz", r.ecef_vz() as f64, int(b, 36, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.speed_accuracy_estimate_raw", r.speed_accuracy_estimate_raw() as i128, int(b, 40, 4, false))?;
    ckf("NavSolution.speed_accuracy_estimate", r.speed_accuracy_estimate() as f64, int(b, 40, 4, false) as f64 * 1e-2f64, 1e-13)?;
    ck("NavSolution.pdop_raw", r.pdop_raw() as i128, int(b, 44, 2, false))?;
    ckf("NavSolution.pdop", r.pdop() as f64, int(b, 44, 2, false) as f64 * 1e-2f64, 3e-7)?;
    ck("NavSolution.reserved1", r.reserved1() as i128, int(b, 46, 1, false))?;
    ck("NavSolution.num_sv", r.num_sv() as i128, int(b, 47, 1, false))?;
    ckb("NavSolution.reserved2", &r.reserved2()[..], &b[48..52])?;
    Ok(())
}
pub fn read_NavSatSvInfo(r: &NavSatSvInfoRef<'_>, b: &[u8]) -> R {
    ckb("NavSatSvInfo.as_bytes", r.as_bytes(), b)?;
    ck("NavSatSvInfo.gnss_id", r.gnss_id() as i128, int(b, 0, 1, false))?;
    ck("NavSatSvInfo.sv_id", r.sv_id() as i128, int(b, 1, 1, false))?;
    ck("NavSatSvInfo.cno", r.cno() as i128, int(b, 2, 1, false))?;
    ck("NavSatSvInfo.elev", r.elev() as i128, int(b, 3, 1, true))?;
    ck("NavSatSvInfo.azim", r.azim() as i128, int(b, 4, 2, true))?;
    ck("NavSatSvInfo.pr_res", r.pr_res() as i128, int(b, 6, 2, true))?;
    ck("NavSatSvInfo.flags_raw", r.flags_raw() as i128, int(b, 8, 4, false))?;
    cks("NavSatSvInfo.flags", show_NavSatSvFlags(&r.flags()), want_NavSatSvFlags(int(b, 8, 4, false) as _))?;
    Ok(())
}
pub fn read_NavSat(r: &NavSatRef<'_>, b: &[u8]) -> R {
    ckb("NavSat.as_bytes", r.as_bytes(), b)?;
    ck("NavSat.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavSat.version", r.version() as i128, int(b, 4, 1, false))?;
    ck("NavSat.num_svs", r.num_svs() as i128, int(b, 5, 1, false))?;
    ckb("NavSat.reserved", &r.reserved()[..], &b[6..8])?;
    var_NavSat(r, b)?;
    Ok(())
}
pub fn read_NavOdo(r: &NavOdoRef<'_>, b: &[u8]) -> R {
    ckb("NavOdo.as_bytes", r.as_bytes(), b)?;
    ck("NavOdo.version", r.version() as i128, int(b, 0, 1, false))?;
    ckb("NavOdo.reserved", &r.reserved()[..], &b[1..4])?;
    ck("NavOdo.itow", r.itow() as i128, int(b, 4, 4, false))?;
    ck("NavOdo.distance", r.distance() as i128, int(b, 8, 4, false))?;
    ck("NavOdo.total_distance", r.total_distance() as i128, int(b, 12, 4, false))?;
    ck("NavOdo.distance_std", r.distance_std() as i128, int(b, 16, 4, false))?;
    Ok(())
}
pub fn read_CfgOdo(r: &CfgOdoRef<'_>, b: &[u8]) -> R {
    ckb("CfgOdo.as_bytes", r.as_bytes(), b)?;
    ck("CfgOdo.version", r.version() as i128, int(b, 0, 1, false))?;
    ckb("CfgOdo.reserved", &r.reserved()[..], &b[1..4])?;
    ck("CfgOdo.flags_raw", r.flags_raw() as i128, int(b, 4, 1, false))?;
    ck("CfgOdo.flags", r.flags().bits() as i128, int(b, 4, 1, false))?;
    ck("CfgOdo.odo_cfg_raw", r.odo_cfg_raw() as i128, int(b, 5, 1, false))?;
    cks("CfgOdo.odo_cfg", format!("{:?}", r.odo_cfg()), name_OdoProfile(int(b, 5, 1, false)))?;
    ckb("CfgOdo.reserved2", &r.reserved2()[..], &b[6..12])?;
    ck("CfgOdo.cog_max_speed", r.cog_max_speed() as i128, int(b, 12, 1, false))?;
    ck("CfgOdo.cog_max_pos_acc", r.cog_max_pos_acc() as i128, int(b, 13, 1, false))?;
    ckb("CfgOdo.reserved3", &r.reserved3()[..], &b[14..16])?;
    ck("CfgOdo.vel_lp_gain", r.vel_lp_gain() as i128, int(b, 16, 1, false))?;
    ck("CfgOdo.cog_lp_gain", r.cog_lp_gain() as i128, int(b, 17, 1, false))?;
    ckb("CfgOdo.reserved4", &r.reserved4()[..], &b[18..20])?;
    Ok(())
}
pub fn read_CfgItfm(r: &CfgItfmRef<'_>, b: &[u8]) -> R {
    ckb("CfgItfm.as_bytes", r.as_bytes(), b)?;
    ck("CfgItfm.config_raw", r.config_raw() as i128, int(b, 0, 4, false))?;
    cks("CfgItfm.config", show_CfgItfmConfig(&r.config()), want_CfgItfmConfig(int(b, 0, 4, false) as _))?;
    ck("CfgItfm.config2_raw", r.config2_raw() as i128, int(b, 4, 4, false))?;
    cks("CfgItfm.config2", show_CfgItfmConfig2(&r.config2()), want_CfgItfmConfig2(int(b, 4, 4, false) as _))?;
    Ok(())
}
pub fn read_InfError(r: &InfErrorRef<'_>, b: &[u8]) -> R {
    ckb("InfError.as_bytes", r.as_bytes(), b)?;
    var_Inf("InfError", r.message(), b)?;
    Ok(())
}
pub fn read_InfNotice(r: &InfNoticeRef<'_>, b: &[u8]) -> R {
    ckb("InfNotice.as_bytes", r.as_bytes(), b)?;
    var_Inf("InfNotice", r.message(), b)?;
    Ok(())
}
pub fn read_InfTest(r: &InfTestRef<'_>, b: &[u8]) -> R {
    ckb("InfTest.as_bytes", r.as_bytes(), b)?;
    var_Inf("InfTest", r.message(), b)?;
    Ok(())
}
pub fn read_InfWarning(r: &InfWarningRef<'_>, b: &[u8]) -> R {
    ckb("InfWarning.as_bytes", r.as_bytes(), b)?;
    var_Inf("InfWarning", r.message(), b)?;
    Ok(())
}
pub fn read_InfDebug(r: &InfDebugRef<'_>, b: &[u8]) -> R {
    ckb("InfDebug.as_bytes", r.as_bytes(), b)?;
    var_Inf("InfDebug", r.message(), b)?;
    Ok(())
}
pub fn read_AlpSrv(r: &AlpSrvRef<'_>, b: &[u8]) -> R {
    ckb("AlpSrv.as_bytes", r.as_bytes(), b)?;
    ck("AlpSrv.id_size", r.id_size() as i128, int(b, 0, 1, false))?;
    ck("AlpSrv.data_type", r.data_type() as i128, int(b, 1, 1, false))?;
    ck("AlpSrv.offset", r.offset() as i128, int(b, 2, 2, false))?;
    ck("AlpSrv.size", r.size() as i128, int(b, 4, 2, false))?;
    ck("AlpSrv.file_id", r.file_id() as i128, int(b, 6, 2, false))?;
    ck("AlpSrv.data_size", r.data_size() as i128, int(b, 8, 2, false))?;
    ck("AlpSrv.id1", r.id1() as i128, int(b, 10, 1, false))?;
    ck("AlpSrv.id2", r.id2() as i128, int(b, 11, 1, false))?;
    ck("AlpSrv.id3", r.id3() as i128, int(b, 12, 4, false))?;
    Ok(())
}
pub fn read_AckAck(r: &AckAckRef<'_>, b: &[u8]) -> R {
    ckb("AckAck.as_bytes", r.as_bytes(), b)?;
    ck("AckAck.class", r.class() as i128, int(b, 0, 1, false))?;
    ck("AckAck.msg_id", r.msg_id() as i128, int(b, 1, 1, false))?;
    Ok(())
}
pub fn read_AckNak(r: &AckNakRef<'_>, b: &[u8]) -> R {
    ckb("AckNak.as_bytes", r.as_bytes(), b)?;
    ck("AckNak.class", r.class() as i128, int(b, 0, 1, false))?;
    ck("AckNak.msg_id", r.msg_id() as i128, int(b, 1, 1, false))?;
    Ok(())
}
pub fn read_CfgAnt(r: &CfgAntRef<'_>, b: &[u8]) -> R {
    ckb("CfgAnt.as_bytes", r.as_bytes(), b)?;
    ck("CfgAnt.flags_raw", r.flags_raw() as i128, int(b, 0, 2, false))?;
    ck("CfgAnt.flags", r.flags().bits() as i128, int(b, 0, 2, false))?;
    ck("CfgAnt.pins", r.pins() as i128, int(b, 2, 2, false))?;
    Ok(())
}
pub fn read_CfgTp5(r: &CfgTp5Ref<'_>, b: &[u8]) -> R {
    ckb("CfgTp5.as_bytes", r.as_bytes(), b)?;
    ck("CfgTp5.tp_idx_raw", r.tp_idx_raw() as i128, int(b, 0, 1, false))?;
    cks("CfgTp5.tp_idx", format!("{:?}", r.tp_idx()), name_CfgTp5TimePulseMode(int(b, 0, 1, false)))?;
    ck("CfgTp5.version", r.version() as i128, int(b, 1, 1, false))?;
    ckb("CfgTp5.reserved1", &r.reserved1()[..], &b[2..4])?;
    ck("CfgTp5.ant_cable_delay_raw", r.ant_cable_delay_raw() as i128, int(b, 4, 2, true))?;
    ckf("CfgTp5.ant_cable_delay", r.ant_cable_delay() as f64, int(b, 4, 2, true) as f64 * 1.0f64, 3e-7)?;
    ck("CfgTp5.rf_group_delay_raw", r.rf_group_delay_raw() as i128, int(b, 6, 2, true))?;
    ckf("CfgTp5.rf_group_delay", r.rf_group_delay() as f64, int(b, 6, 2, true) as f64 * 1.0f64, 3e-7)?;
    ck("CfgTp5.freq_period_raw", r.freq_period_raw() as i128, int(b, 8, 4, false))?;
    ckf("CfgTp5.freq_period", r.freq_period() as f64, int(b, 8, 4, false) as f64 * 1.0f64, 1e-13)?;
    ck("CfgTp5.freq_period_lock_raw", r.freq_period_lock_raw() as i128, int(b, 12, 4, false))?;
    ckf("CfgTp5.freq_period_lock", r.freq_period_lock() as f64, int(b, 12, 4, false) as f64 * 1.0f64, 1e-13)?;
    ck("CfgTp5.pulse_len_ratio_raw", r.pulse_len_ratio_raw() as i128, int(b, 16, 4, false))?;
    ckf("CfgTp5.pulse_len_ratio", r.pulse_len_ratio() as f64, int(b, 16, 4, false) as f64 * 1.0f64, 1e-13)?;
    ck("CfgTp5.pulse_len_ratio_lock_raw", r.pulse_len_ratio_lock_raw() as i128, int(b, 20, 4, false))?;
    ckf("CfgTp5.pulse_len_ratio_lock", r.pulse_len_ratio_lock() as f64, int(b, 20, 4, false) as f64 * 1.0f64, 1e-13)?;
    ck("CfgTp5.user_delay_raw", r.user_delay_raw() as i128, int(b, 24, 4, true))?;
    ckf("CfgTp5.user_delay", r.user_delay() as f64, int(b, 24, 4, true) as f64 * 1.0f64, 1e-13)?;
    ck("CfgTp5.flags_raw", r.flags_raw() as i128, int(b, 28, 4, false))?;
    ck("CfgTp5.flags", r.flags().bits() as i128, int(b, 28, 4, false))?;
    Ok(())
}
pub fn read_CfgTmode2(r: &CfgTmode2Ref<'_>, b: &[u8]) -> R {
    ckb("CfgTmode2.as_bytes", r.as_bytes(), b)?;
    ck("CfgTmode2.time_transfer_mode_raw", r.time_transfer_mode_raw() as i128, int(b, 0, 1, false))?;
    cks("CfgTmode2.time_transfer_mode", format!("{:?}", r.time_transfer_mode()), name_CfgTmode2TimeXferModes(int(b, 0, 1, false)))?;
    ck("CfgTmode2.reserved1", r.reserved1() as i128, int(b, 1, 1, false))?;
    ck("CfgTmode2.flags_raw", r.flags_raw() as i128, int(b, 2, 2, false))?;
    ck("CfgTmode2.flags", r.flags().bits() as i128, int(b, 2, 2, false))?;
    ck("CfgTmode2.ecef_x_or_lat_raw", r.ecef_x_or_lat_raw() as i128, int(b, 4, 4, true))?;
    ckf("CfgTmode2.ecef_x_or_lat", r.ecef_x_or_lat() as f64, int(b, 4, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode2.ecef_y_or_lon_raw", r.ecef_y_or_lon_raw() as i128, int(b, 8, 4, true))?;
    ckf("CfgTmode2.ecef_y_or_lon", r.ecef_y_or_lon() as f64, int(b, 8, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode2.ecef_z_or_alt_raw", r.ecef_z_or_alt_raw() as i128, int(b, 12, 4, true))?;
    ckf("CfgTmode2.ecef_z_or_alt", r.ecef_z_or_alt() as f64, int(b, 12, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode2.fixed_pos_acc_raw", r.fixed_pos_acc_raw() as i128, int(b, 16, 4, false))?;
    ckf("CfgTmode2.fixed_pos_acc", r.fixed_pos_acc() as f64, int(b, 16, 4, false) as f64 * 1e-3f64, 1e-13)?;
    ck("CfgTmode2.survey_in_min_duration", r.survey_in_min_duration() as i128, int(b, 20, 4, false))?;
    ck("CfgTmode2.survery_in_accur_limit_raw", r.survery_in_accur_limit_raw() as i128, int(b, 24, 4, false))?;
    ckf("CfgTmode2.survery_in_accur_limit", r.survery_in_accur_limit() as f64, int(b, 24, 4, false) as f64 * 1e-3f64, 1e-13)?;
    Ok(())
}
pub fn read_TimSvin(r: &TimSvinRef<'_>, b: &[u8]) -> R {
    ckb("TimSvin.as_bytes", r.as_bytes(), b)?;
    ck("TimSvin.dur", r.dur() as i128, int(b, 0, 4, false))?;
    ck("TimSvin.mean_x", r.mean_x() as i128, int(b, 4, 4, true))?;
    ck("TimSvin.mean_y", r.mean_y() as i128, int(b, 8, 4, true))?;
    ck("TimSvin.mean_z", r.mean_z() as i128, int(b, 12, 4, true))?;
    ck("TimSvin.mean_v", r.mean_v() as i128, int(b, 16, 4, true))?;
    ck("TimSvin.obs", r.obs() as i128, int(b, 20, 4, false))?;
    ck("TimSvin.valid", r.valid() as i128, int(b, 24, 1, false))?;
    ck("TimSvin.active", r.active() as i128, int(b, 25, 1, false))?;
    ckb("TimSvin.reserved", &r.reserved()[..], &b[26..28])?;
    Ok(())
}
pub fn read_NavTimeLs(r: &NavTimeLsRef<'_>, b: &[u8]) -> R {
    ckb("NavTimeLs.as_bytes", r.as_bytes(), b)?;
    ck("NavTimeLs.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavTimeLs.version", r.version() as i128, int(b, 4, 1, false))?;
    ckb("NavTimeLs.reserved_1", &r.reserved_1()[..], &b[5..8])?;
    ck("NavTimeLs.src_of_curr_ls", r.src_of_curr_ls() as i128, int(b, 8, 1, false))?;
    ck("NavTimeLs.current_ls", r.current_ls() as i128, int(b, 9, 1, true))?;
    ck("NavTimeLs.src_of_ls_change", r.src_of_ls_change() as i128, int(b, 10, 1, false))?;
    ck("NavTimeLs.ls_change", r.ls_change() as i128, int(b, 11, 1, true))?;
    ck("NavTimeLs.time_to_ls_event", r.time_to_ls_event() as i128, int(b, 12, 4, true))?;
    ck("NavTimeLs.date_of_ls_gps_wn", r.date_of_ls_gps_wn() as i128, int(b, 16, 2, false))?;
    ck("NavTimeLs.date_of_ls_gps_dn", r.date_of_ls_gps_dn() as i128, int(b, 18, 2, false))?;
    ckb("NavTimeLs.reserved_2", &r.reserved_2()[..], &b[20..23])?;
    ck("NavTimeLs.valid_raw", r.valid_raw() as i128, int(b, 23, 1, false))?;
    ck("NavTimeLs.valid", r.valid().bits() as i128, int(b, 23, 1, false))?;
    Ok(())
}
pub fn read_CfgTmode3(r: &CfgTmode3Ref<'_>, b: &[u8]) -> R {
    ckb("CfgTmode3.as_bytes", r.as_bytes(), b)?;
    ck("CfgTmode3.version", r.version() as i128, int(b, 0, 1, false))?;
    ck("CfgTmode3.reserved1", r.reserved1() as i128, int(b, 1, 1, false))?;
    ck("CfgTmode3.rcvr_mode_raw", r.rcvr_mode_raw() as i128, int(b, 2, 1, false))?;
    ck("CfgTmode3.rcvr_mode", r.rcvr_mode().bits() as i128, int(b, 2, 1, false))?;
    ck("CfgTmode3.flags_raw", r.flags_raw() as i128, int(b, 3, 1, false))?;
    ck("CfgTmode3.flags", r.flags().bits() as i128, int(b, 3, 1, false))?;
    ck("CfgTmode3.ecef_x_or_lat_raw", r.ecef_x_or_lat_raw() as i128, int(b, 4, 4, true))?;
    ckf("CfgTmode3.ecef_x_or_lat", r.ecef_x_or_lat() as f64, int(b, 4, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode3.ecef_y_or_lon_raw", r.ecef_y_or_lon_raw() as i128, int(b, 8, 4, true))?;
    ckf("CfgTmode3.ecef_y_or_lon", r.ecef_y_or_lon() as f64, int(b, 8, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode3.ecef_z_or_alt_raw", r.ecef_z_or_alt_raw() as i128, int(b, 12, 4, true))?;
    ckf("CfgTmode3.ecef_z_or_alt", r.ecef_z_or_alt() as f64, int(b, 12, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("CfgTmode3.ecef_x_or_lat_hp_raw", r.ecef_x_or_lat_hp_raw() as i128, int(b, 16, 1, true))?;
    ckf("CfgTmode3.ecef_x_or_lat_hp", r.ecef_x_or_lat_hp() as f64, int(b, 16, 1, true) as f64 * 1.0f64, 3e-7)?;
    ck("CfgTmode3.ecef_y_or_lon_hp_raw", r.ecef_y_or_lon_hp_raw() as i128, int(b, 17, 1, true))?;
    ckf("CfgTmode3.ecef_y_or_lon_hp", r.ecef_y_or_lon_hp() as f64, int(b, 17, 1, true) as f64 * 1.0f64, 3e-7)?;
    ck("CfgTmode3.ecef_z_or_alt_hp_raw", r.ecef_z_or_alt_hp_raw() as i128, int(b, 18, 1, true))?;
    ckf("CfgTmode3.ecef_z_or_alt_hp", r.ecef_z_or_alt_hp() as f64, int(b, 18, 1, true) as f64 * 1.0f64, 3e-7)?;
    ck("CfgTmode3.reserved2", r.reserved2() as i128, int(b, 19, 1, false))?;
    ck("CfgTmode3.fixed_pos_acc_raw", r.fixed_pos_acc_raw() as i128, int(b, 20, 4, false))?;
    ckf("CfgTmode3.fixed_pos_acc", r.fixed_pos_acc() as f64, int(b, 20, 4, false) as f64 * 1e-4f64, 1e-13)?;
    ck("CfgTmode3.sv_in_min_duration", r.sv_in_min_duration() as i128, int(b, 24, 4, false))?;
    ck("CfgTmode3.sv_in_accur_limit_raw", r.sv_in_accur_limit_raw() as i128, int(b, 28, 4, false))?;
    ckf("CfgTmode3.sv_in_accur_limit", r.sv_in_accur_limit() as f64, int(b, 28, 4, false) as f64 * 1e-4f64, 1e-13)?;
    ckb("CfgTmode3.reserved3", &r.reserved3()[..], &b[32..40])?;
    Ok(())
}
pub fn read_CfgPrtI2c(r: &CfgPrtI2cRef<'_>, b: &[u8]) -> R {
    ckb("CfgPrtI2c.as_bytes", r.as_bytes(), b)?;
    ck("CfgPrtI2c.portid_raw", r.portid_raw() as i128, int(b, 0, 1, false))?;
    cks("CfgPrtI2c.portid", format!("{:?}", r.portid()), name_I2cPortId(int(b, 0, 1, false)))?;
    ck("CfgPrtI2c.reserved1", r.reserved1() as i128, int(b, 1, 1, false))?;
    ck("CfgPrtI2c.tx_ready", r.tx_ready() as i128, int(b, 2, 2, false))?;
    ck("CfgPrtI2c.mode", r.mode() as i128, int(b, 4, 4, false))?;
    ck("CfgPrtI2c.reserved2", r.reserved2() as i128, int(b, 8, 4, false))?;
    ck("CfgPrtI2c.in_proto_mask_raw", r.in_proto_mask_raw() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtI2c.in_proto_mask", r.in_proto_mask().bits() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtI2c.out_proto_mask_raw", r.out_proto_mask_raw() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtI2c.out_proto_mask", r.out_proto_mask().bits() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtI2c.flags", r.flags() as i128, int(b, 16, 2, false))?;
    ck("CfgPrtI2c.reserved3", r.reserved3() as i128, int(b, 18, 2, false))?;
    Ok(())
}
pub fn read_CfgPrtUart(r: &CfgPrtUartRef<'_>, b: &[u8]) -> R {
    ckb("CfgPrtUart.as_bytes", r.as_bytes(), b)?;
    ck("CfgPrtUart.portid_raw", r.portid_raw() as i128, int(b, 0, 1, false))?;
    cks("CfgPrtUart.portid", format!("{:?}", r.portid()), name_UartPortId(int(b, 0, 1, false)))?;
    ck("CfgPrtUart.reserved0", r.reserved0() as i128, int(b, 1, 1, false))?;
    ck("CfgPrtUart.tx_ready", r.tx_ready() as i128, int(b, 2, 2, false))?;
    ck("CfgPrtUart.baud_rate", r.baud_rate() as i128, int(b, 8, 4, false))?;
    ck("CfgPrtUart.in_proto_mask_raw", r.in_proto_mask_raw() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtUart.in_proto_mask", r.in_proto_mask().bits() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtUart.out_proto_mask_raw", r.out_proto_mask_raw() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtUart.out_proto_mask", r.out_proto_mask().bits() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtUart.flags", r.flags() as i128, int(b, 16, 2, false))?;
    ck("CfgPrtUart.reserved5", r.reserved5() as i128, int(b, 18, 2, false))?;
    ck("CfgPrtUart.mode_raw", r.mode_raw() as i128, int(b, 4, 4, false))?;
    let w = int(b, 4, 4, false) as u32;
    match crate::guard(|| show_UartMode(&r.mode())) {
        Ok(s) => cks("CfgPrtUart.mode", s, want_UartMode(w))?,
        Err(e) => return Err((if uart_ok(w) { "panic".into() } else { "uartmode-undecodable".into() }, format!("CfgPrtUartRef::mode() on mode word {:#x}: {}", w, e))),
    }
    Ok(())
}
pub fn read_CfgPrtSpi(r: &CfgPrtSpiRef<'_>, b: &[u8]) -> R {
    ckb("CfgPrtSpi.as_bytes", r.as_bytes(), b)?;
    ck("CfgPrtSpi.portid_raw", r.portid_raw() as i128, int(b, 0, 1, false))?;
    cks("CfgPrtSpi.portid", format!("{:?}", r.portid()), name_SpiPortId(int(b, 0, 1, false)))?;
    ck("CfgPrtSpi.reserved0", r.reserved0() as i128, int(b, 1, 1, false))?;
    ck("CfgPrtSpi.tx_ready", r.tx_ready() as i128, int(b, 2, 2, false))?;
    ck("CfgPrtSpi.mode", r.mode() as i128, int(b, 4, 4, false))?;
    ck("CfgPrtSpi.reserved3", r.reserved3() as i128, int(b, 8, 4, false))?;
    ck("CfgPrtSpi.in_proto_mask_raw", r.in_proto_mask_raw() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtSpi.in_proto_mask", r.in_proto_mask().bits() as i128, int(b, 12, 2, false))?;
    ck("CfgPrtSpi.out_proto_mask_raw", r.out_proto_mask_raw() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtSpi.out_proto_mask", r.out_proto_mask().bits() as i128, int(b, 14, 2, false))?;
    ck("CfgPrtSpi.flags", r.flags() as i128, int(b, 16, 2, false))?;
    ck("CfgPrtSpi.reserved5", r.reserved5() as i128, int(b, 18, 2, false))?;
    Ok(())
}
pub fn read_NavTimeUTC(r: &NavTimeUTCRef<'_>, b: &[u8]) -> R {
    ckb("NavTimeUTC.as_bytes", r.as_bytes(), b)?;
    ck("NavTimeUTC.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavTimeUTC.time_accuracy_estimate_ns", r.time_accuracy_estimate_ns() as i128, int(b, 4, 4, false))?;
    ck("NavTimeUTC.nanos", r.nanos() as i128, int(b, 8, 4, true))?;
    ck("NavTimeUTC.year", r.year() as i128, int(b, 12, 2, false))?;
    ck("NavTimeUTC.month", r.month() as i128, int(b, 14, 1, false))?;
    ck("NavTimeUTC.day", r.day() as i128, int(b, 15, 1, false))?;
    ck("NavTimeUTC.hour", r.hour() as i128, int(b, 16, 1, false))?;
    ck("NavTimeUTC.min", r.min() as i128, int(b, 17, 1, false))?;
    ck("NavTimeUTC.sec", r.sec() as i128, int(b, 18, 1, false))?;
    ck("NavTimeUTC.valid_raw", r.valid_raw() as i128, int(b, 19, 1, false))?;
    ck("NavTimeUTC.valid", r.valid().bits() as i128, int(b, 19, 1, false))?;
    Ok(())
}
pub fn read_CfgNav5(r: &CfgNav5Ref<'_>, b: &[u8]) -> R {
    ckb("CfgNav5.as_bytes", r.as_bytes(), b)?;
    ck("CfgNav5.mask_raw", r.mask_raw() as i128, int(b, 0, 2, false))?;
    ck("CfgNav5.mask", r.mask().bits() as i128, int(b, 0, 2, false))?;
    ck("CfgNav5.dyn_model_raw", r.dyn_model_raw() as i128, int(b, 2, 1, false))?;
    cks("CfgNav5.dyn_model", format!("{:?}", r.dyn_model()), name_CfgNav5DynModel(int(b, 2, 1, false)))?;
    ck("CfgNav5.fix_mode_raw", r.fix_mode_raw() as i128, int(b, 3, 1, false))?;
    cks("CfgNav5.fix_mode", format!("{:?}", r.fix_mode()), name_CfgNav5FixMode(int(b, 3, 1, false)))?;
    ck("CfgNav5.fixed_alt_raw", r.fixed_alt_raw() as i128, int(b, 4, 4, true))?;
    ckf("CfgNav5.fixed_alt", r.fixed_alt() as f64, int(b, 4, 4, true) as f64 * 0.01f64, 1e-13)?;
    ck("CfgNav5.fixed_alt_var_raw", r.fixed_alt_var_raw() as i128, int(b, 8, 4, false))?;
    ckf("CfgNav5.fixed_alt_var", r.fixed_alt_var() as f64, int(b, 8, 4, false) as f64 * 0.0001f64, 1e-13)?;
    ck("CfgNav5.min_elev_degrees", r.min_elev_degrees() as i128, int(b, 12, 1, true))?;
    ck("CfgNav5.dr_limit", r.dr_limit() as i128, int(b, 13, 1, false))?;
    ck("CfgNav5.pdop_raw", r.pdop_raw() as i128, int(b, 14, 2, false))?;
    ckf("CfgNav5.pdop", r.pdop() as f64, int(b, 14, 2, false) as f64 * 0.1f64, 3e-7)?;
    ck("CfgNav5.tdop_raw", r.tdop_raw() as i128, int(b, 16, 2, false))?;
    ckf("CfgNav5.tdop", r.tdop() as f64, int(b, 16, 2, false) as f64 * 0.1f64, 3e-7)?;
    ck("CfgNav5.pacc", r.pacc() as i128, int(b, 18, 2, false))?;
    ck("CfgNav5.tacc", r.tacc() as i128, int(b, 20, 2, false))?;
    ck("CfgNav5.static_hold_thresh_raw", r.static_hold_thresh_raw() as i128, int(b, 22, 1, false))?;
    ckf("CfgNav5.static_hold_thresh", r.static_hold_thresh() as f64, int(b, 22, 1, false) as f64 * 0.01f64, 3e-7)?;
    ck("CfgNav5.dgps_time_out", r.dgps_time_out() as i128, int(b, 23, 1, false))?;
    ck("CfgNav5.cno_thresh_num_svs", r.cno_thresh_num_svs() as i128, int(b, 24, 1, false))?;
    ck("CfgNav5.cno_thresh", r.cno_thresh() as i128, int(b, 25, 1, false))?;
    ckb("CfgNav5.reserved1", &r.reserved1()[..], &b[26..28])?;
    ck("CfgNav5.static_hold_max_dist", r.static_hold_max_dist() as i128, int(b, 28, 2, false))?;
    ck("CfgNav5.utc_standard_raw", r.utc_standard_raw() as i128, int(b, 30, 1, false))?;
    cks("CfgNav5.utc_standard", format!("{:?}", r.utc_standard()), name_CfgNav5UtcStandard(int(b, 30, 1, false)))?;
    ckb("CfgNav5.reserved2", &r.reserved2()[..], &b[31..36])?;
    Ok(())
}
pub fn read_MgaAck(r: &MgaAckRef<'_>, b: &[u8]) -> R {
    ckb("MgaAck.as_bytes", r.as_bytes(), b)?;
    ck("MgaAck.ack_type", r.ack_type() as i128, int(b, 0, 1, false))?;
    ck("MgaAck.version", r.version() as i128, int(b, 1, 1, false))?;
    ck("MgaAck.info_code_raw", r.info_code_raw() as i128, int(b, 2, 1, false))?;
    cks("MgaAck.info_code", format!("{:?}", r.info_code()), name_MsgAckInfoCode(int(b, 2, 1, false)))?;
    ck("MgaAck.msg_id", r.msg_id() as i128, int(b, 3, 1, false))?;
    ckb("MgaAck.msg_payload_start", &r.msg_payload_start()[..], &b[4..8])?;
    Ok(())
}
pub fn read_MgaGloEph(r: &MgaGloEphRef<'_>, b: &[u8]) -> R {
    ckb("MgaGloEph.as_bytes", r.as_bytes(), b)?;
    ck("MgaGloEph.msg_type", r.msg_type() as i128, int(b, 0, 1, false))?;
    ck("MgaGloEph.version", r.version() as i128, int(b, 1, 1, false))?;
    ck("MgaGloEph.sv_id", r.sv_id() as i128, int(b, 2, 1, false))?;
    ck("MgaGloEph.reserved1", r.reserved1() as i128, int(b, 3, 1, false))?;
    ck("MgaGloEph.ft", r.ft() as i128, int(b, 4, 1, false))?;
    ck("MgaGloEph.b", r.b() as i128, int(b, 5, 1, false))?;
    ck("MgaGloEph.m", r.m() as i128, int(b, 6, 1, false))?;
    ck("MgaGloEph.h", r.h() as i128, int(b, 7, 1, true))?;
    ck("MgaGloEph.x", r.x() as i128, int(b, 8, 4, true))?;
    ck("MgaGloEph.y", r.y() as i128, int(b, 12, 4, true))?;
    ck("MgaGloEph.z", r.z() as i128, int(b, 16, 4, true))?;
    ck("MgaGloEph.dx", r.dx() as i128, int(b, 20, 4, true))?;
    ck("MgaGloEph.dy", r.dy() as i128, int(b, 24, 4, true))?;
    ck("MgaGloEph.dz", r.dz() as i128, int(b, 28, 4, true))?;
    ck("MgaGloEph.ddx", r.ddx() as i128, int(b, 32, 1, true))?;
    ck("MgaGloEph.ddy", r.ddy() as i128, int(b, 33, 1, true))?;
    ck("MgaGloEph.ddz", r.ddz() as i128, int(b, 34, 1, true))?;
    ck("MgaGloEph.tb", r.tb() as i128, int(b, 35, 1, false))?;
    ck("MgaGloEph.gamma", r.gamma() as i128, int(b, 36, 2, false))?;
    ck("MgaGloEph.e", r.e() as i128, int(b, 38, 1, false))?;
    ck("MgaGloEph.delta_tau", r.delta_tau() as i128, int(b, 39, 1, false))?;
    ck("MgaGloEph.tau", r.tau() as i128, int(b, 40, 4, true))?;
    ckb("MgaGloEph.reserved2", &r.reserved2()[..], &b[44..48])?;
    Ok(())
}
pub fn read_MgaGpsIono(r: &MgaGpsIonoRef<'_>, b: &[u8]) -> R {
    ckb("MgaGpsIono.as_bytes", r.as_bytes(), b)?;
    ck("MgaGpsIono.msg_type", r.msg_type() as i128, int(b, 0, 1, false))?;
    ck("MgaGpsIono.version", r.version() as i128, int(b, 1, 1, false))?;
    ckb("MgaGpsIono.reserved1", &r.reserved1()[..], &b[2..4])?;
    ck("MgaGpsIono.alpha0_raw", r.alpha0_raw() as i128, int(b, 4, 1, true))?;
    ckf("MgaGpsIono.alpha0", r.alpha0() as f64, int(b, 4, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.alpha1_raw", r.alpha1_raw() as i128, int(b, 5, 1, true))?;
    ckf("MgaGpsIono.alpha1", r.alpha1() as f64, int(b, 5, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.alpha2_raw", r.alpha2_raw() as i128, int(b, 6, 1, true))?;
    ckf("MgaGpsIono.alpha2", r.alpha2() as f64, int(b, 6, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.alpha3_raw", r.alpha3_raw() as i128, int(b, 7, 1, true))?;
    ckf("MgaGpsIono.alpha3", r.alpha3() as f64, int(b, 7, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.beta0_raw", r.beta0_raw() as i128, int(b, 8, 1, true))?;
    ckf("MgaGpsIono.beta0", r.beta0() as f64, int(b, 8, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.beta1_raw", r.beta1_raw() as i128, int(b, 9, 1, true))?;
    ckf("MgaGpsIono.beta1", r.beta1() as f64, int(b, 9, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.beta2_raw", r.beta2_raw() as i128, int(b, 10, 1, true))?;
    ckf("MgaGpsIono.beta2", r.beta2() as f64, int(b, 10, 1, true) as f64 * 1.0f64, 1e-13)?;
    ck("MgaGpsIono.beta3_raw", r.beta3_raw() as i128, int(b, 11, 1, true))?;
    ckf("MgaGpsIono.beta3", r.beta3() as f64, int(b, 11, 1, true) as f64 * 1.0f64, 1e-13)?;
    ckb("MgaGpsIono.reserved2", &r.reserved2()[..], &b[12..16])?;
    Ok(())
}
pub fn read_MgaGpsEph(r: &MgaGpsEphRef<'_>, b: &[u8]) -> R {
    ckb("MgaGpsEph.as_bytes", r.as_bytes(), b)?;
    ck("MgaGpsEph.msg_type", r.msg_type() as i128, int(b, 0, 1, false))?;
    ck("MgaGpsEph.version", r.version() as i128, int(b, 1, 1, false))?;
    ck("MgaGpsEph.sv_id", r.sv_id() as i128, int(b, 2, 1, false))?;
    ck("MgaGpsEph.reserved1", r.reserved1() as i128, int(b, 3, 1, false))?;
    ck("MgaGpsEph.fit_interval", r.fit_interval() as i128, int(b, 4, 1, false))?;
    ck("MgaGpsEph.ura_index", r.ura_index() as i128, int(b, 5, 1, false))?;
    ck("MgaGpsEph.sv_health", r.sv_health() as i128, int(b, 6, 1, false))?;
    ck("MgaGpsEph.tgd", r.tgd() as i128, int(b, 7, 1, true))?;
    ck("MgaGpsEph.iodc", r.iodc() as i128, int(b, 8, 2, false))?;
    ck("MgaGpsEph.toc", r.toc() as i128, int(b, 10, 2, false))?;
    ck("MgaGpsEph.reserved2", r.reserved2() as i128, int(b, 12, 1, false))?;
    ck("MgaGpsEph.af2", r.af2() as i128, int(b, 13, 1, true))?;
    ck("MgaGpsEph.af1", r.af1() as i128, int(b, 14, 2, true))?;
    ck("MgaGpsEph.af0", r.af0() as i128, int(b, 16, 4, true))?;
    ck("MgaGpsEph.crs", r.crs() as i128, int(b, 20, 2, true))?;
    ck("MgaGpsEph.delta_n", r.delta_n() as i128, int(b, 22, 2, true))?;
    ck("MgaGpsEph.m0", r.m0() as i128, int(b, 24, 4, true))?;
    ck("MgaGpsEph.cuc", r.cuc() as i128, int(b, 28, 2, true))?;
    ck("MgaGpsEph.cus", r.cus() as i128, int(b, 30, 2, true))?;
    ck("MgaGpsEph.e", r.e() as i128, int(b, 32, 4, false))?;
    ck("MgaGpsEph.sqrt_a", r.sqrt_a() as i128, int(b, 36, 4, false))?;
    ck("MgaGpsEph.toe", r.toe() as i128, int(b, 40, 2, false))?;
    ck("MgaGpsEph.cic", r.cic() as i128, int(b, 42, 2, true))?;
    ck("MgaGpsEph.omega0", r.omega0() as i128, int(b, 44, 4, true))?;
    ck("MgaGpsEph.cis", r.cis() as i128, int(b, 48, 2, true))?;
    ck("MgaGpsEph.crc", r.crc() as i128, int(b, 50, 2, true))?;
    ck("MgaGpsEph.i0", r.i0() as i128, int(b, 52, 4, true))?;
    ck("MgaGpsEph.omega", r.omega() as i128, int(b, 56, 4, true))?;
    ck("MgaGpsEph.omega_dot", r.omega_dot() as i128, int(b, 60, 4, true))?;
    ck("MgaGpsEph.idot", r.idot() as i128, int(b, 64, 2, true))?;
    ckb("MgaGpsEph.reserved3", &r.reserved3()[..], &b[66..68])?;
    Ok(())
}
pub fn read_TimTp(r: &TimTpRef<'_>, b: &[u8]) -> R {
    ckb("TimTp.as_bytes", r.as_bytes(), b)?;
    ck("TimTp.tow_ms", r.tow_ms() as i128, int(b, 0, 4, false))?;
    ck("TimTp.tow_sub_ms", r.tow_sub_ms() as i128, int(b, 4, 4, false))?;
    ck("TimTp.q_err", r.q_err() as i128, int(b, 8, 4, true))?;
    ck("TimTp.week", r.week() as i128, int(b, 12, 2, false))?;
    ck("TimTp.flags_raw", r.flags_raw() as i128, int(b, 14, 1, false))?;
    cks("TimTp.flags", show_TimTpFlags(&r.flags()), want_TimTpFlags(int(b, 14, 1, false) as _))?;
    ck("TimTp.ref_info_raw", r.ref_info_raw() as i128, int(b, 15, 1, false))?;
    cks("TimTp.ref_info", show_TimTpRefInfo(&r.ref_info()), want_TimTpRefInfo(int(b, 15, 1, false) as _))?;
    Ok(())
}
pub fn read_TimTm2(r: &TimTm2Ref<'_>, b: &[u8]) -> R {
    ckb("TimTm2.as_bytes", r.as_bytes(), b)?;
    ck("TimTm2.ch", r.ch() as i128, int(b, 0, 1, false))?;
    ck("TimTm2.flags_raw", r.flags_raw() as i128, int(b, 1, 1, false))?;
    cks("TimTm2.flags", show_TimTm2Flags(&r.flags()), want_TimTm2Flags(int(b, 1, 1, false) as _))?;
    ck("TimTm2.count", r.count() as i128, int(b, 2, 2, false))?;
    ck("TimTm2.wn_r", r.wn_r() as i128, int(b, 4, 2, false))?;
    ck("TimTm2.wn_f", r.wn_f() as i128, int(b, 6, 2, false))?;
    ck("TimTm2.tow_ms_r", r.tow_ms_r() as i128, int(b, 8, 4, false))?;
    ck("TimTm2.tow_sub_ms_r", r.tow_sub_ms_r() as i128, int(b, 12, 4, false))?;
    ck("TimTm2.tow_ms_f", r.tow_ms_f() as i128, int(b, 16, 4, false))?;
    ck("TimTm2.tow_sub_ms_f", r.tow_sub_ms_f() as i128, int(b, 20, 4, false))?;
    ck("TimTm2.acc_est", r.acc_est() as i128, int(b, 24, 4, false))?;
    Ok(())
}
pub fn read_RxmRawx(r: &RxmRawxRef<'_>, b: &[u8]) -> R {
    ckb("RxmRawx.as_bytes", r.as_bytes(), b)?;
    ckf("RxmRawx.rcv_tow", r.rcv_tow() as f64, f64::from_bits(int(b, 0, 8, false) as u64) as f64, 0.0)?;
    ck("RxmRawx.week", r.week() as i128, int(b, 8, 2, false))?;
    ck("RxmRawx.leap_s", r.leap_s() as i128, int(b, 10, 1, true))?;
    ck("RxmRawx.num_meas", r.num_meas() as i128, int(b, 11, 1, false))?;
    ck("RxmRawx.rec_stat_raw", r.rec_stat_raw() as i128, int(b, 12, 1, false))?;
    ck("RxmRawx.rec_stat", r.rec_stat().bits() as i128, int(b, 12, 1, false))?;
    ck("RxmRawx.version", r.version() as i128, int(b, 13, 1, false))?;
    ckb("RxmRawx.reserved1", &r.reserved1()[..], &b[14..16])?;
    var_RxmRawx(r, b)?;
    Ok(())
}
pub fn read_MonHw(r: &MonHwRef<'_>, b: &[u8]) -> R {
    ckb("MonHw.as_bytes", r.as_bytes(), b)?;
    ck("MonHw.pin_sel", r.pin_sel() as i128, int(b, 0, 4, false))?;
    ck("MonHw.pin_bank", r.pin_bank() as i128, int(b, 4, 4, false))?;
    ck("MonHw.pin_dir", r.pin_dir() as i128, int(b, 8, 4, false))?;
    ck("MonHw.pin_val", r.pin_val() as i128, int(b, 12, 4, false))?;
    ck("MonHw.noise_per_ms", r.noise_per_ms() as i128, int(b, 16, 2, false))?;
    ck("MonHw.agc_cnt", r.agc_cnt() as i128, int(b, 18, 2, false))?;
    ck("MonHw.a_status_raw", r.a_status_raw() as i128, int(b, 20, 1, false))?;
    cks("MonHw.a_status", format!("{:?}", r.a_status()), name_AntennaStatus(int(b, 20, 1, false)))?;
    ck("MonHw.a_power_raw", r.a_power_raw() as i128, int(b, 21, 1, false))?;
    cks("MonHw.a_power", format!("{:?}", r.a_power()), name_AntennaPower(int(b, 21, 1, false)))?;
    ck("MonHw.flags", r.flags() as i128, int(b, 22, 1, false))?;
    ck("MonHw.reserved1", r.reserved1() as i128, int(b, 23, 1, false))?;
    ck("MonHw.used_mask", r.used_mask() as i128, int(b, 24, 4, false))?;
    ckb("MonHw.vp", &r.vp()[..], &b[28..45])?;
    ck("MonHw.jam_ind", r.jam_ind() as i128, int(b, 45, 1, false))?;
    ckb("MonHw.reserved2", &r.reserved2()[..], &b[46..48])?;
    ck("MonHw.pin_irq", r.pin_irq() as i128, int(b, 48, 4, false))?;
    ck("MonHw.pull_h", r.pull_h() as i128, int(b, 52, 4, false))?;
    ck("MonHw.pull_l", r.pull_l() as i128, int(b, 56, 4, false))?;
    Ok(())
}
pub fn read_MonGnss(r: &MonGnssRef<'_>, b: &[u8]) -> R {
    ckb("MonGnss.as_bytes", r.as_bytes(), b)?;
    ck("MonGnss.version", r.version() as i128, int(b, 0, 1, false))?;
    ck("MonGnss.supported_raw", r.supported_raw() as i128, int(b, 1, 1, false))?;
    ck("MonGnss.supported", r.supported().bits() as i128, int(b, 1, 1, false))?;
    ck("MonGnss.default_raw", r.default_raw() as i128, int(b, 2, 1, false))?;
    ck("MonGnss.default", r.default().bits() as i128, int(b, 2, 1, false))?;
    ck("MonGnss.enabled_raw", r.enabled_raw() as i128, int(b, 3, 1, false))?;
    ck("MonGnss.enabled", r.enabled().bits() as i128, int(b, 3, 1, false))?;
    ck("MonGnss.simultaneous", r.simultaneous() as i128, int(b, 4, 1, false))?;
    ckb("MonGnss.reserved1", &r.reserved1()[..], &b[5..8])?;
    Ok(())
}
pub fn read_MonVer(r: &MonVerRef<'_>, b: &[u8]) -> R {
    ckb("MonVer.as_bytes", r.as_bytes(), b)?;
    var_MonVer(r, b)?;
    Ok(())
}
pub fn read_RxmRtcm(r: &RxmRtcmRef<'_>, b: &[u8]) -> R {
    ckb("RxmRtcm.as_bytes", r.as_bytes(), b)?;
    ck("RxmRtcm.version", r.version() as i128, int(b, 0, 1, false))?;
    ck("RxmRtcm.flags", r.flags() as i128, int(b, 1, 1, false))?;
    ck("RxmRtcm.sub_type", r.sub_type() as i128, int(b, 2, 2, false))?;
    ck("RxmRtcm.ref_station", r.ref_station() as i128, int(b, 4, 2, false))?;
    ck("RxmRtcm.msg_type", r.msg_type() as i128, int(b, 6, 2, false))?;
    Ok(())
}
pub fn read_EsfMeas(r: &EsfMeasRef<'_>, b: &[u8]) -> R {
    ckb("EsfMeas.as_bytes", r.as_bytes(), b)?;
    ck("EsfMeas.time_tag", r.time_tag() as i128, int(b, 0, 4, false))?;
    ck("EsfMeas.flags", r.flags() as i128, int(b, 4, 2, false))?;
    ck("EsfMeas.id", r.id() as i128, int(b, 6, 2, false))?;
    var_EsfMeas(r, b)?;
    Ok(())
}
pub fn read_EsfRaw(r: &EsfRawRef<'_>, b: &[u8]) -> R {
    ckb("EsfRaw.as_bytes", r.as_bytes(), b)?;
    ck("EsfRaw.msss", r.msss() as i128, int(b, 0, 4, false))?;
    var_EsfRaw(r, b)?;
    Ok(())
}
pub fn read_EsfIns(r: &EsfInsRef<'_>, b: &[u8]) -> R {
    ckb("EsfIns.as_bytes", r.as_bytes(), b)?;
    ck("EsfIns.bit_field_raw", r.bit_field_raw() as i128, int(b, 0, 4, false))?;
    ck("EsfIns.bit_field", r.bit_field().bits() as i128, int(b, 0, 4, false))?;
    ckb("EsfIns.reserved", &r.reserved()[..], &b[4..8])?;
    ck("EsfIns.itow", r.itow() as i128, int(b, 8, 4, false))?;
    ck("EsfIns.x_angular_rate_raw", r.x_angular_rate_raw() as i128, int(b, 12, 4, true))?;
    ckf("EsfIns.x_angular_rate", r.x_angular_rate() as f64, int(b, 12, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("EsfIns.y_angular_rate_raw", r.y_angular_rate_raw() as i128, int(b, 16, 4, true))?;
    ckf("EsfIns.y_angular_rate", r.y_angular_rate() as f64, int(b, 16, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("EsfIns.z_angular_rate_raw", r.z_angular_rate_raw() as i128, int(b, 20, 4, true))?;
    ckf("EsfIns.z_angular_rate", r.z_angular_rate() as f64, int(b, 20, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("EsfIns.x_acceleration_raw", r.x_acceleration_raw() as i128, int(b, 24, 4, true))?;
    ckf("EsfIns.x_acceleration", r.x_acceleration() as f64, int(b, 24, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("EsfIns.y_acceleration_raw", r.y_acceleration_raw() as i128, int(b, 28, 4, true))?;
    ckf("EsfIns.y_acceleration", r.y_acceleration() as f64, int(b, 28, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("EsfIns.z_acceleration_raw", r.z_acceleration_raw() as i128, int(b, 32, 4, true))?;
    ckf("EsfIns.z_acceleration", r.z_acceleration() as f64, int(b, 32, 4, true) as f64 * 1e-2f64, 1e-13)?;
    Ok(())
}
pub fn read_HnrAtt(r: &HnrAttRef<'_>, b: &[u8]) -> R {
    ckb("HnrAtt.as_bytes", r.as_bytes(), b)?;
    ck("HnrAtt.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("HnrAtt.version", r.version() as i128, int(b, 4, 1, false))?;
    ckb("HnrAtt.reserved1", &r.reserved1()[..], &b[5..8])?;
    ck("HnrAtt.vehicle_roll_raw", r.vehicle_roll_raw() as i128, int(b, 8, 4, true))?;
    ckf("HnrAtt.vehicle_roll", r.vehicle_roll() as f64, int(b, 8, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrAtt.vehicle_pitch_raw", r.vehicle_pitch_raw() as i128, int(b, 12, 4, true))?;
    ckf("HnrAtt.vehicle_pitch", r.vehicle_pitch() as f64, int(b, 12, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrAtt.vehicle_heading_raw", r.vehicle_heading_raw() as i128, int(b, 16, 4, true))?;
    ckf("HnrAtt.vehicle_heading", r.vehicle_heading() as f64, int(b, 16, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrAtt.vehicle_roll_accuracy_raw", r.vehicle_roll_accuracy_raw() as i128, int(b, 20, 4, false))?;
    ckf("HnrAtt.vehicle_roll_accuracy", r.vehicle_roll_accuracy() as f64, int(b, 20, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrAtt.vehicle_pitch_accuracy_raw", r.vehicle_pitch_accuracy_raw() as i128, int(b, 24, 4, false))?;
    ckf("HnrAtt.vehicle_pitch_accuracy", r.vehicle_pitch_accuracy() as f64, int(b, 24, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrAtt.vehicle_heading_accuracy_raw", r.vehicle_heading_accuracy_raw() as i128, int(b, 28, 4, false))?;
    ckf("HnrAtt.vehicle_heading_accuracy", r.vehicle_heading_accuracy() as f64, int(b, 28, 4, false) as f64 * 1e-5f64, 1e-13)?;
    Ok(())
}
pub fn read_HnrIns(r: &HnrInsRef<'_>, b: &[u8]) -> R {
    ckb("HnrIns.as_bytes", r.as_bytes(), b)?;
    ck("HnrIns.bit_field_raw", r.bit_field_raw() as i128, int(b, 0, 4, false))?;
    ck("HnrIns.bit_field", r.bit_field().bits() as i128, int(b, 0, 4, false))?;
    ckb("HnrIns.reserved", &r.reserved()[..], &b[4..8])?;
    ck("HnrIns.itow", r.itow() as i128, int(b, 8, 4, false))?;
    ck("HnrIns.x_angular_rate_raw", r.x_angular_rate_raw() as i128, int(b, 12, 4, true))?;
    ckf("HnrIns.x_angular_rate", r.x_angular_rate() as f64, int(b, 12, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrIns.y_angular_rate_raw", r.y_angular_rate_raw() as i128, int(b, 16, 4, true))?;
    ckf("HnrIns.y_angular_rate", r.y_angular_rate() as f64, int(b, 16, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrIns.z_angular_rate_raw", r.z_angular_rate_raw() as i128, int(b, 20, 4, true))?;
    ckf("HnrIns.z_angular_rate", r.z_angular_rate() as f64, int(b, 20, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrIns.x_acceleration_raw", r.x_acceleration_raw() as i128, int(b, 24, 4, true))?;
    ckf("HnrIns.x_acceleration", r.x_acceleration() as f64, int(b, 24, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("HnrIns.y_acceleration_raw", r.y_acceleration_raw() as i128, int(b, 28, 4, true))?;
    ckf("HnrIns.y_acceleration", r.y_acceleration() as f64, int(b, 28, 4, true) as f64 * 1e-2f64, 1e-13)?;
    ck("HnrIns.z_acceleration_raw", r.z_acceleration_raw() as i128, int(b, 32, 4, true))?;
    ckf("HnrIns.z_acceleration", r.z_acceleration() as f64, int(b, 32, 4, true) as f64 * 1e-2f64, 1e-13)?;
    Ok(())
}
pub fn read_HnrPvt(r: &HnrPvtRef<'_>, b: &[u8]) -> R {
    ckb("HnrPvt.as_bytes", r.as_bytes(), b)?;
    ck("HnrPvt.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("HnrPvt.year", r.year() as i128, int(b, 4, 2, false))?;
    ck("HnrPvt.month", r.month() as i128, int(b, 6, 1, false))?;
    ck("HnrPvt.day", r.day() as i128, int(b, 7, 1, false))?;
    ck("HnrPvt.hour", r.hour() as i128, int(b, 8, 1, false))?;
    ck("HnrPvt.min", r.min() as i128, int(b, 9, 1, false))?;
    ck("HnrPvt.sec", r.sec() as i128, int(b, 10, 1, false))?;
    ck("HnrPvt.valid_raw", r.valid_raw() as i128, int(b, 11, 1, false))?;
    ck("HnrPvt.valid", r.valid().bits() as i128, int(b, 11, 1, false))?;
    ck("HnrPvt.nano", r.nano() as i128, int(b, 12, 4, true))?;
    ck("HnrPvt.gps_fix_raw", r.gps_fix_raw() as i128, int(b, 16, 1, false))?;
    cks("HnrPvt.gps_fix", format!("{:?}", r.gps_fix()), name_GpsFix(int(b, 16, 1, false)))?;
    ck("HnrPvt.flags_raw", r.flags_raw() as i128, int(b, 17, 1, false))?;
    ck("HnrPvt.flags", r.flags().bits() as i128, int(b, 17, 1, false))?;
    ckb("HnrPvt.reserved1", &r.reserved1()[..], &b[18..20])?;
    ck("HnrPvt.longitude_raw", r.longitude_raw() as i128, int(b, 20, 4, true))?;
    ckf("HnrPvt.longitude", r.longitude() as f64, int(b, 20, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("HnrPvt.latitude_raw", r.latitude_raw() as i128, int(b, 24, 4, true))?;
    ckf("HnrPvt.latitude", r.latitude() as f64, int(b, 24, 4, true) as f64 * 1e-7f64, 1e-13)?;
    ck("HnrPvt.height_above_ellipsoid_raw", r.height_above_ellipsoid_raw() as i128, int(b, 28, 4, true))?;
    ckf("HnrPvt.height_above_ellipsoid", r.height_above_ellipsoid() as f64, int(b, 28, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrPvt.height_msl_raw", r.height_msl_raw() as i128, int(b, 32, 4, true))?;
    ckf("HnrPvt.height_msl", r.height_msl() as f64, int(b, 32, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrPvt.ground_speed_2d_raw", r.ground_speed_2d_raw() as i128, int(b, 36, 4, true))?;
    ckf("HnrPvt.ground_speed_2d", r.ground_speed_2d() as f64, int(b, 36, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrPvt.speed_3d_raw", r.speed_3d_raw() as i128, int(b, 40, 4, true))?;
    ckf("HnrPvt.speed_3d", r.speed_3d() as f64, int(b, 40, 4, true) as f64 * 1e-3f64, 1e-13)?;
    ck("HnrPvt.heading_motion_raw", r.heading_motion_raw() as i128, int(b, 44, 4, true))?;
    ckf("HnrPvt.heading_motion", r.heading_motion() as f64, int(b, 44, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrPvt.heading_vehicle_raw", r.heading_vehicle_raw() as i128, int(b, 48, 4, true))?;
    ckf("HnrPvt.heading_vehicle", r.heading_vehicle() as f64, int(b, 48, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("HnrPvt.h_acc", r.h_acc() as i128, int(b, 52, 4, false))?;
    ck("HnrPvt.v_acc", r.v_acc() as i128, int(b, 56, 4, false))?;
    ck("HnrPvt.s_acc", r.s_acc() as i128, int(b, 60, 4, false))?;
    ck("HnrPvt.heading_accurracy_raw", r.heading_accurracy_raw() as i128, int(b, 64, 4, false))?;
    ckf("HnrPvt.heading_accurracy", r.heading_accurracy() as f64, int(b, 64, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ckb("HnrPvt.reserved2", &r.reserved2()[..], &b[68..72])?;
    Ok(())
}
pub fn read_NavAtt(r: &NavAttRef<'_>, b: &[u8]) -> R {
    ckb("NavAtt.as_bytes", r.as_bytes(), b)?;
    ck("NavAtt.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavAtt.version", r.version() as i128, int(b, 4, 1, false))?;
    ckb("NavAtt.reserved1", &r.reserved1()[..], &b[5..8])?;
    ck("NavAtt.vehicle_roll_raw", r.vehicle_roll_raw() as i128, int(b, 8, 4, true))?;
    ckf("NavAtt.vehicle_roll", r.vehicle_roll() as f64, int(b, 8, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavAtt.vehicle_pitch_raw", r.vehicle_pitch_raw() as i128, int(b, 12, 4, true))?;
    ckf("NavAtt.vehicle_pitch", r.vehicle_pitch() as f64, int(b, 12, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavAtt.vehicle_heading_raw", r.vehicle_heading_raw() as i128, int(b, 16, 4, true))?;
    ckf("NavAtt.vehicle_heading", r.vehicle_heading() as f64, int(b, 16, 4, true) as f64 * 1e-5f64, 1e-13)?;
    ck("NavAtt.vehicle_roll_accuracy_raw", r.vehicle_roll_accuracy_raw() as i128, int(b, 20, 4, false))?;
    ckf("NavAtt.vehicle_roll_accuracy", r.vehicle_roll_accuracy() as f64, int(b, 20, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ck("NavAtt.vehicle_pitch_accuracy_raw", r.vehicle_pitch_accuracy_raw() as i128, int(b, 24, 4, false))?;
    ckf("NavAtt.vehicle_pitch_accuracy", r.vehicle_pitch_accuracy() as f64, int(b, 24, 4, false) as f64 * 1e-5f64, 1e-13)?;
    ck("NavAtt.vehicle_heading_accuracy_raw", r.vehicle_heading_accuracy_raw() as i128, int(b, 28, 4, false))?;
    ckf("NavAtt.vehicle_heading_accuracy", r.vehicle_heading_accuracy() as f64, int(b, 28, 4, false) as f64 * 1e-5f64, 1e-13)?;
    Ok(())
}
pub fn read_NavClock(r: &NavClockRef<'_>, b: &[u8]) -> R {
    ckb("NavClock.as_bytes", r.as_bytes(), b)?;
    ck("NavClock.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavClock.clk_b", r.clk_b() as i128, int(b, 4, 4, true))?;
    ck("NavClock.clk_d", r.clk_d() as i128, int(b, 8, 4, true))?;
    ck("NavClock.t_acc", r.t_acc() as i128, int(b, 12, 4, false))?;
    ck("NavClock.f_acc", r.f_acc() as i128, int(b, 16, 4, false))?;
    Ok(())
}
pub fn read_RxmSfrbx(r: &RxmSfrbxRef<'_>, b: &[u8]) -> R {
    ckb("RxmSfrbx.as_bytes", r.as_bytes(), b)?;
    ck("RxmSfrbx.gnss_id", r.gnss_id() as i128, int(b, 0, 1, false))?;
    ck("RxmSfrbx.sv_id", r.sv_id() as i128, int(b, 1, 1, false))?;
    ck("RxmSfrbx.reserved1", r.reserved1() as i128, int(b, 2, 1, false))?;
    ck("RxmSfrbx.freq_id", r.freq_id() as i128, int(b, 3, 1, false))?;
    ck("RxmSfrbx.num_words", r.num_words() as i128, int(b, 4, 1, false))?;
    ck("RxmSfrbx.reserved2", r.reserved2() as i128, int(b, 5, 1, false))?;
    ck("RxmSfrbx.version", r.version() as i128, int(b, 6, 1, false))?;
    ck("RxmSfrbx.reserved3", r.reserved3() as i128, int(b, 7, 1, false))?;
    var_RxmSfrbx(r, b)?;
    Ok(())
}
pub fn read_NavVelECEF(r: &NavVelECEFRef<'_>, b: &[u8]) -> R {
    ckb("NavVelECEF.as_bytes", r.as_bytes(), b)?;
    ck("NavVelECEF.itow", r.itow() as i128, int(b, 0, 4, false))?;
    ck("NavVelECEF.ecef_vx", r.ecef_vx() as i128, int(b, 4, 4, true))?;
    ck("NavVelECEF.ecef_vy", r.ecef_vy() as i128, int(b, 8, 4, true))?;
    ck("NavVelECEF.ecef_vz", r.ecef_vz() as i128, int(b, 12, 4, true))?;
    ck("NavVelECEF.s_acc", r.s_acc() as i128, int(b, 16, 4, false))?;
    Ok(())
}
pub fn read_MgaGpsEPH(r: &MgaGpsEPHRef<'_>, b: &[u8]) -> R {
    ckb("MgaGpsEPH.as_bytes", r.as_bytes(), b)?;
    ck("MgaGpsEPH.msg_type", r.msg_type() as i128, int(b, 0, 1, false))?;
    ck("MgaGpsEPH.version", r.version() as i128, int(b, 1, 1, false))?;
    ck("MgaGpsEPH.sv_id", r.sv_id() as i128, int(b, 2, 1, false))?;
    ck("MgaGpsEPH.reserved1", r.reserved1() as i128, int(b, 3, 1, false))?;
    ck("MgaGpsEPH.fit_interval", r.fit_interval() as i128, int(b, 4, 1, false))?;
    ck("MgaGpsEPH.ura_index", r.ura_index() as i128, int(b, 5, 1, false))?;
    ck("MgaGpsEPH.sv_health", r.sv_health() as i128, int(b, 6, 1, false))?;
    ck("MgaGpsEPH.tgd_raw", r.tgd_raw() as i128, int(b, 7, 1, true))?;
    ckf("MgaGpsEPH.tgd", r.tgd() as f64, int(b, 7, 1, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.iodc", r.iodc() as i128, int(b, 8, 2, false))?;
    ck("MgaGpsEPH.toc_raw", r.toc_raw() as i128, int(b, 10, 2, false))?;
    ckf("MgaGpsEPH.toc", r.toc() as f64, int(b, 10, 2, false) as f64 * 2e+4f64, 1e-13)?;
    ck("MgaGpsEPH.reserved2", r.reserved2() as i128, int(b, 12, 1, false))?;
    ck("MgaGpsEPH.af2_raw", r.af2_raw() as i128, int(b, 13, 1, true))?;
    ckf("MgaGpsEPH.af2", r.af2() as f64, int(b, 13, 1, true) as f64 * 2e-55f64, 1e-13)?;
    ck("MgaGpsEPH.afl_raw", r.afl_raw() as i128, int(b, 14, 2, true))?;
    ckf("MgaGpsEPH.afl", r.afl() as f64, int(b, 14, 2, true) as f64 * 2e-43f64, 1e-13)?;
    ck("MgaGpsEPH.af0_raw", r.af0_raw() as i128, int(b, 16, 4, true))?;
    ckf("MgaGpsEPH.af0", r.af0() as f64, int(b, 16, 4, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.crs_raw", r.crs_raw() as i128, int(b, 20, 2, true))?;
    ckf("MgaGpsEPH.crs", r.crs() as f64, int(b, 20, 2, true) as f64 * 2e-5f64, 1e-13)?;
    ck("MgaGpsEPH.delta_n_raw", r.delta_n_raw() as i128, int(b, 22, 2, true))?;
    ckf("MgaGpsEPH.delta_n", r.delta_n() as f64, int(b, 22, 2, true) as f64 * 2e-43f64, 1e-13)?;
    ck("MgaGpsEPH.m0_raw", r.m0_raw() as i128, int(b, 24, 4, true))?;
    ckf("MgaGpsEPH.m0", r.m0() as f64, int(b, 24, 4, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.cuc_raw", r.cuc_raw() as i128, int(b, 28, 2, true))?;
    ckf("MgaGpsEPH.cuc", r.cuc() as f64, int(b, 28, 2, true) as f64 * 2e-29f64, 1e-13)?;
    ck("MgaGpsEPH.cus_raw", r.cus_raw() as i128, int(b, 30, 2, true))?;
    ckf("MgaGpsEPH.cus", r.cus() as f64, int(b, 30, 2, true) as f64 * 2e-29f64, 1e-13)?;
    ck("MgaGpsEPH.e_raw", r.e_raw() as i128, int(b, 32, 4, false))?;
    ckf("MgaGpsEPH.e", r.e() as f64, int(b, 32, 4, false) as f64 * 2e-33f64, 1e-13)?;
    ck("MgaGpsEPH.sqrt_a_raw", r.sqrt_a_raw() as i128, int(b, 36, 4, false))?;
    ckf("MgaGpsEPH.sqrt_a", r.sqrt_a() as f64, int(b, 36, 4, false) as f64 * 2e-19f64, 1e-13)?;
    ck("MgaGpsEPH.toe_raw", r.toe_raw() as i128, int(b, 40, 2, false))?;
    ckf("MgaGpsEPH.toe", r.toe() as f64, int(b, 40, 2, false) as f64 * 2e+4f64, 1e-13)?;
    ck("MgaGpsEPH.cic_raw", r.cic_raw() as i128, int(b, 42, 2, true))?;
    ckf("MgaGpsEPH.cic", r.cic() as f64, int(b, 42, 2, true) as f64 * 2e-29f64, 1e-13)?;
    ck("MgaGpsEPH.omega0_raw", r.omega0_raw() as i128, int(b, 44, 4, true))?;
    ckf("MgaGpsEPH.omega0", r.omega0() as f64, int(b, 44, 4, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.cis_raw", r.cis_raw() as i128, int(b, 48, 2, true))?;
    ckf("MgaGpsEPH.cis", r.cis() as f64, int(b, 48, 2, true) as f64 * 2e-29f64, 1e-13)?;
    ck("MgaGpsEPH.crc_raw", r.crc_raw() as i128, int(b, 50, 2, true))?;
    ckf("MgaGpsEPH.crc", r.crc() as f64, int(b, 50, 2, true) as f64 * 2e-5f64, 1e-13)?;
    ck("MgaGpsEPH.i0_raw", r.i0_raw() as i128, int(b, 52, 4, true))?;
    ckf("MgaGpsEPH.i0", r.i0() as f64, int(b, 52, 4, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.omega_raw", r.omega_raw() as i128, int(b, 56, 4, true))?;
    ckf("MgaGpsEPH.omega", r.omega() as f64, int(b, 56, 4, true) as f64 * 2e-31f64, 1e-13)?;
    ck("MgaGpsEPH.omega_dot_raw", r.omega_dot_raw() as i128, int(b, 60, 4, true))?;
    ckf("MgaGpsEPH.omega_dot", r.omega_dot() as f64, int(b, 60, 4, true) as f64 * 2e-43f64, 1e-13)?;
    ck("MgaGpsEPH.idot_raw", r.idot_raw() as i128, int(b, 64, 2, true))?;
    ckf("MgaGpsEPH.idot", r.idot() as f64, int(b, 64, 2, true) as f64 * 2e-43f64, 1e-13)?;
    ckb("MgaGpsEPH.reserved3", &r.reserved3()[..], &b[66..68])?;
    Ok(())
}
pub fn read_RxmRawxInfo(r: &RxmRawxInfoRef<'_>, b: &[u8]) -> R {
    ckb("RxmRawxInfo.as_bytes", r.as_bytes(), b)?;
    ckf("RxmRawxInfo.pr_mes", r.pr_mes() as f64, f64::from_bits(int(b, 0, 8, false) as u64) as f64, 0.0)?;
    ckf("RxmRawxInfo.cp_mes", r.cp_mes() as f64, f64::from_bits(int(b, 8, 8, false) as u64) as f64, 0.0)?;
    ckf("RxmRawxInfo.do_mes", r.do_mes() as f64, f32::from_bits(int(b, 16, 4, false) as u32) as f64, 0.0)?;
    ck("RxmRawxInfo.gnss_id", r.gnss_id() as i128, int(b, 20, 1, false))?;
    ck("RxmRawxInfo.sv_id", r.sv_id() as i128, int(b, 21, 1, false))?;
    ck("RxmRawxInfo.reserved2", r.reserved2() as i128, int(b, 22, 1, false))?;
    ck("RxmRawxInfo.freq_id", r.freq_id() as i128, int(b, 23, 1, false))?;
    ck("RxmRawxInfo.lock_time", r.lock_time() as i128, int(b, 24, 2, false))?;
    ck("RxmRawxInfo.cno", r.cno() as i128, int(b, 26, 1, false))?;
    ck("RxmRawxInfo.pr_stdev_raw", r.pr_stdev_raw() as i128, int(b, 27, 1, false))?;
    ck("RxmRawxInfo.pr_stdev", r.pr_stdev().bits() as i128, int(b, 27, 1, false))?;
    ck("RxmRawxInfo.cp_stdev_raw", r.cp_stdev_raw() as i128, int(b, 28, 1, false))?;
    ck("RxmRawxInfo.cp_stdev", r.cp_stdev().bits() as i128, int(b, 28, 1, false))?;
    ck("RxmRawxInfo.do_stdev_raw", r.do_stdev_raw() as i128, int(b, 29, 1, false))?;
    ck("RxmRawxInfo.do_stdev", r.do_stdev().bits() as i128, int(b, 29, 1, false))?;
    ck("RxmRawxInfo.trk_stat_raw", r.trk_stat_raw() as i128, int(b, 30, 1, false))?;
    ck("RxmRawxInfo.trk_stat", r.trk_stat().bits() as i128, int(b, 30, 1, false))?;
    ck("RxmRawxInfo.reserved3", r.reserved3() as i128, int(b, 31, 1, false))?;
    Ok(())
}
pub fn read_SecUniqId(r: &SecUniqIdRef<'_>, b: &[u8]) -> R {
    ckb("SecUniqId.as_bytes", r.as_bytes(), b)?;
    ck("SecUniqId.version", r.version() as i128, int(b, 0, 1, false))?;
    ckb("SecUniqId.reserved1", &r.reserved1()[..], &b[1..4])?;
    ckb("SecUniqId.unique_id", &r.unique_id()[..], &b[4..9])?;
    Ok(())
}
pub fn read(p: &PacketRef<'_>, b: &[u8]) -> R {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(r) => read_NavPosLlh(r, b),
        PacketRef::NavStatus(r) => read_NavStatus(r, b),
        PacketRef::NavDop(r) => read_NavDop(r, b),
        PacketRef::NavPvt(r) => read_NavPvt(r, b),
        PacketRef::NavSolution(r) => read_NavSolution(r, b),
        PacketRef::NavVelNed(r) => read_NavVelNed(r, b),
        PacketRef::NavHpPosLlh(r) => read_NavHpPosLlh(r, b),
        PacketRef::NavHpPosEcef(r) => read_NavHpPosEcef(r, b),
        PacketRef::NavTimeUTC(r) => read_NavTimeUTC(r, b),
        PacketRef::NavTimeLs(r) => read_NavTimeLs(r, b),
        PacketRef::NavSat(r) => read_NavSat(r, b),
        PacketRef::NavEoe(r) => read_NavEoe(r, b),
        PacketRef::NavOdo(r) => read_NavOdo(r, b),
        PacketRef::CfgOdo(r) => read_CfgOdo(r, b),
        PacketRef::MgaAck(r) => read_MgaAck(r, b),
        PacketRef::MgaGpsIono(r) => read_MgaGpsIono(r, b),
        PacketRef::MgaGpsEph(r) => read_MgaGpsEph(r, b),
        PacketRef::MgaGloEph(r) => read_MgaGloEph(r, b),
        PacketRef::AlpSrv(r) => read_AlpSrv(r, b),
        PacketRef::AckAck(r) => read_AckAck(r, b),
        PacketRef::AckNak(r) => read_AckNak(r, b),
        PacketRef::CfgItfm(r) => read_CfgItfm(r, b),
        PacketRef::CfgPrtI2c(r) => read_CfgPrtI2c(r, b),
        PacketRef::CfgPrtSpi(r) => read_CfgPrtSpi(r, b),
        PacketRef::CfgPrtUart(r) => read_CfgPrtUart(r, b),
        PacketRef::CfgNav5(r) => read_CfgNav5(r, b),
        PacketRef::CfgAnt(r) => read_CfgAnt(r, b),
        PacketRef::CfgTmode2(r) => read_CfgTmode2(r, b),
        PacketRef::CfgTmode3(r) => read_CfgTmode3(r, b),
        PacketRef::CfgTp5(r) => read_CfgTp5(r, b),
        PacketRef::InfError(r) => read_InfError(r, b),
        PacketRef::InfWarning(r) => read_InfWarning(r, b),
        PacketRef::InfNotice(r) => read_InfNotice(r, b),
        PacketRef::InfTest(r) => read_InfTest(r, b),
        PacketRef::InfDebug(r) => read_InfDebug(r, b),
        PacketRef::RxmRawx(r) => read_RxmRawx(r, b),
        PacketRef::TimTp(r) => read_TimTp(r, b),
        PacketRef::TimTm2(r) => read_TimTm2(r, b),
        PacketRef::MonVer(r) => read_MonVer(r, b),
        PacketRef::MonGnss(r) => read_MonGnss(r, b),
        PacketRef::MonHw(r) => read_MonHw(r, b),
        PacketRef::RxmRtcm(r) => read_RxmRtcm(r, b),
        PacketRef::EsfMeas(r) => read_EsfMeas(r, b),
        PacketRef::EsfIns(r) => read_EsfIns(r, b),
        PacketRef::HnrAtt(r) => read_HnrAtt(r, b),
        PacketRef::HnrIns(r) => read_HnrIns(r, b),
        PacketRef::HnrPvt(r) => read_HnrPvt(r, b),
        PacketRef::NavAtt(r) => read_NavAtt(r, b),
        PacketRef::NavClock(r) => read_NavClock(r, b),
        PacketRef::NavVelECEF(r) => read_NavVelECEF(r, b),
        PacketRef::MgaGpsEPH(r) => read_MgaGpsEPH(r, b),
        PacketRef::RxmSfrbx(r) => read_RxmSfrbx(r, b),
        PacketRef::EsfRaw(r) => read_EsfRaw(r, b),
        PacketRef::TimSvin(r) => read_TimSvin(r, b),
        PacketRef::SecUniqId(r) => read_SecUniqId(r, b),
        _ => Ok(()),
    }
}
/// calls every accessor and drains every iterator
pub fn touch(p: &PacketRef<'_>) {
    use std::hint::black_box as bb;
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(r) => { bb(r.itow()); bb(r.lon_degrees()); bb(r.lon_degrees_raw()); bb(r.lat_degrees()); bb(r.lat_degrees_raw()); bb(r.height_meters()); bb(r.height_meters_raw()); bb(r.height_msl()); bb(r.height_msl_raw()); bb(r.h_ack()); bb(r.h_ack_raw()); bb(r.v_acc()); bb(r.v_acc_raw()); }
        PacketRef::NavStatus(r) => { bb(r.itow()); bb(r.fix_type()); bb(r.fix_type_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.fix_stat()); bb(r.fix_stat_raw()); bb(r.flags2()); bb(r.flags2_raw()); bb(r.time_to_first_fix()); bb(r.uptime_ms()); }
        PacketRef::NavDop(r) => { bb(r.itow()); bb(r.geometric_dop()); bb(r.geometric_dop_raw()); bb(r.position_dop()); bb(r.position_dop_raw()); bb(r.time_dop()); bb(r.time_dop_raw()); bb(r.vertical_dop()); bb(r.vertical_dop_raw()); bb(r.horizontal_dop()); bb(r.horizontal_dop_raw()); bb(r.northing_dop()); bb(r.northing_dop_raw()); bb(r.easting_dop()); bb(r.easting_dop_raw()); }
        PacketRef::NavPvt(r) => { bb(r.itow()); bb(r.year()); bb(r.month()); bb(r.day()); bb(r.hour()); bb(r.min()); bb(r.sec()); bb(r.valid()); bb(r.time_accuracy()); bb(r.nanosecond()); bb(r.fix_type()); bb(r.fix_type_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.flags2()); bb(r.flags2_raw()); bb(r.num_satellites()); bb(r.lon_degrees()); bb(r.lon_degrees_raw()); bb(r.lat_degrees()); bb(r.lat_degrees_raw()); bb(r.height_meters()); bb(r.height_meters_raw()); bb(r.height_msl()); bb(r.height_msl_raw()); bb(r.horiz_accuracy()); bb(r.vert_accuracy()); bb(r.vel_north()); bb(r.vel_north_raw()); bb(r.vel_east()); bb(r.vel_east_raw()); bb(r.vel_down()); bb(r.vel_down_raw()); bb(r.ground_speed()); bb(r.ground_speed_raw()); bb(r.heading_degrees()); bb(r.heading_degrees_raw()); bb(r.speed_accuracy_estimate()); bb(r.speed_accuracy_estimate_raw()); bb(r.heading_accuracy_estimate()); bb(r.heading_accuracy_estimate_raw()); bb(r.pdop()); bb(r.reserved1()); bb(r.heading_of_vehicle_degrees()); bb(r.heading_of_vehicle_degrees_raw()); bb(r.magnetic_declination_degrees()); bb(r.magnetic_declination_degrees_raw()); bb(r.magnetic_declination_accuracy_degrees()); bb(r.magnetic_declination_accuracy_degrees_raw()); }
        PacketRef::NavSolution(r) => { bb(r.itow()); bb(r.ftow_ns()); bb(r.week()); bb(r.fix_type()); bb(r.fix_type_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.ecef_x()); bb(r.ecef_x_raw()); bb(r.ecef_y()); bb(r.ecef_y_raw()); bb(r.ecef_z()); bb(r.ecef_z_raw()); bb(r.position_accuracy_estimate()); bb(r.position_accuracy_estimate_raw()); bb(r.ecef_vx()); bb(r.ecef_vx_raw()); bb(r.ecef_vy()); bb(r.ecef_vy_raw()); bb(r.ecef_vz()); bb(r.ecef_vz_raw()); bb(r.speed_accuracy_estimate()); bb(r.speed_accuracy_estimate_raw()); bb(r.pdop()); bb(r.pdop_raw()); bb(r.reserved1()); bb(r.num_sv()); bb(r.reserved2()); }
        PacketRef::NavVelNed(r) => { bb(r.itow()); bb(r.vel_north()); bb(r.vel_north_raw()); bb(r.vel_east()); bb(r.vel_east_raw()); bb(r.vel_down()); bb(r.vel_down_raw()); bb(r.speed_3d()); bb(r.speed_3d_raw()); bb(r.ground_speed()); bb(r.ground_speed_raw()); bb(r.heading_degrees()); bb(r.heading_degrees_raw()); bb(r.speed_accuracy_estimate()); bb(r.speed_accuracy_estimate_raw()); bb(r.course_heading_accuracy_estimate()); bb(r.course_heading_accuracy_estimate_raw()); }
        PacketRef::NavHpPosLlh(r) => { bb(r.version()); bb(r.reserved1()); bb(r.itow()); bb(r.lon_degrees()); bb(r.lon_degrees_raw()); bb(r.lat_degrees()); bb(r.lat_degrees_raw()); bb(r.height_meters()); bb(r.height_meters_raw()); bb(r.height_msl()); bb(r.height_msl_raw()); bb(r.lon_hp_degrees()); bb(r.lon_hp_degrees_raw()); bb(r.lat_hp_degrees()); bb(r.lat_hp_degrees_raw()); bb(r.height_hp_meters()); bb(r.height_hp_meters_raw()); bb(r.height_hp_msl()); bb(r.height_hp_msl_raw()); bb(r.horizontal_accuracy()); bb(r.horizontal_accuracy_raw()); bb(r.vertical_accuracy()); bb(r.vertical_accuracy_raw()); }
        PacketRef::NavHpPosEcef(r) => { bb(r.version()); bb(r.reserved1()); bb(r.itow()); bb(r.ecef_x_cm()); bb(r.ecef_x_cm_raw()); bb(r.ecef_y_cm()); bb(r.ecef_y_cm_raw()); bb(r.ecef_z_cm()); bb(r.ecef_z_cm_raw()); bb(r.ecef_x_hp_mm()); bb(r.ecef_x_hp_mm_raw()); bb(r.ecef_y_hp_mm()); bb(r.ecef_y_hp_mm_raw()); bb(r.ecef_z_hp_mm()); bb(r.ecef_z_hp_mm_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.p_acc()); bb(r.p_acc_raw()); }
        PacketRef::NavTimeUTC(r) => { bb(r.itow()); bb(r.time_accuracy_estimate_ns()); bb(r.nanos()); bb(r.year()); bb(r.month()); bb(r.day()); bb(r.hour()); bb(r.min()); bb(r.sec()); bb(r.valid()); bb(r.valid_raw()); }
        PacketRef::NavTimeLs(r) => { bb(r.itow()); bb(r.version()); bb(r.reserved_1()); bb(r.src_of_curr_ls()); bb(r.current_ls()); bb(r.src_of_ls_change()); bb(r.ls_change()); bb(r.time_to_ls_event()); bb(r.date_of_ls_gps_wn()); bb(r.date_of_ls_gps_dn()); bb(r.reserved_2()); bb(r.valid()); bb(r.valid_raw()); }
        PacketRef::NavSat(r) => { bb(r.itow()); bb(r.version()); bb(r.num_svs()); bb(r.reserved()); for x in r.svs() { bb(format!("{:?}", x)); } }
        PacketRef::NavEoe(r) => { bb(r.itow()); }
        PacketRef::NavOdo(r) => { bb(r.version()); bb(r.reserved()); bb(r.itow()); bb(r.distance()); bb(r.total_distance()); bb(r.distance_std()); }
        PacketRef::CfgOdo(r) => { bb(r.version()); bb(r.reserved()); bb(r.flags()); bb(r.flags_raw()); bb(r.odo_cfg()); bb(r.odo_cfg_raw()); bb(r.reserved2()); bb(r.cog_max_speed()); bb(r.cog_max_pos_acc()); bb(r.reserved3()); bb(r.vel_lp_gain()); bb(r.cog_lp_gain()); bb(r.reserved4()); }
        PacketRef::MgaAck(r) => { bb(r.ack_type()); bb(r.version()); bb(r.info_code()); bb(r.info_code_raw()); bb(r.msg_id()); bb(r.msg_payload_start()); }
        PacketRef::MgaGpsIono(r) => { bb(r.msg_type()); bb(r.version()); bb(r.reserved1()); bb(r.alpha0()); bb(r.alpha0_raw()); bb(r.alpha1()); bb(r.alpha1_raw()); bb(r.alpha2()); bb(r.alpha2_raw()); bb(r.alpha3()); bb(r.alpha3_raw()); bb(r.beta0()); bb(r.beta0_raw()); bb(r.beta1()); bb(r.beta1_raw()); bb(r.beta2()); bb(r.beta2_raw()); bb(r.beta3()); bb(r.beta3_raw()); bb(r.reserved2()); }
        PacketRef::MgaGpsEph(r) => { bb(r.msg_type()); bb(r.version()); bb(r.sv_id()); bb(r.reserved1()); bb(r.fit_interval()); bb(r.ura_index()); bb(r.sv_health()); bb(r.tgd()); bb(r.iodc()); bb(r.toc()); bb(r.reserved2()); bb(r.af2()); bb(r.af1()); bb(r.af0()); bb(r.crs()); bb(r.delta_n()); bb(r.m0()); bb(r.cuc()); bb(r.cus()); bb(r.e()); bb(r.sqrt_a()); bb(r.toe()); bb(r.cic()); bb(r.omega0()); bb(r.cis()); bb(r.crc()); bb(r.i0()); bb(r.omega()); bb(r.omega_dot()); bb(r.idot()); bb(r.reserved3()); }
        PacketRef::MgaGloEph(r) => { bb(r.msg_type()); bb(r.version()); bb(r.sv_id()); bb(r.reserved1()); bb(r.ft()); bb(r.b()); bb(r.m()); bb(r.h()); bb(r.x()); bb(r.y()); bb(r.z()); bb(r.dx()); bb(r.dy()); bb(r.dz()); bb(r.ddx()); bb(r.ddy()); bb(r.ddz()); bb(r.tb()); bb(r.gamma()); bb(r.e()); bb(r.delta_tau()); bb(r.tau()); bb(r.reserved2()); }
        PacketRef::AlpSrv(r) => { bb(r.id_size()); bb(r.data_type()); bb(r.offset()); bb(r.size()); bb(r.file_id()); bb(r.data_size()); bb(r.id1()); bb(r.id2()); bb(r.id3()); }
        PacketRef::AckAck(r) => { bb(r.class()); bb(r.msg_id()); }
        PacketRef::AckNak(r) => { bb(r.class()); bb(r.msg_id()); }
        PacketRef::CfgItfm(r) => { bb(r.config()); bb(r.config_raw()); bb(r.config2()); bb(r.config2_raw()); }
        PacketRef::CfgPrtI2c(r) => { bb(r.portid()); bb(r.portid_raw()); bb(r.reserved1()); bb(r.tx_ready()); bb(r.mode()); bb(r.reserved2()); bb(r.in_proto_mask()); bb(r.in_proto_mask_raw()); bb(r.out_proto_mask()); bb(r.out_proto_mask_raw()); bb(r.flags()); bb(r.reserved3()); }
        PacketRef::CfgPrtSpi(r) => { bb(r.portid()); bb(r.portid_raw()); bb(r.reserved0()); bb(r.tx_ready()); bb(r.mode()); bb(r.reserved3()); bb(r.in_proto_mask()); bb(r.in_proto_mask_raw()); bb(r.out_proto_mask()); bb(r.out_proto_mask_raw()); bb(r.flags()); bb(r.reserved5()); }
        PacketRef::CfgPrtUart(r) => { bb(r.portid()); bb(r.portid_raw()); bb(r.reserved0()); bb(r.tx_ready()); bb(r.mode()); bb(r.mode_raw()); bb(r.baud_rate()); bb(r.in_proto_mask()); bb(r.in_proto_mask_raw()); bb(r.out_proto_mask()); bb(r.out_proto_mask_raw()); bb(r.flags()); bb(r.reserved5()); }
        PacketRef::CfgNav5(r) => { bb(r.mask()); bb(r.mask_raw()); bb(r.dyn_model()); bb(r.dyn_model_raw()); bb(r.fix_mode()); bb(r.fix_mode_raw()); bb(r.fixed_alt()); bb(r.fixed_alt_raw()); bb(r.fixed_alt_var()); bb(r.fixed_alt_var_raw()); bb(r.min_elev_degrees()); bb(r.dr_limit()); bb(r.pdop()); bb(r.pdop_raw()); bb(r.tdop()); bb(r.tdop_raw()); bb(r.pacc()); bb(r.tacc()); bb(r.static_hold_thresh()); bb(r.static_hold_thresh_raw()); bb(r.dgps_time_out()); bb(r.cno_thresh_num_svs()); bb(r.cno_thresh()); bb(r.reserved1()); bb(r.static_hold_max_dist()); bb(r.utc_standard()); bb(r.utc_standard_raw()); bb(r.reserved2()); }
        PacketRef::CfgAnt(r) => { bb(r.flags()); bb(r.flags_raw()); bb(r.pins()); }
        PacketRef::CfgTmode2(r) => { bb(r.time_transfer_mode()); bb(r.time_transfer_mode_raw()); bb(r.reserved1()); bb(r.flags()); bb(r.flags_raw()); bb(r.ecef_x_or_lat()); bb(r.ecef_x_or_lat_raw()); bb(r.ecef_y_or_lon()); bb(r.ecef_y_or_lon_raw()); bb(r.ecef_z_or_alt()); bb(r.ecef_z_or_alt_raw()); bb(r.fixed_pos_acc()); bb(r.fixed_pos_acc_raw()); bb(r.survey_in_min_duration()); bb(r.survery_in_accur_limit()); bb(r.survery_in_accur_limit_raw()); }
        PacketRef::CfgTmode3(r) => { bb(r.version()); bb(r.reserved1()); bb(r.rcvr_mode()); bb(r.rcvr_mode_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.ecef_x_or_lat()); bb(r.ecef_x_or_lat_raw()); bb(r.ecef_y_or_lon()); bb(r.ecef_y_or_lon_raw()); bb(r.ecef_z_or_alt()); bb(r.ecef_z_or_alt_raw()); bb(r.ecef_x_or_lat_hp()); bb(r.ecef_x_or_lat_hp_raw()); bb(r.ecef_y_or_lon_hp()); bb(r.ecef_y_or_lon_hp_raw()); bb(r.ecef_z_or_alt_hp()); bb(r.ecef_z_or_alt_hp_raw()); bb(r.reserved2()); bb(r.fixed_pos_acc()); bb(r.fixed_pos_acc_raw()); bb(r.sv_in_min_duration()); bb(r.sv_in_accur_limit()); bb(r.sv_in_accur_limit_raw()); bb(r.reserved3()); }
        PacketRef::CfgTp5(r) => { bb(r.tp_idx()); bb(r.tp_idx_raw()); bb(r.version()); bb(r.reserved1()); bb(r.ant_cable_delay()); bb(r.ant_cable_delay_raw()); bb(r.rf_group_delay()); bb(r.rf_group_delay_raw()); bb(r.freq_period()); bb(r.freq_period_raw()); bb(r.freq_period_lock()); bb(r.freq_period_lock_raw()); bb(r.pulse_len_ratio()); bb(r.pulse_len_ratio_raw()); bb(r.pulse_len_ratio_lock()); bb(r.pulse_len_ratio_lock_raw()); bb(r.user_delay()); bb(r.user_delay_raw()); bb(r.flags()); bb(r.flags_raw()); }
        PacketRef::InfError(r) => { bb(r.message()); }
        PacketRef::InfWarning(r) => { bb(r.message()); }
        PacketRef::InfNotice(r) => { bb(r.message()); }
        PacketRef::InfTest(r) => { bb(r.message()); }
        PacketRef::InfDebug(r) => { bb(r.message()); }
        PacketRef::RxmRawx(r) => { bb(r.rcv_tow()); bb(r.week()); bb(r.leap_s()); bb(r.num_meas()); bb(r.rec_stat()); bb(r.rec_stat_raw()); bb(r.version()); bb(r.reserved1()); for x in r.measurements() { bb(format!("{:?}", x)); } }
        PacketRef::TimTp(r) => { bb(r.tow_ms()); bb(r.tow_sub_ms()); bb(r.q_err()); bb(r.week()); bb(r.flags()); bb(r.flags_raw()); bb(r.ref_info()); bb(r.ref_info_raw()); }
        PacketRef::TimTm2(r) => { bb(r.ch()); bb(r.flags()); bb(r.flags_raw()); bb(r.count()); bb(r.wn_r()); bb(r.wn_f()); bb(r.tow_ms_r()); bb(r.tow_sub_ms_r()); bb(r.tow_ms_f()); bb(r.tow_sub_ms_f()); bb(r.acc_est()); }
        PacketRef::MonVer(r) => { bb(r.software_version()); bb(r.software_version_raw()); bb(r.hardware_version()); bb(r.hardware_version_raw()); for x in r.extension() { bb(format!("{:?}", x)); } }
        PacketRef::MonGnss(r) => { bb(r.version()); bb(r.supported()); bb(r.supported_raw()); bb(r.default()); bb(r.default_raw()); bb(r.enabled()); bb(r.enabled_raw()); bb(r.simultaneous()); bb(r.reserved1()); }
        PacketRef::MonHw(r) => { bb(r.pin_sel()); bb(r.pin_bank()); bb(r.pin_dir()); bb(r.pin_val()); bb(r.noise_per_ms()); bb(r.agc_cnt()); bb(r.a_status()); bb(r.a_status_raw()); bb(r.a_power()); bb(r.a_power_raw()); bb(r.flags()); bb(r.reserved1()); bb(r.used_mask()); bb(r.vp()); bb(r.jam_ind()); bb(r.reserved2()); bb(r.pin_irq()); bb(r.pull_h()); bb(r.pull_l()); }
        PacketRef::RxmRtcm(r) => { bb(r.version()); bb(r.flags()); bb(r.sub_type()); bb(r.ref_station()); bb(r.msg_type()); }
        PacketRef::EsfMeas(r) => { bb(r.time_tag()); bb(r.flags()); bb(r.id()); for x in r.data() { bb(format!("{:?}", x)); } bb(r.calib_tag()); }
        PacketRef::EsfIns(r) => { bb(r.bit_field()); bb(r.bit_field_raw()); bb(r.reserved()); bb(r.itow()); bb(r.x_angular_rate()); bb(r.x_angular_rate_raw()); bb(r.y_angular_rate()); bb(r.y_angular_rate_raw()); bb(r.z_angular_rate()); bb(r.z_angular_rate_raw()); bb(r.x_acceleration()); bb(r.x_acceleration_raw()); bb(r.y_acceleration()); bb(r.y_acceleration_raw()); bb(r.z_acceleration()); bb(r.z_acceleration_raw()); }
        PacketRef::HnrAtt(r) => { bb(r.itow()); bb(r.version()); bb(r.reserved1()); bb(r.vehicle_roll()); bb(r.vehicle_roll_raw()); bb(r.vehicle_pitch()); bb(r.vehicle_pitch_raw()); bb(r.vehicle_heading()); bb(r.vehicle_heading_raw()); bb(r.vehicle_roll_accuracy()); bb(r.vehicle_roll_accuracy_raw()); bb(r.vehicle_pitch_accuracy()); bb(r.vehicle_pitch_accuracy_raw()); bb(r.vehicle_heading_accuracy()); bb(r.vehicle_heading_accuracy_raw()); }
        PacketRef::HnrIns(r) => { bb(r.bit_field()); bb(r.bit_field_raw()); bb(r.reserved()); bb(r.itow()); bb(r.x_angular_rate()); bb(r.x_angular_rate_raw()); bb(r.y_angular_rate()); bb(r.y_angular_rate_raw()); bb(r.z_angular_rate()); bb(r.z_angular_rate_raw()); bb(r.x_acceleration()); bb(r.x_acceleration_raw()); bb(r.y_acceleration()); bb(r.y_acceleration_raw()); bb(r.z_acceleration()); bb(r.z_acceleration_raw()); }
        PacketRef::HnrPvt(r) => { bb(r.itow()); bb(r.year()); bb(r.month()); bb(r.day()); bb(r.hour()); bb(r.min()); bb(r.sec()); bb(r.valid()); bb(r.valid_raw()); bb(r.nano()); bb(r.gps_fix()); bb(r.gps_fix_raw()); bb(r.flags()); bb(r.flags_raw()); bb(r.reserved1()); bb(r.longitude()); bb(r.longitude_raw()); bb(r.latitude()); bb(r.latitude_raw()); bb(r.height_above_ellipsoid()); bb(r.height_above_ellipsoid_raw()); bb(r.height_msl()); bb(r.height_msl_raw()); bb(r.ground_speed_2d()); bb(r.ground_speed_2d_raw()); bb(r.speed_3d()); bb(r.speed_3d_raw()); bb(r.heading_motion()); bb(r.heading_motion_raw()); bb(r.heading_vehicle()); bb(r.heading_vehicle_raw()); bb(r.h_acc()); bb(r.v_acc()); bb(r.s_acc()); bb(r.heading_accurracy()); bb(r.heading_accurracy_raw()); bb(r.reserved2()); }
        PacketRef::NavAtt(r) => { bb(r.itow()); bb(r.version()); bb(r.reserved1()); bb(r.vehicle_roll()); bb(r.vehicle_roll_raw()); bb(r.vehicle_pitch()); bb(r.vehicle_pitch_raw()); bb(r.vehicle_heading()); bb(r.vehicle_heading_raw()); bb(r.vehicle_roll_accuracy()); bb(r.vehicle_roll_accuracy_raw()); bb(r.vehicle_pitch_accuracy()); bb(r.vehicle_pitch_accuracy_raw()); bb(r.vehicle_heading_accuracy()); bb(r.vehicle_heading_accuracy_raw()); }
        PacketRef::NavClock(r) => { bb(r.itow()); bb(r.clk_b()); bb(r.clk_d()); bb(r.t_acc()); bb(r.f_acc()); }
        PacketRef::NavVelECEF(r) => { bb(r.itow()); bb(r.ecef_vx()); bb(r.ecef_vy()); bb(r.ecef_vz()); bb(r.s_acc()); }
        PacketRef::MgaGpsEPH(r) => { bb(r.msg_type()); bb(r.version()); bb(r.sv_id()); bb(r.reserved1()); bb(r.fit_interval()); bb(r.ura_index()); bb(r.sv_health()); bb(r.tgd()); bb(r.tgd_raw()); bb(r.iodc()); bb(r.toc()); bb(r.toc_raw()); bb(r.reserved2()); bb(r.af2()); bb(r.af2_raw()); bb(r.afl()); bb(r.afl_raw()); bb(r.af0()); bb(r.af0_raw()); bb(r.crs()); bb(r.crs_raw()); bb(r.delta_n()); bb(r.delta_n_raw()); bb(r.m0()); bb(r.m0_raw()); bb(r.cuc()); bb(r.cuc_raw()); bb(r.cus()); bb(r.cus_raw()); bb(r.e()); bb(r.e_raw()); bb(r.sqrt_a()); bb(r.sqrt_a_raw()); bb(r.toe()); bb(r.toe_raw()); bb(r.cic()); bb(r.cic_raw()); bb(r.omega0()); bb(r.omega0_raw()); bb(r.cis()); bb(r.cis_raw()); bb(r.crc()); bb(r.crc_raw()); bb(r.i0()); bb(r.i0_raw()); bb(r.omega()); bb(r.omega_raw()); bb(r.omega_dot()); bb(r.omega_dot_raw()); bb(r.idot()); bb(r.idot_raw()); bb(r.reserved3()); }
        PacketRef::RxmSfrbx(r) => { bb(r.gnss_id()); bb(r.sv_id()); bb(r.reserved1()); bb(r.freq_id()); bb(r.num_words()); bb(r.reserved2()); bb(r.version()); bb(r.reserved3()); for x in r.dwrd() { bb(format!("{:?}", x)); } }
        PacketRef::EsfRaw(r) => { bb(r.msss()); for x in r.data() { bb(format!("{:?}", x)); } }
        PacketRef::TimSvin(r) => { bb(r.dur()); bb(r.mean_x()); bb(r.mean_y()); bb(r.mean_z()); bb(r.mean_v()); bb(r.obs()); bb(r.valid()); bb(r.active()); bb(r.reserved()); }
        PacketRef::SecUniqId(r) => { bb(r.version()); bb(r.reserved1()); bb(r.unique_id()); }
        _ => {}
    }
}
/// the rules the payload of a message has to satisfy
pub fn wf(name: &str, s: &[u8]) -> bool {
    match name {
        "NavPosLlh" => s.len() == 28,
        "NavStatus" => s.len() == 16,
        "NavDop" => s.len() == 18,
        "NavPvt" => s.len() == 92,
        "NavSolution" => s.len() == 52,
        "NavVelNed" => s.len() == 36,
        "NavHpPosLlh" => s.len() == 36,
        "NavHpPosEcef" => s.len() == 28,
        "NavTimeUTC" => s.len() == 20,
        "NavTimeLs" => s.len() == 24,
        "NavSat" => wf_NavSat(s),
        "NavEoe" => s.len() == 4,
        "NavOdo" => s.len() == 20,
        "CfgOdo" => s.len() == 20 && [0, 1, 2, 3, 4].contains(&s[5]),
        "MgaAck" => s.len() == 8,
        "MgaGpsIono" => s.len() == 16,
        "MgaGpsEph" => s.len() == 68,
        "MgaGloEph" => s.len() == 48,
        "AlpSrv" => s.len() == 16,
        "AckAck" => s.len() == 2,
        "AckNak" => s.len() == 2,
        "CfgItfm" => s.len() == 8,
        "CfgPrtI2c" => s.len() == 20 && [0].contains(&s[0]),
        "CfgPrtSpi" => s.len() == 20 && [4].contains(&s[0]),
        "CfgPrtUart" => s.len() == 20 && [1, 2, 3].contains(&s[0]),
        "CfgNav5" => s.len() == 36 && [0, 2, 3, 4, 5, 6, 7, 8, 9, 10].contains(&s[2]) && [1, 2, 3].contains(&s[3]) && [0, 3, 6, 7].contains(&s[30]),
        "CfgAnt" => s.len() == 4,
        "CfgTmode2" => s.len() == 28 && [0, 1, 2].contains(&s[0]),
        "CfgTmode3" => s.len() == 40,
        "CfgTp5" => s.len() == 32 && [0, 1].contains(&s[0]),
        "InfError" => wf_Inf(s),
        "InfWarning" => wf_Inf(s),
        "InfNotice" => wf_Inf(s),
        "InfTest" => wf_Inf(s),
        "InfDebug" => wf_Inf(s),
        "RxmRawx" => wf_RxmRawx(s),
        "TimTp" => s.len() == 16,
        "TimTm2" => s.len() == 28,
        "MonVer" => wf_MonVer(s),
        "MonGnss" => s.len() == 8,
        "MonHw" => s.len() == 60,
        "RxmRtcm" => s.len() == 8,
        "EsfMeas" => wf_EsfMeas(s),
        "EsfIns" => s.len() == 36,
        "HnrAtt" => s.len() == 32,
        "HnrIns" => s.len() == 36,
        "HnrPvt" => s.len() == 72,
        "NavAtt" => s.len() == 32,
        "NavClock" => s.len() == 20,
        "NavVelECEF" => s.len() == 20,
        "MgaGpsEPH" => s.len() == 68,
        "RxmSfrbx" => wf_RxmSfrbx(s),
        "EsfRaw" => wf_EsfRaw(s),
        "TimSvin" => s.len() == 28,
        "SecUniqId" => s.len() == 9,
        _ => false,
    }
}
/// puts documented codes where the message demands them
pub fn fix(name: &str, s: &mut [u8], g: &mut Rng) {
    match name {
        "CfgOdo" => { s[5] = *g.pick(&[0u8, 1u8, 2u8, 3u8, 4u8]); }
        "CfgPrtI2c" => { s[0] = *g.pick(&[0u8]); }
        "CfgPrtSpi" => { s[0] = *g.pick(&[4u8]); }
        "CfgPrtUart" => { s[0] = *g.pick(&[1u8, 2u8, 3u8]); }
        "CfgNav5" => { s[2] = *g.pick(&[0u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8]); s[3] = *g.pick(&[1u8, 2u8, 3u8]); s[30] = *g.pick(&[0u8, 3u8, 6u8, 7u8]); }
        "CfgTmode2" => { s[0] = *g.pick(&[0u8, 1u8, 2u8]); }
        "CfgTp5" => { s[0] = *g.pick(&[0u8, 1u8]); }
        _ => {}
    }
}
/// offsets of enumerated and bit-mask fields: name, offset, width, whether undocumented codes are refused
pub const CODED: &[(&str, usize, usize, bool)] = &[
    ("NavStatus", 4, 1, false),
    ("NavStatus", 5, 1, false),
    ("NavStatus", 7, 1, false),
    ("NavPvt", 20, 1, false),
    ("NavPvt", 21, 1, false),
    ("NavPvt", 22, 1, false),
    ("NavSolution", 10, 1, false),
    ("NavSolution", 11, 1, false),
    ("NavHpPosEcef", 23, 1, false),
    ("NavTimeUTC", 19, 1, false),
    ("NavTimeLs", 23, 1, false),
    ("CfgOdo", 4, 1, false),
    ("CfgOdo", 5, 1, true),
    ("MgaAck", 2, 1, false),
    ("CfgPrtI2c", 0, 1, true),
    ("CfgPrtI2c", 12, 2, false),
    ("CfgPrtI2c", 14, 2, false),
    ("CfgPrtSpi", 0, 1, true),
    ("CfgPrtSpi", 12, 2, false),
    ("CfgPrtSpi", 14, 2, false),
    ("CfgPrtUart", 0, 1, true),
    ("CfgPrtUart", 12, 2, false),
    ("CfgPrtUart", 14, 2, false),
    ("CfgNav5", 0, 2, false),
    ("CfgNav5", 2, 1, true),
    ("CfgNav5", 3, 1, true),
    ("CfgNav5", 30, 1, true),
    ("CfgAnt", 0, 2, false),
    ("CfgTmode2", 0, 1, true),
    ("CfgTmode2", 2, 2, false),
    ("CfgTmode3", 2, 1, false),
    ("CfgTmode3", 3, 1, false),
    ("CfgTp5", 0, 1, true),
    ("CfgTp5", 28, 4, false),
    ("MonGnss", 1, 1, false),
    ("MonGnss", 2, 1, false),
    ("MonGnss", 3, 1, false),
    ("MonHw", 20, 1, false),
    ("MonHw", 21, 1, false),
    ("EsfIns", 0, 4, false),
    ("HnrIns", 0, 4, false),
    ("HnrPvt", 11, 1, false),
    ("HnrPvt", 16, 1, false),
    ("HnrPvt", 17, 1, false),
];
pub const WORDS: &[(&str, usize, usize)] = &[
    ("NavStatus", 6, 1),
    ("CfgItfm", 0, 4),
    ("CfgItfm", 4, 4),
    ("CfgPrtUart", 4, 4),
    ("TimTp", 14, 1),
    ("TimTp", 15, 1),
    ("TimTm2", 1, 1),
];
fn mk_NavResetOdo(v: &[u64]) -> (NavResetOdoBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    (NavResetOdoBuilder {  }, e)
}
fn mk_CfgOdo(v: &[u64]) -> (CfgOdoBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u8;
    e.push(Exp::int("CfgOdo.version", 0, 1, f0 as i128));
    let f1: [u8; 3] = bytes_of(v[1]);
    e.push(Exp::bytes("CfgOdo.reserved", 1, &f1));
    let f2 = OdoCogFilterFlags::from_bits_truncate(v[2] as _);
    e.push(Exp::int("CfgOdo.flags", 4, 1, (v[2] & 0xff) as i128));
    let (f3, c) = mk_OdoProfile(v[3]);
    e.push(Exp::int("CfgOdo.odo_cfg", 5, 1, c));
    let f4: [u8; 6] = bytes_of(v[4]);
    e.push(Exp::bytes("CfgOdo.reserved2", 6, &f4));
    let f5 = v[5] as u8;
    e.push(Exp::int("CfgOdo.cog_max_speed", 12, 1, f5 as i128));
    let f6 = v[6] as u8;
    e.push(Exp::int("CfgOdo.cog_max_pos_acc", 13, 1, f6 as i128));
    let f7: [u8; 2] = bytes_of(v[7]);
    e.push(Exp::bytes("CfgOdo.reserved3", 14, &f7));
    let f8 = v[8] as u8;
    e.push(Exp::int("CfgOdo.vel_lp_gain", 16, 1, f8 as i128));
    let f9 = v[9] as u8;
    e.push(Exp::int("CfgOdo.cog_lp_gain", 17, 1, f9 as i128));
    let f10: [u8; 2] = bytes_of(v[10]);
    e.push(Exp::bytes("CfgOdo.reserved4", 18, &f10));
    (CfgOdoBuilder { version: f0, reserved: f1, flags: f2, odo_cfg: f3, reserved2: f4, cog_max_speed: f5, cog_max_pos_acc: f6, reserved3: f7, vel_lp_gain: f8, cog_lp_gain: f9, reserved4: f10 }, e)
}
fn mk_CfgItfm(v: &[u64]) -> (CfgItfmBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_CfgItfmConfig(v[0]);
    e.push(Exp::int("CfgItfm.config", 0, 4, c));
    let (f1, c) = mk_CfgItfmConfig2(v[1]);
    e.push(Exp::int("CfgItfm.config2", 4, 4, c));
    (CfgItfmBuilder { config: f0, config2: f1 }, e)
}
fn mk_CfgInf(v: &[u64]) -> (CfgInfBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u8;
    e.push(Exp::int("CfgInf.protocol_id", 0, 1, f0 as i128));
    let f1: [u8; 3] = bytes_of(v[1]);
    e.push(Exp::bytes("CfgInf.reserved", 1, &f1));
    let f2 = CfgInfMask::from_bits_truncate(v[2] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_0", 4, 1, (v[2] & 0xff) as i128));
    let f3 = CfgInfMask::from_bits_truncate(v[3] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_1", 5, 1, (v[3] & 0xff) as i128));
    let f4 = CfgInfMask::from_bits_truncate(v[4] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_2", 6, 1, (v[4] & 0xff) as i128));
    let f5 = CfgInfMask::from_bits_truncate(v[5] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_3", 7, 1, (v[5] & 0xff) as i128));
    let f6 = CfgInfMask::from_bits_truncate(v[6] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_4", 8, 1, (v[6] & 0xff) as i128));
    let f7 = CfgInfMask::from_bits_truncate(v[7] as _);
    e.push(Exp::int("CfgInf.inf_msg_mask_5", 9, 1, (v[7] & 0xff) as i128));
    (CfgInfBuilder { protocol_id: f0, reserved: f1, inf_msg_mask_0: f2, inf_msg_mask_1: f3, inf_msg_mask_2: f4, inf_msg_mask_3: f5, inf_msg_mask_4: f6, inf_msg_mask_5: f7 }, e)
}
fn mk_AidIni(v: &[u64]) -> (AidIniBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as i32;
    e.push(Exp::int("AidIni.ecef_x_or_lat", 0, 4, f0 as i128));
    let f1 = v[1] as i32;
    e.push(Exp::int("AidIni.ecef_y_or_lon", 4, 4, f1 as i128));
    let f2 = v[2] as i32;
    e.push(Exp::int("AidIni.ecef_z_or_alt", 8, 4, f2 as i128));
    let f3 = v[3] as u32;
    e.push(Exp::int("AidIni.pos_accuracy", 12, 4, f3 as i128));
    let f4 = v[4] as u16;
    e.push(Exp::int("AidIni.time_cfg", 16, 2, f4 as i128));
    let f5 = v[5] as u16;
    e.push(Exp::int("AidIni.week_or_ym", 18, 2, f5 as i128));
    let f6 = v[6] as u32;
    e.push(Exp::int("AidIni.tow_or_hms", 20, 4, f6 as i128));
    let f7 = v[7] as i32;
    e.push(Exp::int("AidIni.tow_ns", 24, 4, f7 as i128));
    let f8 = v[8] as u32;
    e.push(Exp::int("AidIni.tm_accuracy_ms", 28, 4, f8 as i128));
    let f9 = v[9] as u32;
    e.push(Exp::int("AidIni.tm_accuracy_ns", 32, 4, f9 as i128));
    let f10 = v[10] as i32;
    e.push(Exp::int("AidIni.clk_drift_or_freq", 36, 4, f10 as i128));
    let f11 = v[11] as u32;
    e.push(Exp::int("AidIni.clk_drift_or_freq_accuracy", 40, 4, f11 as i128));
    let f12 = v[12] as u32;
    e.push(Exp::int("AidIni.flags", 44, 4, f12 as i128));
    (AidIniBuilder { ecef_x_or_lat: f0, ecef_y_or_lon: f1, ecef_z_or_alt: f2, pos_accuracy: f3, time_cfg: f4, week_or_ym: f5, tow_or_hms: f6, tow_ns: f7, tm_accuracy_ms: f8, tm_accuracy_ns: f9, clk_drift_or_freq: f10, clk_drift_or_freq_accuracy: f11, flags: f12 }, e)
}
fn mk_CfgRst(v: &[u64]) -> (CfgRstBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = NavBbrMask::from_bits_truncate(v[0] as _);
    e.push(Exp::int("CfgRst.nav_bbr_mask", 0, 2, (v[0] & 0xffff) as i128));
    let (f1, c) = mk_ResetMode(v[1]);
    e.push(Exp::int("CfgRst.reset_mode", 2, 1, c));
    let f2 = v[2] as u8;
    e.push(Exp::int("CfgRst.reserved1", 3, 1, f2 as i128));
    (CfgRstBuilder { nav_bbr_mask: f0, reset_mode: f1, reserved1: f2 }, e)
}
fn mk_CfgAnt(v: &[u64]) -> (CfgAntBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = AntFlags::from_bits_truncate(v[0] as _);
    e.push(Exp::int("CfgAnt.flags", 0, 2, (v[0] & 0xffff) as i128));
    let f1 = v[1] as u16;
    e.push(Exp::int("CfgAnt.pins", 2, 2, f1 as i128));
    (CfgAntBuilder { flags: f0, pins: f1 }, e)
}
fn mk_CfgTp5(v: &[u64]) -> (CfgTp5Builder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_CfgTp5TimePulseMode(v[0]);
    e.push(Exp::int("CfgTp5.tp_idx", 0, 1, c));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgTp5.version", 1, 1, f1 as i128));
    let f2: [u8; 2] = bytes_of(v[2]);
    e.push(Exp::bytes("CfgTp5.reserved1", 2, &f2));
    let f3 = fval_f32(v[3], 1.0f64, -32768, 32767);
    e.push(Exp::scaled("CfgTp5.ant_cable_delay", 4, 2, f3 as f64, 1.0f64, -32768, 32767, 2.4e-7));
    let f4 = fval_f32(v[4], 1.0f64, -32768, 32767);
    e.push(Exp::scaled("CfgTp5.rf_group_delay", 6, 2, f4 as f64, 1.0f64, -32768, 32767, 2.4e-7));
    let f5 = fval_f64(v[5], 1.0f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTp5.freq_period", 8, 4, f5 as f64, 1.0f64, 0, 4294967295, 1e-15));
    let f6 = fval_f64(v[6], 1.0f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTp5.freq_period_lock", 12, 4, f6 as f64, 1.0f64, 0, 4294967295, 1e-15));
    let f7 = fval_f64(v[7], 1.0f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTp5.pulse_len_ratio", 16, 4, f7 as f64, 1.0f64, 0, 4294967295, 1e-15));
    let f8 = fval_f64(v[8], 1.0f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTp5.pulse_len_ratio_lock", 20, 4, f8 as f64, 1.0f64, 0, 4294967295, 1e-15));
    let f9 = fval_f64(v[9], 1.0f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTp5.user_delay", 24, 4, f9 as f64, 1.0f64, -2147483648, 2147483647, 1e-15));
    let f10 = CfgTp5Flags::from_bits_truncate(v[10] as _);
    e.push(Exp::int("CfgTp5.flags", 28, 4, (v[10] & 0xffffffff) as i128));
    (CfgTp5Builder { tp_idx: f0, version: f1, reserved1: f2, ant_cable_delay: f3, rf_group_delay: f4, freq_period: f5, freq_period_lock: f6, pulse_len_ratio: f7, pulse_len_ratio_lock: f8, user_delay: f9, flags: f10 }, e)
}
fn mk_CfgTmode2(v: &[u64]) -> (CfgTmode2Builder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_CfgTmode2TimeXferModes(v[0]);
    e.push(Exp::int("CfgTmode2.time_transfer_mode", 0, 1, c));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgTmode2.reserved1", 1, 1, f1 as i128));
    let f2 = CfgTmode2Flags::from_bits_truncate(v[2] as _);
    e.push(Exp::int("CfgTmode2.flags", 2, 2, (v[2] & 0xffff) as i128));
    let f3 = fval_f64(v[3], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode2.ecef_x_or_lat", 4, 4, f3 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f4 = fval_f64(v[4], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode2.ecef_y_or_lon", 8, 4, f4 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f5 = fval_f64(v[5], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode2.ecef_z_or_alt", 12, 4, f5 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f6 = fval_f64(v[6], 1e-3f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTmode2.fixed_pos_acc", 16, 4, f6 as f64, 1e-3f64, 0, 4294967295, 1e-15));
    let f7 = v[7] as u32;
    e.push(Exp::int("CfgTmode2.survey_in_min_duration", 20, 4, f7 as i128));
    let f8 = fval_f64(v[8], 1e-3f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTmode2.survery_in_accur_limit", 24, 4, f8 as f64, 1e-3f64, 0, 4294967295, 1e-15));
    (CfgTmode2Builder { time_transfer_mode: f0, reserved1: f1, flags: f2, ecef_x_or_lat: f3, ecef_y_or_lon: f4, ecef_z_or_alt: f5, fixed_pos_acc: f6, survey_in_min_duration: f7, survery_in_accur_limit: f8 }, e)
}
fn mk_CfgTmode3(v: &[u64]) -> (CfgTmode3Builder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u8;
    e.push(Exp::int("CfgTmode3.version", 0, 1, f0 as i128));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgTmode3.reserved1", 1, 1, f1 as i128));
    let f2 = CfgTmode3RcvrMode::from_bits_truncate(v[2] as _);
    e.push(Exp::int("CfgTmode3.rcvr_mode", 2, 1, (v[2] & 0xff) as i128));
    let f3 = CfgTmode3Flags::from_bits_truncate(v[3] as _);
    e.push(Exp::int("CfgTmode3.flags", 3, 1, (v[3] & 0xff) as i128));
    let f4 = fval_f64(v[4], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode3.ecef_x_or_lat", 4, 4, f4 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f5 = fval_f64(v[5], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode3.ecef_y_or_lon", 8, 4, f5 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f6 = fval_f64(v[6], 1e-2f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgTmode3.ecef_z_or_alt", 12, 4, f6 as f64, 1e-2f64, -2147483648, 2147483647, 1e-15));
    let f7 = fval_f32(v[7], 1.0f64, -128, 127);
    e.push(Exp::scaled("CfgTmode3.ecef_x_or_lat_hp", 16, 1, f7 as f64, 1.0f64, -128, 127, 2.4e-7));
    let f8 = fval_f32(v[8], 1.0f64, -128, 127);
    e.push(Exp::scaled("CfgTmode3.ecef_y_or_lon_hp", 17, 1, f8 as f64, 1.0f64, -128, 127, 2.4e-7));
    let f9 = fval_f32(v[9], 1.0f64, -128, 127);
    e.push(Exp::scaled("CfgTmode3.ecef_z_or_alt_hp", 18, 1, f9 as f64, 1.0f64, -128, 127, 2.4e-7));
    let f10 = v[10] as u8;
    e.push(Exp::int("CfgTmode3.reserved2", 19, 1, f10 as i128));
    let f11 = fval_f64(v[11], 1e-4f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTmode3.fixed_pos_acc", 20, 4, f11 as f64, 1e-4f64, 0, 4294967295, 1e-15));
    let f12 = v[12] as u32;
    e.push(Exp::int("CfgTmode3.sv_in_min_duration", 24, 4, f12 as i128));
    let f13 = fval_f64(v[13], 1e-4f64, 0, 4294967295);
    e.push(Exp::scaled("CfgTmode3.sv_in_accur_limit", 28, 4, f13 as f64, 1e-4f64, 0, 4294967295, 1e-15));
    let f14: [u8; 8] = bytes_of(v[14]);
    e.push(Exp::bytes("CfgTmode3.reserved3", 32, &f14));
    (CfgTmode3Builder { version: f0, reserved1: f1, rcvr_mode: f2, flags: f3, ecef_x_or_lat: f4, ecef_y_or_lon: f5, ecef_z_or_alt: f6, ecef_x_or_lat_hp: f7, ecef_y_or_lon_hp: f8, ecef_z_or_alt_hp: f9, reserved2: f10, fixed_pos_acc: f11, sv_in_min_duration: f12, sv_in_accur_limit: f13, reserved3: f14 }, e)
}
fn mk_CfgPrtI2c(v: &[u64]) -> (CfgPrtI2cBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_I2cPortId(v[0]);
    e.push(Exp::int("CfgPrtI2c.portid", 0, 1, c));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgPrtI2c.reserved1", 1, 1, f1 as i128));
    let f2 = v[2] as u16;
    e.push(Exp::int("CfgPrtI2c.tx_ready", 2, 2, f2 as i128));
    let f3 = v[3] as u32;
    e.push(Exp::int("CfgPrtI2c.mode", 4, 4, f3 as i128));
    let f4 = v[4] as u32;
    e.push(Exp::int("CfgPrtI2c.reserved2", 8, 4, f4 as i128));
    let f5 = InProtoMask::from_bits_truncate(v[5] as _);
    e.push(Exp::int("CfgPrtI2c.in_proto_mask", 12, 2, (v[5] & 0xffff) as i128));
    let f6 = OutProtoMask::from_bits_truncate(v[6] as _);
    e.push(Exp::int("CfgPrtI2c.out_proto_mask", 14, 2, (v[6] & 0xffff) as i128));
    let f7 = v[7] as u16;
    e.push(Exp::int("CfgPrtI2c.flags", 16, 2, f7 as i128));
    let f8 = v[8] as u16;
    e.push(Exp::int("CfgPrtI2c.reserved3", 18, 2, f8 as i128));
    (CfgPrtI2cBuilder { portid: f0, reserved1: f1, tx_ready: f2, mode: f3, reserved2: f4, in_proto_mask: f5, out_proto_mask: f6, flags: f7, reserved3: f8 }, e)
}
fn mk_CfgPrtUart(v: &[u64]) -> (CfgPrtUartBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_UartPortId(v[0]);
    e.push(Exp::int("CfgPrtUart.portid", 0, 1, c));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgPrtUart.reserved0", 1, 1, f1 as i128));
    let f2 = v[2] as u16;
    e.push(Exp::int("CfgPrtUart.tx_ready", 2, 2, f2 as i128));
    let (f3, c) = mk_UartMode(v[3]);
    e.push(Exp::int("CfgPrtUart.mode", 4, 4, c));
    let f4 = v[4] as u32;
    e.push(Exp::int("CfgPrtUart.baud_rate", 8, 4, f4 as i128));
    let f5 = InProtoMask::from_bits_truncate(v[5] as _);
    e.push(Exp::int("CfgPrtUart.in_proto_mask", 12, 2, (v[5] & 0xffff) as i128));
    let f6 = OutProtoMask::from_bits_truncate(v[6] as _);
    e.push(Exp::int("CfgPrtUart.out_proto_mask", 14, 2, (v[6] & 0xffff) as i128));
    let f7 = v[7] as u16;
    e.push(Exp::int("CfgPrtUart.flags", 16, 2, f7 as i128));
    let f8 = v[8] as u16;
    e.push(Exp::int("CfgPrtUart.reserved5", 18, 2, f8 as i128));
    (CfgPrtUartBuilder { portid: f0, reserved0: f1, tx_ready: f2, mode: f3, baud_rate: f4, in_proto_mask: f5, out_proto_mask: f6, flags: f7, reserved5: f8 }, e)
}
fn mk_CfgPrtSpi(v: &[u64]) -> (CfgPrtSpiBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let (f0, c) = mk_SpiPortId(v[0]);
    e.push(Exp::int("CfgPrtSpi.portid", 0, 1, c));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgPrtSpi.reserved0", 1, 1, f1 as i128));
    let f2 = v[2] as u16;
    e.push(Exp::int("CfgPrtSpi.tx_ready", 2, 2, f2 as i128));
    let f3 = v[3] as u32;
    e.push(Exp::int("CfgPrtSpi.mode", 4, 4, f3 as i128));
    let f4 = v[4] as u32;
    e.push(Exp::int("CfgPrtSpi.reserved3", 8, 4, f4 as i128));
    let f5 = InProtoMask::from_bits_truncate(v[5] as _);
    e.push(Exp::int("CfgPrtSpi.in_proto_mask", 12, 2, (v[5] & 0xffff) as i128));
    let f6 = OutProtoMask::from_bits_truncate(v[6] as _);
    e.push(Exp::int("CfgPrtSpi.out_proto_mask", 14, 2, (v[6] & 0xffff) as i128));
    let f7 = v[7] as u16;
    e.push(Exp::int("CfgPrtSpi.flags", 16, 2, f7 as i128));
    let f8 = v[8] as u16;
    e.push(Exp::int("CfgPrtSpi.reserved5", 18, 2, f8 as i128));
    (CfgPrtSpiBuilder { portid: f0, reserved0: f1, tx_ready: f2, mode: f3, reserved3: f4, in_proto_mask: f5, out_proto_mask: f6, flags: f7, reserved5: f8 }, e)
}
fn mk_CfgRate(v: &[u64]) -> (CfgRateBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u16;
    e.push(Exp::int("CfgRate.measure_rate_ms", 0, 2, f0 as i128));
    let f1 = v[1] as u16;
    e.push(Exp::int("CfgRate.nav_rate", 2, 2, f1 as i128));
    let (f2, c) = mk_AlignmentToReferenceTime(v[2]);
    e.push(Exp::int("CfgRate.time_ref", 4, 2, c));
    (CfgRateBuilder { measure_rate_ms: f0, nav_rate: f1, time_ref: f2 }, e)
}
fn mk_CfgMsgSinglePort(v: &[u64]) -> (CfgMsgSinglePortBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u8;
    e.push(Exp::int("CfgMsgSinglePort.msg_class", 0, 1, f0 as i128));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgMsgSinglePort.msg_id", 1, 1, f1 as i128));
    let f2 = v[2] as u8;
    e.push(Exp::int("CfgMsgSinglePort.rate", 2, 1, f2 as i128));
    (CfgMsgSinglePortBuilder { msg_class: f0, msg_id: f1, rate: f2 }, e)
}
fn mk_CfgMsgAllPorts(v: &[u64]) -> (CfgMsgAllPortsBuilder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u8;
    e.push(Exp::int("CfgMsgAllPorts.msg_class", 0, 1, f0 as i128));
    let f1 = v[1] as u8;
    e.push(Exp::int("CfgMsgAllPorts.msg_id", 1, 1, f1 as i128));
    let f2: [u8; 6] = bytes_of(v[2]);
    e.push(Exp::bytes("CfgMsgAllPorts.rates", 2, &f2));
    (CfgMsgAllPortsBuilder { msg_class: f0, msg_id: f1, rates: f2 }, e)
}
fn mk_CfgNav5(v: &[u64]) -> (CfgNav5Builder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = CfgNav5Params::from_bits_truncate(v[0] as _);
    e.push(Exp::int("CfgNav5.mask", 0, 2, (v[0] & 0xffff) as i128));
    let (f1, c) = mk_CfgNav5DynModel(v[1]);
    e.push(Exp::int("CfgNav5.dyn_model", 2, 1, c));
    let (f2, c) = mk_CfgNav5FixMode(v[2]);
    e.push(Exp::int("CfgNav5.fix_mode", 3, 1, c));
    let f3 = fval_f64(v[3], 0.01f64, -2147483648, 2147483647);
    e.push(Exp::scaled("CfgNav5.fixed_alt", 4, 4, f3 as f64, 0.01f64, -2147483648, 2147483647, 1e-15));
    let f4 = fval_f64(v[4], 0.0001f64, 0, 4294967295);
    e.push(Exp::scaled("CfgNav5.fixed_alt_var", 8, 4, f4 as f64, 0.0001f64, 0, 4294967295, 1e-15));
    let f5 = v[5] as i8;
    e.push(Exp::int("CfgNav5.min_elev_degrees", 12, 1, f5 as i128));
    let f6 = v[6] as u8;
    e.push(Exp::int("CfgNav5.dr_limit", 13, 1, f6 as i128));
    let f7 = fval_f32(v[7], 0.1f64, 0, 65535);
    e.push(Exp::scaled("CfgNav5.pdop", 14, 2, f7 as f64, 0.1f64, 0, 65535, 2.4e-7));
    let f8 = fval_f32(v[8], 0.1f64, 0, 65535);
    e.push(Exp::scaled("CfgNav5.tdop", 16, 2, f8 as f64, 0.1f64, 0, 65535, 2.4e-7));
    let f9 = v[9] as u16;
    e.push(Exp::int("CfgNav5.pacc", 18, 2, f9 as i128));
    let f10 = v[10] as u16;
    e.push(Exp::int("CfgNav5.tacc", 20, 2, f10 as i128));
    let f11 = fval_f32(v[11], 0.01f64, 0, 255);
    e.push(Exp::scaled("CfgNav5.static_hold_thresh", 22, 1, f11 as f64, 0.01f64, 0, 255, 2.4e-7));
    let f12 = v[12] as u8;
    e.push(Exp::int("CfgNav5.dgps_time_out", 23, 1, f12 as i128));
    let f13 = v[13] as u8;
    e.push(Exp::int("CfgNav5.cno_thresh_num_svs", 24, 1, f13 as i128));
    let f14 = v[14] as u8;
    e.push(Exp::int("CfgNav5.cno_thresh", 25, 1, f14 as i128));
    let f15: [u8; 2] = bytes_of(v[15]);
    e.push(Exp::bytes("CfgNav5.reserved1", 26, &f15));
    let f16 = v[16] as u16;
    e.push(Exp::int("CfgNav5.static_hold_max_dist", 28, 2, f16 as i128));
    let (f17, c) = mk_CfgNav5UtcStandard(v[17]);
    e.push(Exp::int("CfgNav5.utc_standard", 30, 1, c));
    let f18: [u8; 5] = bytes_of(v[18]);
    e.push(Exp::bytes("CfgNav5.reserved2", 31, &f18));
    (CfgNav5Builder { mask: f0, dyn_model: f1, fix_mode: f2, fixed_alt: f3, fixed_alt_var: f4, min_elev_degrees: f5, dr_limit: f6, pdop: f7, tdop: f8, pacc: f9, tacc: f10, static_hold_thresh: f11, dgps_time_out: f12, cno_thresh_num_svs: f13, cno_thresh: f14, reserved1: f15, static_hold_max_dist: f16, utc_standard: f17, reserved2: f18 }, e)
}
fn mk_CfgNavX5(v: &[u64]) -> (CfgNavX5Builder, Vec<Exp>) {
    let mut e: Vec<Exp> = Vec::new();
    let f0 = v[0] as u16;
    e.push(Exp::int("CfgNavX5.version", 0, 2, f0 as i128));
    let f1 = CfgNavX5Params1::from_bits_truncate(v[1] as _);
    e.push(Exp::int("CfgNavX5.mask1", 2, 2, (v[1] & 0xffff) as i128));
    let f2 = CfgNavX5Params2::from_bits_truncate(v[2] as _);
    e.push(Exp::int("CfgNavX5.mask2", 4, 4, (v[2] & 0xffffffff) as i128));
    let f3: [u8; 2] = bytes_of(v[3]);
    e.push(Exp::bytes("CfgNavX5.reserved1", 8, &f3));
    let f4 = v[4] as u8;
    e.push(Exp::int("CfgNavX5.min_svs", 10, 1, f4 as i128));
    let f5 = v[5] as u8;
    e.push(Exp::int("CfgNavX5.max_svs", 11, 1, f5 as i128));
    let f6 = v[6] as u8;
    e.push(Exp::int("CfgNavX5.min_cno_dbhz", 12, 1, f6 as i128));
    let f7 = v[7] as u8;
    e.push(Exp::int("CfgNavX5.reserved2", 13, 1, f7 as i128));
    let f8 = v[8] as u8;
    e.push(Exp::int("CfgNavX5.ini_fix_3d", 14, 1, f8 as i128));
    let f9: [u8; 2] = bytes_of(v[9]);
    e.push(Exp::bytes("CfgNavX5.reserved3", 15, &f9));
    let f10 = v[10] as u8;
    e.push(Exp::int("CfgNavX5.ack_aiding", 17, 1, f10 as i128));
    let f11 = v[11] as u16;
    e.push(Exp::int("CfgNavX5.wkn_rollover", 18, 2, f11 as i128));
    let f12 = v[12] as u8;
    e.push(Exp::int("CfgNavX5.sig_atten_comp_mode", 20, 1, f12 as i128));
    let f13 = v[13] as u8;
    e.push(Exp::int("CfgNavX5.reserved4", 21, 1, f13 as i128));
    let f14: [u8; 2] = bytes_of(v[14]);
    e.push(Exp::bytes("CfgNavX5.reserved5", 22, &f14));
    let f15: [u8; 2] = bytes_of(v[15]);
    e.push(Exp::bytes("CfgNavX5.reserved6", 24, &f15));
    let f16 = v[16] as u8;
    e.push(Exp::int("CfgNavX5.use_ppp", 26, 1, f16 as i128));
    let f17 = v[17] as u8;
    e.push(Exp::int("CfgNavX5.aop_cfg", 27, 1, f17 as i128));
    let f18: [u8; 2] = bytes_of(v[18]);
    e.push(Exp::bytes("CfgNavX5.reserved7", 28, &f18));
    let f19 = v[19] as u16;
    e.push(Exp::int("CfgNavX5.aop_orb_max_err", 30, 2, f19 as i128));
    let f20: [u8; 4] = bytes_of(v[20]);
    e.push(Exp::bytes("CfgNavX5.reserved8", 32, &f20));
    let f21: [u8; 3] = bytes_of(v[21]);
    e.push(Exp::bytes("CfgNavX5.reserved9", 36, &f21));
    let f22 = v[22] as u8;
    e.push(Exp::int("CfgNavX5.use_adr", 39, 1, f22 as i128));
    (CfgNavX5Builder { version: f0, mask1: f1, mask2: f2, reserved1: f3, min_svs: f4, max_svs: f5, min_cno_dbhz: f6, reserved2: f7, ini_fix_3d: f8, reserved3: f9, ack_aiding: f10, wkn_rollover: f11, sig_atten_comp_mode: f12, reserved4: f13, reserved5: f14, reserved6: f15, use_ppp: f16, aop_cfg: f17, reserved7: f18, aop_orb_max_err: f19, reserved8: f20, reserved9: f21, use_adr: f22 }, e)
}
pub const BUILDERS: &[Builder] = &[
    Builder { name: "NavResetOdo", class: 0x1, id: 0x10, len: 0, fields: 0, recv: false, forms: |v, w| forms!(mk_NavResetOdo, 8, v, w) },
    Builder { name: "CfgOdo", class: 0x6, id: 0x1e, len: 20, fields: 11, recv: true, forms: |v, w| forms!(mk_CfgOdo, 28, v, w) },
    Builder { name: "CfgItfm", class: 0x6, id: 0x39, len: 8, fields: 2, recv: true, forms: |v, w| forms!(mk_CfgItfm, 16, v, w) },
    Builder { name: "CfgInf", class: 0x6, id: 0x2, len: 10, fields: 8, recv: false, forms: |v, w| forms!(mk_CfgInf, 18, v, w) },
    Builder { name: "AidIni", class: 0xb, id: 0x1, len: 48, fields: 13, recv: false, forms: |v, w| forms!(mk_AidIni, 56, v, w) },
    Builder { name: "CfgRst", class: 0x6, id: 0x4, len: 4, fields: 3, recv: false, forms: |v, w| forms!(mk_CfgRst, 12, v, w) },
    Builder { name: "CfgAnt", class: 0x6, id: 0x13, len: 4, fields: 2, recv: true, forms: |v, w| forms!(mk_CfgAnt, 12, v, w) },
    Builder { name: "CfgTp5", class: 0x6, id: 0x31, len: 32, fields: 11, recv: true, forms: |v, w| forms!(mk_CfgTp5, 40, v, w) },
    Builder { name: "CfgTmode2", class: 0x6, id: 0x3d, len: 28, fields: 9, recv: true, forms: |v, w| forms!(mk_CfgTmode2, 36, v, w) },
    Builder { name: "CfgTmode3", class: 0x6, id: 0x71, len: 40, fields: 15, recv: true, forms: |v, w| forms!(mk_CfgTmode3, 48, v, w) },
    Builder { name: "CfgPrtI2c", class: 0x6, id: 0x0, len: 20, fields: 9, recv: true, forms: |v, w| forms!(mk_CfgPrtI2c, 28, v, w) },
    Builder { name: "CfgPrtUart", class: 0x6, id: 0x0, len: 20, fields: 9, recv: true, forms: |v, w| forms!(mk_CfgPrtUart, 28, v, w) },
    Builder { name: "CfgPrtSpi", class: 0x6, id: 0x0, len: 20, fields: 9, recv: true, forms: |v, w| forms!(mk_CfgPrtSpi, 28, v, w) },
    Builder { name: "CfgRate", class: 0x6, id: 0x8, len: 6, fields: 3, recv: false, forms: |v, w| forms!(mk_CfgRate, 14, v, w) },
    Builder { name: "CfgMsgSinglePort", class: 0x6, id: 0x1, len: 3, fields: 3, recv: false, forms: |v, w| forms!(mk_CfgMsgSinglePort, 11, v, w) },
    Builder { name: "CfgMsgAllPorts", class: 0x6, id: 0x1, len: 8, fields: 3, recv: false, forms: |v, w| forms!(mk_CfgMsgAllPorts, 16, v, w) },
    Builder { name: "CfgNav5", class: 0x6, id: 0x24, len: 36, fields: 19, recv: true, forms: |v, w| forms!(mk_CfgNav5, 44, v, w) },
    Builder { name: "CfgNavX5", class: 0x6, id: 0x23, len: 40, fields: 23, recv: false, forms: |v, w| forms!(mk_CfgNavX5, 48, v, w) },
];
pub fn defaults() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("CfgOdo", CfgOdoBuilder::default().into_packet_bytes().to_vec()),
        ("CfgInf", CfgInfBuilder::default().into_packet_bytes().to_vec()),
        ("AidIni", AidIniBuilder::default().into_packet_bytes().to_vec()),
        ("CfgTp5", CfgTp5Builder::default().into_packet_bytes().to_vec()),
        ("CfgTmode2", CfgTmode2Builder::default().into_packet_bytes().to_vec()),
        ("CfgTmode3", CfgTmode3Builder::default().into_packet_bytes().to_vec()),
        ("CfgPrtI2c", CfgPrtI2cBuilder::default().into_packet_bytes().to_vec()),
        ("CfgPrtSpi", CfgPrtSpiBuilder::default().into_packet_bytes().to_vec()),
        ("CfgNav5", CfgNav5Builder::default().into_packet_bytes().to_vec()),
        ("CfgNavX5", CfgNavX5Builder::default().into_packet_bytes().to_vec()),
    ]
}
/// name, class, id and poll request of every message
pub fn requests() -> Vec<(&'static str, u8, u8, Vec<u8>)> {
    vec![
        ("NavPosLlh", 0x1, 0x2, UbxPacketRequest::request_for::<NavPosLlh>().into_packet_bytes().to_vec()),
        ("NavVelNed", 0x1, 0x12, UbxPacketRequest::request_for::<NavVelNed>().into_packet_bytes().to_vec()),
        ("NavHpPosLlh", 0x1, 0x14, UbxPacketRequest::request_for::<NavHpPosLlh>().into_packet_bytes().to_vec()),
        ("NavHpPosEcef", 0x1, 0x13, UbxPacketRequest::request_for::<NavHpPosEcef>().into_packet_bytes().to_vec()),
        ("NavPvt", 0x1, 0x7, UbxPacketRequest::request_for::<NavPvt>().into_packet_bytes().to_vec()),
        ("NavStatus", 0x1, 0x3, UbxPacketRequest::request_for::<NavStatus>().into_packet_bytes().to_vec()),
        ("NavDop", 0x1, 0x4, UbxPacketRequest::request_for::<NavDop>().into_packet_bytes().to_vec()),
        ("NavEoe", 0x1, 0x61, UbxPacketRequest::request_for::<NavEoe>().into_packet_bytes().to_vec()),
        ("NavSolution", 0x1, 0x6, UbxPacketRequest::request_for::<NavSolution>().into_packet_bytes().to_vec()),
        ("NavSatSvInfo", 0x1, 0x35, UbxPacketRequest::request_for::<NavSatSvInfo>().into_packet_bytes().to_vec()),
        ("NavSat", 0x1, 0x35, UbxPacketRequest::request_for::<NavSat>().into_packet_bytes().to_vec()),
        ("NavOdo", 0x1, 0x9, UbxPacketRequest::request_for::<NavOdo>().into_packet_bytes().to_vec()),
        ("NavResetOdo", 0x1, 0x10, UbxPacketRequest::request_for::<NavResetOdo>().into_packet_bytes().to_vec()),
        ("CfgOdo", 0x6, 0x1e, UbxPacketRequest::request_for::<CfgOdo>().into_packet_bytes().to_vec()),
        ("CfgItfm", 0x6, 0x39, UbxPacketRequest::request_for::<CfgItfm>().into_packet_bytes().to_vec()),
        ("CfgInf", 0x6, 0x2, UbxPacketRequest::request_for::<CfgInf>().into_packet_bytes().to_vec()),
        ("InfError", 0x4, 0x0, UbxPacketRequest::request_for::<InfError>().into_packet_bytes().to_vec()),
        ("InfNotice", 0x4, 0x2, UbxPacketRequest::request_for::<InfNotice>().into_packet_bytes().to_vec()),
        ("InfTest", 0x4, 0x3, UbxPacketRequest::request_for::<InfTest>().into_packet_bytes().to_vec()),
        ("InfWarning", 0x4, 0x1, UbxPacketRequest::request_for::<InfWarning>().into_packet_bytes().to_vec()),
        ("InfDebug", 0x4, 0x4, UbxPacketRequest::request_for::<InfDebug>().into_packet_bytes().to_vec()),
        ("AidIni", 0xb, 0x1, UbxPacketRequest::request_for::<AidIni>().into_packet_bytes().to_vec()),
        ("AlpSrv", 0xb, 0x32, UbxPacketRequest::request_for::<AlpSrv>().into_packet_bytes().to_vec()),
        ("AckAck", 0x5, 0x1, UbxPacketRequest::request_for::<AckAck>().into_packet_bytes().to_vec()),
        ("AckNak", 0x5, 0x0, UbxPacketRequest::request_for::<AckNak>().into_packet_bytes().to_vec()),
        ("CfgRst", 0x6, 0x4, UbxPacketRequest::request_for::<CfgRst>().into_packet_bytes().to_vec()),
        ("CfgAnt", 0x6, 0x13, UbxPacketRequest::request_for::<CfgAnt>().into_packet_bytes().to_vec()),
        ("CfgTp5", 0x6, 0x31, UbxPacketRequest::request_for::<CfgTp5>().into_packet_bytes().to_vec()),
        ("CfgTmode2", 0x6, 0x3d, UbxPacketRequest::request_for::<CfgTmode2>().into_packet_bytes().to_vec()),
        ("TimSvin", 0xd, 0x4, UbxPacketRequest::request_for::<TimSvin>().into_packet_bytes().to_vec()),
        ("NavTimeLs", 0x1, 0x26, UbxPacketRequest::request_for::<NavTimeLs>().into_packet_bytes().to_vec()),
        ("CfgTmode3", 0x6, 0x71, UbxPacketRequest::request_for::<CfgTmode3>().into_packet_bytes().to_vec()),
        ("CfgValSet", 0x6, 0x8a, UbxPacketRequest::request_for::<CfgValSet>().into_packet_bytes().to_vec()),
        ("CfgPrtI2c", 0x6, 0x0, UbxPacketRequest::request_for::<CfgPrtI2c>().into_packet_bytes().to_vec()),
        ("CfgPrtUart", 0x6, 0x0, UbxPacketRequest::request_for::<CfgPrtUart>().into_packet_bytes().to_vec()),
        ("CfgPrtSpi", 0x6, 0x0, UbxPacketRequest::request_for::<CfgPrtSpi>().into_packet_bytes().to_vec()),
        ("NavTimeUTC", 0x1, 0x21, UbxPacketRequest::request_for::<NavTimeUTC>().into_packet_bytes().to_vec()),
        ("CfgRate", 0x6, 0x8, UbxPacketRequest::request_for::<CfgRate>().into_packet_bytes().to_vec()),
        ("CfgMsgSinglePort", 0x6, 0x1, UbxPacketRequest::request_for::<CfgMsgSinglePort>().into_packet_bytes().to_vec()),
        ("CfgMsgAllPorts", 0x6, 0x1, UbxPacketRequest::request_for::<CfgMsgAllPorts>().into_packet_bytes().to_vec()),
        ("CfgNav5", 0x6, 0x24, UbxPacketRequest::request_for::<CfgNav5>().into_packet_bytes().to_vec()),
        ("CfgNavX5", 0x6, 0x23, UbxPacketRequest::request_for::<CfgNavX5>().into_packet_bytes().to_vec()),
        ("MgaAck", 0x13, 0x60, UbxPacketRequest::request_for::<MgaAck>().into_packet_bytes().to_vec()),
        ("MgaGloEph", 0x13, 0x6, UbxPacketRequest::request_for::<MgaGloEph>().into_packet_bytes().to_vec()),
        ("MgaGpsIono", 0x13, 0x0, UbxPacketRequest::request_for::<MgaGpsIono>().into_packet_bytes().to_vec()),
        ("MgaGpsEph", 0x13, 0x0, UbxPacketRequest::request_for::<MgaGpsEph>().into_packet_bytes().to_vec()),
        ("TimTp", 0xd, 0x1, UbxPacketRequest::request_for::<TimTp>().into_packet_bytes().to_vec()),
        ("TimTm2", 0xd, 0x3, UbxPacketRequest::request_for::<TimTm2>().into_packet_bytes().to_vec()),
        ("RxmRawx", 0x2, 0x15, UbxPacketRequest::request_for::<RxmRawx>().into_packet_bytes().to_vec()),
        ("MonHw", 0xa, 0x9, UbxPacketRequest::request_for::<MonHw>().into_packet_bytes().to_vec()),
        ("MonGnss", 0xa, 0x28, UbxPacketRequest::request_for::<MonGnss>().into_packet_bytes().to_vec()),
        ("MonVer", 0xa, 0x4, UbxPacketRequest::request_for::<MonVer>().into_packet_bytes().to_vec()),
        ("RxmRtcm", 0x2, 0x32, UbxPacketRequest::request_for::<RxmRtcm>().into_packet_bytes().to_vec()),
        ("EsfMeas", 0x10, 0x2, UbxPacketRequest::request_for::<EsfMeas>().into_packet_bytes().to_vec()),
        ("EsfRaw", 0x10, 0x3, UbxPacketRequest::request_for::<EsfRaw>().into_packet_bytes().to_vec()),
        ("EsfIns", 0x10, 0x15, UbxPacketRequest::request_for::<EsfIns>().into_packet_bytes().to_vec()),
        ("HnrAtt", 0x28, 0x1, UbxPacketRequest::request_for::<HnrAtt>().into_packet_bytes().to_vec()),
        ("HnrIns", 0x28, 0x2, UbxPacketRequest::request_for::<HnrIns>().into_packet_bytes().to_vec()),
        ("HnrPvt", 0x28, 0x0, UbxPacketRequest::request_for::<HnrPvt>().into_packet_bytes().to_vec()),
        ("NavAtt", 0x1, 0x5, UbxPacketRequest::request_for::<NavAtt>().into_packet_bytes().to_vec()),
        ("NavClock", 0x1, 0x22, UbxPacketRequest::request_for::<NavClock>().into_packet_bytes().to_vec()),
        ("RxmSfrbx", 0x2, 0x13, UbxPacketRequest::request_for::<RxmSfrbx>().into_packet_bytes().to_vec()),
        ("NavVelECEF", 0x1, 0x11, UbxPacketRequest::request_for::<NavVelECEF>().into_packet_bytes().to_vec()),
        ("MgaGpsEPH", 0x13, 0x0, UbxPacketRequest::request_for::<MgaGpsEPH>().into_packet_bytes().to_vec()),
        ("RxmRawxInfo", 0x2, 0x15, UbxPacketRequest::request_for::<RxmRawxInfo>().into_packet_bytes().to_vec()),
        ("SecUniqId", 0x27, 0x3, UbxPacketRequest::request_for::<SecUniqId>().into_packet_bytes().to_vec()),
    ]
}
/// acknowledgement tests for every message
pub fn acks(a: &AckAckRef<'_>) -> Vec<(&'static str, bool)> {
    vec![
        ("NavPosLlh", a.is_ack_for::<NavPosLlh>()),
        ("NavVelNed", a.is_ack_for::<NavVelNed>()),
        ("NavHpPosLlh", a.is_ack_for::<NavHpPosLlh>()),
        ("NavHpPosEcef", a.is_ack_for::<NavHpPosEcef>()),
        ("NavPvt", a.is_ack_for::<NavPvt>()),
        ("NavStatus", a.is_ack_for::<NavStatus>()),
        ("NavDop", a.is_ack_for::<NavDop>()),
        ("NavEoe", a.is_ack_for::<NavEoe>()),
        ("NavSolution", a.is_ack_for::<NavSolution>()),
        ("NavSatSvInfo", a.is_ack_for::<NavSatSvInfo>()),
        ("NavSat", a.is_ack_for::<NavSat>()),
        ("NavOdo", a.is_ack_for::<NavOdo>()),
        ("NavResetOdo", a.is_ack_for::<NavResetOdo>()),
        ("CfgOdo", a.is_ack_for::<CfgOdo>()),
        ("CfgItfm", a.is_ack_for::<CfgItfm>()),
        ("CfgInf", a.is_ack_for::<CfgInf>()),
        ("InfError", a.is_ack_for::<InfError>()),
        ("InfNotice", a.is_ack_for::<InfNotice>()),
        ("InfTest", a.is_ack_for::<InfTest>()),
        ("InfWarning", a.is_ack_for::<InfWarning>()),
        ("InfDebug", a.is_ack_for::<InfDebug>()),
        ("AidIni", a.is_ack_for::<AidIni>()),
        ("AlpSrv", a.is_ack_for::<AlpSrv>()),
        ("AckAck", a.is_ack_for::<AckAck>()),
        ("AckNak", a.is_ack_for::<AckNak>()),
        ("CfgRst", a.is_ack_for::<CfgRst>()),
        ("CfgAnt", a.is_ack_for::<CfgAnt>()),
        ("CfgTp5", a.is_ack_for::<CfgTp5>()),
        ("CfgTmode2", a.is_ack_for::<CfgTmode2>()),
        ("TimSvin", a.is_ack_for::<TimSvin>()),
        ("NavTimeLs", a.is_ack_for::<NavTimeLs>()),
        ("CfgTmode3", a.is_ack_for::<CfgTmode3>()),
        ("CfgValSet", a.is_ack_for::<CfgValSet>()),
        ("CfgPrtI2c", a.is_ack_for::<CfgPrtI2c>()),
        ("CfgPrtUart", a.is_ack_for::<CfgPrtUart>()),
        ("CfgPrtSpi", a.is_ack_for::<CfgPrtSpi>()),
        ("NavTimeUTC", a.is_ack_for::<NavTimeUTC>()),
        ("CfgRate", a.is_ack_for::<CfgRate>()),
        ("CfgMsgSinglePort", a.is_ack_for::<CfgMsgSinglePort>()),
        ("CfgMsgAllPorts", a.is_ack_for::<CfgMsgAllPorts>()),
        ("CfgNav5", a.is_ack_for::<CfgNav5>()),
        ("CfgNavX5", a.is_ack_for::<CfgNavX5>()),
        ("MgaAck", a.is_ack_for::<MgaAck>()),
        ("MgaGloEph", a.is_ack_for::<MgaGloEph>()),
        ("MgaGpsIono", a.is_ack_for::<MgaGpsIono>()),
        ("MgaGpsEph", a.is_ack_for::<MgaGpsEph>()),
        ("TimTp", a.is_ack_for::<TimTp>()),
        ("TimTm2", a.is_ack_for::<TimTm2>()),
        ("RxmRawx", a.is_ack_for::<RxmRawx>()),
        ("MonHw", a.is_ack_for::<MonHw>()),
        ("MonGnss", a.is_ack_for::<MonGnss>()),
        ("MonVer", a.is_ack_for::<MonVer>()),
        ("RxmRtcm", a.is_ack_for::<RxmRtcm>()),
        ("EsfMeas", a.is_ack_for::<EsfMeas>()),
        ("EsfRaw", a.is_ack_for::<EsfRaw>()),
        ("EsfIns", a.is_ack_for::<EsfIns>()),
        ("HnrAtt", a.is_ack_for::<HnrAtt>()),
        ("HnrIns", a.is_ack_for::<HnrIns>()),
        ("HnrPvt", a.is_ack_for::<HnrPvt>()),
        ("NavAtt", a.is_ack_for::<NavAtt>()),
        ("NavClock", a.is_ack_for::<NavClock>()),
        ("RxmSfrbx", a.is_ack_for::<RxmSfrbx>()),
        ("NavVelECEF", a.is_ack_for::<NavVelECEF>()),
        ("MgaGpsEPH", a.is_ack_for::<MgaGpsEPH>()),
        ("RxmRawxInfo", a.is_ack_for::<RxmRawxInfo>()),
        ("SecUniqId", a.is_ack_for::<SecUniqId>()),
    ]
}
pub fn naks(a: &AckNakRef<'_>) -> Vec<(&'static str, bool)> {
    vec![
        ("NavPosLlh", a.is_nak_for::<NavPosLlh>()),
        ("NavVelNed", a.is_nak_for::<NavVelNed>()),
        ("NavHpPosLlh", a.is_nak_for::<NavHpPosLlh>()),
        ("NavHpPosEcef", a.is_nak_for::<NavHpPosEcef>()),
        ("NavPvt", a.is_nak_for::<NavPvt>()),
        ("NavStatus", a.is_nak_for::<NavStatus>()),
        ("NavDop", a.is_nak_for::<NavDop>()),
        ("NavEoe", a.is_nak_for::<NavEoe>()),
        ("NavSolution", a.is_nak_for::<NavSolution>()),
        ("NavSatSvInfo", a.is_nak_for::<NavSatSvInfo>()),
        ("NavSat", a.is_nak_for::<NavSat>()),
        ("NavOdo", a.is_nak_for::<NavOdo>()),
        ("NavResetOdo", a.is_nak_for::<NavResetOdo>()),
        ("CfgOdo", a.is_nak_for::<CfgOdo>()),
        ("CfgItfm", a.is_nak_for::<CfgItfm>()),
        ("CfgInf", a.is_nak_for::<CfgInf>()),
        ("InfError", a.is_nak_for::<InfError>()),
        ("InfNotice", a.is_nak_for::<InfNotice>()),
        ("InfTest", a.is_nak_for::<InfTest>()),
        ("InfWarning", a.is_nak_for::<InfWarning>()),
        ("InfDebug", a.is_nak_for::<InfDebug>()),
        ("AidIni", a.is_nak_for::<AidIni>()),
        ("AlpSrv", a.is_nak_for::<AlpSrv>()),
        ("AckAck", a.is_nak_for::<AckAck>()),
        ("AckNak", a.is_nak_for::<AckNak>()),
        ("CfgRst", a.is_nak_for::<CfgRst>()),
        ("CfgAnt", a.is_nak_for::<CfgAnt>()),
        ("CfgTp5", a.is_nak_for::<CfgTp5>()),
        ("CfgTmode2", a.is_nak_for::<CfgTmode2>()),
        ("TimSvin", a.is_nak_for::<TimSvin>()),
        ("NavTimeLs", a.is_nak_for::<NavTimeLs>()),
        ("CfgTmode3", a.is_nak_for::<CfgTmode3>()),
        ("CfgValSet", a.is_nak_for::<CfgValSet>()),
        ("CfgPrtI2c", a.is_nak_for::<CfgPrtI2c>()),
        ("CfgPrtUart", a.is_nak_for::<CfgPrtUart>()),
        ("CfgPrtSpi", a.is_nak_for::<CfgPrtSpi>()),
        ("NavTimeUTC", a.is_nak_for::<NavTimeUTC>()),
        ("CfgRate", a.is_nak_for::<CfgRate>()),
        ("CfgMsgSinglePort", a.is_nak_for::<CfgMsgSinglePort>()),
        ("CfgMsgAllPorts", a.is_nak_for::<CfgMsgAllPorts>()),
        ("CfgNav5", a.is_nak_for::<CfgNav5>()),
        ("CfgNavX5", a.is_nak_for::<CfgNavX5>()),
        ("MgaAck", a.is_nak_for::<MgaAck>()),
        ("MgaGloEph", a.is_nak_for::<MgaGloEph>()),
        ("MgaGpsIono", a.is_nak_for::<MgaGpsIono>()),
        ("MgaGpsEph", a.is_nak_for::<MgaGpsEph>()),
        ("TimTp", a.is_nak_for::<TimTp>()),
        ("TimTm2", a.is_nak_for::<TimTm2>()),
        ("RxmRawx", a.is_nak_for::<RxmRawx>()),
        ("MonHw", a.is_nak_for::<MonHw>()),
        ("MonGnss", a.is_nak_for::<MonGnss>()),
        ("MonVer", a.is_nak_for::<MonVer>()),
        ("RxmRtcm", a.is_nak_for::<RxmRtcm>()),
        ("EsfMeas", a.is_nak_for::<EsfMeas>()),
        ("EsfRaw", a.is_nak_for::<EsfRaw>()),
        ("EsfIns", a.is_nak_for::<EsfIns>()),
        ("HnrAtt", a.is_nak_for::<HnrAtt>()),
        ("HnrIns", a.is_nak_for::<HnrIns>()),
        ("HnrPvt", a.is_nak_for::<HnrPvt>()),
        ("NavAtt", a.is_nak_for::<NavAtt>()),
        ("NavClock", a.is_nak_for::<NavClock>()),
        ("RxmSfrbx", a.is_nak_for::<RxmSfrbx>()),
        ("NavVelECEF", a.is_nak_for::<NavVelECEF>()),
        ("MgaGpsEPH", a.is_nak_for::<MgaGpsEPH>()),
        ("RxmRawxInfo", a.is_nak_for::<RxmRawxInfo>()),
        ("SecUniqId", a.is_nak_for::<SecUniqId>()),
    ]
}
pub fn rates(r: u8, rs: [u8; 6]) -> Vec<(&'static str, u8, u8, Vec<u8>, Vec<u8>)> {
    vec![
        ("NavPosLlh", 0x1, 0x2, CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(rs).into_packet_bytes().to_vec()),
        ("NavVelNed", 0x1, 0x12, CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(rs).into_packet_bytes().to_vec()),
        ("NavHpPosLlh", 0x1, 0x14, CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(rs).into_packet_bytes().to_vec()),
        ("NavHpPosEcef", 0x1, 0x13, CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(rs).into_packet_bytes().to_vec()),
        ("NavPvt", 0x1, 0x7, CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(rs).into_packet_bytes().to_vec()),
        ("NavStatus", 0x1, 0x3, CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(rs).into_packet_bytes().to_vec()),
        ("NavDop", 0x1, 0x4, CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(rs).into_packet_bytes().to_vec()),
        ("NavEoe", 0x1, 0x61, CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(rs).into_packet_bytes().to_vec()),
        ("NavSolution", 0x1, 0x6, CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(rs).into_packet_bytes().to_vec()),
        ("NavSatSvInfo", 0x1, 0x35, CfgMsgSinglePortBuilder::set_rate_for::<NavSatSvInfo>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavSatSvInfo>(rs).into_packet_bytes().to_vec()),
        ("NavSat", 0x1, 0x35, CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(rs).into_packet_bytes().to_vec()),
        ("NavOdo", 0x1, 0x9, CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(rs).into_packet_bytes().to_vec()),
        ("NavResetOdo", 0x1, 0x10, CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(rs).into_packet_bytes().to_vec()),
        ("CfgOdo", 0x6, 0x1e, CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(rs).into_packet_bytes().to_vec()),
        ("CfgItfm", 0x6, 0x39, CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(rs).into_packet_bytes().to_vec()),
        ("CfgInf", 0x6, 0x2, CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(rs).into_packet_bytes().to_vec()),
        ("InfError", 0x4, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<InfError>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<InfError>(rs).into_packet_bytes().to_vec()),
        ("InfNotice", 0x4, 0x2, CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(rs).into_packet_bytes().to_vec()),
        ("InfTest", 0x4, 0x3, CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(rs).into_packet_bytes().to_vec()),
        ("InfWarning", 0x4, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(rs).into_packet_bytes().to_vec()),
        ("InfDebug", 0x4, 0x4, CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(rs).into_packet_bytes().to_vec()),
        ("AidIni", 0xb, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(rs).into_packet_bytes().to_vec()),
        ("AlpSrv", 0xb, 0x32, CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(rs).into_packet_bytes().to_vec()),
        ("AckAck", 0x5, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(rs).into_packet_bytes().to_vec()),
        ("AckNak", 0x5, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(rs).into_packet_bytes().to_vec()),
        ("CfgRst", 0x6, 0x4, CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(rs).into_packet_bytes().to_vec()),
        ("CfgAnt", 0x6, 0x13, CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(rs).into_packet_bytes().to_vec()),
        ("CfgTp5", 0x6, 0x31, CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(rs).into_packet_bytes().to_vec()),
        ("CfgTmode2", 0x6, 0x3d, CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(rs).into_packet_bytes().to_vec()),
        ("TimSvin", 0xd, 0x4, CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(rs).into_packet_bytes().to_vec()),
        ("NavTimeLs", 0x1, 0x26, CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(rs).into_packet_bytes().to_vec()),
        ("CfgTmode3", 0x6, 0x71, CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(rs).into_packet_bytes().to_vec()),
        ("CfgValSet", 0x6, 0x8a, CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(rs).into_packet_bytes().to_vec()),
        ("CfgPrtI2c", 0x6, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(rs).into_packet_bytes().to_vec()),
        ("CfgPrtUart", 0x6, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(rs).into_packet_bytes().to_vec()),
        ("CfgPrtSpi", 0x6, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(rs).into_packet_bytes().to_vec()),
        ("NavTimeUTC", 0x1, 0x21, CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(rs).into_packet_bytes().to_vec()),
        ("CfgRate", 0x6, 0x8, CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(rs).into_packet_bytes().to_vec()),
        ("CfgMsgSinglePort", 0x6, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(rs).into_packet_bytes().to_vec()),
        ("CfgMsgAllPorts", 0x6, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(rs).into_packet_bytes().to_vec()),
        ("CfgNav5", 0x6, 0x24, CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(rs).into_packet_bytes().to_vec()),
        ("CfgNavX5", 0x6, 0x23, CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(rs).into_packet_bytes().to_vec()),
        ("MgaAck", 0x13, 0x60, CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(rs).into_packet_bytes().to_vec()),
        ("MgaGloEph", 0x13, 0x6, CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(rs).into_packet_bytes().to_vec()),
        ("MgaGpsIono", 0x13, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(rs).into_packet_bytes().to_vec()),
        ("MgaGpsEph", 0x13, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(rs).into_packet_bytes().to_vec()),
        ("TimTp", 0xd, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(rs).into_packet_bytes().to_vec()),
        ("TimTm2", 0xd, 0x3, CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(rs).into_packet_bytes().to_vec()),
        ("RxmRawx", 0x2, 0x15, CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(rs).into_packet_bytes().to_vec()),
        ("MonHw", 0xa, 0x9, CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(rs).into_packet_bytes().to_vec()),
        ("MonGnss", 0xa, 0x28, CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(rs).into_packet_bytes().to_vec()),
        ("MonVer", 0xa, 0x4, CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(rs).into_packet_bytes().to_vec()),
        ("RxmRtcm", 0x2, 0x32, CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(rs).into_packet_bytes().to_vec()),
        ("EsfMeas", 0x10, 0x2, CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(rs).into_packet_bytes().to_vec()),
        ("EsfRaw", 0x10, 0x3, CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(rs).into_packet_bytes().to_vec()),
        ("EsfIns", 0x10, 0x15, CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(rs).into_packet_bytes().to_vec()),
        ("HnrAtt", 0x28, 0x1, CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(rs).into_packet_bytes().to_vec()),
        ("HnrIns", 0x28, 0x2, CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(rs).into_packet_bytes().to_vec()),
        ("HnrPvt", 0x28, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(rs).into_packet_bytes().to_vec()),
        ("NavAtt", 0x1, 0x5, CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(rs).into_packet_bytes().to_vec()),
        ("NavClock", 0x1, 0x22, CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(rs).into_packet_bytes().to_vec()),
        ("RxmSfrbx", 0x2, 0x13, CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(rs).into_packet_bytes().to_vec()),
        ("NavVelECEF", 0x1, 0x11, CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(rs).into_packet_bytes().to_vec()),
        ("MgaGpsEPH", 0x13, 0x0, CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(rs).into_packet_bytes().to_vec()),
        ("RxmRawxInfo", 0x2, 0x15, CfgMsgSinglePortBuilder::set_rate_for::<RxmRawxInfo>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<RxmRawxInfo>(rs).into_packet_bytes().to_vec()),
        ("SecUniqId", 0x27, 0x3, CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(r).into_packet_bytes().to_vec(), CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(rs).into_packet_bytes().to_vec()),
    ]
}
