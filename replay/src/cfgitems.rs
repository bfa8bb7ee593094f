//! Generated by tools/genrcfg.py from spec/cfg.json; do not edit.
#![allow(clippy::all)]
use ublox::cfg_val::*;
use ublox::*;
#[allow(non_snake_case)]
fn mk_DataBits(x: u64) -> (DataBits, u64) {
    match x % 2 {
        0 => (DataBits::Eight, 0),
        _ => (DataBits::Seven, 1),
    }
}
#[allow(non_snake_case)]
fn mk_Parity(x: u64) -> (Parity, u64) {
    match x % 3 {
        0 => (Parity::None, 0),
        1 => (Parity::Odd, 1),
        _ => (Parity::Even, 2),
    }
}
#[allow(non_snake_case)]
fn mk_StopBits(x: u64) -> (StopBits, u64) {
    match x % 4 {
        0 => (StopBits::Half, 0),
        1 => (StopBits::One, 1),
        2 => (StopBits::OneHalf, 2),
        _ => (StopBits::Two, 3),
    }
}
#[allow(non_snake_case)]
fn mk_AlignmentToReferenceTime(x: u64) -> (AlignmentToReferenceTime, u64) {
    match x % 5 {
        0 => (AlignmentToReferenceTime::Utc, 0),
        1 => (AlignmentToReferenceTime::Gps, 1),
        2 => (AlignmentToReferenceTime::Glo, 2),
        3 => (AlignmentToReferenceTime::Bds, 3),
        _ => (AlignmentToReferenceTime::Gal, 4),
    }
}
#[allow(non_snake_case)]
fn mk_TpPulse(x: u64) -> (TpPulse, u64) {
    match x % 2 {
        0 => (TpPulse::Period, 0),
        _ => (TpPulse::Freq, 1),
    }
}
#[allow(non_snake_case)]
fn mk_TpPulseLength(x: u64) -> (TpPulseLength, u64) {
    match x % 2 {
        0 => (TpPulseLength::Ratio, 0),
        _ => (TpPulseLength::Length, 1),
    }
}
#[allow(non_snake_case)]
fn mk_CfgInfMask(x: u64) -> (CfgInfMask, u64) {
    let mut m = CfgInfMask::empty();
    let mut r = 0;
    if x & 1 != 0 { m |= CfgInfMask::ERROR; r |= 1; }
    if x & 2 != 0 { m |= CfgInfMask::WARNING; r |= 2; }
    if x & 4 != 0 { m |= CfgInfMask::NOTICE; r |= 4; }
    if x & 8 != 0 { m |= CfgInfMask::TEST; r |= 8; }
    if x & 16 != 0 { m |= CfgInfMask::DEBUG; r |= 16; }
    (m, r)
}
pub const N: usize = 434;
/// item number `i` with a value made from `x`; its bytes
pub fn item(i: usize, x: u64) -> (CfgVal, Vec<u8>) {
    match i {
        0 => (CfgVal::Uart1Baudrate(x as u32), enc(0x40520001, x, 4)),
        1 => (CfgVal::Uart1StopBits(mk_StopBits(x).0), enc(0x20520002, mk_StopBits(x).1, 1)),
        2 => (CfgVal::Uart1DataBits(mk_DataBits(x).0), enc(0x20520003, mk_DataBits(x).1, 1)),
        3 => (CfgVal::Uart1Parity(mk_Parity(x).0), enc(0x20520004, mk_Parity(x).1, 1)),
        4 => (CfgVal::Uart1Enabled(x % 2 == 1), enc(0x10520005, x % 2, 1)),
        5 => (CfgVal::Uart1InProtUbx(x % 2 == 1), enc(0x10730001, x % 2, 1)),
        6 => (CfgVal::Uart1InProtNmea(x % 2 == 1), enc(0x10730002, x % 2, 1)),
        7 => (CfgVal::Uart1InProtRtcm3x(x % 2 == 1), enc(0x10730004, x % 2, 1)),
        8 => (CfgVal::Uart1OutProtUbx(x % 2 == 1), enc(0x10740001, x % 2, 1)),
        9 => (CfgVal::Uart1OutProtNmea(x % 2 == 1), enc(0x10740002, x % 2, 1)),
        10 => (CfgVal::Uart1OutProtRtcm3x(x % 2 == 1), enc(0x10740004, x % 2, 1)),
        11 => (CfgVal::Uart2Baudrate(x as u32), enc(0x40530001, x, 4)),
        12 => (CfgVal::Uart2StopBits(mk_StopBits(x).0), enc(0x20530002, mk_StopBits(x).1, 1)),
        13 => (CfgVal::Uart2DataBits(mk_DataBits(x).0), enc(0x20530003, mk_DataBits(x).1, 1)),
        14 => (CfgVal::Uart2Parity(mk_Parity(x).0), enc(0x20530004, mk_Parity(x).1, 1)),
        15 => (CfgVal::Uart2Enabled(x % 2 == 1), enc(0x10530005, x % 2, 1)),
        16 => (CfgVal::Uart2Remap(x % 2 == 1), enc(0x10530006, x % 2, 1)),
        17 => (CfgVal::Uart2InProtUbx(x % 2 == 1), enc(0x10750001, x % 2, 1)),
        18 => (CfgVal::Uart2InProtNmea(x % 2 == 1), enc(0x10750002, x % 2, 1)),
        19 => (CfgVal::Uart2InProtRtcm3x(x % 2 == 1), enc(0x10750004, x % 2, 1)),
        20 => (CfgVal::Uart2OutProtUbx(x % 2 == 1), enc(0x10760001, x % 2, 1)),
        21 => (CfgVal::Uart2OutProtNmea(x % 2 == 1), enc(0x10760002, x % 2, 1)),
        22 => (CfgVal::Uart2OutProtRtcm3x(x % 2 == 1), enc(0x10760004, x % 2, 1)),
        23 => (CfgVal::UsbEnabled(x % 2 == 1), enc(0x10650001, x % 2, 1)),
        24 => (CfgVal::UsbSelfpow(x % 2 == 1), enc(0x10650002, x % 2, 1)),
        25 => (CfgVal::UsbVendorId(x as u16), enc(0x3065000a, x, 2)),
        26 => (CfgVal::UsbProductId(x as u16), enc(0x3065000b, x, 2)),
        27 => (CfgVal::UsbPower(x as u16), enc(0x3065000c, x, 2)),
        28 => (CfgVal::UsbVendorStr0(x as u64), enc(0x5065000d, x, 8)),
        29 => (CfgVal::UsbVendorStr1(x as u64), enc(0x5065000e, x, 8)),
        30 => (CfgVal::UsbVendorStr2(x as u64), enc(0x5065000f, x, 8)),
        31 => (CfgVal::UsbVendorStr3(x as u64), enc(0x50650010, x, 8)),
        32 => (CfgVal::UsbProductStr0(x as u64), enc(0x50650011, x, 8)),
        33 => (CfgVal::UsbProductStr1(x as u64), enc(0x50650012, x, 8)),
        34 => (CfgVal::UsbProductStr2(x as u64), enc(0x50650013, x, 8)),
        35 => (CfgVal::UsbProductStr3(x as u64), enc(0x50650014, x, 8)),
        36 => (CfgVal::UsbSerialNoStr0(x as u64), enc(0x50650015, x, 8)),
        37 => (CfgVal::UsbSerialNoStr1(x as u64), enc(0x50650016, x, 8)),
        38 => (CfgVal::UsbSerialNoStr2(x as u64), enc(0x50650017, x, 8)),
        39 => (CfgVal::UsbSerialNoStr3(x as u64), enc(0x50650018, x, 8)),
        40 => (CfgVal::UsbinprotUbx(x % 2 == 1), enc(0x10770001, x % 2, 1)),
        41 => (CfgVal::UsbinprotNmea(x % 2 == 1), enc(0x10770002, x % 2, 1)),
        42 => (CfgVal::UsbinprotRtcm3X(x % 2 == 1), enc(0x10770004, x % 2, 1)),
        43 => (CfgVal::UsbOutProtUbx(x % 2 == 1), enc(0x10780001, x % 2, 1)),
        44 => (CfgVal::UsbOutProtNmea(x % 2 == 1), enc(0x10780002, x % 2, 1)),
        45 => (CfgVal::UsbOutProtRtcm3x(x % 2 == 1), enc(0x10780004, x % 2, 1)),
        46 => (CfgVal::InfmsgUbxI2c(mk_CfgInfMask(x).0), enc(0x20920001, mk_CfgInfMask(x).1, 1)),
        47 => (CfgVal::InfmsgUbxUart1(mk_CfgInfMask(x).0), enc(0x20920002, mk_CfgInfMask(x).1, 1)),
        48 => (CfgVal::InfmsgUbxUart2(mk_CfgInfMask(x).0), enc(0x20920003, mk_CfgInfMask(x).1, 1)),
        49 => (CfgVal::InfmsgUbxUsb(mk_CfgInfMask(x).0), enc(0x20920004, mk_CfgInfMask(x).1, 1)),
        50 => (CfgVal::InfmsgUbxSpi(mk_CfgInfMask(x).0), enc(0x20920005, mk_CfgInfMask(x).1, 1)),
        51 => (CfgVal::InfmsgNmeaI2c(mk_CfgInfMask(x).0), enc(0x20920006, mk_CfgInfMask(x).1, 1)),
        52 => (CfgVal::InfmsgNmeaUart1(mk_CfgInfMask(x).0), enc(0x20920007, mk_CfgInfMask(x).1, 1)),
        53 => (CfgVal::InfmsgNmeaUart2(mk_CfgInfMask(x).0), enc(0x20920008, mk_CfgInfMask(x).1, 1)),
        54 => (CfgVal::InfmsgNmeaUsb(mk_CfgInfMask(x).0), enc(0x20920009, mk_CfgInfMask(x).1, 1)),
        55 => (CfgVal::InfmsgNmeaSpi(mk_CfgInfMask(x).0), enc(0x2092000a, mk_CfgInfMask(x).1, 1)),
        56 => (CfgVal::RateMeas(x as u16), enc(0x30210001, x, 2)),
        57 => (CfgVal::RateNav(x as u16), enc(0x30210002, x, 2)),
        58 => (CfgVal::RateTimeref(mk_AlignmentToReferenceTime(x).0), enc(0x20210003, mk_AlignmentToReferenceTime(x).1, 1)),
        59 => (CfgVal::MsgoutNmeaIdDtmI2c(x as u8), enc(0x209100a6, x, 1)),
        60 => (CfgVal::MsgoutNmeaIdDtmSpi(x as u8), enc(0x209100aa, x, 1)),
        61 => (CfgVal::MsgoutNmeaIdDtmUart1(x as u8), enc(0x209100a7, x, 1)),
        62 => (CfgVal::MsgoutNmeaIdDtmUart2(x as u8), enc(0x209100a8, x, 1)),
        63 => (CfgVal::MsgoutNmeaIdDtmUsb(x as u8), enc(0x209100a9, x, 1)),
        64 => (CfgVal::MsgoutNmeaIdGbsI2c(x as u8), enc(0x209100dd, x, 1)),
        65 => (CfgVal::MsgoutNmeaIdGbsSpi(x as u8), enc(0x209100e1, x, 1)),
        66 => (CfgVal::MsgoutNmeaIdGbsUart1(x as u8), enc(0x209100de, x, 1)),
        67 => (CfgVal::MsgoutNmeaIdGbsUart2(x as u8), enc(0x209100df, x, 1)),
        68 => (CfgVal::MsgoutNmeaIdGbsUsb(x as u8), enc(0x209100e0, x, 1)),
        69 => (CfgVal::MsgoutNmeaIdGgaI2c(x as u8), enc(0x209100ba, x, 1)),
        70 => (CfgVal::MsgoutNmeaIdGgaSpi(x as u8), enc(0x209100be, x, 1)),
        71 => (CfgVal::MsgoutNmeaIdGgaUart1(x as u8), enc(0x209100bb, x, 1)),
        72 => (CfgVal::MsgoutNmeaIdGgaUart2(x as u8), enc(0x209100bc, x, 1)),
        73 => (CfgVal::MsgoutNmeaIdGgaUsb(x as u8), enc(0x209100bd, x, 1)),
        74 => (CfgVal::MsgoutNmeaIdGllI2c(x as u8), enc(0x209100c9, x, 1)),
        75 => (CfgVal::MsgoutNmeaIdGllSpi(x as u8), enc(0x209100cd, x, 1)),
        76 => (CfgVal::MsgoutNmeaIdGllUart1(x as u8), enc(0x209100ca, x, 1)),
        77 => (CfgVal::MsgoutNmeaIdGllUart2(x as u8), enc(0x209100cb, x, 1)),
        78 => (CfgVal::MsgoutNmeaIdGllUsb(x as u8), enc(0x209100cc, x, 1)),
        79 => (CfgVal::MsgoutNmeaIdGnsI2c(x as u8), enc(0x209100b5, x, 1)),
        80 => (CfgVal::MsgoutNmeaIdGnsSpi(x as u8), enc(0x209100b9, x, 1)),
        81 => (CfgVal::MsgoutNmeaIdGnsUart1(x as u8), enc(0x209100b6, x, 1)),
        82 => (CfgVal::MsgoutNmeaIdGnsUart2(x as u8), enc(0x209100b7, x, 1)),
        83 => (CfgVal::MsgoutNmeaIdGnsUsb(x as u8), enc(0x209100b8, x, 1)),
        84 => (CfgVal::MsgoutNmeaIdGrsI2c(x as u8), enc(0x209100ce, x, 1)),
        85 => (CfgVal::MsgoutNmeaIdGrsSpi(x as u8), enc(0x209100d2, x, 1)),
        86 => (CfgVal::MsgoutNmeaIdGrsUart1(x as u8), enc(0x209100cf, x, 1)),
        87 => (CfgVal::MsgoutNmeaIdGrsUart2(x as u8), enc(0x209100d0, x, 1)),
        88 => (CfgVal::MsgoutNmeaIdGrsUsb(x as u8), enc(0x209100d1, x, 1)),
        89 => (CfgVal::MsgoutNmeaIdGsaI2c(x as u8), enc(0x209100bf, x, 1)),
        90 => (CfgVal::MsgoutNmeaIdGsaSpi(x as u8), enc(0x209100c3, x, 1)),
        91 => (CfgVal::MsgoutNmeaIdGsaUart1(x as u8), enc(0x209100c0, x, 1)),
        92 => (CfgVal::MsgoutNmeaIdGsaUart2(x as u8), enc(0x209100c1, x, 1)),
        93 => (CfgVal::MsgoutNmeaIdGsaUsb(x as u8), enc(0x209100c2, x, 1)),
        94 => (CfgVal::MsgoutNmeaIdGstI2c(x as u8), enc(0x209100d3, x, 1)),
        95 => (CfgVal::MsgoutNmeaIdGstSpi(x as u8), enc(0x209100d7, x, 1)),
        96 => (CfgVal::MsgoutNmeaIdGstUart1(x as u8), enc(0x209100d4, x, 1)),
        97 => (CfgVal::MsgoutNmeaIdGstUart2(x as u8), enc(0x209100d5, x, 1)),
        98 => (CfgVal::MsgoutNmeaIdGstUsb(x as u8), enc(0x209100d6, x, 1)),
        99 => (CfgVal::MsgoutNmeaIdGsvI2c(x as u8), enc(0x209100c4, x, 1)),
        100 => (CfgVal::MsgoutNmeaIdGsvSpi(x as u8), enc(0x209100c8, x, 1)),
        101 => (CfgVal::MsgoutNmeaIdGsvUart1(x as u8), enc(0x209100c5, x, 1)),
        102 => (CfgVal::MsgoutNmeaIdGsvUart2(x as u8), enc(0x209100c6, x, 1)),
        103 => (CfgVal::MsgoutNmeaIdGsvUsb(x as u8), enc(0x209100c7, x, 1)),
        104 => (CfgVal::MsgoutNmeaIdRmcI2c(x as u8), enc(0x209100ab, x, 1)),
        105 => (CfgVal::MsgoutNmeaIdRmcSpi(x as u8), enc(0x209100af, x, 1)),
        106 => (CfgVal::MsgoutNmeaIdRmcUart1(x as u8), enc(0x209100ac, x, 1)),
        107 => (CfgVal::MsgoutNmeaIdRmcUart2(x as u8), enc(0x209100ad, x, 1)),
        108 => (CfgVal::MsgoutNmeaIdRmcUsb(x as u8), enc(0x209100ae, x, 1)),
        109 => (CfgVal::MsgoutNmeaIdVlwI2c(x as u8), enc(0x209100e7, x, 1)),
        110 => (CfgVal::MsgoutNmeaIdVlwSpi(x as u8), enc(0x209100eb, x, 1)),
        111 => (CfgVal::MsgoutNmeaIdVlwUart1(x as u8), enc(0x209100e8, x, 1)),
        112 => (CfgVal::MsgoutNmeaIdVlwUart2(x as u8), enc(0x209100e9, x, 1)),
        113 => (CfgVal::MsgoutNmeaIdVlwUsb(x as u8), enc(0x209100ea, x, 1)),
        114 => (CfgVal::MsgoutNmeaIdVtgI2c(x as u8), enc(0x209100b0, x, 1)),
        115 => (CfgVal::MsgoutNmeaIdVtgSpi(x as u8), enc(0x209100b4, x, 1)),
        116 => (CfgVal::MsgoutNmeaIdVtgUart1(x as u8), enc(0x209100b1, x, 1)),
        117 => (CfgVal::MsgoutNmeaIdVtgUart2(x as u8), enc(0x209100b2, x, 1)),
        118 => (CfgVal::MsgoutNmeaIdVtgUsb(x as u8), enc(0x209100b3, x, 1)),
        119 => (CfgVal::MsgoutNmeaIdZdaI2c(x as u8), enc(0x209100d8, x, 1)),
        120 => (CfgVal::MsgoutNmeaIdZdaSpi(x as u8), enc(0x209100dc, x, 1)),
        121 => (CfgVal::MsgoutNmeaIdZdaUart1(x as u8), enc(0x209100d9, x, 1)),
        122 => (CfgVal::MsgoutNmeaIdZdaUart2(x as u8), enc(0x209100da, x, 1)),
        123 => (CfgVal::MsgoutNmeaIdZdaUsb(x as u8), enc(0x209100db, x, 1)),
        124 => (CfgVal::MsgoutPubxIdPolypI2c(x as u8), enc(0x209100ec, x, 1)),
        125 => (CfgVal::MsgoutPubxIdPolypSpi(x as u8), enc(0x209100f0, x, 1)),
        126 => (CfgVal::MsgoutPubxIdPolypUart1(x as u8), enc(0x209100ed, x, 1)),
        127 => (CfgVal::MsgoutPubxIdPolypUart2(x as u8), enc(0x209100ee, x, 1)),
        128 => (CfgVal::MsgoutPubxIdPolypUsb(x as u8), enc(0x209100ef, x, 1)),
        129 => (CfgVal::MsgoutPubxIdPolysI2c(x as u8), enc(0x209100f1, x, 1)),
        130 => (CfgVal::MsgoutPubxIdPolysSpi(x as u8), enc(0x209100f5, x, 1)),
        131 => (CfgVal::MsgoutPubxIdPolysUart1(x as u8), enc(0x209100f2, x, 1)),
        132 => (CfgVal::MsgoutPubxIdPolysUart2(x as u8), enc(0x209100f3, x, 1)),
        133 => (CfgVal::MsgoutPubxIdPolysUsb(x as u8), enc(0x209100f4, x, 1)),
        134 => (CfgVal::MsgoutPubxIdPolytI2c(x as u8), enc(0x209100f6, x, 1)),
        135 => (CfgVal::MsgoutPubxIdPolytSpi(x as u8), enc(0x209100fa, x, 1)),
        136 => (CfgVal::MsgoutPubxIdPolytUart1(x as u8), enc(0x209100f7, x, 1)),
        137 => (CfgVal::MsgoutPubxIdPolytUart2(x as u8), enc(0x209100f8, x, 1)),
        138 => (CfgVal::MsgoutPubxIdPolytUsb(x as u8), enc(0x209100f9, x, 1)),
        139 => (CfgVal::MsgoutRtcm3xType1005I2c(x as u8), enc(0x209102bd, x, 1)),
        140 => (CfgVal::MsgoutRtcm3xType1005Spi(x as u8), enc(0x209102c1, x, 1)),
        141 => (CfgVal::MsgoutRtcm3xType1005Uart1(x as u8), enc(0x209102be, x, 1)),
        142 => (CfgVal::MsgoutRtcm3xType1005Uart2(x as u8), enc(0x209102bf, x, 1)),
        143 => (CfgVal::MsgoutRtcm3xType1005Usb(x as u8), enc(0x209102c0, x, 1)),
        144 => (CfgVal::MsgoutRtcm3xType1074I2c(x as u8), enc(0x2091035e, x, 1)),
        145 => (CfgVal::MsgoutRtcm3xType1074Spi(x as u8), enc(0x20910362, x, 1)),
        146 => (CfgVal::MsgoutRtcm3xType1074Uart1(x as u8), enc(0x2091035f, x, 1)),
        147 => (CfgVal::MsgoutRtcm3xType1074Uart2(x as u8), enc(0x20910360, x, 1)),
        148 => (CfgVal::MsgoutRtcm3xType1074Usb(x as u8), enc(0x20910361, x, 1)),
        149 => (CfgVal::MsgoutRtcm3xType1077I2c(x as u8), enc(0x209102cc, x, 1)),
        150 => (CfgVal::MsgoutRtcm3xType1077Spi(x as u8), enc(0x209102d0, x, 1)),
        151 => (CfgVal::MsgoutRtcm3xType1077Uart1(x as u8), enc(0x209102cd, x, 1)),
        152 => (CfgVal::MsgoutRtcm3xType1077Uart2(x as u8), enc(0x209102ce, x, 1)),
        153 => (CfgVal::MsgoutRtcm3xType1077Usb(x as u8), enc(0x209102cf, x, 1)),
        154 => (CfgVal::MsgoutRtcm3xType1084I2c(x as u8), enc(0x20910363, x, 1)),
        155 => (CfgVal::MsgoutRtcm3xType1084Spi(x as u8), enc(0x20910367, x, 1)),
        156 => (CfgVal::MsgoutRtcm3xType1084Uart1(x as u8), enc(0x20910364, x, 1)),
        157 => (CfgVal::MsgoutRtcm3xType1084Uart2(x as u8), enc(0x20910365, x, 1)),
        158 => (CfgVal::MsgoutRtcm3xType1084Usb(x as u8), enc(0x20910366, x, 1)),
        159 => (CfgVal::MsgoutRtcm3xType1087I2c(x as u8), enc(0x209102d1, x, 1)),
        160 => (CfgVal::MsgoutRtcm3xType1087Spi(x as u8), enc(0x209102d5, x, 1)),
        161 => (CfgVal::MsgoutRtcm3xType1087Uart1(x as u8), enc(0x209102d2, x, 1)),
        162 => (CfgVal::MsgoutRtcm3xType1087Uart2(x as u8), enc(0x209102d3, x, 1)),
        163 => (CfgVal::MsgoutRtcm3xType1087Usb(x as u8), enc(0x209102d4, x, 1)),
        164 => (CfgVal::MsgoutRtcm3xType1094I2c(x as u8), enc(0x20910368, x, 1)),
        165 => (CfgVal::MsgoutRtcm3xType1094Spi(x as u8), enc(0x2091036c, x, 1)),
        166 => (CfgVal::MsgoutRtcm3xType1094Uart1(x as u8), enc(0x20910369, x, 1)),
        167 => (CfgVal::MsgoutRtcm3xType1094Uart2(x as u8), enc(0x2091036a, x, 1)),
        168 => (CfgVal::MsgoutRtcm3xType1094Usb(x as u8), enc(0x2091036b, x, 1)),
        169 => (CfgVal::MsgoutRtcm3xType1097I2c(x as u8), enc(0x20910318, x, 1)),
        170 => (CfgVal::MsgoutRtcm3xType1097Spi(x as u8), enc(0x2091031c, x, 1)),
        171 => (CfgVal::MsgoutRtcm3xType1097Uart1(x as u8), enc(0x20910319, x, 1)),
        172 => (CfgVal::MsgoutRtcm3xType1097Uart2(x as u8), enc(0x2091031a, x, 1)),
        173 => (CfgVal::MsgoutRtcm3xType1097Usb(x as u8), enc(0x2091031b, x, 1)),
        174 => (CfgVal::MsgoutRtcm3xType1124I2c(x as u8), enc(0x2091036d, x, 1)),
        175 => (CfgVal::MsgoutRtcm3xType1124Spi(x as u8), enc(0x20910371, x, 1)),
        176 => (CfgVal::MsgoutRtcm3xType1124Uart1(x as u8), enc(0x2091036e, x, 1)),
        177 => (CfgVal::MsgoutRtcm3xType1124Uart2(x as u8), enc(0x2091036f, x, 1)),
        178 => (CfgVal::MsgoutRtcm3xType1124Usb(x as u8), enc(0x20910370, x, 1)),
        179 => (CfgVal::MsgoutRtcm3xType1127I2c(x as u8), enc(0x209102d6, x, 1)),
        180 => (CfgVal::MsgoutRtcm3xType1127Spi(x as u8), enc(0x209102da, x, 1)),
        181 => (CfgVal::MsgoutRtcm3xType1127Uart1(x as u8), enc(0x209102d7, x, 1)),
        182 => (CfgVal::MsgoutRtcm3xType1127Uart2(x as u8), enc(0x209102d8, x, 1)),
        183 => (CfgVal::MsgoutRtcm3xType1127Usb(x as u8), enc(0x209102d9, x, 1)),
        184 => (CfgVal::MsgoutRtcm3xType1230I2c(x as u8), enc(0x20910303, x, 1)),
        185 => (CfgVal::MsgoutRtcm3xType1230Spi(x as u8), enc(0x20910307, x, 1)),
        186 => (CfgVal::MsgoutRtcm3xType1230Uart1(x as u8), enc(0x20910304, x, 1)),
        187 => (CfgVal::MsgoutRtcm3xType1230Uart2(x as u8), enc(0x20910305, x, 1)),
        188 => (CfgVal::MsgoutRtcm3xType1230Usb(x as u8), enc(0x20910306, x, 1)),
        189 => (CfgVal::MsgoutUbxLogInfoI2c(x as u8), enc(0x20910259, x, 1)),
        190 => (CfgVal::MsgoutUbxLogInfoSpi(x as u8), enc(0x2091025d, x, 1)),
        191 => (CfgVal::MsgoutUbxLogInfoUart1(x as u8), enc(0x2091025a, x, 1)),
        192 => (CfgVal::MsgoutUbxLogInfoUart2(x as u8), enc(0x2091025b, x, 1)),
        193 => (CfgVal::MsgoutUbxLogInfoUsb(x as u8), enc(0x2091025c, x, 1)),
        194 => (CfgVal::MsgoutUbxMonCommsI2c(x as u8), enc(0x2091034f, x, 1)),
        195 => (CfgVal::MsgoutUbxMonCommsSpi(x as u8), enc(0x20910353, x, 1)),
        196 => (CfgVal::MsgoutUbxMonCommsUart1(x as u8), enc(0x20910350, x, 1)),
        197 => (CfgVal::MsgoutUbxMonCommsUart2(x as u8), enc(0x20910351, x, 1)),
        198 => (CfgVal::MsgoutUbxMonCommsUsb(x as u8), enc(0x20910352, x, 1)),
        199 => (CfgVal::MsgoutUbxMonHw2I2c(x as u8), enc(0x209101b9, x, 1)),
        200 => (CfgVal::MsgoutUbxMonHw2Spi(x as u8), enc(0x209101bd, x, 1)),
        201 => (CfgVal::MsgoutUbxMonHw2Uart1(x as u8), enc(0x209101ba, x, 1)),
        202 => (CfgVal::MsgoutUbxMonHw2Uart2(x as u8), enc(0x209101bb, x, 1)),
        203 => (CfgVal::MsgoutUbxMonHw2Usb(x as u8), enc(0x209101bc, x, 1)),
        204 => (CfgVal::MsgoutUbxMonHw3I2c(x as u8), enc(0x20910354, x, 1)),
        205 => (CfgVal::MsgoutUbxMonHw3Spi(x as u8), enc(0x20910358, x, 1)),
        206 => (CfgVal::MsgoutUbxMonHw3Uart1(x as u8), enc(0x20910355, x, 1)),
        207 => (CfgVal::MsgoutUbxMonHw3Uart2(x as u8), enc(0x20910356, x, 1)),
        208 => (CfgVal::MsgoutUbxMonHw3Usb(x as u8), enc(0x20910357, x, 1)),
        209 => (CfgVal::MsgoutUbxMonHwI2c(x as u8), enc(0x209101b4, x, 1)),
        210 => (CfgVal::MsgoutUbxMonHwSpi(x as u8), enc(0x209101b8, x, 1)),
        211 => (CfgVal::MsgoutUbxMonHwUart1(x as u8), enc(0x209101b5, x, 1)),
        212 => (CfgVal::MsgoutUbxMonHwUart2(x as u8), enc(0x209101b6, x, 1)),
        213 => (CfgVal::MsgoutUbxMonHwUsb(x as u8), enc(0x209101b7, x, 1)),
        214 => (CfgVal::MsgoutUbxMonIoI2c(x as u8), enc(0x209101a5, x, 1)),
        215 => (CfgVal::MsgoutUbxMonIoSpi(x as u8), enc(0x209101a9, x, 1)),
        216 => (CfgVal::MsgoutUbxMonIoUart1(x as u8), enc(0x209101a6, x, 1)),
        217 => (CfgVal::MsgoutUbxMonIoUart2(x as u8), enc(0x209101a7, x, 1)),
        218 => (CfgVal::MsgoutUbxMonIoUsb(x as u8), enc(0x209101a8, x, 1)),
        219 => (CfgVal::MsgoutUbxMonMsgPpI2c(x as u8), enc(0x20910196, x, 1)),
        220 => (CfgVal::MsgoutUbxMonMsgPpSpi(x as u8), enc(0x2091019a, x, 1)),
        221 => (CfgVal::MsgoutUbxMonMsgPpUart1(x as u8), enc(0x20910197, x, 1)),
        222 => (CfgVal::MsgoutUbxMonMsgPpUart2(x as u8), enc(0x20910198, x, 1)),
        223 => (CfgVal::MsgoutUbxMonMsgPpUsb(x as u8), enc(0x20910199, x, 1)),
        224 => (CfgVal::MsgoutUbxMonRfI2c(x as u8), enc(0x20910359, x, 1)),
        225 => (CfgVal::MsgoutUbxMonRfSpi(x as u8), enc(0x2091035d, x, 1)),
        226 => (CfgVal::MsgoutUbxMonRfUart1(x as u8), enc(0x2091035a, x, 1)),
        227 => (CfgVal::MsgoutUbxMonRfUart2(x as u8), enc(0x2091035b, x, 1)),
        228 => (CfgVal::MsgoutUbxMonRfUsb(x as u8), enc(0x2091035c, x, 1)),
        229 => (CfgVal::MsgoutUbxMonRxbufI2c(x as u8), enc(0x209101a0, x, 1)),
        230 => (CfgVal::MsgoutUbxMonRxbufSpi(x as u8), enc(0x209101a4, x, 1)),
        231 => (CfgVal::MsgoutUbxMonRxbufUart1(x as u8), enc(0x209101a1, x, 1)),
        232 => (CfgVal::MsgoutUbxMonRxbufUart2(x as u8), enc(0x209101a2, x, 1)),
        233 => (CfgVal::MsgoutUbxMonRxbufUsb(x as u8), enc(0x209101a3, x, 1)),
        234 => (CfgVal::MsgoutUbxMonRxrI2c(x as u8), enc(0x20910187, x, 1)),
        235 => (CfgVal::MsgoutUbxMonRxrSpi(x as u8), enc(0x2091018b, x, 1)),
        236 => (CfgVal::MsgoutUbxMonRxrUart1(x as u8), enc(0x20910188, x, 1)),
        237 => (CfgVal::MsgoutUbxMonRxrUart2(x as u8), enc(0x20910189, x, 1)),
        238 => (CfgVal::MsgoutUbxMonRxrUsb(x as u8), enc(0x2091018a, x, 1)),
        239 => (CfgVal::MsgoutUbxMonTxbufI2c(x as u8), enc(0x2091019b, x, 1)),
        240 => (CfgVal::MsgoutUbxMonTxbufSpi(x as u8), enc(0x2091019f, x, 1)),
        241 => (CfgVal::MsgoutUbxMonTxbufUart1(x as u8), enc(0x2091019c, x, 1)),
        242 => (CfgVal::MsgoutUbxMonTxbufUart2(x as u8), enc(0x2091019d, x, 1)),
        243 => (CfgVal::MsgoutUbxMonTxbufUsb(x as u8), enc(0x2091019e, x, 1)),
        244 => (CfgVal::MsgoutUbxNavClockI2c(x as u8), enc(0x20910065, x, 1)),
        245 => (CfgVal::MsgoutUbxNavClockSpi(x as u8), enc(0x20910069, x, 1)),
        246 => (CfgVal::MsgoutUbxNavClockUart1(x as u8), enc(0x20910066, x, 1)),
        247 => (CfgVal::MsgoutUbxNavClockUart2(x as u8), enc(0x20910067, x, 1)),
        248 => (CfgVal::MsgoutUbxNavClockUsb(x as u8), enc(0x20910068, x, 1)),
        249 => (CfgVal::MsgoutUbxNavDopI2c(x as u8), enc(0x20910038, x, 1)),
        250 => (CfgVal::MsgoutUbxNavDopSpi(x as u8), enc(0x2091003c, x, 1)),
        251 => (CfgVal::MsgoutUbxNavDopUart1(x as u8), enc(0x20910039, x, 1)),
        252 => (CfgVal::MsgoutUbxNavDopUart2(x as u8), enc(0x2091003a, x, 1)),
        253 => (CfgVal::MsgoutUbxNavDopUsb(x as u8), enc(0x2091003b, x, 1)),
        254 => (CfgVal::MsgoutUbxNavEoeI2c(x as u8), enc(0x2091015f, x, 1)),
        255 => (CfgVal::MsgoutUbxNavEoeSpi(x as u8), enc(0x20910163, x, 1)),
        256 => (CfgVal::MsgoutUbxNavEoeUart1(x as u8), enc(0x20910160, x, 1)),
        257 => (CfgVal::MsgoutUbxNavEoeUart2(x as u8), enc(0x20910161, x, 1)),
        258 => (CfgVal::MsgoutUbxNavEoeUsb(x as u8), enc(0x20910162, x, 1)),
        259 => (CfgVal::MsgoutUbxNavGeofenceI2c(x as u8), enc(0x209100a1, x, 1)),
        260 => (CfgVal::MsgoutUbxNavGeofenceSpi(x as u8), enc(0x209100a5, x, 1)),
        261 => (CfgVal::MsgoutUbxNavGeofenceUart1(x as u8), enc(0x209100a2, x, 1)),
        262 => (CfgVal::MsgoutUbxNavGeofenceUart2(x as u8), enc(0x209100a3, x, 1)),
        263 => (CfgVal::MsgoutUbxNavGeofenceUsb(x as u8), enc(0x209100a4, x, 1)),
        264 => (CfgVal::MsgoutUbxNavHpPosEcefI2c(x as u8), enc(0x2091002e, x, 1)),
        265 => (CfgVal::MsgoutUbxNavHpPosEcefSpi(x as u8), enc(0x20910032, x, 1)),
        266 => (CfgVal::MsgoutUbxNavHpPosEcefUart1(x as u8), enc(0x2091002f, x, 1)),
        267 => (CfgVal::MsgoutUbxNavHpPosEcefUart2(x as u8), enc(0x20910030, x, 1)),
        268 => (CfgVal::MsgoutUbxNavHpPosEcefUsb(x as u8), enc(0x20910031, x, 1)),
        269 => (CfgVal::MsgoutUbxNavHpPosllhI2c(x as u8), enc(0x20910033, x, 1)),
        270 => (CfgVal::MsgoutUbxNavHpPosllhSpi(x as u8), enc(0x20910037, x, 1)),
        271 => (CfgVal::MsgoutUbxNavHpPosllhUart1(x as u8), enc(0x20910034, x, 1)),
        272 => (CfgVal::MsgoutUbxNavHpPosllhUart2(x as u8), enc(0x20910035, x, 1)),
        273 => (CfgVal::MsgoutUbxNavHpPosllhUsb(x as u8), enc(0x20910036, x, 1)),
        274 => (CfgVal::MsgoutUbxNavOdoI2c(x as u8), enc(0x2091007e, x, 1)),
        275 => (CfgVal::MsgoutUbxNavOdoSpi(x as u8), enc(0x20910082, x, 1)),
        276 => (CfgVal::MsgoutUbxNavOdoUart1(x as u8), enc(0x2091007f, x, 1)),
        277 => (CfgVal::MsgoutUbxNavOdoUart2(x as u8), enc(0x20910080, x, 1)),
        278 => (CfgVal::MsgoutUbxNavOdoUsb(x as u8), enc(0x20910081, x, 1)),
        279 => (CfgVal::MsgoutUbxNavOrbI2c(x as u8), enc(0x20910010, x, 1)),
        280 => (CfgVal::MsgoutUbxNavOrbSpi(x as u8), enc(0x20910014, x, 1)),
        281 => (CfgVal::MsgoutUbxNavOrbUart1(x as u8), enc(0x20910011, x, 1)),
        282 => (CfgVal::MsgoutUbxNavOrbUart2(x as u8), enc(0x20910012, x, 1)),
        283 => (CfgVal::MsgoutUbxNavOrbUsb(x as u8), enc(0x20910013, x, 1)),
        284 => (CfgVal::MsgoutUbxNavPosEcefI2c(x as u8), enc(0x20910024, x, 1)),
        285 => (CfgVal::MsgoutUbxNavPosEcefSpi(x as u8), enc(0x20910028, x, 1)),
        286 => (CfgVal::MsgoutUbxNavPosEcefUart1(x as u8), enc(0x20910025, x, 1)),
        287 => (CfgVal::MsgoutUbxNavPosEcefUart2(x as u8), enc(0x20910026, x, 1)),
        288 => (CfgVal::MsgoutUbxNavPosEcefUsb(x as u8), enc(0x20910027, x, 1)),
        289 => (CfgVal::MsgoutUbxNavPosLlhI2c(x as u8), enc(0x20910029, x, 1)),
        290 => (CfgVal::MsgoutUbxNavPosLlhSpi(x as u8), enc(0x2091002d, x, 1)),
        291 => (CfgVal::MsgoutUbxNavPosLlhUart1(x as u8), enc(0x2091002a, x, 1)),
        292 => (CfgVal::MsgoutUbxNavPosLlhUart2(x as u8), enc(0x2091002b, x, 1)),
        293 => (CfgVal::MsgoutUbxNavPosLlhUsb(x as u8), enc(0x2091002c, x, 1)),
        294 => (CfgVal::MsgoutUbxNavPvtI2c(x as u8), enc(0x20910006, x, 1)),
        295 => (CfgVal::MsgoutUbxNavPvtSpi(x as u8), enc(0x2091000a, x, 1)),
        296 => (CfgVal::MsgoutUbxNavPvtUart1(x as u8), enc(0x20910007, x, 1)),
        297 => (CfgVal::MsgoutUbxNavPvtUart2(x as u8), enc(0x20910008, x, 1)),
        298 => (CfgVal::MsgoutUbxNavPvtUsb(x as u8), enc(0x20910009, x, 1)),
        299 => (CfgVal::MsgoutUbxNavRelposnedI2c(x as u8), enc(0x2091008d, x, 1)),
        300 => (CfgVal::MsgoutUbxNavRelposnedSpi(x as u8), enc(0x20910091, x, 1)),
        301 => (CfgVal::MsgoutUbxNavRelposnedUart1(x as u8), enc(0x2091008e, x, 1)),
        302 => (CfgVal::MsgoutUbxNavRelposnedUart2(x as u8), enc(0x2091008f, x, 1)),
        303 => (CfgVal::MsgoutUbxNavRelposnedUsb(x as u8), enc(0x20910090, x, 1)),
        304 => (CfgVal::MsgoutUbxNavSatI2c(x as u8), enc(0x20910015, x, 1)),
        305 => (CfgVal::MsgoutUbxNavSatSpi(x as u8), enc(0x20910019, x, 1)),
        306 => (CfgVal::MsgoutUbxNavSatUart1(x as u8), enc(0x20910016, x, 1)),
        307 => (CfgVal::MsgoutUbxNavSatUart2(x as u8), enc(0x20910017, x, 1)),
        308 => (CfgVal::MsgoutUbxNavSatUsb(x as u8), enc(0x20910018, x, 1)),
        309 => (CfgVal::MsgoutUbxNavSigI2c(x as u8), enc(0x20910345, x, 1)),
        310 => (CfgVal::MsgoutUbxNavSigSpi(x as u8), enc(0x20910349, x, 1)),
        311 => (CfgVal::MsgoutUbxNavSigUart1(x as u8), enc(0x20910346, x, 1)),
        312 => (CfgVal::MsgoutUbxNavSigUart2(x as u8), enc(0x20910347, x, 1)),
        313 => (CfgVal::MsgoutUbxNavSigUsb(x as u8), enc(0x20910348, x, 1)),
        314 => (CfgVal::MsgoutUbxNavStatusI2c(x as u8), enc(0x2091001a, x, 1)),
        315 => (CfgVal::MsgoutUbxNavStatusSpi(x as u8), enc(0x2091001e, x, 1)),
        316 => (CfgVal::MsgoutUbxNavStatusUart1(x as u8), enc(0x2091001b, x, 1)),
        317 => (CfgVal::MsgoutUbxNavStatusUart2(x as u8), enc(0x2091001c, x, 1)),
        318 => (CfgVal::MsgoutUbxNavStatusUsb(x as u8), enc(0x2091001d, x, 1)),
        319 => (CfgVal::MsgoutUbxNavSvinI2c(x as u8), enc(0x20910088, x, 1)),
        320 => (CfgVal::MsgoutUbxNavSvinSpi(x as u8), enc(0x2091008c, x, 1)),
        321 => (CfgVal::MsgoutUbxNavSvinUart1(x as u8), enc(0x20910089, x, 1)),
        322 => (CfgVal::MsgoutUbxNavSvinUart2(x as u8), enc(0x2091008a, x, 1)),
        323 => (CfgVal::MsgoutUbxNavSvinUsb(x as u8), enc(0x2091008b, x, 1)),
        324 => (CfgVal::MsgoutUbxNavTimeBdsI2c(x as u8), enc(0x20910051, x, 1)),
        325 => (CfgVal::MsgoutUbxNavTimeBdsSpi(x as u8), enc(0x20910055, x, 1)),
        326 => (CfgVal::MsgoutUbxNavTimeBdsUart1(x as u8), enc(0x20910052, x, 1)),
        327 => (CfgVal::MsgoutUbxNavTimeBdsUart2(x as u8), enc(0x20910053, x, 1)),
        328 => (CfgVal::MsgoutUbxNavTimeBdsUsb(x as u8), enc(0x20910054, x, 1)),
        329 => (CfgVal::MsgoutUbxNavTimeGalI2c(x as u8), enc(0x20910056, x, 1)),
        330 => (CfgVal::MsgoutUbxNavTimeGalSpi(x as u8), enc(0x2091005a, x, 1)),
        331 => (CfgVal::MsgoutUbxNavTimeGalUart1(x as u8), enc(0x20910057, x, 1)),
        332 => (CfgVal::MsgoutUbxNavTimeGalUart2(x as u8), enc(0x20910058, x, 1)),
        333 => (CfgVal::MsgoutUbxNavTimeGalUsb(x as u8), enc(0x20910059, x, 1)),
        334 => (CfgVal::MsgoutUbxNavTimeGloI2c(x as u8), enc(0x2091004c, x, 1)),
        335 => (CfgVal::MsgoutUbxNavTimeGloSpi(x as u8), enc(0x20910050, x, 1)),
        336 => (CfgVal::MsgoutUbxNavTimeGloUart1(x as u8), enc(0x2091004d, x, 1)),
        337 => (CfgVal::MsgoutUbxNavTimeGloUart2(x as u8), enc(0x2091004e, x, 1)),
        338 => (CfgVal::MsgoutUbxNavTimeGloUsb(x as u8), enc(0x2091004f, x, 1)),
        339 => (CfgVal::MsgoutUbxNavTimeGpsI2c(x as u8), enc(0x20910047, x, 1)),
        340 => (CfgVal::MsgoutUbxNavTimeGpsSpi(x as u8), enc(0x2091004b, x, 1)),
        341 => (CfgVal::MsgoutUbxNavTimeGpsUart1(x as u8), enc(0x20910048, x, 1)),
        342 => (CfgVal::MsgoutUbxNavTimeGpsUart2(x as u8), enc(0x20910049, x, 1)),
        343 => (CfgVal::MsgoutUbxNavTimeGpsUsb(x as u8), enc(0x2091004a, x, 1)),
        344 => (CfgVal::MsgoutUbxNavTimeLsI2c(x as u8), enc(0x20910060, x, 1)),
        345 => (CfgVal::MsgoutUbxNavTimeLsSpi(x as u8), enc(0x20910064, x, 1)),
        346 => (CfgVal::MsgoutUbxNavTimeLsUart1(x as u8), enc(0x20910061, x, 1)),
        347 => (CfgVal::MsgoutUbxNavTimeLsUart2(x as u8), enc(0x20910062, x, 1)),
        348 => (CfgVal::MsgoutUbxNavTimeLsUsb(x as u8), enc(0x20910063, x, 1)),
        349 => (CfgVal::MsgoutUbxNavTimeUtcI2c(x as u8), enc(0x2091005b, x, 1)),
        350 => (CfgVal::MsgoutUbxNavTimeUtcSpi(x as u8), enc(0x2091005f, x, 1)),
        351 => (CfgVal::MsgoutUbxNavTimeUtcUart1(x as u8), enc(0x2091005c, x, 1)),
        352 => (CfgVal::MsgoutUbxNavTimeUtcUart2(x as u8), enc(0x2091005d, x, 1)),
        353 => (CfgVal::MsgoutUbxNavTimeUtcUsb(x as u8), enc(0x2091005e, x, 1)),
        354 => (CfgVal::MsgoutUbxNavVelEcefI2c(x as u8), enc(0x2091003d, x, 1)),
        355 => (CfgVal::MsgoutUbxNavVelEcefSpi(x as u8), enc(0x20910041, x, 1)),
        356 => (CfgVal::MsgoutUbxNavVelEcefUart1(x as u8), enc(0x2091003e, x, 1)),
        357 => (CfgVal::MsgoutUbxNavVelEcefUart2(x as u8), enc(0x2091003f, x, 1)),
        358 => (CfgVal::MsgoutUbxNavVelEcefUsb(x as u8), enc(0x20910040, x, 1)),
        359 => (CfgVal::MsgoutUbxNavVelNedI2c(x as u8), enc(0x20910042, x, 1)),
        360 => (CfgVal::MsgoutUbxNavVelNedSpi(x as u8), enc(0x20910046, x, 1)),
        361 => (CfgVal::MsgoutUbxNavVelNedUart1(x as u8), enc(0x20910043, x, 1)),
        362 => (CfgVal::MsgoutUbxNavVelNedUart2(x as u8), enc(0x20910044, x, 1)),
        363 => (CfgVal::MsgoutUbxNavVelNedUsb(x as u8), enc(0x20910045, x, 1)),
        364 => (CfgVal::MsgoutUbxRxmMeasxI2c(x as u8), enc(0x20910204, x, 1)),
        365 => (CfgVal::MsgoutUbxRxmMeasxSpi(x as u8), enc(0x20910208, x, 1)),
        366 => (CfgVal::MsgoutUbxRxmMeasxUart1(x as u8), enc(0x20910205, x, 1)),
        367 => (CfgVal::MsgoutUbxRxmMeasxUart2(x as u8), enc(0x20910206, x, 1)),
        368 => (CfgVal::MsgoutUbxRxmMeasxUsb(x as u8), enc(0x20910207, x, 1)),
        369 => (CfgVal::MsgoutUbxRxmRawxI2c(x as u8), enc(0x209102a4, x, 1)),
        370 => (CfgVal::MsgoutUbxRxmRawxSpi(x as u8), enc(0x209102a8, x, 1)),
        371 => (CfgVal::MsgoutUbxRxmRawxUart1(x as u8), enc(0x209102a5, x, 1)),
        372 => (CfgVal::MsgoutUbxRxmRawxUart2(x as u8), enc(0x209102a6, x, 1)),
        373 => (CfgVal::MsgoutUbxRxmRawxUsb(x as u8), enc(0x209102a7, x, 1)),
        374 => (CfgVal::MsgoutUbxRxmRlmI2c(x as u8), enc(0x2091025e, x, 1)),
        375 => (CfgVal::MsgoutUbxRxmRlmSpi(x as u8), enc(0x20910262, x, 1)),
        376 => (CfgVal::MsgoutUbxRxmRlmUart1(x as u8), enc(0x2091025f, x, 1)),
        377 => (CfgVal::MsgoutUbxRxmRlmUart2(x as u8), enc(0x20910260, x, 1)),
        378 => (CfgVal::MsgoutUbxRxmRlmUsb(x as u8), enc(0x20910261, x, 1)),
        379 => (CfgVal::MsgoutUbxRxmRtcmI2c(x as u8), enc(0x20910268, x, 1)),
        380 => (CfgVal::MsgoutUbxRxmRtcmSpi(x as u8), enc(0x2091026c, x, 1)),
        381 => (CfgVal::MsgoutUbxRxmRtcmUart1(x as u8), enc(0x20910269, x, 1)),
        382 => (CfgVal::MsgoutUbxRxmRtcmUart2(x as u8), enc(0x2091026a, x, 1)),
        383 => (CfgVal::MsgoutUbxRxmRtcmUsb(x as u8), enc(0x2091026b, x, 1)),
        384 => (CfgVal::MsgoutUbxRxmSfrbxI2c(x as u8), enc(0x20910231, x, 1)),
        385 => (CfgVal::MsgoutUbxRxmSfrbxSpi(x as u8), enc(0x20910235, x, 1)),
        386 => (CfgVal::MsgoutUbxRxmSfrbxUart1(x as u8), enc(0x20910232, x, 1)),
        387 => (CfgVal::MsgoutUbxRxmSfrbxUart2(x as u8), enc(0x20910233, x, 1)),
        388 => (CfgVal::MsgoutUbxRxmSfrbxUsb(x as u8), enc(0x20910234, x, 1)),
        389 => (CfgVal::MsgoutUbxTimTm2I2c(x as u8), enc(0x20910178, x, 1)),
        390 => (CfgVal::MsgoutUbxTimTm2Spi(x as u8), enc(0x2091017c, x, 1)),
        391 => (CfgVal::MsgoutUbxTimTm2Uart1(x as u8), enc(0x20910179, x, 1)),
        392 => (CfgVal::MsgoutUbxTimTm2Uart2(x as u8), enc(0x2091017a, x, 1)),
        393 => (CfgVal::MsgoutUbxTimTm2Usb(x as u8), enc(0x2091017b, x, 1)),
        394 => (CfgVal::MsgoutUbxTimTpI2c(x as u8), enc(0x2091017d, x, 1)),
        395 => (CfgVal::MsgoutUbxTimTpSpi(x as u8), enc(0x20910181, x, 1)),
        396 => (CfgVal::MsgoutUbxTimTpUart1(x as u8), enc(0x2091017e, x, 1)),
        397 => (CfgVal::MsgoutUbxTimTpUart2(x as u8), enc(0x2091017f, x, 1)),
        398 => (CfgVal::MsgoutUbxTimTpUsb(x as u8), enc(0x20910180, x, 1)),
        399 => (CfgVal::MsgoutUbxTimVrfyI2c(x as u8), enc(0x20910092, x, 1)),
        400 => (CfgVal::MsgoutUbxTimVrfySpi(x as u8), enc(0x20910096, x, 1)),
        401 => (CfgVal::MsgoutUbxTimVrfyUart1(x as u8), enc(0x20910093, x, 1)),
        402 => (CfgVal::MsgoutUbxTimVrfyUart2(x as u8), enc(0x20910094, x, 1)),
        403 => (CfgVal::MsgoutUbxTimVrfyUsb(x as u8), enc(0x20910095, x, 1)),
        404 => (CfgVal::SignalGpsEna(x % 2 == 1), enc(0x1031001f, x % 2, 1)),
        405 => (CfgVal::SignalGpsL1caEna(x % 2 == 1), enc(0x10310001, x % 2, 1)),
        406 => (CfgVal::SignalGpsL2cEna(x % 2 == 1), enc(0x10310003, x % 2, 1)),
        407 => (CfgVal::SignalGalEna(x % 2 == 1), enc(0x10310021, x % 2, 1)),
        408 => (CfgVal::SignalGalE1Ena(x % 2 == 1), enc(0x10310007, x % 2, 1)),
        409 => (CfgVal::SignalGalE5bEna(x % 2 == 1), enc(0x1031000a, x % 2, 1)),
        410 => (CfgVal::SignalBdsEna(x % 2 == 1), enc(0x10310022, x % 2, 1)),
        411 => (CfgVal::SignalBdsB1Ena(x % 2 == 1), enc(0x1031000d, x % 2, 1)),
        412 => (CfgVal::SignalBdsB2Ena(x % 2 == 1), enc(0x1031000e, x % 2, 1)),
        413 => (CfgVal::SignalQzssEna(x % 2 == 1), enc(0x10310024, x % 2, 1)),
        414 => (CfgVal::SignalQzssL1caEna(x % 2 == 1), enc(0x10310012, x % 2, 1)),
        415 => (CfgVal::SignalQzssL2cEna(x % 2 == 1), enc(0x10310015, x % 2, 1)),
        416 => (CfgVal::SignalGloEna(x % 2 == 1), enc(0x10310025, x % 2, 1)),
        417 => (CfgVal::SignalGloL1Ena(x % 2 == 1), enc(0x10310018, x % 2, 1)),
        418 => (CfgVal::SignalGLoL2Ena(x % 2 == 1), enc(0x1031001a, x % 2, 1)),
        419 => (CfgVal::TpPulseDef(mk_TpPulse(x).0), enc(0x20050023, mk_TpPulse(x).1, 1)),
        420 => (CfgVal::TpPulseLengthDef(mk_TpPulseLength(x).0), enc(0x20050030, mk_TpPulseLength(x).1, 1)),
        421 => (CfgVal::TpAntCableDelay(x as i16), enc(0x30050001, x, 2)),
        422 => (CfgVal::TpPeriodTp1(x as u32), enc(0x40050002, x, 4)),
        423 => (CfgVal::TpPeriodLockTp1(x as u32), enc(0x40050003, x, 4)),
        424 => (CfgVal::TpFreqTp1(x as u32), enc(0x40050024, x, 4)),
        425 => (CfgVal::TpFreqLockTp1(x as u32), enc(0x40050025, x, 4)),
        426 => (CfgVal::TpLenTp1(x as u32), enc(0x40050004, x, 4)),
        427 => (CfgVal::TpLenLockTp1(x as u32), enc(0x40050005, x, 4)),
        428 => (CfgVal::TpTp1Ena(x % 2 == 1), enc(0x10050007, x % 2, 1)),
        429 => (CfgVal::TpSyncGnssTp1(x % 2 == 1), enc(0x10050008, x % 2, 1)),
        430 => (CfgVal::TpUseLockedTp1(x % 2 == 1), enc(0x10050009, x % 2, 1)),
        431 => (CfgVal::TpAlignToTowTp1(x % 2 == 1), enc(0x1005000a, x % 2, 1)),
        432 => (CfgVal::TpPolTp1(x % 2 == 1), enc(0x1005000b, x % 2, 1)),
        433 => (CfgVal::TpTimegridTp1(mk_AlignmentToReferenceTime(x).0), enc(0x2005000c, mk_AlignmentToReferenceTime(x).1, 1)),
        _ => unreachable!(),
    }
}
fn enc(k: u32, r: u64, n: usize) -> Vec<u8> {
    let mut v = k.to_le_bytes().to_vec();
    v.extend_from_slice(&r.to_le_bytes()[..n]);
    v
}
