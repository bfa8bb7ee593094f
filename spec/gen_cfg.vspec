%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
/// the documented codes of DataBits as a configuration value
pub open spec fn DataBits_item(e: DataBits) -> int { match e { DataBits::Eight => 0, DataBits::Seven => 1 } }
pub open spec fn DataBits_of_item(n: int) -> Option<DataBits> { if n == 0 { Some(DataBits::Eight) } else if n == 1 { Some(DataBits::Seven) } else { None } }
/// the documented codes of Parity as a configuration value
pub open spec fn Parity_item(e: Parity) -> int { match e { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2 } }
pub open spec fn Parity_of_item(n: int) -> Option<Parity> { if n == 0 { Some(Parity::None) } else if n == 1 { Some(Parity::Odd) } else if n == 2 { Some(Parity::Even) } else { None } }
/// the documented codes of StopBits as a configuration value
pub open spec fn StopBits_item(e: StopBits) -> int { match e { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3 } }
pub open spec fn StopBits_of_item(n: int) -> Option<StopBits> { if n == 0 { Some(StopBits::Half) } else if n == 1 { Some(StopBits::One) } else if n == 2 { Some(StopBits::OneHalf) } else if n == 3 { Some(StopBits::Two) } else { None } }
/// the documented codes of AlignmentToReferenceTime as a configuration value
pub open spec fn AlignmentToReferenceTime_item(e: AlignmentToReferenceTime) -> int { match e { AlignmentToReferenceTime::Utc => 0, AlignmentToReferenceTime::Gps => 1, AlignmentToReferenceTime::Glo => 2, AlignmentToReferenceTime::Bds => 3, AlignmentToReferenceTime::Gal => 4 } }
pub open spec fn AlignmentToReferenceTime_of_item(n: int) -> Option<AlignmentToReferenceTime> { if n == 0 { Some(AlignmentToReferenceTime::Utc) } else if n == 1 { Some(AlignmentToReferenceTime::Gps) } else if n == 2 { Some(AlignmentToReferenceTime::Glo) } else if n == 3 { Some(AlignmentToReferenceTime::Bds) } else if n == 4 { Some(AlignmentToReferenceTime::Gal) } else { None } }
/// the documented codes of TpPulse as a configuration value
pub open spec fn TpPulse_item(e: TpPulse) -> int { match e { TpPulse::Period => 0, TpPulse::Freq => 1 } }
pub open spec fn TpPulse_of_item(n: int) -> Option<TpPulse> { if n == 0 { Some(TpPulse::Period) } else if n == 1 { Some(TpPulse::Freq) } else { None } }
/// the documented codes of TpPulseLength as a configuration value
pub open spec fn TpPulseLength_item(e: TpPulseLength) -> int { match e { TpPulseLength::Ratio => 0, TpPulseLength::Length => 1 } }
pub open spec fn TpPulseLength_of_item(n: int) -> Option<TpPulseLength> { if n == 0 { Some(TpPulseLength::Ratio) } else if n == 1 { Some(TpPulseLength::Length) } else { None } }
/// the bytes an item stands for
pub open spec fn item(v: CfgVal) -> Seq<u8> { match v {
    CfgVal::Uart1Baudrate(x) => kv4(0x40520001, (x as int)),
    CfgVal::Uart1StopBits(x) => kv1(0x20520002, StopBits_item(x)),
    CfgVal::Uart1DataBits(x) => kv1(0x20520003, DataBits_item(x)),
    CfgVal::Uart1Parity(x) => kv1(0x20520004, Parity_item(x)),
    CfgVal::Uart1Enabled(x) => kv1(0x10520005, b2i(x)),
    CfgVal::Uart1InProtUbx(x) => kv1(0x10730001, b2i(x)),
    CfgVal::Uart1InProtNmea(x) => kv1(0x10730002, b2i(x)),
    CfgVal::Uart1InProtRtcm3x(x) => kv1(0x10730004, b2i(x)),
    CfgVal::Uart1OutProtUbx(x) => kv1(0x10740001, b2i(x)),
    CfgVal::Uart1OutProtNmea(x) => kv1(0x10740002, b2i(x)),
    CfgVal::Uart1OutProtRtcm3x(x) => kv1(0x10740004, b2i(x)),
    CfgVal::Uart2Baudrate(x) => kv4(0x40530001, (x as int)),
    CfgVal::Uart2StopBits(x) => kv1(0x20530002, StopBits_item(x)),
    CfgVal::Uart2DataBits(x) => kv1(0x20530003, DataBits_item(x)),
    CfgVal::Uart2Parity(x) => kv1(0x20530004, Parity_item(x)),
    CfgVal::Uart2Enabled(x) => kv1(0x10530005, b2i(x)),
    CfgVal::Uart2Remap(x) => kv1(0x10530006, b2i(x)),
    CfgVal::Uart2InProtUbx(x) => kv1(0x10750001, b2i(x)),
    CfgVal::Uart2InProtNmea(x) => kv1(0x10750002, b2i(x)),
    CfgVal::Uart2InProtRtcm3x(x) => kv1(0x10750004, b2i(x)),
    CfgVal::Uart2OutProtUbx(x) => kv1(0x10760001, b2i(x)),
    CfgVal::Uart2OutProtNmea(x) => kv1(0x10760002, b2i(x)),
    CfgVal::Uart2OutProtRtcm3x(x) => kv1(0x10760004, b2i(x)),
    CfgVal::UsbEnabled(x) => kv1(0x10650001, b2i(x)),
    CfgVal::UsbSelfpow(x) => kv1(0x10650002, b2i(x)),
    CfgVal::UsbVendorId(x) => kv2(0x3065000a, (x as int)),
    CfgVal::UsbProductId(x) => kv2(0x3065000b, (x as int)),
    CfgVal::UsbPower(x) => kv2(0x3065000c, (x as int)),
    CfgVal::UsbVendorStr0(x) => kv8(0x5065000d, (x as int)),
    CfgVal::UsbVendorStr1(x) => kv8(0x5065000e, (x as int)),
    CfgVal::UsbVendorStr2(x) => kv8(0x5065000f, (x as int)),
    CfgVal::UsbVendorStr3(x) => kv8(0x50650010, (x as int)),
    CfgVal::UsbProductStr0(x) => kv8(0x50650011, (x as int)),
    CfgVal::UsbProductStr1(x) => kv8(0x50650012, (x as int)),
    CfgVal::UsbProductStr2(x) => kv8(0x50650013, (x as int)),
    CfgVal::UsbProductStr3(x) => kv8(0x50650014, (x as int)),
    CfgVal::UsbSerialNoStr0(x) => kv8(0x50650015, (x as int)),
    CfgVal::UsbSerialNoStr1(x) => kv8(0x50650016, (x as int)),
    CfgVal::UsbSerialNoStr2(x) => kv8(0x50650017, (x as int)),
    CfgVal::UsbSerialNoStr3(x) => kv8(0x50650018, (x as int)),
    CfgVal::UsbinprotUbx(x) => kv1(0x10770001, b2i(x)),
    CfgVal::UsbinprotNmea(x) => kv1(0x10770002, b2i(x)),
    CfgVal::UsbinprotRtcm3X(x) => kv1(0x10770004, b2i(x)),
    CfgVal::UsbOutProtUbx(x) => kv1(0x10780001, b2i(x)),
    CfgVal::UsbOutProtNmea(x) => kv1(0x10780002, b2i(x)),
    CfgVal::UsbOutProtRtcm3x(x) => kv1(0x10780004, b2i(x)),
    CfgVal::InfmsgUbxI2c(x) => kv1(0x20920001, (x.b as int)),
    CfgVal::InfmsgUbxUart1(x) => kv1(0x20920002, (x.b as int)),
    CfgVal::InfmsgUbxUart2(x) => kv1(0x20920003, (x.b as int)),
    CfgVal::InfmsgUbxUsb(x) => kv1(0x20920004, (x.b as int)),
    CfgVal::InfmsgUbxSpi(x) => kv1(0x20920005, (x.b as int)),
    CfgVal::InfmsgNmeaI2c(x) => kv1(0x20920006, (x.b as int)),
    CfgVal::InfmsgNmeaUart1(x) => kv1(0x20920007, (x.b as int)),
    CfgVal::InfmsgNmeaUart2(x) => kv1(0x20920008, (x.b as int)),
    CfgVal::InfmsgNmeaUsb(x) => kv1(0x20920009, (x.b as int)),
    CfgVal::InfmsgNmeaSpi(x) => kv1(0x2092000a, (x.b as int)),
    CfgVal::RateMeas(x) => kv2(0x30210001, (x as int)),
    CfgVal::RateNav(x) => kv2(0x30210002, (x as int)),
    CfgVal::RateTimeref(x) => kv1(0x20210003, AlignmentToReferenceTime_item(x)),
    CfgVal::MsgoutNmeaIdDtmI2c(x) => kv1(0x209100a6, (x as int)),
    CfgVal::MsgoutNmeaIdDtmSpi(x) => kv1(0x209100aa, (x as int)),
    CfgVal::MsgoutNmeaIdDtmUart1(x) => kv1(0x209100a7, (x as int)),
    CfgVal::MsgoutNmeaIdDtmUart2(x) => kv1(0x209100a8, (x as int)),
    CfgVal::MsgoutNmeaIdDtmUsb(x) => kv1(0x209100a9, (x as int)),
    CfgVal::MsgoutNmeaIdGbsI2c(x) => kv1(0x209100dd, (x as int)),
    CfgVal::MsgoutNmeaIdGbsSpi(x) => kv1(0x209100e1, (x as int)),
    CfgVal::MsgoutNmeaIdGbsUart1(x) => kv1(0x209100de, (x as int)),
    CfgVal::MsgoutNmeaIdGbsUart2(x) => kv1(0x209100df, (x as int)),
    CfgVal::MsgoutNmeaIdGbsUsb(x) => kv1(0x209100e0, (x as int)),
    CfgVal::MsgoutNmeaIdGgaI2c(x) => kv1(0x209100ba, (x as int)),
    CfgVal::MsgoutNmeaIdGgaSpi(x) => kv1(0x209100be, (x as int)),
    CfgVal::MsgoutNmeaIdGgaUart1(x) => kv1(0x209100bb, (x as int)),
    CfgVal::MsgoutNmeaIdGgaUart2(x) => kv1(0x209100bc, (x as int)),
    CfgVal::MsgoutNmeaIdGgaUsb(x) => kv1(0x209100bd, (x as int)),
    CfgVal::MsgoutNmeaIdGllI2c(x) => kv1(0x209100c9, (x as int)),
    CfgVal::MsgoutNmeaIdGllSpi(x) => kv1(0x209100cd, (x as int)),
    CfgVal::MsgoutNmeaIdGllUart1(x) => kv1(0x209100ca, (x as int)),
    CfgVal::MsgoutNmeaIdGllUart2(x) => kv1(0x209100cb, (x as int)),
    CfgVal::MsgoutNmeaIdGllUsb(x) => kv1(0x209100cc, (x as int)),
    CfgVal::MsgoutNmeaIdGnsI2c(x) => kv1(0x209100b5, (x as int)),
    CfgVal::MsgoutNmeaIdGnsSpi(x) => kv1(0x209100b9, (x as int)),
    CfgVal::MsgoutNmeaIdGnsUart1(x) => kv1(0x209100b6, (x as int)),
    CfgVal::MsgoutNmeaIdGnsUart2(x) => kv1(0x209100b7, (x as int)),
    CfgVal::MsgoutNmeaIdGnsUsb(x) => kv1(0x209100b8, (x as int)),
    CfgVal::MsgoutNmeaIdGrsI2c(x) => kv1(0x209100ce, (x as int)),
    CfgVal::MsgoutNmeaIdGrsSpi(x) => kv1(0x209100d2, (x as int)),
    CfgVal::MsgoutNmeaIdGrsUart1(x) => kv1(0x209100cf, (x as int)),
    CfgVal::MsgoutNmeaIdGrsUart2(x) => kv1(0x209100d0, (x as int)),
    CfgVal::MsgoutNmeaIdGrsUsb(x) => kv1(0x209100d1, (x as int)),
    CfgVal::MsgoutNmeaIdGsaI2c(x) => kv1(0x209100bf, (x as int)),
    CfgVal::MsgoutNmeaIdGsaSpi(x) => kv1(0x209100c3, (x as int)),
    CfgVal::MsgoutNmeaIdGsaUart1(x) => kv1(0x209100c0, (x as int)),
    CfgVal::MsgoutNmeaIdGsaUart2(x) => kv1(0x209100c1, (x as int)),
    CfgVal::MsgoutNmeaIdGsaUsb(x) => kv1(0x209100c2, (x as int)),
    CfgVal::MsgoutNmeaIdGstI2c(x) => kv1(0x209100d3, (x as int)),
    CfgVal::MsgoutNmeaIdGstSpi(x) => kv1(0x209100d7, (x as int)),
    CfgVal::MsgoutNmeaIdGstUart1(x) => kv1(0x209100d4, (x as int)),
    CfgVal::MsgoutNmeaIdGstUart2(x) => kv1(0x209100d5, (x as int)),
    CfgVal::MsgoutNmeaIdGstUsb(x) => kv1(0x209100d6, (x as int)),
    CfgVal::MsgoutNmeaIdGsvI2c(x) => kv1(0x209100c4, (x as int)),
    CfgVal::MsgoutNmeaIdGsvSpi(x) => kv1(0x209100c8, (x as int)),
    CfgVal::MsgoutNmeaIdGsvUart1(x) => kv1(0x209100c5, (x as int)),
    CfgVal::MsgoutNmeaIdGsvUart2(x) => kv1(0x209100c6, (x as int)),
    CfgVal::MsgoutNmeaIdGsvUsb(x) => kv1(0x209100c7, (x as int)),
    CfgVal::MsgoutNmeaIdRmcI2c(x) => kv1(0x209100ab, (x as int)),
    CfgVal::MsgoutNmeaIdRmcSpi(x) => kv1(0x209100af, (x as int)),
    CfgVal::MsgoutNmeaIdRmcUart1(x) => kv1(0x209100ac, (x as int)),
    CfgVal::MsgoutNmeaIdRmcUart2(x) => kv1(0x209100ad, (x as int)),
    CfgVal::MsgoutNmeaIdRmcUsb(x) => kv1(0x209100ae, (x as int)),
    CfgVal::MsgoutNmeaIdVlwI2c(x) => kv1(0x209100e7, (x as int)),
    CfgVal::MsgoutNmeaIdVlwSpi(x) => kv1(0x209100eb, (x as int)),
    CfgVal::MsgoutNmeaIdVlwUart1(x) => kv1(0x209100e8, (x as int)),
    CfgVal::MsgoutNmeaIdVlwUart2(x) => kv1(0x209100e9, (x as int)),
    CfgVal::MsgoutNmeaIdVlwUsb(x) => kv1(0x209100ea, (x as int)),
    CfgVal::MsgoutNmeaIdVtgI2c(x) => kv1(0x209100b0, (x as int)),
    CfgVal::MsgoutNmeaIdVtgSpi(x) => kv1(0x209100b4, (x as int)),
    CfgVal::MsgoutNmeaIdVtgUart1(x) => kv1(0x209100b1, (x as int)),
    CfgVal::MsgoutNmeaIdVtgUart2(x) => kv1(0x209100b2, (x as int)),
    CfgVal::MsgoutNmeaIdVtgUsb(x) => kv1(0x209100b3, (x as int)),
    CfgVal::MsgoutNmeaIdZdaI2c(x) => kv1(0x209100d8, (x as int)),
    CfgVal::MsgoutNmeaIdZdaSpi(x) => kv1(0x209100dc, (x as int)),
    CfgVal::MsgoutNmeaIdZdaUart1(x) => kv1(0x209100d9, (x as int)),
    CfgVal::MsgoutNmeaIdZdaUart2(x) => kv1(0x209100da, (x as int)),
    CfgVal::MsgoutNmeaIdZdaUsb(x) => kv1(0x209100db, (x as int)),
    CfgVal::MsgoutPubxIdPolypI2c(x) => kv1(0x209100ec, (x as int)),
    CfgVal::MsgoutPubxIdPolypSpi(x) => kv1(0x209100f0, (x as int)),
    CfgVal::MsgoutPubxIdPolypUart1(x) => kv1(0x209100ed, (x as int)),
    CfgVal::MsgoutPubxIdPolypUart2(x) => kv1(0x209100ee, (x as int)),
    CfgVal::MsgoutPubxIdPolypUsb(x) => kv1(0x209100ef, (x as int)),
    CfgVal::MsgoutPubxIdPolysI2c(x) => kv1(0x209100f1, (x as int)),
    CfgVal::MsgoutPubxIdPolysSpi(x) => kv1(0x209100f5, (x as int)),
    CfgVal::MsgoutPubxIdPolysUart1(x) => kv1(0x209100f2, (x as int)),
    CfgVal::MsgoutPubxIdPolysUart2(x) => kv1(0x209100f3, (x as int)),
    CfgVal::MsgoutPubxIdPolysUsb(x) => kv1(0x209100f4, (x as int)),
    CfgVal::MsgoutPubxIdPolytI2c(x) => kv1(0x209100f6, (x as int)),
    CfgVal::MsgoutPubxIdPolytSpi(x) => kv1(0x209100fa, (x as int)),
    CfgVal::MsgoutPubxIdPolytUart1(x) => kv1(0x209100f7, (x as int)),
    CfgVal::MsgoutPubxIdPolytUart2(x) => kv1(0x209100f8, (x as int)),
    CfgVal::MsgoutPubxIdPolytUsb(x) => kv1(0x209100f9, (x as int)),
    CfgVal::MsgoutRtcm3xType1005I2c(x) => kv1(0x209102bd, (x as int)),
    CfgVal::MsgoutRtcm3xType1005Spi(x) => kv1(0x209102c1, (x as int)),
    CfgVal::MsgoutRtcm3xType1005Uart1(x) => kv1(0x209102be, (x as int)),
    CfgVal::MsgoutRtcm3xType1005Uart2(x) => kv1(0x209102bf, (x as int)),
    CfgVal::MsgoutRtcm3xType1005Usb(x) => kv1(0x209102c0, (x as int)),
    CfgVal::MsgoutRtcm3xType1074I2c(x) => kv1(0x2091035e, (x as int)),
    CfgVal::MsgoutRtcm3xType1074Spi(x) => kv1(0x20910362, (x as int)),
    CfgVal::MsgoutRtcm3xType1074Uart1(x) => kv1(0x2091035f, (x as int)),
    CfgVal::MsgoutRtcm3xType1074Uart2(x) => kv1(0x20910360, (x as int)),
    CfgVal::MsgoutRtcm3xType1074Usb(x) => kv1(0x20910361, (x as int)),
    CfgVal::MsgoutRtcm3xType1077I2c(x) => kv1(0x209102cc, (x as int)),
    CfgVal::MsgoutRtcm3xType1077Spi(x) => kv1(0x209102d0, (x as int)),
    CfgVal::MsgoutRtcm3xType1077Uart1(x) => kv1(0x209102cd, (x as int)),
    CfgVal::MsgoutRtcm3xType1077Uart2(x) => kv1(0x209102ce, (x as int)),
    CfgVal::MsgoutRtcm3xType1077Usb(x) => kv1(0x209102cf, (x as int)),
    CfgVal::MsgoutRtcm3xType1084I2c(x) => kv1(0x20910363, (x as int)),
    CfgVal::MsgoutRtcm3xType1084Spi(x) => kv1(0x20910367, (x as int)),
    CfgVal::MsgoutRtcm3xType1084Uart1(x) => kv1(0x20910364, (x as int)),
    CfgVal::MsgoutRtcm3xType1084Uart2(x) => kv1(0x20910365, (x as int)),
    CfgVal::MsgoutRtcm3xType1084Usb(x) => kv1(0x20910366, (x as int)),
    CfgVal::MsgoutRtcm3xType1087I2c(x) => kv1(0x209102d1, (x as int)),
    CfgVal::MsgoutRtcm3xType1087Spi(x) => kv1(0x209102d5, (x as int)),
    CfgVal::MsgoutRtcm3xType1087Uart1(x) => kv1(0x209102d2, (x as int)),
    CfgVal::MsgoutRtcm3xType1087Uart2(x) => kv1(0x209102d3, (x as int)),
    CfgVal::MsgoutRtcm3xType1087Usb(x) => kv1(0x209102d4, (x as int)),
    CfgVal::MsgoutRtcm3xType1094I2c(x) => kv1(0x20910368, (x as int)),
    CfgVal::MsgoutRtcm3xType1094Spi(x) => kv1(0x2091036c, (x as int)),
    CfgVal::MsgoutRtcm3xType1094Uart1(x) => kv1(0x20910369, (x as int)),
    CfgVal::MsgoutRtcm3xType1094Uart2(x) => kv1(0x2091036a, (x as int)),
    CfgVal::MsgoutRtcm3xType1094Usb(x) => kv1(0x2091036b, (x as int)),
    CfgVal::MsgoutRtcm3xType1097I2c(x) => kv1(0x20910318, (x as int)),
    CfgVal::MsgoutRtcm3xType1097Spi(x) => kv1(0x2091031c, (x as int)),
    CfgVal::MsgoutRtcm3xType1097Uart1(x) => kv1(0x20910319, (x as int)),
    CfgVal::MsgoutRtcm3xType1097Uart2(x) => kv1(0x2091031a, (x as int)),
    CfgVal::MsgoutRtcm3xType1097Usb(x) => kv1(0x2091031b, (x as int)),
    CfgVal::MsgoutRtcm3xType1124I2c(x) => kv1(0x2091036d, (x as int)),
    CfgVal::MsgoutRtcm3xType1124Spi(x) => kv1(0x20910371, (x as int)),
    CfgVal::MsgoutRtcm3xType1124Uart1(x) => kv1(0x2091036e, (x as int)),
    CfgVal::MsgoutRtcm3xType1124Uart2(x) => kv1(0x2091036f, (x as int)),
    CfgVal::MsgoutRtcm3xType1124Usb(x) => kv1(0x20910370, (x as int)),
    CfgVal::MsgoutRtcm3xType1127I2c(x) => kv1(0x209102d6, (x as int)),
    CfgVal::MsgoutRtcm3xType1127Spi(x) => kv1(0x209102da, (x as int)),
    CfgVal::MsgoutRtcm3xType1127Uart1(x) => kv1(0x209102d7, (x as int)),
    CfgVal::MsgoutRtcm3xType1127Uart2(x) => kv1(0x209102d8, (x as int)),
    CfgVal::MsgoutRtcm3xType1127Usb(x) => kv1(0x209102d9, (x as int)),
    CfgVal::MsgoutRtcm3xType1230I2c(x) => kv1(0x20910303, (x as int)),
    CfgVal::MsgoutRtcm3xType1230Spi(x) => kv1(0x20910307, (x as int)),
    CfgVal::MsgoutRtcm3xType1230Uart1(x) => kv1(0x20910304, (x as int)),
    CfgVal::MsgoutRtcm3xType1230Uart2(x) => kv1(0x20910305, (x as int)),
    CfgVal::MsgoutRtcm3xType1230Usb(x) => kv1(0x20910306, (x as int)),
    CfgVal::MsgoutUbxLogInfoI2c(x) => kv1(0x20910259, (x as int)),
    CfgVal::MsgoutUbxLogInfoSpi(x) => kv1(0x2091025d, (x as int)),
    CfgVal::MsgoutUbxLogInfoUart1(x) => kv1(0x2091025a, (x as int)),
    CfgVal::MsgoutUbxLogInfoUart2(x) => kv1(0x2091025b, (x as int)),
    CfgVal::MsgoutUbxLogInfoUsb(x) => kv1(0x2091025c, (x as int)),
    CfgVal::MsgoutUbxMonCommsI2c(x) => kv1(0x2091034f, (x as int)),
    CfgVal::MsgoutUbxMonCommsSpi(x) => kv1(0x20910353, (x as int)),
    CfgVal::MsgoutUbxMonCommsUart1(x) => kv1(0x20910350, (x as int)),
    CfgVal::MsgoutUbxMonCommsUart2(x) => kv1(0x20910351, (x as int)),
    CfgVal::MsgoutUbxMonCommsUsb(x) => kv1(0x20910352, (x as int)),
    CfgVal::MsgoutUbxMonHw2I2c(x) => kv1(0x209101b9, (x as int)),
    CfgVal::MsgoutUbxMonHw2Spi(x) => kv1(0x209101bd, (x as int)),
    CfgVal::MsgoutUbxMonHw2Uart1(x) => kv1(0x209101ba, (x as int)),
    CfgVal::MsgoutUbxMonHw2Uart2(x) => kv1(0x209101bb, (x as int)),
    CfgVal::MsgoutUbxMonHw2Usb(x) => kv1(0x209101bc, (x as int)),
    CfgVal::MsgoutUbxMonHw3I2c(x) => kv1(0x20910354, (x as int)),
    CfgVal::MsgoutUbxMonHw3Spi(x) => kv1(0x20910358, (x as int)),
    CfgVal::MsgoutUbxMonHw3Uart1(x) => kv1(0x20910355, (x as int)),
    CfgVal::MsgoutUbxMonHw3Uart2(x) => kv1(0x20910356, (x as int)),
    CfgVal::MsgoutUbxMonHw3Usb(x) => kv1(0x20910357, (x as int)),
    CfgVal::MsgoutUbxMonHwI2c(x) => kv1(0x209101b4, (x as int)),
    CfgVal::MsgoutUbxMonHwSpi(x) => kv1(0x209101b8, (x as int)),
    CfgVal::MsgoutUbxMonHwUart1(x) => kv1(0x209101b5, (x as int)),
    CfgVal::MsgoutUbxMonHwUart2(x) => kv1(0x209101b6, (x as int)),
    CfgVal::MsgoutUbxMonHwUsb(x) => kv1(0x209101b7, (x as int)),
    CfgVal::MsgoutUbxMonIoI2c(x) => kv1(0x209101a5, (x as int)),
    CfgVal::MsgoutUbxMonIoSpi(x) => kv1(0x209101a9, (x as int)),
    CfgVal::MsgoutUbxMonIoUart1(x) => kv1(0x209101a6, (x as int)),
    CfgVal::MsgoutUbxMonIoUart2(x) => kv1(0x209101a7, (x as int)),
    CfgVal::MsgoutUbxMonIoUsb(x) => kv1(0x209101a8, (x as int)),
    CfgVal::MsgoutUbxMonMsgPpI2c(x) => kv1(0x20910196, (x as int)),
    CfgVal::MsgoutUbxMonMsgPpSpi(x) => kv1(0x2091019a, (x as int)),
    CfgVal::MsgoutUbxMonMsgPpUart1(x) => kv1(0x20910197, (x as int)),
    CfgVal::MsgoutUbxMonMsgPpUart2(x) => kv1(0x20910198, (x as int)),
    CfgVal::MsgoutUbxMonMsgPpUsb(x) => kv1(0x20910199, (x as int)),
    CfgVal::MsgoutUbxMonRfI2c(x) => kv1(0x20910359, (x as int)),
    CfgVal::MsgoutUbxMonRfSpi(x) => kv1(0x2091035d, (x as int)),
    CfgVal::MsgoutUbxMonRfUart1(x) => kv1(0x2091035a, (x as int)),
    CfgVal::MsgoutUbxMonRfUart2(x) => kv1(0x2091035b, (x as int)),
    CfgVal::MsgoutUbxMonRfUsb(x) => kv1(0x2091035c, (x as int)),
    CfgVal::MsgoutUbxMonRxbufI2c(x) => kv1(0x209101a0, (x as int)),
    CfgVal::MsgoutUbxMonRxbufSpi(x) => kv1(0x209101a4, (x as int)),
    CfgVal::MsgoutUbxMonRxbufUart1(x) => kv1(0x209101a1, (x as int)),
    CfgVal::MsgoutUbxMonRxbufUart2(x) => kv1(0x209101a2, (x as int)),
    CfgVal::MsgoutUbxMonRxbufUsb(x) => kv1(0x209101a3, (x as int)),
    CfgVal::MsgoutUbxMonRxrI2c(x) => kv1(0x20910187, (x as int)),
    CfgVal::MsgoutUbxMonRxrSpi(x) => kv1(0x2091018b, (x as int)),
    CfgVal::MsgoutUbxMonRxrUart1(x) => kv1(0x20910188, (x as int)),
    CfgVal::MsgoutUbxMonRxrUart2(x) => kv1(0x20910189, (x as int)),
    CfgVal::MsgoutUbxMonRxrUsb(x) => kv1(0x2091018a, (x as int)),
    CfgVal::MsgoutUbxMonTxbufI2c(x) => kv1(0x2091019b, (x as int)),
    CfgVal::MsgoutUbxMonTxbufSpi(x) => kv1(0x2091019f, (x as int)),
    CfgVal::MsgoutUbxMonTxbufUart1(x) => kv1(0x2091019c, (x as int)),
    CfgVal::MsgoutUbxMonTxbufUart2(x) => kv1(0x2091019d, (x as int)),
    CfgVal::MsgoutUbxMonTxbufUsb(x) => kv1(0x2091019e, (x as int)),
    CfgVal::MsgoutUbxNavClockI2c(x) => kv1(0x20910065, (x as int)),
    CfgVal::MsgoutUbxNavClockSpi(x) => kv1(0x20910069, (x as int)),
    CfgVal::MsgoutUbxNavClockUart1(x) => kv1(0x20910066, (x as int)),
    CfgVal::MsgoutUbxNavClockUart2(x) => kv1(0x20910067, (x as int)),
    CfgVal::MsgoutUbxNavClockUsb(x) => kv1(0x20910068, (x as int)),
    CfgVal::MsgoutUbxNavDopI2c(x) => kv1(0x20910038, (x as int)),
    CfgVal::MsgoutUbxNavDopSpi(x) => kv1(0x2091003c, (x as int)),
    CfgVal::MsgoutUbxNavDopUart1(x) => kv1(0x20910039, (x as int)),
    CfgVal::MsgoutUbxNavDopUart2(x) => kv1(0x2091003a, (x as int)),
    CfgVal::MsgoutUbxNavDopUsb(x) => kv1(0x2091003b, (x as int)),
    CfgVal::MsgoutUbxNavEoeI2c(x) => kv1(0x2091015f, (x as int)),
    CfgVal::MsgoutUbxNavEoeSpi(x) => kv1(0x20910163, (x as int)),
    CfgVal::MsgoutUbxNavEoeUart1(x) => kv1(0x20910160, (x as int)),
    CfgVal::MsgoutUbxNavEoeUart2(x) => kv1(0x20910161, (x as int)),
    CfgVal::MsgoutUbxNavEoeUsb(x) => kv1(0x20910162, (x as int)),
    CfgVal::MsgoutUbxNavGeofenceI2c(x) => kv1(0x209100a1, (x as int)),
    CfgVal::MsgoutUbxNavGeofenceSpi(x) => kv1(0x209100a5, (x as int)),
    CfgVal::MsgoutUbxNavGeofenceUart1(x) => kv1(0x209100a2, (x as int)),
    CfgVal::MsgoutUbxNavGeofenceUart2(x) => kv1(0x209100a3, (x as int)),
    CfgVal::MsgoutUbxNavGeofenceUsb(x) => kv1(0x209100a4, (x as int)),
    CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => kv1(0x2091002e, (x as int)),
    CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => kv1(0x20910032, (x as int)),
    CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => kv1(0x2091002f, (x as int)),
    CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => kv1(0x20910030, (x as int)),
    CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => kv1(0x20910031, (x as int)),
    CfgVal::MsgoutUbxNavHpPosllhI2c(x) => kv1(0x20910033, (x as int)),
    CfgVal::MsgoutUbxNavHpPosllhSpi(x) => kv1(0x20910037, (x as int)),
    CfgVal::MsgoutUbxNavHpPosllhUart1(x) => kv1(0x20910034, (x as int)),
    CfgVal::MsgoutUbxNavHpPosllhUart2(x) => kv1(0x20910035, (x as int)),
    CfgVal::MsgoutUbxNavHpPosllhUsb(x) => kv1(0x20910036, (x as int)),
    CfgVal::MsgoutUbxNavOdoI2c(x) => kv1(0x2091007e, (x as int)),
    CfgVal::MsgoutUbxNavOdoSpi(x) => kv1(0x20910082, (x as int)),
    CfgVal::MsgoutUbxNavOdoUart1(x) => kv1(0x2091007f, (x as int)),
    CfgVal::MsgoutUbxNavOdoUart2(x) => kv1(0x20910080, (x as int)),
    CfgVal::MsgoutUbxNavOdoUsb(x) => kv1(0x20910081, (x as int)),
    CfgVal::MsgoutUbxNavOrbI2c(x) => kv1(0x20910010, (x as int)),
    CfgVal::MsgoutUbxNavOrbSpi(x) => kv1(0x20910014, (x as int)),
    CfgVal::MsgoutUbxNavOrbUart1(x) => kv1(0x20910011, (x as int)),
    CfgVal::MsgoutUbxNavOrbUart2(x) => kv1(0x20910012, (x as int)),
    CfgVal::MsgoutUbxNavOrbUsb(x) => kv1(0x20910013, (x as int)),
    CfgVal::MsgoutUbxNavPosEcefI2c(x) => kv1(0x20910024, (x as int)),
    CfgVal::MsgoutUbxNavPosEcefSpi(x) => kv1(0x20910028, (x as int)),
    CfgVal::MsgoutUbxNavPosEcefUart1(x) => kv1(0x20910025, (x as int)),
    CfgVal::MsgoutUbxNavPosEcefUart2(x) => kv1(0x20910026, (x as int)),
    CfgVal::MsgoutUbxNavPosEcefUsb(x) => kv1(0x20910027, (x as int)),
    CfgVal::MsgoutUbxNavPosLlhI2c(x) => kv1(0x20910029, (x as int)),
    CfgVal::MsgoutUbxNavPosLlhSpi(x) => kv1(0x2091002d, (x as int)),
    CfgVal::MsgoutUbxNavPosLlhUart1(x) => kv1(0x2091002a, (x as int)),
    CfgVal::MsgoutUbxNavPosLlhUart2(x) => kv1(0x2091002b, (x as int)),
    CfgVal::MsgoutUbxNavPosLlhUsb(x) => kv1(0x2091002c, (x as int)),
    CfgVal::MsgoutUbxNavPvtI2c(x) => kv1(0x20910006, (x as int)),
    CfgVal::MsgoutUbxNavPvtSpi(x) => kv1(0x2091000a, (x as int)),
    CfgVal::MsgoutUbxNavPvtUart1(x) => kv1(0x20910007, (x as int)),
    CfgVal::MsgoutUbxNavPvtUart2(x) => kv1(0x20910008, (x as int)),
    CfgVal::MsgoutUbxNavPvtUsb(x) => kv1(0x20910009, (x as int)),
    CfgVal::MsgoutUbxNavRelposnedI2c(x) => kv1(0x2091008d, (x as int)),
    CfgVal::MsgoutUbxNavRelposnedSpi(x) => kv1(0x20910091, (x as int)),
    CfgVal::MsgoutUbxNavRelposnedUart1(x) => kv1(0x2091008e, (x as int)),
    CfgVal::MsgoutUbxNavRelposnedUart2(x) => kv1(0x2091008f, (x as int)),
    CfgVal::MsgoutUbxNavRelposnedUsb(x) => kv1(0x20910090, (x as int)),
    CfgVal::MsgoutUbxNavSatI2c(x) => kv1(0x20910015, (x as int)),
    CfgVal::MsgoutUbxNavSatSpi(x) => kv1(0x20910019, (x as int)),
    CfgVal::MsgoutUbxNavSatUart1(x) => kv1(0x20910016, (x as int)),
    CfgVal::MsgoutUbxNavSatUart2(x) => kv1(0x20910017, (x as int)),
    CfgVal::MsgoutUbxNavSatUsb(x) => kv1(0x20910018, (x as int)),
    CfgVal::MsgoutUbxNavSigI2c(x) => kv1(0x20910345, (x as int)),
    CfgVal::MsgoutUbxNavSigSpi(x) => kv1(0x20910349, (x as int)),
    CfgVal::MsgoutUbxNavSigUart1(x) => kv1(0x20910346, (x as int)),
    CfgVal::MsgoutUbxNavSigUart2(x) => kv1(0x20910347, (x as int)),
    CfgVal::MsgoutUbxNavSigUsb(x) => kv1(0x20910348, (x as int)),
    CfgVal::MsgoutUbxNavStatusI2c(x) => kv1(0x2091001a, (x as int)),
    CfgVal::MsgoutUbxNavStatusSpi(x) => kv1(0x2091001e, (x as int)),
    CfgVal::MsgoutUbxNavStatusUart1(x) => kv1(0x2091001b, (x as int)),
    CfgVal::MsgoutUbxNavStatusUart2(x) => kv1(0x2091001c, (x as int)),
    CfgVal::MsgoutUbxNavStatusUsb(x) => kv1(0x2091001d, (x as int)),
    CfgVal::MsgoutUbxNavSvinI2c(x) => kv1(0x20910088, (x as int)),
    CfgVal::MsgoutUbxNavSvinSpi(x) => kv1(0x2091008c, (x as int)),
    CfgVal::MsgoutUbxNavSvinUart1(x) => kv1(0x20910089, (x as int)),
    CfgVal::MsgoutUbxNavSvinUart2(x) => kv1(0x2091008a, (x as int)),
    CfgVal::MsgoutUbxNavSvinUsb(x) => kv1(0x2091008b, (x as int)),
    CfgVal::MsgoutUbxNavTimeBdsI2c(x) => kv1(0x20910051, (x as int)),
    CfgVal::MsgoutUbxNavTimeBdsSpi(x) => kv1(0x20910055, (x as int)),
    CfgVal::MsgoutUbxNavTimeBdsUart1(x) => kv1(0x20910052, (x as int)),
    CfgVal::MsgoutUbxNavTimeBdsUart2(x) => kv1(0x20910053, (x as int)),
    CfgVal::MsgoutUbxNavTimeBdsUsb(x) => kv1(0x20910054, (x as int)),
    CfgVal::MsgoutUbxNavTimeGalI2c(x) => kv1(0x20910056, (x as int)),
    CfgVal::MsgoutUbxNavTimeGalSpi(x) => kv1(0x2091005a, (x as int)),
    CfgVal::MsgoutUbxNavTimeGalUart1(x) => kv1(0x20910057, (x as int)),
    CfgVal::MsgoutUbxNavTimeGalUart2(x) => kv1(0x20910058, (x as int)),
    CfgVal::MsgoutUbxNavTimeGalUsb(x) => kv1(0x20910059, (x as int)),
    CfgVal::MsgoutUbxNavTimeGloI2c(x) => kv1(0x2091004c, (x as int)),
    CfgVal::MsgoutUbxNavTimeGloSpi(x) => kv1(0x20910050, (x as int)),
    CfgVal::MsgoutUbxNavTimeGloUart1(x) => kv1(0x2091004d, (x as int)),
    CfgVal::MsgoutUbxNavTimeGloUart2(x) => kv1(0x2091004e, (x as int)),
    CfgVal::MsgoutUbxNavTimeGloUsb(x) => kv1(0x2091004f, (x as int)),
    CfgVal::MsgoutUbxNavTimeGpsI2c(x) => kv1(0x20910047, (x as int)),
    CfgVal::MsgoutUbxNavTimeGpsSpi(x) => kv1(0x2091004b, (x as int)),
    CfgVal::MsgoutUbxNavTimeGpsUart1(x) => kv1(0x20910048, (x as int)),
    CfgVal::MsgoutUbxNavTimeGpsUart2(x) => kv1(0x20910049, (x as int)),
    CfgVal::MsgoutUbxNavTimeGpsUsb(x) => kv1(0x2091004a, (x as int)),
    CfgVal::MsgoutUbxNavTimeLsI2c(x) => kv1(0x20910060, (x as int)),
    CfgVal::MsgoutUbxNavTimeLsSpi(x) => kv1(0x20910064, (x as int)),
    CfgVal::MsgoutUbxNavTimeLsUart1(x) => kv1(0x20910061, (x as int)),
    CfgVal::MsgoutUbxNavTimeLsUart2(x) => kv1(0x20910062, (x as int)),
    CfgVal::MsgoutUbxNavTimeLsUsb(x) => kv1(0x20910063, (x as int)),
    CfgVal::MsgoutUbxNavTimeUtcI2c(x) => kv1(0x2091005b, (x as int)),
    CfgVal::MsgoutUbxNavTimeUtcSpi(x) => kv1(0x2091005f, (x as int)),
    CfgVal::MsgoutUbxNavTimeUtcUart1(x) => kv1(0x2091005c, (x as int)),
    CfgVal::MsgoutUbxNavTimeUtcUart2(x) => kv1(0x2091005d, (x as int)),
    CfgVal::MsgoutUbxNavTimeUtcUsb(x) => kv1(0x2091005e, (x as int)),
    CfgVal::MsgoutUbxNavVelEcefI2c(x) => kv1(0x2091003d, (x as int)),
    CfgVal::MsgoutUbxNavVelEcefSpi(x) => kv1(0x20910041, (x as int)),
    CfgVal::MsgoutUbxNavVelEcefUart1(x) => kv1(0x2091003e, (x as int)),
    CfgVal::MsgoutUbxNavVelEcefUart2(x) => kv1(0x2091003f, (x as int)),
    CfgVal::MsgoutUbxNavVelEcefUsb(x) => kv1(0x20910040, (x as int)),
    CfgVal::MsgoutUbxNavVelNedI2c(x) => kv1(0x20910042, (x as int)),
    CfgVal::MsgoutUbxNavVelNedSpi(x) => kv1(0x20910046, (x as int)),
    CfgVal::MsgoutUbxNavVelNedUart1(x) => kv1(0x20910043, (x as int)),
    CfgVal::MsgoutUbxNavVelNedUart2(x) => kv1(0x20910044, (x as int)),
    CfgVal::MsgoutUbxNavVelNedUsb(x) => kv1(0x20910045, (x as int)),
    CfgVal::MsgoutUbxRxmMeasxI2c(x) => kv1(0x20910204, (x as int)),
    CfgVal::MsgoutUbxRxmMeasxSpi(x) => kv1(0x20910208, (x as int)),
    CfgVal::MsgoutUbxRxmMeasxUart1(x) => kv1(0x20910205, (x as int)),
    CfgVal::MsgoutUbxRxmMeasxUart2(x) => kv1(0x20910206, (x as int)),
    CfgVal::MsgoutUbxRxmMeasxUsb(x) => kv1(0x20910207, (x as int)),
    CfgVal::MsgoutUbxRxmRawxI2c(x) => kv1(0x209102a4, (x as int)),
    CfgVal::MsgoutUbxRxmRawxSpi(x) => kv1(0x209102a8, (x as int)),
    CfgVal::MsgoutUbxRxmRawxUart1(x) => kv1(0x209102a5, (x as int)),
    CfgVal::MsgoutUbxRxmRawxUart2(x) => kv1(0x209102a6, (x as int)),
    CfgVal::MsgoutUbxRxmRawxUsb(x) => kv1(0x209102a7, (x as int)),
    CfgVal::MsgoutUbxRxmRlmI2c(x) => kv1(0x2091025e, (x as int)),
    CfgVal::MsgoutUbxRxmRlmSpi(x) => kv1(0x20910262, (x as int)),
    CfgVal::MsgoutUbxRxmRlmUart1(x) => kv1(0x2091025f, (x as int)),
    CfgVal::MsgoutUbxRxmRlmUart2(x) => kv1(0x20910260, (x as int)),
    CfgVal::MsgoutUbxRxmRlmUsb(x) => kv1(0x20910261, (x as int)),
    CfgVal::MsgoutUbxRxmRtcmI2c(x) => kv1(0x20910268, (x as int)),
    CfgVal::MsgoutUbxRxmRtcmSpi(x) => kv1(0x2091026c, (x as int)),
    CfgVal::MsgoutUbxRxmRtcmUart1(x) => kv1(0x20910269, (x as int)),
    CfgVal::MsgoutUbxRxmRtcmUart2(x) => kv1(0x2091026a, (x as int)),
    CfgVal::MsgoutUbxRxmRtcmUsb(x) => kv1(0x2091026b, (x as int)),
    CfgVal::MsgoutUbxRxmSfrbxI2c(x) => kv1(0x20910231, (x as int)),
    CfgVal::MsgoutUbxRxmSfrbxSpi(x) => kv1(0x20910235, (x as int)),
    CfgVal::MsgoutUbxRxmSfrbxUart1(x) => kv1(0x20910232, (x as int)),
    CfgVal::MsgoutUbxRxmSfrbxUart2(x) => kv1(0x20910233, (x as int)),
    CfgVal::MsgoutUbxRxmSfrbxUsb(x) => kv1(0x20910234, (x as int)),
    CfgVal::MsgoutUbxTimTm2I2c(x) => kv1(0x20910178, (x as int)),
    CfgVal::MsgoutUbxTimTm2Spi(x) => kv1(0x2091017c, (x as int)),
    CfgVal::MsgoutUbxTimTm2Uart1(x) => kv1(0x20910179, (x as int)),
    CfgVal::MsgoutUbxTimTm2Uart2(x) => kv1(0x2091017a, (x as int)),
    CfgVal::MsgoutUbxTimTm2Usb(x) => kv1(0x2091017b, (x as int)),
    CfgVal::MsgoutUbxTimTpI2c(x) => kv1(0x2091017d, (x as int)),
    CfgVal::MsgoutUbxTimTpSpi(x) => kv1(0x20910181, (x as int)),
    CfgVal::MsgoutUbxTimTpUart1(x) => kv1(0x2091017e, (x as int)),
    CfgVal::MsgoutUbxTimTpUart2(x) => kv1(0x2091017f, (x as int)),
    CfgVal::MsgoutUbxTimTpUsb(x) => kv1(0x20910180, (x as int)),
    CfgVal::MsgoutUbxTimVrfyI2c(x) => kv1(0x20910092, (x as int)),
    CfgVal::MsgoutUbxTimVrfySpi(x) => kv1(0x20910096, (x as int)),
    CfgVal::MsgoutUbxTimVrfyUart1(x) => kv1(0x20910093, (x as int)),
    CfgVal::MsgoutUbxTimVrfyUart2(x) => kv1(0x20910094, (x as int)),
    CfgVal::MsgoutUbxTimVrfyUsb(x) => kv1(0x20910095, (x as int)),
    CfgVal::SignalGpsEna(x) => kv1(0x1031001f, b2i(x)),
    CfgVal::SignalGpsL1caEna(x) => kv1(0x10310001, b2i(x)),
    CfgVal::SignalGpsL2cEna(x) => kv1(0x10310003, b2i(x)),
    CfgVal::SignalGalEna(x) => kv1(0x10310021, b2i(x)),
    CfgVal::SignalGalE1Ena(x) => kv1(0x10310007, b2i(x)),
    CfgVal::SignalGalE5bEna(x) => kv1(0x1031000a, b2i(x)),
    CfgVal::SignalBdsEna(x) => kv1(0x10310022, b2i(x)),
    CfgVal::SignalBdsB1Ena(x) => kv1(0x1031000d, b2i(x)),
    CfgVal::SignalBdsB2Ena(x) => kv1(0x1031000e, b2i(x)),
    CfgVal::SignalQzssEna(x) => kv1(0x10310024, b2i(x)),
    CfgVal::SignalQzssL1caEna(x) => kv1(0x10310012, b2i(x)),
    CfgVal::SignalQzssL2cEna(x) => kv1(0x10310015, b2i(x)),
    CfgVal::SignalGloEna(x) => kv1(0x10310025, b2i(x)),
    CfgVal::SignalGloL1Ena(x) => kv1(0x10310018, b2i(x)),
    CfgVal::SignalGLoL2Ena(x) => kv1(0x1031001a, b2i(x)),
    CfgVal::TpPulseDef(x) => kv1(0x20050023, TpPulse_item(x)),
    CfgVal::TpPulseLengthDef(x) => kv1(0x20050030, TpPulseLength_item(x)),
    CfgVal::TpAntCableDelay(x) => kv2(0x30050001, us(x as int, 0x8000)),
    CfgVal::TpPeriodTp1(x) => kv4(0x40050002, (x as int)),
    CfgVal::TpPeriodLockTp1(x) => kv4(0x40050003, (x as int)),
    CfgVal::TpFreqTp1(x) => kv4(0x40050024, (x as int)),
    CfgVal::TpFreqLockTp1(x) => kv4(0x40050025, (x as int)),
    CfgVal::TpLenTp1(x) => kv4(0x40050004, (x as int)),
    CfgVal::TpLenLockTp1(x) => kv4(0x40050005, (x as int)),
    CfgVal::TpTp1Ena(x) => kv1(0x10050007, b2i(x)),
    CfgVal::TpSyncGnssTp1(x) => kv1(0x10050008, b2i(x)),
    CfgVal::TpUseLockedTp1(x) => kv1(0x10050009, b2i(x)),
    CfgVal::TpAlignToTowTp1(x) => kv1(0x1005000a, b2i(x)),
    CfgVal::TpPolTp1(x) => kv1(0x1005000b, b2i(x)),
    CfgVal::TpTimegridTp1(x) => kv1(0x2005000c, AlignmentToReferenceTime_item(x)),
} }
pub open spec fn val_AlignmentToReferenceTime(s: Seq<u8>) -> Option<AlignmentToReferenceTime> { if s.len() < 5 { None } else { AlignmentToReferenceTime_of_item(s[4] as int) } }
pub open spec fn val_CfgInfMask(s: Seq<u8>) -> Option<CfgInfMask> { if s.len() < 5 { None } else { Some(CfgInfMask { b: (s[4] as int) as u8 }) } }
pub open spec fn val_DataBits(s: Seq<u8>) -> Option<DataBits> { if s.len() < 5 { None } else { DataBits_of_item(s[4] as int) } }
pub open spec fn val_Parity(s: Seq<u8>) -> Option<Parity> { if s.len() < 5 { None } else { Parity_of_item(s[4] as int) } }
pub open spec fn val_StopBits(s: Seq<u8>) -> Option<StopBits> { if s.len() < 5 { None } else { StopBits_of_item(s[4] as int) } }
pub open spec fn val_TpPulse(s: Seq<u8>) -> Option<TpPulse> { if s.len() < 5 { None } else { TpPulse_of_item(s[4] as int) } }
pub open spec fn val_TpPulseLength(s: Seq<u8>) -> Option<TpPulseLength> { if s.len() < 5 { None } else { TpPulseLength_of_item(s[4] as int) } }
pub open spec fn val_bool(s: Seq<u8>) -> Option<bool> { if s.len() < 5 { None } else { if s[4] as int == 0 { Some(false) } else if s[4] as int == 1 { Some(true) } else { None } } }
pub open spec fn val_i16(s: Seq<u8>) -> Option<i16> { if s.len() < 6 { None } else { Some(sg(le2(s, 4), 0x8000) as i16) } }
pub open spec fn val_u16(s: Seq<u8>) -> Option<u16> { if s.len() < 6 { None } else { Some((le2(s, 4)) as u16) } }
pub open spec fn val_u32(s: Seq<u8>) -> Option<u32> { if s.len() < 8 { None } else { Some((le4(s, 4)) as u32) } }
pub open spec fn val_u64(s: Seq<u8>) -> Option<u64> { if s.len() < 12 { None } else { Some((le8(s, 4)) as u64) } }
pub open spec fn val_u8(s: Seq<u8>) -> Option<u8> { if s.len() < 5 { None } else { Some((s[4] as int) as u8) } }
/// the item at the start of `s`, if there is one (the key is looked up by bisection)
pub open spec fn item_at(s: Seq<u8>) -> Option<CfgVal> { let k = le4(s, 0);
if k < 0x209100d7 {
if k < 0x20910047 {
if k < 0x20910007 {
if k < 0x10730004 {
if k < 0x10310018 {
if k < 0x10310003 {
if k < 0x1005000a {
if k < 0x10050008 {
if k != 0x10050007 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::TpTp1Ena(x)), None => None } }
} else {
if k < 0x10050009 {
if k != 0x10050008 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::TpSyncGnssTp1(x)), None => None } }
} else {
if k != 0x10050009 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::TpUseLockedTp1(x)), None => None } }
}
}
} else {
if k < 0x1005000b {
if k != 0x1005000a { None } else { match val_bool(s) { Some(x) => Some(CfgVal::TpAlignToTowTp1(x)), None => None } }
} else {
if k < 0x10310001 {
if k != 0x1005000b { None } else { match val_bool(s) { Some(x) => Some(CfgVal::TpPolTp1(x)), None => None } }
} else {
if k != 0x10310001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGpsL1caEna(x)), None => None } }
}
}
}
} else {
if k < 0x1031000d {
if k < 0x10310007 {
if k != 0x10310003 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGpsL2cEna(x)), None => None } }
} else {
if k < 0x1031000a {
if k != 0x10310007 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGalE1Ena(x)), None => None } }
} else {
if k != 0x1031000a { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGalE5bEna(x)), None => None } }
}
}
} else {
if k < 0x10310012 {
if k < 0x1031000e {
if k != 0x1031000d { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalBdsB1Ena(x)), None => None } }
} else {
if k != 0x1031000e { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalBdsB2Ena(x)), None => None } }
}
} else {
if k < 0x10310015 {
if k != 0x10310012 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalQzssL1caEna(x)), None => None } }
} else {
if k != 0x10310015 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalQzssL2cEna(x)), None => None } }
}
}
}
}
} else {
if k < 0x10520005 {
if k < 0x10310021 {
if k < 0x1031001a {
if k != 0x10310018 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGloL1Ena(x)), None => None } }
} else {
if k < 0x1031001f {
if k != 0x1031001a { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGLoL2Ena(x)), None => None } }
} else {
if k != 0x1031001f { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGpsEna(x)), None => None } }
}
}
} else {
if k < 0x10310024 {
if k < 0x10310022 {
if k != 0x10310021 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGalEna(x)), None => None } }
} else {
if k != 0x10310022 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalBdsEna(x)), None => None } }
}
} else {
if k < 0x10310025 {
if k != 0x10310024 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalQzssEna(x)), None => None } }
} else {
if k != 0x10310025 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::SignalGloEna(x)), None => None } }
}
}
}
} else {
if k < 0x10650001 {
if k < 0x10530005 {
if k != 0x10520005 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1Enabled(x)), None => None } }
} else {
if k < 0x10530006 {
if k != 0x10530005 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2Enabled(x)), None => None } }
} else {
if k != 0x10530006 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2Remap(x)), None => None } }
}
}
} else {
if k < 0x10730001 {
if k < 0x10650002 {
if k != 0x10650001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbEnabled(x)), None => None } }
} else {
if k != 0x10650002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbSelfpow(x)), None => None } }
}
} else {
if k < 0x10730002 {
if k != 0x10730001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1InProtUbx(x)), None => None } }
} else {
if k != 0x10730002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1InProtNmea(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x10780001 {
if k < 0x10750004 {
if k < 0x10740004 {
if k < 0x10740001 {
if k != 0x10730004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1InProtRtcm3x(x)), None => None } }
} else {
if k < 0x10740002 {
if k != 0x10740001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1OutProtUbx(x)), None => None } }
} else {
if k != 0x10740002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1OutProtNmea(x)), None => None } }
}
}
} else {
if k < 0x10750001 {
if k != 0x10740004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart1OutProtRtcm3x(x)), None => None } }
} else {
if k < 0x10750002 {
if k != 0x10750001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2InProtUbx(x)), None => None } }
} else {
if k != 0x10750002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2InProtNmea(x)), None => None } }
}
}
}
} else {
if k < 0x10760004 {
if k < 0x10760001 {
if k != 0x10750004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2InProtRtcm3x(x)), None => None } }
} else {
if k < 0x10760002 {
if k != 0x10760001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2OutProtUbx(x)), None => None } }
} else {
if k != 0x10760002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2OutProtNmea(x)), None => None } }
}
}
} else {
if k < 0x10770002 {
if k < 0x10770001 {
if k != 0x10760004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::Uart2OutProtRtcm3x(x)), None => None } }
} else {
if k != 0x10770001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbinprotUbx(x)), None => None } }
}
} else {
if k < 0x10770004 {
if k != 0x10770002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbinprotNmea(x)), None => None } }
} else {
if k != 0x10770004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbinprotRtcm3X(x)), None => None } }
}
}
}
}
} else {
if k < 0x20520002 {
if k < 0x2005000c {
if k < 0x10780002 {
if k != 0x10780001 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbOutProtUbx(x)), None => None } }
} else {
if k < 0x10780004 {
if k != 0x10780002 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbOutProtNmea(x)), None => None } }
} else {
if k != 0x10780004 { None } else { match val_bool(s) { Some(x) => Some(CfgVal::UsbOutProtRtcm3x(x)), None => None } }
}
}
} else {
if k < 0x20050030 {
if k < 0x20050023 {
if k != 0x2005000c { None } else { match val_AlignmentToReferenceTime(s) { Some(x) => Some(CfgVal::TpTimegridTp1(x)), None => None } }
} else {
if k != 0x20050023 { None } else { match val_TpPulse(s) { Some(x) => Some(CfgVal::TpPulseDef(x)), None => None } }
}
} else {
if k < 0x20210003 {
if k != 0x20050030 { None } else { match val_TpPulseLength(s) { Some(x) => Some(CfgVal::TpPulseLengthDef(x)), None => None } }
} else {
if k != 0x20210003 { None } else { match val_AlignmentToReferenceTime(s) { Some(x) => Some(CfgVal::RateTimeref(x)), None => None } }
}
}
}
} else {
if k < 0x20530002 {
if k < 0x20520003 {
if k != 0x20520002 { None } else { match val_StopBits(s) { Some(x) => Some(CfgVal::Uart1StopBits(x)), None => None } }
} else {
if k < 0x20520004 {
if k != 0x20520003 { None } else { match val_DataBits(s) { Some(x) => Some(CfgVal::Uart1DataBits(x)), None => None } }
} else {
if k != 0x20520004 { None } else { match val_Parity(s) { Some(x) => Some(CfgVal::Uart1Parity(x)), None => None } }
}
}
} else {
if k < 0x20530004 {
if k < 0x20530003 {
if k != 0x20530002 { None } else { match val_StopBits(s) { Some(x) => Some(CfgVal::Uart2StopBits(x)), None => None } }
} else {
if k != 0x20530003 { None } else { match val_DataBits(s) { Some(x) => Some(CfgVal::Uart2DataBits(x)), None => None } }
}
} else {
if k < 0x20910006 {
if k != 0x20530004 { None } else { match val_Parity(s) { Some(x) => Some(CfgVal::Uart2Parity(x)), None => None } }
} else {
if k != 0x20910006 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPvtI2c(x)), None => None } }
}
}
}
}
}
}
} else {
if k < 0x2091002c {
if k < 0x20910019 {
if k < 0x20910012 {
if k < 0x2091000a {
if k < 0x20910008 {
if k != 0x20910007 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPvtUart1(x)), None => None } }
} else {
if k < 0x20910009 {
if k != 0x20910008 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPvtUart2(x)), None => None } }
} else {
if k != 0x20910009 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPvtUsb(x)), None => None } }
}
}
} else {
if k < 0x20910010 {
if k != 0x2091000a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPvtSpi(x)), None => None } }
} else {
if k < 0x20910011 {
if k != 0x20910010 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOrbI2c(x)), None => None } }
} else {
if k != 0x20910011 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOrbUart1(x)), None => None } }
}
}
}
} else {
if k < 0x20910015 {
if k < 0x20910013 {
if k != 0x20910012 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOrbUart2(x)), None => None } }
} else {
if k < 0x20910014 {
if k != 0x20910013 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOrbUsb(x)), None => None } }
} else {
if k != 0x20910014 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOrbSpi(x)), None => None } }
}
}
} else {
if k < 0x20910017 {
if k < 0x20910016 {
if k != 0x20910015 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSatI2c(x)), None => None } }
} else {
if k != 0x20910016 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSatUart1(x)), None => None } }
}
} else {
if k < 0x20910018 {
if k != 0x20910017 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSatUart2(x)), None => None } }
} else {
if k != 0x20910018 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSatUsb(x)), None => None } }
}
}
}
}
} else {
if k < 0x20910025 {
if k < 0x2091001c {
if k < 0x2091001a {
if k != 0x20910019 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSatSpi(x)), None => None } }
} else {
if k < 0x2091001b {
if k != 0x2091001a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavStatusI2c(x)), None => None } }
} else {
if k != 0x2091001b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavStatusUart1(x)), None => None } }
}
}
} else {
if k < 0x2091001e {
if k < 0x2091001d {
if k != 0x2091001c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavStatusUart2(x)), None => None } }
} else {
if k != 0x2091001d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavStatusUsb(x)), None => None } }
}
} else {
if k < 0x20910024 {
if k != 0x2091001e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavStatusSpi(x)), None => None } }
} else {
if k != 0x20910024 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosEcefI2c(x)), None => None } }
}
}
}
} else {
if k < 0x20910028 {
if k < 0x20910026 {
if k != 0x20910025 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosEcefUart1(x)), None => None } }
} else {
if k < 0x20910027 {
if k != 0x20910026 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosEcefUart2(x)), None => None } }
} else {
if k != 0x20910027 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosEcefUsb(x)), None => None } }
}
}
} else {
if k < 0x2091002a {
if k < 0x20910029 {
if k != 0x20910028 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosEcefSpi(x)), None => None } }
} else {
if k != 0x20910029 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosLlhI2c(x)), None => None } }
}
} else {
if k < 0x2091002b {
if k != 0x2091002a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosLlhUart1(x)), None => None } }
} else {
if k != 0x2091002b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosLlhUart2(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x20910039 {
if k < 0x20910032 {
if k < 0x2091002f {
if k < 0x2091002d {
if k != 0x2091002c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosLlhUsb(x)), None => None } }
} else {
if k < 0x2091002e {
if k != 0x2091002d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavPosLlhSpi(x)), None => None } }
} else {
if k != 0x2091002e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosEcefI2c(x)), None => None } }
}
}
} else {
if k < 0x20910030 {
if k != 0x2091002f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosEcefUart1(x)), None => None } }
} else {
if k < 0x20910031 {
if k != 0x20910030 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosEcefUart2(x)), None => None } }
} else {
if k != 0x20910031 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosEcefUsb(x)), None => None } }
}
}
}
} else {
if k < 0x20910035 {
if k < 0x20910033 {
if k != 0x20910032 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosEcefSpi(x)), None => None } }
} else {
if k < 0x20910034 {
if k != 0x20910033 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosllhI2c(x)), None => None } }
} else {
if k != 0x20910034 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosllhUart1(x)), None => None } }
}
}
} else {
if k < 0x20910037 {
if k < 0x20910036 {
if k != 0x20910035 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosllhUart2(x)), None => None } }
} else {
if k != 0x20910036 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosllhUsb(x)), None => None } }
}
} else {
if k < 0x20910038 {
if k != 0x20910037 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavHpPosllhSpi(x)), None => None } }
} else {
if k != 0x20910038 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavDopI2c(x)), None => None } }
}
}
}
}
} else {
if k < 0x20910040 {
if k < 0x2091003c {
if k < 0x2091003a {
if k != 0x20910039 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavDopUart1(x)), None => None } }
} else {
if k < 0x2091003b {
if k != 0x2091003a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavDopUart2(x)), None => None } }
} else {
if k != 0x2091003b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavDopUsb(x)), None => None } }
}
}
} else {
if k < 0x2091003e {
if k < 0x2091003d {
if k != 0x2091003c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavDopSpi(x)), None => None } }
} else {
if k != 0x2091003d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelEcefI2c(x)), None => None } }
}
} else {
if k < 0x2091003f {
if k != 0x2091003e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelEcefUart1(x)), None => None } }
} else {
if k != 0x2091003f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelEcefUart2(x)), None => None } }
}
}
}
} else {
if k < 0x20910043 {
if k < 0x20910041 {
if k != 0x20910040 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelEcefUsb(x)), None => None } }
} else {
if k < 0x20910042 {
if k != 0x20910041 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelEcefSpi(x)), None => None } }
} else {
if k != 0x20910042 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelNedI2c(x)), None => None } }
}
}
} else {
if k < 0x20910045 {
if k < 0x20910044 {
if k != 0x20910043 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelNedUart1(x)), None => None } }
} else {
if k != 0x20910044 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelNedUart2(x)), None => None } }
}
} else {
if k < 0x20910046 {
if k != 0x20910045 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelNedUsb(x)), None => None } }
} else {
if k != 0x20910046 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavVelNedSpi(x)), None => None } }
}
}
}
}
}
}
}
} else {
if k < 0x20910096 {
if k < 0x20910062 {
if k < 0x20910054 {
if k < 0x2091004d {
if k < 0x2091004a {
if k < 0x20910048 {
if k != 0x20910047 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGpsI2c(x)), None => None } }
} else {
if k < 0x20910049 {
if k != 0x20910048 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGpsUart1(x)), None => None } }
} else {
if k != 0x20910049 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGpsUart2(x)), None => None } }
}
}
} else {
if k < 0x2091004b {
if k != 0x2091004a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGpsUsb(x)), None => None } }
} else {
if k < 0x2091004c {
if k != 0x2091004b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGpsSpi(x)), None => None } }
} else {
if k != 0x2091004c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGloI2c(x)), None => None } }
}
}
}
} else {
if k < 0x20910050 {
if k < 0x2091004e {
if k != 0x2091004d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGloUart1(x)), None => None } }
} else {
if k < 0x2091004f {
if k != 0x2091004e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGloUart2(x)), None => None } }
} else {
if k != 0x2091004f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGloUsb(x)), None => None } }
}
}
} else {
if k < 0x20910052 {
if k < 0x20910051 {
if k != 0x20910050 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGloSpi(x)), None => None } }
} else {
if k != 0x20910051 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeBdsI2c(x)), None => None } }
}
} else {
if k < 0x20910053 {
if k != 0x20910052 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeBdsUart1(x)), None => None } }
} else {
if k != 0x20910053 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeBdsUart2(x)), None => None } }
}
}
}
}
} else {
if k < 0x2091005b {
if k < 0x20910057 {
if k < 0x20910055 {
if k != 0x20910054 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeBdsUsb(x)), None => None } }
} else {
if k < 0x20910056 {
if k != 0x20910055 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeBdsSpi(x)), None => None } }
} else {
if k != 0x20910056 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGalI2c(x)), None => None } }
}
}
} else {
if k < 0x20910059 {
if k < 0x20910058 {
if k != 0x20910057 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGalUart1(x)), None => None } }
} else {
if k != 0x20910058 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGalUart2(x)), None => None } }
}
} else {
if k < 0x2091005a {
if k != 0x20910059 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGalUsb(x)), None => None } }
} else {
if k != 0x2091005a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeGalSpi(x)), None => None } }
}
}
}
} else {
if k < 0x2091005e {
if k < 0x2091005c {
if k != 0x2091005b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeUtcI2c(x)), None => None } }
} else {
if k < 0x2091005d {
if k != 0x2091005c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeUtcUart1(x)), None => None } }
} else {
if k != 0x2091005d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeUtcUart2(x)), None => None } }
}
}
} else {
if k < 0x20910060 {
if k < 0x2091005f {
if k != 0x2091005e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeUtcUsb(x)), None => None } }
} else {
if k != 0x2091005f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeUtcSpi(x)), None => None } }
}
} else {
if k < 0x20910061 {
if k != 0x20910060 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeLsI2c(x)), None => None } }
} else {
if k != 0x20910061 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeLsUart1(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x20910088 {
if k < 0x20910068 {
if k < 0x20910065 {
if k < 0x20910063 {
if k != 0x20910062 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeLsUart2(x)), None => None } }
} else {
if k < 0x20910064 {
if k != 0x20910063 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeLsUsb(x)), None => None } }
} else {
if k != 0x20910064 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavTimeLsSpi(x)), None => None } }
}
}
} else {
if k < 0x20910066 {
if k != 0x20910065 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavClockI2c(x)), None => None } }
} else {
if k < 0x20910067 {
if k != 0x20910066 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavClockUart1(x)), None => None } }
} else {
if k != 0x20910067 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavClockUart2(x)), None => None } }
}
}
}
} else {
if k < 0x2091007f {
if k < 0x20910069 {
if k != 0x20910068 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavClockUsb(x)), None => None } }
} else {
if k < 0x2091007e {
if k != 0x20910069 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavClockSpi(x)), None => None } }
} else {
if k != 0x2091007e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOdoI2c(x)), None => None } }
}
}
} else {
if k < 0x20910081 {
if k < 0x20910080 {
if k != 0x2091007f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOdoUart1(x)), None => None } }
} else {
if k != 0x20910080 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOdoUart2(x)), None => None } }
}
} else {
if k < 0x20910082 {
if k != 0x20910081 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOdoUsb(x)), None => None } }
} else {
if k != 0x20910082 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavOdoSpi(x)), None => None } }
}
}
}
}
} else {
if k < 0x2091008f {
if k < 0x2091008b {
if k < 0x20910089 {
if k != 0x20910088 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSvinI2c(x)), None => None } }
} else {
if k < 0x2091008a {
if k != 0x20910089 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSvinUart1(x)), None => None } }
} else {
if k != 0x2091008a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSvinUart2(x)), None => None } }
}
}
} else {
if k < 0x2091008d {
if k < 0x2091008c {
if k != 0x2091008b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSvinUsb(x)), None => None } }
} else {
if k != 0x2091008c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSvinSpi(x)), None => None } }
}
} else {
if k < 0x2091008e {
if k != 0x2091008d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavRelposnedI2c(x)), None => None } }
} else {
if k != 0x2091008e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavRelposnedUart1(x)), None => None } }
}
}
}
} else {
if k < 0x20910092 {
if k < 0x20910090 {
if k != 0x2091008f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavRelposnedUart2(x)), None => None } }
} else {
if k < 0x20910091 {
if k != 0x20910090 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavRelposnedUsb(x)), None => None } }
} else {
if k != 0x20910091 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavRelposnedSpi(x)), None => None } }
}
}
} else {
if k < 0x20910094 {
if k < 0x20910093 {
if k != 0x20910092 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimVrfyI2c(x)), None => None } }
} else {
if k != 0x20910093 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimVrfyUart1(x)), None => None } }
}
} else {
if k < 0x20910095 {
if k != 0x20910094 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimVrfyUart2(x)), None => None } }
} else {
if k != 0x20910095 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimVrfyUsb(x)), None => None } }
}
}
}
}
}
}
} else {
if k < 0x209100bb {
if k < 0x209100ad {
if k < 0x209100a6 {
if k < 0x209100a3 {
if k < 0x209100a1 {
if k != 0x20910096 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimVrfySpi(x)), None => None } }
} else {
if k < 0x209100a2 {
if k != 0x209100a1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavGeofenceI2c(x)), None => None } }
} else {
if k != 0x209100a2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavGeofenceUart1(x)), None => None } }
}
}
} else {
if k < 0x209100a4 {
if k != 0x209100a3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavGeofenceUart2(x)), None => None } }
} else {
if k < 0x209100a5 {
if k != 0x209100a4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavGeofenceUsb(x)), None => None } }
} else {
if k != 0x209100a5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavGeofenceSpi(x)), None => None } }
}
}
}
} else {
if k < 0x209100a9 {
if k < 0x209100a7 {
if k != 0x209100a6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdDtmI2c(x)), None => None } }
} else {
if k < 0x209100a8 {
if k != 0x209100a7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdDtmUart1(x)), None => None } }
} else {
if k != 0x209100a8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdDtmUart2(x)), None => None } }
}
}
} else {
if k < 0x209100ab {
if k < 0x209100aa {
if k != 0x209100a9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdDtmUsb(x)), None => None } }
} else {
if k != 0x209100aa { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdDtmSpi(x)), None => None } }
}
} else {
if k < 0x209100ac {
if k != 0x209100ab { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdRmcI2c(x)), None => None } }
} else {
if k != 0x209100ac { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdRmcUart1(x)), None => None } }
}
}
}
}
} else {
if k < 0x209100b4 {
if k < 0x209100b0 {
if k < 0x209100ae {
if k != 0x209100ad { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdRmcUart2(x)), None => None } }
} else {
if k < 0x209100af {
if k != 0x209100ae { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdRmcUsb(x)), None => None } }
} else {
if k != 0x209100af { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdRmcSpi(x)), None => None } }
}
}
} else {
if k < 0x209100b2 {
if k < 0x209100b1 {
if k != 0x209100b0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVtgI2c(x)), None => None } }
} else {
if k != 0x209100b1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVtgUart1(x)), None => None } }
}
} else {
if k < 0x209100b3 {
if k != 0x209100b2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVtgUart2(x)), None => None } }
} else {
if k != 0x209100b3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVtgUsb(x)), None => None } }
}
}
}
} else {
if k < 0x209100b7 {
if k < 0x209100b5 {
if k != 0x209100b4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVtgSpi(x)), None => None } }
} else {
if k < 0x209100b6 {
if k != 0x209100b5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGnsI2c(x)), None => None } }
} else {
if k != 0x209100b6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGnsUart1(x)), None => None } }
}
}
} else {
if k < 0x209100b9 {
if k < 0x209100b8 {
if k != 0x209100b7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGnsUart2(x)), None => None } }
} else {
if k != 0x209100b8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGnsUsb(x)), None => None } }
}
} else {
if k < 0x209100ba {
if k != 0x209100b9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGnsSpi(x)), None => None } }
} else {
if k != 0x209100ba { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGgaI2c(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x209100c9 {
if k < 0x209100c2 {
if k < 0x209100be {
if k < 0x209100bc {
if k != 0x209100bb { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGgaUart1(x)), None => None } }
} else {
if k < 0x209100bd {
if k != 0x209100bc { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGgaUart2(x)), None => None } }
} else {
if k != 0x209100bd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGgaUsb(x)), None => None } }
}
}
} else {
if k < 0x209100c0 {
if k < 0x209100bf {
if k != 0x209100be { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGgaSpi(x)), None => None } }
} else {
if k != 0x209100bf { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsaI2c(x)), None => None } }
}
} else {
if k < 0x209100c1 {
if k != 0x209100c0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsaUart1(x)), None => None } }
} else {
if k != 0x209100c1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsaUart2(x)), None => None } }
}
}
}
} else {
if k < 0x209100c5 {
if k < 0x209100c3 {
if k != 0x209100c2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsaUsb(x)), None => None } }
} else {
if k < 0x209100c4 {
if k != 0x209100c3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsaSpi(x)), None => None } }
} else {
if k != 0x209100c4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsvI2c(x)), None => None } }
}
}
} else {
if k < 0x209100c7 {
if k < 0x209100c6 {
if k != 0x209100c5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsvUart1(x)), None => None } }
} else {
if k != 0x209100c6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsvUart2(x)), None => None } }
}
} else {
if k < 0x209100c8 {
if k != 0x209100c7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsvUsb(x)), None => None } }
} else {
if k != 0x209100c8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGsvSpi(x)), None => None } }
}
}
}
}
} else {
if k < 0x209100d0 {
if k < 0x209100cc {
if k < 0x209100ca {
if k != 0x209100c9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGllI2c(x)), None => None } }
} else {
if k < 0x209100cb {
if k != 0x209100ca { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGllUart1(x)), None => None } }
} else {
if k != 0x209100cb { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGllUart2(x)), None => None } }
}
}
} else {
if k < 0x209100ce {
if k < 0x209100cd {
if k != 0x209100cc { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGllUsb(x)), None => None } }
} else {
if k != 0x209100cd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGllSpi(x)), None => None } }
}
} else {
if k < 0x209100cf {
if k != 0x209100ce { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGrsI2c(x)), None => None } }
} else {
if k != 0x209100cf { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGrsUart1(x)), None => None } }
}
}
}
} else {
if k < 0x209100d3 {
if k < 0x209100d1 {
if k != 0x209100d0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGrsUart2(x)), None => None } }
} else {
if k < 0x209100d2 {
if k != 0x209100d1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGrsUsb(x)), None => None } }
} else {
if k != 0x209100d2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGrsSpi(x)), None => None } }
}
}
} else {
if k < 0x209100d5 {
if k < 0x209100d4 {
if k != 0x209100d3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGstI2c(x)), None => None } }
} else {
if k != 0x209100d4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGstUart1(x)), None => None } }
}
} else {
if k < 0x209100d6 {
if k != 0x209100d5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGstUart2(x)), None => None } }
} else {
if k != 0x209100d6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGstUsb(x)), None => None } }
}
}
}
}
}
}
}
}
} else {
if k < 0x209102a6 {
if k < 0x20910199 {
if k < 0x209100f7 {
if k < 0x209100e9 {
if k < 0x209100dd {
if k < 0x209100da {
if k < 0x209100d8 {
if k != 0x209100d7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGstSpi(x)), None => None } }
} else {
if k < 0x209100d9 {
if k != 0x209100d8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdZdaI2c(x)), None => None } }
} else {
if k != 0x209100d9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdZdaUart1(x)), None => None } }
}
}
} else {
if k < 0x209100db {
if k != 0x209100da { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdZdaUart2(x)), None => None } }
} else {
if k < 0x209100dc {
if k != 0x209100db { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdZdaUsb(x)), None => None } }
} else {
if k != 0x209100dc { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdZdaSpi(x)), None => None } }
}
}
}
} else {
if k < 0x209100e0 {
if k < 0x209100de {
if k != 0x209100dd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGbsI2c(x)), None => None } }
} else {
if k < 0x209100df {
if k != 0x209100de { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGbsUart1(x)), None => None } }
} else {
if k != 0x209100df { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGbsUart2(x)), None => None } }
}
}
} else {
if k < 0x209100e7 {
if k < 0x209100e1 {
if k != 0x209100e0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGbsUsb(x)), None => None } }
} else {
if k != 0x209100e1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdGbsSpi(x)), None => None } }
}
} else {
if k < 0x209100e8 {
if k != 0x209100e7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVlwI2c(x)), None => None } }
} else {
if k != 0x209100e8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVlwUart1(x)), None => None } }
}
}
}
}
} else {
if k < 0x209100f0 {
if k < 0x209100ec {
if k < 0x209100ea {
if k != 0x209100e9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVlwUart2(x)), None => None } }
} else {
if k < 0x209100eb {
if k != 0x209100ea { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVlwUsb(x)), None => None } }
} else {
if k != 0x209100eb { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutNmeaIdVlwSpi(x)), None => None } }
}
}
} else {
if k < 0x209100ee {
if k < 0x209100ed {
if k != 0x209100ec { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolypI2c(x)), None => None } }
} else {
if k != 0x209100ed { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolypUart1(x)), None => None } }
}
} else {
if k < 0x209100ef {
if k != 0x209100ee { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolypUart2(x)), None => None } }
} else {
if k != 0x209100ef { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolypUsb(x)), None => None } }
}
}
}
} else {
if k < 0x209100f3 {
if k < 0x209100f1 {
if k != 0x209100f0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolypSpi(x)), None => None } }
} else {
if k < 0x209100f2 {
if k != 0x209100f1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolysI2c(x)), None => None } }
} else {
if k != 0x209100f2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolysUart1(x)), None => None } }
}
}
} else {
if k < 0x209100f5 {
if k < 0x209100f4 {
if k != 0x209100f3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolysUart2(x)), None => None } }
} else {
if k != 0x209100f4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolysUsb(x)), None => None } }
}
} else {
if k < 0x209100f6 {
if k != 0x209100f5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolysSpi(x)), None => None } }
} else {
if k != 0x209100f6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolytI2c(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x2091017c {
if k < 0x20910161 {
if k < 0x209100fa {
if k < 0x209100f8 {
if k != 0x209100f7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolytUart1(x)), None => None } }
} else {
if k < 0x209100f9 {
if k != 0x209100f8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolytUart2(x)), None => None } }
} else {
if k != 0x209100f9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolytUsb(x)), None => None } }
}
}
} else {
if k < 0x2091015f {
if k != 0x209100fa { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutPubxIdPolytSpi(x)), None => None } }
} else {
if k < 0x20910160 {
if k != 0x2091015f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavEoeI2c(x)), None => None } }
} else {
if k != 0x20910160 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavEoeUart1(x)), None => None } }
}
}
}
} else {
if k < 0x20910178 {
if k < 0x20910162 {
if k != 0x20910161 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavEoeUart2(x)), None => None } }
} else {
if k < 0x20910163 {
if k != 0x20910162 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavEoeUsb(x)), None => None } }
} else {
if k != 0x20910163 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavEoeSpi(x)), None => None } }
}
}
} else {
if k < 0x2091017a {
if k < 0x20910179 {
if k != 0x20910178 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTm2I2c(x)), None => None } }
} else {
if k != 0x20910179 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTm2Uart1(x)), None => None } }
}
} else {
if k < 0x2091017b {
if k != 0x2091017a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTm2Uart2(x)), None => None } }
} else {
if k != 0x2091017b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTm2Usb(x)), None => None } }
}
}
}
}
} else {
if k < 0x20910188 {
if k < 0x2091017f {
if k < 0x2091017d {
if k != 0x2091017c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTm2Spi(x)), None => None } }
} else {
if k < 0x2091017e {
if k != 0x2091017d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTpI2c(x)), None => None } }
} else {
if k != 0x2091017e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTpUart1(x)), None => None } }
}
}
} else {
if k < 0x20910181 {
if k < 0x20910180 {
if k != 0x2091017f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTpUart2(x)), None => None } }
} else {
if k != 0x20910180 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTpUsb(x)), None => None } }
}
} else {
if k < 0x20910187 {
if k != 0x20910181 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxTimTpSpi(x)), None => None } }
} else {
if k != 0x20910187 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxrI2c(x)), None => None } }
}
}
}
} else {
if k < 0x2091018b {
if k < 0x20910189 {
if k != 0x20910188 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxrUart1(x)), None => None } }
} else {
if k < 0x2091018a {
if k != 0x20910189 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxrUart2(x)), None => None } }
} else {
if k != 0x2091018a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxrUsb(x)), None => None } }
}
}
} else {
if k < 0x20910197 {
if k < 0x20910196 {
if k != 0x2091018b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxrSpi(x)), None => None } }
} else {
if k != 0x20910196 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonMsgPpI2c(x)), None => None } }
}
} else {
if k < 0x20910198 {
if k != 0x20910197 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonMsgPpUart1(x)), None => None } }
} else {
if k != 0x20910198 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonMsgPpUart2(x)), None => None } }
}
}
}
}
}
}
} else {
if k < 0x20910204 {
if k < 0x209101a6 {
if k < 0x2091019f {
if k < 0x2091019c {
if k < 0x2091019a {
if k != 0x20910199 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonMsgPpUsb(x)), None => None } }
} else {
if k < 0x2091019b {
if k != 0x2091019a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonMsgPpSpi(x)), None => None } }
} else {
if k != 0x2091019b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonTxbufI2c(x)), None => None } }
}
}
} else {
if k < 0x2091019d {
if k != 0x2091019c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonTxbufUart1(x)), None => None } }
} else {
if k < 0x2091019e {
if k != 0x2091019d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonTxbufUart2(x)), None => None } }
} else {
if k != 0x2091019e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonTxbufUsb(x)), None => None } }
}
}
}
} else {
if k < 0x209101a2 {
if k < 0x209101a0 {
if k != 0x2091019f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonTxbufSpi(x)), None => None } }
} else {
if k < 0x209101a1 {
if k != 0x209101a0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxbufI2c(x)), None => None } }
} else {
if k != 0x209101a1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxbufUart1(x)), None => None } }
}
}
} else {
if k < 0x209101a4 {
if k < 0x209101a3 {
if k != 0x209101a2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxbufUart2(x)), None => None } }
} else {
if k != 0x209101a3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxbufUsb(x)), None => None } }
}
} else {
if k < 0x209101a5 {
if k != 0x209101a4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRxbufSpi(x)), None => None } }
} else {
if k != 0x209101a5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonIoI2c(x)), None => None } }
}
}
}
}
} else {
if k < 0x209101b7 {
if k < 0x209101a9 {
if k < 0x209101a7 {
if k != 0x209101a6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonIoUart1(x)), None => None } }
} else {
if k < 0x209101a8 {
if k != 0x209101a7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonIoUart2(x)), None => None } }
} else {
if k != 0x209101a8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonIoUsb(x)), None => None } }
}
}
} else {
if k < 0x209101b5 {
if k < 0x209101b4 {
if k != 0x209101a9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonIoSpi(x)), None => None } }
} else {
if k != 0x209101b4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHwI2c(x)), None => None } }
}
} else {
if k < 0x209101b6 {
if k != 0x209101b5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHwUart1(x)), None => None } }
} else {
if k != 0x209101b6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHwUart2(x)), None => None } }
}
}
}
} else {
if k < 0x209101ba {
if k < 0x209101b8 {
if k != 0x209101b7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHwUsb(x)), None => None } }
} else {
if k < 0x209101b9 {
if k != 0x209101b8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHwSpi(x)), None => None } }
} else {
if k != 0x209101b9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw2I2c(x)), None => None } }
}
}
} else {
if k < 0x209101bc {
if k < 0x209101bb {
if k != 0x209101ba { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw2Uart1(x)), None => None } }
} else {
if k != 0x209101bb { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw2Uart2(x)), None => None } }
}
} else {
if k < 0x209101bd {
if k != 0x209101bc { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw2Usb(x)), None => None } }
} else {
if k != 0x209101bd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw2Spi(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x2091025c {
if k < 0x20910232 {
if k < 0x20910207 {
if k < 0x20910205 {
if k != 0x20910204 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmMeasxI2c(x)), None => None } }
} else {
if k < 0x20910206 {
if k != 0x20910205 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmMeasxUart1(x)), None => None } }
} else {
if k != 0x20910206 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmMeasxUart2(x)), None => None } }
}
}
} else {
if k < 0x20910208 {
if k != 0x20910207 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmMeasxUsb(x)), None => None } }
} else {
if k < 0x20910231 {
if k != 0x20910208 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmMeasxSpi(x)), None => None } }
} else {
if k != 0x20910231 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmSfrbxI2c(x)), None => None } }
}
}
}
} else {
if k < 0x20910235 {
if k < 0x20910233 {
if k != 0x20910232 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmSfrbxUart1(x)), None => None } }
} else {
if k < 0x20910234 {
if k != 0x20910233 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmSfrbxUart2(x)), None => None } }
} else {
if k != 0x20910234 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmSfrbxUsb(x)), None => None } }
}
}
} else {
if k < 0x2091025a {
if k < 0x20910259 {
if k != 0x20910235 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmSfrbxSpi(x)), None => None } }
} else {
if k != 0x20910259 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxLogInfoI2c(x)), None => None } }
}
} else {
if k < 0x2091025b {
if k != 0x2091025a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxLogInfoUart1(x)), None => None } }
} else {
if k != 0x2091025b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxLogInfoUart2(x)), None => None } }
}
}
}
}
} else {
if k < 0x20910268 {
if k < 0x2091025f {
if k < 0x2091025d {
if k != 0x2091025c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxLogInfoUsb(x)), None => None } }
} else {
if k < 0x2091025e {
if k != 0x2091025d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxLogInfoSpi(x)), None => None } }
} else {
if k != 0x2091025e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRlmI2c(x)), None => None } }
}
}
} else {
if k < 0x20910261 {
if k < 0x20910260 {
if k != 0x2091025f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRlmUart1(x)), None => None } }
} else {
if k != 0x20910260 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRlmUart2(x)), None => None } }
}
} else {
if k < 0x20910262 {
if k != 0x20910261 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRlmUsb(x)), None => None } }
} else {
if k != 0x20910262 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRlmSpi(x)), None => None } }
}
}
}
} else {
if k < 0x2091026b {
if k < 0x20910269 {
if k != 0x20910268 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRtcmI2c(x)), None => None } }
} else {
if k < 0x2091026a {
if k != 0x20910269 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRtcmUart1(x)), None => None } }
} else {
if k != 0x2091026a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRtcmUart2(x)), None => None } }
}
}
} else {
if k < 0x209102a4 {
if k < 0x2091026c {
if k != 0x2091026b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRtcmUsb(x)), None => None } }
} else {
if k != 0x2091026c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRtcmSpi(x)), None => None } }
}
} else {
if k < 0x209102a5 {
if k != 0x209102a4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRawxI2c(x)), None => None } }
} else {
if k != 0x209102a5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRawxUart1(x)), None => None } }
}
}
}
}
}
}
}
} else {
if k < 0x2091035f {
if k < 0x20910307 {
if k < 0x209102d1 {
if k < 0x209102c0 {
if k < 0x209102bd {
if k < 0x209102a7 {
if k != 0x209102a6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRawxUart2(x)), None => None } }
} else {
if k < 0x209102a8 {
if k != 0x209102a7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRawxUsb(x)), None => None } }
} else {
if k != 0x209102a8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxRxmRawxSpi(x)), None => None } }
}
}
} else {
if k < 0x209102be {
if k != 0x209102bd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1005I2c(x)), None => None } }
} else {
if k < 0x209102bf {
if k != 0x209102be { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1005Uart1(x)), None => None } }
} else {
if k != 0x209102bf { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1005Uart2(x)), None => None } }
}
}
}
} else {
if k < 0x209102cd {
if k < 0x209102c1 {
if k != 0x209102c0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1005Usb(x)), None => None } }
} else {
if k < 0x209102cc {
if k != 0x209102c1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1005Spi(x)), None => None } }
} else {
if k != 0x209102cc { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1077I2c(x)), None => None } }
}
}
} else {
if k < 0x209102cf {
if k < 0x209102ce {
if k != 0x209102cd { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1077Uart1(x)), None => None } }
} else {
if k != 0x209102ce { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1077Uart2(x)), None => None } }
}
} else {
if k < 0x209102d0 {
if k != 0x209102cf { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1077Usb(x)), None => None } }
} else {
if k != 0x209102d0 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1077Spi(x)), None => None } }
}
}
}
}
} else {
if k < 0x209102d8 {
if k < 0x209102d4 {
if k < 0x209102d2 {
if k != 0x209102d1 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1087I2c(x)), None => None } }
} else {
if k < 0x209102d3 {
if k != 0x209102d2 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1087Uart1(x)), None => None } }
} else {
if k != 0x209102d3 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1087Uart2(x)), None => None } }
}
}
} else {
if k < 0x209102d6 {
if k < 0x209102d5 {
if k != 0x209102d4 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1087Usb(x)), None => None } }
} else {
if k != 0x209102d5 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1087Spi(x)), None => None } }
}
} else {
if k < 0x209102d7 {
if k != 0x209102d6 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1127I2c(x)), None => None } }
} else {
if k != 0x209102d7 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1127Uart1(x)), None => None } }
}
}
}
} else {
if k < 0x20910303 {
if k < 0x209102d9 {
if k != 0x209102d8 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1127Uart2(x)), None => None } }
} else {
if k < 0x209102da {
if k != 0x209102d9 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1127Usb(x)), None => None } }
} else {
if k != 0x209102da { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1127Spi(x)), None => None } }
}
}
} else {
if k < 0x20910305 {
if k < 0x20910304 {
if k != 0x20910303 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1230I2c(x)), None => None } }
} else {
if k != 0x20910304 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1230Uart1(x)), None => None } }
}
} else {
if k < 0x20910306 {
if k != 0x20910305 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1230Uart2(x)), None => None } }
} else {
if k != 0x20910306 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1230Usb(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x20910351 {
if k < 0x20910345 {
if k < 0x2091031a {
if k < 0x20910318 {
if k != 0x20910307 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1230Spi(x)), None => None } }
} else {
if k < 0x20910319 {
if k != 0x20910318 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1097I2c(x)), None => None } }
} else {
if k != 0x20910319 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1097Uart1(x)), None => None } }
}
}
} else {
if k < 0x2091031b {
if k != 0x2091031a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1097Uart2(x)), None => None } }
} else {
if k < 0x2091031c {
if k != 0x2091031b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1097Usb(x)), None => None } }
} else {
if k != 0x2091031c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1097Spi(x)), None => None } }
}
}
}
} else {
if k < 0x20910348 {
if k < 0x20910346 {
if k != 0x20910345 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSigI2c(x)), None => None } }
} else {
if k < 0x20910347 {
if k != 0x20910346 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSigUart1(x)), None => None } }
} else {
if k != 0x20910347 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSigUart2(x)), None => None } }
}
}
} else {
if k < 0x2091034f {
if k < 0x20910349 {
if k != 0x20910348 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSigUsb(x)), None => None } }
} else {
if k != 0x20910349 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxNavSigSpi(x)), None => None } }
}
} else {
if k < 0x20910350 {
if k != 0x2091034f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonCommsI2c(x)), None => None } }
} else {
if k != 0x20910350 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonCommsUart1(x)), None => None } }
}
}
}
}
} else {
if k < 0x20910358 {
if k < 0x20910354 {
if k < 0x20910352 {
if k != 0x20910351 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonCommsUart2(x)), None => None } }
} else {
if k < 0x20910353 {
if k != 0x20910352 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonCommsUsb(x)), None => None } }
} else {
if k != 0x20910353 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonCommsSpi(x)), None => None } }
}
}
} else {
if k < 0x20910356 {
if k < 0x20910355 {
if k != 0x20910354 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw3I2c(x)), None => None } }
} else {
if k != 0x20910355 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw3Uart1(x)), None => None } }
}
} else {
if k < 0x20910357 {
if k != 0x20910356 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw3Uart2(x)), None => None } }
} else {
if k != 0x20910357 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw3Usb(x)), None => None } }
}
}
}
} else {
if k < 0x2091035b {
if k < 0x20910359 {
if k != 0x20910358 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonHw3Spi(x)), None => None } }
} else {
if k < 0x2091035a {
if k != 0x20910359 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRfI2c(x)), None => None } }
} else {
if k != 0x2091035a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRfUart1(x)), None => None } }
}
}
} else {
if k < 0x2091035d {
if k < 0x2091035c {
if k != 0x2091035b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRfUart2(x)), None => None } }
} else {
if k != 0x2091035c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRfUsb(x)), None => None } }
}
} else {
if k < 0x2091035e {
if k != 0x2091035d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutUbxMonRfSpi(x)), None => None } }
} else {
if k != 0x2091035e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1074I2c(x)), None => None } }
}
}
}
}
}
}
} else {
if k < 0x20920009 {
if k < 0x2091036c {
if k < 0x20910365 {
if k < 0x20910362 {
if k < 0x20910360 {
if k != 0x2091035f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1074Uart1(x)), None => None } }
} else {
if k < 0x20910361 {
if k != 0x20910360 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1074Uart2(x)), None => None } }
} else {
if k != 0x20910361 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1074Usb(x)), None => None } }
}
}
} else {
if k < 0x20910363 {
if k != 0x20910362 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1074Spi(x)), None => None } }
} else {
if k < 0x20910364 {
if k != 0x20910363 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1084I2c(x)), None => None } }
} else {
if k != 0x20910364 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1084Uart1(x)), None => None } }
}
}
}
} else {
if k < 0x20910368 {
if k < 0x20910366 {
if k != 0x20910365 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1084Uart2(x)), None => None } }
} else {
if k < 0x20910367 {
if k != 0x20910366 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1084Usb(x)), None => None } }
} else {
if k != 0x20910367 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1084Spi(x)), None => None } }
}
}
} else {
if k < 0x2091036a {
if k < 0x20910369 {
if k != 0x20910368 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1094I2c(x)), None => None } }
} else {
if k != 0x20910369 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1094Uart1(x)), None => None } }
}
} else {
if k < 0x2091036b {
if k != 0x2091036a { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1094Uart2(x)), None => None } }
} else {
if k != 0x2091036b { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1094Usb(x)), None => None } }
}
}
}
}
} else {
if k < 0x20920002 {
if k < 0x2091036f {
if k < 0x2091036d {
if k != 0x2091036c { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1094Spi(x)), None => None } }
} else {
if k < 0x2091036e {
if k != 0x2091036d { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1124I2c(x)), None => None } }
} else {
if k != 0x2091036e { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1124Uart1(x)), None => None } }
}
}
} else {
if k < 0x20910371 {
if k < 0x20910370 {
if k != 0x2091036f { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1124Uart2(x)), None => None } }
} else {
if k != 0x20910370 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1124Usb(x)), None => None } }
}
} else {
if k < 0x20920001 {
if k != 0x20910371 { None } else { match val_u8(s) { Some(x) => Some(CfgVal::MsgoutRtcm3xType1124Spi(x)), None => None } }
} else {
if k != 0x20920001 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgUbxI2c(x)), None => None } }
}
}
}
} else {
if k < 0x20920005 {
if k < 0x20920003 {
if k != 0x20920002 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgUbxUart1(x)), None => None } }
} else {
if k < 0x20920004 {
if k != 0x20920003 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgUbxUart2(x)), None => None } }
} else {
if k != 0x20920004 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgUbxUsb(x)), None => None } }
}
}
} else {
if k < 0x20920007 {
if k < 0x20920006 {
if k != 0x20920005 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgUbxSpi(x)), None => None } }
} else {
if k != 0x20920006 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgNmeaI2c(x)), None => None } }
}
} else {
if k < 0x20920008 {
if k != 0x20920007 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgNmeaUart1(x)), None => None } }
} else {
if k != 0x20920008 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgNmeaUart2(x)), None => None } }
}
}
}
}
}
} else {
if k < 0x40520001 {
if k < 0x3065000c {
if k < 0x30210001 {
if k < 0x2092000a {
if k != 0x20920009 { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgNmeaUsb(x)), None => None } }
} else {
if k < 0x30050001 {
if k != 0x2092000a { None } else { match val_CfgInfMask(s) { Some(x) => Some(CfgVal::InfmsgNmeaSpi(x)), None => None } }
} else {
if k != 0x30050001 { None } else { match val_i16(s) { Some(x) => Some(CfgVal::TpAntCableDelay(x)), None => None } }
}
}
} else {
if k < 0x3065000a {
if k < 0x30210002 {
if k != 0x30210001 { None } else { match val_u16(s) { Some(x) => Some(CfgVal::RateMeas(x)), None => None } }
} else {
if k != 0x30210002 { None } else { match val_u16(s) { Some(x) => Some(CfgVal::RateNav(x)), None => None } }
}
} else {
if k < 0x3065000b {
if k != 0x3065000a { None } else { match val_u16(s) { Some(x) => Some(CfgVal::UsbVendorId(x)), None => None } }
} else {
if k != 0x3065000b { None } else { match val_u16(s) { Some(x) => Some(CfgVal::UsbProductId(x)), None => None } }
}
}
}
} else {
if k < 0x40050004 {
if k < 0x40050002 {
if k != 0x3065000c { None } else { match val_u16(s) { Some(x) => Some(CfgVal::UsbPower(x)), None => None } }
} else {
if k < 0x40050003 {
if k != 0x40050002 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpPeriodTp1(x)), None => None } }
} else {
if k != 0x40050003 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpPeriodLockTp1(x)), None => None } }
}
}
} else {
if k < 0x40050024 {
if k < 0x40050005 {
if k != 0x40050004 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpLenTp1(x)), None => None } }
} else {
if k != 0x40050005 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpLenLockTp1(x)), None => None } }
}
} else {
if k < 0x40050025 {
if k != 0x40050024 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpFreqTp1(x)), None => None } }
} else {
if k != 0x40050025 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::TpFreqLockTp1(x)), None => None } }
}
}
}
}
} else {
if k < 0x50650012 {
if k < 0x5065000e {
if k < 0x40530001 {
if k != 0x40520001 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::Uart1Baudrate(x)), None => None } }
} else {
if k < 0x5065000d {
if k != 0x40530001 { None } else { match val_u32(s) { Some(x) => Some(CfgVal::Uart2Baudrate(x)), None => None } }
} else {
if k != 0x5065000d { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbVendorStr0(x)), None => None } }
}
}
} else {
if k < 0x50650010 {
if k < 0x5065000f {
if k != 0x5065000e { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbVendorStr1(x)), None => None } }
} else {
if k != 0x5065000f { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbVendorStr2(x)), None => None } }
}
} else {
if k < 0x50650011 {
if k != 0x50650010 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbVendorStr3(x)), None => None } }
} else {
if k != 0x50650011 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbProductStr0(x)), None => None } }
}
}
}
} else {
if k < 0x50650015 {
if k < 0x50650013 {
if k != 0x50650012 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbProductStr1(x)), None => None } }
} else {
if k < 0x50650014 {
if k != 0x50650013 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbProductStr2(x)), None => None } }
} else {
if k != 0x50650014 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbProductStr3(x)), None => None } }
}
}
} else {
if k < 0x50650017 {
if k < 0x50650016 {
if k != 0x50650015 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbSerialNoStr0(x)), None => None } }
} else {
if k != 0x50650016 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbSerialNoStr1(x)), None => None } }
}
} else {
if k < 0x50650018 {
if k != 0x50650017 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbSerialNoStr2(x)), None => None } }
} else {
if k != 0x50650018 { None } else { match val_u64(s) { Some(x) => Some(CfgVal::UsbSerialNoStr3(x)), None => None } }
}
}
}
}
}
}
}
}
} }
pub proof fn lemma_item_len(v: CfgVal)
    ensures 5 <= item(v).len() <= 12,
{ broadcast use lemma_kv_len; }
pub mod rt0 { use super::*;
pub proof fn rt_Uart1Baudrate(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40520001, (x as int)) + t) == Some(CfgVal::Uart1Baudrate(x)), le4(kv4(0x40520001, (x as int)), 0) == 0x40520001, kv4(0x40520001, (x as int)).len() == 4 + class_len(0x40520001),
{ broadcast use lemma_kv_len; lemma_kv(0x40520001, (x as int)); }
pub proof fn rt_Uart1StopBits(x: StopBits, t: Seq<u8>)
    ensures item_at(kv1(0x20520002, StopBits_item(x)) + t) == Some(CfgVal::Uart1StopBits(x)), le4(kv1(0x20520002, StopBits_item(x)), 0) == 0x20520002, kv1(0x20520002, StopBits_item(x)).len() == 4 + class_len(0x20520002),
{ broadcast use lemma_kv_len; lemma_kv(0x20520002, StopBits_item(x)); }
pub proof fn rt_Uart1DataBits(x: DataBits, t: Seq<u8>)
    ensures item_at(kv1(0x20520003, DataBits_item(x)) + t) == Some(CfgVal::Uart1DataBits(x)), le4(kv1(0x20520003, DataBits_item(x)), 0) == 0x20520003, kv1(0x20520003, DataBits_item(x)).len() == 4 + class_len(0x20520003),
{ broadcast use lemma_kv_len; lemma_kv(0x20520003, DataBits_item(x)); }
pub proof fn rt_Uart1Parity(x: Parity, t: Seq<u8>)
    ensures item_at(kv1(0x20520004, Parity_item(x)) + t) == Some(CfgVal::Uart1Parity(x)), le4(kv1(0x20520004, Parity_item(x)), 0) == 0x20520004, kv1(0x20520004, Parity_item(x)).len() == 4 + class_len(0x20520004),
{ broadcast use lemma_kv_len; lemma_kv(0x20520004, Parity_item(x)); }
pub proof fn rt_Uart1Enabled(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10520005, b2i(x)) + t) == Some(CfgVal::Uart1Enabled(x)), le4(kv1(0x10520005, b2i(x)), 0) == 0x10520005, kv1(0x10520005, b2i(x)).len() == 4 + class_len(0x10520005),
{ broadcast use lemma_kv_len; lemma_kv(0x10520005, b2i(x)); }
pub proof fn rt_Uart1InProtUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10730001, b2i(x)) + t) == Some(CfgVal::Uart1InProtUbx(x)), le4(kv1(0x10730001, b2i(x)), 0) == 0x10730001, kv1(0x10730001, b2i(x)).len() == 4 + class_len(0x10730001),
{ broadcast use lemma_kv_len; lemma_kv(0x10730001, b2i(x)); }
pub proof fn rt_Uart1InProtNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10730002, b2i(x)) + t) == Some(CfgVal::Uart1InProtNmea(x)), le4(kv1(0x10730002, b2i(x)), 0) == 0x10730002, kv1(0x10730002, b2i(x)).len() == 4 + class_len(0x10730002),
{ broadcast use lemma_kv_len; lemma_kv(0x10730002, b2i(x)); }
pub proof fn rt_Uart1InProtRtcm3x(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10730004, b2i(x)) + t) == Some(CfgVal::Uart1InProtRtcm3x(x)), le4(kv1(0x10730004, b2i(x)), 0) == 0x10730004, kv1(0x10730004, b2i(x)).len() == 4 + class_len(0x10730004),
{ broadcast use lemma_kv_len; lemma_kv(0x10730004, b2i(x)); }
pub proof fn rt_Uart1OutProtUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10740001, b2i(x)) + t) == Some(CfgVal::Uart1OutProtUbx(x)), le4(kv1(0x10740001, b2i(x)), 0) == 0x10740001, kv1(0x10740001, b2i(x)).len() == 4 + class_len(0x10740001),
{ broadcast use lemma_kv_len; lemma_kv(0x10740001, b2i(x)); }
pub proof fn rt_Uart1OutProtNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10740002, b2i(x)) + t) == Some(CfgVal::Uart1OutProtNmea(x)), le4(kv1(0x10740002, b2i(x)), 0) == 0x10740002, kv1(0x10740002, b2i(x)).len() == 4 + class_len(0x10740002),
{ broadcast use lemma_kv_len; lemma_kv(0x10740002, b2i(x)); }
pub proof fn rt_Uart1OutProtRtcm3x(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10740004, b2i(x)) + t) == Some(CfgVal::Uart1OutProtRtcm3x(x)), le4(kv1(0x10740004, b2i(x)), 0) == 0x10740004, kv1(0x10740004, b2i(x)).len() == 4 + class_len(0x10740004),
{ broadcast use lemma_kv_len; lemma_kv(0x10740004, b2i(x)); }
pub proof fn rt_Uart2Baudrate(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40530001, (x as int)) + t) == Some(CfgVal::Uart2Baudrate(x)), le4(kv4(0x40530001, (x as int)), 0) == 0x40530001, kv4(0x40530001, (x as int)).len() == 4 + class_len(0x40530001),
{ broadcast use lemma_kv_len; lemma_kv(0x40530001, (x as int)); }
pub proof fn rt_Uart2StopBits(x: StopBits, t: Seq<u8>)
    ensures item_at(kv1(0x20530002, StopBits_item(x)) + t) == Some(CfgVal::Uart2StopBits(x)), le4(kv1(0x20530002, StopBits_item(x)), 0) == 0x20530002, kv1(0x20530002, StopBits_item(x)).len() == 4 + class_len(0x20530002),
{ broadcast use lemma_kv_len; lemma_kv(0x20530002, StopBits_item(x)); }
pub proof fn rt_Uart2DataBits(x: DataBits, t: Seq<u8>)
    ensures item_at(kv1(0x20530003, DataBits_item(x)) + t) == Some(CfgVal::Uart2DataBits(x)), le4(kv1(0x20530003, DataBits_item(x)), 0) == 0x20530003, kv1(0x20530003, DataBits_item(x)).len() == 4 + class_len(0x20530003),
{ broadcast use lemma_kv_len; lemma_kv(0x20530003, DataBits_item(x)); }
pub proof fn rt_Uart2Parity(x: Parity, t: Seq<u8>)
    ensures item_at(kv1(0x20530004, Parity_item(x)) + t) == Some(CfgVal::Uart2Parity(x)), le4(kv1(0x20530004, Parity_item(x)), 0) == 0x20530004, kv1(0x20530004, Parity_item(x)).len() == 4 + class_len(0x20530004),
{ broadcast use lemma_kv_len; lemma_kv(0x20530004, Parity_item(x)); }
pub proof fn rt_Uart2Enabled(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10530005, b2i(x)) + t) == Some(CfgVal::Uart2Enabled(x)), le4(kv1(0x10530005, b2i(x)), 0) == 0x10530005, kv1(0x10530005, b2i(x)).len() == 4 + class_len(0x10530005),
{ broadcast use lemma_kv_len; lemma_kv(0x10530005, b2i(x)); }
pub proof fn rt_Uart2Remap(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10530006, b2i(x)) + t) == Some(CfgVal::Uart2Remap(x)), le4(kv1(0x10530006, b2i(x)), 0) == 0x10530006, kv1(0x10530006, b2i(x)).len() == 4 + class_len(0x10530006),
{ broadcast use lemma_kv_len; lemma_kv(0x10530006, b2i(x)); }
pub proof fn rt_Uart2InProtUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10750001, b2i(x)) + t) == Some(CfgVal::Uart2InProtUbx(x)), le4(kv1(0x10750001, b2i(x)), 0) == 0x10750001, kv1(0x10750001, b2i(x)).len() == 4 + class_len(0x10750001),
{ broadcast use lemma_kv_len; lemma_kv(0x10750001, b2i(x)); }
pub proof fn rt_Uart2InProtNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10750002, b2i(x)) + t) == Some(CfgVal::Uart2InProtNmea(x)), le4(kv1(0x10750002, b2i(x)), 0) == 0x10750002, kv1(0x10750002, b2i(x)).len() == 4 + class_len(0x10750002),
{ broadcast use lemma_kv_len; lemma_kv(0x10750002, b2i(x)); }
pub proof fn rt_Uart2InProtRtcm3x(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10750004, b2i(x)) + t) == Some(CfgVal::Uart2InProtRtcm3x(x)), le4(kv1(0x10750004, b2i(x)), 0) == 0x10750004, kv1(0x10750004, b2i(x)).len() == 4 + class_len(0x10750004),
{ broadcast use lemma_kv_len; lemma_kv(0x10750004, b2i(x)); }
pub proof fn rt_Uart2OutProtUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10760001, b2i(x)) + t) == Some(CfgVal::Uart2OutProtUbx(x)), le4(kv1(0x10760001, b2i(x)), 0) == 0x10760001, kv1(0x10760001, b2i(x)).len() == 4 + class_len(0x10760001),
{ broadcast use lemma_kv_len; lemma_kv(0x10760001, b2i(x)); }
pub proof fn rt_Uart2OutProtNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10760002, b2i(x)) + t) == Some(CfgVal::Uart2OutProtNmea(x)), le4(kv1(0x10760002, b2i(x)), 0) == 0x10760002, kv1(0x10760002, b2i(x)).len() == 4 + class_len(0x10760002),
{ broadcast use lemma_kv_len; lemma_kv(0x10760002, b2i(x)); }
pub proof fn rt_Uart2OutProtRtcm3x(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10760004, b2i(x)) + t) == Some(CfgVal::Uart2OutProtRtcm3x(x)), le4(kv1(0x10760004, b2i(x)), 0) == 0x10760004, kv1(0x10760004, b2i(x)).len() == 4 + class_len(0x10760004),
{ broadcast use lemma_kv_len; lemma_kv(0x10760004, b2i(x)); }
pub proof fn rt_UsbEnabled(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10650001, b2i(x)) + t) == Some(CfgVal::UsbEnabled(x)), le4(kv1(0x10650001, b2i(x)), 0) == 0x10650001, kv1(0x10650001, b2i(x)).len() == 4 + class_len(0x10650001),
{ broadcast use lemma_kv_len; lemma_kv(0x10650001, b2i(x)); }
pub proof fn rt_UsbSelfpow(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10650002, b2i(x)) + t) == Some(CfgVal::UsbSelfpow(x)), le4(kv1(0x10650002, b2i(x)), 0) == 0x10650002, kv1(0x10650002, b2i(x)).len() == 4 + class_len(0x10650002),
{ broadcast use lemma_kv_len; lemma_kv(0x10650002, b2i(x)); }
pub proof fn rt_UsbVendorId(x: u16, t: Seq<u8>)
    ensures item_at(kv2(0x3065000a, (x as int)) + t) == Some(CfgVal::UsbVendorId(x)), le4(kv2(0x3065000a, (x as int)), 0) == 0x3065000a, kv2(0x3065000a, (x as int)).len() == 4 + class_len(0x3065000a),
{ broadcast use lemma_kv_len; lemma_kv(0x3065000a, (x as int)); }
pub proof fn rt_UsbProductId(x: u16, t: Seq<u8>)
    ensures item_at(kv2(0x3065000b, (x as int)) + t) == Some(CfgVal::UsbProductId(x)), le4(kv2(0x3065000b, (x as int)), 0) == 0x3065000b, kv2(0x3065000b, (x as int)).len() == 4 + class_len(0x3065000b),
{ broadcast use lemma_kv_len; lemma_kv(0x3065000b, (x as int)); }
pub proof fn rt_UsbPower(x: u16, t: Seq<u8>)
    ensures item_at(kv2(0x3065000c, (x as int)) + t) == Some(CfgVal::UsbPower(x)), le4(kv2(0x3065000c, (x as int)), 0) == 0x3065000c, kv2(0x3065000c, (x as int)).len() == 4 + class_len(0x3065000c),
{ broadcast use lemma_kv_len; lemma_kv(0x3065000c, (x as int)); }
pub proof fn rt_UsbVendorStr0(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x5065000d, (x as int)) + t) == Some(CfgVal::UsbVendorStr0(x)), le4(kv8(0x5065000d, (x as int)), 0) == 0x5065000d, kv8(0x5065000d, (x as int)).len() == 4 + class_len(0x5065000d),
{ broadcast use lemma_kv_len; lemma_kv(0x5065000d, (x as int)); }
pub proof fn rt_UsbVendorStr1(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x5065000e, (x as int)) + t) == Some(CfgVal::UsbVendorStr1(x)), le4(kv8(0x5065000e, (x as int)), 0) == 0x5065000e, kv8(0x5065000e, (x as int)).len() == 4 + class_len(0x5065000e),
{ broadcast use lemma_kv_len; lemma_kv(0x5065000e, (x as int)); }
pub proof fn rt_UsbVendorStr2(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x5065000f, (x as int)) + t) == Some(CfgVal::UsbVendorStr2(x)), le4(kv8(0x5065000f, (x as int)), 0) == 0x5065000f, kv8(0x5065000f, (x as int)).len() == 4 + class_len(0x5065000f),
{ broadcast use lemma_kv_len; lemma_kv(0x5065000f, (x as int)); }
pub proof fn rt_UsbVendorStr3(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650010, (x as int)) + t) == Some(CfgVal::UsbVendorStr3(x)), le4(kv8(0x50650010, (x as int)), 0) == 0x50650010, kv8(0x50650010, (x as int)).len() == 4 + class_len(0x50650010),
{ broadcast use lemma_kv_len; lemma_kv(0x50650010, (x as int)); }
pub proof fn rt_UsbProductStr0(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650011, (x as int)) + t) == Some(CfgVal::UsbProductStr0(x)), le4(kv8(0x50650011, (x as int)), 0) == 0x50650011, kv8(0x50650011, (x as int)).len() == 4 + class_len(0x50650011),
{ broadcast use lemma_kv_len; lemma_kv(0x50650011, (x as int)); }
pub proof fn rt_UsbProductStr1(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650012, (x as int)) + t) == Some(CfgVal::UsbProductStr1(x)), le4(kv8(0x50650012, (x as int)), 0) == 0x50650012, kv8(0x50650012, (x as int)).len() == 4 + class_len(0x50650012),
{ broadcast use lemma_kv_len; lemma_kv(0x50650012, (x as int)); }
pub proof fn rt_UsbProductStr2(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650013, (x as int)) + t) == Some(CfgVal::UsbProductStr2(x)), le4(kv8(0x50650013, (x as int)), 0) == 0x50650013, kv8(0x50650013, (x as int)).len() == 4 + class_len(0x50650013),
{ broadcast use lemma_kv_len; lemma_kv(0x50650013, (x as int)); }
pub proof fn rt_UsbProductStr3(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650014, (x as int)) + t) == Some(CfgVal::UsbProductStr3(x)), le4(kv8(0x50650014, (x as int)), 0) == 0x50650014, kv8(0x50650014, (x as int)).len() == 4 + class_len(0x50650014),
{ broadcast use lemma_kv_len; lemma_kv(0x50650014, (x as int)); }
pub proof fn rt_UsbSerialNoStr0(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650015, (x as int)) + t) == Some(CfgVal::UsbSerialNoStr0(x)), le4(kv8(0x50650015, (x as int)), 0) == 0x50650015, kv8(0x50650015, (x as int)).len() == 4 + class_len(0x50650015),
{ broadcast use lemma_kv_len; lemma_kv(0x50650015, (x as int)); }
pub proof fn rt_UsbSerialNoStr1(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650016, (x as int)) + t) == Some(CfgVal::UsbSerialNoStr1(x)), le4(kv8(0x50650016, (x as int)), 0) == 0x50650016, kv8(0x50650016, (x as int)).len() == 4 + class_len(0x50650016),
{ broadcast use lemma_kv_len; lemma_kv(0x50650016, (x as int)); }
pub proof fn rt_UsbSerialNoStr2(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650017, (x as int)) + t) == Some(CfgVal::UsbSerialNoStr2(x)), le4(kv8(0x50650017, (x as int)), 0) == 0x50650017, kv8(0x50650017, (x as int)).len() == 4 + class_len(0x50650017),
{ broadcast use lemma_kv_len; lemma_kv(0x50650017, (x as int)); }
pub proof fn rt_UsbSerialNoStr3(x: u64, t: Seq<u8>)
    ensures item_at(kv8(0x50650018, (x as int)) + t) == Some(CfgVal::UsbSerialNoStr3(x)), le4(kv8(0x50650018, (x as int)), 0) == 0x50650018, kv8(0x50650018, (x as int)).len() == 4 + class_len(0x50650018),
{ broadcast use lemma_kv_len; lemma_kv(0x50650018, (x as int)); }
pub proof fn rt_UsbinprotUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10770001, b2i(x)) + t) == Some(CfgVal::UsbinprotUbx(x)), le4(kv1(0x10770001, b2i(x)), 0) == 0x10770001, kv1(0x10770001, b2i(x)).len() == 4 + class_len(0x10770001),
{ broadcast use lemma_kv_len; lemma_kv(0x10770001, b2i(x)); }
pub proof fn rt_UsbinprotNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10770002, b2i(x)) + t) == Some(CfgVal::UsbinprotNmea(x)), le4(kv1(0x10770002, b2i(x)), 0) == 0x10770002, kv1(0x10770002, b2i(x)).len() == 4 + class_len(0x10770002),
{ broadcast use lemma_kv_len; lemma_kv(0x10770002, b2i(x)); }
pub proof fn rt_UsbinprotRtcm3X(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10770004, b2i(x)) + t) == Some(CfgVal::UsbinprotRtcm3X(x)), le4(kv1(0x10770004, b2i(x)), 0) == 0x10770004, kv1(0x10770004, b2i(x)).len() == 4 + class_len(0x10770004),
{ broadcast use lemma_kv_len; lemma_kv(0x10770004, b2i(x)); }
pub proof fn rt_UsbOutProtUbx(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10780001, b2i(x)) + t) == Some(CfgVal::UsbOutProtUbx(x)), le4(kv1(0x10780001, b2i(x)), 0) == 0x10780001, kv1(0x10780001, b2i(x)).len() == 4 + class_len(0x10780001),
{ broadcast use lemma_kv_len; lemma_kv(0x10780001, b2i(x)); }
pub proof fn rt_UsbOutProtNmea(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10780002, b2i(x)) + t) == Some(CfgVal::UsbOutProtNmea(x)), le4(kv1(0x10780002, b2i(x)), 0) == 0x10780002, kv1(0x10780002, b2i(x)).len() == 4 + class_len(0x10780002),
{ broadcast use lemma_kv_len; lemma_kv(0x10780002, b2i(x)); }
pub proof fn rt_UsbOutProtRtcm3x(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10780004, b2i(x)) + t) == Some(CfgVal::UsbOutProtRtcm3x(x)), le4(kv1(0x10780004, b2i(x)), 0) == 0x10780004, kv1(0x10780004, b2i(x)).len() == 4 + class_len(0x10780004),
{ broadcast use lemma_kv_len; lemma_kv(0x10780004, b2i(x)); }
pub proof fn rt_InfmsgUbxI2c(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920001, (x.b as int)) + t) == Some(CfgVal::InfmsgUbxI2c(x)), le4(kv1(0x20920001, (x.b as int)), 0) == 0x20920001, kv1(0x20920001, (x.b as int)).len() == 4 + class_len(0x20920001),
{ broadcast use lemma_kv_len; lemma_kv(0x20920001, (x.b as int)); }
pub proof fn rt_InfmsgUbxUart1(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920002, (x.b as int)) + t) == Some(CfgVal::InfmsgUbxUart1(x)), le4(kv1(0x20920002, (x.b as int)), 0) == 0x20920002, kv1(0x20920002, (x.b as int)).len() == 4 + class_len(0x20920002),
{ broadcast use lemma_kv_len; lemma_kv(0x20920002, (x.b as int)); }
pub proof fn rt_InfmsgUbxUart2(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920003, (x.b as int)) + t) == Some(CfgVal::InfmsgUbxUart2(x)), le4(kv1(0x20920003, (x.b as int)), 0) == 0x20920003, kv1(0x20920003, (x.b as int)).len() == 4 + class_len(0x20920003),
{ broadcast use lemma_kv_len; lemma_kv(0x20920003, (x.b as int)); }
pub proof fn rt_InfmsgUbxUsb(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920004, (x.b as int)) + t) == Some(CfgVal::InfmsgUbxUsb(x)), le4(kv1(0x20920004, (x.b as int)), 0) == 0x20920004, kv1(0x20920004, (x.b as int)).len() == 4 + class_len(0x20920004),
{ broadcast use lemma_kv_len; lemma_kv(0x20920004, (x.b as int)); }
pub proof fn rt_InfmsgUbxSpi(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920005, (x.b as int)) + t) == Some(CfgVal::InfmsgUbxSpi(x)), le4(kv1(0x20920005, (x.b as int)), 0) == 0x20920005, kv1(0x20920005, (x.b as int)).len() == 4 + class_len(0x20920005),
{ broadcast use lemma_kv_len; lemma_kv(0x20920005, (x.b as int)); }
pub proof fn rt_InfmsgNmeaI2c(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920006, (x.b as int)) + t) == Some(CfgVal::InfmsgNmeaI2c(x)), le4(kv1(0x20920006, (x.b as int)), 0) == 0x20920006, kv1(0x20920006, (x.b as int)).len() == 4 + class_len(0x20920006),
{ broadcast use lemma_kv_len; lemma_kv(0x20920006, (x.b as int)); }
pub proof fn rt_InfmsgNmeaUart1(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920007, (x.b as int)) + t) == Some(CfgVal::InfmsgNmeaUart1(x)), le4(kv1(0x20920007, (x.b as int)), 0) == 0x20920007, kv1(0x20920007, (x.b as int)).len() == 4 + class_len(0x20920007),
{ broadcast use lemma_kv_len; lemma_kv(0x20920007, (x.b as int)); }
pub proof fn rt_InfmsgNmeaUart2(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920008, (x.b as int)) + t) == Some(CfgVal::InfmsgNmeaUart2(x)), le4(kv1(0x20920008, (x.b as int)), 0) == 0x20920008, kv1(0x20920008, (x.b as int)).len() == 4 + class_len(0x20920008),
{ broadcast use lemma_kv_len; lemma_kv(0x20920008, (x.b as int)); }
pub proof fn rt_InfmsgNmeaUsb(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x20920009, (x.b as int)) + t) == Some(CfgVal::InfmsgNmeaUsb(x)), le4(kv1(0x20920009, (x.b as int)), 0) == 0x20920009, kv1(0x20920009, (x.b as int)).len() == 4 + class_len(0x20920009),
{ broadcast use lemma_kv_len; lemma_kv(0x20920009, (x.b as int)); }
} pub use rt0::*;
pub mod rt1 { use super::*;
pub proof fn rt_InfmsgNmeaSpi(x: CfgInfMask, t: Seq<u8>)
    ensures item_at(kv1(0x2092000a, (x.b as int)) + t) == Some(CfgVal::InfmsgNmeaSpi(x)), le4(kv1(0x2092000a, (x.b as int)), 0) == 0x2092000a, kv1(0x2092000a, (x.b as int)).len() == 4 + class_len(0x2092000a),
{ broadcast use lemma_kv_len; lemma_kv(0x2092000a, (x.b as int)); }
pub proof fn rt_RateMeas(x: u16, t: Seq<u8>)
    ensures item_at(kv2(0x30210001, (x as int)) + t) == Some(CfgVal::RateMeas(x)), le4(kv2(0x30210001, (x as int)), 0) == 0x30210001, kv2(0x30210001, (x as int)).len() == 4 + class_len(0x30210001),
{ broadcast use lemma_kv_len; lemma_kv(0x30210001, (x as int)); }
pub proof fn rt_RateNav(x: u16, t: Seq<u8>)
    ensures item_at(kv2(0x30210002, (x as int)) + t) == Some(CfgVal::RateNav(x)), le4(kv2(0x30210002, (x as int)), 0) == 0x30210002, kv2(0x30210002, (x as int)).len() == 4 + class_len(0x30210002),
{ broadcast use lemma_kv_len; lemma_kv(0x30210002, (x as int)); }
pub proof fn rt_RateTimeref(x: AlignmentToReferenceTime, t: Seq<u8>)
    ensures item_at(kv1(0x20210003, AlignmentToReferenceTime_item(x)) + t) == Some(CfgVal::RateTimeref(x)), le4(kv1(0x20210003, AlignmentToReferenceTime_item(x)), 0) == 0x20210003, kv1(0x20210003, AlignmentToReferenceTime_item(x)).len() == 4 + class_len(0x20210003),
{ broadcast use lemma_kv_len; lemma_kv(0x20210003, AlignmentToReferenceTime_item(x)); }
pub proof fn rt_MsgoutNmeaIdDtmI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a6, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdDtmI2c(x)), le4(kv1(0x209100a6, (x as int)), 0) == 0x209100a6, kv1(0x209100a6, (x as int)).len() == 4 + class_len(0x209100a6),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a6, (x as int)); }
pub proof fn rt_MsgoutNmeaIdDtmSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100aa, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdDtmSpi(x)), le4(kv1(0x209100aa, (x as int)), 0) == 0x209100aa, kv1(0x209100aa, (x as int)).len() == 4 + class_len(0x209100aa),
{ broadcast use lemma_kv_len; lemma_kv(0x209100aa, (x as int)); }
pub proof fn rt_MsgoutNmeaIdDtmUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a7, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdDtmUart1(x)), le4(kv1(0x209100a7, (x as int)), 0) == 0x209100a7, kv1(0x209100a7, (x as int)).len() == 4 + class_len(0x209100a7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a7, (x as int)); }
pub proof fn rt_MsgoutNmeaIdDtmUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a8, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdDtmUart2(x)), le4(kv1(0x209100a8, (x as int)), 0) == 0x209100a8, kv1(0x209100a8, (x as int)).len() == 4 + class_len(0x209100a8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a8, (x as int)); }
pub proof fn rt_MsgoutNmeaIdDtmUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a9, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdDtmUsb(x)), le4(kv1(0x209100a9, (x as int)), 0) == 0x209100a9, kv1(0x209100a9, (x as int)).len() == 4 + class_len(0x209100a9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a9, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGbsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100dd, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGbsI2c(x)), le4(kv1(0x209100dd, (x as int)), 0) == 0x209100dd, kv1(0x209100dd, (x as int)).len() == 4 + class_len(0x209100dd),
{ broadcast use lemma_kv_len; lemma_kv(0x209100dd, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGbsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100e1, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGbsSpi(x)), le4(kv1(0x209100e1, (x as int)), 0) == 0x209100e1, kv1(0x209100e1, (x as int)).len() == 4 + class_len(0x209100e1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100e1, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGbsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100de, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGbsUart1(x)), le4(kv1(0x209100de, (x as int)), 0) == 0x209100de, kv1(0x209100de, (x as int)).len() == 4 + class_len(0x209100de),
{ broadcast use lemma_kv_len; lemma_kv(0x209100de, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGbsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100df, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGbsUart2(x)), le4(kv1(0x209100df, (x as int)), 0) == 0x209100df, kv1(0x209100df, (x as int)).len() == 4 + class_len(0x209100df),
{ broadcast use lemma_kv_len; lemma_kv(0x209100df, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGbsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100e0, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGbsUsb(x)), le4(kv1(0x209100e0, (x as int)), 0) == 0x209100e0, kv1(0x209100e0, (x as int)).len() == 4 + class_len(0x209100e0),
{ broadcast use lemma_kv_len; lemma_kv(0x209100e0, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGgaI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ba, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGgaI2c(x)), le4(kv1(0x209100ba, (x as int)), 0) == 0x209100ba, kv1(0x209100ba, (x as int)).len() == 4 + class_len(0x209100ba),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ba, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGgaSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100be, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGgaSpi(x)), le4(kv1(0x209100be, (x as int)), 0) == 0x209100be, kv1(0x209100be, (x as int)).len() == 4 + class_len(0x209100be),
{ broadcast use lemma_kv_len; lemma_kv(0x209100be, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGgaUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100bb, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGgaUart1(x)), le4(kv1(0x209100bb, (x as int)), 0) == 0x209100bb, kv1(0x209100bb, (x as int)).len() == 4 + class_len(0x209100bb),
{ broadcast use lemma_kv_len; lemma_kv(0x209100bb, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGgaUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100bc, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGgaUart2(x)), le4(kv1(0x209100bc, (x as int)), 0) == 0x209100bc, kv1(0x209100bc, (x as int)).len() == 4 + class_len(0x209100bc),
{ broadcast use lemma_kv_len; lemma_kv(0x209100bc, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGgaUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100bd, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGgaUsb(x)), le4(kv1(0x209100bd, (x as int)), 0) == 0x209100bd, kv1(0x209100bd, (x as int)).len() == 4 + class_len(0x209100bd),
{ broadcast use lemma_kv_len; lemma_kv(0x209100bd, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGllI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c9, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGllI2c(x)), le4(kv1(0x209100c9, (x as int)), 0) == 0x209100c9, kv1(0x209100c9, (x as int)).len() == 4 + class_len(0x209100c9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c9, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGllSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100cd, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGllSpi(x)), le4(kv1(0x209100cd, (x as int)), 0) == 0x209100cd, kv1(0x209100cd, (x as int)).len() == 4 + class_len(0x209100cd),
{ broadcast use lemma_kv_len; lemma_kv(0x209100cd, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGllUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ca, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGllUart1(x)), le4(kv1(0x209100ca, (x as int)), 0) == 0x209100ca, kv1(0x209100ca, (x as int)).len() == 4 + class_len(0x209100ca),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ca, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGllUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100cb, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGllUart2(x)), le4(kv1(0x209100cb, (x as int)), 0) == 0x209100cb, kv1(0x209100cb, (x as int)).len() == 4 + class_len(0x209100cb),
{ broadcast use lemma_kv_len; lemma_kv(0x209100cb, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGllUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100cc, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGllUsb(x)), le4(kv1(0x209100cc, (x as int)), 0) == 0x209100cc, kv1(0x209100cc, (x as int)).len() == 4 + class_len(0x209100cc),
{ broadcast use lemma_kv_len; lemma_kv(0x209100cc, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGnsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b5, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGnsI2c(x)), le4(kv1(0x209100b5, (x as int)), 0) == 0x209100b5, kv1(0x209100b5, (x as int)).len() == 4 + class_len(0x209100b5),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b5, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGnsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b9, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGnsSpi(x)), le4(kv1(0x209100b9, (x as int)), 0) == 0x209100b9, kv1(0x209100b9, (x as int)).len() == 4 + class_len(0x209100b9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b9, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGnsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b6, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGnsUart1(x)), le4(kv1(0x209100b6, (x as int)), 0) == 0x209100b6, kv1(0x209100b6, (x as int)).len() == 4 + class_len(0x209100b6),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b6, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGnsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b7, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGnsUart2(x)), le4(kv1(0x209100b7, (x as int)), 0) == 0x209100b7, kv1(0x209100b7, (x as int)).len() == 4 + class_len(0x209100b7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b7, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGnsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b8, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGnsUsb(x)), le4(kv1(0x209100b8, (x as int)), 0) == 0x209100b8, kv1(0x209100b8, (x as int)).len() == 4 + class_len(0x209100b8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b8, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGrsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ce, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGrsI2c(x)), le4(kv1(0x209100ce, (x as int)), 0) == 0x209100ce, kv1(0x209100ce, (x as int)).len() == 4 + class_len(0x209100ce),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ce, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGrsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d2, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGrsSpi(x)), le4(kv1(0x209100d2, (x as int)), 0) == 0x209100d2, kv1(0x209100d2, (x as int)).len() == 4 + class_len(0x209100d2),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d2, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGrsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100cf, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGrsUart1(x)), le4(kv1(0x209100cf, (x as int)), 0) == 0x209100cf, kv1(0x209100cf, (x as int)).len() == 4 + class_len(0x209100cf),
{ broadcast use lemma_kv_len; lemma_kv(0x209100cf, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGrsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d0, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGrsUart2(x)), le4(kv1(0x209100d0, (x as int)), 0) == 0x209100d0, kv1(0x209100d0, (x as int)).len() == 4 + class_len(0x209100d0),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d0, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGrsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d1, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGrsUsb(x)), le4(kv1(0x209100d1, (x as int)), 0) == 0x209100d1, kv1(0x209100d1, (x as int)).len() == 4 + class_len(0x209100d1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d1, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsaI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100bf, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsaI2c(x)), le4(kv1(0x209100bf, (x as int)), 0) == 0x209100bf, kv1(0x209100bf, (x as int)).len() == 4 + class_len(0x209100bf),
{ broadcast use lemma_kv_len; lemma_kv(0x209100bf, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsaSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c3, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsaSpi(x)), le4(kv1(0x209100c3, (x as int)), 0) == 0x209100c3, kv1(0x209100c3, (x as int)).len() == 4 + class_len(0x209100c3),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c3, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsaUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c0, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsaUart1(x)), le4(kv1(0x209100c0, (x as int)), 0) == 0x209100c0, kv1(0x209100c0, (x as int)).len() == 4 + class_len(0x209100c0),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c0, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsaUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c1, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsaUart2(x)), le4(kv1(0x209100c1, (x as int)), 0) == 0x209100c1, kv1(0x209100c1, (x as int)).len() == 4 + class_len(0x209100c1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c1, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsaUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c2, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsaUsb(x)), le4(kv1(0x209100c2, (x as int)), 0) == 0x209100c2, kv1(0x209100c2, (x as int)).len() == 4 + class_len(0x209100c2),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c2, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGstI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d3, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGstI2c(x)), le4(kv1(0x209100d3, (x as int)), 0) == 0x209100d3, kv1(0x209100d3, (x as int)).len() == 4 + class_len(0x209100d3),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d3, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGstSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d7, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGstSpi(x)), le4(kv1(0x209100d7, (x as int)), 0) == 0x209100d7, kv1(0x209100d7, (x as int)).len() == 4 + class_len(0x209100d7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d7, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGstUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d4, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGstUart1(x)), le4(kv1(0x209100d4, (x as int)), 0) == 0x209100d4, kv1(0x209100d4, (x as int)).len() == 4 + class_len(0x209100d4),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d4, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGstUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d5, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGstUart2(x)), le4(kv1(0x209100d5, (x as int)), 0) == 0x209100d5, kv1(0x209100d5, (x as int)).len() == 4 + class_len(0x209100d5),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d5, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGstUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d6, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGstUsb(x)), le4(kv1(0x209100d6, (x as int)), 0) == 0x209100d6, kv1(0x209100d6, (x as int)).len() == 4 + class_len(0x209100d6),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d6, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsvI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c4, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsvI2c(x)), le4(kv1(0x209100c4, (x as int)), 0) == 0x209100c4, kv1(0x209100c4, (x as int)).len() == 4 + class_len(0x209100c4),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c4, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsvSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c8, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsvSpi(x)), le4(kv1(0x209100c8, (x as int)), 0) == 0x209100c8, kv1(0x209100c8, (x as int)).len() == 4 + class_len(0x209100c8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c8, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsvUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c5, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsvUart1(x)), le4(kv1(0x209100c5, (x as int)), 0) == 0x209100c5, kv1(0x209100c5, (x as int)).len() == 4 + class_len(0x209100c5),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c5, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsvUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c6, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsvUart2(x)), le4(kv1(0x209100c6, (x as int)), 0) == 0x209100c6, kv1(0x209100c6, (x as int)).len() == 4 + class_len(0x209100c6),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c6, (x as int)); }
pub proof fn rt_MsgoutNmeaIdGsvUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100c7, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdGsvUsb(x)), le4(kv1(0x209100c7, (x as int)), 0) == 0x209100c7, kv1(0x209100c7, (x as int)).len() == 4 + class_len(0x209100c7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100c7, (x as int)); }
pub proof fn rt_MsgoutNmeaIdRmcI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ab, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdRmcI2c(x)), le4(kv1(0x209100ab, (x as int)), 0) == 0x209100ab, kv1(0x209100ab, (x as int)).len() == 4 + class_len(0x209100ab),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ab, (x as int)); }
pub proof fn rt_MsgoutNmeaIdRmcSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100af, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdRmcSpi(x)), le4(kv1(0x209100af, (x as int)), 0) == 0x209100af, kv1(0x209100af, (x as int)).len() == 4 + class_len(0x209100af),
{ broadcast use lemma_kv_len; lemma_kv(0x209100af, (x as int)); }
pub proof fn rt_MsgoutNmeaIdRmcUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ac, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdRmcUart1(x)), le4(kv1(0x209100ac, (x as int)), 0) == 0x209100ac, kv1(0x209100ac, (x as int)).len() == 4 + class_len(0x209100ac),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ac, (x as int)); }
pub proof fn rt_MsgoutNmeaIdRmcUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ad, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdRmcUart2(x)), le4(kv1(0x209100ad, (x as int)), 0) == 0x209100ad, kv1(0x209100ad, (x as int)).len() == 4 + class_len(0x209100ad),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ad, (x as int)); }
pub proof fn rt_MsgoutNmeaIdRmcUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ae, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdRmcUsb(x)), le4(kv1(0x209100ae, (x as int)), 0) == 0x209100ae, kv1(0x209100ae, (x as int)).len() == 4 + class_len(0x209100ae),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ae, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVlwI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100e7, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVlwI2c(x)), le4(kv1(0x209100e7, (x as int)), 0) == 0x209100e7, kv1(0x209100e7, (x as int)).len() == 4 + class_len(0x209100e7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100e7, (x as int)); }
} pub use rt1::*;
pub mod rt2 { use super::*;
pub proof fn rt_MsgoutNmeaIdVlwSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100eb, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVlwSpi(x)), le4(kv1(0x209100eb, (x as int)), 0) == 0x209100eb, kv1(0x209100eb, (x as int)).len() == 4 + class_len(0x209100eb),
{ broadcast use lemma_kv_len; lemma_kv(0x209100eb, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVlwUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100e8, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVlwUart1(x)), le4(kv1(0x209100e8, (x as int)), 0) == 0x209100e8, kv1(0x209100e8, (x as int)).len() == 4 + class_len(0x209100e8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100e8, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVlwUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100e9, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVlwUart2(x)), le4(kv1(0x209100e9, (x as int)), 0) == 0x209100e9, kv1(0x209100e9, (x as int)).len() == 4 + class_len(0x209100e9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100e9, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVlwUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ea, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVlwUsb(x)), le4(kv1(0x209100ea, (x as int)), 0) == 0x209100ea, kv1(0x209100ea, (x as int)).len() == 4 + class_len(0x209100ea),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ea, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVtgI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b0, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVtgI2c(x)), le4(kv1(0x209100b0, (x as int)), 0) == 0x209100b0, kv1(0x209100b0, (x as int)).len() == 4 + class_len(0x209100b0),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b0, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVtgSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b4, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVtgSpi(x)), le4(kv1(0x209100b4, (x as int)), 0) == 0x209100b4, kv1(0x209100b4, (x as int)).len() == 4 + class_len(0x209100b4),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b4, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVtgUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b1, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVtgUart1(x)), le4(kv1(0x209100b1, (x as int)), 0) == 0x209100b1, kv1(0x209100b1, (x as int)).len() == 4 + class_len(0x209100b1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b1, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVtgUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b2, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVtgUart2(x)), le4(kv1(0x209100b2, (x as int)), 0) == 0x209100b2, kv1(0x209100b2, (x as int)).len() == 4 + class_len(0x209100b2),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b2, (x as int)); }
pub proof fn rt_MsgoutNmeaIdVtgUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100b3, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdVtgUsb(x)), le4(kv1(0x209100b3, (x as int)), 0) == 0x209100b3, kv1(0x209100b3, (x as int)).len() == 4 + class_len(0x209100b3),
{ broadcast use lemma_kv_len; lemma_kv(0x209100b3, (x as int)); }
pub proof fn rt_MsgoutNmeaIdZdaI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d8, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdZdaI2c(x)), le4(kv1(0x209100d8, (x as int)), 0) == 0x209100d8, kv1(0x209100d8, (x as int)).len() == 4 + class_len(0x209100d8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d8, (x as int)); }
pub proof fn rt_MsgoutNmeaIdZdaSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100dc, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdZdaSpi(x)), le4(kv1(0x209100dc, (x as int)), 0) == 0x209100dc, kv1(0x209100dc, (x as int)).len() == 4 + class_len(0x209100dc),
{ broadcast use lemma_kv_len; lemma_kv(0x209100dc, (x as int)); }
pub proof fn rt_MsgoutNmeaIdZdaUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100d9, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdZdaUart1(x)), le4(kv1(0x209100d9, (x as int)), 0) == 0x209100d9, kv1(0x209100d9, (x as int)).len() == 4 + class_len(0x209100d9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100d9, (x as int)); }
pub proof fn rt_MsgoutNmeaIdZdaUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100da, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdZdaUart2(x)), le4(kv1(0x209100da, (x as int)), 0) == 0x209100da, kv1(0x209100da, (x as int)).len() == 4 + class_len(0x209100da),
{ broadcast use lemma_kv_len; lemma_kv(0x209100da, (x as int)); }
pub proof fn rt_MsgoutNmeaIdZdaUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100db, (x as int)) + t) == Some(CfgVal::MsgoutNmeaIdZdaUsb(x)), le4(kv1(0x209100db, (x as int)), 0) == 0x209100db, kv1(0x209100db, (x as int)).len() == 4 + class_len(0x209100db),
{ broadcast use lemma_kv_len; lemma_kv(0x209100db, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolypI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ec, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolypI2c(x)), le4(kv1(0x209100ec, (x as int)), 0) == 0x209100ec, kv1(0x209100ec, (x as int)).len() == 4 + class_len(0x209100ec),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ec, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolypSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f0, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolypSpi(x)), le4(kv1(0x209100f0, (x as int)), 0) == 0x209100f0, kv1(0x209100f0, (x as int)).len() == 4 + class_len(0x209100f0),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f0, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolypUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ed, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolypUart1(x)), le4(kv1(0x209100ed, (x as int)), 0) == 0x209100ed, kv1(0x209100ed, (x as int)).len() == 4 + class_len(0x209100ed),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ed, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolypUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ee, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolypUart2(x)), le4(kv1(0x209100ee, (x as int)), 0) == 0x209100ee, kv1(0x209100ee, (x as int)).len() == 4 + class_len(0x209100ee),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ee, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolypUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100ef, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolypUsb(x)), le4(kv1(0x209100ef, (x as int)), 0) == 0x209100ef, kv1(0x209100ef, (x as int)).len() == 4 + class_len(0x209100ef),
{ broadcast use lemma_kv_len; lemma_kv(0x209100ef, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolysI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f1, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolysI2c(x)), le4(kv1(0x209100f1, (x as int)), 0) == 0x209100f1, kv1(0x209100f1, (x as int)).len() == 4 + class_len(0x209100f1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f1, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolysSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f5, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolysSpi(x)), le4(kv1(0x209100f5, (x as int)), 0) == 0x209100f5, kv1(0x209100f5, (x as int)).len() == 4 + class_len(0x209100f5),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f5, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolysUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f2, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolysUart1(x)), le4(kv1(0x209100f2, (x as int)), 0) == 0x209100f2, kv1(0x209100f2, (x as int)).len() == 4 + class_len(0x209100f2),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f2, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolysUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f3, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolysUart2(x)), le4(kv1(0x209100f3, (x as int)), 0) == 0x209100f3, kv1(0x209100f3, (x as int)).len() == 4 + class_len(0x209100f3),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f3, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolysUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f4, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolysUsb(x)), le4(kv1(0x209100f4, (x as int)), 0) == 0x209100f4, kv1(0x209100f4, (x as int)).len() == 4 + class_len(0x209100f4),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f4, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolytI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f6, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolytI2c(x)), le4(kv1(0x209100f6, (x as int)), 0) == 0x209100f6, kv1(0x209100f6, (x as int)).len() == 4 + class_len(0x209100f6),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f6, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolytSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100fa, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolytSpi(x)), le4(kv1(0x209100fa, (x as int)), 0) == 0x209100fa, kv1(0x209100fa, (x as int)).len() == 4 + class_len(0x209100fa),
{ broadcast use lemma_kv_len; lemma_kv(0x209100fa, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolytUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f7, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolytUart1(x)), le4(kv1(0x209100f7, (x as int)), 0) == 0x209100f7, kv1(0x209100f7, (x as int)).len() == 4 + class_len(0x209100f7),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f7, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolytUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f8, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolytUart2(x)), le4(kv1(0x209100f8, (x as int)), 0) == 0x209100f8, kv1(0x209100f8, (x as int)).len() == 4 + class_len(0x209100f8),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f8, (x as int)); }
pub proof fn rt_MsgoutPubxIdPolytUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100f9, (x as int)) + t) == Some(CfgVal::MsgoutPubxIdPolytUsb(x)), le4(kv1(0x209100f9, (x as int)), 0) == 0x209100f9, kv1(0x209100f9, (x as int)).len() == 4 + class_len(0x209100f9),
{ broadcast use lemma_kv_len; lemma_kv(0x209100f9, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1005I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102bd, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1005I2c(x)), le4(kv1(0x209102bd, (x as int)), 0) == 0x209102bd, kv1(0x209102bd, (x as int)).len() == 4 + class_len(0x209102bd),
{ broadcast use lemma_kv_len; lemma_kv(0x209102bd, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1005Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102c1, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1005Spi(x)), le4(kv1(0x209102c1, (x as int)), 0) == 0x209102c1, kv1(0x209102c1, (x as int)).len() == 4 + class_len(0x209102c1),
{ broadcast use lemma_kv_len; lemma_kv(0x209102c1, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1005Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102be, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1005Uart1(x)), le4(kv1(0x209102be, (x as int)), 0) == 0x209102be, kv1(0x209102be, (x as int)).len() == 4 + class_len(0x209102be),
{ broadcast use lemma_kv_len; lemma_kv(0x209102be, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1005Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102bf, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1005Uart2(x)), le4(kv1(0x209102bf, (x as int)), 0) == 0x209102bf, kv1(0x209102bf, (x as int)).len() == 4 + class_len(0x209102bf),
{ broadcast use lemma_kv_len; lemma_kv(0x209102bf, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1005Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102c0, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1005Usb(x)), le4(kv1(0x209102c0, (x as int)), 0) == 0x209102c0, kv1(0x209102c0, (x as int)).len() == 4 + class_len(0x209102c0),
{ broadcast use lemma_kv_len; lemma_kv(0x209102c0, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1074I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035e, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1074I2c(x)), le4(kv1(0x2091035e, (x as int)), 0) == 0x2091035e, kv1(0x2091035e, (x as int)).len() == 4 + class_len(0x2091035e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035e, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1074Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910362, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1074Spi(x)), le4(kv1(0x20910362, (x as int)), 0) == 0x20910362, kv1(0x20910362, (x as int)).len() == 4 + class_len(0x20910362),
{ broadcast use lemma_kv_len; lemma_kv(0x20910362, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1074Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035f, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1074Uart1(x)), le4(kv1(0x2091035f, (x as int)), 0) == 0x2091035f, kv1(0x2091035f, (x as int)).len() == 4 + class_len(0x2091035f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035f, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1074Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910360, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1074Uart2(x)), le4(kv1(0x20910360, (x as int)), 0) == 0x20910360, kv1(0x20910360, (x as int)).len() == 4 + class_len(0x20910360),
{ broadcast use lemma_kv_len; lemma_kv(0x20910360, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1074Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910361, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1074Usb(x)), le4(kv1(0x20910361, (x as int)), 0) == 0x20910361, kv1(0x20910361, (x as int)).len() == 4 + class_len(0x20910361),
{ broadcast use lemma_kv_len; lemma_kv(0x20910361, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1077I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102cc, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1077I2c(x)), le4(kv1(0x209102cc, (x as int)), 0) == 0x209102cc, kv1(0x209102cc, (x as int)).len() == 4 + class_len(0x209102cc),
{ broadcast use lemma_kv_len; lemma_kv(0x209102cc, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1077Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d0, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1077Spi(x)), le4(kv1(0x209102d0, (x as int)), 0) == 0x209102d0, kv1(0x209102d0, (x as int)).len() == 4 + class_len(0x209102d0),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d0, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1077Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102cd, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1077Uart1(x)), le4(kv1(0x209102cd, (x as int)), 0) == 0x209102cd, kv1(0x209102cd, (x as int)).len() == 4 + class_len(0x209102cd),
{ broadcast use lemma_kv_len; lemma_kv(0x209102cd, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1077Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102ce, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1077Uart2(x)), le4(kv1(0x209102ce, (x as int)), 0) == 0x209102ce, kv1(0x209102ce, (x as int)).len() == 4 + class_len(0x209102ce),
{ broadcast use lemma_kv_len; lemma_kv(0x209102ce, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1077Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102cf, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1077Usb(x)), le4(kv1(0x209102cf, (x as int)), 0) == 0x209102cf, kv1(0x209102cf, (x as int)).len() == 4 + class_len(0x209102cf),
{ broadcast use lemma_kv_len; lemma_kv(0x209102cf, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1084I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910363, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1084I2c(x)), le4(kv1(0x20910363, (x as int)), 0) == 0x20910363, kv1(0x20910363, (x as int)).len() == 4 + class_len(0x20910363),
{ broadcast use lemma_kv_len; lemma_kv(0x20910363, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1084Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910367, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1084Spi(x)), le4(kv1(0x20910367, (x as int)), 0) == 0x20910367, kv1(0x20910367, (x as int)).len() == 4 + class_len(0x20910367),
{ broadcast use lemma_kv_len; lemma_kv(0x20910367, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1084Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910364, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1084Uart1(x)), le4(kv1(0x20910364, (x as int)), 0) == 0x20910364, kv1(0x20910364, (x as int)).len() == 4 + class_len(0x20910364),
{ broadcast use lemma_kv_len; lemma_kv(0x20910364, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1084Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910365, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1084Uart2(x)), le4(kv1(0x20910365, (x as int)), 0) == 0x20910365, kv1(0x20910365, (x as int)).len() == 4 + class_len(0x20910365),
{ broadcast use lemma_kv_len; lemma_kv(0x20910365, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1084Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910366, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1084Usb(x)), le4(kv1(0x20910366, (x as int)), 0) == 0x20910366, kv1(0x20910366, (x as int)).len() == 4 + class_len(0x20910366),
{ broadcast use lemma_kv_len; lemma_kv(0x20910366, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1087I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d1, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1087I2c(x)), le4(kv1(0x209102d1, (x as int)), 0) == 0x209102d1, kv1(0x209102d1, (x as int)).len() == 4 + class_len(0x209102d1),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d1, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1087Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d5, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1087Spi(x)), le4(kv1(0x209102d5, (x as int)), 0) == 0x209102d5, kv1(0x209102d5, (x as int)).len() == 4 + class_len(0x209102d5),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d5, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1087Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d2, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1087Uart1(x)), le4(kv1(0x209102d2, (x as int)), 0) == 0x209102d2, kv1(0x209102d2, (x as int)).len() == 4 + class_len(0x209102d2),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d2, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1087Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d3, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1087Uart2(x)), le4(kv1(0x209102d3, (x as int)), 0) == 0x209102d3, kv1(0x209102d3, (x as int)).len() == 4 + class_len(0x209102d3),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d3, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1087Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d4, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1087Usb(x)), le4(kv1(0x209102d4, (x as int)), 0) == 0x209102d4, kv1(0x209102d4, (x as int)).len() == 4 + class_len(0x209102d4),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d4, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1094I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910368, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1094I2c(x)), le4(kv1(0x20910368, (x as int)), 0) == 0x20910368, kv1(0x20910368, (x as int)).len() == 4 + class_len(0x20910368),
{ broadcast use lemma_kv_len; lemma_kv(0x20910368, (x as int)); }
} pub use rt2::*;
pub mod rt3 { use super::*;
pub proof fn rt_MsgoutRtcm3xType1094Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036c, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1094Spi(x)), le4(kv1(0x2091036c, (x as int)), 0) == 0x2091036c, kv1(0x2091036c, (x as int)).len() == 4 + class_len(0x2091036c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036c, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1094Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910369, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1094Uart1(x)), le4(kv1(0x20910369, (x as int)), 0) == 0x20910369, kv1(0x20910369, (x as int)).len() == 4 + class_len(0x20910369),
{ broadcast use lemma_kv_len; lemma_kv(0x20910369, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1094Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036a, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1094Uart2(x)), le4(kv1(0x2091036a, (x as int)), 0) == 0x2091036a, kv1(0x2091036a, (x as int)).len() == 4 + class_len(0x2091036a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036a, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1094Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036b, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1094Usb(x)), le4(kv1(0x2091036b, (x as int)), 0) == 0x2091036b, kv1(0x2091036b, (x as int)).len() == 4 + class_len(0x2091036b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036b, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1097I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910318, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1097I2c(x)), le4(kv1(0x20910318, (x as int)), 0) == 0x20910318, kv1(0x20910318, (x as int)).len() == 4 + class_len(0x20910318),
{ broadcast use lemma_kv_len; lemma_kv(0x20910318, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1097Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091031c, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1097Spi(x)), le4(kv1(0x2091031c, (x as int)), 0) == 0x2091031c, kv1(0x2091031c, (x as int)).len() == 4 + class_len(0x2091031c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091031c, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1097Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910319, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1097Uart1(x)), le4(kv1(0x20910319, (x as int)), 0) == 0x20910319, kv1(0x20910319, (x as int)).len() == 4 + class_len(0x20910319),
{ broadcast use lemma_kv_len; lemma_kv(0x20910319, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1097Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091031a, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1097Uart2(x)), le4(kv1(0x2091031a, (x as int)), 0) == 0x2091031a, kv1(0x2091031a, (x as int)).len() == 4 + class_len(0x2091031a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091031a, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1097Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091031b, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1097Usb(x)), le4(kv1(0x2091031b, (x as int)), 0) == 0x2091031b, kv1(0x2091031b, (x as int)).len() == 4 + class_len(0x2091031b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091031b, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1124I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036d, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1124I2c(x)), le4(kv1(0x2091036d, (x as int)), 0) == 0x2091036d, kv1(0x2091036d, (x as int)).len() == 4 + class_len(0x2091036d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036d, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1124Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910371, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1124Spi(x)), le4(kv1(0x20910371, (x as int)), 0) == 0x20910371, kv1(0x20910371, (x as int)).len() == 4 + class_len(0x20910371),
{ broadcast use lemma_kv_len; lemma_kv(0x20910371, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1124Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036e, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1124Uart1(x)), le4(kv1(0x2091036e, (x as int)), 0) == 0x2091036e, kv1(0x2091036e, (x as int)).len() == 4 + class_len(0x2091036e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036e, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1124Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091036f, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1124Uart2(x)), le4(kv1(0x2091036f, (x as int)), 0) == 0x2091036f, kv1(0x2091036f, (x as int)).len() == 4 + class_len(0x2091036f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091036f, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1124Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910370, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1124Usb(x)), le4(kv1(0x20910370, (x as int)), 0) == 0x20910370, kv1(0x20910370, (x as int)).len() == 4 + class_len(0x20910370),
{ broadcast use lemma_kv_len; lemma_kv(0x20910370, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1127I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d6, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1127I2c(x)), le4(kv1(0x209102d6, (x as int)), 0) == 0x209102d6, kv1(0x209102d6, (x as int)).len() == 4 + class_len(0x209102d6),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d6, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1127Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102da, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1127Spi(x)), le4(kv1(0x209102da, (x as int)), 0) == 0x209102da, kv1(0x209102da, (x as int)).len() == 4 + class_len(0x209102da),
{ broadcast use lemma_kv_len; lemma_kv(0x209102da, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1127Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d7, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1127Uart1(x)), le4(kv1(0x209102d7, (x as int)), 0) == 0x209102d7, kv1(0x209102d7, (x as int)).len() == 4 + class_len(0x209102d7),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d7, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1127Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d8, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1127Uart2(x)), le4(kv1(0x209102d8, (x as int)), 0) == 0x209102d8, kv1(0x209102d8, (x as int)).len() == 4 + class_len(0x209102d8),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d8, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1127Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102d9, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1127Usb(x)), le4(kv1(0x209102d9, (x as int)), 0) == 0x209102d9, kv1(0x209102d9, (x as int)).len() == 4 + class_len(0x209102d9),
{ broadcast use lemma_kv_len; lemma_kv(0x209102d9, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1230I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910303, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1230I2c(x)), le4(kv1(0x20910303, (x as int)), 0) == 0x20910303, kv1(0x20910303, (x as int)).len() == 4 + class_len(0x20910303),
{ broadcast use lemma_kv_len; lemma_kv(0x20910303, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1230Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910307, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1230Spi(x)), le4(kv1(0x20910307, (x as int)), 0) == 0x20910307, kv1(0x20910307, (x as int)).len() == 4 + class_len(0x20910307),
{ broadcast use lemma_kv_len; lemma_kv(0x20910307, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1230Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910304, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1230Uart1(x)), le4(kv1(0x20910304, (x as int)), 0) == 0x20910304, kv1(0x20910304, (x as int)).len() == 4 + class_len(0x20910304),
{ broadcast use lemma_kv_len; lemma_kv(0x20910304, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1230Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910305, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1230Uart2(x)), le4(kv1(0x20910305, (x as int)), 0) == 0x20910305, kv1(0x20910305, (x as int)).len() == 4 + class_len(0x20910305),
{ broadcast use lemma_kv_len; lemma_kv(0x20910305, (x as int)); }
pub proof fn rt_MsgoutRtcm3xType1230Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910306, (x as int)) + t) == Some(CfgVal::MsgoutRtcm3xType1230Usb(x)), le4(kv1(0x20910306, (x as int)), 0) == 0x20910306, kv1(0x20910306, (x as int)).len() == 4 + class_len(0x20910306),
{ broadcast use lemma_kv_len; lemma_kv(0x20910306, (x as int)); }
pub proof fn rt_MsgoutUbxLogInfoI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910259, (x as int)) + t) == Some(CfgVal::MsgoutUbxLogInfoI2c(x)), le4(kv1(0x20910259, (x as int)), 0) == 0x20910259, kv1(0x20910259, (x as int)).len() == 4 + class_len(0x20910259),
{ broadcast use lemma_kv_len; lemma_kv(0x20910259, (x as int)); }
pub proof fn rt_MsgoutUbxLogInfoSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025d, (x as int)) + t) == Some(CfgVal::MsgoutUbxLogInfoSpi(x)), le4(kv1(0x2091025d, (x as int)), 0) == 0x2091025d, kv1(0x2091025d, (x as int)).len() == 4 + class_len(0x2091025d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025d, (x as int)); }
pub proof fn rt_MsgoutUbxLogInfoUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025a, (x as int)) + t) == Some(CfgVal::MsgoutUbxLogInfoUart1(x)), le4(kv1(0x2091025a, (x as int)), 0) == 0x2091025a, kv1(0x2091025a, (x as int)).len() == 4 + class_len(0x2091025a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025a, (x as int)); }
pub proof fn rt_MsgoutUbxLogInfoUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025b, (x as int)) + t) == Some(CfgVal::MsgoutUbxLogInfoUart2(x)), le4(kv1(0x2091025b, (x as int)), 0) == 0x2091025b, kv1(0x2091025b, (x as int)).len() == 4 + class_len(0x2091025b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025b, (x as int)); }
pub proof fn rt_MsgoutUbxLogInfoUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025c, (x as int)) + t) == Some(CfgVal::MsgoutUbxLogInfoUsb(x)), le4(kv1(0x2091025c, (x as int)), 0) == 0x2091025c, kv1(0x2091025c, (x as int)).len() == 4 + class_len(0x2091025c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025c, (x as int)); }
pub proof fn rt_MsgoutUbxMonCommsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091034f, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonCommsI2c(x)), le4(kv1(0x2091034f, (x as int)), 0) == 0x2091034f, kv1(0x2091034f, (x as int)).len() == 4 + class_len(0x2091034f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091034f, (x as int)); }
pub proof fn rt_MsgoutUbxMonCommsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910353, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonCommsSpi(x)), le4(kv1(0x20910353, (x as int)), 0) == 0x20910353, kv1(0x20910353, (x as int)).len() == 4 + class_len(0x20910353),
{ broadcast use lemma_kv_len; lemma_kv(0x20910353, (x as int)); }
pub proof fn rt_MsgoutUbxMonCommsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910350, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonCommsUart1(x)), le4(kv1(0x20910350, (x as int)), 0) == 0x20910350, kv1(0x20910350, (x as int)).len() == 4 + class_len(0x20910350),
{ broadcast use lemma_kv_len; lemma_kv(0x20910350, (x as int)); }
pub proof fn rt_MsgoutUbxMonCommsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910351, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonCommsUart2(x)), le4(kv1(0x20910351, (x as int)), 0) == 0x20910351, kv1(0x20910351, (x as int)).len() == 4 + class_len(0x20910351),
{ broadcast use lemma_kv_len; lemma_kv(0x20910351, (x as int)); }
pub proof fn rt_MsgoutUbxMonCommsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910352, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonCommsUsb(x)), le4(kv1(0x20910352, (x as int)), 0) == 0x20910352, kv1(0x20910352, (x as int)).len() == 4 + class_len(0x20910352),
{ broadcast use lemma_kv_len; lemma_kv(0x20910352, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw2I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b9, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw2I2c(x)), le4(kv1(0x209101b9, (x as int)), 0) == 0x209101b9, kv1(0x209101b9, (x as int)).len() == 4 + class_len(0x209101b9),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b9, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw2Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101bd, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw2Spi(x)), le4(kv1(0x209101bd, (x as int)), 0) == 0x209101bd, kv1(0x209101bd, (x as int)).len() == 4 + class_len(0x209101bd),
{ broadcast use lemma_kv_len; lemma_kv(0x209101bd, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw2Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101ba, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw2Uart1(x)), le4(kv1(0x209101ba, (x as int)), 0) == 0x209101ba, kv1(0x209101ba, (x as int)).len() == 4 + class_len(0x209101ba),
{ broadcast use lemma_kv_len; lemma_kv(0x209101ba, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw2Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101bb, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw2Uart2(x)), le4(kv1(0x209101bb, (x as int)), 0) == 0x209101bb, kv1(0x209101bb, (x as int)).len() == 4 + class_len(0x209101bb),
{ broadcast use lemma_kv_len; lemma_kv(0x209101bb, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw2Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101bc, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw2Usb(x)), le4(kv1(0x209101bc, (x as int)), 0) == 0x209101bc, kv1(0x209101bc, (x as int)).len() == 4 + class_len(0x209101bc),
{ broadcast use lemma_kv_len; lemma_kv(0x209101bc, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw3I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910354, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw3I2c(x)), le4(kv1(0x20910354, (x as int)), 0) == 0x20910354, kv1(0x20910354, (x as int)).len() == 4 + class_len(0x20910354),
{ broadcast use lemma_kv_len; lemma_kv(0x20910354, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw3Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910358, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw3Spi(x)), le4(kv1(0x20910358, (x as int)), 0) == 0x20910358, kv1(0x20910358, (x as int)).len() == 4 + class_len(0x20910358),
{ broadcast use lemma_kv_len; lemma_kv(0x20910358, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw3Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910355, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw3Uart1(x)), le4(kv1(0x20910355, (x as int)), 0) == 0x20910355, kv1(0x20910355, (x as int)).len() == 4 + class_len(0x20910355),
{ broadcast use lemma_kv_len; lemma_kv(0x20910355, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw3Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910356, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw3Uart2(x)), le4(kv1(0x20910356, (x as int)), 0) == 0x20910356, kv1(0x20910356, (x as int)).len() == 4 + class_len(0x20910356),
{ broadcast use lemma_kv_len; lemma_kv(0x20910356, (x as int)); }
pub proof fn rt_MsgoutUbxMonHw3Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910357, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHw3Usb(x)), le4(kv1(0x20910357, (x as int)), 0) == 0x20910357, kv1(0x20910357, (x as int)).len() == 4 + class_len(0x20910357),
{ broadcast use lemma_kv_len; lemma_kv(0x20910357, (x as int)); }
pub proof fn rt_MsgoutUbxMonHwI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b4, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHwI2c(x)), le4(kv1(0x209101b4, (x as int)), 0) == 0x209101b4, kv1(0x209101b4, (x as int)).len() == 4 + class_len(0x209101b4),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b4, (x as int)); }
pub proof fn rt_MsgoutUbxMonHwSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b8, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHwSpi(x)), le4(kv1(0x209101b8, (x as int)), 0) == 0x209101b8, kv1(0x209101b8, (x as int)).len() == 4 + class_len(0x209101b8),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b8, (x as int)); }
pub proof fn rt_MsgoutUbxMonHwUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b5, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHwUart1(x)), le4(kv1(0x209101b5, (x as int)), 0) == 0x209101b5, kv1(0x209101b5, (x as int)).len() == 4 + class_len(0x209101b5),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b5, (x as int)); }
pub proof fn rt_MsgoutUbxMonHwUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b6, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHwUart2(x)), le4(kv1(0x209101b6, (x as int)), 0) == 0x209101b6, kv1(0x209101b6, (x as int)).len() == 4 + class_len(0x209101b6),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b6, (x as int)); }
pub proof fn rt_MsgoutUbxMonHwUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101b7, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonHwUsb(x)), le4(kv1(0x209101b7, (x as int)), 0) == 0x209101b7, kv1(0x209101b7, (x as int)).len() == 4 + class_len(0x209101b7),
{ broadcast use lemma_kv_len; lemma_kv(0x209101b7, (x as int)); }
pub proof fn rt_MsgoutUbxMonIoI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a5, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonIoI2c(x)), le4(kv1(0x209101a5, (x as int)), 0) == 0x209101a5, kv1(0x209101a5, (x as int)).len() == 4 + class_len(0x209101a5),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a5, (x as int)); }
pub proof fn rt_MsgoutUbxMonIoSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a9, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonIoSpi(x)), le4(kv1(0x209101a9, (x as int)), 0) == 0x209101a9, kv1(0x209101a9, (x as int)).len() == 4 + class_len(0x209101a9),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a9, (x as int)); }
pub proof fn rt_MsgoutUbxMonIoUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a6, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonIoUart1(x)), le4(kv1(0x209101a6, (x as int)), 0) == 0x209101a6, kv1(0x209101a6, (x as int)).len() == 4 + class_len(0x209101a6),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a6, (x as int)); }
pub proof fn rt_MsgoutUbxMonIoUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a7, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonIoUart2(x)), le4(kv1(0x209101a7, (x as int)), 0) == 0x209101a7, kv1(0x209101a7, (x as int)).len() == 4 + class_len(0x209101a7),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a7, (x as int)); }
pub proof fn rt_MsgoutUbxMonIoUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a8, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonIoUsb(x)), le4(kv1(0x209101a8, (x as int)), 0) == 0x209101a8, kv1(0x209101a8, (x as int)).len() == 4 + class_len(0x209101a8),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a8, (x as int)); }
pub proof fn rt_MsgoutUbxMonMsgPpI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910196, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonMsgPpI2c(x)), le4(kv1(0x20910196, (x as int)), 0) == 0x20910196, kv1(0x20910196, (x as int)).len() == 4 + class_len(0x20910196),
{ broadcast use lemma_kv_len; lemma_kv(0x20910196, (x as int)); }
} pub use rt3::*;
pub mod rt4 { use super::*;
pub proof fn rt_MsgoutUbxMonMsgPpSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019a, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonMsgPpSpi(x)), le4(kv1(0x2091019a, (x as int)), 0) == 0x2091019a, kv1(0x2091019a, (x as int)).len() == 4 + class_len(0x2091019a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019a, (x as int)); }
pub proof fn rt_MsgoutUbxMonMsgPpUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910197, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonMsgPpUart1(x)), le4(kv1(0x20910197, (x as int)), 0) == 0x20910197, kv1(0x20910197, (x as int)).len() == 4 + class_len(0x20910197),
{ broadcast use lemma_kv_len; lemma_kv(0x20910197, (x as int)); }
pub proof fn rt_MsgoutUbxMonMsgPpUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910198, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonMsgPpUart2(x)), le4(kv1(0x20910198, (x as int)), 0) == 0x20910198, kv1(0x20910198, (x as int)).len() == 4 + class_len(0x20910198),
{ broadcast use lemma_kv_len; lemma_kv(0x20910198, (x as int)); }
pub proof fn rt_MsgoutUbxMonMsgPpUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910199, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonMsgPpUsb(x)), le4(kv1(0x20910199, (x as int)), 0) == 0x20910199, kv1(0x20910199, (x as int)).len() == 4 + class_len(0x20910199),
{ broadcast use lemma_kv_len; lemma_kv(0x20910199, (x as int)); }
pub proof fn rt_MsgoutUbxMonRfI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910359, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRfI2c(x)), le4(kv1(0x20910359, (x as int)), 0) == 0x20910359, kv1(0x20910359, (x as int)).len() == 4 + class_len(0x20910359),
{ broadcast use lemma_kv_len; lemma_kv(0x20910359, (x as int)); }
pub proof fn rt_MsgoutUbxMonRfSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035d, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRfSpi(x)), le4(kv1(0x2091035d, (x as int)), 0) == 0x2091035d, kv1(0x2091035d, (x as int)).len() == 4 + class_len(0x2091035d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035d, (x as int)); }
pub proof fn rt_MsgoutUbxMonRfUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035a, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRfUart1(x)), le4(kv1(0x2091035a, (x as int)), 0) == 0x2091035a, kv1(0x2091035a, (x as int)).len() == 4 + class_len(0x2091035a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035a, (x as int)); }
pub proof fn rt_MsgoutUbxMonRfUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035b, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRfUart2(x)), le4(kv1(0x2091035b, (x as int)), 0) == 0x2091035b, kv1(0x2091035b, (x as int)).len() == 4 + class_len(0x2091035b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035b, (x as int)); }
pub proof fn rt_MsgoutUbxMonRfUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091035c, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRfUsb(x)), le4(kv1(0x2091035c, (x as int)), 0) == 0x2091035c, kv1(0x2091035c, (x as int)).len() == 4 + class_len(0x2091035c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091035c, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxbufI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a0, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxbufI2c(x)), le4(kv1(0x209101a0, (x as int)), 0) == 0x209101a0, kv1(0x209101a0, (x as int)).len() == 4 + class_len(0x209101a0),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a0, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxbufSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a4, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxbufSpi(x)), le4(kv1(0x209101a4, (x as int)), 0) == 0x209101a4, kv1(0x209101a4, (x as int)).len() == 4 + class_len(0x209101a4),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a4, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxbufUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a1, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxbufUart1(x)), le4(kv1(0x209101a1, (x as int)), 0) == 0x209101a1, kv1(0x209101a1, (x as int)).len() == 4 + class_len(0x209101a1),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a1, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxbufUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a2, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxbufUart2(x)), le4(kv1(0x209101a2, (x as int)), 0) == 0x209101a2, kv1(0x209101a2, (x as int)).len() == 4 + class_len(0x209101a2),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a2, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxbufUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209101a3, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxbufUsb(x)), le4(kv1(0x209101a3, (x as int)), 0) == 0x209101a3, kv1(0x209101a3, (x as int)).len() == 4 + class_len(0x209101a3),
{ broadcast use lemma_kv_len; lemma_kv(0x209101a3, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxrI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910187, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxrI2c(x)), le4(kv1(0x20910187, (x as int)), 0) == 0x20910187, kv1(0x20910187, (x as int)).len() == 4 + class_len(0x20910187),
{ broadcast use lemma_kv_len; lemma_kv(0x20910187, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxrSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091018b, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxrSpi(x)), le4(kv1(0x2091018b, (x as int)), 0) == 0x2091018b, kv1(0x2091018b, (x as int)).len() == 4 + class_len(0x2091018b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091018b, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxrUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910188, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxrUart1(x)), le4(kv1(0x20910188, (x as int)), 0) == 0x20910188, kv1(0x20910188, (x as int)).len() == 4 + class_len(0x20910188),
{ broadcast use lemma_kv_len; lemma_kv(0x20910188, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxrUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910189, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxrUart2(x)), le4(kv1(0x20910189, (x as int)), 0) == 0x20910189, kv1(0x20910189, (x as int)).len() == 4 + class_len(0x20910189),
{ broadcast use lemma_kv_len; lemma_kv(0x20910189, (x as int)); }
pub proof fn rt_MsgoutUbxMonRxrUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091018a, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonRxrUsb(x)), le4(kv1(0x2091018a, (x as int)), 0) == 0x2091018a, kv1(0x2091018a, (x as int)).len() == 4 + class_len(0x2091018a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091018a, (x as int)); }
pub proof fn rt_MsgoutUbxMonTxbufI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019b, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonTxbufI2c(x)), le4(kv1(0x2091019b, (x as int)), 0) == 0x2091019b, kv1(0x2091019b, (x as int)).len() == 4 + class_len(0x2091019b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019b, (x as int)); }
pub proof fn rt_MsgoutUbxMonTxbufSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019f, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonTxbufSpi(x)), le4(kv1(0x2091019f, (x as int)), 0) == 0x2091019f, kv1(0x2091019f, (x as int)).len() == 4 + class_len(0x2091019f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019f, (x as int)); }
pub proof fn rt_MsgoutUbxMonTxbufUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019c, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonTxbufUart1(x)), le4(kv1(0x2091019c, (x as int)), 0) == 0x2091019c, kv1(0x2091019c, (x as int)).len() == 4 + class_len(0x2091019c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019c, (x as int)); }
pub proof fn rt_MsgoutUbxMonTxbufUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019d, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonTxbufUart2(x)), le4(kv1(0x2091019d, (x as int)), 0) == 0x2091019d, kv1(0x2091019d, (x as int)).len() == 4 + class_len(0x2091019d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019d, (x as int)); }
pub proof fn rt_MsgoutUbxMonTxbufUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091019e, (x as int)) + t) == Some(CfgVal::MsgoutUbxMonTxbufUsb(x)), le4(kv1(0x2091019e, (x as int)), 0) == 0x2091019e, kv1(0x2091019e, (x as int)).len() == 4 + class_len(0x2091019e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091019e, (x as int)); }
pub proof fn rt_MsgoutUbxNavClockI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910065, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavClockI2c(x)), le4(kv1(0x20910065, (x as int)), 0) == 0x20910065, kv1(0x20910065, (x as int)).len() == 4 + class_len(0x20910065),
{ broadcast use lemma_kv_len; lemma_kv(0x20910065, (x as int)); }
pub proof fn rt_MsgoutUbxNavClockSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910069, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavClockSpi(x)), le4(kv1(0x20910069, (x as int)), 0) == 0x20910069, kv1(0x20910069, (x as int)).len() == 4 + class_len(0x20910069),
{ broadcast use lemma_kv_len; lemma_kv(0x20910069, (x as int)); }
pub proof fn rt_MsgoutUbxNavClockUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910066, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavClockUart1(x)), le4(kv1(0x20910066, (x as int)), 0) == 0x20910066, kv1(0x20910066, (x as int)).len() == 4 + class_len(0x20910066),
{ broadcast use lemma_kv_len; lemma_kv(0x20910066, (x as int)); }
pub proof fn rt_MsgoutUbxNavClockUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910067, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavClockUart2(x)), le4(kv1(0x20910067, (x as int)), 0) == 0x20910067, kv1(0x20910067, (x as int)).len() == 4 + class_len(0x20910067),
{ broadcast use lemma_kv_len; lemma_kv(0x20910067, (x as int)); }
pub proof fn rt_MsgoutUbxNavClockUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910068, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavClockUsb(x)), le4(kv1(0x20910068, (x as int)), 0) == 0x20910068, kv1(0x20910068, (x as int)).len() == 4 + class_len(0x20910068),
{ broadcast use lemma_kv_len; lemma_kv(0x20910068, (x as int)); }
pub proof fn rt_MsgoutUbxNavDopI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910038, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavDopI2c(x)), le4(kv1(0x20910038, (x as int)), 0) == 0x20910038, kv1(0x20910038, (x as int)).len() == 4 + class_len(0x20910038),
{ broadcast use lemma_kv_len; lemma_kv(0x20910038, (x as int)); }
pub proof fn rt_MsgoutUbxNavDopSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavDopSpi(x)), le4(kv1(0x2091003c, (x as int)), 0) == 0x2091003c, kv1(0x2091003c, (x as int)).len() == 4 + class_len(0x2091003c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003c, (x as int)); }
pub proof fn rt_MsgoutUbxNavDopUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910039, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavDopUart1(x)), le4(kv1(0x20910039, (x as int)), 0) == 0x20910039, kv1(0x20910039, (x as int)).len() == 4 + class_len(0x20910039),
{ broadcast use lemma_kv_len; lemma_kv(0x20910039, (x as int)); }
pub proof fn rt_MsgoutUbxNavDopUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavDopUart2(x)), le4(kv1(0x2091003a, (x as int)), 0) == 0x2091003a, kv1(0x2091003a, (x as int)).len() == 4 + class_len(0x2091003a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003a, (x as int)); }
pub proof fn rt_MsgoutUbxNavDopUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavDopUsb(x)), le4(kv1(0x2091003b, (x as int)), 0) == 0x2091003b, kv1(0x2091003b, (x as int)).len() == 4 + class_len(0x2091003b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003b, (x as int)); }
pub proof fn rt_MsgoutUbxNavEoeI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091015f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavEoeI2c(x)), le4(kv1(0x2091015f, (x as int)), 0) == 0x2091015f, kv1(0x2091015f, (x as int)).len() == 4 + class_len(0x2091015f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091015f, (x as int)); }
pub proof fn rt_MsgoutUbxNavEoeSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910163, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavEoeSpi(x)), le4(kv1(0x20910163, (x as int)), 0) == 0x20910163, kv1(0x20910163, (x as int)).len() == 4 + class_len(0x20910163),
{ broadcast use lemma_kv_len; lemma_kv(0x20910163, (x as int)); }
pub proof fn rt_MsgoutUbxNavEoeUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910160, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavEoeUart1(x)), le4(kv1(0x20910160, (x as int)), 0) == 0x20910160, kv1(0x20910160, (x as int)).len() == 4 + class_len(0x20910160),
{ broadcast use lemma_kv_len; lemma_kv(0x20910160, (x as int)); }
pub proof fn rt_MsgoutUbxNavEoeUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910161, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavEoeUart2(x)), le4(kv1(0x20910161, (x as int)), 0) == 0x20910161, kv1(0x20910161, (x as int)).len() == 4 + class_len(0x20910161),
{ broadcast use lemma_kv_len; lemma_kv(0x20910161, (x as int)); }
pub proof fn rt_MsgoutUbxNavEoeUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910162, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavEoeUsb(x)), le4(kv1(0x20910162, (x as int)), 0) == 0x20910162, kv1(0x20910162, (x as int)).len() == 4 + class_len(0x20910162),
{ broadcast use lemma_kv_len; lemma_kv(0x20910162, (x as int)); }
pub proof fn rt_MsgoutUbxNavGeofenceI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a1, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavGeofenceI2c(x)), le4(kv1(0x209100a1, (x as int)), 0) == 0x209100a1, kv1(0x209100a1, (x as int)).len() == 4 + class_len(0x209100a1),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a1, (x as int)); }
pub proof fn rt_MsgoutUbxNavGeofenceSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a5, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavGeofenceSpi(x)), le4(kv1(0x209100a5, (x as int)), 0) == 0x209100a5, kv1(0x209100a5, (x as int)).len() == 4 + class_len(0x209100a5),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a5, (x as int)); }
pub proof fn rt_MsgoutUbxNavGeofenceUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a2, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavGeofenceUart1(x)), le4(kv1(0x209100a2, (x as int)), 0) == 0x209100a2, kv1(0x209100a2, (x as int)).len() == 4 + class_len(0x209100a2),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a2, (x as int)); }
pub proof fn rt_MsgoutUbxNavGeofenceUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a3, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavGeofenceUart2(x)), le4(kv1(0x209100a3, (x as int)), 0) == 0x209100a3, kv1(0x209100a3, (x as int)).len() == 4 + class_len(0x209100a3),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a3, (x as int)); }
pub proof fn rt_MsgoutUbxNavGeofenceUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209100a4, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavGeofenceUsb(x)), le4(kv1(0x209100a4, (x as int)), 0) == 0x209100a4, kv1(0x209100a4, (x as int)).len() == 4 + class_len(0x209100a4),
{ broadcast use lemma_kv_len; lemma_kv(0x209100a4, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosEcefI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosEcefI2c(x)), le4(kv1(0x2091002e, (x as int)), 0) == 0x2091002e, kv1(0x2091002e, (x as int)).len() == 4 + class_len(0x2091002e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002e, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosEcefSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910032, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosEcefSpi(x)), le4(kv1(0x20910032, (x as int)), 0) == 0x20910032, kv1(0x20910032, (x as int)).len() == 4 + class_len(0x20910032),
{ broadcast use lemma_kv_len; lemma_kv(0x20910032, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosEcefUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosEcefUart1(x)), le4(kv1(0x2091002f, (x as int)), 0) == 0x2091002f, kv1(0x2091002f, (x as int)).len() == 4 + class_len(0x2091002f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002f, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosEcefUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910030, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosEcefUart2(x)), le4(kv1(0x20910030, (x as int)), 0) == 0x20910030, kv1(0x20910030, (x as int)).len() == 4 + class_len(0x20910030),
{ broadcast use lemma_kv_len; lemma_kv(0x20910030, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosEcefUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910031, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosEcefUsb(x)), le4(kv1(0x20910031, (x as int)), 0) == 0x20910031, kv1(0x20910031, (x as int)).len() == 4 + class_len(0x20910031),
{ broadcast use lemma_kv_len; lemma_kv(0x20910031, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosllhI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910033, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosllhI2c(x)), le4(kv1(0x20910033, (x as int)), 0) == 0x20910033, kv1(0x20910033, (x as int)).len() == 4 + class_len(0x20910033),
{ broadcast use lemma_kv_len; lemma_kv(0x20910033, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosllhSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910037, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosllhSpi(x)), le4(kv1(0x20910037, (x as int)), 0) == 0x20910037, kv1(0x20910037, (x as int)).len() == 4 + class_len(0x20910037),
{ broadcast use lemma_kv_len; lemma_kv(0x20910037, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosllhUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910034, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosllhUart1(x)), le4(kv1(0x20910034, (x as int)), 0) == 0x20910034, kv1(0x20910034, (x as int)).len() == 4 + class_len(0x20910034),
{ broadcast use lemma_kv_len; lemma_kv(0x20910034, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosllhUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910035, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosllhUart2(x)), le4(kv1(0x20910035, (x as int)), 0) == 0x20910035, kv1(0x20910035, (x as int)).len() == 4 + class_len(0x20910035),
{ broadcast use lemma_kv_len; lemma_kv(0x20910035, (x as int)); }
pub proof fn rt_MsgoutUbxNavHpPosllhUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910036, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavHpPosllhUsb(x)), le4(kv1(0x20910036, (x as int)), 0) == 0x20910036, kv1(0x20910036, (x as int)).len() == 4 + class_len(0x20910036),
{ broadcast use lemma_kv_len; lemma_kv(0x20910036, (x as int)); }
pub proof fn rt_MsgoutUbxNavOdoI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091007e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOdoI2c(x)), le4(kv1(0x2091007e, (x as int)), 0) == 0x2091007e, kv1(0x2091007e, (x as int)).len() == 4 + class_len(0x2091007e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091007e, (x as int)); }
} pub use rt4::*;
pub mod rt5 { use super::*;
pub proof fn rt_MsgoutUbxNavOdoSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910082, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOdoSpi(x)), le4(kv1(0x20910082, (x as int)), 0) == 0x20910082, kv1(0x20910082, (x as int)).len() == 4 + class_len(0x20910082),
{ broadcast use lemma_kv_len; lemma_kv(0x20910082, (x as int)); }
pub proof fn rt_MsgoutUbxNavOdoUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091007f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOdoUart1(x)), le4(kv1(0x2091007f, (x as int)), 0) == 0x2091007f, kv1(0x2091007f, (x as int)).len() == 4 + class_len(0x2091007f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091007f, (x as int)); }
pub proof fn rt_MsgoutUbxNavOdoUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910080, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOdoUart2(x)), le4(kv1(0x20910080, (x as int)), 0) == 0x20910080, kv1(0x20910080, (x as int)).len() == 4 + class_len(0x20910080),
{ broadcast use lemma_kv_len; lemma_kv(0x20910080, (x as int)); }
pub proof fn rt_MsgoutUbxNavOdoUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910081, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOdoUsb(x)), le4(kv1(0x20910081, (x as int)), 0) == 0x20910081, kv1(0x20910081, (x as int)).len() == 4 + class_len(0x20910081),
{ broadcast use lemma_kv_len; lemma_kv(0x20910081, (x as int)); }
pub proof fn rt_MsgoutUbxNavOrbI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910010, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOrbI2c(x)), le4(kv1(0x20910010, (x as int)), 0) == 0x20910010, kv1(0x20910010, (x as int)).len() == 4 + class_len(0x20910010),
{ broadcast use lemma_kv_len; lemma_kv(0x20910010, (x as int)); }
pub proof fn rt_MsgoutUbxNavOrbSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910014, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOrbSpi(x)), le4(kv1(0x20910014, (x as int)), 0) == 0x20910014, kv1(0x20910014, (x as int)).len() == 4 + class_len(0x20910014),
{ broadcast use lemma_kv_len; lemma_kv(0x20910014, (x as int)); }
pub proof fn rt_MsgoutUbxNavOrbUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910011, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOrbUart1(x)), le4(kv1(0x20910011, (x as int)), 0) == 0x20910011, kv1(0x20910011, (x as int)).len() == 4 + class_len(0x20910011),
{ broadcast use lemma_kv_len; lemma_kv(0x20910011, (x as int)); }
pub proof fn rt_MsgoutUbxNavOrbUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910012, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOrbUart2(x)), le4(kv1(0x20910012, (x as int)), 0) == 0x20910012, kv1(0x20910012, (x as int)).len() == 4 + class_len(0x20910012),
{ broadcast use lemma_kv_len; lemma_kv(0x20910012, (x as int)); }
pub proof fn rt_MsgoutUbxNavOrbUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910013, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavOrbUsb(x)), le4(kv1(0x20910013, (x as int)), 0) == 0x20910013, kv1(0x20910013, (x as int)).len() == 4 + class_len(0x20910013),
{ broadcast use lemma_kv_len; lemma_kv(0x20910013, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosEcefI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910024, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosEcefI2c(x)), le4(kv1(0x20910024, (x as int)), 0) == 0x20910024, kv1(0x20910024, (x as int)).len() == 4 + class_len(0x20910024),
{ broadcast use lemma_kv_len; lemma_kv(0x20910024, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosEcefSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910028, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosEcefSpi(x)), le4(kv1(0x20910028, (x as int)), 0) == 0x20910028, kv1(0x20910028, (x as int)).len() == 4 + class_len(0x20910028),
{ broadcast use lemma_kv_len; lemma_kv(0x20910028, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosEcefUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910025, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosEcefUart1(x)), le4(kv1(0x20910025, (x as int)), 0) == 0x20910025, kv1(0x20910025, (x as int)).len() == 4 + class_len(0x20910025),
{ broadcast use lemma_kv_len; lemma_kv(0x20910025, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosEcefUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910026, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosEcefUart2(x)), le4(kv1(0x20910026, (x as int)), 0) == 0x20910026, kv1(0x20910026, (x as int)).len() == 4 + class_len(0x20910026),
{ broadcast use lemma_kv_len; lemma_kv(0x20910026, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosEcefUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910027, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosEcefUsb(x)), le4(kv1(0x20910027, (x as int)), 0) == 0x20910027, kv1(0x20910027, (x as int)).len() == 4 + class_len(0x20910027),
{ broadcast use lemma_kv_len; lemma_kv(0x20910027, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosLlhI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910029, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosLlhI2c(x)), le4(kv1(0x20910029, (x as int)), 0) == 0x20910029, kv1(0x20910029, (x as int)).len() == 4 + class_len(0x20910029),
{ broadcast use lemma_kv_len; lemma_kv(0x20910029, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosLlhSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosLlhSpi(x)), le4(kv1(0x2091002d, (x as int)), 0) == 0x2091002d, kv1(0x2091002d, (x as int)).len() == 4 + class_len(0x2091002d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002d, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosLlhUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosLlhUart1(x)), le4(kv1(0x2091002a, (x as int)), 0) == 0x2091002a, kv1(0x2091002a, (x as int)).len() == 4 + class_len(0x2091002a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002a, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosLlhUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosLlhUart2(x)), le4(kv1(0x2091002b, (x as int)), 0) == 0x2091002b, kv1(0x2091002b, (x as int)).len() == 4 + class_len(0x2091002b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002b, (x as int)); }
pub proof fn rt_MsgoutUbxNavPosLlhUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091002c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPosLlhUsb(x)), le4(kv1(0x2091002c, (x as int)), 0) == 0x2091002c, kv1(0x2091002c, (x as int)).len() == 4 + class_len(0x2091002c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091002c, (x as int)); }
pub proof fn rt_MsgoutUbxNavPvtI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910006, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPvtI2c(x)), le4(kv1(0x20910006, (x as int)), 0) == 0x20910006, kv1(0x20910006, (x as int)).len() == 4 + class_len(0x20910006),
{ broadcast use lemma_kv_len; lemma_kv(0x20910006, (x as int)); }
pub proof fn rt_MsgoutUbxNavPvtSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091000a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPvtSpi(x)), le4(kv1(0x2091000a, (x as int)), 0) == 0x2091000a, kv1(0x2091000a, (x as int)).len() == 4 + class_len(0x2091000a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091000a, (x as int)); }
pub proof fn rt_MsgoutUbxNavPvtUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910007, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPvtUart1(x)), le4(kv1(0x20910007, (x as int)), 0) == 0x20910007, kv1(0x20910007, (x as int)).len() == 4 + class_len(0x20910007),
{ broadcast use lemma_kv_len; lemma_kv(0x20910007, (x as int)); }
pub proof fn rt_MsgoutUbxNavPvtUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910008, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPvtUart2(x)), le4(kv1(0x20910008, (x as int)), 0) == 0x20910008, kv1(0x20910008, (x as int)).len() == 4 + class_len(0x20910008),
{ broadcast use lemma_kv_len; lemma_kv(0x20910008, (x as int)); }
pub proof fn rt_MsgoutUbxNavPvtUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910009, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavPvtUsb(x)), le4(kv1(0x20910009, (x as int)), 0) == 0x20910009, kv1(0x20910009, (x as int)).len() == 4 + class_len(0x20910009),
{ broadcast use lemma_kv_len; lemma_kv(0x20910009, (x as int)); }
pub proof fn rt_MsgoutUbxNavRelposnedI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavRelposnedI2c(x)), le4(kv1(0x2091008d, (x as int)), 0) == 0x2091008d, kv1(0x2091008d, (x as int)).len() == 4 + class_len(0x2091008d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008d, (x as int)); }
pub proof fn rt_MsgoutUbxNavRelposnedSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910091, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavRelposnedSpi(x)), le4(kv1(0x20910091, (x as int)), 0) == 0x20910091, kv1(0x20910091, (x as int)).len() == 4 + class_len(0x20910091),
{ broadcast use lemma_kv_len; lemma_kv(0x20910091, (x as int)); }
pub proof fn rt_MsgoutUbxNavRelposnedUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavRelposnedUart1(x)), le4(kv1(0x2091008e, (x as int)), 0) == 0x2091008e, kv1(0x2091008e, (x as int)).len() == 4 + class_len(0x2091008e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008e, (x as int)); }
pub proof fn rt_MsgoutUbxNavRelposnedUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavRelposnedUart2(x)), le4(kv1(0x2091008f, (x as int)), 0) == 0x2091008f, kv1(0x2091008f, (x as int)).len() == 4 + class_len(0x2091008f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008f, (x as int)); }
pub proof fn rt_MsgoutUbxNavRelposnedUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910090, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavRelposnedUsb(x)), le4(kv1(0x20910090, (x as int)), 0) == 0x20910090, kv1(0x20910090, (x as int)).len() == 4 + class_len(0x20910090),
{ broadcast use lemma_kv_len; lemma_kv(0x20910090, (x as int)); }
pub proof fn rt_MsgoutUbxNavSatI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910015, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSatI2c(x)), le4(kv1(0x20910015, (x as int)), 0) == 0x20910015, kv1(0x20910015, (x as int)).len() == 4 + class_len(0x20910015),
{ broadcast use lemma_kv_len; lemma_kv(0x20910015, (x as int)); }
pub proof fn rt_MsgoutUbxNavSatSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910019, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSatSpi(x)), le4(kv1(0x20910019, (x as int)), 0) == 0x20910019, kv1(0x20910019, (x as int)).len() == 4 + class_len(0x20910019),
{ broadcast use lemma_kv_len; lemma_kv(0x20910019, (x as int)); }
pub proof fn rt_MsgoutUbxNavSatUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910016, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSatUart1(x)), le4(kv1(0x20910016, (x as int)), 0) == 0x20910016, kv1(0x20910016, (x as int)).len() == 4 + class_len(0x20910016),
{ broadcast use lemma_kv_len; lemma_kv(0x20910016, (x as int)); }
pub proof fn rt_MsgoutUbxNavSatUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910017, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSatUart2(x)), le4(kv1(0x20910017, (x as int)), 0) == 0x20910017, kv1(0x20910017, (x as int)).len() == 4 + class_len(0x20910017),
{ broadcast use lemma_kv_len; lemma_kv(0x20910017, (x as int)); }
pub proof fn rt_MsgoutUbxNavSatUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910018, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSatUsb(x)), le4(kv1(0x20910018, (x as int)), 0) == 0x20910018, kv1(0x20910018, (x as int)).len() == 4 + class_len(0x20910018),
{ broadcast use lemma_kv_len; lemma_kv(0x20910018, (x as int)); }
pub proof fn rt_MsgoutUbxNavSigI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910345, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSigI2c(x)), le4(kv1(0x20910345, (x as int)), 0) == 0x20910345, kv1(0x20910345, (x as int)).len() == 4 + class_len(0x20910345),
{ broadcast use lemma_kv_len; lemma_kv(0x20910345, (x as int)); }
pub proof fn rt_MsgoutUbxNavSigSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910349, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSigSpi(x)), le4(kv1(0x20910349, (x as int)), 0) == 0x20910349, kv1(0x20910349, (x as int)).len() == 4 + class_len(0x20910349),
{ broadcast use lemma_kv_len; lemma_kv(0x20910349, (x as int)); }
pub proof fn rt_MsgoutUbxNavSigUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910346, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSigUart1(x)), le4(kv1(0x20910346, (x as int)), 0) == 0x20910346, kv1(0x20910346, (x as int)).len() == 4 + class_len(0x20910346),
{ broadcast use lemma_kv_len; lemma_kv(0x20910346, (x as int)); }
pub proof fn rt_MsgoutUbxNavSigUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910347, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSigUart2(x)), le4(kv1(0x20910347, (x as int)), 0) == 0x20910347, kv1(0x20910347, (x as int)).len() == 4 + class_len(0x20910347),
{ broadcast use lemma_kv_len; lemma_kv(0x20910347, (x as int)); }
pub proof fn rt_MsgoutUbxNavSigUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910348, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSigUsb(x)), le4(kv1(0x20910348, (x as int)), 0) == 0x20910348, kv1(0x20910348, (x as int)).len() == 4 + class_len(0x20910348),
{ broadcast use lemma_kv_len; lemma_kv(0x20910348, (x as int)); }
pub proof fn rt_MsgoutUbxNavStatusI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091001a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavStatusI2c(x)), le4(kv1(0x2091001a, (x as int)), 0) == 0x2091001a, kv1(0x2091001a, (x as int)).len() == 4 + class_len(0x2091001a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091001a, (x as int)); }
pub proof fn rt_MsgoutUbxNavStatusSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091001e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavStatusSpi(x)), le4(kv1(0x2091001e, (x as int)), 0) == 0x2091001e, kv1(0x2091001e, (x as int)).len() == 4 + class_len(0x2091001e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091001e, (x as int)); }
pub proof fn rt_MsgoutUbxNavStatusUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091001b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavStatusUart1(x)), le4(kv1(0x2091001b, (x as int)), 0) == 0x2091001b, kv1(0x2091001b, (x as int)).len() == 4 + class_len(0x2091001b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091001b, (x as int)); }
pub proof fn rt_MsgoutUbxNavStatusUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091001c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavStatusUart2(x)), le4(kv1(0x2091001c, (x as int)), 0) == 0x2091001c, kv1(0x2091001c, (x as int)).len() == 4 + class_len(0x2091001c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091001c, (x as int)); }
pub proof fn rt_MsgoutUbxNavStatusUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091001d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavStatusUsb(x)), le4(kv1(0x2091001d, (x as int)), 0) == 0x2091001d, kv1(0x2091001d, (x as int)).len() == 4 + class_len(0x2091001d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091001d, (x as int)); }
pub proof fn rt_MsgoutUbxNavSvinI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910088, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSvinI2c(x)), le4(kv1(0x20910088, (x as int)), 0) == 0x20910088, kv1(0x20910088, (x as int)).len() == 4 + class_len(0x20910088),
{ broadcast use lemma_kv_len; lemma_kv(0x20910088, (x as int)); }
pub proof fn rt_MsgoutUbxNavSvinSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSvinSpi(x)), le4(kv1(0x2091008c, (x as int)), 0) == 0x2091008c, kv1(0x2091008c, (x as int)).len() == 4 + class_len(0x2091008c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008c, (x as int)); }
pub proof fn rt_MsgoutUbxNavSvinUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910089, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSvinUart1(x)), le4(kv1(0x20910089, (x as int)), 0) == 0x20910089, kv1(0x20910089, (x as int)).len() == 4 + class_len(0x20910089),
{ broadcast use lemma_kv_len; lemma_kv(0x20910089, (x as int)); }
pub proof fn rt_MsgoutUbxNavSvinUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSvinUart2(x)), le4(kv1(0x2091008a, (x as int)), 0) == 0x2091008a, kv1(0x2091008a, (x as int)).len() == 4 + class_len(0x2091008a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008a, (x as int)); }
pub proof fn rt_MsgoutUbxNavSvinUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091008b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavSvinUsb(x)), le4(kv1(0x2091008b, (x as int)), 0) == 0x2091008b, kv1(0x2091008b, (x as int)).len() == 4 + class_len(0x2091008b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091008b, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeBdsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910051, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeBdsI2c(x)), le4(kv1(0x20910051, (x as int)), 0) == 0x20910051, kv1(0x20910051, (x as int)).len() == 4 + class_len(0x20910051),
{ broadcast use lemma_kv_len; lemma_kv(0x20910051, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeBdsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910055, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeBdsSpi(x)), le4(kv1(0x20910055, (x as int)), 0) == 0x20910055, kv1(0x20910055, (x as int)).len() == 4 + class_len(0x20910055),
{ broadcast use lemma_kv_len; lemma_kv(0x20910055, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeBdsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910052, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeBdsUart1(x)), le4(kv1(0x20910052, (x as int)), 0) == 0x20910052, kv1(0x20910052, (x as int)).len() == 4 + class_len(0x20910052),
{ broadcast use lemma_kv_len; lemma_kv(0x20910052, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeBdsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910053, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeBdsUart2(x)), le4(kv1(0x20910053, (x as int)), 0) == 0x20910053, kv1(0x20910053, (x as int)).len() == 4 + class_len(0x20910053),
{ broadcast use lemma_kv_len; lemma_kv(0x20910053, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeBdsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910054, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeBdsUsb(x)), le4(kv1(0x20910054, (x as int)), 0) == 0x20910054, kv1(0x20910054, (x as int)).len() == 4 + class_len(0x20910054),
{ broadcast use lemma_kv_len; lemma_kv(0x20910054, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGalI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910056, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGalI2c(x)), le4(kv1(0x20910056, (x as int)), 0) == 0x20910056, kv1(0x20910056, (x as int)).len() == 4 + class_len(0x20910056),
{ broadcast use lemma_kv_len; lemma_kv(0x20910056, (x as int)); }
} pub use rt5::*;
pub mod rt6 { use super::*;
pub proof fn rt_MsgoutUbxNavTimeGalSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGalSpi(x)), le4(kv1(0x2091005a, (x as int)), 0) == 0x2091005a, kv1(0x2091005a, (x as int)).len() == 4 + class_len(0x2091005a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005a, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGalUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910057, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGalUart1(x)), le4(kv1(0x20910057, (x as int)), 0) == 0x20910057, kv1(0x20910057, (x as int)).len() == 4 + class_len(0x20910057),
{ broadcast use lemma_kv_len; lemma_kv(0x20910057, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGalUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910058, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGalUart2(x)), le4(kv1(0x20910058, (x as int)), 0) == 0x20910058, kv1(0x20910058, (x as int)).len() == 4 + class_len(0x20910058),
{ broadcast use lemma_kv_len; lemma_kv(0x20910058, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGalUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910059, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGalUsb(x)), le4(kv1(0x20910059, (x as int)), 0) == 0x20910059, kv1(0x20910059, (x as int)).len() == 4 + class_len(0x20910059),
{ broadcast use lemma_kv_len; lemma_kv(0x20910059, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGloI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGloI2c(x)), le4(kv1(0x2091004c, (x as int)), 0) == 0x2091004c, kv1(0x2091004c, (x as int)).len() == 4 + class_len(0x2091004c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004c, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGloSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910050, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGloSpi(x)), le4(kv1(0x20910050, (x as int)), 0) == 0x20910050, kv1(0x20910050, (x as int)).len() == 4 + class_len(0x20910050),
{ broadcast use lemma_kv_len; lemma_kv(0x20910050, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGloUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGloUart1(x)), le4(kv1(0x2091004d, (x as int)), 0) == 0x2091004d, kv1(0x2091004d, (x as int)).len() == 4 + class_len(0x2091004d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004d, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGloUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGloUart2(x)), le4(kv1(0x2091004e, (x as int)), 0) == 0x2091004e, kv1(0x2091004e, (x as int)).len() == 4 + class_len(0x2091004e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004e, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGloUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGloUsb(x)), le4(kv1(0x2091004f, (x as int)), 0) == 0x2091004f, kv1(0x2091004f, (x as int)).len() == 4 + class_len(0x2091004f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004f, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGpsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910047, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGpsI2c(x)), le4(kv1(0x20910047, (x as int)), 0) == 0x20910047, kv1(0x20910047, (x as int)).len() == 4 + class_len(0x20910047),
{ broadcast use lemma_kv_len; lemma_kv(0x20910047, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGpsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGpsSpi(x)), le4(kv1(0x2091004b, (x as int)), 0) == 0x2091004b, kv1(0x2091004b, (x as int)).len() == 4 + class_len(0x2091004b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004b, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGpsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910048, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGpsUart1(x)), le4(kv1(0x20910048, (x as int)), 0) == 0x20910048, kv1(0x20910048, (x as int)).len() == 4 + class_len(0x20910048),
{ broadcast use lemma_kv_len; lemma_kv(0x20910048, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGpsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910049, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGpsUart2(x)), le4(kv1(0x20910049, (x as int)), 0) == 0x20910049, kv1(0x20910049, (x as int)).len() == 4 + class_len(0x20910049),
{ broadcast use lemma_kv_len; lemma_kv(0x20910049, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeGpsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091004a, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeGpsUsb(x)), le4(kv1(0x2091004a, (x as int)), 0) == 0x2091004a, kv1(0x2091004a, (x as int)).len() == 4 + class_len(0x2091004a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091004a, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeLsI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910060, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeLsI2c(x)), le4(kv1(0x20910060, (x as int)), 0) == 0x20910060, kv1(0x20910060, (x as int)).len() == 4 + class_len(0x20910060),
{ broadcast use lemma_kv_len; lemma_kv(0x20910060, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeLsSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910064, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeLsSpi(x)), le4(kv1(0x20910064, (x as int)), 0) == 0x20910064, kv1(0x20910064, (x as int)).len() == 4 + class_len(0x20910064),
{ broadcast use lemma_kv_len; lemma_kv(0x20910064, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeLsUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910061, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeLsUart1(x)), le4(kv1(0x20910061, (x as int)), 0) == 0x20910061, kv1(0x20910061, (x as int)).len() == 4 + class_len(0x20910061),
{ broadcast use lemma_kv_len; lemma_kv(0x20910061, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeLsUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910062, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeLsUart2(x)), le4(kv1(0x20910062, (x as int)), 0) == 0x20910062, kv1(0x20910062, (x as int)).len() == 4 + class_len(0x20910062),
{ broadcast use lemma_kv_len; lemma_kv(0x20910062, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeLsUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910063, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeLsUsb(x)), le4(kv1(0x20910063, (x as int)), 0) == 0x20910063, kv1(0x20910063, (x as int)).len() == 4 + class_len(0x20910063),
{ broadcast use lemma_kv_len; lemma_kv(0x20910063, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeUtcI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005b, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeUtcI2c(x)), le4(kv1(0x2091005b, (x as int)), 0) == 0x2091005b, kv1(0x2091005b, (x as int)).len() == 4 + class_len(0x2091005b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005b, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeUtcSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeUtcSpi(x)), le4(kv1(0x2091005f, (x as int)), 0) == 0x2091005f, kv1(0x2091005f, (x as int)).len() == 4 + class_len(0x2091005f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005f, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeUtcUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005c, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeUtcUart1(x)), le4(kv1(0x2091005c, (x as int)), 0) == 0x2091005c, kv1(0x2091005c, (x as int)).len() == 4 + class_len(0x2091005c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005c, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeUtcUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeUtcUart2(x)), le4(kv1(0x2091005d, (x as int)), 0) == 0x2091005d, kv1(0x2091005d, (x as int)).len() == 4 + class_len(0x2091005d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005d, (x as int)); }
pub proof fn rt_MsgoutUbxNavTimeUtcUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091005e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavTimeUtcUsb(x)), le4(kv1(0x2091005e, (x as int)), 0) == 0x2091005e, kv1(0x2091005e, (x as int)).len() == 4 + class_len(0x2091005e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091005e, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelEcefI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003d, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelEcefI2c(x)), le4(kv1(0x2091003d, (x as int)), 0) == 0x2091003d, kv1(0x2091003d, (x as int)).len() == 4 + class_len(0x2091003d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003d, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelEcefSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910041, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelEcefSpi(x)), le4(kv1(0x20910041, (x as int)), 0) == 0x20910041, kv1(0x20910041, (x as int)).len() == 4 + class_len(0x20910041),
{ broadcast use lemma_kv_len; lemma_kv(0x20910041, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelEcefUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003e, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelEcefUart1(x)), le4(kv1(0x2091003e, (x as int)), 0) == 0x2091003e, kv1(0x2091003e, (x as int)).len() == 4 + class_len(0x2091003e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003e, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelEcefUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091003f, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelEcefUart2(x)), le4(kv1(0x2091003f, (x as int)), 0) == 0x2091003f, kv1(0x2091003f, (x as int)).len() == 4 + class_len(0x2091003f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091003f, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelEcefUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910040, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelEcefUsb(x)), le4(kv1(0x20910040, (x as int)), 0) == 0x20910040, kv1(0x20910040, (x as int)).len() == 4 + class_len(0x20910040),
{ broadcast use lemma_kv_len; lemma_kv(0x20910040, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelNedI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910042, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelNedI2c(x)), le4(kv1(0x20910042, (x as int)), 0) == 0x20910042, kv1(0x20910042, (x as int)).len() == 4 + class_len(0x20910042),
{ broadcast use lemma_kv_len; lemma_kv(0x20910042, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelNedSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910046, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelNedSpi(x)), le4(kv1(0x20910046, (x as int)), 0) == 0x20910046, kv1(0x20910046, (x as int)).len() == 4 + class_len(0x20910046),
{ broadcast use lemma_kv_len; lemma_kv(0x20910046, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelNedUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910043, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelNedUart1(x)), le4(kv1(0x20910043, (x as int)), 0) == 0x20910043, kv1(0x20910043, (x as int)).len() == 4 + class_len(0x20910043),
{ broadcast use lemma_kv_len; lemma_kv(0x20910043, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelNedUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910044, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelNedUart2(x)), le4(kv1(0x20910044, (x as int)), 0) == 0x20910044, kv1(0x20910044, (x as int)).len() == 4 + class_len(0x20910044),
{ broadcast use lemma_kv_len; lemma_kv(0x20910044, (x as int)); }
pub proof fn rt_MsgoutUbxNavVelNedUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910045, (x as int)) + t) == Some(CfgVal::MsgoutUbxNavVelNedUsb(x)), le4(kv1(0x20910045, (x as int)), 0) == 0x20910045, kv1(0x20910045, (x as int)).len() == 4 + class_len(0x20910045),
{ broadcast use lemma_kv_len; lemma_kv(0x20910045, (x as int)); }
pub proof fn rt_MsgoutUbxRxmMeasxI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910204, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmMeasxI2c(x)), le4(kv1(0x20910204, (x as int)), 0) == 0x20910204, kv1(0x20910204, (x as int)).len() == 4 + class_len(0x20910204),
{ broadcast use lemma_kv_len; lemma_kv(0x20910204, (x as int)); }
pub proof fn rt_MsgoutUbxRxmMeasxSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910208, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmMeasxSpi(x)), le4(kv1(0x20910208, (x as int)), 0) == 0x20910208, kv1(0x20910208, (x as int)).len() == 4 + class_len(0x20910208),
{ broadcast use lemma_kv_len; lemma_kv(0x20910208, (x as int)); }
pub proof fn rt_MsgoutUbxRxmMeasxUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910205, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmMeasxUart1(x)), le4(kv1(0x20910205, (x as int)), 0) == 0x20910205, kv1(0x20910205, (x as int)).len() == 4 + class_len(0x20910205),
{ broadcast use lemma_kv_len; lemma_kv(0x20910205, (x as int)); }
pub proof fn rt_MsgoutUbxRxmMeasxUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910206, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmMeasxUart2(x)), le4(kv1(0x20910206, (x as int)), 0) == 0x20910206, kv1(0x20910206, (x as int)).len() == 4 + class_len(0x20910206),
{ broadcast use lemma_kv_len; lemma_kv(0x20910206, (x as int)); }
pub proof fn rt_MsgoutUbxRxmMeasxUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910207, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmMeasxUsb(x)), le4(kv1(0x20910207, (x as int)), 0) == 0x20910207, kv1(0x20910207, (x as int)).len() == 4 + class_len(0x20910207),
{ broadcast use lemma_kv_len; lemma_kv(0x20910207, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRawxI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102a4, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRawxI2c(x)), le4(kv1(0x209102a4, (x as int)), 0) == 0x209102a4, kv1(0x209102a4, (x as int)).len() == 4 + class_len(0x209102a4),
{ broadcast use lemma_kv_len; lemma_kv(0x209102a4, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRawxSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102a8, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRawxSpi(x)), le4(kv1(0x209102a8, (x as int)), 0) == 0x209102a8, kv1(0x209102a8, (x as int)).len() == 4 + class_len(0x209102a8),
{ broadcast use lemma_kv_len; lemma_kv(0x209102a8, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRawxUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102a5, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRawxUart1(x)), le4(kv1(0x209102a5, (x as int)), 0) == 0x209102a5, kv1(0x209102a5, (x as int)).len() == 4 + class_len(0x209102a5),
{ broadcast use lemma_kv_len; lemma_kv(0x209102a5, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRawxUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102a6, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRawxUart2(x)), le4(kv1(0x209102a6, (x as int)), 0) == 0x209102a6, kv1(0x209102a6, (x as int)).len() == 4 + class_len(0x209102a6),
{ broadcast use lemma_kv_len; lemma_kv(0x209102a6, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRawxUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x209102a7, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRawxUsb(x)), le4(kv1(0x209102a7, (x as int)), 0) == 0x209102a7, kv1(0x209102a7, (x as int)).len() == 4 + class_len(0x209102a7),
{ broadcast use lemma_kv_len; lemma_kv(0x209102a7, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRlmI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025e, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRlmI2c(x)), le4(kv1(0x2091025e, (x as int)), 0) == 0x2091025e, kv1(0x2091025e, (x as int)).len() == 4 + class_len(0x2091025e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025e, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRlmSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910262, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRlmSpi(x)), le4(kv1(0x20910262, (x as int)), 0) == 0x20910262, kv1(0x20910262, (x as int)).len() == 4 + class_len(0x20910262),
{ broadcast use lemma_kv_len; lemma_kv(0x20910262, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRlmUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091025f, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRlmUart1(x)), le4(kv1(0x2091025f, (x as int)), 0) == 0x2091025f, kv1(0x2091025f, (x as int)).len() == 4 + class_len(0x2091025f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091025f, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRlmUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910260, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRlmUart2(x)), le4(kv1(0x20910260, (x as int)), 0) == 0x20910260, kv1(0x20910260, (x as int)).len() == 4 + class_len(0x20910260),
{ broadcast use lemma_kv_len; lemma_kv(0x20910260, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRlmUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910261, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRlmUsb(x)), le4(kv1(0x20910261, (x as int)), 0) == 0x20910261, kv1(0x20910261, (x as int)).len() == 4 + class_len(0x20910261),
{ broadcast use lemma_kv_len; lemma_kv(0x20910261, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRtcmI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910268, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRtcmI2c(x)), le4(kv1(0x20910268, (x as int)), 0) == 0x20910268, kv1(0x20910268, (x as int)).len() == 4 + class_len(0x20910268),
{ broadcast use lemma_kv_len; lemma_kv(0x20910268, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRtcmSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091026c, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRtcmSpi(x)), le4(kv1(0x2091026c, (x as int)), 0) == 0x2091026c, kv1(0x2091026c, (x as int)).len() == 4 + class_len(0x2091026c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091026c, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRtcmUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910269, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRtcmUart1(x)), le4(kv1(0x20910269, (x as int)), 0) == 0x20910269, kv1(0x20910269, (x as int)).len() == 4 + class_len(0x20910269),
{ broadcast use lemma_kv_len; lemma_kv(0x20910269, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRtcmUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091026a, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRtcmUart2(x)), le4(kv1(0x2091026a, (x as int)), 0) == 0x2091026a, kv1(0x2091026a, (x as int)).len() == 4 + class_len(0x2091026a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091026a, (x as int)); }
pub proof fn rt_MsgoutUbxRxmRtcmUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091026b, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmRtcmUsb(x)), le4(kv1(0x2091026b, (x as int)), 0) == 0x2091026b, kv1(0x2091026b, (x as int)).len() == 4 + class_len(0x2091026b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091026b, (x as int)); }
pub proof fn rt_MsgoutUbxRxmSfrbxI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910231, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmSfrbxI2c(x)), le4(kv1(0x20910231, (x as int)), 0) == 0x20910231, kv1(0x20910231, (x as int)).len() == 4 + class_len(0x20910231),
{ broadcast use lemma_kv_len; lemma_kv(0x20910231, (x as int)); }
} pub use rt6::*;
pub mod rt7 { use super::*;
pub proof fn rt_MsgoutUbxRxmSfrbxSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910235, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmSfrbxSpi(x)), le4(kv1(0x20910235, (x as int)), 0) == 0x20910235, kv1(0x20910235, (x as int)).len() == 4 + class_len(0x20910235),
{ broadcast use lemma_kv_len; lemma_kv(0x20910235, (x as int)); }
pub proof fn rt_MsgoutUbxRxmSfrbxUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910232, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmSfrbxUart1(x)), le4(kv1(0x20910232, (x as int)), 0) == 0x20910232, kv1(0x20910232, (x as int)).len() == 4 + class_len(0x20910232),
{ broadcast use lemma_kv_len; lemma_kv(0x20910232, (x as int)); }
pub proof fn rt_MsgoutUbxRxmSfrbxUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910233, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmSfrbxUart2(x)), le4(kv1(0x20910233, (x as int)), 0) == 0x20910233, kv1(0x20910233, (x as int)).len() == 4 + class_len(0x20910233),
{ broadcast use lemma_kv_len; lemma_kv(0x20910233, (x as int)); }
pub proof fn rt_MsgoutUbxRxmSfrbxUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910234, (x as int)) + t) == Some(CfgVal::MsgoutUbxRxmSfrbxUsb(x)), le4(kv1(0x20910234, (x as int)), 0) == 0x20910234, kv1(0x20910234, (x as int)).len() == 4 + class_len(0x20910234),
{ broadcast use lemma_kv_len; lemma_kv(0x20910234, (x as int)); }
pub proof fn rt_MsgoutUbxTimTm2I2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910178, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTm2I2c(x)), le4(kv1(0x20910178, (x as int)), 0) == 0x20910178, kv1(0x20910178, (x as int)).len() == 4 + class_len(0x20910178),
{ broadcast use lemma_kv_len; lemma_kv(0x20910178, (x as int)); }
pub proof fn rt_MsgoutUbxTimTm2Spi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017c, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTm2Spi(x)), le4(kv1(0x2091017c, (x as int)), 0) == 0x2091017c, kv1(0x2091017c, (x as int)).len() == 4 + class_len(0x2091017c),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017c, (x as int)); }
pub proof fn rt_MsgoutUbxTimTm2Uart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910179, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTm2Uart1(x)), le4(kv1(0x20910179, (x as int)), 0) == 0x20910179, kv1(0x20910179, (x as int)).len() == 4 + class_len(0x20910179),
{ broadcast use lemma_kv_len; lemma_kv(0x20910179, (x as int)); }
pub proof fn rt_MsgoutUbxTimTm2Uart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017a, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTm2Uart2(x)), le4(kv1(0x2091017a, (x as int)), 0) == 0x2091017a, kv1(0x2091017a, (x as int)).len() == 4 + class_len(0x2091017a),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017a, (x as int)); }
pub proof fn rt_MsgoutUbxTimTm2Usb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017b, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTm2Usb(x)), le4(kv1(0x2091017b, (x as int)), 0) == 0x2091017b, kv1(0x2091017b, (x as int)).len() == 4 + class_len(0x2091017b),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017b, (x as int)); }
pub proof fn rt_MsgoutUbxTimTpI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017d, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTpI2c(x)), le4(kv1(0x2091017d, (x as int)), 0) == 0x2091017d, kv1(0x2091017d, (x as int)).len() == 4 + class_len(0x2091017d),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017d, (x as int)); }
pub proof fn rt_MsgoutUbxTimTpSpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910181, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTpSpi(x)), le4(kv1(0x20910181, (x as int)), 0) == 0x20910181, kv1(0x20910181, (x as int)).len() == 4 + class_len(0x20910181),
{ broadcast use lemma_kv_len; lemma_kv(0x20910181, (x as int)); }
pub proof fn rt_MsgoutUbxTimTpUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017e, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTpUart1(x)), le4(kv1(0x2091017e, (x as int)), 0) == 0x2091017e, kv1(0x2091017e, (x as int)).len() == 4 + class_len(0x2091017e),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017e, (x as int)); }
pub proof fn rt_MsgoutUbxTimTpUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x2091017f, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTpUart2(x)), le4(kv1(0x2091017f, (x as int)), 0) == 0x2091017f, kv1(0x2091017f, (x as int)).len() == 4 + class_len(0x2091017f),
{ broadcast use lemma_kv_len; lemma_kv(0x2091017f, (x as int)); }
pub proof fn rt_MsgoutUbxTimTpUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910180, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimTpUsb(x)), le4(kv1(0x20910180, (x as int)), 0) == 0x20910180, kv1(0x20910180, (x as int)).len() == 4 + class_len(0x20910180),
{ broadcast use lemma_kv_len; lemma_kv(0x20910180, (x as int)); }
pub proof fn rt_MsgoutUbxTimVrfyI2c(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910092, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimVrfyI2c(x)), le4(kv1(0x20910092, (x as int)), 0) == 0x20910092, kv1(0x20910092, (x as int)).len() == 4 + class_len(0x20910092),
{ broadcast use lemma_kv_len; lemma_kv(0x20910092, (x as int)); }
pub proof fn rt_MsgoutUbxTimVrfySpi(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910096, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimVrfySpi(x)), le4(kv1(0x20910096, (x as int)), 0) == 0x20910096, kv1(0x20910096, (x as int)).len() == 4 + class_len(0x20910096),
{ broadcast use lemma_kv_len; lemma_kv(0x20910096, (x as int)); }
pub proof fn rt_MsgoutUbxTimVrfyUart1(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910093, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimVrfyUart1(x)), le4(kv1(0x20910093, (x as int)), 0) == 0x20910093, kv1(0x20910093, (x as int)).len() == 4 + class_len(0x20910093),
{ broadcast use lemma_kv_len; lemma_kv(0x20910093, (x as int)); }
pub proof fn rt_MsgoutUbxTimVrfyUart2(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910094, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimVrfyUart2(x)), le4(kv1(0x20910094, (x as int)), 0) == 0x20910094, kv1(0x20910094, (x as int)).len() == 4 + class_len(0x20910094),
{ broadcast use lemma_kv_len; lemma_kv(0x20910094, (x as int)); }
pub proof fn rt_MsgoutUbxTimVrfyUsb(x: u8, t: Seq<u8>)
    ensures item_at(kv1(0x20910095, (x as int)) + t) == Some(CfgVal::MsgoutUbxTimVrfyUsb(x)), le4(kv1(0x20910095, (x as int)), 0) == 0x20910095, kv1(0x20910095, (x as int)).len() == 4 + class_len(0x20910095),
{ broadcast use lemma_kv_len; lemma_kv(0x20910095, (x as int)); }
pub proof fn rt_SignalGpsEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1031001f, b2i(x)) + t) == Some(CfgVal::SignalGpsEna(x)), le4(kv1(0x1031001f, b2i(x)), 0) == 0x1031001f, kv1(0x1031001f, b2i(x)).len() == 4 + class_len(0x1031001f),
{ broadcast use lemma_kv_len; lemma_kv(0x1031001f, b2i(x)); }
pub proof fn rt_SignalGpsL1caEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310001, b2i(x)) + t) == Some(CfgVal::SignalGpsL1caEna(x)), le4(kv1(0x10310001, b2i(x)), 0) == 0x10310001, kv1(0x10310001, b2i(x)).len() == 4 + class_len(0x10310001),
{ broadcast use lemma_kv_len; lemma_kv(0x10310001, b2i(x)); }
pub proof fn rt_SignalGpsL2cEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310003, b2i(x)) + t) == Some(CfgVal::SignalGpsL2cEna(x)), le4(kv1(0x10310003, b2i(x)), 0) == 0x10310003, kv1(0x10310003, b2i(x)).len() == 4 + class_len(0x10310003),
{ broadcast use lemma_kv_len; lemma_kv(0x10310003, b2i(x)); }
pub proof fn rt_SignalGalEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310021, b2i(x)) + t) == Some(CfgVal::SignalGalEna(x)), le4(kv1(0x10310021, b2i(x)), 0) == 0x10310021, kv1(0x10310021, b2i(x)).len() == 4 + class_len(0x10310021),
{ broadcast use lemma_kv_len; lemma_kv(0x10310021, b2i(x)); }
pub proof fn rt_SignalGalE1Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310007, b2i(x)) + t) == Some(CfgVal::SignalGalE1Ena(x)), le4(kv1(0x10310007, b2i(x)), 0) == 0x10310007, kv1(0x10310007, b2i(x)).len() == 4 + class_len(0x10310007),
{ broadcast use lemma_kv_len; lemma_kv(0x10310007, b2i(x)); }
pub proof fn rt_SignalGalE5bEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1031000a, b2i(x)) + t) == Some(CfgVal::SignalGalE5bEna(x)), le4(kv1(0x1031000a, b2i(x)), 0) == 0x1031000a, kv1(0x1031000a, b2i(x)).len() == 4 + class_len(0x1031000a),
{ broadcast use lemma_kv_len; lemma_kv(0x1031000a, b2i(x)); }
pub proof fn rt_SignalBdsEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310022, b2i(x)) + t) == Some(CfgVal::SignalBdsEna(x)), le4(kv1(0x10310022, b2i(x)), 0) == 0x10310022, kv1(0x10310022, b2i(x)).len() == 4 + class_len(0x10310022),
{ broadcast use lemma_kv_len; lemma_kv(0x10310022, b2i(x)); }
pub proof fn rt_SignalBdsB1Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1031000d, b2i(x)) + t) == Some(CfgVal::SignalBdsB1Ena(x)), le4(kv1(0x1031000d, b2i(x)), 0) == 0x1031000d, kv1(0x1031000d, b2i(x)).len() == 4 + class_len(0x1031000d),
{ broadcast use lemma_kv_len; lemma_kv(0x1031000d, b2i(x)); }
pub proof fn rt_SignalBdsB2Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1031000e, b2i(x)) + t) == Some(CfgVal::SignalBdsB2Ena(x)), le4(kv1(0x1031000e, b2i(x)), 0) == 0x1031000e, kv1(0x1031000e, b2i(x)).len() == 4 + class_len(0x1031000e),
{ broadcast use lemma_kv_len; lemma_kv(0x1031000e, b2i(x)); }
pub proof fn rt_SignalQzssEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310024, b2i(x)) + t) == Some(CfgVal::SignalQzssEna(x)), le4(kv1(0x10310024, b2i(x)), 0) == 0x10310024, kv1(0x10310024, b2i(x)).len() == 4 + class_len(0x10310024),
{ broadcast use lemma_kv_len; lemma_kv(0x10310024, b2i(x)); }
pub proof fn rt_SignalQzssL1caEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310012, b2i(x)) + t) == Some(CfgVal::SignalQzssL1caEna(x)), le4(kv1(0x10310012, b2i(x)), 0) == 0x10310012, kv1(0x10310012, b2i(x)).len() == 4 + class_len(0x10310012),
{ broadcast use lemma_kv_len; lemma_kv(0x10310012, b2i(x)); }
pub proof fn rt_SignalQzssL2cEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310015, b2i(x)) + t) == Some(CfgVal::SignalQzssL2cEna(x)), le4(kv1(0x10310015, b2i(x)), 0) == 0x10310015, kv1(0x10310015, b2i(x)).len() == 4 + class_len(0x10310015),
{ broadcast use lemma_kv_len; lemma_kv(0x10310015, b2i(x)); }
pub proof fn rt_SignalGloEna(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310025, b2i(x)) + t) == Some(CfgVal::SignalGloEna(x)), le4(kv1(0x10310025, b2i(x)), 0) == 0x10310025, kv1(0x10310025, b2i(x)).len() == 4 + class_len(0x10310025),
{ broadcast use lemma_kv_len; lemma_kv(0x10310025, b2i(x)); }
pub proof fn rt_SignalGloL1Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10310018, b2i(x)) + t) == Some(CfgVal::SignalGloL1Ena(x)), le4(kv1(0x10310018, b2i(x)), 0) == 0x10310018, kv1(0x10310018, b2i(x)).len() == 4 + class_len(0x10310018),
{ broadcast use lemma_kv_len; lemma_kv(0x10310018, b2i(x)); }
pub proof fn rt_SignalGLoL2Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1031001a, b2i(x)) + t) == Some(CfgVal::SignalGLoL2Ena(x)), le4(kv1(0x1031001a, b2i(x)), 0) == 0x1031001a, kv1(0x1031001a, b2i(x)).len() == 4 + class_len(0x1031001a),
{ broadcast use lemma_kv_len; lemma_kv(0x1031001a, b2i(x)); }
pub proof fn rt_TpPulseDef(x: TpPulse, t: Seq<u8>)
    ensures item_at(kv1(0x20050023, TpPulse_item(x)) + t) == Some(CfgVal::TpPulseDef(x)), le4(kv1(0x20050023, TpPulse_item(x)), 0) == 0x20050023, kv1(0x20050023, TpPulse_item(x)).len() == 4 + class_len(0x20050023),
{ broadcast use lemma_kv_len; lemma_kv(0x20050023, TpPulse_item(x)); }
pub proof fn rt_TpPulseLengthDef(x: TpPulseLength, t: Seq<u8>)
    ensures item_at(kv1(0x20050030, TpPulseLength_item(x)) + t) == Some(CfgVal::TpPulseLengthDef(x)), le4(kv1(0x20050030, TpPulseLength_item(x)), 0) == 0x20050030, kv1(0x20050030, TpPulseLength_item(x)).len() == 4 + class_len(0x20050030),
{ broadcast use lemma_kv_len; lemma_kv(0x20050030, TpPulseLength_item(x)); }
pub proof fn rt_TpAntCableDelay(x: i16, t: Seq<u8>)
    ensures item_at(kv2(0x30050001, us(x as int, 0x8000)) + t) == Some(CfgVal::TpAntCableDelay(x)), le4(kv2(0x30050001, us(x as int, 0x8000)), 0) == 0x30050001, kv2(0x30050001, us(x as int, 0x8000)).len() == 4 + class_len(0x30050001),
{ broadcast use lemma_kv_len; lemma_kv(0x30050001, us(x as int, 0x8000)); }
pub proof fn rt_TpPeriodTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050002, (x as int)) + t) == Some(CfgVal::TpPeriodTp1(x)), le4(kv4(0x40050002, (x as int)), 0) == 0x40050002, kv4(0x40050002, (x as int)).len() == 4 + class_len(0x40050002),
{ broadcast use lemma_kv_len; lemma_kv(0x40050002, (x as int)); }
pub proof fn rt_TpPeriodLockTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050003, (x as int)) + t) == Some(CfgVal::TpPeriodLockTp1(x)), le4(kv4(0x40050003, (x as int)), 0) == 0x40050003, kv4(0x40050003, (x as int)).len() == 4 + class_len(0x40050003),
{ broadcast use lemma_kv_len; lemma_kv(0x40050003, (x as int)); }
pub proof fn rt_TpFreqTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050024, (x as int)) + t) == Some(CfgVal::TpFreqTp1(x)), le4(kv4(0x40050024, (x as int)), 0) == 0x40050024, kv4(0x40050024, (x as int)).len() == 4 + class_len(0x40050024),
{ broadcast use lemma_kv_len; lemma_kv(0x40050024, (x as int)); }
pub proof fn rt_TpFreqLockTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050025, (x as int)) + t) == Some(CfgVal::TpFreqLockTp1(x)), le4(kv4(0x40050025, (x as int)), 0) == 0x40050025, kv4(0x40050025, (x as int)).len() == 4 + class_len(0x40050025),
{ broadcast use lemma_kv_len; lemma_kv(0x40050025, (x as int)); }
pub proof fn rt_TpLenTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050004, (x as int)) + t) == Some(CfgVal::TpLenTp1(x)), le4(kv4(0x40050004, (x as int)), 0) == 0x40050004, kv4(0x40050004, (x as int)).len() == 4 + class_len(0x40050004),
{ broadcast use lemma_kv_len; lemma_kv(0x40050004, (x as int)); }
pub proof fn rt_TpLenLockTp1(x: u32, t: Seq<u8>)
    ensures item_at(kv4(0x40050005, (x as int)) + t) == Some(CfgVal::TpLenLockTp1(x)), le4(kv4(0x40050005, (x as int)), 0) == 0x40050005, kv4(0x40050005, (x as int)).len() == 4 + class_len(0x40050005),
{ broadcast use lemma_kv_len; lemma_kv(0x40050005, (x as int)); }
pub proof fn rt_TpTp1Ena(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10050007, b2i(x)) + t) == Some(CfgVal::TpTp1Ena(x)), le4(kv1(0x10050007, b2i(x)), 0) == 0x10050007, kv1(0x10050007, b2i(x)).len() == 4 + class_len(0x10050007),
{ broadcast use lemma_kv_len; lemma_kv(0x10050007, b2i(x)); }
pub proof fn rt_TpSyncGnssTp1(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10050008, b2i(x)) + t) == Some(CfgVal::TpSyncGnssTp1(x)), le4(kv1(0x10050008, b2i(x)), 0) == 0x10050008, kv1(0x10050008, b2i(x)).len() == 4 + class_len(0x10050008),
{ broadcast use lemma_kv_len; lemma_kv(0x10050008, b2i(x)); }
pub proof fn rt_TpUseLockedTp1(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x10050009, b2i(x)) + t) == Some(CfgVal::TpUseLockedTp1(x)), le4(kv1(0x10050009, b2i(x)), 0) == 0x10050009, kv1(0x10050009, b2i(x)).len() == 4 + class_len(0x10050009),
{ broadcast use lemma_kv_len; lemma_kv(0x10050009, b2i(x)); }
pub proof fn rt_TpAlignToTowTp1(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1005000a, b2i(x)) + t) == Some(CfgVal::TpAlignToTowTp1(x)), le4(kv1(0x1005000a, b2i(x)), 0) == 0x1005000a, kv1(0x1005000a, b2i(x)).len() == 4 + class_len(0x1005000a),
{ broadcast use lemma_kv_len; lemma_kv(0x1005000a, b2i(x)); }
pub proof fn rt_TpPolTp1(x: bool, t: Seq<u8>)
    ensures item_at(kv1(0x1005000b, b2i(x)) + t) == Some(CfgVal::TpPolTp1(x)), le4(kv1(0x1005000b, b2i(x)), 0) == 0x1005000b, kv1(0x1005000b, b2i(x)).len() == 4 + class_len(0x1005000b),
{ broadcast use lemma_kv_len; lemma_kv(0x1005000b, b2i(x)); }
pub proof fn rt_TpTimegridTp1(x: AlignmentToReferenceTime, t: Seq<u8>)
    ensures item_at(kv1(0x2005000c, AlignmentToReferenceTime_item(x)) + t) == Some(CfgVal::TpTimegridTp1(x)), le4(kv1(0x2005000c, AlignmentToReferenceTime_item(x)), 0) == 0x2005000c, kv1(0x2005000c, AlignmentToReferenceTime_item(x)).len() == 4 + class_len(0x2005000c),
{ broadcast use lemma_kv_len; lemma_kv(0x2005000c, AlignmentToReferenceTime_item(x)); }
} pub use rt7::*;
/// decoding what was encoded, whatever follows it
pub proof fn theorem_item_roundtrip(v: CfgVal, t: Seq<u8>)
    ensures
        item_at(item(v) + t) == Some(v),
        // the size class in the key agrees with the number of value bytes
        item(v).len() == 4 + class_len(le4(item(v), 0)),
{
    hide(item_at);
    match v {
        CfgVal::Uart1Baudrate(x) => { rt_Uart1Baudrate(x, t); }
        CfgVal::Uart1StopBits(x) => { rt_Uart1StopBits(x, t); }
        CfgVal::Uart1DataBits(x) => { rt_Uart1DataBits(x, t); }
        CfgVal::Uart1Parity(x) => { rt_Uart1Parity(x, t); }
        CfgVal::Uart1Enabled(x) => { rt_Uart1Enabled(x, t); }
        CfgVal::Uart1InProtUbx(x) => { rt_Uart1InProtUbx(x, t); }
        CfgVal::Uart1InProtNmea(x) => { rt_Uart1InProtNmea(x, t); }
        CfgVal::Uart1InProtRtcm3x(x) => { rt_Uart1InProtRtcm3x(x, t); }
        CfgVal::Uart1OutProtUbx(x) => { rt_Uart1OutProtUbx(x, t); }
        CfgVal::Uart1OutProtNmea(x) => { rt_Uart1OutProtNmea(x, t); }
        CfgVal::Uart1OutProtRtcm3x(x) => { rt_Uart1OutProtRtcm3x(x, t); }
        CfgVal::Uart2Baudrate(x) => { rt_Uart2Baudrate(x, t); }
        CfgVal::Uart2StopBits(x) => { rt_Uart2StopBits(x, t); }
        CfgVal::Uart2DataBits(x) => { rt_Uart2DataBits(x, t); }
        CfgVal::Uart2Parity(x) => { rt_Uart2Parity(x, t); }
        CfgVal::Uart2Enabled(x) => { rt_Uart2Enabled(x, t); }
        CfgVal::Uart2Remap(x) => { rt_Uart2Remap(x, t); }
        CfgVal::Uart2InProtUbx(x) => { rt_Uart2InProtUbx(x, t); }
        CfgVal::Uart2InProtNmea(x) => { rt_Uart2InProtNmea(x, t); }
        CfgVal::Uart2InProtRtcm3x(x) => { rt_Uart2InProtRtcm3x(x, t); }
        CfgVal::Uart2OutProtUbx(x) => { rt_Uart2OutProtUbx(x, t); }
        CfgVal::Uart2OutProtNmea(x) => { rt_Uart2OutProtNmea(x, t); }
        CfgVal::Uart2OutProtRtcm3x(x) => { rt_Uart2OutProtRtcm3x(x, t); }
        CfgVal::UsbEnabled(x) => { rt_UsbEnabled(x, t); }
        CfgVal::UsbSelfpow(x) => { rt_UsbSelfpow(x, t); }
        CfgVal::UsbVendorId(x) => { rt_UsbVendorId(x, t); }
        CfgVal::UsbProductId(x) => { rt_UsbProductId(x, t); }
        CfgVal::UsbPower(x) => { rt_UsbPower(x, t); }
        CfgVal::UsbVendorStr0(x) => { rt_UsbVendorStr0(x, t); }
        CfgVal::UsbVendorStr1(x) => { rt_UsbVendorStr1(x, t); }
        CfgVal::UsbVendorStr2(x) => { rt_UsbVendorStr2(x, t); }
        CfgVal::UsbVendorStr3(x) => { rt_UsbVendorStr3(x, t); }
        CfgVal::UsbProductStr0(x) => { rt_UsbProductStr0(x, t); }
        CfgVal::UsbProductStr1(x) => { rt_UsbProductStr1(x, t); }
        CfgVal::UsbProductStr2(x) => { rt_UsbProductStr2(x, t); }
        CfgVal::UsbProductStr3(x) => { rt_UsbProductStr3(x, t); }
        CfgVal::UsbSerialNoStr0(x) => { rt_UsbSerialNoStr0(x, t); }
        CfgVal::UsbSerialNoStr1(x) => { rt_UsbSerialNoStr1(x, t); }
        CfgVal::UsbSerialNoStr2(x) => { rt_UsbSerialNoStr2(x, t); }
        CfgVal::UsbSerialNoStr3(x) => { rt_UsbSerialNoStr3(x, t); }
        CfgVal::UsbinprotUbx(x) => { rt_UsbinprotUbx(x, t); }
        CfgVal::UsbinprotNmea(x) => { rt_UsbinprotNmea(x, t); }
        CfgVal::UsbinprotRtcm3X(x) => { rt_UsbinprotRtcm3X(x, t); }
        CfgVal::UsbOutProtUbx(x) => { rt_UsbOutProtUbx(x, t); }
        CfgVal::UsbOutProtNmea(x) => { rt_UsbOutProtNmea(x, t); }
        CfgVal::UsbOutProtRtcm3x(x) => { rt_UsbOutProtRtcm3x(x, t); }
        CfgVal::InfmsgUbxI2c(x) => { rt_InfmsgUbxI2c(x, t); }
        CfgVal::InfmsgUbxUart1(x) => { rt_InfmsgUbxUart1(x, t); }
        CfgVal::InfmsgUbxUart2(x) => { rt_InfmsgUbxUart2(x, t); }
        CfgVal::InfmsgUbxUsb(x) => { rt_InfmsgUbxUsb(x, t); }
        CfgVal::InfmsgUbxSpi(x) => { rt_InfmsgUbxSpi(x, t); }
        CfgVal::InfmsgNmeaI2c(x) => { rt_InfmsgNmeaI2c(x, t); }
        CfgVal::InfmsgNmeaUart1(x) => { rt_InfmsgNmeaUart1(x, t); }
        CfgVal::InfmsgNmeaUart2(x) => { rt_InfmsgNmeaUart2(x, t); }
        CfgVal::InfmsgNmeaUsb(x) => { rt_InfmsgNmeaUsb(x, t); }
        CfgVal::InfmsgNmeaSpi(x) => { rt_InfmsgNmeaSpi(x, t); }
        CfgVal::RateMeas(x) => { rt_RateMeas(x, t); }
        CfgVal::RateNav(x) => { rt_RateNav(x, t); }
        CfgVal::RateTimeref(x) => { rt_RateTimeref(x, t); }
        CfgVal::MsgoutNmeaIdDtmI2c(x) => { rt_MsgoutNmeaIdDtmI2c(x, t); }
        CfgVal::MsgoutNmeaIdDtmSpi(x) => { rt_MsgoutNmeaIdDtmSpi(x, t); }
        CfgVal::MsgoutNmeaIdDtmUart1(x) => { rt_MsgoutNmeaIdDtmUart1(x, t); }
        CfgVal::MsgoutNmeaIdDtmUart2(x) => { rt_MsgoutNmeaIdDtmUart2(x, t); }
        CfgVal::MsgoutNmeaIdDtmUsb(x) => { rt_MsgoutNmeaIdDtmUsb(x, t); }
        CfgVal::MsgoutNmeaIdGbsI2c(x) => { rt_MsgoutNmeaIdGbsI2c(x, t); }
        CfgVal::MsgoutNmeaIdGbsSpi(x) => { rt_MsgoutNmeaIdGbsSpi(x, t); }
        CfgVal::MsgoutNmeaIdGbsUart1(x) => { rt_MsgoutNmeaIdGbsUart1(x, t); }
        CfgVal::MsgoutNmeaIdGbsUart2(x) => { rt_MsgoutNmeaIdGbsUart2(x, t); }
        CfgVal::MsgoutNmeaIdGbsUsb(x) => { rt_MsgoutNmeaIdGbsUsb(x, t); }
        CfgVal::MsgoutNmeaIdGgaI2c(x) => { rt_MsgoutNmeaIdGgaI2c(x, t); }
        CfgVal::MsgoutNmeaIdGgaSpi(x) => { rt_MsgoutNmeaIdGgaSpi(x, t); }
        CfgVal::MsgoutNmeaIdGgaUart1(x) => { rt_MsgoutNmeaIdGgaUart1(x, t); }
        CfgVal::MsgoutNmeaIdGgaUart2(x) => { rt_MsgoutNmeaIdGgaUart2(x, t); }
        CfgVal::MsgoutNmeaIdGgaUsb(x) => { rt_MsgoutNmeaIdGgaUsb(x, t); }
        CfgVal::MsgoutNmeaIdGllI2c(x) => { rt_MsgoutNmeaIdGllI2c(x, t); }
        CfgVal::MsgoutNmeaIdGllSpi(x) => { rt_MsgoutNmeaIdGllSpi(x, t); }
        CfgVal::MsgoutNmeaIdGllUart1(x) => { rt_MsgoutNmeaIdGllUart1(x, t); }
        CfgVal::MsgoutNmeaIdGllUart2(x) => { rt_MsgoutNmeaIdGllUart2(x, t); }
        CfgVal::MsgoutNmeaIdGllUsb(x) => { rt_MsgoutNmeaIdGllUsb(x, t); }
        CfgVal::MsgoutNmeaIdGnsI2c(x) => { rt_MsgoutNmeaIdGnsI2c(x, t); }
        CfgVal::MsgoutNmeaIdGnsSpi(x) => { rt_MsgoutNmeaIdGnsSpi(x, t); }
        CfgVal::MsgoutNmeaIdGnsUart1(x) => { rt_MsgoutNmeaIdGnsUart1(x, t); }
        CfgVal::MsgoutNmeaIdGnsUart2(x) => { rt_MsgoutNmeaIdGnsUart2(x, t); }
        CfgVal::MsgoutNmeaIdGnsUsb(x) => { rt_MsgoutNmeaIdGnsUsb(x, t); }
        CfgVal::MsgoutNmeaIdGrsI2c(x) => { rt_MsgoutNmeaIdGrsI2c(x, t); }
        CfgVal::MsgoutNmeaIdGrsSpi(x) => { rt_MsgoutNmeaIdGrsSpi(x, t); }
        CfgVal::MsgoutNmeaIdGrsUart1(x) => { rt_MsgoutNmeaIdGrsUart1(x, t); }
        CfgVal::MsgoutNmeaIdGrsUart2(x) => { rt_MsgoutNmeaIdGrsUart2(x, t); }
        CfgVal::MsgoutNmeaIdGrsUsb(x) => { rt_MsgoutNmeaIdGrsUsb(x, t); }
        CfgVal::MsgoutNmeaIdGsaI2c(x) => { rt_MsgoutNmeaIdGsaI2c(x, t); }
        CfgVal::MsgoutNmeaIdGsaSpi(x) => { rt_MsgoutNmeaIdGsaSpi(x, t); }
        CfgVal::MsgoutNmeaIdGsaUart1(x) => { rt_MsgoutNmeaIdGsaUart1(x, t); }
        CfgVal::MsgoutNmeaIdGsaUart2(x) => { rt_MsgoutNmeaIdGsaUart2(x, t); }
        CfgVal::MsgoutNmeaIdGsaUsb(x) => { rt_MsgoutNmeaIdGsaUsb(x, t); }
        CfgVal::MsgoutNmeaIdGstI2c(x) => { rt_MsgoutNmeaIdGstI2c(x, t); }
        CfgVal::MsgoutNmeaIdGstSpi(x) => { rt_MsgoutNmeaIdGstSpi(x, t); }
        CfgVal::MsgoutNmeaIdGstUart1(x) => { rt_MsgoutNmeaIdGstUart1(x, t); }
        CfgVal::MsgoutNmeaIdGstUart2(x) => { rt_MsgoutNmeaIdGstUart2(x, t); }
        CfgVal::MsgoutNmeaIdGstUsb(x) => { rt_MsgoutNmeaIdGstUsb(x, t); }
        CfgVal::MsgoutNmeaIdGsvI2c(x) => { rt_MsgoutNmeaIdGsvI2c(x, t); }
        CfgVal::MsgoutNmeaIdGsvSpi(x) => { rt_MsgoutNmeaIdGsvSpi(x, t); }
        CfgVal::MsgoutNmeaIdGsvUart1(x) => { rt_MsgoutNmeaIdGsvUart1(x, t); }
        CfgVal::MsgoutNmeaIdGsvUart2(x) => { rt_MsgoutNmeaIdGsvUart2(x, t); }
        CfgVal::MsgoutNmeaIdGsvUsb(x) => { rt_MsgoutNmeaIdGsvUsb(x, t); }
        CfgVal::MsgoutNmeaIdRmcI2c(x) => { rt_MsgoutNmeaIdRmcI2c(x, t); }
        CfgVal::MsgoutNmeaIdRmcSpi(x) => { rt_MsgoutNmeaIdRmcSpi(x, t); }
        CfgVal::MsgoutNmeaIdRmcUart1(x) => { rt_MsgoutNmeaIdRmcUart1(x, t); }
        CfgVal::MsgoutNmeaIdRmcUart2(x) => { rt_MsgoutNmeaIdRmcUart2(x, t); }
        CfgVal::MsgoutNmeaIdRmcUsb(x) => { rt_MsgoutNmeaIdRmcUsb(x, t); }
        CfgVal::MsgoutNmeaIdVlwI2c(x) => { rt_MsgoutNmeaIdVlwI2c(x, t); }
        CfgVal::MsgoutNmeaIdVlwSpi(x) => { rt_MsgoutNmeaIdVlwSpi(x, t); }
        CfgVal::MsgoutNmeaIdVlwUart1(x) => { rt_MsgoutNmeaIdVlwUart1(x, t); }
        CfgVal::MsgoutNmeaIdVlwUart2(x) => { rt_MsgoutNmeaIdVlwUart2(x, t); }
        CfgVal::MsgoutNmeaIdVlwUsb(x) => { rt_MsgoutNmeaIdVlwUsb(x, t); }
        CfgVal::MsgoutNmeaIdVtgI2c(x) => { rt_MsgoutNmeaIdVtgI2c(x, t); }
        CfgVal::MsgoutNmeaIdVtgSpi(x) => { rt_MsgoutNmeaIdVtgSpi(x, t); }
        CfgVal::MsgoutNmeaIdVtgUart1(x) => { rt_MsgoutNmeaIdVtgUart1(x, t); }
        CfgVal::MsgoutNmeaIdVtgUart2(x) => { rt_MsgoutNmeaIdVtgUart2(x, t); }
        CfgVal::MsgoutNmeaIdVtgUsb(x) => { rt_MsgoutNmeaIdVtgUsb(x, t); }
        CfgVal::MsgoutNmeaIdZdaI2c(x) => { rt_MsgoutNmeaIdZdaI2c(x, t); }
        CfgVal::MsgoutNmeaIdZdaSpi(x) => { rt_MsgoutNmeaIdZdaSpi(x, t); }
        CfgVal::MsgoutNmeaIdZdaUart1(x) => { rt_MsgoutNmeaIdZdaUart1(x, t); }
        CfgVal::MsgoutNmeaIdZdaUart2(x) => { rt_MsgoutNmeaIdZdaUart2(x, t); }
        CfgVal::MsgoutNmeaIdZdaUsb(x) => { rt_MsgoutNmeaIdZdaUsb(x, t); }
        CfgVal::MsgoutPubxIdPolypI2c(x) => { rt_MsgoutPubxIdPolypI2c(x, t); }
        CfgVal::MsgoutPubxIdPolypSpi(x) => { rt_MsgoutPubxIdPolypSpi(x, t); }
        CfgVal::MsgoutPubxIdPolypUart1(x) => { rt_MsgoutPubxIdPolypUart1(x, t); }
        CfgVal::MsgoutPubxIdPolypUart2(x) => { rt_MsgoutPubxIdPolypUart2(x, t); }
        CfgVal::MsgoutPubxIdPolypUsb(x) => { rt_MsgoutPubxIdPolypUsb(x, t); }
        CfgVal::MsgoutPubxIdPolysI2c(x) => { rt_MsgoutPubxIdPolysI2c(x, t); }
        CfgVal::MsgoutPubxIdPolysSpi(x) => { rt_MsgoutPubxIdPolysSpi(x, t); }
        CfgVal::MsgoutPubxIdPolysUart1(x) => { rt_MsgoutPubxIdPolysUart1(x, t); }
        CfgVal::MsgoutPubxIdPolysUart2(x) => { rt_MsgoutPubxIdPolysUart2(x, t); }
        CfgVal::MsgoutPubxIdPolysUsb(x) => { rt_MsgoutPubxIdPolysUsb(x, t); }
        CfgVal::MsgoutPubxIdPolytI2c(x) => { rt_MsgoutPubxIdPolytI2c(x, t); }
        CfgVal::MsgoutPubxIdPolytSpi(x) => { rt_MsgoutPubxIdPolytSpi(x, t); }
        CfgVal::MsgoutPubxIdPolytUart1(x) => { rt_MsgoutPubxIdPolytUart1(x, t); }
        CfgVal::MsgoutPubxIdPolytUart2(x) => { rt_MsgoutPubxIdPolytUart2(x, t); }
        CfgVal::MsgoutPubxIdPolytUsb(x) => { rt_MsgoutPubxIdPolytUsb(x, t); }
        CfgVal::MsgoutRtcm3xType1005I2c(x) => { rt_MsgoutRtcm3xType1005I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1005Spi(x) => { rt_MsgoutRtcm3xType1005Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1005Uart1(x) => { rt_MsgoutRtcm3xType1005Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1005Uart2(x) => { rt_MsgoutRtcm3xType1005Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1005Usb(x) => { rt_MsgoutRtcm3xType1005Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1074I2c(x) => { rt_MsgoutRtcm3xType1074I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1074Spi(x) => { rt_MsgoutRtcm3xType1074Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1074Uart1(x) => { rt_MsgoutRtcm3xType1074Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1074Uart2(x) => { rt_MsgoutRtcm3xType1074Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1074Usb(x) => { rt_MsgoutRtcm3xType1074Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1077I2c(x) => { rt_MsgoutRtcm3xType1077I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1077Spi(x) => { rt_MsgoutRtcm3xType1077Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1077Uart1(x) => { rt_MsgoutRtcm3xType1077Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1077Uart2(x) => { rt_MsgoutRtcm3xType1077Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1077Usb(x) => { rt_MsgoutRtcm3xType1077Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1084I2c(x) => { rt_MsgoutRtcm3xType1084I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1084Spi(x) => { rt_MsgoutRtcm3xType1084Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1084Uart1(x) => { rt_MsgoutRtcm3xType1084Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1084Uart2(x) => { rt_MsgoutRtcm3xType1084Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1084Usb(x) => { rt_MsgoutRtcm3xType1084Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1087I2c(x) => { rt_MsgoutRtcm3xType1087I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1087Spi(x) => { rt_MsgoutRtcm3xType1087Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1087Uart1(x) => { rt_MsgoutRtcm3xType1087Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1087Uart2(x) => { rt_MsgoutRtcm3xType1087Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1087Usb(x) => { rt_MsgoutRtcm3xType1087Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1094I2c(x) => { rt_MsgoutRtcm3xType1094I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1094Spi(x) => { rt_MsgoutRtcm3xType1094Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1094Uart1(x) => { rt_MsgoutRtcm3xType1094Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1094Uart2(x) => { rt_MsgoutRtcm3xType1094Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1094Usb(x) => { rt_MsgoutRtcm3xType1094Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1097I2c(x) => { rt_MsgoutRtcm3xType1097I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1097Spi(x) => { rt_MsgoutRtcm3xType1097Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1097Uart1(x) => { rt_MsgoutRtcm3xType1097Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1097Uart2(x) => { rt_MsgoutRtcm3xType1097Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1097Usb(x) => { rt_MsgoutRtcm3xType1097Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1124I2c(x) => { rt_MsgoutRtcm3xType1124I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1124Spi(x) => { rt_MsgoutRtcm3xType1124Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1124Uart1(x) => { rt_MsgoutRtcm3xType1124Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1124Uart2(x) => { rt_MsgoutRtcm3xType1124Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1124Usb(x) => { rt_MsgoutRtcm3xType1124Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1127I2c(x) => { rt_MsgoutRtcm3xType1127I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1127Spi(x) => { rt_MsgoutRtcm3xType1127Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1127Uart1(x) => { rt_MsgoutRtcm3xType1127Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1127Uart2(x) => { rt_MsgoutRtcm3xType1127Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1127Usb(x) => { rt_MsgoutRtcm3xType1127Usb(x, t); }
        CfgVal::MsgoutRtcm3xType1230I2c(x) => { rt_MsgoutRtcm3xType1230I2c(x, t); }
        CfgVal::MsgoutRtcm3xType1230Spi(x) => { rt_MsgoutRtcm3xType1230Spi(x, t); }
        CfgVal::MsgoutRtcm3xType1230Uart1(x) => { rt_MsgoutRtcm3xType1230Uart1(x, t); }
        CfgVal::MsgoutRtcm3xType1230Uart2(x) => { rt_MsgoutRtcm3xType1230Uart2(x, t); }
        CfgVal::MsgoutRtcm3xType1230Usb(x) => { rt_MsgoutRtcm3xType1230Usb(x, t); }
        CfgVal::MsgoutUbxLogInfoI2c(x) => { rt_MsgoutUbxLogInfoI2c(x, t); }
        CfgVal::MsgoutUbxLogInfoSpi(x) => { rt_MsgoutUbxLogInfoSpi(x, t); }
        CfgVal::MsgoutUbxLogInfoUart1(x) => { rt_MsgoutUbxLogInfoUart1(x, t); }
        CfgVal::MsgoutUbxLogInfoUart2(x) => { rt_MsgoutUbxLogInfoUart2(x, t); }
        CfgVal::MsgoutUbxLogInfoUsb(x) => { rt_MsgoutUbxLogInfoUsb(x, t); }
        CfgVal::MsgoutUbxMonCommsI2c(x) => { rt_MsgoutUbxMonCommsI2c(x, t); }
        CfgVal::MsgoutUbxMonCommsSpi(x) => { rt_MsgoutUbxMonCommsSpi(x, t); }
        CfgVal::MsgoutUbxMonCommsUart1(x) => { rt_MsgoutUbxMonCommsUart1(x, t); }
        CfgVal::MsgoutUbxMonCommsUart2(x) => { rt_MsgoutUbxMonCommsUart2(x, t); }
        CfgVal::MsgoutUbxMonCommsUsb(x) => { rt_MsgoutUbxMonCommsUsb(x, t); }
        CfgVal::MsgoutUbxMonHw2I2c(x) => { rt_MsgoutUbxMonHw2I2c(x, t); }
        CfgVal::MsgoutUbxMonHw2Spi(x) => { rt_MsgoutUbxMonHw2Spi(x, t); }
        CfgVal::MsgoutUbxMonHw2Uart1(x) => { rt_MsgoutUbxMonHw2Uart1(x, t); }
        CfgVal::MsgoutUbxMonHw2Uart2(x) => { rt_MsgoutUbxMonHw2Uart2(x, t); }
        CfgVal::MsgoutUbxMonHw2Usb(x) => { rt_MsgoutUbxMonHw2Usb(x, t); }
        CfgVal::MsgoutUbxMonHw3I2c(x) => { rt_MsgoutUbxMonHw3I2c(x, t); }
        CfgVal::MsgoutUbxMonHw3Spi(x) => { rt_MsgoutUbxMonHw3Spi(x, t); }
        CfgVal::MsgoutUbxMonHw3Uart1(x) => { rt_MsgoutUbxMonHw3Uart1(x, t); }
        CfgVal::MsgoutUbxMonHw3Uart2(x) => { rt_MsgoutUbxMonHw3Uart2(x, t); }
        CfgVal::MsgoutUbxMonHw3Usb(x) => { rt_MsgoutUbxMonHw3Usb(x, t); }
        CfgVal::MsgoutUbxMonHwI2c(x) => { rt_MsgoutUbxMonHwI2c(x, t); }
        CfgVal::MsgoutUbxMonHwSpi(x) => { rt_MsgoutUbxMonHwSpi(x, t); }
        CfgVal::MsgoutUbxMonHwUart1(x) => { rt_MsgoutUbxMonHwUart1(x, t); }
        CfgVal::MsgoutUbxMonHwUart2(x) => { rt_MsgoutUbxMonHwUart2(x, t); }
        CfgVal::MsgoutUbxMonHwUsb(x) => { rt_MsgoutUbxMonHwUsb(x, t); }
        CfgVal::MsgoutUbxMonIoI2c(x) => { rt_MsgoutUbxMonIoI2c(x, t); }
        CfgVal::MsgoutUbxMonIoSpi(x) => { rt_MsgoutUbxMonIoSpi(x, t); }
        CfgVal::MsgoutUbxMonIoUart1(x) => { rt_MsgoutUbxMonIoUart1(x, t); }
        CfgVal::MsgoutUbxMonIoUart2(x) => { rt_MsgoutUbxMonIoUart2(x, t); }
        CfgVal::MsgoutUbxMonIoUsb(x) => { rt_MsgoutUbxMonIoUsb(x, t); }
        CfgVal::MsgoutUbxMonMsgPpI2c(x) => { rt_MsgoutUbxMonMsgPpI2c(x, t); }
        CfgVal::MsgoutUbxMonMsgPpSpi(x) => { rt_MsgoutUbxMonMsgPpSpi(x, t); }
        CfgVal::MsgoutUbxMonMsgPpUart1(x) => { rt_MsgoutUbxMonMsgPpUart1(x, t); }
        CfgVal::MsgoutUbxMonMsgPpUart2(x) => { rt_MsgoutUbxMonMsgPpUart2(x, t); }
        CfgVal::MsgoutUbxMonMsgPpUsb(x) => { rt_MsgoutUbxMonMsgPpUsb(x, t); }
        CfgVal::MsgoutUbxMonRfI2c(x) => { rt_MsgoutUbxMonRfI2c(x, t); }
        CfgVal::MsgoutUbxMonRfSpi(x) => { rt_MsgoutUbxMonRfSpi(x, t); }
        CfgVal::MsgoutUbxMonRfUart1(x) => { rt_MsgoutUbxMonRfUart1(x, t); }
        CfgVal::MsgoutUbxMonRfUart2(x) => { rt_MsgoutUbxMonRfUart2(x, t); }
        CfgVal::MsgoutUbxMonRfUsb(x) => { rt_MsgoutUbxMonRfUsb(x, t); }
        CfgVal::MsgoutUbxMonRxbufI2c(x) => { rt_MsgoutUbxMonRxbufI2c(x, t); }
        CfgVal::MsgoutUbxMonRxbufSpi(x) => { rt_MsgoutUbxMonRxbufSpi(x, t); }
        CfgVal::MsgoutUbxMonRxbufUart1(x) => { rt_MsgoutUbxMonRxbufUart1(x, t); }
        CfgVal::MsgoutUbxMonRxbufUart2(x) => { rt_MsgoutUbxMonRxbufUart2(x, t); }
        CfgVal::MsgoutUbxMonRxbufUsb(x) => { rt_MsgoutUbxMonRxbufUsb(x, t); }
        CfgVal::MsgoutUbxMonRxrI2c(x) => { rt_MsgoutUbxMonRxrI2c(x, t); }
        CfgVal::MsgoutUbxMonRxrSpi(x) => { rt_MsgoutUbxMonRxrSpi(x, t); }
        CfgVal::MsgoutUbxMonRxrUart1(x) => { rt_MsgoutUbxMonRxrUart1(x, t); }
        CfgVal::MsgoutUbxMonRxrUart2(x) => { rt_MsgoutUbxMonRxrUart2(x, t); }
        CfgVal::MsgoutUbxMonRxrUsb(x) => { rt_MsgoutUbxMonRxrUsb(x, t); }
        CfgVal::MsgoutUbxMonTxbufI2c(x) => { rt_MsgoutUbxMonTxbufI2c(x, t); }
        CfgVal::MsgoutUbxMonTxbufSpi(x) => { rt_MsgoutUbxMonTxbufSpi(x, t); }
        CfgVal::MsgoutUbxMonTxbufUart1(x) => { rt_MsgoutUbxMonTxbufUart1(x, t); }
        CfgVal::MsgoutUbxMonTxbufUart2(x) => { rt_MsgoutUbxMonTxbufUart2(x, t); }
        CfgVal::MsgoutUbxMonTxbufUsb(x) => { rt_MsgoutUbxMonTxbufUsb(x, t); }
        CfgVal::MsgoutUbxNavClockI2c(x) => { rt_MsgoutUbxNavClockI2c(x, t); }
        CfgVal::MsgoutUbxNavClockSpi(x) => { rt_MsgoutUbxNavClockSpi(x, t); }
        CfgVal::MsgoutUbxNavClockUart1(x) => { rt_MsgoutUbxNavClockUart1(x, t); }
        CfgVal::MsgoutUbxNavClockUart2(x) => { rt_MsgoutUbxNavClockUart2(x, t); }
        CfgVal::MsgoutUbxNavClockUsb(x) => { rt_MsgoutUbxNavClockUsb(x, t); }
        CfgVal::MsgoutUbxNavDopI2c(x) => { rt_MsgoutUbxNavDopI2c(x, t); }
        CfgVal::MsgoutUbxNavDopSpi(x) => { rt_MsgoutUbxNavDopSpi(x, t); }
        CfgVal::MsgoutUbxNavDopUart1(x) => { rt_MsgoutUbxNavDopUart1(x, t); }
        CfgVal::MsgoutUbxNavDopUart2(x) => { rt_MsgoutUbxNavDopUart2(x, t); }
        CfgVal::MsgoutUbxNavDopUsb(x) => { rt_MsgoutUbxNavDopUsb(x, t); }
        CfgVal::MsgoutUbxNavEoeI2c(x) => { rt_MsgoutUbxNavEoeI2c(x, t); }
        CfgVal::MsgoutUbxNavEoeSpi(x) => { rt_MsgoutUbxNavEoeSpi(x, t); }
        CfgVal::MsgoutUbxNavEoeUart1(x) => { rt_MsgoutUbxNavEoeUart1(x, t); }
        CfgVal::MsgoutUbxNavEoeUart2(x) => { rt_MsgoutUbxNavEoeUart2(x, t); }
        CfgVal::MsgoutUbxNavEoeUsb(x) => { rt_MsgoutUbxNavEoeUsb(x, t); }
        CfgVal::MsgoutUbxNavGeofenceI2c(x) => { rt_MsgoutUbxNavGeofenceI2c(x, t); }
        CfgVal::MsgoutUbxNavGeofenceSpi(x) => { rt_MsgoutUbxNavGeofenceSpi(x, t); }
        CfgVal::MsgoutUbxNavGeofenceUart1(x) => { rt_MsgoutUbxNavGeofenceUart1(x, t); }
        CfgVal::MsgoutUbxNavGeofenceUart2(x) => { rt_MsgoutUbxNavGeofenceUart2(x, t); }
        CfgVal::MsgoutUbxNavGeofenceUsb(x) => { rt_MsgoutUbxNavGeofenceUsb(x, t); }
        CfgVal::MsgoutUbxNavHpPosEcefI2c(x) => { rt_MsgoutUbxNavHpPosEcefI2c(x, t); }
        CfgVal::MsgoutUbxNavHpPosEcefSpi(x) => { rt_MsgoutUbxNavHpPosEcefSpi(x, t); }
        CfgVal::MsgoutUbxNavHpPosEcefUart1(x) => { rt_MsgoutUbxNavHpPosEcefUart1(x, t); }
        CfgVal::MsgoutUbxNavHpPosEcefUart2(x) => { rt_MsgoutUbxNavHpPosEcefUart2(x, t); }
        CfgVal::MsgoutUbxNavHpPosEcefUsb(x) => { rt_MsgoutUbxNavHpPosEcefUsb(x, t); }
        CfgVal::MsgoutUbxNavHpPosllhI2c(x) => { rt_MsgoutUbxNavHpPosllhI2c(x, t); }
        CfgVal::MsgoutUbxNavHpPosllhSpi(x) => { rt_MsgoutUbxNavHpPosllhSpi(x, t); }
        CfgVal::MsgoutUbxNavHpPosllhUart1(x) => { rt_MsgoutUbxNavHpPosllhUart1(x, t); }
        CfgVal::MsgoutUbxNavHpPosllhUart2(x) => { rt_MsgoutUbxNavHpPosllhUart2(x, t); }
        CfgVal::MsgoutUbxNavHpPosllhUsb(x) => { rt_MsgoutUbxNavHpPosllhUsb(x, t); }
        CfgVal::MsgoutUbxNavOdoI2c(x) => { rt_MsgoutUbxNavOdoI2c(x, t); }
        CfgVal::MsgoutUbxNavOdoSpi(x) => { rt_MsgoutUbxNavOdoSpi(x, t); }
        CfgVal::MsgoutUbxNavOdoUart1(x) => { rt_MsgoutUbxNavOdoUart1(x, t); }
        CfgVal::MsgoutUbxNavOdoUart2(x) => { rt_MsgoutUbxNavOdoUart2(x, t); }
        CfgVal::MsgoutUbxNavOdoUsb(x) => { rt_MsgoutUbxNavOdoUsb(x, t); }
        CfgVal::MsgoutUbxNavOrbI2c(x) => { rt_MsgoutUbxNavOrbI2c(x, t); }
        CfgVal::MsgoutUbxNavOrbSpi(x) => { rt_MsgoutUbxNavOrbSpi(x, t); }
        CfgVal::MsgoutUbxNavOrbUart1(x) => { rt_MsgoutUbxNavOrbUart1(x, t); }
        CfgVal::MsgoutUbxNavOrbUart2(x) => { rt_MsgoutUbxNavOrbUart2(x, t); }
        CfgVal::MsgoutUbxNavOrbUsb(x) => { rt_MsgoutUbxNavOrbUsb(x, t); }
        CfgVal::MsgoutUbxNavPosEcefI2c(x) => { rt_MsgoutUbxNavPosEcefI2c(x, t); }
        CfgVal::MsgoutUbxNavPosEcefSpi(x) => { rt_MsgoutUbxNavPosEcefSpi(x, t); }
        CfgVal::MsgoutUbxNavPosEcefUart1(x) => { rt_MsgoutUbxNavPosEcefUart1(x, t); }
        CfgVal::MsgoutUbxNavPosEcefUart2(x) => { rt_MsgoutUbxNavPosEcefUart2(x, t); }
        CfgVal::MsgoutUbxNavPosEcefUsb(x) => { rt_MsgoutUbxNavPosEcefUsb(x, t); }
        CfgVal::MsgoutUbxNavPosLlhI2c(x) => { rt_MsgoutUbxNavPosLlhI2c(x, t); }
        CfgVal::MsgoutUbxNavPosLlhSpi(x) => { rt_MsgoutUbxNavPosLlhSpi(x, t); }
        CfgVal::MsgoutUbxNavPosLlhUart1(x) => { rt_MsgoutUbxNavPosLlhUart1(x, t); }
        CfgVal::MsgoutUbxNavPosLlhUart2(x) => { rt_MsgoutUbxNavPosLlhUart2(x, t); }
        CfgVal::MsgoutUbxNavPosLlhUsb(x) => { rt_MsgoutUbxNavPosLlhUsb(x, t); }
        CfgVal::MsgoutUbxNavPvtI2c(x) => { rt_MsgoutUbxNavPvtI2c(x, t); }
        CfgVal::MsgoutUbxNavPvtSpi(x) => { rt_MsgoutUbxNavPvtSpi(x, t); }
        CfgVal::MsgoutUbxNavPvtUart1(x) => { rt_MsgoutUbxNavPvtUart1(x, t); }
        CfgVal::MsgoutUbxNavPvtUart2(x) => { rt_MsgoutUbxNavPvtUart2(x, t); }
        CfgVal::MsgoutUbxNavPvtUsb(x) => { rt_MsgoutUbxNavPvtUsb(x, t); }
        CfgVal::MsgoutUbxNavRelposnedI2c(x) => { rt_MsgoutUbxNavRelposnedI2c(x, t); }
        CfgVal::MsgoutUbxNavRelposnedSpi(x) => { rt_MsgoutUbxNavRelposnedSpi(x, t); }
        CfgVal::MsgoutUbxNavRelposnedUart1(x) => { rt_MsgoutUbxNavRelposnedUart1(x, t); }
        CfgVal::MsgoutUbxNavRelposnedUart2(x) => { rt_MsgoutUbxNavRelposnedUart2(x, t); }
        CfgVal::MsgoutUbxNavRelposnedUsb(x) => { rt_MsgoutUbxNavRelposnedUsb(x, t); }
        CfgVal::MsgoutUbxNavSatI2c(x) => { rt_MsgoutUbxNavSatI2c(x, t); }
        CfgVal::MsgoutUbxNavSatSpi(x) => { rt_MsgoutUbxNavSatSpi(x, t); }
        CfgVal::MsgoutUbxNavSatUart1(x) => { rt_MsgoutUbxNavSatUart1(x, t); }
        CfgVal::MsgoutUbxNavSatUart2(x) => { rt_MsgoutUbxNavSatUart2(x, t); }
        CfgVal::MsgoutUbxNavSatUsb(x) => { rt_MsgoutUbxNavSatUsb(x, t); }
        CfgVal::MsgoutUbxNavSigI2c(x) => { rt_MsgoutUbxNavSigI2c(x, t); }
        CfgVal::MsgoutUbxNavSigSpi(x) => { rt_MsgoutUbxNavSigSpi(x, t); }
        CfgVal::MsgoutUbxNavSigUart1(x) => { rt_MsgoutUbxNavSigUart1(x, t); }
        CfgVal::MsgoutUbxNavSigUart2(x) => { rt_MsgoutUbxNavSigUart2(x, t); }
        CfgVal::MsgoutUbxNavSigUsb(x) => { rt_MsgoutUbxNavSigUsb(x, t); }
        CfgVal::MsgoutUbxNavStatusI2c(x) => { rt_MsgoutUbxNavStatusI2c(x, t); }
        CfgVal::MsgoutUbxNavStatusSpi(x) => { rt_MsgoutUbxNavStatusSpi(x, t); }
        CfgVal::MsgoutUbxNavStatusUart1(x) => { rt_MsgoutUbxNavStatusUart1(x, t); }
        CfgVal::MsgoutUbxNavStatusUart2(x) => { rt_MsgoutUbxNavStatusUart2(x, t); }
        CfgVal::MsgoutUbxNavStatusUsb(x) => { rt_MsgoutUbxNavStatusUsb(x, t); }
        CfgVal::MsgoutUbxNavSvinI2c(x) => { rt_MsgoutUbxNavSvinI2c(x, t); }
        CfgVal::MsgoutUbxNavSvinSpi(x) => { rt_MsgoutUbxNavSvinSpi(x, t); }
        CfgVal::MsgoutUbxNavSvinUart1(x) => { rt_MsgoutUbxNavSvinUart1(x, t); }
        CfgVal::MsgoutUbxNavSvinUart2(x) => { rt_MsgoutUbxNavSvinUart2(x, t); }
        CfgVal::MsgoutUbxNavSvinUsb(x) => { rt_MsgoutUbxNavSvinUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeBdsI2c(x) => { rt_MsgoutUbxNavTimeBdsI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeBdsSpi(x) => { rt_MsgoutUbxNavTimeBdsSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeBdsUart1(x) => { rt_MsgoutUbxNavTimeBdsUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeBdsUart2(x) => { rt_MsgoutUbxNavTimeBdsUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeBdsUsb(x) => { rt_MsgoutUbxNavTimeBdsUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeGalI2c(x) => { rt_MsgoutUbxNavTimeGalI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeGalSpi(x) => { rt_MsgoutUbxNavTimeGalSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeGalUart1(x) => { rt_MsgoutUbxNavTimeGalUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeGalUart2(x) => { rt_MsgoutUbxNavTimeGalUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeGalUsb(x) => { rt_MsgoutUbxNavTimeGalUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeGloI2c(x) => { rt_MsgoutUbxNavTimeGloI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeGloSpi(x) => { rt_MsgoutUbxNavTimeGloSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeGloUart1(x) => { rt_MsgoutUbxNavTimeGloUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeGloUart2(x) => { rt_MsgoutUbxNavTimeGloUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeGloUsb(x) => { rt_MsgoutUbxNavTimeGloUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeGpsI2c(x) => { rt_MsgoutUbxNavTimeGpsI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeGpsSpi(x) => { rt_MsgoutUbxNavTimeGpsSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeGpsUart1(x) => { rt_MsgoutUbxNavTimeGpsUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeGpsUart2(x) => { rt_MsgoutUbxNavTimeGpsUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeGpsUsb(x) => { rt_MsgoutUbxNavTimeGpsUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeLsI2c(x) => { rt_MsgoutUbxNavTimeLsI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeLsSpi(x) => { rt_MsgoutUbxNavTimeLsSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeLsUart1(x) => { rt_MsgoutUbxNavTimeLsUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeLsUart2(x) => { rt_MsgoutUbxNavTimeLsUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeLsUsb(x) => { rt_MsgoutUbxNavTimeLsUsb(x, t); }
        CfgVal::MsgoutUbxNavTimeUtcI2c(x) => { rt_MsgoutUbxNavTimeUtcI2c(x, t); }
        CfgVal::MsgoutUbxNavTimeUtcSpi(x) => { rt_MsgoutUbxNavTimeUtcSpi(x, t); }
        CfgVal::MsgoutUbxNavTimeUtcUart1(x) => { rt_MsgoutUbxNavTimeUtcUart1(x, t); }
        CfgVal::MsgoutUbxNavTimeUtcUart2(x) => { rt_MsgoutUbxNavTimeUtcUart2(x, t); }
        CfgVal::MsgoutUbxNavTimeUtcUsb(x) => { rt_MsgoutUbxNavTimeUtcUsb(x, t); }
        CfgVal::MsgoutUbxNavVelEcefI2c(x) => { rt_MsgoutUbxNavVelEcefI2c(x, t); }
        CfgVal::MsgoutUbxNavVelEcefSpi(x) => { rt_MsgoutUbxNavVelEcefSpi(x, t); }
        CfgVal::MsgoutUbxNavVelEcefUart1(x) => { rt_MsgoutUbxNavVelEcefUart1(x, t); }
        CfgVal::MsgoutUbxNavVelEcefUart2(x) => { rt_MsgoutUbxNavVelEcefUart2(x, t); }
        CfgVal::MsgoutUbxNavVelEcefUsb(x) => { rt_MsgoutUbxNavVelEcefUsb(x, t); }
        CfgVal::MsgoutUbxNavVelNedI2c(x) => { rt_MsgoutUbxNavVelNedI2c(x, t); }
        CfgVal::MsgoutUbxNavVelNedSpi(x) => { rt_MsgoutUbxNavVelNedSpi(x, t); }
        CfgVal::MsgoutUbxNavVelNedUart1(x) => { rt_MsgoutUbxNavVelNedUart1(x, t); }
        CfgVal::MsgoutUbxNavVelNedUart2(x) => { rt_MsgoutUbxNavVelNedUart2(x, t); }
        CfgVal::MsgoutUbxNavVelNedUsb(x) => { rt_MsgoutUbxNavVelNedUsb(x, t); }
        CfgVal::MsgoutUbxRxmMeasxI2c(x) => { rt_MsgoutUbxRxmMeasxI2c(x, t); }
        CfgVal::MsgoutUbxRxmMeasxSpi(x) => { rt_MsgoutUbxRxmMeasxSpi(x, t); }
        CfgVal::MsgoutUbxRxmMeasxUart1(x) => { rt_MsgoutUbxRxmMeasxUart1(x, t); }
        CfgVal::MsgoutUbxRxmMeasxUart2(x) => { rt_MsgoutUbxRxmMeasxUart2(x, t); }
        CfgVal::MsgoutUbxRxmMeasxUsb(x) => { rt_MsgoutUbxRxmMeasxUsb(x, t); }
        CfgVal::MsgoutUbxRxmRawxI2c(x) => { rt_MsgoutUbxRxmRawxI2c(x, t); }
        CfgVal::MsgoutUbxRxmRawxSpi(x) => { rt_MsgoutUbxRxmRawxSpi(x, t); }
        CfgVal::MsgoutUbxRxmRawxUart1(x) => { rt_MsgoutUbxRxmRawxUart1(x, t); }
        CfgVal::MsgoutUbxRxmRawxUart2(x) => { rt_MsgoutUbxRxmRawxUart2(x, t); }
        CfgVal::MsgoutUbxRxmRawxUsb(x) => { rt_MsgoutUbxRxmRawxUsb(x, t); }
        CfgVal::MsgoutUbxRxmRlmI2c(x) => { rt_MsgoutUbxRxmRlmI2c(x, t); }
        CfgVal::MsgoutUbxRxmRlmSpi(x) => { rt_MsgoutUbxRxmRlmSpi(x, t); }
        CfgVal::MsgoutUbxRxmRlmUart1(x) => { rt_MsgoutUbxRxmRlmUart1(x, t); }
        CfgVal::MsgoutUbxRxmRlmUart2(x) => { rt_MsgoutUbxRxmRlmUart2(x, t); }
        CfgVal::MsgoutUbxRxmRlmUsb(x) => { rt_MsgoutUbxRxmRlmUsb(x, t); }
        CfgVal::MsgoutUbxRxmRtcmI2c(x) => { rt_MsgoutUbxRxmRtcmI2c(x, t); }
        CfgVal::MsgoutUbxRxmRtcmSpi(x) => { rt_MsgoutUbxRxmRtcmSpi(x, t); }
        CfgVal::MsgoutUbxRxmRtcmUart1(x) => { rt_MsgoutUbxRxmRtcmUart1(x, t); }
        CfgVal::MsgoutUbxRxmRtcmUart2(x) => { rt_MsgoutUbxRxmRtcmUart2(x, t); }
        CfgVal::MsgoutUbxRxmRtcmUsb(x) => { rt_MsgoutUbxRxmRtcmUsb(x, t); }
        CfgVal::MsgoutUbxRxmSfrbxI2c(x) => { rt_MsgoutUbxRxmSfrbxI2c(x, t); }
        CfgVal::MsgoutUbxRxmSfrbxSpi(x) => { rt_MsgoutUbxRxmSfrbxSpi(x, t); }
        CfgVal::MsgoutUbxRxmSfrbxUart1(x) => { rt_MsgoutUbxRxmSfrbxUart1(x, t); }
        CfgVal::MsgoutUbxRxmSfrbxUart2(x) => { rt_MsgoutUbxRxmSfrbxUart2(x, t); }
        CfgVal::MsgoutUbxRxmSfrbxUsb(x) => { rt_MsgoutUbxRxmSfrbxUsb(x, t); }
        CfgVal::MsgoutUbxTimTm2I2c(x) => { rt_MsgoutUbxTimTm2I2c(x, t); }
        CfgVal::MsgoutUbxTimTm2Spi(x) => { rt_MsgoutUbxTimTm2Spi(x, t); }
        CfgVal::MsgoutUbxTimTm2Uart1(x) => { rt_MsgoutUbxTimTm2Uart1(x, t); }
        CfgVal::MsgoutUbxTimTm2Uart2(x) => { rt_MsgoutUbxTimTm2Uart2(x, t); }
        CfgVal::MsgoutUbxTimTm2Usb(x) => { rt_MsgoutUbxTimTm2Usb(x, t); }
        CfgVal::MsgoutUbxTimTpI2c(x) => { rt_MsgoutUbxTimTpI2c(x, t); }
        CfgVal::MsgoutUbxTimTpSpi(x) => { rt_MsgoutUbxTimTpSpi(x, t); }
        CfgVal::MsgoutUbxTimTpUart1(x) => { rt_MsgoutUbxTimTpUart1(x, t); }
        CfgVal::MsgoutUbxTimTpUart2(x) => { rt_MsgoutUbxTimTpUart2(x, t); }
        CfgVal::MsgoutUbxTimTpUsb(x) => { rt_MsgoutUbxTimTpUsb(x, t); }
        CfgVal::MsgoutUbxTimVrfyI2c(x) => { rt_MsgoutUbxTimVrfyI2c(x, t); }
        CfgVal::MsgoutUbxTimVrfySpi(x) => { rt_MsgoutUbxTimVrfySpi(x, t); }
        CfgVal::MsgoutUbxTimVrfyUart1(x) => { rt_MsgoutUbxTimVrfyUart1(x, t); }
        CfgVal::MsgoutUbxTimVrfyUart2(x) => { rt_MsgoutUbxTimVrfyUart2(x, t); }
        CfgVal::MsgoutUbxTimVrfyUsb(x) => { rt_MsgoutUbxTimVrfyUsb(x, t); }
        CfgVal::SignalGpsEna(x) => { rt_SignalGpsEna(x, t); }
        CfgVal::SignalGpsL1caEna(x) => { rt_SignalGpsL1caEna(x, t); }
        CfgVal::SignalGpsL2cEna(x) => { rt_SignalGpsL2cEna(x, t); }
        CfgVal::SignalGalEna(x) => { rt_SignalGalEna(x, t); }
        CfgVal::SignalGalE1Ena(x) => { rt_SignalGalE1Ena(x, t); }
        CfgVal::SignalGalE5bEna(x) => { rt_SignalGalE5bEna(x, t); }
        CfgVal::SignalBdsEna(x) => { rt_SignalBdsEna(x, t); }
        CfgVal::SignalBdsB1Ena(x) => { rt_SignalBdsB1Ena(x, t); }
        CfgVal::SignalBdsB2Ena(x) => { rt_SignalBdsB2Ena(x, t); }
        CfgVal::SignalQzssEna(x) => { rt_SignalQzssEna(x, t); }
        CfgVal::SignalQzssL1caEna(x) => { rt_SignalQzssL1caEna(x, t); }
        CfgVal::SignalQzssL2cEna(x) => { rt_SignalQzssL2cEna(x, t); }
        CfgVal::SignalGloEna(x) => { rt_SignalGloEna(x, t); }
        CfgVal::SignalGloL1Ena(x) => { rt_SignalGloL1Ena(x, t); }
        CfgVal::SignalGLoL2Ena(x) => { rt_SignalGLoL2Ena(x, t); }
        CfgVal::TpPulseDef(x) => { rt_TpPulseDef(x, t); }
        CfgVal::TpPulseLengthDef(x) => { rt_TpPulseLengthDef(x, t); }
        CfgVal::TpAntCableDelay(x) => { rt_TpAntCableDelay(x, t); }
        CfgVal::TpPeriodTp1(x) => { rt_TpPeriodTp1(x, t); }
        CfgVal::TpPeriodLockTp1(x) => { rt_TpPeriodLockTp1(x, t); }
        CfgVal::TpFreqTp1(x) => { rt_TpFreqTp1(x, t); }
        CfgVal::TpFreqLockTp1(x) => { rt_TpFreqLockTp1(x, t); }
        CfgVal::TpLenTp1(x) => { rt_TpLenTp1(x, t); }
        CfgVal::TpLenLockTp1(x) => { rt_TpLenLockTp1(x, t); }
        CfgVal::TpTp1Ena(x) => { rt_TpTp1Ena(x, t); }
        CfgVal::TpSyncGnssTp1(x) => { rt_TpSyncGnssTp1(x, t); }
        CfgVal::TpUseLockedTp1(x) => { rt_TpUseLockedTp1(x, t); }
        CfgVal::TpAlignToTowTp1(x) => { rt_TpAlignToTowTp1(x, t); }
        CfgVal::TpPolTp1(x) => { rt_TpPolTp1(x, t); }
        CfgVal::TpTimegridTp1(x) => { rt_TpTimegridTp1(x, t); }
    }
}
%source exp
%take enum DataBits
%derive enum DataBits :: #[derive(Clone, Copy)] #[repr(u8)]
%take enum Parity
%derive enum Parity :: #[derive(Clone, Copy)] #[repr(u8)]
%take enum StopBits
%derive enum StopBits :: #[derive(Clone, Copy)] #[repr(u8)]
%take enum AlignmentToReferenceTime
%derive enum AlignmentToReferenceTime :: #[derive(Clone, Copy)] #[repr(u8)]
%take enum TpPulse
%derive enum TpPulse :: #[derive(Clone, Copy)] #[repr(u8)]
%take enum TpPulseLength
%derive enum TpPulseLength :: #[derive(Clone, Copy)] #[repr(u8)]
%loop CfgVal::extend_to 0 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 0
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1Baudrate | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1Baudrate(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1Baudrate | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1Baudrate(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1079115777 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1079115777, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1Baudrate
%take impl Uart1Baudrate
%derive struct Uart1Baudrate :: #[derive(Clone, Copy)]
%constfn Uart1Baudrate::KEY
        ensures r.0 == 0x40520001,
%constfn Uart1Baudrate::SIZE
        ensures r == 8,
%fn Uart1Baudrate::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40520001, (self.0 as int)),
%start Uart1Baudrate::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst Uart1Baudrate::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 1 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 1
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1StopBits | self, value, buf
<T: Sink>(this: &Self, value: &StopBits, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1StopBits(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1StopBits | self, value, buf
(this: &Self, value: &StopBits, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1StopBits(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542244866 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542244866, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1StopBits
%take impl Uart1StopBits
%derive struct Uart1StopBits :: #[derive(Clone, Copy)]
%constfn Uart1StopBits::KEY
        ensures r.0 == 0x20520002,
%constfn Uart1StopBits::SIZE
        ensures r == 5,
%fn Uart1StopBits::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20520002, StopBits_item(self.0)),
%start Uart1StopBits::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1StopBits::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 2 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 2
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1DataBits | self, value, buf
<T: Sink>(this: &Self, value: &DataBits, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1DataBits(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1DataBits | self, value, buf
(this: &Self, value: &DataBits, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1DataBits(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542244867 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542244867, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1DataBits
%take impl Uart1DataBits
%derive struct Uart1DataBits :: #[derive(Clone, Copy)]
%constfn Uart1DataBits::KEY
        ensures r.0 == 0x20520003,
%constfn Uart1DataBits::SIZE
        ensures r == 5,
%fn Uart1DataBits::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20520003, DataBits_item(self.0)),
%start Uart1DataBits::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1DataBits::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 3 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 3
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1Parity | self, value, buf
<T: Sink>(this: &Self, value: &Parity, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1Parity(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1Parity | self, value, buf
(this: &Self, value: &Parity, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1Parity(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542244868 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542244868, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1Parity
%take impl Uart1Parity
%derive struct Uart1Parity :: #[derive(Clone, Copy)]
%constfn Uart1Parity::KEY
        ensures r.0 == 0x20520004,
%constfn Uart1Parity::SIZE
        ensures r == 5,
%fn Uart1Parity::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20520004, Parity_item(self.0)),
%start Uart1Parity::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1Parity::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 4 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 4
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1Enabled | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1Enabled(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1Enabled | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1Enabled(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 273809413 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 273809413, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1Enabled
%take impl Uart1Enabled
%derive struct Uart1Enabled :: #[derive(Clone, Copy)]
%constfn Uart1Enabled::KEY
        ensures r.0 == 0x10520005,
%constfn Uart1Enabled::SIZE
        ensures r == 5,
%fn Uart1Enabled::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10520005, b2i(self.0)),
%start Uart1Enabled::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1Enabled::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 5 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 5
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1InProtUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1InProtUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1InProtUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1InProtUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 275972097 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 275972097, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1InProtUbx
%take impl Uart1InProtUbx
%derive struct Uart1InProtUbx :: #[derive(Clone, Copy)]
%constfn Uart1InProtUbx::KEY
        ensures r.0 == 0x10730001,
%constfn Uart1InProtUbx::SIZE
        ensures r == 5,
%fn Uart1InProtUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10730001, b2i(self.0)),
%start Uart1InProtUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1InProtUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 6 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 6
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1InProtNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1InProtNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1InProtNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1InProtNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 275972098 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 275972098, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1InProtNmea
%take impl Uart1InProtNmea
%derive struct Uart1InProtNmea :: #[derive(Clone, Copy)]
%constfn Uart1InProtNmea::KEY
        ensures r.0 == 0x10730002,
%constfn Uart1InProtNmea::SIZE
        ensures r == 5,
%fn Uart1InProtNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10730002, b2i(self.0)),
%start Uart1InProtNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1InProtNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 7 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 7
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1InProtRtcm3x | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1InProtRtcm3x(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1InProtRtcm3x | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1InProtRtcm3x(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 275972100 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 275972100, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1InProtRtcm3x
%take impl Uart1InProtRtcm3x
%derive struct Uart1InProtRtcm3x :: #[derive(Clone, Copy)]
%constfn Uart1InProtRtcm3x::KEY
        ensures r.0 == 0x10730004,
%constfn Uart1InProtRtcm3x::SIZE
        ensures r == 5,
%fn Uart1InProtRtcm3x::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10730004, b2i(self.0)),
%start Uart1InProtRtcm3x::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1InProtRtcm3x::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 8 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 8
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1OutProtUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1OutProtUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276037633 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276037633, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1OutProtUbx
%take impl Uart1OutProtUbx
%derive struct Uart1OutProtUbx :: #[derive(Clone, Copy)]
%constfn Uart1OutProtUbx::KEY
        ensures r.0 == 0x10740001,
%constfn Uart1OutProtUbx::SIZE
        ensures r == 5,
%fn Uart1OutProtUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10740001, b2i(self.0)),
%start Uart1OutProtUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1OutProtUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 9 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 9
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1OutProtNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1OutProtNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276037634 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276037634, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1OutProtNmea
%take impl Uart1OutProtNmea
%derive struct Uart1OutProtNmea :: #[derive(Clone, Copy)]
%constfn Uart1OutProtNmea::KEY
        ensures r.0 == 0x10740002,
%constfn Uart1OutProtNmea::SIZE
        ensures r == 5,
%fn Uart1OutProtNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10740002, b2i(self.0)),
%start Uart1OutProtNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1OutProtNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 10 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 10
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart1OutProtRtcm3x | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtRtcm3x(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart1OutProtRtcm3x | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart1OutProtRtcm3x(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276037636 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276037636, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart1OutProtRtcm3x
%take impl Uart1OutProtRtcm3x
%derive struct Uart1OutProtRtcm3x :: #[derive(Clone, Copy)]
%constfn Uart1OutProtRtcm3x::KEY
        ensures r.0 == 0x10740004,
%constfn Uart1OutProtRtcm3x::SIZE
        ensures r == 5,
%fn Uart1OutProtRtcm3x::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10740004, b2i(self.0)),
%start Uart1OutProtRtcm3x::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart1OutProtRtcm3x::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 11 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 11
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2Baudrate | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2Baudrate(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2Baudrate | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2Baudrate(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1079181313 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1079181313, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2Baudrate
%take impl Uart2Baudrate
%derive struct Uart2Baudrate :: #[derive(Clone, Copy)]
%constfn Uart2Baudrate::KEY
        ensures r.0 == 0x40530001,
%constfn Uart2Baudrate::SIZE
        ensures r == 8,
%fn Uart2Baudrate::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40530001, (self.0 as int)),
%start Uart2Baudrate::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst Uart2Baudrate::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 12 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 12
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2StopBits | self, value, buf
<T: Sink>(this: &Self, value: &StopBits, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2StopBits(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2StopBits | self, value, buf
(this: &Self, value: &StopBits, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2StopBits(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542310402 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542310402, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2StopBits
%take impl Uart2StopBits
%derive struct Uart2StopBits :: #[derive(Clone, Copy)]
%constfn Uart2StopBits::KEY
        ensures r.0 == 0x20530002,
%constfn Uart2StopBits::SIZE
        ensures r == 5,
%fn Uart2StopBits::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20530002, StopBits_item(self.0)),
%start Uart2StopBits::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2StopBits::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 13 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 13
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2DataBits | self, value, buf
<T: Sink>(this: &Self, value: &DataBits, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2DataBits(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2DataBits | self, value, buf
(this: &Self, value: &DataBits, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2DataBits(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542310403 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542310403, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2DataBits
%take impl Uart2DataBits
%derive struct Uart2DataBits :: #[derive(Clone, Copy)]
%constfn Uart2DataBits::KEY
        ensures r.0 == 0x20530003,
%constfn Uart2DataBits::SIZE
        ensures r == 5,
%fn Uart2DataBits::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20530003, DataBits_item(self.0)),
%start Uart2DataBits::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2DataBits::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 14 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 14
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2Parity | self, value, buf
<T: Sink>(this: &Self, value: &Parity, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2Parity(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2Parity | self, value, buf
(this: &Self, value: &Parity, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2Parity(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 542310404 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 542310404, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2Parity
%take impl Uart2Parity
%derive struct Uart2Parity :: #[derive(Clone, Copy)]
%constfn Uart2Parity::KEY
        ensures r.0 == 0x20530004,
%constfn Uart2Parity::SIZE
        ensures r == 5,
%fn Uart2Parity::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20530004, Parity_item(self.0)),
%start Uart2Parity::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2Parity::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 15 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 15
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2Enabled | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2Enabled(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2Enabled | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2Enabled(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 273874949 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 273874949, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2Enabled
%take impl Uart2Enabled
%derive struct Uart2Enabled :: #[derive(Clone, Copy)]
%constfn Uart2Enabled::KEY
        ensures r.0 == 0x10530005,
%constfn Uart2Enabled::SIZE
        ensures r == 5,
%fn Uart2Enabled::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10530005, b2i(self.0)),
%start Uart2Enabled::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2Enabled::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 16 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 16
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2Remap | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2Remap(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2Remap | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2Remap(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 273874950 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 273874950, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2Remap
%take impl Uart2Remap
%derive struct Uart2Remap :: #[derive(Clone, Copy)]
%constfn Uart2Remap::KEY
        ensures r.0 == 0x10530006,
%constfn Uart2Remap::SIZE
        ensures r == 5,
%fn Uart2Remap::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10530006, b2i(self.0)),
%start Uart2Remap::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2Remap::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 17 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 17
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2InProtUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2InProtUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2InProtUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2InProtUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276103169 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276103169, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2InProtUbx
%take impl Uart2InProtUbx
%derive struct Uart2InProtUbx :: #[derive(Clone, Copy)]
%constfn Uart2InProtUbx::KEY
        ensures r.0 == 0x10750001,
%constfn Uart2InProtUbx::SIZE
        ensures r == 5,
%fn Uart2InProtUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10750001, b2i(self.0)),
%start Uart2InProtUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2InProtUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 18 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 18
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2InProtNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2InProtNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2InProtNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2InProtNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276103170 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276103170, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2InProtNmea
%take impl Uart2InProtNmea
%derive struct Uart2InProtNmea :: #[derive(Clone, Copy)]
%constfn Uart2InProtNmea::KEY
        ensures r.0 == 0x10750002,
%constfn Uart2InProtNmea::SIZE
        ensures r == 5,
%fn Uart2InProtNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10750002, b2i(self.0)),
%start Uart2InProtNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2InProtNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 19 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 19
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2InProtRtcm3x | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2InProtRtcm3x(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2InProtRtcm3x | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2InProtRtcm3x(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276103172 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276103172, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2InProtRtcm3x
%take impl Uart2InProtRtcm3x
%derive struct Uart2InProtRtcm3x :: #[derive(Clone, Copy)]
%constfn Uart2InProtRtcm3x::KEY
        ensures r.0 == 0x10750004,
%constfn Uart2InProtRtcm3x::SIZE
        ensures r == 5,
%fn Uart2InProtRtcm3x::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10750004, b2i(self.0)),
%start Uart2InProtRtcm3x::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2InProtRtcm3x::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 20 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 20
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2OutProtUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2OutProtUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276168705 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276168705, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2OutProtUbx
%take impl Uart2OutProtUbx
%derive struct Uart2OutProtUbx :: #[derive(Clone, Copy)]
%constfn Uart2OutProtUbx::KEY
        ensures r.0 == 0x10760001,
%constfn Uart2OutProtUbx::SIZE
        ensures r == 5,
%fn Uart2OutProtUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10760001, b2i(self.0)),
%start Uart2OutProtUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2OutProtUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 21 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 21
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2OutProtNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2OutProtNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276168706 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276168706, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2OutProtNmea
%take impl Uart2OutProtNmea
%derive struct Uart2OutProtNmea :: #[derive(Clone, Copy)]
%constfn Uart2OutProtNmea::KEY
        ensures r.0 == 0x10760002,
%constfn Uart2OutProtNmea::SIZE
        ensures r == 5,
%fn Uart2OutProtNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10760002, b2i(self.0)),
%start Uart2OutProtNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2OutProtNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 22 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 22
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to Uart2OutProtRtcm3x | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtRtcm3x(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to Uart2OutProtRtcm3x | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::Uart2OutProtRtcm3x(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276168708 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276168708, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct Uart2OutProtRtcm3x
%take impl Uart2OutProtRtcm3x
%derive struct Uart2OutProtRtcm3x :: #[derive(Clone, Copy)]
%constfn Uart2OutProtRtcm3x::KEY
        ensures r.0 == 0x10760004,
%constfn Uart2OutProtRtcm3x::SIZE
        ensures r == 5,
%fn Uart2OutProtRtcm3x::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10760004, b2i(self.0)),
%start Uart2OutProtRtcm3x::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst Uart2OutProtRtcm3x::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 23 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 23
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbEnabled | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbEnabled(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbEnabled | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbEnabled(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 275054593 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 275054593, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbEnabled
%take impl UsbEnabled
%derive struct UsbEnabled :: #[derive(Clone, Copy)]
%constfn UsbEnabled::KEY
        ensures r.0 == 0x10650001,
%constfn UsbEnabled::SIZE
        ensures r == 5,
%fn UsbEnabled::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10650001, b2i(self.0)),
%start UsbEnabled::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbEnabled::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 24 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 24
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbSelfpow | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbSelfpow(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbSelfpow | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbSelfpow(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 275054594 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 275054594, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbSelfpow
%take impl UsbSelfpow
%derive struct UsbSelfpow :: #[derive(Clone, Copy)]
%constfn UsbSelfpow::KEY
        ensures r.0 == 0x10650002,
%constfn UsbSelfpow::SIZE
        ensures r == 5,
%fn UsbSelfpow::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10650002, b2i(self.0)),
%start UsbSelfpow::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbSelfpow::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 25 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 25
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbVendorId | self, value, buf
<T: Sink>(this: &Self, value: &u16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbVendorId(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbVendorId | self, value, buf
(this: &Self, value: &u16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbVendorId(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 811925514 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 811925514, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbVendorId
%take impl UsbVendorId
%derive struct UsbVendorId :: #[derive(Clone, Copy)]
%constfn UsbVendorId::KEY
        ensures r.0 == 0x3065000a,
%constfn UsbVendorId::SIZE
        ensures r == 6,
%fn UsbVendorId::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x3065000a, (self.0 as int)),
%start UsbVendorId::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst UsbVendorId::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 26 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 26
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbProductId | self, value, buf
<T: Sink>(this: &Self, value: &u16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbProductId(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbProductId | self, value, buf
(this: &Self, value: &u16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbProductId(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 811925515 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 811925515, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbProductId
%take impl UsbProductId
%derive struct UsbProductId :: #[derive(Clone, Copy)]
%constfn UsbProductId::KEY
        ensures r.0 == 0x3065000b,
%constfn UsbProductId::SIZE
        ensures r == 6,
%fn UsbProductId::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x3065000b, (self.0 as int)),
%start UsbProductId::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst UsbProductId::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 27 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 27
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbPower | self, value, buf
<T: Sink>(this: &Self, value: &u16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbPower(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbPower | self, value, buf
(this: &Self, value: &u16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbPower(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 811925516 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 811925516, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbPower
%take impl UsbPower
%derive struct UsbPower :: #[derive(Clone, Copy)]
%constfn UsbPower::KEY
        ensures r.0 == 0x3065000c,
%constfn UsbPower::SIZE
        ensures r == 6,
%fn UsbPower::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x3065000c, (self.0 as int)),
%start UsbPower::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst UsbPower::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 28 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 28
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbVendorStr0 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr0(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbVendorStr0 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr0(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796429 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796429, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbVendorStr0
%take impl UsbVendorStr0
%derive struct UsbVendorStr0 :: #[derive(Clone, Copy)]
%constfn UsbVendorStr0::KEY
        ensures r.0 == 0x5065000d,
%constfn UsbVendorStr0::SIZE
        ensures r == 12,
%fn UsbVendorStr0::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x5065000d, (self.0 as int)),
%start UsbVendorStr0::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbVendorStr0::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 29 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 29
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbVendorStr1 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbVendorStr1 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796430 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796430, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbVendorStr1
%take impl UsbVendorStr1
%derive struct UsbVendorStr1 :: #[derive(Clone, Copy)]
%constfn UsbVendorStr1::KEY
        ensures r.0 == 0x5065000e,
%constfn UsbVendorStr1::SIZE
        ensures r == 12,
%fn UsbVendorStr1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x5065000e, (self.0 as int)),
%start UsbVendorStr1::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbVendorStr1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 30 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 30
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbVendorStr2 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbVendorStr2 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796431 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796431, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbVendorStr2
%take impl UsbVendorStr2
%derive struct UsbVendorStr2 :: #[derive(Clone, Copy)]
%constfn UsbVendorStr2::KEY
        ensures r.0 == 0x5065000f,
%constfn UsbVendorStr2::SIZE
        ensures r == 12,
%fn UsbVendorStr2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x5065000f, (self.0 as int)),
%start UsbVendorStr2::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbVendorStr2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 31 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 31
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbVendorStr3 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr3(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbVendorStr3 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbVendorStr3(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796432 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796432, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbVendorStr3
%take impl UsbVendorStr3
%derive struct UsbVendorStr3 :: #[derive(Clone, Copy)]
%constfn UsbVendorStr3::KEY
        ensures r.0 == 0x50650010,
%constfn UsbVendorStr3::SIZE
        ensures r == 12,
%fn UsbVendorStr3::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650010, (self.0 as int)),
%start UsbVendorStr3::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbVendorStr3::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 32 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 32
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbProductStr0 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbProductStr0(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbProductStr0 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbProductStr0(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796433 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796433, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbProductStr0
%take impl UsbProductStr0
%derive struct UsbProductStr0 :: #[derive(Clone, Copy)]
%constfn UsbProductStr0::KEY
        ensures r.0 == 0x50650011,
%constfn UsbProductStr0::SIZE
        ensures r == 12,
%fn UsbProductStr0::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650011, (self.0 as int)),
%start UsbProductStr0::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbProductStr0::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 33 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 33
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbProductStr1 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbProductStr1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbProductStr1 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbProductStr1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796434 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796434, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbProductStr1
%take impl UsbProductStr1
%derive struct UsbProductStr1 :: #[derive(Clone, Copy)]
%constfn UsbProductStr1::KEY
        ensures r.0 == 0x50650012,
%constfn UsbProductStr1::SIZE
        ensures r == 12,
%fn UsbProductStr1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650012, (self.0 as int)),
%start UsbProductStr1::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbProductStr1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 34 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 34
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbProductStr2 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbProductStr2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbProductStr2 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbProductStr2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796435 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796435, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbProductStr2
%take impl UsbProductStr2
%derive struct UsbProductStr2 :: #[derive(Clone, Copy)]
%constfn UsbProductStr2::KEY
        ensures r.0 == 0x50650013,
%constfn UsbProductStr2::SIZE
        ensures r == 12,
%fn UsbProductStr2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650013, (self.0 as int)),
%start UsbProductStr2::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbProductStr2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 35 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 35
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbProductStr3 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbProductStr3(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbProductStr3 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbProductStr3(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796436 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796436, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbProductStr3
%take impl UsbProductStr3
%derive struct UsbProductStr3 :: #[derive(Clone, Copy)]
%constfn UsbProductStr3::KEY
        ensures r.0 == 0x50650014,
%constfn UsbProductStr3::SIZE
        ensures r == 12,
%fn UsbProductStr3::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650014, (self.0 as int)),
%start UsbProductStr3::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbProductStr3::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 36 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 36
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbSerialNoStr0 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr0(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbSerialNoStr0 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr0(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796437 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796437, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbSerialNoStr0
%take impl UsbSerialNoStr0
%derive struct UsbSerialNoStr0 :: #[derive(Clone, Copy)]
%constfn UsbSerialNoStr0::KEY
        ensures r.0 == 0x50650015,
%constfn UsbSerialNoStr0::SIZE
        ensures r == 12,
%fn UsbSerialNoStr0::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650015, (self.0 as int)),
%start UsbSerialNoStr0::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbSerialNoStr0::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 37 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 37
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbSerialNoStr1 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbSerialNoStr1 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796438 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796438, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbSerialNoStr1
%take impl UsbSerialNoStr1
%derive struct UsbSerialNoStr1 :: #[derive(Clone, Copy)]
%constfn UsbSerialNoStr1::KEY
        ensures r.0 == 0x50650016,
%constfn UsbSerialNoStr1::SIZE
        ensures r == 12,
%fn UsbSerialNoStr1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650016, (self.0 as int)),
%start UsbSerialNoStr1::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbSerialNoStr1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 38 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 38
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbSerialNoStr2 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbSerialNoStr2 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796439 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796439, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbSerialNoStr2
%take impl UsbSerialNoStr2
%derive struct UsbSerialNoStr2 :: #[derive(Clone, Copy)]
%constfn UsbSerialNoStr2::KEY
        ensures r.0 == 0x50650017,
%constfn UsbSerialNoStr2::SIZE
        ensures r == 12,
%fn UsbSerialNoStr2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650017, (self.0 as int)),
%start UsbSerialNoStr2::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbSerialNoStr2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 39 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 39
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbSerialNoStr3 | self, value, buf
<T: Sink>(this: &Self, value: &u64, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr3(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbSerialNoStr3 | self, value, buf
(this: &Self, value: &u64, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbSerialNoStr3(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1348796440 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1348796440, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbSerialNoStr3
%take impl UsbSerialNoStr3
%derive struct UsbSerialNoStr3 :: #[derive(Clone, Copy)]
%constfn UsbSerialNoStr3::KEY
        ensures r.0 == 0x50650018,
%constfn UsbSerialNoStr3::SIZE
        ensures r == 12,
%fn UsbSerialNoStr3::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv8(0x50650018, (self.0 as int)),
%start UsbSerialNoStr3::into_cfg_kv_bytes
        proof { reveal(kv8); }
%subst UsbSerialNoStr3::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 12]
%loop CfgVal::extend_to 40 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 40
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbinprotUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbinprotUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbinprotUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbinprotUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276234241 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276234241, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbinprotUbx
%take impl UsbinprotUbx
%derive struct UsbinprotUbx :: #[derive(Clone, Copy)]
%constfn UsbinprotUbx::KEY
        ensures r.0 == 0x10770001,
%constfn UsbinprotUbx::SIZE
        ensures r == 5,
%fn UsbinprotUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10770001, b2i(self.0)),
%start UsbinprotUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbinprotUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 41 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 41
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbinprotNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbinprotNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbinprotNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbinprotNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276234242 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276234242, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbinprotNmea
%take impl UsbinprotNmea
%derive struct UsbinprotNmea :: #[derive(Clone, Copy)]
%constfn UsbinprotNmea::KEY
        ensures r.0 == 0x10770002,
%constfn UsbinprotNmea::SIZE
        ensures r == 5,
%fn UsbinprotNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10770002, b2i(self.0)),
%start UsbinprotNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbinprotNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 42 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 42
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbinprotRtcm3X | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbinprotRtcm3X(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbinprotRtcm3X | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbinprotRtcm3X(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276234244 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276234244, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbinprotRtcm3X
%take impl UsbinprotRtcm3X
%derive struct UsbinprotRtcm3X :: #[derive(Clone, Copy)]
%constfn UsbinprotRtcm3X::KEY
        ensures r.0 == 0x10770004,
%constfn UsbinprotRtcm3X::SIZE
        ensures r == 5,
%fn UsbinprotRtcm3X::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10770004, b2i(self.0)),
%start UsbinprotRtcm3X::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbinprotRtcm3X::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 43 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 43
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbOutProtUbx | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbOutProtUbx(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbOutProtUbx | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbOutProtUbx(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276299777 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276299777, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbOutProtUbx
%take impl UsbOutProtUbx
%derive struct UsbOutProtUbx :: #[derive(Clone, Copy)]
%constfn UsbOutProtUbx::KEY
        ensures r.0 == 0x10780001,
%constfn UsbOutProtUbx::SIZE
        ensures r == 5,
%fn UsbOutProtUbx::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10780001, b2i(self.0)),
%start UsbOutProtUbx::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbOutProtUbx::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 44 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 44
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbOutProtNmea | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbOutProtNmea(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbOutProtNmea | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbOutProtNmea(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276299778 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276299778, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbOutProtNmea
%take impl UsbOutProtNmea
%derive struct UsbOutProtNmea :: #[derive(Clone, Copy)]
%constfn UsbOutProtNmea::KEY
        ensures r.0 == 0x10780002,
%constfn UsbOutProtNmea::SIZE
        ensures r == 5,
%fn UsbOutProtNmea::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10780002, b2i(self.0)),
%start UsbOutProtNmea::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbOutProtNmea::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 45 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 45
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to UsbOutProtRtcm3x | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::UsbOutProtRtcm3x(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to UsbOutProtRtcm3x | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::UsbOutProtRtcm3x(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 276299780 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 276299780, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct UsbOutProtRtcm3x
%take impl UsbOutProtRtcm3x
%derive struct UsbOutProtRtcm3x :: #[derive(Clone, Copy)]
%constfn UsbOutProtRtcm3x::KEY
        ensures r.0 == 0x10780004,
%constfn UsbOutProtRtcm3x::SIZE
        ensures r == 5,
%fn UsbOutProtRtcm3x::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10780004, b2i(self.0)),
%start UsbOutProtRtcm3x::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst UsbOutProtRtcm3x::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 46 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 46
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgUbxI2c | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgUbxI2c | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439169 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439169, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgUbxI2c
%take impl InfmsgUbxI2c
%derive struct InfmsgUbxI2c :: #[derive(Clone, Copy)]
%constfn InfmsgUbxI2c::KEY
        ensures r.0 == 0x20920001,
%constfn InfmsgUbxI2c::SIZE
        ensures r == 5,
%fn InfmsgUbxI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920001, (self.0.b as int)),
%start InfmsgUbxI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgUbxI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 47 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 47
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgUbxUart1 | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgUbxUart1 | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439170 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439170, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgUbxUart1
%take impl InfmsgUbxUart1
%derive struct InfmsgUbxUart1 :: #[derive(Clone, Copy)]
%constfn InfmsgUbxUart1::KEY
        ensures r.0 == 0x20920002,
%constfn InfmsgUbxUart1::SIZE
        ensures r == 5,
%fn InfmsgUbxUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920002, (self.0.b as int)),
%start InfmsgUbxUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgUbxUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 48 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 48
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgUbxUart2 | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgUbxUart2 | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439171 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439171, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgUbxUart2
%take impl InfmsgUbxUart2
%derive struct InfmsgUbxUart2 :: #[derive(Clone, Copy)]
%constfn InfmsgUbxUart2::KEY
        ensures r.0 == 0x20920003,
%constfn InfmsgUbxUart2::SIZE
        ensures r == 5,
%fn InfmsgUbxUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920003, (self.0.b as int)),
%start InfmsgUbxUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgUbxUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 49 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 49
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgUbxUsb | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgUbxUsb | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439172 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439172, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgUbxUsb
%take impl InfmsgUbxUsb
%derive struct InfmsgUbxUsb :: #[derive(Clone, Copy)]
%constfn InfmsgUbxUsb::KEY
        ensures r.0 == 0x20920004,
%constfn InfmsgUbxUsb::SIZE
        ensures r == 5,
%fn InfmsgUbxUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920004, (self.0.b as int)),
%start InfmsgUbxUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgUbxUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 50 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 50
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgUbxSpi | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgUbxSpi | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgUbxSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439173 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439173, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgUbxSpi
%take impl InfmsgUbxSpi
%derive struct InfmsgUbxSpi :: #[derive(Clone, Copy)]
%constfn InfmsgUbxSpi::KEY
        ensures r.0 == 0x20920005,
%constfn InfmsgUbxSpi::SIZE
        ensures r == 5,
%fn InfmsgUbxSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920005, (self.0.b as int)),
%start InfmsgUbxSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgUbxSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 51 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 51
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgNmeaI2c | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgNmeaI2c | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439174 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439174, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgNmeaI2c
%take impl InfmsgNmeaI2c
%derive struct InfmsgNmeaI2c :: #[derive(Clone, Copy)]
%constfn InfmsgNmeaI2c::KEY
        ensures r.0 == 0x20920006,
%constfn InfmsgNmeaI2c::SIZE
        ensures r == 5,
%fn InfmsgNmeaI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920006, (self.0.b as int)),
%start InfmsgNmeaI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgNmeaI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 52 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 52
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgNmeaUart1 | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgNmeaUart1 | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439175 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439175, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgNmeaUart1
%take impl InfmsgNmeaUart1
%derive struct InfmsgNmeaUart1 :: #[derive(Clone, Copy)]
%constfn InfmsgNmeaUart1::KEY
        ensures r.0 == 0x20920007,
%constfn InfmsgNmeaUart1::SIZE
        ensures r == 5,
%fn InfmsgNmeaUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920007, (self.0.b as int)),
%start InfmsgNmeaUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgNmeaUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 53 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 53
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgNmeaUart2 | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgNmeaUart2 | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439176 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439176, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgNmeaUart2
%take impl InfmsgNmeaUart2
%derive struct InfmsgNmeaUart2 :: #[derive(Clone, Copy)]
%constfn InfmsgNmeaUart2::KEY
        ensures r.0 == 0x20920008,
%constfn InfmsgNmeaUart2::SIZE
        ensures r == 5,
%fn InfmsgNmeaUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920008, (self.0.b as int)),
%start InfmsgNmeaUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgNmeaUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 54 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 54
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgNmeaUsb | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgNmeaUsb | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439177 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439177, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgNmeaUsb
%take impl InfmsgNmeaUsb
%derive struct InfmsgNmeaUsb :: #[derive(Clone, Copy)]
%constfn InfmsgNmeaUsb::KEY
        ensures r.0 == 0x20920009,
%constfn InfmsgNmeaUsb::SIZE
        ensures r == 5,
%fn InfmsgNmeaUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20920009, (self.0.b as int)),
%start InfmsgNmeaUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgNmeaUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 55 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 55
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to InfmsgNmeaSpi | self, value, buf
<T: Sink>(this: &Self, value: &CfgInfMask, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to InfmsgNmeaSpi | self, value, buf
(this: &Self, value: &CfgInfMask, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::InfmsgNmeaSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546439178 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546439178, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct InfmsgNmeaSpi
%take impl InfmsgNmeaSpi
%derive struct InfmsgNmeaSpi :: #[derive(Clone, Copy)]
%constfn InfmsgNmeaSpi::KEY
        ensures r.0 == 0x2092000a,
%constfn InfmsgNmeaSpi::SIZE
        ensures r == 5,
%fn InfmsgNmeaSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2092000a, (self.0.b as int)),
%start InfmsgNmeaSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst InfmsgNmeaSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 56 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 56
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to RateMeas | self, value, buf
<T: Sink>(this: &Self, value: &u16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::RateMeas(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to RateMeas | self, value, buf
(this: &Self, value: &u16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::RateMeas(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 807469057 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 807469057, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct RateMeas
%take impl RateMeas
%derive struct RateMeas :: #[derive(Clone, Copy)]
%constfn RateMeas::KEY
        ensures r.0 == 0x30210001,
%constfn RateMeas::SIZE
        ensures r == 6,
%fn RateMeas::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x30210001, (self.0 as int)),
%start RateMeas::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst RateMeas::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 57 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 57
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to RateNav | self, value, buf
<T: Sink>(this: &Self, value: &u16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::RateNav(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to RateNav | self, value, buf
(this: &Self, value: &u16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::RateNav(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 807469058 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 807469058, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct RateNav
%take impl RateNav
%derive struct RateNav :: #[derive(Clone, Copy)]
%constfn RateNav::KEY
        ensures r.0 == 0x30210002,
%constfn RateNav::SIZE
        ensures r == 6,
%fn RateNav::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x30210002, (self.0 as int)),
%start RateNav::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst RateNav::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 58 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 58
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to RateTimeref | self, value, buf
<T: Sink>(this: &Self, value: &AlignmentToReferenceTime, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::RateTimeref(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to RateTimeref | self, value, buf
(this: &Self, value: &AlignmentToReferenceTime, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::RateTimeref(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 539033603 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 539033603, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct RateTimeref
%take impl RateTimeref
%derive struct RateTimeref :: #[derive(Clone, Copy)]
%constfn RateTimeref::KEY
        ensures r.0 == 0x20210003,
%constfn RateTimeref::SIZE
        ensures r == 5,
%fn RateTimeref::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20210003, AlignmentToReferenceTime_item(self.0)),
%start RateTimeref::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst RateTimeref::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 59 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 59
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdDtmI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdDtmI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373798 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373798, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdDtmI2c
%take impl MsgoutNmeaIdDtmI2c
%derive struct MsgoutNmeaIdDtmI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdDtmI2c::KEY
        ensures r.0 == 0x209100a6,
%constfn MsgoutNmeaIdDtmI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdDtmI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a6, (self.0 as int)),
%start MsgoutNmeaIdDtmI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdDtmI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 60 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 60
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdDtmSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdDtmSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373802 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373802, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdDtmSpi
%take impl MsgoutNmeaIdDtmSpi
%derive struct MsgoutNmeaIdDtmSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdDtmSpi::KEY
        ensures r.0 == 0x209100aa,
%constfn MsgoutNmeaIdDtmSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdDtmSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100aa, (self.0 as int)),
%start MsgoutNmeaIdDtmSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdDtmSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 61 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 61
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdDtmUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdDtmUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373799 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373799, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdDtmUart1
%take impl MsgoutNmeaIdDtmUart1
%derive struct MsgoutNmeaIdDtmUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdDtmUart1::KEY
        ensures r.0 == 0x209100a7,
%constfn MsgoutNmeaIdDtmUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdDtmUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a7, (self.0 as int)),
%start MsgoutNmeaIdDtmUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdDtmUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 62 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 62
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdDtmUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdDtmUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373800 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373800, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdDtmUart2
%take impl MsgoutNmeaIdDtmUart2
%derive struct MsgoutNmeaIdDtmUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdDtmUart2::KEY
        ensures r.0 == 0x209100a8,
%constfn MsgoutNmeaIdDtmUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdDtmUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a8, (self.0 as int)),
%start MsgoutNmeaIdDtmUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdDtmUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 63 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 63
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdDtmUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdDtmUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdDtmUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373801 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373801, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdDtmUsb
%take impl MsgoutNmeaIdDtmUsb
%derive struct MsgoutNmeaIdDtmUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdDtmUsb::KEY
        ensures r.0 == 0x209100a9,
%constfn MsgoutNmeaIdDtmUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdDtmUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a9, (self.0 as int)),
%start MsgoutNmeaIdDtmUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdDtmUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 64 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 64
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGbsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGbsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373853 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373853, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGbsI2c
%take impl MsgoutNmeaIdGbsI2c
%derive struct MsgoutNmeaIdGbsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGbsI2c::KEY
        ensures r.0 == 0x209100dd,
%constfn MsgoutNmeaIdGbsI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGbsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100dd, (self.0 as int)),
%start MsgoutNmeaIdGbsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGbsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 65 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 65
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGbsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGbsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373857 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373857, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGbsSpi
%take impl MsgoutNmeaIdGbsSpi
%derive struct MsgoutNmeaIdGbsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGbsSpi::KEY
        ensures r.0 == 0x209100e1,
%constfn MsgoutNmeaIdGbsSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGbsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100e1, (self.0 as int)),
%start MsgoutNmeaIdGbsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGbsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 66 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 66
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGbsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGbsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373854 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373854, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGbsUart1
%take impl MsgoutNmeaIdGbsUart1
%derive struct MsgoutNmeaIdGbsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGbsUart1::KEY
        ensures r.0 == 0x209100de,
%constfn MsgoutNmeaIdGbsUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGbsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100de, (self.0 as int)),
%start MsgoutNmeaIdGbsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGbsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 67 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 67
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGbsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGbsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373855 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373855, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGbsUart2
%take impl MsgoutNmeaIdGbsUart2
%derive struct MsgoutNmeaIdGbsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGbsUart2::KEY
        ensures r.0 == 0x209100df,
%constfn MsgoutNmeaIdGbsUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGbsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100df, (self.0 as int)),
%start MsgoutNmeaIdGbsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGbsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 68 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 68
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGbsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGbsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGbsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373856 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373856, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGbsUsb
%take impl MsgoutNmeaIdGbsUsb
%derive struct MsgoutNmeaIdGbsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGbsUsb::KEY
        ensures r.0 == 0x209100e0,
%constfn MsgoutNmeaIdGbsUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGbsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100e0, (self.0 as int)),
%start MsgoutNmeaIdGbsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGbsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 69 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 69
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGgaI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGgaI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373818 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373818, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGgaI2c
%take impl MsgoutNmeaIdGgaI2c
%derive struct MsgoutNmeaIdGgaI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGgaI2c::KEY
        ensures r.0 == 0x209100ba,
%constfn MsgoutNmeaIdGgaI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGgaI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ba, (self.0 as int)),
%start MsgoutNmeaIdGgaI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGgaI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 70 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 70
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGgaSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGgaSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373822 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373822, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGgaSpi
%take impl MsgoutNmeaIdGgaSpi
%derive struct MsgoutNmeaIdGgaSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGgaSpi::KEY
        ensures r.0 == 0x209100be,
%constfn MsgoutNmeaIdGgaSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGgaSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100be, (self.0 as int)),
%start MsgoutNmeaIdGgaSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGgaSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 71 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 71
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGgaUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGgaUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373819 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373819, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGgaUart1
%take impl MsgoutNmeaIdGgaUart1
%derive struct MsgoutNmeaIdGgaUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGgaUart1::KEY
        ensures r.0 == 0x209100bb,
%constfn MsgoutNmeaIdGgaUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGgaUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100bb, (self.0 as int)),
%start MsgoutNmeaIdGgaUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGgaUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 72 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 72
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGgaUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGgaUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373820 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373820, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGgaUart2
%take impl MsgoutNmeaIdGgaUart2
%derive struct MsgoutNmeaIdGgaUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGgaUart2::KEY
        ensures r.0 == 0x209100bc,
%constfn MsgoutNmeaIdGgaUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGgaUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100bc, (self.0 as int)),
%start MsgoutNmeaIdGgaUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGgaUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 73 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 73
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGgaUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGgaUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGgaUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373821 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373821, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGgaUsb
%take impl MsgoutNmeaIdGgaUsb
%derive struct MsgoutNmeaIdGgaUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGgaUsb::KEY
        ensures r.0 == 0x209100bd,
%constfn MsgoutNmeaIdGgaUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGgaUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100bd, (self.0 as int)),
%start MsgoutNmeaIdGgaUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGgaUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 74 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 74
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGllI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGllI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373833 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373833, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGllI2c
%take impl MsgoutNmeaIdGllI2c
%derive struct MsgoutNmeaIdGllI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGllI2c::KEY
        ensures r.0 == 0x209100c9,
%constfn MsgoutNmeaIdGllI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGllI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c9, (self.0 as int)),
%start MsgoutNmeaIdGllI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGllI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 75 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 75
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGllSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGllSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373837 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373837, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGllSpi
%take impl MsgoutNmeaIdGllSpi
%derive struct MsgoutNmeaIdGllSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGllSpi::KEY
        ensures r.0 == 0x209100cd,
%constfn MsgoutNmeaIdGllSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGllSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100cd, (self.0 as int)),
%start MsgoutNmeaIdGllSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGllSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 76 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 76
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGllUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGllUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373834 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373834, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGllUart1
%take impl MsgoutNmeaIdGllUart1
%derive struct MsgoutNmeaIdGllUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGllUart1::KEY
        ensures r.0 == 0x209100ca,
%constfn MsgoutNmeaIdGllUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGllUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ca, (self.0 as int)),
%start MsgoutNmeaIdGllUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGllUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 77 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 77
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGllUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGllUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373835 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373835, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGllUart2
%take impl MsgoutNmeaIdGllUart2
%derive struct MsgoutNmeaIdGllUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGllUart2::KEY
        ensures r.0 == 0x209100cb,
%constfn MsgoutNmeaIdGllUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGllUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100cb, (self.0 as int)),
%start MsgoutNmeaIdGllUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGllUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 78 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 78
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGllUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGllUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGllUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373836 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373836, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGllUsb
%take impl MsgoutNmeaIdGllUsb
%derive struct MsgoutNmeaIdGllUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGllUsb::KEY
        ensures r.0 == 0x209100cc,
%constfn MsgoutNmeaIdGllUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGllUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100cc, (self.0 as int)),
%start MsgoutNmeaIdGllUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGllUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 79 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 79
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGnsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGnsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373813 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373813, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGnsI2c
%take impl MsgoutNmeaIdGnsI2c
%derive struct MsgoutNmeaIdGnsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGnsI2c::KEY
        ensures r.0 == 0x209100b5,
%constfn MsgoutNmeaIdGnsI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGnsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b5, (self.0 as int)),
%start MsgoutNmeaIdGnsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGnsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 80 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 80
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGnsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGnsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373817 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373817, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGnsSpi
%take impl MsgoutNmeaIdGnsSpi
%derive struct MsgoutNmeaIdGnsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGnsSpi::KEY
        ensures r.0 == 0x209100b9,
%constfn MsgoutNmeaIdGnsSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGnsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b9, (self.0 as int)),
%start MsgoutNmeaIdGnsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGnsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 81 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 81
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGnsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGnsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373814 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373814, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGnsUart1
%take impl MsgoutNmeaIdGnsUart1
%derive struct MsgoutNmeaIdGnsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGnsUart1::KEY
        ensures r.0 == 0x209100b6,
%constfn MsgoutNmeaIdGnsUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGnsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b6, (self.0 as int)),
%start MsgoutNmeaIdGnsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGnsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 82 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 82
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGnsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGnsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373815 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373815, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGnsUart2
%take impl MsgoutNmeaIdGnsUart2
%derive struct MsgoutNmeaIdGnsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGnsUart2::KEY
        ensures r.0 == 0x209100b7,
%constfn MsgoutNmeaIdGnsUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGnsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b7, (self.0 as int)),
%start MsgoutNmeaIdGnsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGnsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 83 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 83
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGnsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGnsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGnsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373816 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373816, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGnsUsb
%take impl MsgoutNmeaIdGnsUsb
%derive struct MsgoutNmeaIdGnsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGnsUsb::KEY
        ensures r.0 == 0x209100b8,
%constfn MsgoutNmeaIdGnsUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGnsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b8, (self.0 as int)),
%start MsgoutNmeaIdGnsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGnsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 84 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 84
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGrsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGrsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373838 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373838, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGrsI2c
%take impl MsgoutNmeaIdGrsI2c
%derive struct MsgoutNmeaIdGrsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGrsI2c::KEY
        ensures r.0 == 0x209100ce,
%constfn MsgoutNmeaIdGrsI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGrsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ce, (self.0 as int)),
%start MsgoutNmeaIdGrsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGrsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 85 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 85
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGrsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGrsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373842 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373842, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGrsSpi
%take impl MsgoutNmeaIdGrsSpi
%derive struct MsgoutNmeaIdGrsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGrsSpi::KEY
        ensures r.0 == 0x209100d2,
%constfn MsgoutNmeaIdGrsSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGrsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d2, (self.0 as int)),
%start MsgoutNmeaIdGrsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGrsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 86 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 86
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGrsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGrsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373839 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373839, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGrsUart1
%take impl MsgoutNmeaIdGrsUart1
%derive struct MsgoutNmeaIdGrsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGrsUart1::KEY
        ensures r.0 == 0x209100cf,
%constfn MsgoutNmeaIdGrsUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGrsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100cf, (self.0 as int)),
%start MsgoutNmeaIdGrsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGrsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 87 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 87
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGrsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGrsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373840 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373840, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGrsUart2
%take impl MsgoutNmeaIdGrsUart2
%derive struct MsgoutNmeaIdGrsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGrsUart2::KEY
        ensures r.0 == 0x209100d0,
%constfn MsgoutNmeaIdGrsUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGrsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d0, (self.0 as int)),
%start MsgoutNmeaIdGrsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGrsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 88 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 88
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGrsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGrsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGrsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373841 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373841, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGrsUsb
%take impl MsgoutNmeaIdGrsUsb
%derive struct MsgoutNmeaIdGrsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGrsUsb::KEY
        ensures r.0 == 0x209100d1,
%constfn MsgoutNmeaIdGrsUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGrsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d1, (self.0 as int)),
%start MsgoutNmeaIdGrsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGrsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 89 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 89
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsaI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsaI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373823 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373823, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsaI2c
%take impl MsgoutNmeaIdGsaI2c
%derive struct MsgoutNmeaIdGsaI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsaI2c::KEY
        ensures r.0 == 0x209100bf,
%constfn MsgoutNmeaIdGsaI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsaI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100bf, (self.0 as int)),
%start MsgoutNmeaIdGsaI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsaI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 90 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 90
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsaSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsaSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373827 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373827, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsaSpi
%take impl MsgoutNmeaIdGsaSpi
%derive struct MsgoutNmeaIdGsaSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsaSpi::KEY
        ensures r.0 == 0x209100c3,
%constfn MsgoutNmeaIdGsaSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsaSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c3, (self.0 as int)),
%start MsgoutNmeaIdGsaSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsaSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 91 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 91
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsaUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsaUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373824 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373824, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsaUart1
%take impl MsgoutNmeaIdGsaUart1
%derive struct MsgoutNmeaIdGsaUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsaUart1::KEY
        ensures r.0 == 0x209100c0,
%constfn MsgoutNmeaIdGsaUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsaUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c0, (self.0 as int)),
%start MsgoutNmeaIdGsaUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsaUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 92 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 92
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsaUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsaUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373825 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373825, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsaUart2
%take impl MsgoutNmeaIdGsaUart2
%derive struct MsgoutNmeaIdGsaUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsaUart2::KEY
        ensures r.0 == 0x209100c1,
%constfn MsgoutNmeaIdGsaUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsaUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c1, (self.0 as int)),
%start MsgoutNmeaIdGsaUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsaUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 93 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 93
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsaUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsaUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsaUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373826 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373826, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsaUsb
%take impl MsgoutNmeaIdGsaUsb
%derive struct MsgoutNmeaIdGsaUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsaUsb::KEY
        ensures r.0 == 0x209100c2,
%constfn MsgoutNmeaIdGsaUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsaUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c2, (self.0 as int)),
%start MsgoutNmeaIdGsaUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsaUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 94 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 94
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGstI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGstI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373843 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373843, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGstI2c
%take impl MsgoutNmeaIdGstI2c
%derive struct MsgoutNmeaIdGstI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGstI2c::KEY
        ensures r.0 == 0x209100d3,
%constfn MsgoutNmeaIdGstI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGstI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d3, (self.0 as int)),
%start MsgoutNmeaIdGstI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGstI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 95 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 95
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGstSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGstSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373847 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373847, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGstSpi
%take impl MsgoutNmeaIdGstSpi
%derive struct MsgoutNmeaIdGstSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGstSpi::KEY
        ensures r.0 == 0x209100d7,
%constfn MsgoutNmeaIdGstSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGstSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d7, (self.0 as int)),
%start MsgoutNmeaIdGstSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGstSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 96 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 96
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGstUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGstUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373844 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373844, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGstUart1
%take impl MsgoutNmeaIdGstUart1
%derive struct MsgoutNmeaIdGstUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGstUart1::KEY
        ensures r.0 == 0x209100d4,
%constfn MsgoutNmeaIdGstUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGstUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d4, (self.0 as int)),
%start MsgoutNmeaIdGstUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGstUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 97 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 97
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGstUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGstUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373845 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373845, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGstUart2
%take impl MsgoutNmeaIdGstUart2
%derive struct MsgoutNmeaIdGstUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGstUart2::KEY
        ensures r.0 == 0x209100d5,
%constfn MsgoutNmeaIdGstUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGstUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d5, (self.0 as int)),
%start MsgoutNmeaIdGstUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGstUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 98 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 98
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGstUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGstUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGstUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373846 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373846, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGstUsb
%take impl MsgoutNmeaIdGstUsb
%derive struct MsgoutNmeaIdGstUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGstUsb::KEY
        ensures r.0 == 0x209100d6,
%constfn MsgoutNmeaIdGstUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGstUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d6, (self.0 as int)),
%start MsgoutNmeaIdGstUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGstUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 99 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 99
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsvI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsvI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373828 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373828, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsvI2c
%take impl MsgoutNmeaIdGsvI2c
%derive struct MsgoutNmeaIdGsvI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsvI2c::KEY
        ensures r.0 == 0x209100c4,
%constfn MsgoutNmeaIdGsvI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsvI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c4, (self.0 as int)),
%start MsgoutNmeaIdGsvI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsvI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 100 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 100
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsvSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsvSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373832 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373832, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsvSpi
%take impl MsgoutNmeaIdGsvSpi
%derive struct MsgoutNmeaIdGsvSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsvSpi::KEY
        ensures r.0 == 0x209100c8,
%constfn MsgoutNmeaIdGsvSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsvSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c8, (self.0 as int)),
%start MsgoutNmeaIdGsvSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsvSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 101 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 101
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsvUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsvUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373829 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373829, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsvUart1
%take impl MsgoutNmeaIdGsvUart1
%derive struct MsgoutNmeaIdGsvUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsvUart1::KEY
        ensures r.0 == 0x209100c5,
%constfn MsgoutNmeaIdGsvUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsvUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c5, (self.0 as int)),
%start MsgoutNmeaIdGsvUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsvUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 102 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 102
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsvUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsvUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373830 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373830, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsvUart2
%take impl MsgoutNmeaIdGsvUart2
%derive struct MsgoutNmeaIdGsvUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsvUart2::KEY
        ensures r.0 == 0x209100c6,
%constfn MsgoutNmeaIdGsvUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsvUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c6, (self.0 as int)),
%start MsgoutNmeaIdGsvUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsvUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 103 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 103
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdGsvUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdGsvUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdGsvUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373831 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373831, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdGsvUsb
%take impl MsgoutNmeaIdGsvUsb
%derive struct MsgoutNmeaIdGsvUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdGsvUsb::KEY
        ensures r.0 == 0x209100c7,
%constfn MsgoutNmeaIdGsvUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdGsvUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100c7, (self.0 as int)),
%start MsgoutNmeaIdGsvUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdGsvUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 104 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 104
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdRmcI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdRmcI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373803 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373803, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdRmcI2c
%take impl MsgoutNmeaIdRmcI2c
%derive struct MsgoutNmeaIdRmcI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdRmcI2c::KEY
        ensures r.0 == 0x209100ab,
%constfn MsgoutNmeaIdRmcI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdRmcI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ab, (self.0 as int)),
%start MsgoutNmeaIdRmcI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdRmcI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 105 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 105
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdRmcSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdRmcSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373807 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373807, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdRmcSpi
%take impl MsgoutNmeaIdRmcSpi
%derive struct MsgoutNmeaIdRmcSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdRmcSpi::KEY
        ensures r.0 == 0x209100af,
%constfn MsgoutNmeaIdRmcSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdRmcSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100af, (self.0 as int)),
%start MsgoutNmeaIdRmcSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdRmcSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 106 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 106
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdRmcUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdRmcUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373804 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373804, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdRmcUart1
%take impl MsgoutNmeaIdRmcUart1
%derive struct MsgoutNmeaIdRmcUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdRmcUart1::KEY
        ensures r.0 == 0x209100ac,
%constfn MsgoutNmeaIdRmcUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdRmcUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ac, (self.0 as int)),
%start MsgoutNmeaIdRmcUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdRmcUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 107 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 107
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdRmcUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdRmcUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373805 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373805, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdRmcUart2
%take impl MsgoutNmeaIdRmcUart2
%derive struct MsgoutNmeaIdRmcUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdRmcUart2::KEY
        ensures r.0 == 0x209100ad,
%constfn MsgoutNmeaIdRmcUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdRmcUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ad, (self.0 as int)),
%start MsgoutNmeaIdRmcUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdRmcUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 108 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 108
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdRmcUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdRmcUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdRmcUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373806 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373806, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdRmcUsb
%take impl MsgoutNmeaIdRmcUsb
%derive struct MsgoutNmeaIdRmcUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdRmcUsb::KEY
        ensures r.0 == 0x209100ae,
%constfn MsgoutNmeaIdRmcUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdRmcUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ae, (self.0 as int)),
%start MsgoutNmeaIdRmcUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdRmcUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 109 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 109
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVlwI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVlwI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373863 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373863, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVlwI2c
%take impl MsgoutNmeaIdVlwI2c
%derive struct MsgoutNmeaIdVlwI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVlwI2c::KEY
        ensures r.0 == 0x209100e7,
%constfn MsgoutNmeaIdVlwI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVlwI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100e7, (self.0 as int)),
%start MsgoutNmeaIdVlwI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVlwI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 110 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 110
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVlwSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVlwSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373867 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373867, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVlwSpi
%take impl MsgoutNmeaIdVlwSpi
%derive struct MsgoutNmeaIdVlwSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVlwSpi::KEY
        ensures r.0 == 0x209100eb,
%constfn MsgoutNmeaIdVlwSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVlwSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100eb, (self.0 as int)),
%start MsgoutNmeaIdVlwSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVlwSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 111 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 111
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVlwUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVlwUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373864 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373864, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVlwUart1
%take impl MsgoutNmeaIdVlwUart1
%derive struct MsgoutNmeaIdVlwUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVlwUart1::KEY
        ensures r.0 == 0x209100e8,
%constfn MsgoutNmeaIdVlwUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVlwUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100e8, (self.0 as int)),
%start MsgoutNmeaIdVlwUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVlwUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 112 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 112
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVlwUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVlwUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373865 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373865, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVlwUart2
%take impl MsgoutNmeaIdVlwUart2
%derive struct MsgoutNmeaIdVlwUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVlwUart2::KEY
        ensures r.0 == 0x209100e9,
%constfn MsgoutNmeaIdVlwUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVlwUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100e9, (self.0 as int)),
%start MsgoutNmeaIdVlwUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVlwUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 113 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 113
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVlwUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVlwUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVlwUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373866 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373866, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVlwUsb
%take impl MsgoutNmeaIdVlwUsb
%derive struct MsgoutNmeaIdVlwUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVlwUsb::KEY
        ensures r.0 == 0x209100ea,
%constfn MsgoutNmeaIdVlwUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVlwUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ea, (self.0 as int)),
%start MsgoutNmeaIdVlwUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVlwUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 114 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 114
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVtgI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVtgI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373808 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373808, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVtgI2c
%take impl MsgoutNmeaIdVtgI2c
%derive struct MsgoutNmeaIdVtgI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVtgI2c::KEY
        ensures r.0 == 0x209100b0,
%constfn MsgoutNmeaIdVtgI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVtgI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b0, (self.0 as int)),
%start MsgoutNmeaIdVtgI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVtgI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 115 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 115
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVtgSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVtgSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373812 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373812, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVtgSpi
%take impl MsgoutNmeaIdVtgSpi
%derive struct MsgoutNmeaIdVtgSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVtgSpi::KEY
        ensures r.0 == 0x209100b4,
%constfn MsgoutNmeaIdVtgSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVtgSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b4, (self.0 as int)),
%start MsgoutNmeaIdVtgSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVtgSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 116 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 116
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVtgUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVtgUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373809 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373809, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVtgUart1
%take impl MsgoutNmeaIdVtgUart1
%derive struct MsgoutNmeaIdVtgUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVtgUart1::KEY
        ensures r.0 == 0x209100b1,
%constfn MsgoutNmeaIdVtgUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVtgUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b1, (self.0 as int)),
%start MsgoutNmeaIdVtgUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVtgUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 117 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 117
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVtgUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVtgUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373810 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373810, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVtgUart2
%take impl MsgoutNmeaIdVtgUart2
%derive struct MsgoutNmeaIdVtgUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVtgUart2::KEY
        ensures r.0 == 0x209100b2,
%constfn MsgoutNmeaIdVtgUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVtgUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b2, (self.0 as int)),
%start MsgoutNmeaIdVtgUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVtgUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 118 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 118
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdVtgUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdVtgUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdVtgUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373811 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373811, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdVtgUsb
%take impl MsgoutNmeaIdVtgUsb
%derive struct MsgoutNmeaIdVtgUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdVtgUsb::KEY
        ensures r.0 == 0x209100b3,
%constfn MsgoutNmeaIdVtgUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdVtgUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100b3, (self.0 as int)),
%start MsgoutNmeaIdVtgUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdVtgUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 119 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 119
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdZdaI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdZdaI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373848 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373848, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdZdaI2c
%take impl MsgoutNmeaIdZdaI2c
%derive struct MsgoutNmeaIdZdaI2c :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdZdaI2c::KEY
        ensures r.0 == 0x209100d8,
%constfn MsgoutNmeaIdZdaI2c::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdZdaI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d8, (self.0 as int)),
%start MsgoutNmeaIdZdaI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdZdaI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 120 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 120
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdZdaSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdZdaSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373852 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373852, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdZdaSpi
%take impl MsgoutNmeaIdZdaSpi
%derive struct MsgoutNmeaIdZdaSpi :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdZdaSpi::KEY
        ensures r.0 == 0x209100dc,
%constfn MsgoutNmeaIdZdaSpi::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdZdaSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100dc, (self.0 as int)),
%start MsgoutNmeaIdZdaSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdZdaSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 121 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 121
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdZdaUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdZdaUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373849 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373849, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdZdaUart1
%take impl MsgoutNmeaIdZdaUart1
%derive struct MsgoutNmeaIdZdaUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdZdaUart1::KEY
        ensures r.0 == 0x209100d9,
%constfn MsgoutNmeaIdZdaUart1::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdZdaUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100d9, (self.0 as int)),
%start MsgoutNmeaIdZdaUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdZdaUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 122 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 122
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdZdaUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdZdaUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373850 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373850, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdZdaUart2
%take impl MsgoutNmeaIdZdaUart2
%derive struct MsgoutNmeaIdZdaUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdZdaUart2::KEY
        ensures r.0 == 0x209100da,
%constfn MsgoutNmeaIdZdaUart2::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdZdaUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100da, (self.0 as int)),
%start MsgoutNmeaIdZdaUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdZdaUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 123 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 123
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutNmeaIdZdaUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutNmeaIdZdaUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutNmeaIdZdaUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373851 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373851, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutNmeaIdZdaUsb
%take impl MsgoutNmeaIdZdaUsb
%derive struct MsgoutNmeaIdZdaUsb :: #[derive(Clone, Copy)]
%constfn MsgoutNmeaIdZdaUsb::KEY
        ensures r.0 == 0x209100db,
%constfn MsgoutNmeaIdZdaUsb::SIZE
        ensures r == 5,
%fn MsgoutNmeaIdZdaUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100db, (self.0 as int)),
%start MsgoutNmeaIdZdaUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutNmeaIdZdaUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 124 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 124
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolypI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolypI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373868 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373868, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolypI2c
%take impl MsgoutPubxIdPolypI2c
%derive struct MsgoutPubxIdPolypI2c :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolypI2c::KEY
        ensures r.0 == 0x209100ec,
%constfn MsgoutPubxIdPolypI2c::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolypI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ec, (self.0 as int)),
%start MsgoutPubxIdPolypI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolypI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 125 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 125
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolypSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolypSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373872 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373872, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolypSpi
%take impl MsgoutPubxIdPolypSpi
%derive struct MsgoutPubxIdPolypSpi :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolypSpi::KEY
        ensures r.0 == 0x209100f0,
%constfn MsgoutPubxIdPolypSpi::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolypSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f0, (self.0 as int)),
%start MsgoutPubxIdPolypSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolypSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 126 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 126
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolypUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolypUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373869 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373869, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolypUart1
%take impl MsgoutPubxIdPolypUart1
%derive struct MsgoutPubxIdPolypUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolypUart1::KEY
        ensures r.0 == 0x209100ed,
%constfn MsgoutPubxIdPolypUart1::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolypUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ed, (self.0 as int)),
%start MsgoutPubxIdPolypUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolypUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 127 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 127
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolypUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolypUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373870 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373870, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolypUart2
%take impl MsgoutPubxIdPolypUart2
%derive struct MsgoutPubxIdPolypUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolypUart2::KEY
        ensures r.0 == 0x209100ee,
%constfn MsgoutPubxIdPolypUart2::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolypUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ee, (self.0 as int)),
%start MsgoutPubxIdPolypUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolypUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 128 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 128
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolypUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolypUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolypUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373871 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373871, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolypUsb
%take impl MsgoutPubxIdPolypUsb
%derive struct MsgoutPubxIdPolypUsb :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolypUsb::KEY
        ensures r.0 == 0x209100ef,
%constfn MsgoutPubxIdPolypUsb::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolypUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100ef, (self.0 as int)),
%start MsgoutPubxIdPolypUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolypUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 129 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 129
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolysI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolysI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373873 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373873, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolysI2c
%take impl MsgoutPubxIdPolysI2c
%derive struct MsgoutPubxIdPolysI2c :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolysI2c::KEY
        ensures r.0 == 0x209100f1,
%constfn MsgoutPubxIdPolysI2c::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolysI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f1, (self.0 as int)),
%start MsgoutPubxIdPolysI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolysI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 130 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 130
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolysSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolysSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373877 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373877, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolysSpi
%take impl MsgoutPubxIdPolysSpi
%derive struct MsgoutPubxIdPolysSpi :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolysSpi::KEY
        ensures r.0 == 0x209100f5,
%constfn MsgoutPubxIdPolysSpi::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolysSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f5, (self.0 as int)),
%start MsgoutPubxIdPolysSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolysSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 131 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 131
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolysUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolysUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373874 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373874, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolysUart1
%take impl MsgoutPubxIdPolysUart1
%derive struct MsgoutPubxIdPolysUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolysUart1::KEY
        ensures r.0 == 0x209100f2,
%constfn MsgoutPubxIdPolysUart1::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolysUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f2, (self.0 as int)),
%start MsgoutPubxIdPolysUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolysUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 132 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 132
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolysUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolysUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373875 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373875, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolysUart2
%take impl MsgoutPubxIdPolysUart2
%derive struct MsgoutPubxIdPolysUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolysUart2::KEY
        ensures r.0 == 0x209100f3,
%constfn MsgoutPubxIdPolysUart2::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolysUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f3, (self.0 as int)),
%start MsgoutPubxIdPolysUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolysUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 133 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 133
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolysUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolysUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolysUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373876 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373876, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolysUsb
%take impl MsgoutPubxIdPolysUsb
%derive struct MsgoutPubxIdPolysUsb :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolysUsb::KEY
        ensures r.0 == 0x209100f4,
%constfn MsgoutPubxIdPolysUsb::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolysUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f4, (self.0 as int)),
%start MsgoutPubxIdPolysUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolysUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 134 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 134
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolytI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolytI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373878 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373878, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolytI2c
%take impl MsgoutPubxIdPolytI2c
%derive struct MsgoutPubxIdPolytI2c :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolytI2c::KEY
        ensures r.0 == 0x209100f6,
%constfn MsgoutPubxIdPolytI2c::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolytI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f6, (self.0 as int)),
%start MsgoutPubxIdPolytI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolytI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 135 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 135
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolytSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolytSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373882 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373882, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolytSpi
%take impl MsgoutPubxIdPolytSpi
%derive struct MsgoutPubxIdPolytSpi :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolytSpi::KEY
        ensures r.0 == 0x209100fa,
%constfn MsgoutPubxIdPolytSpi::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolytSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100fa, (self.0 as int)),
%start MsgoutPubxIdPolytSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolytSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 136 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 136
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolytUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolytUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373879 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373879, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolytUart1
%take impl MsgoutPubxIdPolytUart1
%derive struct MsgoutPubxIdPolytUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolytUart1::KEY
        ensures r.0 == 0x209100f7,
%constfn MsgoutPubxIdPolytUart1::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolytUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f7, (self.0 as int)),
%start MsgoutPubxIdPolytUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolytUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 137 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 137
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolytUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolytUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373880 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373880, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolytUart2
%take impl MsgoutPubxIdPolytUart2
%derive struct MsgoutPubxIdPolytUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolytUart2::KEY
        ensures r.0 == 0x209100f8,
%constfn MsgoutPubxIdPolytUart2::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolytUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f8, (self.0 as int)),
%start MsgoutPubxIdPolytUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolytUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 138 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 138
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutPubxIdPolytUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutPubxIdPolytUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutPubxIdPolytUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373881 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373881, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutPubxIdPolytUsb
%take impl MsgoutPubxIdPolytUsb
%derive struct MsgoutPubxIdPolytUsb :: #[derive(Clone, Copy)]
%constfn MsgoutPubxIdPolytUsb::KEY
        ensures r.0 == 0x209100f9,
%constfn MsgoutPubxIdPolytUsb::SIZE
        ensures r == 5,
%fn MsgoutPubxIdPolytUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100f9, (self.0 as int)),
%start MsgoutPubxIdPolytUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutPubxIdPolytUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 139 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 139
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1005I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1005I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374333 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374333, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1005I2c
%take impl MsgoutRtcm3xType1005I2c
%derive struct MsgoutRtcm3xType1005I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1005I2c::KEY
        ensures r.0 == 0x209102bd,
%constfn MsgoutRtcm3xType1005I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1005I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102bd, (self.0 as int)),
%start MsgoutRtcm3xType1005I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1005I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 140 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 140
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1005Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1005Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374337 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374337, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1005Spi
%take impl MsgoutRtcm3xType1005Spi
%derive struct MsgoutRtcm3xType1005Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1005Spi::KEY
        ensures r.0 == 0x209102c1,
%constfn MsgoutRtcm3xType1005Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1005Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102c1, (self.0 as int)),
%start MsgoutRtcm3xType1005Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1005Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 141 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 141
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1005Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1005Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374334 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374334, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1005Uart1
%take impl MsgoutRtcm3xType1005Uart1
%derive struct MsgoutRtcm3xType1005Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1005Uart1::KEY
        ensures r.0 == 0x209102be,
%constfn MsgoutRtcm3xType1005Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1005Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102be, (self.0 as int)),
%start MsgoutRtcm3xType1005Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1005Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 142 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 142
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1005Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1005Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374335 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374335, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1005Uart2
%take impl MsgoutRtcm3xType1005Uart2
%derive struct MsgoutRtcm3xType1005Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1005Uart2::KEY
        ensures r.0 == 0x209102bf,
%constfn MsgoutRtcm3xType1005Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1005Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102bf, (self.0 as int)),
%start MsgoutRtcm3xType1005Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1005Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 143 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 143
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1005Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1005Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1005Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374336 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374336, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1005Usb
%take impl MsgoutRtcm3xType1005Usb
%derive struct MsgoutRtcm3xType1005Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1005Usb::KEY
        ensures r.0 == 0x209102c0,
%constfn MsgoutRtcm3xType1005Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1005Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102c0, (self.0 as int)),
%start MsgoutRtcm3xType1005Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1005Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 144 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 144
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1074I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1074I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374494 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374494, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1074I2c
%take impl MsgoutRtcm3xType1074I2c
%derive struct MsgoutRtcm3xType1074I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1074I2c::KEY
        ensures r.0 == 0x2091035e,
%constfn MsgoutRtcm3xType1074I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1074I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035e, (self.0 as int)),
%start MsgoutRtcm3xType1074I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1074I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 145 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 145
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1074Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1074Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374498 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374498, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1074Spi
%take impl MsgoutRtcm3xType1074Spi
%derive struct MsgoutRtcm3xType1074Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1074Spi::KEY
        ensures r.0 == 0x20910362,
%constfn MsgoutRtcm3xType1074Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1074Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910362, (self.0 as int)),
%start MsgoutRtcm3xType1074Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1074Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 146 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 146
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1074Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1074Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374495 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374495, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1074Uart1
%take impl MsgoutRtcm3xType1074Uart1
%derive struct MsgoutRtcm3xType1074Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1074Uart1::KEY
        ensures r.0 == 0x2091035f,
%constfn MsgoutRtcm3xType1074Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1074Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035f, (self.0 as int)),
%start MsgoutRtcm3xType1074Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1074Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 147 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 147
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1074Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1074Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374496 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374496, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1074Uart2
%take impl MsgoutRtcm3xType1074Uart2
%derive struct MsgoutRtcm3xType1074Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1074Uart2::KEY
        ensures r.0 == 0x20910360,
%constfn MsgoutRtcm3xType1074Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1074Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910360, (self.0 as int)),
%start MsgoutRtcm3xType1074Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1074Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 148 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 148
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1074Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1074Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1074Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374497 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374497, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1074Usb
%take impl MsgoutRtcm3xType1074Usb
%derive struct MsgoutRtcm3xType1074Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1074Usb::KEY
        ensures r.0 == 0x20910361,
%constfn MsgoutRtcm3xType1074Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1074Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910361, (self.0 as int)),
%start MsgoutRtcm3xType1074Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1074Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 149 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 149
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1077I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1077I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374348 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374348, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1077I2c
%take impl MsgoutRtcm3xType1077I2c
%derive struct MsgoutRtcm3xType1077I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1077I2c::KEY
        ensures r.0 == 0x209102cc,
%constfn MsgoutRtcm3xType1077I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1077I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102cc, (self.0 as int)),
%start MsgoutRtcm3xType1077I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1077I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 150 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 150
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1077Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1077Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374352 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374352, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1077Spi
%take impl MsgoutRtcm3xType1077Spi
%derive struct MsgoutRtcm3xType1077Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1077Spi::KEY
        ensures r.0 == 0x209102d0,
%constfn MsgoutRtcm3xType1077Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1077Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d0, (self.0 as int)),
%start MsgoutRtcm3xType1077Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1077Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 151 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 151
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1077Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1077Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374349 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374349, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1077Uart1
%take impl MsgoutRtcm3xType1077Uart1
%derive struct MsgoutRtcm3xType1077Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1077Uart1::KEY
        ensures r.0 == 0x209102cd,
%constfn MsgoutRtcm3xType1077Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1077Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102cd, (self.0 as int)),
%start MsgoutRtcm3xType1077Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1077Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 152 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 152
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1077Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1077Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374350 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374350, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1077Uart2
%take impl MsgoutRtcm3xType1077Uart2
%derive struct MsgoutRtcm3xType1077Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1077Uart2::KEY
        ensures r.0 == 0x209102ce,
%constfn MsgoutRtcm3xType1077Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1077Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102ce, (self.0 as int)),
%start MsgoutRtcm3xType1077Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1077Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 153 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 153
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1077Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1077Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1077Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374351 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374351, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1077Usb
%take impl MsgoutRtcm3xType1077Usb
%derive struct MsgoutRtcm3xType1077Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1077Usb::KEY
        ensures r.0 == 0x209102cf,
%constfn MsgoutRtcm3xType1077Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1077Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102cf, (self.0 as int)),
%start MsgoutRtcm3xType1077Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1077Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 154 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 154
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1084I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1084I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374499 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374499, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1084I2c
%take impl MsgoutRtcm3xType1084I2c
%derive struct MsgoutRtcm3xType1084I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1084I2c::KEY
        ensures r.0 == 0x20910363,
%constfn MsgoutRtcm3xType1084I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1084I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910363, (self.0 as int)),
%start MsgoutRtcm3xType1084I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1084I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 155 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 155
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1084Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1084Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374503 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374503, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1084Spi
%take impl MsgoutRtcm3xType1084Spi
%derive struct MsgoutRtcm3xType1084Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1084Spi::KEY
        ensures r.0 == 0x20910367,
%constfn MsgoutRtcm3xType1084Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1084Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910367, (self.0 as int)),
%start MsgoutRtcm3xType1084Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1084Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 156 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 156
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1084Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1084Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374500 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374500, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1084Uart1
%take impl MsgoutRtcm3xType1084Uart1
%derive struct MsgoutRtcm3xType1084Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1084Uart1::KEY
        ensures r.0 == 0x20910364,
%constfn MsgoutRtcm3xType1084Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1084Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910364, (self.0 as int)),
%start MsgoutRtcm3xType1084Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1084Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 157 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 157
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1084Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1084Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374501 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374501, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1084Uart2
%take impl MsgoutRtcm3xType1084Uart2
%derive struct MsgoutRtcm3xType1084Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1084Uart2::KEY
        ensures r.0 == 0x20910365,
%constfn MsgoutRtcm3xType1084Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1084Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910365, (self.0 as int)),
%start MsgoutRtcm3xType1084Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1084Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 158 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 158
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1084Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1084Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1084Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374502 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374502, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1084Usb
%take impl MsgoutRtcm3xType1084Usb
%derive struct MsgoutRtcm3xType1084Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1084Usb::KEY
        ensures r.0 == 0x20910366,
%constfn MsgoutRtcm3xType1084Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1084Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910366, (self.0 as int)),
%start MsgoutRtcm3xType1084Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1084Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 159 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 159
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1087I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1087I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374353 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374353, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1087I2c
%take impl MsgoutRtcm3xType1087I2c
%derive struct MsgoutRtcm3xType1087I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1087I2c::KEY
        ensures r.0 == 0x209102d1,
%constfn MsgoutRtcm3xType1087I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1087I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d1, (self.0 as int)),
%start MsgoutRtcm3xType1087I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1087I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 160 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 160
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1087Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1087Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374357 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374357, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1087Spi
%take impl MsgoutRtcm3xType1087Spi
%derive struct MsgoutRtcm3xType1087Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1087Spi::KEY
        ensures r.0 == 0x209102d5,
%constfn MsgoutRtcm3xType1087Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1087Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d5, (self.0 as int)),
%start MsgoutRtcm3xType1087Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1087Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 161 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 161
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1087Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1087Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374354 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374354, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1087Uart1
%take impl MsgoutRtcm3xType1087Uart1
%derive struct MsgoutRtcm3xType1087Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1087Uart1::KEY
        ensures r.0 == 0x209102d2,
%constfn MsgoutRtcm3xType1087Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1087Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d2, (self.0 as int)),
%start MsgoutRtcm3xType1087Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1087Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 162 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 162
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1087Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1087Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374355 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374355, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1087Uart2
%take impl MsgoutRtcm3xType1087Uart2
%derive struct MsgoutRtcm3xType1087Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1087Uart2::KEY
        ensures r.0 == 0x209102d3,
%constfn MsgoutRtcm3xType1087Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1087Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d3, (self.0 as int)),
%start MsgoutRtcm3xType1087Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1087Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 163 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 163
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1087Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1087Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1087Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374356 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374356, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1087Usb
%take impl MsgoutRtcm3xType1087Usb
%derive struct MsgoutRtcm3xType1087Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1087Usb::KEY
        ensures r.0 == 0x209102d4,
%constfn MsgoutRtcm3xType1087Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1087Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d4, (self.0 as int)),
%start MsgoutRtcm3xType1087Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1087Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 164 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 164
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1094I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1094I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374504 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374504, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1094I2c
%take impl MsgoutRtcm3xType1094I2c
%derive struct MsgoutRtcm3xType1094I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1094I2c::KEY
        ensures r.0 == 0x20910368,
%constfn MsgoutRtcm3xType1094I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1094I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910368, (self.0 as int)),
%start MsgoutRtcm3xType1094I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1094I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 165 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 165
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1094Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1094Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374508 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374508, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1094Spi
%take impl MsgoutRtcm3xType1094Spi
%derive struct MsgoutRtcm3xType1094Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1094Spi::KEY
        ensures r.0 == 0x2091036c,
%constfn MsgoutRtcm3xType1094Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1094Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036c, (self.0 as int)),
%start MsgoutRtcm3xType1094Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1094Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 166 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 166
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1094Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1094Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374505 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374505, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1094Uart1
%take impl MsgoutRtcm3xType1094Uart1
%derive struct MsgoutRtcm3xType1094Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1094Uart1::KEY
        ensures r.0 == 0x20910369,
%constfn MsgoutRtcm3xType1094Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1094Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910369, (self.0 as int)),
%start MsgoutRtcm3xType1094Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1094Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 167 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 167
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1094Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1094Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374506 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374506, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1094Uart2
%take impl MsgoutRtcm3xType1094Uart2
%derive struct MsgoutRtcm3xType1094Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1094Uart2::KEY
        ensures r.0 == 0x2091036a,
%constfn MsgoutRtcm3xType1094Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1094Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036a, (self.0 as int)),
%start MsgoutRtcm3xType1094Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1094Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 168 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 168
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1094Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1094Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1094Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374507 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374507, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1094Usb
%take impl MsgoutRtcm3xType1094Usb
%derive struct MsgoutRtcm3xType1094Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1094Usb::KEY
        ensures r.0 == 0x2091036b,
%constfn MsgoutRtcm3xType1094Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1094Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036b, (self.0 as int)),
%start MsgoutRtcm3xType1094Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1094Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 169 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 169
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1097I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1097I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374424 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374424, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1097I2c
%take impl MsgoutRtcm3xType1097I2c
%derive struct MsgoutRtcm3xType1097I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1097I2c::KEY
        ensures r.0 == 0x20910318,
%constfn MsgoutRtcm3xType1097I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1097I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910318, (self.0 as int)),
%start MsgoutRtcm3xType1097I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1097I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 170 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 170
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1097Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1097Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374428 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374428, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1097Spi
%take impl MsgoutRtcm3xType1097Spi
%derive struct MsgoutRtcm3xType1097Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1097Spi::KEY
        ensures r.0 == 0x2091031c,
%constfn MsgoutRtcm3xType1097Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1097Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091031c, (self.0 as int)),
%start MsgoutRtcm3xType1097Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1097Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 171 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 171
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1097Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1097Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374425 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374425, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1097Uart1
%take impl MsgoutRtcm3xType1097Uart1
%derive struct MsgoutRtcm3xType1097Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1097Uart1::KEY
        ensures r.0 == 0x20910319,
%constfn MsgoutRtcm3xType1097Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1097Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910319, (self.0 as int)),
%start MsgoutRtcm3xType1097Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1097Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 172 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 172
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1097Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1097Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374426 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374426, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1097Uart2
%take impl MsgoutRtcm3xType1097Uart2
%derive struct MsgoutRtcm3xType1097Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1097Uart2::KEY
        ensures r.0 == 0x2091031a,
%constfn MsgoutRtcm3xType1097Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1097Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091031a, (self.0 as int)),
%start MsgoutRtcm3xType1097Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1097Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 173 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 173
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1097Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1097Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1097Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374427 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374427, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1097Usb
%take impl MsgoutRtcm3xType1097Usb
%derive struct MsgoutRtcm3xType1097Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1097Usb::KEY
        ensures r.0 == 0x2091031b,
%constfn MsgoutRtcm3xType1097Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1097Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091031b, (self.0 as int)),
%start MsgoutRtcm3xType1097Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1097Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 174 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 174
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1124I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1124I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374509 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374509, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1124I2c
%take impl MsgoutRtcm3xType1124I2c
%derive struct MsgoutRtcm3xType1124I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1124I2c::KEY
        ensures r.0 == 0x2091036d,
%constfn MsgoutRtcm3xType1124I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1124I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036d, (self.0 as int)),
%start MsgoutRtcm3xType1124I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1124I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 175 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 175
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1124Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1124Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374513 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374513, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1124Spi
%take impl MsgoutRtcm3xType1124Spi
%derive struct MsgoutRtcm3xType1124Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1124Spi::KEY
        ensures r.0 == 0x20910371,
%constfn MsgoutRtcm3xType1124Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1124Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910371, (self.0 as int)),
%start MsgoutRtcm3xType1124Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1124Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 176 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 176
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1124Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1124Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374510 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374510, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1124Uart1
%take impl MsgoutRtcm3xType1124Uart1
%derive struct MsgoutRtcm3xType1124Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1124Uart1::KEY
        ensures r.0 == 0x2091036e,
%constfn MsgoutRtcm3xType1124Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1124Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036e, (self.0 as int)),
%start MsgoutRtcm3xType1124Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1124Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 177 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 177
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1124Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1124Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374511 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374511, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1124Uart2
%take impl MsgoutRtcm3xType1124Uart2
%derive struct MsgoutRtcm3xType1124Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1124Uart2::KEY
        ensures r.0 == 0x2091036f,
%constfn MsgoutRtcm3xType1124Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1124Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091036f, (self.0 as int)),
%start MsgoutRtcm3xType1124Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1124Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 178 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 178
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1124Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1124Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1124Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374512 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374512, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1124Usb
%take impl MsgoutRtcm3xType1124Usb
%derive struct MsgoutRtcm3xType1124Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1124Usb::KEY
        ensures r.0 == 0x20910370,
%constfn MsgoutRtcm3xType1124Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1124Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910370, (self.0 as int)),
%start MsgoutRtcm3xType1124Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1124Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 179 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 179
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1127I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1127I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374358 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374358, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1127I2c
%take impl MsgoutRtcm3xType1127I2c
%derive struct MsgoutRtcm3xType1127I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1127I2c::KEY
        ensures r.0 == 0x209102d6,
%constfn MsgoutRtcm3xType1127I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1127I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d6, (self.0 as int)),
%start MsgoutRtcm3xType1127I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1127I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 180 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 180
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1127Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1127Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374362 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374362, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1127Spi
%take impl MsgoutRtcm3xType1127Spi
%derive struct MsgoutRtcm3xType1127Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1127Spi::KEY
        ensures r.0 == 0x209102da,
%constfn MsgoutRtcm3xType1127Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1127Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102da, (self.0 as int)),
%start MsgoutRtcm3xType1127Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1127Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 181 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 181
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1127Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1127Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374359 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374359, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1127Uart1
%take impl MsgoutRtcm3xType1127Uart1
%derive struct MsgoutRtcm3xType1127Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1127Uart1::KEY
        ensures r.0 == 0x209102d7,
%constfn MsgoutRtcm3xType1127Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1127Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d7, (self.0 as int)),
%start MsgoutRtcm3xType1127Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1127Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 182 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 182
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1127Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1127Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374360 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374360, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1127Uart2
%take impl MsgoutRtcm3xType1127Uart2
%derive struct MsgoutRtcm3xType1127Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1127Uart2::KEY
        ensures r.0 == 0x209102d8,
%constfn MsgoutRtcm3xType1127Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1127Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d8, (self.0 as int)),
%start MsgoutRtcm3xType1127Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1127Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 183 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 183
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1127Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1127Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1127Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374361 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374361, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1127Usb
%take impl MsgoutRtcm3xType1127Usb
%derive struct MsgoutRtcm3xType1127Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1127Usb::KEY
        ensures r.0 == 0x209102d9,
%constfn MsgoutRtcm3xType1127Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1127Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102d9, (self.0 as int)),
%start MsgoutRtcm3xType1127Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1127Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 184 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 184
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1230I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1230I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374403 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374403, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1230I2c
%take impl MsgoutRtcm3xType1230I2c
%derive struct MsgoutRtcm3xType1230I2c :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1230I2c::KEY
        ensures r.0 == 0x20910303,
%constfn MsgoutRtcm3xType1230I2c::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1230I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910303, (self.0 as int)),
%start MsgoutRtcm3xType1230I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1230I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 185 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 185
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1230Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1230Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374407 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374407, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1230Spi
%take impl MsgoutRtcm3xType1230Spi
%derive struct MsgoutRtcm3xType1230Spi :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1230Spi::KEY
        ensures r.0 == 0x20910307,
%constfn MsgoutRtcm3xType1230Spi::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1230Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910307, (self.0 as int)),
%start MsgoutRtcm3xType1230Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1230Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 186 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 186
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1230Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1230Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374404 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374404, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1230Uart1
%take impl MsgoutRtcm3xType1230Uart1
%derive struct MsgoutRtcm3xType1230Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1230Uart1::KEY
        ensures r.0 == 0x20910304,
%constfn MsgoutRtcm3xType1230Uart1::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1230Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910304, (self.0 as int)),
%start MsgoutRtcm3xType1230Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1230Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 187 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 187
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1230Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1230Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374405 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374405, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1230Uart2
%take impl MsgoutRtcm3xType1230Uart2
%derive struct MsgoutRtcm3xType1230Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1230Uart2::KEY
        ensures r.0 == 0x20910305,
%constfn MsgoutRtcm3xType1230Uart2::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1230Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910305, (self.0 as int)),
%start MsgoutRtcm3xType1230Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1230Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 188 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 188
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutRtcm3xType1230Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutRtcm3xType1230Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutRtcm3xType1230Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374406 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374406, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutRtcm3xType1230Usb
%take impl MsgoutRtcm3xType1230Usb
%derive struct MsgoutRtcm3xType1230Usb :: #[derive(Clone, Copy)]
%constfn MsgoutRtcm3xType1230Usb::KEY
        ensures r.0 == 0x20910306,
%constfn MsgoutRtcm3xType1230Usb::SIZE
        ensures r == 5,
%fn MsgoutRtcm3xType1230Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910306, (self.0 as int)),
%start MsgoutRtcm3xType1230Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutRtcm3xType1230Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 189 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 189
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxLogInfoI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxLogInfoI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374233 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374233, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxLogInfoI2c
%take impl MsgoutUbxLogInfoI2c
%derive struct MsgoutUbxLogInfoI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxLogInfoI2c::KEY
        ensures r.0 == 0x20910259,
%constfn MsgoutUbxLogInfoI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxLogInfoI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910259, (self.0 as int)),
%start MsgoutUbxLogInfoI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxLogInfoI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 190 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 190
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxLogInfoSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxLogInfoSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374237 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374237, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxLogInfoSpi
%take impl MsgoutUbxLogInfoSpi
%derive struct MsgoutUbxLogInfoSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxLogInfoSpi::KEY
        ensures r.0 == 0x2091025d,
%constfn MsgoutUbxLogInfoSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxLogInfoSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025d, (self.0 as int)),
%start MsgoutUbxLogInfoSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxLogInfoSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 191 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 191
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxLogInfoUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxLogInfoUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374234 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374234, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxLogInfoUart1
%take impl MsgoutUbxLogInfoUart1
%derive struct MsgoutUbxLogInfoUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxLogInfoUart1::KEY
        ensures r.0 == 0x2091025a,
%constfn MsgoutUbxLogInfoUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxLogInfoUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025a, (self.0 as int)),
%start MsgoutUbxLogInfoUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxLogInfoUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 192 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 192
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxLogInfoUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxLogInfoUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374235 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374235, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxLogInfoUart2
%take impl MsgoutUbxLogInfoUart2
%derive struct MsgoutUbxLogInfoUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxLogInfoUart2::KEY
        ensures r.0 == 0x2091025b,
%constfn MsgoutUbxLogInfoUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxLogInfoUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025b, (self.0 as int)),
%start MsgoutUbxLogInfoUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxLogInfoUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 193 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 193
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxLogInfoUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxLogInfoUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxLogInfoUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374236 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374236, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxLogInfoUsb
%take impl MsgoutUbxLogInfoUsb
%derive struct MsgoutUbxLogInfoUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxLogInfoUsb::KEY
        ensures r.0 == 0x2091025c,
%constfn MsgoutUbxLogInfoUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxLogInfoUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025c, (self.0 as int)),
%start MsgoutUbxLogInfoUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxLogInfoUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 194 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 194
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonCommsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonCommsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374479 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374479, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonCommsI2c
%take impl MsgoutUbxMonCommsI2c
%derive struct MsgoutUbxMonCommsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonCommsI2c::KEY
        ensures r.0 == 0x2091034f,
%constfn MsgoutUbxMonCommsI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonCommsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091034f, (self.0 as int)),
%start MsgoutUbxMonCommsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonCommsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 195 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 195
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonCommsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonCommsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374483 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374483, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonCommsSpi
%take impl MsgoutUbxMonCommsSpi
%derive struct MsgoutUbxMonCommsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonCommsSpi::KEY
        ensures r.0 == 0x20910353,
%constfn MsgoutUbxMonCommsSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonCommsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910353, (self.0 as int)),
%start MsgoutUbxMonCommsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonCommsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 196 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 196
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonCommsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonCommsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374480 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374480, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonCommsUart1
%take impl MsgoutUbxMonCommsUart1
%derive struct MsgoutUbxMonCommsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonCommsUart1::KEY
        ensures r.0 == 0x20910350,
%constfn MsgoutUbxMonCommsUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonCommsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910350, (self.0 as int)),
%start MsgoutUbxMonCommsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonCommsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 197 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 197
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonCommsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonCommsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374481 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374481, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonCommsUart2
%take impl MsgoutUbxMonCommsUart2
%derive struct MsgoutUbxMonCommsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonCommsUart2::KEY
        ensures r.0 == 0x20910351,
%constfn MsgoutUbxMonCommsUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonCommsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910351, (self.0 as int)),
%start MsgoutUbxMonCommsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonCommsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 198 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 198
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonCommsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonCommsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonCommsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374482 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374482, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonCommsUsb
%take impl MsgoutUbxMonCommsUsb
%derive struct MsgoutUbxMonCommsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonCommsUsb::KEY
        ensures r.0 == 0x20910352,
%constfn MsgoutUbxMonCommsUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonCommsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910352, (self.0 as int)),
%start MsgoutUbxMonCommsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonCommsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 199 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 199
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw2I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw2I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374073 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374073, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw2I2c
%take impl MsgoutUbxMonHw2I2c
%derive struct MsgoutUbxMonHw2I2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw2I2c::KEY
        ensures r.0 == 0x209101b9,
%constfn MsgoutUbxMonHw2I2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw2I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b9, (self.0 as int)),
%start MsgoutUbxMonHw2I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw2I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 200 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 200
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw2Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw2Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374077 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374077, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw2Spi
%take impl MsgoutUbxMonHw2Spi
%derive struct MsgoutUbxMonHw2Spi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw2Spi::KEY
        ensures r.0 == 0x209101bd,
%constfn MsgoutUbxMonHw2Spi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw2Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101bd, (self.0 as int)),
%start MsgoutUbxMonHw2Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw2Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 201 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 201
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw2Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw2Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374074 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374074, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw2Uart1
%take impl MsgoutUbxMonHw2Uart1
%derive struct MsgoutUbxMonHw2Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw2Uart1::KEY
        ensures r.0 == 0x209101ba,
%constfn MsgoutUbxMonHw2Uart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw2Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101ba, (self.0 as int)),
%start MsgoutUbxMonHw2Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw2Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 202 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 202
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw2Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw2Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374075 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374075, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw2Uart2
%take impl MsgoutUbxMonHw2Uart2
%derive struct MsgoutUbxMonHw2Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw2Uart2::KEY
        ensures r.0 == 0x209101bb,
%constfn MsgoutUbxMonHw2Uart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw2Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101bb, (self.0 as int)),
%start MsgoutUbxMonHw2Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw2Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 203 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 203
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw2Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw2Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw2Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374076 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374076, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw2Usb
%take impl MsgoutUbxMonHw2Usb
%derive struct MsgoutUbxMonHw2Usb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw2Usb::KEY
        ensures r.0 == 0x209101bc,
%constfn MsgoutUbxMonHw2Usb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw2Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101bc, (self.0 as int)),
%start MsgoutUbxMonHw2Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw2Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 204 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 204
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw3I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw3I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374484 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374484, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw3I2c
%take impl MsgoutUbxMonHw3I2c
%derive struct MsgoutUbxMonHw3I2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw3I2c::KEY
        ensures r.0 == 0x20910354,
%constfn MsgoutUbxMonHw3I2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw3I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910354, (self.0 as int)),
%start MsgoutUbxMonHw3I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw3I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 205 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 205
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw3Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw3Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374488 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374488, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw3Spi
%take impl MsgoutUbxMonHw3Spi
%derive struct MsgoutUbxMonHw3Spi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw3Spi::KEY
        ensures r.0 == 0x20910358,
%constfn MsgoutUbxMonHw3Spi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw3Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910358, (self.0 as int)),
%start MsgoutUbxMonHw3Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw3Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 206 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 206
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw3Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw3Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374485 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374485, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw3Uart1
%take impl MsgoutUbxMonHw3Uart1
%derive struct MsgoutUbxMonHw3Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw3Uart1::KEY
        ensures r.0 == 0x20910355,
%constfn MsgoutUbxMonHw3Uart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw3Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910355, (self.0 as int)),
%start MsgoutUbxMonHw3Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw3Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 207 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 207
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw3Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw3Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374486 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374486, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw3Uart2
%take impl MsgoutUbxMonHw3Uart2
%derive struct MsgoutUbxMonHw3Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw3Uart2::KEY
        ensures r.0 == 0x20910356,
%constfn MsgoutUbxMonHw3Uart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw3Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910356, (self.0 as int)),
%start MsgoutUbxMonHw3Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw3Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 208 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 208
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHw3Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHw3Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHw3Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374487 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374487, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHw3Usb
%take impl MsgoutUbxMonHw3Usb
%derive struct MsgoutUbxMonHw3Usb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHw3Usb::KEY
        ensures r.0 == 0x20910357,
%constfn MsgoutUbxMonHw3Usb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHw3Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910357, (self.0 as int)),
%start MsgoutUbxMonHw3Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHw3Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 209 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 209
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHwI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHwI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374068 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374068, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHwI2c
%take impl MsgoutUbxMonHwI2c
%derive struct MsgoutUbxMonHwI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHwI2c::KEY
        ensures r.0 == 0x209101b4,
%constfn MsgoutUbxMonHwI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHwI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b4, (self.0 as int)),
%start MsgoutUbxMonHwI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHwI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 210 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 210
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHwSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHwSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374072 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374072, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHwSpi
%take impl MsgoutUbxMonHwSpi
%derive struct MsgoutUbxMonHwSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHwSpi::KEY
        ensures r.0 == 0x209101b8,
%constfn MsgoutUbxMonHwSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHwSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b8, (self.0 as int)),
%start MsgoutUbxMonHwSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHwSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 211 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 211
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHwUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHwUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374069 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374069, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHwUart1
%take impl MsgoutUbxMonHwUart1
%derive struct MsgoutUbxMonHwUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHwUart1::KEY
        ensures r.0 == 0x209101b5,
%constfn MsgoutUbxMonHwUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHwUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b5, (self.0 as int)),
%start MsgoutUbxMonHwUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHwUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 212 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 212
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHwUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHwUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374070 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374070, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHwUart2
%take impl MsgoutUbxMonHwUart2
%derive struct MsgoutUbxMonHwUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHwUart2::KEY
        ensures r.0 == 0x209101b6,
%constfn MsgoutUbxMonHwUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHwUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b6, (self.0 as int)),
%start MsgoutUbxMonHwUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHwUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 213 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 213
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonHwUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonHwUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonHwUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374071 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374071, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonHwUsb
%take impl MsgoutUbxMonHwUsb
%derive struct MsgoutUbxMonHwUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonHwUsb::KEY
        ensures r.0 == 0x209101b7,
%constfn MsgoutUbxMonHwUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonHwUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101b7, (self.0 as int)),
%start MsgoutUbxMonHwUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonHwUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 214 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 214
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonIoI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonIoI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374053 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374053, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonIoI2c
%take impl MsgoutUbxMonIoI2c
%derive struct MsgoutUbxMonIoI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonIoI2c::KEY
        ensures r.0 == 0x209101a5,
%constfn MsgoutUbxMonIoI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonIoI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a5, (self.0 as int)),
%start MsgoutUbxMonIoI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonIoI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 215 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 215
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonIoSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonIoSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374057 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374057, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonIoSpi
%take impl MsgoutUbxMonIoSpi
%derive struct MsgoutUbxMonIoSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonIoSpi::KEY
        ensures r.0 == 0x209101a9,
%constfn MsgoutUbxMonIoSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonIoSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a9, (self.0 as int)),
%start MsgoutUbxMonIoSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonIoSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 216 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 216
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonIoUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonIoUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374054 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374054, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonIoUart1
%take impl MsgoutUbxMonIoUart1
%derive struct MsgoutUbxMonIoUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonIoUart1::KEY
        ensures r.0 == 0x209101a6,
%constfn MsgoutUbxMonIoUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonIoUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a6, (self.0 as int)),
%start MsgoutUbxMonIoUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonIoUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 217 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 217
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonIoUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonIoUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374055 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374055, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonIoUart2
%take impl MsgoutUbxMonIoUart2
%derive struct MsgoutUbxMonIoUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonIoUart2::KEY
        ensures r.0 == 0x209101a7,
%constfn MsgoutUbxMonIoUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonIoUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a7, (self.0 as int)),
%start MsgoutUbxMonIoUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonIoUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 218 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 218
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonIoUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonIoUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonIoUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374056 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374056, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonIoUsb
%take impl MsgoutUbxMonIoUsb
%derive struct MsgoutUbxMonIoUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonIoUsb::KEY
        ensures r.0 == 0x209101a8,
%constfn MsgoutUbxMonIoUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonIoUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a8, (self.0 as int)),
%start MsgoutUbxMonIoUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonIoUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 219 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 219
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonMsgPpI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonMsgPpI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374038 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374038, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonMsgPpI2c
%take impl MsgoutUbxMonMsgPpI2c
%derive struct MsgoutUbxMonMsgPpI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonMsgPpI2c::KEY
        ensures r.0 == 0x20910196,
%constfn MsgoutUbxMonMsgPpI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonMsgPpI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910196, (self.0 as int)),
%start MsgoutUbxMonMsgPpI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonMsgPpI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 220 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 220
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonMsgPpSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonMsgPpSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374042 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374042, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonMsgPpSpi
%take impl MsgoutUbxMonMsgPpSpi
%derive struct MsgoutUbxMonMsgPpSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonMsgPpSpi::KEY
        ensures r.0 == 0x2091019a,
%constfn MsgoutUbxMonMsgPpSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonMsgPpSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019a, (self.0 as int)),
%start MsgoutUbxMonMsgPpSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonMsgPpSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 221 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 221
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonMsgPpUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonMsgPpUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374039 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374039, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonMsgPpUart1
%take impl MsgoutUbxMonMsgPpUart1
%derive struct MsgoutUbxMonMsgPpUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonMsgPpUart1::KEY
        ensures r.0 == 0x20910197,
%constfn MsgoutUbxMonMsgPpUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonMsgPpUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910197, (self.0 as int)),
%start MsgoutUbxMonMsgPpUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonMsgPpUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 222 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 222
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonMsgPpUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonMsgPpUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374040 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374040, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonMsgPpUart2
%take impl MsgoutUbxMonMsgPpUart2
%derive struct MsgoutUbxMonMsgPpUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonMsgPpUart2::KEY
        ensures r.0 == 0x20910198,
%constfn MsgoutUbxMonMsgPpUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonMsgPpUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910198, (self.0 as int)),
%start MsgoutUbxMonMsgPpUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonMsgPpUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 223 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 223
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonMsgPpUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonMsgPpUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonMsgPpUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374041 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374041, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonMsgPpUsb
%take impl MsgoutUbxMonMsgPpUsb
%derive struct MsgoutUbxMonMsgPpUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonMsgPpUsb::KEY
        ensures r.0 == 0x20910199,
%constfn MsgoutUbxMonMsgPpUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonMsgPpUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910199, (self.0 as int)),
%start MsgoutUbxMonMsgPpUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonMsgPpUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 224 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 224
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRfI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRfI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374489 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374489, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRfI2c
%take impl MsgoutUbxMonRfI2c
%derive struct MsgoutUbxMonRfI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRfI2c::KEY
        ensures r.0 == 0x20910359,
%constfn MsgoutUbxMonRfI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRfI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910359, (self.0 as int)),
%start MsgoutUbxMonRfI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRfI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 225 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 225
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRfSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRfSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374493 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374493, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRfSpi
%take impl MsgoutUbxMonRfSpi
%derive struct MsgoutUbxMonRfSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRfSpi::KEY
        ensures r.0 == 0x2091035d,
%constfn MsgoutUbxMonRfSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRfSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035d, (self.0 as int)),
%start MsgoutUbxMonRfSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRfSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 226 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 226
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRfUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRfUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374490 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374490, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRfUart1
%take impl MsgoutUbxMonRfUart1
%derive struct MsgoutUbxMonRfUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRfUart1::KEY
        ensures r.0 == 0x2091035a,
%constfn MsgoutUbxMonRfUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRfUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035a, (self.0 as int)),
%start MsgoutUbxMonRfUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRfUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 227 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 227
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRfUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRfUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374491 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374491, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRfUart2
%take impl MsgoutUbxMonRfUart2
%derive struct MsgoutUbxMonRfUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRfUart2::KEY
        ensures r.0 == 0x2091035b,
%constfn MsgoutUbxMonRfUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRfUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035b, (self.0 as int)),
%start MsgoutUbxMonRfUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRfUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 228 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 228
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRfUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRfUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRfUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374492 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374492, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRfUsb
%take impl MsgoutUbxMonRfUsb
%derive struct MsgoutUbxMonRfUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRfUsb::KEY
        ensures r.0 == 0x2091035c,
%constfn MsgoutUbxMonRfUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRfUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091035c, (self.0 as int)),
%start MsgoutUbxMonRfUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRfUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 229 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 229
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxbufI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxbufI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374048 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374048, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxbufI2c
%take impl MsgoutUbxMonRxbufI2c
%derive struct MsgoutUbxMonRxbufI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxbufI2c::KEY
        ensures r.0 == 0x209101a0,
%constfn MsgoutUbxMonRxbufI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxbufI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a0, (self.0 as int)),
%start MsgoutUbxMonRxbufI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxbufI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 230 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 230
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxbufSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxbufSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374052 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374052, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxbufSpi
%take impl MsgoutUbxMonRxbufSpi
%derive struct MsgoutUbxMonRxbufSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxbufSpi::KEY
        ensures r.0 == 0x209101a4,
%constfn MsgoutUbxMonRxbufSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxbufSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a4, (self.0 as int)),
%start MsgoutUbxMonRxbufSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxbufSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 231 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 231
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxbufUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxbufUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374049 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374049, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxbufUart1
%take impl MsgoutUbxMonRxbufUart1
%derive struct MsgoutUbxMonRxbufUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxbufUart1::KEY
        ensures r.0 == 0x209101a1,
%constfn MsgoutUbxMonRxbufUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxbufUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a1, (self.0 as int)),
%start MsgoutUbxMonRxbufUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxbufUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 232 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 232
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxbufUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxbufUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374050 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374050, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxbufUart2
%take impl MsgoutUbxMonRxbufUart2
%derive struct MsgoutUbxMonRxbufUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxbufUart2::KEY
        ensures r.0 == 0x209101a2,
%constfn MsgoutUbxMonRxbufUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxbufUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a2, (self.0 as int)),
%start MsgoutUbxMonRxbufUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxbufUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 233 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 233
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxbufUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxbufUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxbufUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374051 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374051, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxbufUsb
%take impl MsgoutUbxMonRxbufUsb
%derive struct MsgoutUbxMonRxbufUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxbufUsb::KEY
        ensures r.0 == 0x209101a3,
%constfn MsgoutUbxMonRxbufUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxbufUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209101a3, (self.0 as int)),
%start MsgoutUbxMonRxbufUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxbufUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 234 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 234
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxrI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxrI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374023 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374023, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxrI2c
%take impl MsgoutUbxMonRxrI2c
%derive struct MsgoutUbxMonRxrI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxrI2c::KEY
        ensures r.0 == 0x20910187,
%constfn MsgoutUbxMonRxrI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxrI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910187, (self.0 as int)),
%start MsgoutUbxMonRxrI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxrI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 235 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 235
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxrSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxrSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374027 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374027, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxrSpi
%take impl MsgoutUbxMonRxrSpi
%derive struct MsgoutUbxMonRxrSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxrSpi::KEY
        ensures r.0 == 0x2091018b,
%constfn MsgoutUbxMonRxrSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxrSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091018b, (self.0 as int)),
%start MsgoutUbxMonRxrSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxrSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 236 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 236
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxrUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxrUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374024 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374024, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxrUart1
%take impl MsgoutUbxMonRxrUart1
%derive struct MsgoutUbxMonRxrUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxrUart1::KEY
        ensures r.0 == 0x20910188,
%constfn MsgoutUbxMonRxrUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxrUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910188, (self.0 as int)),
%start MsgoutUbxMonRxrUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxrUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 237 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 237
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxrUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxrUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374025 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374025, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxrUart2
%take impl MsgoutUbxMonRxrUart2
%derive struct MsgoutUbxMonRxrUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxrUart2::KEY
        ensures r.0 == 0x20910189,
%constfn MsgoutUbxMonRxrUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxrUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910189, (self.0 as int)),
%start MsgoutUbxMonRxrUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxrUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 238 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 238
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonRxrUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonRxrUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonRxrUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374026 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374026, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonRxrUsb
%take impl MsgoutUbxMonRxrUsb
%derive struct MsgoutUbxMonRxrUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonRxrUsb::KEY
        ensures r.0 == 0x2091018a,
%constfn MsgoutUbxMonRxrUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonRxrUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091018a, (self.0 as int)),
%start MsgoutUbxMonRxrUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonRxrUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 239 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 239
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonTxbufI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonTxbufI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374043 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374043, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonTxbufI2c
%take impl MsgoutUbxMonTxbufI2c
%derive struct MsgoutUbxMonTxbufI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonTxbufI2c::KEY
        ensures r.0 == 0x2091019b,
%constfn MsgoutUbxMonTxbufI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxMonTxbufI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019b, (self.0 as int)),
%start MsgoutUbxMonTxbufI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonTxbufI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 240 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 240
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonTxbufSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonTxbufSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374047 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374047, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonTxbufSpi
%take impl MsgoutUbxMonTxbufSpi
%derive struct MsgoutUbxMonTxbufSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonTxbufSpi::KEY
        ensures r.0 == 0x2091019f,
%constfn MsgoutUbxMonTxbufSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxMonTxbufSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019f, (self.0 as int)),
%start MsgoutUbxMonTxbufSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonTxbufSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 241 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 241
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonTxbufUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonTxbufUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374044 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374044, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonTxbufUart1
%take impl MsgoutUbxMonTxbufUart1
%derive struct MsgoutUbxMonTxbufUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonTxbufUart1::KEY
        ensures r.0 == 0x2091019c,
%constfn MsgoutUbxMonTxbufUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxMonTxbufUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019c, (self.0 as int)),
%start MsgoutUbxMonTxbufUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonTxbufUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 242 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 242
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonTxbufUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonTxbufUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374045 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374045, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonTxbufUart2
%take impl MsgoutUbxMonTxbufUart2
%derive struct MsgoutUbxMonTxbufUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonTxbufUart2::KEY
        ensures r.0 == 0x2091019d,
%constfn MsgoutUbxMonTxbufUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxMonTxbufUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019d, (self.0 as int)),
%start MsgoutUbxMonTxbufUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonTxbufUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 243 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 243
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxMonTxbufUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxMonTxbufUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxMonTxbufUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374046 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374046, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxMonTxbufUsb
%take impl MsgoutUbxMonTxbufUsb
%derive struct MsgoutUbxMonTxbufUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxMonTxbufUsb::KEY
        ensures r.0 == 0x2091019e,
%constfn MsgoutUbxMonTxbufUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxMonTxbufUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091019e, (self.0 as int)),
%start MsgoutUbxMonTxbufUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxMonTxbufUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 244 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 244
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavClockI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavClockI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373733 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373733, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavClockI2c
%take impl MsgoutUbxNavClockI2c
%derive struct MsgoutUbxNavClockI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavClockI2c::KEY
        ensures r.0 == 0x20910065,
%constfn MsgoutUbxNavClockI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavClockI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910065, (self.0 as int)),
%start MsgoutUbxNavClockI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavClockI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 245 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 245
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavClockSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavClockSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373737 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373737, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavClockSpi
%take impl MsgoutUbxNavClockSpi
%derive struct MsgoutUbxNavClockSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavClockSpi::KEY
        ensures r.0 == 0x20910069,
%constfn MsgoutUbxNavClockSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavClockSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910069, (self.0 as int)),
%start MsgoutUbxNavClockSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavClockSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 246 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 246
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavClockUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavClockUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373734 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373734, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavClockUart1
%take impl MsgoutUbxNavClockUart1
%derive struct MsgoutUbxNavClockUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavClockUart1::KEY
        ensures r.0 == 0x20910066,
%constfn MsgoutUbxNavClockUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavClockUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910066, (self.0 as int)),
%start MsgoutUbxNavClockUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavClockUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 247 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 247
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavClockUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavClockUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373735 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373735, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavClockUart2
%take impl MsgoutUbxNavClockUart2
%derive struct MsgoutUbxNavClockUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavClockUart2::KEY
        ensures r.0 == 0x20910067,
%constfn MsgoutUbxNavClockUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavClockUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910067, (self.0 as int)),
%start MsgoutUbxNavClockUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavClockUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 248 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 248
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavClockUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavClockUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavClockUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373736 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373736, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavClockUsb
%take impl MsgoutUbxNavClockUsb
%derive struct MsgoutUbxNavClockUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavClockUsb::KEY
        ensures r.0 == 0x20910068,
%constfn MsgoutUbxNavClockUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavClockUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910068, (self.0 as int)),
%start MsgoutUbxNavClockUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavClockUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 249 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 249
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavDopI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavDopI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373688 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373688, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavDopI2c
%take impl MsgoutUbxNavDopI2c
%derive struct MsgoutUbxNavDopI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavDopI2c::KEY
        ensures r.0 == 0x20910038,
%constfn MsgoutUbxNavDopI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavDopI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910038, (self.0 as int)),
%start MsgoutUbxNavDopI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavDopI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 250 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 250
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavDopSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavDopSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373692 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373692, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavDopSpi
%take impl MsgoutUbxNavDopSpi
%derive struct MsgoutUbxNavDopSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavDopSpi::KEY
        ensures r.0 == 0x2091003c,
%constfn MsgoutUbxNavDopSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavDopSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003c, (self.0 as int)),
%start MsgoutUbxNavDopSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavDopSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 251 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 251
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavDopUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavDopUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373689 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373689, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavDopUart1
%take impl MsgoutUbxNavDopUart1
%derive struct MsgoutUbxNavDopUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavDopUart1::KEY
        ensures r.0 == 0x20910039,
%constfn MsgoutUbxNavDopUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavDopUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910039, (self.0 as int)),
%start MsgoutUbxNavDopUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavDopUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 252 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 252
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavDopUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavDopUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373690 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373690, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavDopUart2
%take impl MsgoutUbxNavDopUart2
%derive struct MsgoutUbxNavDopUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavDopUart2::KEY
        ensures r.0 == 0x2091003a,
%constfn MsgoutUbxNavDopUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavDopUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003a, (self.0 as int)),
%start MsgoutUbxNavDopUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavDopUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 253 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 253
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavDopUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavDopUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavDopUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373691 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373691, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavDopUsb
%take impl MsgoutUbxNavDopUsb
%derive struct MsgoutUbxNavDopUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavDopUsb::KEY
        ensures r.0 == 0x2091003b,
%constfn MsgoutUbxNavDopUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavDopUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003b, (self.0 as int)),
%start MsgoutUbxNavDopUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavDopUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 254 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 254
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavEoeI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavEoeI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373983 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373983, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavEoeI2c
%take impl MsgoutUbxNavEoeI2c
%derive struct MsgoutUbxNavEoeI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavEoeI2c::KEY
        ensures r.0 == 0x2091015f,
%constfn MsgoutUbxNavEoeI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavEoeI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091015f, (self.0 as int)),
%start MsgoutUbxNavEoeI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavEoeI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 255 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 255
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavEoeSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavEoeSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373987 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373987, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavEoeSpi
%take impl MsgoutUbxNavEoeSpi
%derive struct MsgoutUbxNavEoeSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavEoeSpi::KEY
        ensures r.0 == 0x20910163,
%constfn MsgoutUbxNavEoeSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavEoeSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910163, (self.0 as int)),
%start MsgoutUbxNavEoeSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavEoeSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 256 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 256
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavEoeUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavEoeUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373984 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373984, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavEoeUart1
%take impl MsgoutUbxNavEoeUart1
%derive struct MsgoutUbxNavEoeUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavEoeUart1::KEY
        ensures r.0 == 0x20910160,
%constfn MsgoutUbxNavEoeUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavEoeUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910160, (self.0 as int)),
%start MsgoutUbxNavEoeUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavEoeUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 257 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 257
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavEoeUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavEoeUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373985 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373985, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavEoeUart2
%take impl MsgoutUbxNavEoeUart2
%derive struct MsgoutUbxNavEoeUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavEoeUart2::KEY
        ensures r.0 == 0x20910161,
%constfn MsgoutUbxNavEoeUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavEoeUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910161, (self.0 as int)),
%start MsgoutUbxNavEoeUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavEoeUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 258 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 258
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavEoeUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavEoeUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavEoeUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373986 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373986, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavEoeUsb
%take impl MsgoutUbxNavEoeUsb
%derive struct MsgoutUbxNavEoeUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavEoeUsb::KEY
        ensures r.0 == 0x20910162,
%constfn MsgoutUbxNavEoeUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavEoeUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910162, (self.0 as int)),
%start MsgoutUbxNavEoeUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavEoeUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 259 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 259
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavGeofenceI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavGeofenceI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373793 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373793, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavGeofenceI2c
%take impl MsgoutUbxNavGeofenceI2c
%derive struct MsgoutUbxNavGeofenceI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavGeofenceI2c::KEY
        ensures r.0 == 0x209100a1,
%constfn MsgoutUbxNavGeofenceI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavGeofenceI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a1, (self.0 as int)),
%start MsgoutUbxNavGeofenceI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavGeofenceI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 260 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 260
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavGeofenceSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavGeofenceSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373797 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373797, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavGeofenceSpi
%take impl MsgoutUbxNavGeofenceSpi
%derive struct MsgoutUbxNavGeofenceSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavGeofenceSpi::KEY
        ensures r.0 == 0x209100a5,
%constfn MsgoutUbxNavGeofenceSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavGeofenceSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a5, (self.0 as int)),
%start MsgoutUbxNavGeofenceSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavGeofenceSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 261 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 261
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavGeofenceUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavGeofenceUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373794 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373794, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavGeofenceUart1
%take impl MsgoutUbxNavGeofenceUart1
%derive struct MsgoutUbxNavGeofenceUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavGeofenceUart1::KEY
        ensures r.0 == 0x209100a2,
%constfn MsgoutUbxNavGeofenceUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavGeofenceUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a2, (self.0 as int)),
%start MsgoutUbxNavGeofenceUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavGeofenceUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 262 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 262
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavGeofenceUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavGeofenceUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373795 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373795, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavGeofenceUart2
%take impl MsgoutUbxNavGeofenceUart2
%derive struct MsgoutUbxNavGeofenceUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavGeofenceUart2::KEY
        ensures r.0 == 0x209100a3,
%constfn MsgoutUbxNavGeofenceUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavGeofenceUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a3, (self.0 as int)),
%start MsgoutUbxNavGeofenceUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavGeofenceUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 263 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 263
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavGeofenceUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavGeofenceUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavGeofenceUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373796 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373796, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavGeofenceUsb
%take impl MsgoutUbxNavGeofenceUsb
%derive struct MsgoutUbxNavGeofenceUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavGeofenceUsb::KEY
        ensures r.0 == 0x209100a4,
%constfn MsgoutUbxNavGeofenceUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavGeofenceUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209100a4, (self.0 as int)),
%start MsgoutUbxNavGeofenceUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavGeofenceUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 264 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 264
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosEcefI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosEcefI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373678 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373678, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosEcefI2c
%take impl MsgoutUbxNavHpPosEcefI2c
%derive struct MsgoutUbxNavHpPosEcefI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosEcefI2c::KEY
        ensures r.0 == 0x2091002e,
%constfn MsgoutUbxNavHpPosEcefI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosEcefI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002e, (self.0 as int)),
%start MsgoutUbxNavHpPosEcefI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosEcefI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 265 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 265
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosEcefSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosEcefSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373682 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373682, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosEcefSpi
%take impl MsgoutUbxNavHpPosEcefSpi
%derive struct MsgoutUbxNavHpPosEcefSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosEcefSpi::KEY
        ensures r.0 == 0x20910032,
%constfn MsgoutUbxNavHpPosEcefSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosEcefSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910032, (self.0 as int)),
%start MsgoutUbxNavHpPosEcefSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosEcefSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 266 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 266
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosEcefUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosEcefUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373679 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373679, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosEcefUart1
%take impl MsgoutUbxNavHpPosEcefUart1
%derive struct MsgoutUbxNavHpPosEcefUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosEcefUart1::KEY
        ensures r.0 == 0x2091002f,
%constfn MsgoutUbxNavHpPosEcefUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosEcefUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002f, (self.0 as int)),
%start MsgoutUbxNavHpPosEcefUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosEcefUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 267 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 267
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosEcefUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosEcefUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373680 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373680, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosEcefUart2
%take impl MsgoutUbxNavHpPosEcefUart2
%derive struct MsgoutUbxNavHpPosEcefUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosEcefUart2::KEY
        ensures r.0 == 0x20910030,
%constfn MsgoutUbxNavHpPosEcefUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosEcefUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910030, (self.0 as int)),
%start MsgoutUbxNavHpPosEcefUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosEcefUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 268 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 268
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosEcefUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosEcefUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosEcefUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373681 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373681, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosEcefUsb
%take impl MsgoutUbxNavHpPosEcefUsb
%derive struct MsgoutUbxNavHpPosEcefUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosEcefUsb::KEY
        ensures r.0 == 0x20910031,
%constfn MsgoutUbxNavHpPosEcefUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosEcefUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910031, (self.0 as int)),
%start MsgoutUbxNavHpPosEcefUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosEcefUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 269 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 269
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosllhI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosllhI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373683 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373683, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosllhI2c
%take impl MsgoutUbxNavHpPosllhI2c
%derive struct MsgoutUbxNavHpPosllhI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosllhI2c::KEY
        ensures r.0 == 0x20910033,
%constfn MsgoutUbxNavHpPosllhI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosllhI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910033, (self.0 as int)),
%start MsgoutUbxNavHpPosllhI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosllhI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 270 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 270
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosllhSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosllhSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373687 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373687, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosllhSpi
%take impl MsgoutUbxNavHpPosllhSpi
%derive struct MsgoutUbxNavHpPosllhSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosllhSpi::KEY
        ensures r.0 == 0x20910037,
%constfn MsgoutUbxNavHpPosllhSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosllhSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910037, (self.0 as int)),
%start MsgoutUbxNavHpPosllhSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosllhSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 271 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 271
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosllhUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosllhUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373684 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373684, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosllhUart1
%take impl MsgoutUbxNavHpPosllhUart1
%derive struct MsgoutUbxNavHpPosllhUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosllhUart1::KEY
        ensures r.0 == 0x20910034,
%constfn MsgoutUbxNavHpPosllhUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosllhUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910034, (self.0 as int)),
%start MsgoutUbxNavHpPosllhUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosllhUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 272 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 272
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosllhUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosllhUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373685 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373685, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosllhUart2
%take impl MsgoutUbxNavHpPosllhUart2
%derive struct MsgoutUbxNavHpPosllhUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosllhUart2::KEY
        ensures r.0 == 0x20910035,
%constfn MsgoutUbxNavHpPosllhUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosllhUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910035, (self.0 as int)),
%start MsgoutUbxNavHpPosllhUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosllhUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 273 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 273
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavHpPosllhUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavHpPosllhUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavHpPosllhUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373686 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373686, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavHpPosllhUsb
%take impl MsgoutUbxNavHpPosllhUsb
%derive struct MsgoutUbxNavHpPosllhUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavHpPosllhUsb::KEY
        ensures r.0 == 0x20910036,
%constfn MsgoutUbxNavHpPosllhUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavHpPosllhUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910036, (self.0 as int)),
%start MsgoutUbxNavHpPosllhUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavHpPosllhUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 274 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 274
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOdoI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOdoI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373758 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373758, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOdoI2c
%take impl MsgoutUbxNavOdoI2c
%derive struct MsgoutUbxNavOdoI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOdoI2c::KEY
        ensures r.0 == 0x2091007e,
%constfn MsgoutUbxNavOdoI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOdoI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091007e, (self.0 as int)),
%start MsgoutUbxNavOdoI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOdoI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 275 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 275
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOdoSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOdoSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373762 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373762, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOdoSpi
%take impl MsgoutUbxNavOdoSpi
%derive struct MsgoutUbxNavOdoSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOdoSpi::KEY
        ensures r.0 == 0x20910082,
%constfn MsgoutUbxNavOdoSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOdoSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910082, (self.0 as int)),
%start MsgoutUbxNavOdoSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOdoSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 276 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 276
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOdoUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOdoUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373759 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373759, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOdoUart1
%take impl MsgoutUbxNavOdoUart1
%derive struct MsgoutUbxNavOdoUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOdoUart1::KEY
        ensures r.0 == 0x2091007f,
%constfn MsgoutUbxNavOdoUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOdoUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091007f, (self.0 as int)),
%start MsgoutUbxNavOdoUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOdoUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 277 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 277
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOdoUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOdoUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373760 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373760, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOdoUart2
%take impl MsgoutUbxNavOdoUart2
%derive struct MsgoutUbxNavOdoUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOdoUart2::KEY
        ensures r.0 == 0x20910080,
%constfn MsgoutUbxNavOdoUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOdoUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910080, (self.0 as int)),
%start MsgoutUbxNavOdoUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOdoUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 278 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 278
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOdoUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOdoUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOdoUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373761 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373761, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOdoUsb
%take impl MsgoutUbxNavOdoUsb
%derive struct MsgoutUbxNavOdoUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOdoUsb::KEY
        ensures r.0 == 0x20910081,
%constfn MsgoutUbxNavOdoUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOdoUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910081, (self.0 as int)),
%start MsgoutUbxNavOdoUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOdoUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 279 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 279
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOrbI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOrbI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373648 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373648, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOrbI2c
%take impl MsgoutUbxNavOrbI2c
%derive struct MsgoutUbxNavOrbI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOrbI2c::KEY
        ensures r.0 == 0x20910010,
%constfn MsgoutUbxNavOrbI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOrbI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910010, (self.0 as int)),
%start MsgoutUbxNavOrbI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOrbI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 280 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 280
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOrbSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOrbSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373652 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373652, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOrbSpi
%take impl MsgoutUbxNavOrbSpi
%derive struct MsgoutUbxNavOrbSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOrbSpi::KEY
        ensures r.0 == 0x20910014,
%constfn MsgoutUbxNavOrbSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOrbSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910014, (self.0 as int)),
%start MsgoutUbxNavOrbSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOrbSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 281 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 281
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOrbUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOrbUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373649 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373649, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOrbUart1
%take impl MsgoutUbxNavOrbUart1
%derive struct MsgoutUbxNavOrbUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOrbUart1::KEY
        ensures r.0 == 0x20910011,
%constfn MsgoutUbxNavOrbUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOrbUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910011, (self.0 as int)),
%start MsgoutUbxNavOrbUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOrbUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 282 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 282
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOrbUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOrbUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373650 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373650, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOrbUart2
%take impl MsgoutUbxNavOrbUart2
%derive struct MsgoutUbxNavOrbUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOrbUart2::KEY
        ensures r.0 == 0x20910012,
%constfn MsgoutUbxNavOrbUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOrbUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910012, (self.0 as int)),
%start MsgoutUbxNavOrbUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOrbUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 283 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 283
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavOrbUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavOrbUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavOrbUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373651 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373651, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavOrbUsb
%take impl MsgoutUbxNavOrbUsb
%derive struct MsgoutUbxNavOrbUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavOrbUsb::KEY
        ensures r.0 == 0x20910013,
%constfn MsgoutUbxNavOrbUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavOrbUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910013, (self.0 as int)),
%start MsgoutUbxNavOrbUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavOrbUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 284 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 284
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosEcefI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosEcefI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373668 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373668, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosEcefI2c
%take impl MsgoutUbxNavPosEcefI2c
%derive struct MsgoutUbxNavPosEcefI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosEcefI2c::KEY
        ensures r.0 == 0x20910024,
%constfn MsgoutUbxNavPosEcefI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosEcefI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910024, (self.0 as int)),
%start MsgoutUbxNavPosEcefI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosEcefI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 285 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 285
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosEcefSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosEcefSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373672 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373672, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosEcefSpi
%take impl MsgoutUbxNavPosEcefSpi
%derive struct MsgoutUbxNavPosEcefSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosEcefSpi::KEY
        ensures r.0 == 0x20910028,
%constfn MsgoutUbxNavPosEcefSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosEcefSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910028, (self.0 as int)),
%start MsgoutUbxNavPosEcefSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosEcefSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 286 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 286
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosEcefUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosEcefUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373669 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373669, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosEcefUart1
%take impl MsgoutUbxNavPosEcefUart1
%derive struct MsgoutUbxNavPosEcefUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosEcefUart1::KEY
        ensures r.0 == 0x20910025,
%constfn MsgoutUbxNavPosEcefUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosEcefUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910025, (self.0 as int)),
%start MsgoutUbxNavPosEcefUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosEcefUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 287 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 287
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosEcefUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosEcefUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373670 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373670, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosEcefUart2
%take impl MsgoutUbxNavPosEcefUart2
%derive struct MsgoutUbxNavPosEcefUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosEcefUart2::KEY
        ensures r.0 == 0x20910026,
%constfn MsgoutUbxNavPosEcefUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosEcefUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910026, (self.0 as int)),
%start MsgoutUbxNavPosEcefUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosEcefUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 288 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 288
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosEcefUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosEcefUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosEcefUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373671 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373671, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosEcefUsb
%take impl MsgoutUbxNavPosEcefUsb
%derive struct MsgoutUbxNavPosEcefUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosEcefUsb::KEY
        ensures r.0 == 0x20910027,
%constfn MsgoutUbxNavPosEcefUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosEcefUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910027, (self.0 as int)),
%start MsgoutUbxNavPosEcefUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosEcefUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 289 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 289
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosLlhI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosLlhI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373673 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373673, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosLlhI2c
%take impl MsgoutUbxNavPosLlhI2c
%derive struct MsgoutUbxNavPosLlhI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosLlhI2c::KEY
        ensures r.0 == 0x20910029,
%constfn MsgoutUbxNavPosLlhI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosLlhI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910029, (self.0 as int)),
%start MsgoutUbxNavPosLlhI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosLlhI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 290 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 290
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosLlhSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosLlhSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373677 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373677, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosLlhSpi
%take impl MsgoutUbxNavPosLlhSpi
%derive struct MsgoutUbxNavPosLlhSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosLlhSpi::KEY
        ensures r.0 == 0x2091002d,
%constfn MsgoutUbxNavPosLlhSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosLlhSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002d, (self.0 as int)),
%start MsgoutUbxNavPosLlhSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosLlhSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 291 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 291
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosLlhUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosLlhUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373674 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373674, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosLlhUart1
%take impl MsgoutUbxNavPosLlhUart1
%derive struct MsgoutUbxNavPosLlhUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosLlhUart1::KEY
        ensures r.0 == 0x2091002a,
%constfn MsgoutUbxNavPosLlhUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosLlhUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002a, (self.0 as int)),
%start MsgoutUbxNavPosLlhUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosLlhUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 292 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 292
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosLlhUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosLlhUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373675 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373675, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosLlhUart2
%take impl MsgoutUbxNavPosLlhUart2
%derive struct MsgoutUbxNavPosLlhUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosLlhUart2::KEY
        ensures r.0 == 0x2091002b,
%constfn MsgoutUbxNavPosLlhUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosLlhUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002b, (self.0 as int)),
%start MsgoutUbxNavPosLlhUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosLlhUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 293 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 293
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPosLlhUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPosLlhUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPosLlhUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373676 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373676, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPosLlhUsb
%take impl MsgoutUbxNavPosLlhUsb
%derive struct MsgoutUbxNavPosLlhUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPosLlhUsb::KEY
        ensures r.0 == 0x2091002c,
%constfn MsgoutUbxNavPosLlhUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPosLlhUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091002c, (self.0 as int)),
%start MsgoutUbxNavPosLlhUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPosLlhUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 294 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 294
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPvtI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPvtI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373638 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373638, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPvtI2c
%take impl MsgoutUbxNavPvtI2c
%derive struct MsgoutUbxNavPvtI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPvtI2c::KEY
        ensures r.0 == 0x20910006,
%constfn MsgoutUbxNavPvtI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPvtI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910006, (self.0 as int)),
%start MsgoutUbxNavPvtI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPvtI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 295 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 295
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPvtSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPvtSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373642 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373642, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPvtSpi
%take impl MsgoutUbxNavPvtSpi
%derive struct MsgoutUbxNavPvtSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPvtSpi::KEY
        ensures r.0 == 0x2091000a,
%constfn MsgoutUbxNavPvtSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPvtSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091000a, (self.0 as int)),
%start MsgoutUbxNavPvtSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPvtSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 296 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 296
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPvtUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPvtUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373639 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373639, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPvtUart1
%take impl MsgoutUbxNavPvtUart1
%derive struct MsgoutUbxNavPvtUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPvtUart1::KEY
        ensures r.0 == 0x20910007,
%constfn MsgoutUbxNavPvtUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPvtUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910007, (self.0 as int)),
%start MsgoutUbxNavPvtUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPvtUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 297 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 297
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPvtUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPvtUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373640 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373640, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPvtUart2
%take impl MsgoutUbxNavPvtUart2
%derive struct MsgoutUbxNavPvtUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPvtUart2::KEY
        ensures r.0 == 0x20910008,
%constfn MsgoutUbxNavPvtUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPvtUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910008, (self.0 as int)),
%start MsgoutUbxNavPvtUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPvtUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 298 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 298
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavPvtUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavPvtUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavPvtUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373641 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373641, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavPvtUsb
%take impl MsgoutUbxNavPvtUsb
%derive struct MsgoutUbxNavPvtUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavPvtUsb::KEY
        ensures r.0 == 0x20910009,
%constfn MsgoutUbxNavPvtUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavPvtUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910009, (self.0 as int)),
%start MsgoutUbxNavPvtUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavPvtUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 299 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 299
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavRelposnedI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavRelposnedI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373773 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373773, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavRelposnedI2c
%take impl MsgoutUbxNavRelposnedI2c
%derive struct MsgoutUbxNavRelposnedI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavRelposnedI2c::KEY
        ensures r.0 == 0x2091008d,
%constfn MsgoutUbxNavRelposnedI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavRelposnedI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008d, (self.0 as int)),
%start MsgoutUbxNavRelposnedI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavRelposnedI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 300 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 300
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavRelposnedSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavRelposnedSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373777 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373777, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavRelposnedSpi
%take impl MsgoutUbxNavRelposnedSpi
%derive struct MsgoutUbxNavRelposnedSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavRelposnedSpi::KEY
        ensures r.0 == 0x20910091,
%constfn MsgoutUbxNavRelposnedSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavRelposnedSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910091, (self.0 as int)),
%start MsgoutUbxNavRelposnedSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavRelposnedSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 301 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 301
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavRelposnedUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavRelposnedUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373774 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373774, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavRelposnedUart1
%take impl MsgoutUbxNavRelposnedUart1
%derive struct MsgoutUbxNavRelposnedUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavRelposnedUart1::KEY
        ensures r.0 == 0x2091008e,
%constfn MsgoutUbxNavRelposnedUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavRelposnedUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008e, (self.0 as int)),
%start MsgoutUbxNavRelposnedUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavRelposnedUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 302 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 302
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavRelposnedUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavRelposnedUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373775 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373775, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavRelposnedUart2
%take impl MsgoutUbxNavRelposnedUart2
%derive struct MsgoutUbxNavRelposnedUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavRelposnedUart2::KEY
        ensures r.0 == 0x2091008f,
%constfn MsgoutUbxNavRelposnedUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavRelposnedUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008f, (self.0 as int)),
%start MsgoutUbxNavRelposnedUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavRelposnedUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 303 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 303
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavRelposnedUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavRelposnedUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavRelposnedUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373776 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373776, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavRelposnedUsb
%take impl MsgoutUbxNavRelposnedUsb
%derive struct MsgoutUbxNavRelposnedUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavRelposnedUsb::KEY
        ensures r.0 == 0x20910090,
%constfn MsgoutUbxNavRelposnedUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavRelposnedUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910090, (self.0 as int)),
%start MsgoutUbxNavRelposnedUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavRelposnedUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 304 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 304
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSatI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSatI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373653 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373653, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSatI2c
%take impl MsgoutUbxNavSatI2c
%derive struct MsgoutUbxNavSatI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSatI2c::KEY
        ensures r.0 == 0x20910015,
%constfn MsgoutUbxNavSatI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSatI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910015, (self.0 as int)),
%start MsgoutUbxNavSatI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSatI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 305 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 305
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSatSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSatSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373657 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373657, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSatSpi
%take impl MsgoutUbxNavSatSpi
%derive struct MsgoutUbxNavSatSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSatSpi::KEY
        ensures r.0 == 0x20910019,
%constfn MsgoutUbxNavSatSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSatSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910019, (self.0 as int)),
%start MsgoutUbxNavSatSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSatSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 306 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 306
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSatUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSatUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373654 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373654, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSatUart1
%take impl MsgoutUbxNavSatUart1
%derive struct MsgoutUbxNavSatUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSatUart1::KEY
        ensures r.0 == 0x20910016,
%constfn MsgoutUbxNavSatUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSatUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910016, (self.0 as int)),
%start MsgoutUbxNavSatUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSatUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 307 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 307
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSatUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSatUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373655 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373655, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSatUart2
%take impl MsgoutUbxNavSatUart2
%derive struct MsgoutUbxNavSatUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSatUart2::KEY
        ensures r.0 == 0x20910017,
%constfn MsgoutUbxNavSatUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSatUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910017, (self.0 as int)),
%start MsgoutUbxNavSatUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSatUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 308 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 308
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSatUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSatUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSatUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373656 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373656, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSatUsb
%take impl MsgoutUbxNavSatUsb
%derive struct MsgoutUbxNavSatUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSatUsb::KEY
        ensures r.0 == 0x20910018,
%constfn MsgoutUbxNavSatUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSatUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910018, (self.0 as int)),
%start MsgoutUbxNavSatUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSatUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 309 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 309
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSigI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSigI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374469 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374469, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSigI2c
%take impl MsgoutUbxNavSigI2c
%derive struct MsgoutUbxNavSigI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSigI2c::KEY
        ensures r.0 == 0x20910345,
%constfn MsgoutUbxNavSigI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSigI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910345, (self.0 as int)),
%start MsgoutUbxNavSigI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSigI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 310 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 310
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSigSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSigSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374473 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374473, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSigSpi
%take impl MsgoutUbxNavSigSpi
%derive struct MsgoutUbxNavSigSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSigSpi::KEY
        ensures r.0 == 0x20910349,
%constfn MsgoutUbxNavSigSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSigSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910349, (self.0 as int)),
%start MsgoutUbxNavSigSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSigSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 311 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 311
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSigUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSigUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374470 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374470, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSigUart1
%take impl MsgoutUbxNavSigUart1
%derive struct MsgoutUbxNavSigUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSigUart1::KEY
        ensures r.0 == 0x20910346,
%constfn MsgoutUbxNavSigUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSigUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910346, (self.0 as int)),
%start MsgoutUbxNavSigUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSigUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 312 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 312
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSigUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSigUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374471 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374471, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSigUart2
%take impl MsgoutUbxNavSigUart2
%derive struct MsgoutUbxNavSigUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSigUart2::KEY
        ensures r.0 == 0x20910347,
%constfn MsgoutUbxNavSigUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSigUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910347, (self.0 as int)),
%start MsgoutUbxNavSigUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSigUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 313 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 313
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSigUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSigUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSigUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374472 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374472, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSigUsb
%take impl MsgoutUbxNavSigUsb
%derive struct MsgoutUbxNavSigUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSigUsb::KEY
        ensures r.0 == 0x20910348,
%constfn MsgoutUbxNavSigUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSigUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910348, (self.0 as int)),
%start MsgoutUbxNavSigUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSigUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 314 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 314
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavStatusI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavStatusI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373658 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373658, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavStatusI2c
%take impl MsgoutUbxNavStatusI2c
%derive struct MsgoutUbxNavStatusI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavStatusI2c::KEY
        ensures r.0 == 0x2091001a,
%constfn MsgoutUbxNavStatusI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavStatusI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091001a, (self.0 as int)),
%start MsgoutUbxNavStatusI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavStatusI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 315 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 315
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavStatusSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavStatusSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373662 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373662, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavStatusSpi
%take impl MsgoutUbxNavStatusSpi
%derive struct MsgoutUbxNavStatusSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavStatusSpi::KEY
        ensures r.0 == 0x2091001e,
%constfn MsgoutUbxNavStatusSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavStatusSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091001e, (self.0 as int)),
%start MsgoutUbxNavStatusSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavStatusSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 316 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 316
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavStatusUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavStatusUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373659 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373659, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavStatusUart1
%take impl MsgoutUbxNavStatusUart1
%derive struct MsgoutUbxNavStatusUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavStatusUart1::KEY
        ensures r.0 == 0x2091001b,
%constfn MsgoutUbxNavStatusUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavStatusUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091001b, (self.0 as int)),
%start MsgoutUbxNavStatusUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavStatusUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 317 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 317
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavStatusUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavStatusUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373660 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373660, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavStatusUart2
%take impl MsgoutUbxNavStatusUart2
%derive struct MsgoutUbxNavStatusUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavStatusUart2::KEY
        ensures r.0 == 0x2091001c,
%constfn MsgoutUbxNavStatusUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavStatusUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091001c, (self.0 as int)),
%start MsgoutUbxNavStatusUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavStatusUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 318 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 318
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavStatusUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavStatusUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavStatusUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373661 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373661, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavStatusUsb
%take impl MsgoutUbxNavStatusUsb
%derive struct MsgoutUbxNavStatusUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavStatusUsb::KEY
        ensures r.0 == 0x2091001d,
%constfn MsgoutUbxNavStatusUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavStatusUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091001d, (self.0 as int)),
%start MsgoutUbxNavStatusUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavStatusUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 319 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 319
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSvinI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSvinI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373768 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373768, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSvinI2c
%take impl MsgoutUbxNavSvinI2c
%derive struct MsgoutUbxNavSvinI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSvinI2c::KEY
        ensures r.0 == 0x20910088,
%constfn MsgoutUbxNavSvinI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSvinI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910088, (self.0 as int)),
%start MsgoutUbxNavSvinI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSvinI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 320 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 320
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSvinSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSvinSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373772 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373772, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSvinSpi
%take impl MsgoutUbxNavSvinSpi
%derive struct MsgoutUbxNavSvinSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSvinSpi::KEY
        ensures r.0 == 0x2091008c,
%constfn MsgoutUbxNavSvinSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSvinSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008c, (self.0 as int)),
%start MsgoutUbxNavSvinSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSvinSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 321 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 321
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSvinUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSvinUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373769 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373769, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSvinUart1
%take impl MsgoutUbxNavSvinUart1
%derive struct MsgoutUbxNavSvinUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSvinUart1::KEY
        ensures r.0 == 0x20910089,
%constfn MsgoutUbxNavSvinUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSvinUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910089, (self.0 as int)),
%start MsgoutUbxNavSvinUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSvinUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 322 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 322
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSvinUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSvinUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373770 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373770, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSvinUart2
%take impl MsgoutUbxNavSvinUart2
%derive struct MsgoutUbxNavSvinUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSvinUart2::KEY
        ensures r.0 == 0x2091008a,
%constfn MsgoutUbxNavSvinUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSvinUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008a, (self.0 as int)),
%start MsgoutUbxNavSvinUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSvinUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 323 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 323
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavSvinUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavSvinUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavSvinUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373771 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373771, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavSvinUsb
%take impl MsgoutUbxNavSvinUsb
%derive struct MsgoutUbxNavSvinUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavSvinUsb::KEY
        ensures r.0 == 0x2091008b,
%constfn MsgoutUbxNavSvinUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavSvinUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091008b, (self.0 as int)),
%start MsgoutUbxNavSvinUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavSvinUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 324 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 324
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeBdsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeBdsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373713 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373713, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeBdsI2c
%take impl MsgoutUbxNavTimeBdsI2c
%derive struct MsgoutUbxNavTimeBdsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeBdsI2c::KEY
        ensures r.0 == 0x20910051,
%constfn MsgoutUbxNavTimeBdsI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeBdsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910051, (self.0 as int)),
%start MsgoutUbxNavTimeBdsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeBdsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 325 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 325
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeBdsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeBdsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373717 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373717, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeBdsSpi
%take impl MsgoutUbxNavTimeBdsSpi
%derive struct MsgoutUbxNavTimeBdsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeBdsSpi::KEY
        ensures r.0 == 0x20910055,
%constfn MsgoutUbxNavTimeBdsSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeBdsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910055, (self.0 as int)),
%start MsgoutUbxNavTimeBdsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeBdsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 326 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 326
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeBdsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeBdsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373714 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373714, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeBdsUart1
%take impl MsgoutUbxNavTimeBdsUart1
%derive struct MsgoutUbxNavTimeBdsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeBdsUart1::KEY
        ensures r.0 == 0x20910052,
%constfn MsgoutUbxNavTimeBdsUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeBdsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910052, (self.0 as int)),
%start MsgoutUbxNavTimeBdsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeBdsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 327 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 327
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeBdsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeBdsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373715 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373715, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeBdsUart2
%take impl MsgoutUbxNavTimeBdsUart2
%derive struct MsgoutUbxNavTimeBdsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeBdsUart2::KEY
        ensures r.0 == 0x20910053,
%constfn MsgoutUbxNavTimeBdsUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeBdsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910053, (self.0 as int)),
%start MsgoutUbxNavTimeBdsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeBdsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 328 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 328
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeBdsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeBdsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeBdsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373716 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373716, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeBdsUsb
%take impl MsgoutUbxNavTimeBdsUsb
%derive struct MsgoutUbxNavTimeBdsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeBdsUsb::KEY
        ensures r.0 == 0x20910054,
%constfn MsgoutUbxNavTimeBdsUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeBdsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910054, (self.0 as int)),
%start MsgoutUbxNavTimeBdsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeBdsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 329 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 329
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGalI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGalI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373718 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373718, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGalI2c
%take impl MsgoutUbxNavTimeGalI2c
%derive struct MsgoutUbxNavTimeGalI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGalI2c::KEY
        ensures r.0 == 0x20910056,
%constfn MsgoutUbxNavTimeGalI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGalI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910056, (self.0 as int)),
%start MsgoutUbxNavTimeGalI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGalI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 330 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 330
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGalSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGalSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373722 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373722, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGalSpi
%take impl MsgoutUbxNavTimeGalSpi
%derive struct MsgoutUbxNavTimeGalSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGalSpi::KEY
        ensures r.0 == 0x2091005a,
%constfn MsgoutUbxNavTimeGalSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGalSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005a, (self.0 as int)),
%start MsgoutUbxNavTimeGalSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGalSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 331 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 331
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGalUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGalUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373719 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373719, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGalUart1
%take impl MsgoutUbxNavTimeGalUart1
%derive struct MsgoutUbxNavTimeGalUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGalUart1::KEY
        ensures r.0 == 0x20910057,
%constfn MsgoutUbxNavTimeGalUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGalUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910057, (self.0 as int)),
%start MsgoutUbxNavTimeGalUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGalUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 332 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 332
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGalUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGalUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373720 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373720, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGalUart2
%take impl MsgoutUbxNavTimeGalUart2
%derive struct MsgoutUbxNavTimeGalUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGalUart2::KEY
        ensures r.0 == 0x20910058,
%constfn MsgoutUbxNavTimeGalUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGalUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910058, (self.0 as int)),
%start MsgoutUbxNavTimeGalUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGalUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 333 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 333
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGalUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGalUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGalUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373721 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373721, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGalUsb
%take impl MsgoutUbxNavTimeGalUsb
%derive struct MsgoutUbxNavTimeGalUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGalUsb::KEY
        ensures r.0 == 0x20910059,
%constfn MsgoutUbxNavTimeGalUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGalUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910059, (self.0 as int)),
%start MsgoutUbxNavTimeGalUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGalUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 334 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 334
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGloI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGloI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373708 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373708, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGloI2c
%take impl MsgoutUbxNavTimeGloI2c
%derive struct MsgoutUbxNavTimeGloI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGloI2c::KEY
        ensures r.0 == 0x2091004c,
%constfn MsgoutUbxNavTimeGloI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGloI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004c, (self.0 as int)),
%start MsgoutUbxNavTimeGloI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGloI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 335 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 335
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGloSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGloSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373712 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373712, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGloSpi
%take impl MsgoutUbxNavTimeGloSpi
%derive struct MsgoutUbxNavTimeGloSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGloSpi::KEY
        ensures r.0 == 0x20910050,
%constfn MsgoutUbxNavTimeGloSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGloSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910050, (self.0 as int)),
%start MsgoutUbxNavTimeGloSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGloSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 336 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 336
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGloUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGloUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373709 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373709, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGloUart1
%take impl MsgoutUbxNavTimeGloUart1
%derive struct MsgoutUbxNavTimeGloUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGloUart1::KEY
        ensures r.0 == 0x2091004d,
%constfn MsgoutUbxNavTimeGloUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGloUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004d, (self.0 as int)),
%start MsgoutUbxNavTimeGloUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGloUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 337 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 337
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGloUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGloUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373710 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373710, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGloUart2
%take impl MsgoutUbxNavTimeGloUart2
%derive struct MsgoutUbxNavTimeGloUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGloUart2::KEY
        ensures r.0 == 0x2091004e,
%constfn MsgoutUbxNavTimeGloUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGloUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004e, (self.0 as int)),
%start MsgoutUbxNavTimeGloUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGloUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 338 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 338
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGloUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGloUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGloUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373711 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373711, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGloUsb
%take impl MsgoutUbxNavTimeGloUsb
%derive struct MsgoutUbxNavTimeGloUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGloUsb::KEY
        ensures r.0 == 0x2091004f,
%constfn MsgoutUbxNavTimeGloUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGloUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004f, (self.0 as int)),
%start MsgoutUbxNavTimeGloUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGloUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 339 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 339
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGpsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGpsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373703 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373703, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGpsI2c
%take impl MsgoutUbxNavTimeGpsI2c
%derive struct MsgoutUbxNavTimeGpsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGpsI2c::KEY
        ensures r.0 == 0x20910047,
%constfn MsgoutUbxNavTimeGpsI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGpsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910047, (self.0 as int)),
%start MsgoutUbxNavTimeGpsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGpsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 340 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 340
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGpsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGpsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373707 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373707, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGpsSpi
%take impl MsgoutUbxNavTimeGpsSpi
%derive struct MsgoutUbxNavTimeGpsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGpsSpi::KEY
        ensures r.0 == 0x2091004b,
%constfn MsgoutUbxNavTimeGpsSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGpsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004b, (self.0 as int)),
%start MsgoutUbxNavTimeGpsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGpsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 341 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 341
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGpsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGpsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373704 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373704, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGpsUart1
%take impl MsgoutUbxNavTimeGpsUart1
%derive struct MsgoutUbxNavTimeGpsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGpsUart1::KEY
        ensures r.0 == 0x20910048,
%constfn MsgoutUbxNavTimeGpsUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGpsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910048, (self.0 as int)),
%start MsgoutUbxNavTimeGpsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGpsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 342 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 342
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGpsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGpsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373705 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373705, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGpsUart2
%take impl MsgoutUbxNavTimeGpsUart2
%derive struct MsgoutUbxNavTimeGpsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGpsUart2::KEY
        ensures r.0 == 0x20910049,
%constfn MsgoutUbxNavTimeGpsUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGpsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910049, (self.0 as int)),
%start MsgoutUbxNavTimeGpsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGpsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 343 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 343
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeGpsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeGpsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeGpsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373706 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373706, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeGpsUsb
%take impl MsgoutUbxNavTimeGpsUsb
%derive struct MsgoutUbxNavTimeGpsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeGpsUsb::KEY
        ensures r.0 == 0x2091004a,
%constfn MsgoutUbxNavTimeGpsUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeGpsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091004a, (self.0 as int)),
%start MsgoutUbxNavTimeGpsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeGpsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 344 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 344
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeLsI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeLsI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373728 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373728, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeLsI2c
%take impl MsgoutUbxNavTimeLsI2c
%derive struct MsgoutUbxNavTimeLsI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeLsI2c::KEY
        ensures r.0 == 0x20910060,
%constfn MsgoutUbxNavTimeLsI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeLsI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910060, (self.0 as int)),
%start MsgoutUbxNavTimeLsI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeLsI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 345 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 345
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeLsSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeLsSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373732 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373732, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeLsSpi
%take impl MsgoutUbxNavTimeLsSpi
%derive struct MsgoutUbxNavTimeLsSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeLsSpi::KEY
        ensures r.0 == 0x20910064,
%constfn MsgoutUbxNavTimeLsSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeLsSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910064, (self.0 as int)),
%start MsgoutUbxNavTimeLsSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeLsSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 346 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 346
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeLsUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeLsUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373729 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373729, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeLsUart1
%take impl MsgoutUbxNavTimeLsUart1
%derive struct MsgoutUbxNavTimeLsUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeLsUart1::KEY
        ensures r.0 == 0x20910061,
%constfn MsgoutUbxNavTimeLsUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeLsUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910061, (self.0 as int)),
%start MsgoutUbxNavTimeLsUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeLsUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 347 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 347
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeLsUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeLsUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373730 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373730, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeLsUart2
%take impl MsgoutUbxNavTimeLsUart2
%derive struct MsgoutUbxNavTimeLsUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeLsUart2::KEY
        ensures r.0 == 0x20910062,
%constfn MsgoutUbxNavTimeLsUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeLsUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910062, (self.0 as int)),
%start MsgoutUbxNavTimeLsUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeLsUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 348 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 348
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeLsUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeLsUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeLsUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373731 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373731, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeLsUsb
%take impl MsgoutUbxNavTimeLsUsb
%derive struct MsgoutUbxNavTimeLsUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeLsUsb::KEY
        ensures r.0 == 0x20910063,
%constfn MsgoutUbxNavTimeLsUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeLsUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910063, (self.0 as int)),
%start MsgoutUbxNavTimeLsUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeLsUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 349 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 349
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeUtcI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeUtcI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373723 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373723, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeUtcI2c
%take impl MsgoutUbxNavTimeUtcI2c
%derive struct MsgoutUbxNavTimeUtcI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeUtcI2c::KEY
        ensures r.0 == 0x2091005b,
%constfn MsgoutUbxNavTimeUtcI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeUtcI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005b, (self.0 as int)),
%start MsgoutUbxNavTimeUtcI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeUtcI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 350 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 350
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeUtcSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeUtcSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373727 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373727, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeUtcSpi
%take impl MsgoutUbxNavTimeUtcSpi
%derive struct MsgoutUbxNavTimeUtcSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeUtcSpi::KEY
        ensures r.0 == 0x2091005f,
%constfn MsgoutUbxNavTimeUtcSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeUtcSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005f, (self.0 as int)),
%start MsgoutUbxNavTimeUtcSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeUtcSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 351 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 351
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeUtcUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeUtcUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373724 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373724, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeUtcUart1
%take impl MsgoutUbxNavTimeUtcUart1
%derive struct MsgoutUbxNavTimeUtcUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeUtcUart1::KEY
        ensures r.0 == 0x2091005c,
%constfn MsgoutUbxNavTimeUtcUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeUtcUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005c, (self.0 as int)),
%start MsgoutUbxNavTimeUtcUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeUtcUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 352 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 352
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeUtcUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeUtcUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373725 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373725, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeUtcUart2
%take impl MsgoutUbxNavTimeUtcUart2
%derive struct MsgoutUbxNavTimeUtcUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeUtcUart2::KEY
        ensures r.0 == 0x2091005d,
%constfn MsgoutUbxNavTimeUtcUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeUtcUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005d, (self.0 as int)),
%start MsgoutUbxNavTimeUtcUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeUtcUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 353 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 353
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavTimeUtcUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavTimeUtcUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavTimeUtcUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373726 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373726, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavTimeUtcUsb
%take impl MsgoutUbxNavTimeUtcUsb
%derive struct MsgoutUbxNavTimeUtcUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavTimeUtcUsb::KEY
        ensures r.0 == 0x2091005e,
%constfn MsgoutUbxNavTimeUtcUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavTimeUtcUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091005e, (self.0 as int)),
%start MsgoutUbxNavTimeUtcUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavTimeUtcUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 354 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 354
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelEcefI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelEcefI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373693 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373693, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelEcefI2c
%take impl MsgoutUbxNavVelEcefI2c
%derive struct MsgoutUbxNavVelEcefI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelEcefI2c::KEY
        ensures r.0 == 0x2091003d,
%constfn MsgoutUbxNavVelEcefI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelEcefI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003d, (self.0 as int)),
%start MsgoutUbxNavVelEcefI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelEcefI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 355 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 355
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelEcefSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelEcefSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373697 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373697, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelEcefSpi
%take impl MsgoutUbxNavVelEcefSpi
%derive struct MsgoutUbxNavVelEcefSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelEcefSpi::KEY
        ensures r.0 == 0x20910041,
%constfn MsgoutUbxNavVelEcefSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelEcefSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910041, (self.0 as int)),
%start MsgoutUbxNavVelEcefSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelEcefSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 356 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 356
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelEcefUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelEcefUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373694 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373694, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelEcefUart1
%take impl MsgoutUbxNavVelEcefUart1
%derive struct MsgoutUbxNavVelEcefUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelEcefUart1::KEY
        ensures r.0 == 0x2091003e,
%constfn MsgoutUbxNavVelEcefUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelEcefUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003e, (self.0 as int)),
%start MsgoutUbxNavVelEcefUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelEcefUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 357 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 357
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelEcefUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelEcefUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373695 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373695, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelEcefUart2
%take impl MsgoutUbxNavVelEcefUart2
%derive struct MsgoutUbxNavVelEcefUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelEcefUart2::KEY
        ensures r.0 == 0x2091003f,
%constfn MsgoutUbxNavVelEcefUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelEcefUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091003f, (self.0 as int)),
%start MsgoutUbxNavVelEcefUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelEcefUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 358 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 358
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelEcefUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelEcefUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelEcefUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373696 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373696, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelEcefUsb
%take impl MsgoutUbxNavVelEcefUsb
%derive struct MsgoutUbxNavVelEcefUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelEcefUsb::KEY
        ensures r.0 == 0x20910040,
%constfn MsgoutUbxNavVelEcefUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelEcefUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910040, (self.0 as int)),
%start MsgoutUbxNavVelEcefUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelEcefUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 359 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 359
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelNedI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelNedI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373698 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373698, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelNedI2c
%take impl MsgoutUbxNavVelNedI2c
%derive struct MsgoutUbxNavVelNedI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelNedI2c::KEY
        ensures r.0 == 0x20910042,
%constfn MsgoutUbxNavVelNedI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelNedI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910042, (self.0 as int)),
%start MsgoutUbxNavVelNedI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelNedI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 360 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 360
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelNedSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelNedSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373702 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373702, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelNedSpi
%take impl MsgoutUbxNavVelNedSpi
%derive struct MsgoutUbxNavVelNedSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelNedSpi::KEY
        ensures r.0 == 0x20910046,
%constfn MsgoutUbxNavVelNedSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelNedSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910046, (self.0 as int)),
%start MsgoutUbxNavVelNedSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelNedSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 361 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 361
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelNedUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelNedUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373699 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373699, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelNedUart1
%take impl MsgoutUbxNavVelNedUart1
%derive struct MsgoutUbxNavVelNedUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelNedUart1::KEY
        ensures r.0 == 0x20910043,
%constfn MsgoutUbxNavVelNedUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelNedUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910043, (self.0 as int)),
%start MsgoutUbxNavVelNedUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelNedUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 362 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 362
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelNedUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelNedUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373700 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373700, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelNedUart2
%take impl MsgoutUbxNavVelNedUart2
%derive struct MsgoutUbxNavVelNedUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelNedUart2::KEY
        ensures r.0 == 0x20910044,
%constfn MsgoutUbxNavVelNedUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelNedUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910044, (self.0 as int)),
%start MsgoutUbxNavVelNedUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelNedUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 363 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 363
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxNavVelNedUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxNavVelNedUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxNavVelNedUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373701 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373701, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxNavVelNedUsb
%take impl MsgoutUbxNavVelNedUsb
%derive struct MsgoutUbxNavVelNedUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxNavVelNedUsb::KEY
        ensures r.0 == 0x20910045,
%constfn MsgoutUbxNavVelNedUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxNavVelNedUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910045, (self.0 as int)),
%start MsgoutUbxNavVelNedUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxNavVelNedUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 364 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 364
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmMeasxI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmMeasxI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374148 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374148, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmMeasxI2c
%take impl MsgoutUbxRxmMeasxI2c
%derive struct MsgoutUbxRxmMeasxI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmMeasxI2c::KEY
        ensures r.0 == 0x20910204,
%constfn MsgoutUbxRxmMeasxI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmMeasxI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910204, (self.0 as int)),
%start MsgoutUbxRxmMeasxI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmMeasxI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 365 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 365
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmMeasxSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmMeasxSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374152 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374152, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmMeasxSpi
%take impl MsgoutUbxRxmMeasxSpi
%derive struct MsgoutUbxRxmMeasxSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmMeasxSpi::KEY
        ensures r.0 == 0x20910208,
%constfn MsgoutUbxRxmMeasxSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmMeasxSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910208, (self.0 as int)),
%start MsgoutUbxRxmMeasxSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmMeasxSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 366 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 366
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmMeasxUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmMeasxUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374149 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374149, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmMeasxUart1
%take impl MsgoutUbxRxmMeasxUart1
%derive struct MsgoutUbxRxmMeasxUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmMeasxUart1::KEY
        ensures r.0 == 0x20910205,
%constfn MsgoutUbxRxmMeasxUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmMeasxUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910205, (self.0 as int)),
%start MsgoutUbxRxmMeasxUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmMeasxUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 367 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 367
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmMeasxUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmMeasxUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374150 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374150, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmMeasxUart2
%take impl MsgoutUbxRxmMeasxUart2
%derive struct MsgoutUbxRxmMeasxUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmMeasxUart2::KEY
        ensures r.0 == 0x20910206,
%constfn MsgoutUbxRxmMeasxUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmMeasxUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910206, (self.0 as int)),
%start MsgoutUbxRxmMeasxUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmMeasxUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 368 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 368
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmMeasxUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmMeasxUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmMeasxUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374151 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374151, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmMeasxUsb
%take impl MsgoutUbxRxmMeasxUsb
%derive struct MsgoutUbxRxmMeasxUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmMeasxUsb::KEY
        ensures r.0 == 0x20910207,
%constfn MsgoutUbxRxmMeasxUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmMeasxUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910207, (self.0 as int)),
%start MsgoutUbxRxmMeasxUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmMeasxUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 369 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 369
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRawxI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRawxI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374308 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374308, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRawxI2c
%take impl MsgoutUbxRxmRawxI2c
%derive struct MsgoutUbxRxmRawxI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRawxI2c::KEY
        ensures r.0 == 0x209102a4,
%constfn MsgoutUbxRxmRawxI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRawxI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102a4, (self.0 as int)),
%start MsgoutUbxRxmRawxI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRawxI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 370 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 370
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRawxSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRawxSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374312 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374312, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRawxSpi
%take impl MsgoutUbxRxmRawxSpi
%derive struct MsgoutUbxRxmRawxSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRawxSpi::KEY
        ensures r.0 == 0x209102a8,
%constfn MsgoutUbxRxmRawxSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRawxSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102a8, (self.0 as int)),
%start MsgoutUbxRxmRawxSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRawxSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 371 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 371
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRawxUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRawxUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374309 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374309, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRawxUart1
%take impl MsgoutUbxRxmRawxUart1
%derive struct MsgoutUbxRxmRawxUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRawxUart1::KEY
        ensures r.0 == 0x209102a5,
%constfn MsgoutUbxRxmRawxUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRawxUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102a5, (self.0 as int)),
%start MsgoutUbxRxmRawxUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRawxUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 372 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 372
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRawxUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRawxUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374310 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374310, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRawxUart2
%take impl MsgoutUbxRxmRawxUart2
%derive struct MsgoutUbxRxmRawxUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRawxUart2::KEY
        ensures r.0 == 0x209102a6,
%constfn MsgoutUbxRxmRawxUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRawxUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102a6, (self.0 as int)),
%start MsgoutUbxRxmRawxUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRawxUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 373 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 373
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRawxUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRawxUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRawxUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374311 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374311, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRawxUsb
%take impl MsgoutUbxRxmRawxUsb
%derive struct MsgoutUbxRxmRawxUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRawxUsb::KEY
        ensures r.0 == 0x209102a7,
%constfn MsgoutUbxRxmRawxUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRawxUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x209102a7, (self.0 as int)),
%start MsgoutUbxRxmRawxUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRawxUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 374 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 374
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRlmI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRlmI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374238 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374238, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRlmI2c
%take impl MsgoutUbxRxmRlmI2c
%derive struct MsgoutUbxRxmRlmI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRlmI2c::KEY
        ensures r.0 == 0x2091025e,
%constfn MsgoutUbxRxmRlmI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRlmI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025e, (self.0 as int)),
%start MsgoutUbxRxmRlmI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRlmI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 375 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 375
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRlmSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRlmSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374242 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374242, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRlmSpi
%take impl MsgoutUbxRxmRlmSpi
%derive struct MsgoutUbxRxmRlmSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRlmSpi::KEY
        ensures r.0 == 0x20910262,
%constfn MsgoutUbxRxmRlmSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRlmSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910262, (self.0 as int)),
%start MsgoutUbxRxmRlmSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRlmSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 376 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 376
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRlmUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRlmUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374239 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374239, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRlmUart1
%take impl MsgoutUbxRxmRlmUart1
%derive struct MsgoutUbxRxmRlmUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRlmUart1::KEY
        ensures r.0 == 0x2091025f,
%constfn MsgoutUbxRxmRlmUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRlmUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091025f, (self.0 as int)),
%start MsgoutUbxRxmRlmUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRlmUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 377 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 377
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRlmUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRlmUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374240 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374240, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRlmUart2
%take impl MsgoutUbxRxmRlmUart2
%derive struct MsgoutUbxRxmRlmUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRlmUart2::KEY
        ensures r.0 == 0x20910260,
%constfn MsgoutUbxRxmRlmUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRlmUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910260, (self.0 as int)),
%start MsgoutUbxRxmRlmUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRlmUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 378 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 378
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRlmUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRlmUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRlmUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374241 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374241, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRlmUsb
%take impl MsgoutUbxRxmRlmUsb
%derive struct MsgoutUbxRxmRlmUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRlmUsb::KEY
        ensures r.0 == 0x20910261,
%constfn MsgoutUbxRxmRlmUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRlmUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910261, (self.0 as int)),
%start MsgoutUbxRxmRlmUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRlmUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 379 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 379
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRtcmI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRtcmI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374248 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374248, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRtcmI2c
%take impl MsgoutUbxRxmRtcmI2c
%derive struct MsgoutUbxRxmRtcmI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRtcmI2c::KEY
        ensures r.0 == 0x20910268,
%constfn MsgoutUbxRxmRtcmI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRtcmI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910268, (self.0 as int)),
%start MsgoutUbxRxmRtcmI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRtcmI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 380 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 380
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRtcmSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRtcmSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374252 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374252, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRtcmSpi
%take impl MsgoutUbxRxmRtcmSpi
%derive struct MsgoutUbxRxmRtcmSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRtcmSpi::KEY
        ensures r.0 == 0x2091026c,
%constfn MsgoutUbxRxmRtcmSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRtcmSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091026c, (self.0 as int)),
%start MsgoutUbxRxmRtcmSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRtcmSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 381 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 381
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRtcmUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRtcmUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374249 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374249, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRtcmUart1
%take impl MsgoutUbxRxmRtcmUart1
%derive struct MsgoutUbxRxmRtcmUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRtcmUart1::KEY
        ensures r.0 == 0x20910269,
%constfn MsgoutUbxRxmRtcmUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRtcmUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910269, (self.0 as int)),
%start MsgoutUbxRxmRtcmUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRtcmUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 382 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 382
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRtcmUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRtcmUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374250 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374250, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRtcmUart2
%take impl MsgoutUbxRxmRtcmUart2
%derive struct MsgoutUbxRxmRtcmUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRtcmUart2::KEY
        ensures r.0 == 0x2091026a,
%constfn MsgoutUbxRxmRtcmUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRtcmUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091026a, (self.0 as int)),
%start MsgoutUbxRxmRtcmUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRtcmUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 383 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 383
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmRtcmUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmRtcmUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmRtcmUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374251 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374251, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmRtcmUsb
%take impl MsgoutUbxRxmRtcmUsb
%derive struct MsgoutUbxRxmRtcmUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmRtcmUsb::KEY
        ensures r.0 == 0x2091026b,
%constfn MsgoutUbxRxmRtcmUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmRtcmUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091026b, (self.0 as int)),
%start MsgoutUbxRxmRtcmUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmRtcmUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 384 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 384
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmSfrbxI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmSfrbxI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374193 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374193, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmSfrbxI2c
%take impl MsgoutUbxRxmSfrbxI2c
%derive struct MsgoutUbxRxmSfrbxI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmSfrbxI2c::KEY
        ensures r.0 == 0x20910231,
%constfn MsgoutUbxRxmSfrbxI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmSfrbxI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910231, (self.0 as int)),
%start MsgoutUbxRxmSfrbxI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmSfrbxI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 385 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 385
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmSfrbxSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmSfrbxSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374197 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374197, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmSfrbxSpi
%take impl MsgoutUbxRxmSfrbxSpi
%derive struct MsgoutUbxRxmSfrbxSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmSfrbxSpi::KEY
        ensures r.0 == 0x20910235,
%constfn MsgoutUbxRxmSfrbxSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmSfrbxSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910235, (self.0 as int)),
%start MsgoutUbxRxmSfrbxSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmSfrbxSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 386 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 386
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmSfrbxUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmSfrbxUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374194 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374194, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmSfrbxUart1
%take impl MsgoutUbxRxmSfrbxUart1
%derive struct MsgoutUbxRxmSfrbxUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmSfrbxUart1::KEY
        ensures r.0 == 0x20910232,
%constfn MsgoutUbxRxmSfrbxUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmSfrbxUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910232, (self.0 as int)),
%start MsgoutUbxRxmSfrbxUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmSfrbxUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 387 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 387
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmSfrbxUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmSfrbxUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374195 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374195, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmSfrbxUart2
%take impl MsgoutUbxRxmSfrbxUart2
%derive struct MsgoutUbxRxmSfrbxUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmSfrbxUart2::KEY
        ensures r.0 == 0x20910233,
%constfn MsgoutUbxRxmSfrbxUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmSfrbxUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910233, (self.0 as int)),
%start MsgoutUbxRxmSfrbxUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmSfrbxUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 388 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 388
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxRxmSfrbxUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxRxmSfrbxUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxRxmSfrbxUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374196 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374196, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxRxmSfrbxUsb
%take impl MsgoutUbxRxmSfrbxUsb
%derive struct MsgoutUbxRxmSfrbxUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxRxmSfrbxUsb::KEY
        ensures r.0 == 0x20910234,
%constfn MsgoutUbxRxmSfrbxUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxRxmSfrbxUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910234, (self.0 as int)),
%start MsgoutUbxRxmSfrbxUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxRxmSfrbxUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 389 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 389
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTm2I2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2I2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTm2I2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2I2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374008 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374008, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTm2I2c
%take impl MsgoutUbxTimTm2I2c
%derive struct MsgoutUbxTimTm2I2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTm2I2c::KEY
        ensures r.0 == 0x20910178,
%constfn MsgoutUbxTimTm2I2c::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTm2I2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910178, (self.0 as int)),
%start MsgoutUbxTimTm2I2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTm2I2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 390 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 390
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTm2Spi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Spi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTm2Spi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Spi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374012 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374012, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTm2Spi
%take impl MsgoutUbxTimTm2Spi
%derive struct MsgoutUbxTimTm2Spi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTm2Spi::KEY
        ensures r.0 == 0x2091017c,
%constfn MsgoutUbxTimTm2Spi::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTm2Spi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017c, (self.0 as int)),
%start MsgoutUbxTimTm2Spi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTm2Spi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 391 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 391
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTm2Uart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Uart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTm2Uart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Uart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374009 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374009, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTm2Uart1
%take impl MsgoutUbxTimTm2Uart1
%derive struct MsgoutUbxTimTm2Uart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTm2Uart1::KEY
        ensures r.0 == 0x20910179,
%constfn MsgoutUbxTimTm2Uart1::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTm2Uart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910179, (self.0 as int)),
%start MsgoutUbxTimTm2Uart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTm2Uart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 392 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 392
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTm2Uart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Uart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTm2Uart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Uart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374010 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374010, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTm2Uart2
%take impl MsgoutUbxTimTm2Uart2
%derive struct MsgoutUbxTimTm2Uart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTm2Uart2::KEY
        ensures r.0 == 0x2091017a,
%constfn MsgoutUbxTimTm2Uart2::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTm2Uart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017a, (self.0 as int)),
%start MsgoutUbxTimTm2Uart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTm2Uart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 393 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 393
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTm2Usb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Usb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTm2Usb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTm2Usb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374011 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374011, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTm2Usb
%take impl MsgoutUbxTimTm2Usb
%derive struct MsgoutUbxTimTm2Usb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTm2Usb::KEY
        ensures r.0 == 0x2091017b,
%constfn MsgoutUbxTimTm2Usb::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTm2Usb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017b, (self.0 as int)),
%start MsgoutUbxTimTm2Usb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTm2Usb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 394 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 394
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTpI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTpI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374013 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374013, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTpI2c
%take impl MsgoutUbxTimTpI2c
%derive struct MsgoutUbxTimTpI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTpI2c::KEY
        ensures r.0 == 0x2091017d,
%constfn MsgoutUbxTimTpI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTpI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017d, (self.0 as int)),
%start MsgoutUbxTimTpI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTpI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 395 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 395
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTpSpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpSpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTpSpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpSpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374017 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374017, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTpSpi
%take impl MsgoutUbxTimTpSpi
%derive struct MsgoutUbxTimTpSpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTpSpi::KEY
        ensures r.0 == 0x20910181,
%constfn MsgoutUbxTimTpSpi::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTpSpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910181, (self.0 as int)),
%start MsgoutUbxTimTpSpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTpSpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 396 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 396
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTpUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTpUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374014 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374014, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTpUart1
%take impl MsgoutUbxTimTpUart1
%derive struct MsgoutUbxTimTpUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTpUart1::KEY
        ensures r.0 == 0x2091017e,
%constfn MsgoutUbxTimTpUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTpUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017e, (self.0 as int)),
%start MsgoutUbxTimTpUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTpUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 397 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 397
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTpUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTpUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374015 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374015, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTpUart2
%take impl MsgoutUbxTimTpUart2
%derive struct MsgoutUbxTimTpUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTpUart2::KEY
        ensures r.0 == 0x2091017f,
%constfn MsgoutUbxTimTpUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTpUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2091017f, (self.0 as int)),
%start MsgoutUbxTimTpUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTpUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 398 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 398
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimTpUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimTpUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimTpUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546374016 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546374016, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimTpUsb
%take impl MsgoutUbxTimTpUsb
%derive struct MsgoutUbxTimTpUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimTpUsb::KEY
        ensures r.0 == 0x20910180,
%constfn MsgoutUbxTimTpUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxTimTpUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910180, (self.0 as int)),
%start MsgoutUbxTimTpUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimTpUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 399 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 399
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimVrfyI2c | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyI2c(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimVrfyI2c | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyI2c(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373778 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373778, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimVrfyI2c
%take impl MsgoutUbxTimVrfyI2c
%derive struct MsgoutUbxTimVrfyI2c :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimVrfyI2c::KEY
        ensures r.0 == 0x20910092,
%constfn MsgoutUbxTimVrfyI2c::SIZE
        ensures r == 5,
%fn MsgoutUbxTimVrfyI2c::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910092, (self.0 as int)),
%start MsgoutUbxTimVrfyI2c::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimVrfyI2c::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 400 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 400
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimVrfySpi | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfySpi(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimVrfySpi | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfySpi(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373782 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373782, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimVrfySpi
%take impl MsgoutUbxTimVrfySpi
%derive struct MsgoutUbxTimVrfySpi :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimVrfySpi::KEY
        ensures r.0 == 0x20910096,
%constfn MsgoutUbxTimVrfySpi::SIZE
        ensures r == 5,
%fn MsgoutUbxTimVrfySpi::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910096, (self.0 as int)),
%start MsgoutUbxTimVrfySpi::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimVrfySpi::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 401 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 401
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimVrfyUart1 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUart1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimVrfyUart1 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUart1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373779 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373779, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimVrfyUart1
%take impl MsgoutUbxTimVrfyUart1
%derive struct MsgoutUbxTimVrfyUart1 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimVrfyUart1::KEY
        ensures r.0 == 0x20910093,
%constfn MsgoutUbxTimVrfyUart1::SIZE
        ensures r == 5,
%fn MsgoutUbxTimVrfyUart1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910093, (self.0 as int)),
%start MsgoutUbxTimVrfyUart1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimVrfyUart1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 402 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 402
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimVrfyUart2 | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUart2(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimVrfyUart2 | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUart2(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373780 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373780, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimVrfyUart2
%take impl MsgoutUbxTimVrfyUart2
%derive struct MsgoutUbxTimVrfyUart2 :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimVrfyUart2::KEY
        ensures r.0 == 0x20910094,
%constfn MsgoutUbxTimVrfyUart2::SIZE
        ensures r == 5,
%fn MsgoutUbxTimVrfyUart2::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910094, (self.0 as int)),
%start MsgoutUbxTimVrfyUart2::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimVrfyUart2::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 403 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 403
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to MsgoutUbxTimVrfyUsb | self, value, buf
<T: Sink>(this: &Self, value: &u8, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUsb(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to MsgoutUbxTimVrfyUsb | self, value, buf
(this: &Self, value: &u8, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::MsgoutUbxTimVrfyUsb(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 546373781 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 546373781, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct MsgoutUbxTimVrfyUsb
%take impl MsgoutUbxTimVrfyUsb
%derive struct MsgoutUbxTimVrfyUsb :: #[derive(Clone, Copy)]
%constfn MsgoutUbxTimVrfyUsb::KEY
        ensures r.0 == 0x20910095,
%constfn MsgoutUbxTimVrfyUsb::SIZE
        ensures r == 5,
%fn MsgoutUbxTimVrfyUsb::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20910095, (self.0 as int)),
%start MsgoutUbxTimVrfyUsb::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst MsgoutUbxTimVrfyUsb::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 404 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 404
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGpsEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGpsEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGpsEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGpsEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646751 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646751, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGpsEna
%take impl SignalGpsEna
%derive struct SignalGpsEna :: #[derive(Clone, Copy)]
%constfn SignalGpsEna::KEY
        ensures r.0 == 0x1031001f,
%constfn SignalGpsEna::SIZE
        ensures r == 5,
%fn SignalGpsEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1031001f, b2i(self.0)),
%start SignalGpsEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGpsEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 405 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 405
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGpsL1caEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGpsL1caEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGpsL1caEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGpsL1caEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646721 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646721, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGpsL1caEna
%take impl SignalGpsL1caEna
%derive struct SignalGpsL1caEna :: #[derive(Clone, Copy)]
%constfn SignalGpsL1caEna::KEY
        ensures r.0 == 0x10310001,
%constfn SignalGpsL1caEna::SIZE
        ensures r == 5,
%fn SignalGpsL1caEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310001, b2i(self.0)),
%start SignalGpsL1caEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGpsL1caEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 406 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 406
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGpsL2cEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGpsL2cEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGpsL2cEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGpsL2cEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646723 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646723, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGpsL2cEna
%take impl SignalGpsL2cEna
%derive struct SignalGpsL2cEna :: #[derive(Clone, Copy)]
%constfn SignalGpsL2cEna::KEY
        ensures r.0 == 0x10310003,
%constfn SignalGpsL2cEna::SIZE
        ensures r == 5,
%fn SignalGpsL2cEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310003, b2i(self.0)),
%start SignalGpsL2cEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGpsL2cEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 407 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 407
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGalEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGalEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGalEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGalEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646753 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646753, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGalEna
%take impl SignalGalEna
%derive struct SignalGalEna :: #[derive(Clone, Copy)]
%constfn SignalGalEna::KEY
        ensures r.0 == 0x10310021,
%constfn SignalGalEna::SIZE
        ensures r == 5,
%fn SignalGalEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310021, b2i(self.0)),
%start SignalGalEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGalEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 408 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 408
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGalE1Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGalE1Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGalE1Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGalE1Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646727 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646727, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGalE1Ena
%take impl SignalGalE1Ena
%derive struct SignalGalE1Ena :: #[derive(Clone, Copy)]
%constfn SignalGalE1Ena::KEY
        ensures r.0 == 0x10310007,
%constfn SignalGalE1Ena::SIZE
        ensures r == 5,
%fn SignalGalE1Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310007, b2i(self.0)),
%start SignalGalE1Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGalE1Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 409 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 409
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGalE5bEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGalE5bEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGalE5bEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGalE5bEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646730 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646730, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGalE5bEna
%take impl SignalGalE5bEna
%derive struct SignalGalE5bEna :: #[derive(Clone, Copy)]
%constfn SignalGalE5bEna::KEY
        ensures r.0 == 0x1031000a,
%constfn SignalGalE5bEna::SIZE
        ensures r == 5,
%fn SignalGalE5bEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1031000a, b2i(self.0)),
%start SignalGalE5bEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGalE5bEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 410 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 410
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalBdsEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalBdsEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalBdsEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalBdsEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646754 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646754, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalBdsEna
%take impl SignalBdsEna
%derive struct SignalBdsEna :: #[derive(Clone, Copy)]
%constfn SignalBdsEna::KEY
        ensures r.0 == 0x10310022,
%constfn SignalBdsEna::SIZE
        ensures r == 5,
%fn SignalBdsEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310022, b2i(self.0)),
%start SignalBdsEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalBdsEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 411 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 411
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalBdsB1Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalBdsB1Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalBdsB1Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalBdsB1Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646733 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646733, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalBdsB1Ena
%take impl SignalBdsB1Ena
%derive struct SignalBdsB1Ena :: #[derive(Clone, Copy)]
%constfn SignalBdsB1Ena::KEY
        ensures r.0 == 0x1031000d,
%constfn SignalBdsB1Ena::SIZE
        ensures r == 5,
%fn SignalBdsB1Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1031000d, b2i(self.0)),
%start SignalBdsB1Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalBdsB1Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 412 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 412
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalBdsB2Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalBdsB2Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalBdsB2Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalBdsB2Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646734 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646734, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalBdsB2Ena
%take impl SignalBdsB2Ena
%derive struct SignalBdsB2Ena :: #[derive(Clone, Copy)]
%constfn SignalBdsB2Ena::KEY
        ensures r.0 == 0x1031000e,
%constfn SignalBdsB2Ena::SIZE
        ensures r == 5,
%fn SignalBdsB2Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1031000e, b2i(self.0)),
%start SignalBdsB2Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalBdsB2Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 413 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 413
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalQzssEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalQzssEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalQzssEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalQzssEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646756 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646756, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalQzssEna
%take impl SignalQzssEna
%derive struct SignalQzssEna :: #[derive(Clone, Copy)]
%constfn SignalQzssEna::KEY
        ensures r.0 == 0x10310024,
%constfn SignalQzssEna::SIZE
        ensures r == 5,
%fn SignalQzssEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310024, b2i(self.0)),
%start SignalQzssEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalQzssEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 414 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 414
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalQzssL1caEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalQzssL1caEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalQzssL1caEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalQzssL1caEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646738 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646738, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalQzssL1caEna
%take impl SignalQzssL1caEna
%derive struct SignalQzssL1caEna :: #[derive(Clone, Copy)]
%constfn SignalQzssL1caEna::KEY
        ensures r.0 == 0x10310012,
%constfn SignalQzssL1caEna::SIZE
        ensures r == 5,
%fn SignalQzssL1caEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310012, b2i(self.0)),
%start SignalQzssL1caEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalQzssL1caEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 415 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 415
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalQzssL2cEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalQzssL2cEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalQzssL2cEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalQzssL2cEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646741 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646741, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalQzssL2cEna
%take impl SignalQzssL2cEna
%derive struct SignalQzssL2cEna :: #[derive(Clone, Copy)]
%constfn SignalQzssL2cEna::KEY
        ensures r.0 == 0x10310015,
%constfn SignalQzssL2cEna::SIZE
        ensures r == 5,
%fn SignalQzssL2cEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310015, b2i(self.0)),
%start SignalQzssL2cEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalQzssL2cEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 416 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 416
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGloEna | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGloEna(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGloEna | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGloEna(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646757 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646757, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGloEna
%take impl SignalGloEna
%derive struct SignalGloEna :: #[derive(Clone, Copy)]
%constfn SignalGloEna::KEY
        ensures r.0 == 0x10310025,
%constfn SignalGloEna::SIZE
        ensures r == 5,
%fn SignalGloEna::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310025, b2i(self.0)),
%start SignalGloEna::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGloEna::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 417 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 417
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGloL1Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGloL1Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGloL1Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGloL1Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646744 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646744, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGloL1Ena
%take impl SignalGloL1Ena
%derive struct SignalGloL1Ena :: #[derive(Clone, Copy)]
%constfn SignalGloL1Ena::KEY
        ensures r.0 == 0x10310018,
%constfn SignalGloL1Ena::SIZE
        ensures r == 5,
%fn SignalGloL1Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10310018, b2i(self.0)),
%start SignalGloL1Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGloL1Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 418 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 418
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to SignalGLoL2Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::SignalGLoL2Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to SignalGLoL2Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::SignalGLoL2Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 271646746 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 271646746, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct SignalGLoL2Ena
%take impl SignalGLoL2Ena
%derive struct SignalGLoL2Ena :: #[derive(Clone, Copy)]
%constfn SignalGLoL2Ena::KEY
        ensures r.0 == 0x1031001a,
%constfn SignalGLoL2Ena::SIZE
        ensures r == 5,
%fn SignalGLoL2Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1031001a, b2i(self.0)),
%start SignalGLoL2Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst SignalGLoL2Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 419 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 419
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpPulseDef | self, value, buf
<T: Sink>(this: &Self, value: &TpPulse, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpPulseDef(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpPulseDef | self, value, buf
(this: &Self, value: &TpPulse, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpPulseDef(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 537198627 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 537198627, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpPulseDef
%take impl TpPulseDef
%derive struct TpPulseDef :: #[derive(Clone, Copy)]
%constfn TpPulseDef::KEY
        ensures r.0 == 0x20050023,
%constfn TpPulseDef::SIZE
        ensures r == 5,
%fn TpPulseDef::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20050023, TpPulse_item(self.0)),
%start TpPulseDef::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpPulseDef::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 420 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 420
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpPulseLengthDef | self, value, buf
<T: Sink>(this: &Self, value: &TpPulseLength, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpPulseLengthDef(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpPulseLengthDef | self, value, buf
(this: &Self, value: &TpPulseLength, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpPulseLengthDef(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 537198640 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 537198640, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpPulseLengthDef
%take impl TpPulseLengthDef
%derive struct TpPulseLengthDef :: #[derive(Clone, Copy)]
%constfn TpPulseLengthDef::KEY
        ensures r.0 == 0x20050030,
%constfn TpPulseLengthDef::SIZE
        ensures r == 5,
%fn TpPulseLengthDef::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x20050030, TpPulseLength_item(self.0)),
%start TpPulseLengthDef::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpPulseLengthDef::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 421 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 421
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpAntCableDelay | self, value, buf
<T: Sink>(this: &Self, value: &i16, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpAntCableDelay(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpAntCableDelay | self, value, buf
(this: &Self, value: &i16, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpAntCableDelay(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 805634049 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 805634049, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpAntCableDelay
%take impl TpAntCableDelay
%derive struct TpAntCableDelay :: #[derive(Clone, Copy)]
%constfn TpAntCableDelay::KEY
        ensures r.0 == 0x30050001,
%constfn TpAntCableDelay::SIZE
        ensures r == 6,
%fn TpAntCableDelay::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv2(0x30050001, us(self.0 as int, 0x8000)),
%start TpAntCableDelay::into_cfg_kv_bytes
        proof { reveal(kv2); }
%subst TpAntCableDelay::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 6]
%loop CfgVal::extend_to 422 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 422
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpPeriodTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpPeriodTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpPeriodTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpPeriodTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069506 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069506, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpPeriodTp1
%take impl TpPeriodTp1
%derive struct TpPeriodTp1 :: #[derive(Clone, Copy)]
%constfn TpPeriodTp1::KEY
        ensures r.0 == 0x40050002,
%constfn TpPeriodTp1::SIZE
        ensures r == 8,
%fn TpPeriodTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050002, (self.0 as int)),
%start TpPeriodTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpPeriodTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 423 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 423
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpPeriodLockTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpPeriodLockTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpPeriodLockTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpPeriodLockTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069507 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069507, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpPeriodLockTp1
%take impl TpPeriodLockTp1
%derive struct TpPeriodLockTp1 :: #[derive(Clone, Copy)]
%constfn TpPeriodLockTp1::KEY
        ensures r.0 == 0x40050003,
%constfn TpPeriodLockTp1::SIZE
        ensures r == 8,
%fn TpPeriodLockTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050003, (self.0 as int)),
%start TpPeriodLockTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpPeriodLockTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 424 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 424
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpFreqTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpFreqTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpFreqTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpFreqTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069540 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069540, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpFreqTp1
%take impl TpFreqTp1
%derive struct TpFreqTp1 :: #[derive(Clone, Copy)]
%constfn TpFreqTp1::KEY
        ensures r.0 == 0x40050024,
%constfn TpFreqTp1::SIZE
        ensures r == 8,
%fn TpFreqTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050024, (self.0 as int)),
%start TpFreqTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpFreqTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 425 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 425
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpFreqLockTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpFreqLockTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpFreqLockTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpFreqLockTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069541 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069541, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpFreqLockTp1
%take impl TpFreqLockTp1
%derive struct TpFreqLockTp1 :: #[derive(Clone, Copy)]
%constfn TpFreqLockTp1::KEY
        ensures r.0 == 0x40050025,
%constfn TpFreqLockTp1::SIZE
        ensures r == 8,
%fn TpFreqLockTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050025, (self.0 as int)),
%start TpFreqLockTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpFreqLockTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 426 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 426
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpLenTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpLenTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpLenTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpLenTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069508 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069508, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpLenTp1
%take impl TpLenTp1
%derive struct TpLenTp1 :: #[derive(Clone, Copy)]
%constfn TpLenTp1::KEY
        ensures r.0 == 0x40050004,
%constfn TpLenTp1::SIZE
        ensures r == 8,
%fn TpLenTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050004, (self.0 as int)),
%start TpLenTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpLenTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 427 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 427
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpLenLockTp1 | self, value, buf
<T: Sink>(this: &Self, value: &u32, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpLenLockTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpLenLockTp1 | self, value, buf
(this: &Self, value: &u32, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpLenLockTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 1074069509 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 1074069509, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpLenLockTp1
%take impl TpLenLockTp1
%derive struct TpLenLockTp1 :: #[derive(Clone, Copy)]
%constfn TpLenLockTp1::KEY
        ensures r.0 == 0x40050005,
%constfn TpLenLockTp1::SIZE
        ensures r == 8,
%fn TpLenLockTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv4(0x40050005, (self.0 as int)),
%start TpLenLockTp1::into_cfg_kv_bytes
        proof { reveal(kv4); }
%subst TpLenLockTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 8]
%loop CfgVal::extend_to 428 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 428
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpTp1Ena | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpTp1Ena(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpTp1Ena | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpTp1Ena(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 268763143 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 268763143, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpTp1Ena
%take impl TpTp1Ena
%derive struct TpTp1Ena :: #[derive(Clone, Copy)]
%constfn TpTp1Ena::KEY
        ensures r.0 == 0x10050007,
%constfn TpTp1Ena::SIZE
        ensures r == 5,
%fn TpTp1Ena::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10050007, b2i(self.0)),
%start TpTp1Ena::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpTp1Ena::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 429 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 429
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpSyncGnssTp1 | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpSyncGnssTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpSyncGnssTp1 | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpSyncGnssTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 268763144 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 268763144, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpSyncGnssTp1
%take impl TpSyncGnssTp1
%derive struct TpSyncGnssTp1 :: #[derive(Clone, Copy)]
%constfn TpSyncGnssTp1::KEY
        ensures r.0 == 0x10050008,
%constfn TpSyncGnssTp1::SIZE
        ensures r == 5,
%fn TpSyncGnssTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10050008, b2i(self.0)),
%start TpSyncGnssTp1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpSyncGnssTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 430 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 430
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpUseLockedTp1 | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpUseLockedTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpUseLockedTp1 | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpUseLockedTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 268763145 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 268763145, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpUseLockedTp1
%take impl TpUseLockedTp1
%derive struct TpUseLockedTp1 :: #[derive(Clone, Copy)]
%constfn TpUseLockedTp1::KEY
        ensures r.0 == 0x10050009,
%constfn TpUseLockedTp1::SIZE
        ensures r == 5,
%fn TpUseLockedTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x10050009, b2i(self.0)),
%start TpUseLockedTp1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpUseLockedTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 431 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 431
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpAlignToTowTp1 | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpAlignToTowTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpAlignToTowTp1 | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpAlignToTowTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 268763146 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 268763146, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpAlignToTowTp1
%take impl TpAlignToTowTp1
%derive struct TpAlignToTowTp1 :: #[derive(Clone, Copy)]
%constfn TpAlignToTowTp1::KEY
        ensures r.0 == 0x1005000a,
%constfn TpAlignToTowTp1::SIZE
        ensures r == 5,
%fn TpAlignToTowTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1005000a, b2i(self.0)),
%start TpAlignToTowTp1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpAlignToTowTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 432 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 432
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpPolTp1 | self, value, buf
<T: Sink>(this: &Self, value: &bool, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpPolTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpPolTp1 | self, value, buf
(this: &Self, value: &bool, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpPolTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 268763147 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 268763147, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpPolTp1
%take impl TpPolTp1
%derive struct TpPolTp1 :: #[derive(Clone, Copy)]
%constfn TpPolTp1::KEY
        ensures r.0 == 0x1005000b,
%constfn TpPolTp1::SIZE
        ensures r == 5,
%fn TpPolTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x1005000b, b2i(self.0)),
%start TpPolTp1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpPolTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%loop CfgVal::extend_to 433 for it
            invariant buf.sv() =~= old(buf).sv() + bytes@.take(it.index@), 0 <= it.index@ <= bytes@.len(),
%loopafter CfgVal::extend_to 433
        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%arm CfgVal::extend_to TpTimegridTp1 | self, value, buf
<T: Sink>(this: &Self, value: &AlignmentToReferenceTime, buf: &mut T) -> (r: usize)
        requires *this == CfgVal::TpTimegridTp1(*value),
        ensures r == item(*this).len(), final(buf).sv() == old(buf).sv() + item(*this),
%arm CfgVal::write_to TpTimegridTp1 | self, value, buf
(this: &Self, value: &AlignmentToReferenceTime, buf: &mut [u8]) -> (r: usize)
        requires *this == CfgVal::TpTimegridTp1(*value), room(old(buf)@, item(*this)),
        ensures r == item(*this).len(), final(buf)@ == put(old(buf)@, item(*this)),
%arm CfgVal::parse 537198604 | buf
(buf: &[u8]) -> (r: Self)
        requires buf@.len() >= 4, le4(buf@, 0) == 537198604, item_at(buf@) is Some,
        ensures r == item_at(buf@)->0,
%take struct TpTimegridTp1
%take impl TpTimegridTp1
%derive struct TpTimegridTp1 :: #[derive(Clone, Copy)]
%constfn TpTimegridTp1::KEY
        ensures r.0 == 0x2005000c,
%constfn TpTimegridTp1::SIZE
        ensures r == 5,
%fn TpTimegridTp1::into_cfg_kv_bytes | ret=r
        ensures r@ =~= kv1(0x2005000c, AlignmentToReferenceTime_item(self.0)),
%start TpTimegridTp1::into_cfg_kv_bytes
        proof { reveal(kv1); reveal(b0); }
%subst TpTimegridTp1::into_cfg_kv_bytes
[u8; Self::SIZE] ==> [u8; 5]
%gsubst
[u8; Uart1Baudrate::SIZE] ==> [u8; 8]
;;
Uart1Baudrate::SIZE ==> Uart1Baudrate::SIZE()
;;
[u8; Uart1StopBits::SIZE] ==> [u8; 5]
;;
Uart1StopBits::SIZE ==> Uart1StopBits::SIZE()
;;
[u8; Uart1DataBits::SIZE] ==> [u8; 5]
;;
Uart1DataBits::SIZE ==> Uart1DataBits::SIZE()
;;
[u8; Uart1Parity::SIZE] ==> [u8; 5]
;;
Uart1Parity::SIZE ==> Uart1Parity::SIZE()
;;
[u8; Uart1Enabled::SIZE] ==> [u8; 5]
;;
Uart1Enabled::SIZE ==> Uart1Enabled::SIZE()
;;
[u8; Uart1InProtUbx::SIZE] ==> [u8; 5]
;;
Uart1InProtUbx::SIZE ==> Uart1InProtUbx::SIZE()
;;
[u8; Uart1InProtNmea::SIZE] ==> [u8; 5]
;;
Uart1InProtNmea::SIZE ==> Uart1InProtNmea::SIZE()
;;
[u8; Uart1InProtRtcm3x::SIZE] ==> [u8; 5]
;;
Uart1InProtRtcm3x::SIZE ==> Uart1InProtRtcm3x::SIZE()
;;
[u8; Uart1OutProtUbx::SIZE] ==> [u8; 5]
;;
Uart1OutProtUbx::SIZE ==> Uart1OutProtUbx::SIZE()
;;
[u8; Uart1OutProtNmea::SIZE] ==> [u8; 5]
;;
Uart1OutProtNmea::SIZE ==> Uart1OutProtNmea::SIZE()
;;
[u8; Uart1OutProtRtcm3x::SIZE] ==> [u8; 5]
;;
Uart1OutProtRtcm3x::SIZE ==> Uart1OutProtRtcm3x::SIZE()
;;
[u8; Uart2Baudrate::SIZE] ==> [u8; 8]
;;
Uart2Baudrate::SIZE ==> Uart2Baudrate::SIZE()
;;
[u8; Uart2StopBits::SIZE] ==> [u8; 5]
;;
Uart2StopBits::SIZE ==> Uart2StopBits::SIZE()
;;
[u8; Uart2DataBits::SIZE] ==> [u8; 5]
;;
Uart2DataBits::SIZE ==> Uart2DataBits::SIZE()
;;
[u8; Uart2Parity::SIZE] ==> [u8; 5]
;;
Uart2Parity::SIZE ==> Uart2Parity::SIZE()
;;
[u8; Uart2Enabled::SIZE] ==> [u8; 5]
;;
Uart2Enabled::SIZE ==> Uart2Enabled::SIZE()
;;
[u8; Uart2Remap::SIZE] ==> [u8; 5]
;;
Uart2Remap::SIZE ==> Uart2Remap::SIZE()
;;
[u8; Uart2InProtUbx::SIZE] ==> [u8; 5]
;;
Uart2InProtUbx::SIZE ==> Uart2InProtUbx::SIZE()
;;
[u8; Uart2InProtNmea::SIZE] ==> [u8; 5]
;;
Uart2InProtNmea::SIZE ==> Uart2InProtNmea::SIZE()
;;
[u8; Uart2InProtRtcm3x::SIZE] ==> [u8; 5]
;;
Uart2InProtRtcm3x::SIZE ==> Uart2InProtRtcm3x::SIZE()
;;
[u8; Uart2OutProtUbx::SIZE] ==> [u8; 5]
;;
Uart2OutProtUbx::SIZE ==> Uart2OutProtUbx::SIZE()
;;
[u8; Uart2OutProtNmea::SIZE] ==> [u8; 5]
;;
Uart2OutProtNmea::SIZE ==> Uart2OutProtNmea::SIZE()
;;
[u8; Uart2OutProtRtcm3x::SIZE] ==> [u8; 5]
;;
Uart2OutProtRtcm3x::SIZE ==> Uart2OutProtRtcm3x::SIZE()
;;
[u8; UsbEnabled::SIZE] ==> [u8; 5]
;;
UsbEnabled::SIZE ==> UsbEnabled::SIZE()
;;
[u8; UsbSelfpow::SIZE] ==> [u8; 5]
;;
UsbSelfpow::SIZE ==> UsbSelfpow::SIZE()
;;
[u8; UsbVendorId::SIZE] ==> [u8; 6]
;;
UsbVendorId::SIZE ==> UsbVendorId::SIZE()
;;
[u8; UsbProductId::SIZE] ==> [u8; 6]
;;
UsbProductId::SIZE ==> UsbProductId::SIZE()
;;
[u8; UsbPower::SIZE] ==> [u8; 6]
;;
UsbPower::SIZE ==> UsbPower::SIZE()
;;
[u8; UsbVendorStr0::SIZE] ==> [u8; 12]
;;
UsbVendorStr0::SIZE ==> UsbVendorStr0::SIZE()
;;
[u8; UsbVendorStr1::SIZE] ==> [u8; 12]
;;
UsbVendorStr1::SIZE ==> UsbVendorStr1::SIZE()
;;
[u8; UsbVendorStr2::SIZE] ==> [u8; 12]
;;
UsbVendorStr2::SIZE ==> UsbVendorStr2::SIZE()
;;
[u8; UsbVendorStr3::SIZE] ==> [u8; 12]
;;
UsbVendorStr3::SIZE ==> UsbVendorStr3::SIZE()
;;
[u8; UsbProductStr0::SIZE] ==> [u8; 12]
;;
UsbProductStr0::SIZE ==> UsbProductStr0::SIZE()
;;
[u8; UsbProductStr1::SIZE] ==> [u8; 12]
;;
UsbProductStr1::SIZE ==> UsbProductStr1::SIZE()
;;
[u8; UsbProductStr2::SIZE] ==> [u8; 12]
;;
UsbProductStr2::SIZE ==> UsbProductStr2::SIZE()
;;
[u8; UsbProductStr3::SIZE] ==> [u8; 12]
;;
UsbProductStr3::SIZE ==> UsbProductStr3::SIZE()
;;
[u8; UsbSerialNoStr0::SIZE] ==> [u8; 12]
;;
UsbSerialNoStr0::SIZE ==> UsbSerialNoStr0::SIZE()
;;
[u8; UsbSerialNoStr1::SIZE] ==> [u8; 12]
;;
UsbSerialNoStr1::SIZE ==> UsbSerialNoStr1::SIZE()
;;
[u8; UsbSerialNoStr2::SIZE] ==> [u8; 12]
;;
UsbSerialNoStr2::SIZE ==> UsbSerialNoStr2::SIZE()
;;
[u8; UsbSerialNoStr3::SIZE] ==> [u8; 12]
;;
UsbSerialNoStr3::SIZE ==> UsbSerialNoStr3::SIZE()
;;
[u8; UsbinprotUbx::SIZE] ==> [u8; 5]
;;
UsbinprotUbx::SIZE ==> UsbinprotUbx::SIZE()
;;
[u8; UsbinprotNmea::SIZE] ==> [u8; 5]
;;
UsbinprotNmea::SIZE ==> UsbinprotNmea::SIZE()
;;
[u8; UsbinprotRtcm3X::SIZE] ==> [u8; 5]
;;
UsbinprotRtcm3X::SIZE ==> UsbinprotRtcm3X::SIZE()
;;
[u8; UsbOutProtUbx::SIZE] ==> [u8; 5]
;;
UsbOutProtUbx::SIZE ==> UsbOutProtUbx::SIZE()
;;
[u8; UsbOutProtNmea::SIZE] ==> [u8; 5]
;;
UsbOutProtNmea::SIZE ==> UsbOutProtNmea::SIZE()
;;
[u8; UsbOutProtRtcm3x::SIZE] ==> [u8; 5]
;;
UsbOutProtRtcm3x::SIZE ==> UsbOutProtRtcm3x::SIZE()
;;
[u8; InfmsgUbxI2c::SIZE] ==> [u8; 5]
;;
InfmsgUbxI2c::SIZE ==> InfmsgUbxI2c::SIZE()
;;
[u8; InfmsgUbxUart1::SIZE] ==> [u8; 5]
;;
InfmsgUbxUart1::SIZE ==> InfmsgUbxUart1::SIZE()
;;
[u8; InfmsgUbxUart2::SIZE] ==> [u8; 5]
;;
InfmsgUbxUart2::SIZE ==> InfmsgUbxUart2::SIZE()
;;
[u8; InfmsgUbxUsb::SIZE] ==> [u8; 5]
;;
InfmsgUbxUsb::SIZE ==> InfmsgUbxUsb::SIZE()
;;
[u8; InfmsgUbxSpi::SIZE] ==> [u8; 5]
;;
InfmsgUbxSpi::SIZE ==> InfmsgUbxSpi::SIZE()
;;
[u8; InfmsgNmeaI2c::SIZE] ==> [u8; 5]
;;
InfmsgNmeaI2c::SIZE ==> InfmsgNmeaI2c::SIZE()
;;
[u8; InfmsgNmeaUart1::SIZE] ==> [u8; 5]
;;
InfmsgNmeaUart1::SIZE ==> InfmsgNmeaUart1::SIZE()
;;
[u8; InfmsgNmeaUart2::SIZE] ==> [u8; 5]
;;
InfmsgNmeaUart2::SIZE ==> InfmsgNmeaUart2::SIZE()
;;
[u8; InfmsgNmeaUsb::SIZE] ==> [u8; 5]
;;
InfmsgNmeaUsb::SIZE ==> InfmsgNmeaUsb::SIZE()
;;
[u8; InfmsgNmeaSpi::SIZE] ==> [u8; 5]
;;
InfmsgNmeaSpi::SIZE ==> InfmsgNmeaSpi::SIZE()
;;
[u8; RateMeas::SIZE] ==> [u8; 6]
;;
RateMeas::SIZE ==> RateMeas::SIZE()
;;
[u8; RateNav::SIZE] ==> [u8; 6]
;;
RateNav::SIZE ==> RateNav::SIZE()
;;
[u8; RateTimeref::SIZE] ==> [u8; 5]
;;
RateTimeref::SIZE ==> RateTimeref::SIZE()
;;
[u8; MsgoutNmeaIdDtmI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdDtmI2c::SIZE ==> MsgoutNmeaIdDtmI2c::SIZE()
;;
[u8; MsgoutNmeaIdDtmSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdDtmSpi::SIZE ==> MsgoutNmeaIdDtmSpi::SIZE()
;;
[u8; MsgoutNmeaIdDtmUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdDtmUart1::SIZE ==> MsgoutNmeaIdDtmUart1::SIZE()
;;
[u8; MsgoutNmeaIdDtmUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdDtmUart2::SIZE ==> MsgoutNmeaIdDtmUart2::SIZE()
;;
[u8; MsgoutNmeaIdDtmUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdDtmUsb::SIZE ==> MsgoutNmeaIdDtmUsb::SIZE()
;;
[u8; MsgoutNmeaIdGbsI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGbsI2c::SIZE ==> MsgoutNmeaIdGbsI2c::SIZE()
;;
[u8; MsgoutNmeaIdGbsSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGbsSpi::SIZE ==> MsgoutNmeaIdGbsSpi::SIZE()
;;
[u8; MsgoutNmeaIdGbsUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGbsUart1::SIZE ==> MsgoutNmeaIdGbsUart1::SIZE()
;;
[u8; MsgoutNmeaIdGbsUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGbsUart2::SIZE ==> MsgoutNmeaIdGbsUart2::SIZE()
;;
[u8; MsgoutNmeaIdGbsUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGbsUsb::SIZE ==> MsgoutNmeaIdGbsUsb::SIZE()
;;
[u8; MsgoutNmeaIdGgaI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGgaI2c::SIZE ==> MsgoutNmeaIdGgaI2c::SIZE()
;;
[u8; MsgoutNmeaIdGgaSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGgaSpi::SIZE ==> MsgoutNmeaIdGgaSpi::SIZE()
;;
[u8; MsgoutNmeaIdGgaUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGgaUart1::SIZE ==> MsgoutNmeaIdGgaUart1::SIZE()
;;
[u8; MsgoutNmeaIdGgaUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGgaUart2::SIZE ==> MsgoutNmeaIdGgaUart2::SIZE()
;;
[u8; MsgoutNmeaIdGgaUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGgaUsb::SIZE ==> MsgoutNmeaIdGgaUsb::SIZE()
;;
[u8; MsgoutNmeaIdGllI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGllI2c::SIZE ==> MsgoutNmeaIdGllI2c::SIZE()
;;
[u8; MsgoutNmeaIdGllSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGllSpi::SIZE ==> MsgoutNmeaIdGllSpi::SIZE()
;;
[u8; MsgoutNmeaIdGllUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGllUart1::SIZE ==> MsgoutNmeaIdGllUart1::SIZE()
;;
[u8; MsgoutNmeaIdGllUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGllUart2::SIZE ==> MsgoutNmeaIdGllUart2::SIZE()
;;
[u8; MsgoutNmeaIdGllUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGllUsb::SIZE ==> MsgoutNmeaIdGllUsb::SIZE()
;;
[u8; MsgoutNmeaIdGnsI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGnsI2c::SIZE ==> MsgoutNmeaIdGnsI2c::SIZE()
;;
[u8; MsgoutNmeaIdGnsSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGnsSpi::SIZE ==> MsgoutNmeaIdGnsSpi::SIZE()
;;
[u8; MsgoutNmeaIdGnsUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGnsUart1::SIZE ==> MsgoutNmeaIdGnsUart1::SIZE()
;;
[u8; MsgoutNmeaIdGnsUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGnsUart2::SIZE ==> MsgoutNmeaIdGnsUart2::SIZE()
;;
[u8; MsgoutNmeaIdGnsUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGnsUsb::SIZE ==> MsgoutNmeaIdGnsUsb::SIZE()
;;
[u8; MsgoutNmeaIdGrsI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGrsI2c::SIZE ==> MsgoutNmeaIdGrsI2c::SIZE()
;;
[u8; MsgoutNmeaIdGrsSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGrsSpi::SIZE ==> MsgoutNmeaIdGrsSpi::SIZE()
;;
[u8; MsgoutNmeaIdGrsUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGrsUart1::SIZE ==> MsgoutNmeaIdGrsUart1::SIZE()
;;
[u8; MsgoutNmeaIdGrsUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGrsUart2::SIZE ==> MsgoutNmeaIdGrsUart2::SIZE()
;;
[u8; MsgoutNmeaIdGrsUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGrsUsb::SIZE ==> MsgoutNmeaIdGrsUsb::SIZE()
;;
[u8; MsgoutNmeaIdGsaI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsaI2c::SIZE ==> MsgoutNmeaIdGsaI2c::SIZE()
;;
[u8; MsgoutNmeaIdGsaSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsaSpi::SIZE ==> MsgoutNmeaIdGsaSpi::SIZE()
;;
[u8; MsgoutNmeaIdGsaUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsaUart1::SIZE ==> MsgoutNmeaIdGsaUart1::SIZE()
;;
[u8; MsgoutNmeaIdGsaUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsaUart2::SIZE ==> MsgoutNmeaIdGsaUart2::SIZE()
;;
[u8; MsgoutNmeaIdGsaUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsaUsb::SIZE ==> MsgoutNmeaIdGsaUsb::SIZE()
;;
[u8; MsgoutNmeaIdGstI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGstI2c::SIZE ==> MsgoutNmeaIdGstI2c::SIZE()
;;
[u8; MsgoutNmeaIdGstSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGstSpi::SIZE ==> MsgoutNmeaIdGstSpi::SIZE()
;;
[u8; MsgoutNmeaIdGstUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGstUart1::SIZE ==> MsgoutNmeaIdGstUart1::SIZE()
;;
[u8; MsgoutNmeaIdGstUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGstUart2::SIZE ==> MsgoutNmeaIdGstUart2::SIZE()
;;
[u8; MsgoutNmeaIdGstUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGstUsb::SIZE ==> MsgoutNmeaIdGstUsb::SIZE()
;;
[u8; MsgoutNmeaIdGsvI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsvI2c::SIZE ==> MsgoutNmeaIdGsvI2c::SIZE()
;;
[u8; MsgoutNmeaIdGsvSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsvSpi::SIZE ==> MsgoutNmeaIdGsvSpi::SIZE()
;;
[u8; MsgoutNmeaIdGsvUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsvUart1::SIZE ==> MsgoutNmeaIdGsvUart1::SIZE()
;;
[u8; MsgoutNmeaIdGsvUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsvUart2::SIZE ==> MsgoutNmeaIdGsvUart2::SIZE()
;;
[u8; MsgoutNmeaIdGsvUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdGsvUsb::SIZE ==> MsgoutNmeaIdGsvUsb::SIZE()
;;
[u8; MsgoutNmeaIdRmcI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdRmcI2c::SIZE ==> MsgoutNmeaIdRmcI2c::SIZE()
;;
[u8; MsgoutNmeaIdRmcSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdRmcSpi::SIZE ==> MsgoutNmeaIdRmcSpi::SIZE()
;;
[u8; MsgoutNmeaIdRmcUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdRmcUart1::SIZE ==> MsgoutNmeaIdRmcUart1::SIZE()
;;
[u8; MsgoutNmeaIdRmcUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdRmcUart2::SIZE ==> MsgoutNmeaIdRmcUart2::SIZE()
;;
[u8; MsgoutNmeaIdRmcUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdRmcUsb::SIZE ==> MsgoutNmeaIdRmcUsb::SIZE()
;;
[u8; MsgoutNmeaIdVlwI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVlwI2c::SIZE ==> MsgoutNmeaIdVlwI2c::SIZE()
;;
[u8; MsgoutNmeaIdVlwSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVlwSpi::SIZE ==> MsgoutNmeaIdVlwSpi::SIZE()
;;
[u8; MsgoutNmeaIdVlwUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVlwUart1::SIZE ==> MsgoutNmeaIdVlwUart1::SIZE()
;;
[u8; MsgoutNmeaIdVlwUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVlwUart2::SIZE ==> MsgoutNmeaIdVlwUart2::SIZE()
;;
[u8; MsgoutNmeaIdVlwUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVlwUsb::SIZE ==> MsgoutNmeaIdVlwUsb::SIZE()
;;
[u8; MsgoutNmeaIdVtgI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVtgI2c::SIZE ==> MsgoutNmeaIdVtgI2c::SIZE()
;;
[u8; MsgoutNmeaIdVtgSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVtgSpi::SIZE ==> MsgoutNmeaIdVtgSpi::SIZE()
;;
[u8; MsgoutNmeaIdVtgUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVtgUart1::SIZE ==> MsgoutNmeaIdVtgUart1::SIZE()
;;
[u8; MsgoutNmeaIdVtgUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVtgUart2::SIZE ==> MsgoutNmeaIdVtgUart2::SIZE()
;;
[u8; MsgoutNmeaIdVtgUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdVtgUsb::SIZE ==> MsgoutNmeaIdVtgUsb::SIZE()
;;
[u8; MsgoutNmeaIdZdaI2c::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdZdaI2c::SIZE ==> MsgoutNmeaIdZdaI2c::SIZE()
;;
[u8; MsgoutNmeaIdZdaSpi::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdZdaSpi::SIZE ==> MsgoutNmeaIdZdaSpi::SIZE()
;;
[u8; MsgoutNmeaIdZdaUart1::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdZdaUart1::SIZE ==> MsgoutNmeaIdZdaUart1::SIZE()
;;
[u8; MsgoutNmeaIdZdaUart2::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdZdaUart2::SIZE ==> MsgoutNmeaIdZdaUart2::SIZE()
;;
[u8; MsgoutNmeaIdZdaUsb::SIZE] ==> [u8; 5]
;;
MsgoutNmeaIdZdaUsb::SIZE ==> MsgoutNmeaIdZdaUsb::SIZE()
;;
[u8; MsgoutPubxIdPolypI2c::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolypI2c::SIZE ==> MsgoutPubxIdPolypI2c::SIZE()
;;
[u8; MsgoutPubxIdPolypSpi::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolypSpi::SIZE ==> MsgoutPubxIdPolypSpi::SIZE()
;;
[u8; MsgoutPubxIdPolypUart1::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolypUart1::SIZE ==> MsgoutPubxIdPolypUart1::SIZE()
;;
[u8; MsgoutPubxIdPolypUart2::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolypUart2::SIZE ==> MsgoutPubxIdPolypUart2::SIZE()
;;
[u8; MsgoutPubxIdPolypUsb::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolypUsb::SIZE ==> MsgoutPubxIdPolypUsb::SIZE()
;;
[u8; MsgoutPubxIdPolysI2c::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolysI2c::SIZE ==> MsgoutPubxIdPolysI2c::SIZE()
;;
[u8; MsgoutPubxIdPolysSpi::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolysSpi::SIZE ==> MsgoutPubxIdPolysSpi::SIZE()
;;
[u8; MsgoutPubxIdPolysUart1::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolysUart1::SIZE ==> MsgoutPubxIdPolysUart1::SIZE()
;;
[u8; MsgoutPubxIdPolysUart2::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolysUart2::SIZE ==> MsgoutPubxIdPolysUart2::SIZE()
;;
[u8; MsgoutPubxIdPolysUsb::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolysUsb::SIZE ==> MsgoutPubxIdPolysUsb::SIZE()
;;
[u8; MsgoutPubxIdPolytI2c::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolytI2c::SIZE ==> MsgoutPubxIdPolytI2c::SIZE()
;;
[u8; MsgoutPubxIdPolytSpi::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolytSpi::SIZE ==> MsgoutPubxIdPolytSpi::SIZE()
;;
[u8; MsgoutPubxIdPolytUart1::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolytUart1::SIZE ==> MsgoutPubxIdPolytUart1::SIZE()
;;
[u8; MsgoutPubxIdPolytUart2::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolytUart2::SIZE ==> MsgoutPubxIdPolytUart2::SIZE()
;;
[u8; MsgoutPubxIdPolytUsb::SIZE] ==> [u8; 5]
;;
MsgoutPubxIdPolytUsb::SIZE ==> MsgoutPubxIdPolytUsb::SIZE()
;;
[u8; MsgoutRtcm3xType1005I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1005I2c::SIZE ==> MsgoutRtcm3xType1005I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1005Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1005Spi::SIZE ==> MsgoutRtcm3xType1005Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1005Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1005Uart1::SIZE ==> MsgoutRtcm3xType1005Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1005Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1005Uart2::SIZE ==> MsgoutRtcm3xType1005Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1005Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1005Usb::SIZE ==> MsgoutRtcm3xType1005Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1074I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1074I2c::SIZE ==> MsgoutRtcm3xType1074I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1074Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1074Spi::SIZE ==> MsgoutRtcm3xType1074Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1074Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1074Uart1::SIZE ==> MsgoutRtcm3xType1074Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1074Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1074Uart2::SIZE ==> MsgoutRtcm3xType1074Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1074Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1074Usb::SIZE ==> MsgoutRtcm3xType1074Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1077I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1077I2c::SIZE ==> MsgoutRtcm3xType1077I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1077Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1077Spi::SIZE ==> MsgoutRtcm3xType1077Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1077Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1077Uart1::SIZE ==> MsgoutRtcm3xType1077Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1077Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1077Uart2::SIZE ==> MsgoutRtcm3xType1077Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1077Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1077Usb::SIZE ==> MsgoutRtcm3xType1077Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1084I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1084I2c::SIZE ==> MsgoutRtcm3xType1084I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1084Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1084Spi::SIZE ==> MsgoutRtcm3xType1084Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1084Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1084Uart1::SIZE ==> MsgoutRtcm3xType1084Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1084Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1084Uart2::SIZE ==> MsgoutRtcm3xType1084Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1084Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1084Usb::SIZE ==> MsgoutRtcm3xType1084Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1087I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1087I2c::SIZE ==> MsgoutRtcm3xType1087I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1087Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1087Spi::SIZE ==> MsgoutRtcm3xType1087Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1087Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1087Uart1::SIZE ==> MsgoutRtcm3xType1087Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1087Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1087Uart2::SIZE ==> MsgoutRtcm3xType1087Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1087Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1087Usb::SIZE ==> MsgoutRtcm3xType1087Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1094I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1094I2c::SIZE ==> MsgoutRtcm3xType1094I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1094Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1094Spi::SIZE ==> MsgoutRtcm3xType1094Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1094Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1094Uart1::SIZE ==> MsgoutRtcm3xType1094Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1094Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1094Uart2::SIZE ==> MsgoutRtcm3xType1094Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1094Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1094Usb::SIZE ==> MsgoutRtcm3xType1094Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1097I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1097I2c::SIZE ==> MsgoutRtcm3xType1097I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1097Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1097Spi::SIZE ==> MsgoutRtcm3xType1097Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1097Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1097Uart1::SIZE ==> MsgoutRtcm3xType1097Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1097Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1097Uart2::SIZE ==> MsgoutRtcm3xType1097Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1097Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1097Usb::SIZE ==> MsgoutRtcm3xType1097Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1124I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1124I2c::SIZE ==> MsgoutRtcm3xType1124I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1124Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1124Spi::SIZE ==> MsgoutRtcm3xType1124Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1124Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1124Uart1::SIZE ==> MsgoutRtcm3xType1124Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1124Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1124Uart2::SIZE ==> MsgoutRtcm3xType1124Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1124Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1124Usb::SIZE ==> MsgoutRtcm3xType1124Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1127I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1127I2c::SIZE ==> MsgoutRtcm3xType1127I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1127Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1127Spi::SIZE ==> MsgoutRtcm3xType1127Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1127Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1127Uart1::SIZE ==> MsgoutRtcm3xType1127Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1127Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1127Uart2::SIZE ==> MsgoutRtcm3xType1127Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1127Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1127Usb::SIZE ==> MsgoutRtcm3xType1127Usb::SIZE()
;;
[u8; MsgoutRtcm3xType1230I2c::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1230I2c::SIZE ==> MsgoutRtcm3xType1230I2c::SIZE()
;;
[u8; MsgoutRtcm3xType1230Spi::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1230Spi::SIZE ==> MsgoutRtcm3xType1230Spi::SIZE()
;;
[u8; MsgoutRtcm3xType1230Uart1::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1230Uart1::SIZE ==> MsgoutRtcm3xType1230Uart1::SIZE()
;;
[u8; MsgoutRtcm3xType1230Uart2::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1230Uart2::SIZE ==> MsgoutRtcm3xType1230Uart2::SIZE()
;;
[u8; MsgoutRtcm3xType1230Usb::SIZE] ==> [u8; 5]
;;
MsgoutRtcm3xType1230Usb::SIZE ==> MsgoutRtcm3xType1230Usb::SIZE()
;;
[u8; MsgoutUbxLogInfoI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxLogInfoI2c::SIZE ==> MsgoutUbxLogInfoI2c::SIZE()
;;
[u8; MsgoutUbxLogInfoSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxLogInfoSpi::SIZE ==> MsgoutUbxLogInfoSpi::SIZE()
;;
[u8; MsgoutUbxLogInfoUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxLogInfoUart1::SIZE ==> MsgoutUbxLogInfoUart1::SIZE()
;;
[u8; MsgoutUbxLogInfoUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxLogInfoUart2::SIZE ==> MsgoutUbxLogInfoUart2::SIZE()
;;
[u8; MsgoutUbxLogInfoUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxLogInfoUsb::SIZE ==> MsgoutUbxLogInfoUsb::SIZE()
;;
[u8; MsgoutUbxMonCommsI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonCommsI2c::SIZE ==> MsgoutUbxMonCommsI2c::SIZE()
;;
[u8; MsgoutUbxMonCommsSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonCommsSpi::SIZE ==> MsgoutUbxMonCommsSpi::SIZE()
;;
[u8; MsgoutUbxMonCommsUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonCommsUart1::SIZE ==> MsgoutUbxMonCommsUart1::SIZE()
;;
[u8; MsgoutUbxMonCommsUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonCommsUart2::SIZE ==> MsgoutUbxMonCommsUart2::SIZE()
;;
[u8; MsgoutUbxMonCommsUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonCommsUsb::SIZE ==> MsgoutUbxMonCommsUsb::SIZE()
;;
[u8; MsgoutUbxMonHw2I2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw2I2c::SIZE ==> MsgoutUbxMonHw2I2c::SIZE()
;;
[u8; MsgoutUbxMonHw2Spi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw2Spi::SIZE ==> MsgoutUbxMonHw2Spi::SIZE()
;;
[u8; MsgoutUbxMonHw2Uart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw2Uart1::SIZE ==> MsgoutUbxMonHw2Uart1::SIZE()
;;
[u8; MsgoutUbxMonHw2Uart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw2Uart2::SIZE ==> MsgoutUbxMonHw2Uart2::SIZE()
;;
[u8; MsgoutUbxMonHw2Usb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw2Usb::SIZE ==> MsgoutUbxMonHw2Usb::SIZE()
;;
[u8; MsgoutUbxMonHw3I2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw3I2c::SIZE ==> MsgoutUbxMonHw3I2c::SIZE()
;;
[u8; MsgoutUbxMonHw3Spi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw3Spi::SIZE ==> MsgoutUbxMonHw3Spi::SIZE()
;;
[u8; MsgoutUbxMonHw3Uart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw3Uart1::SIZE ==> MsgoutUbxMonHw3Uart1::SIZE()
;;
[u8; MsgoutUbxMonHw3Uart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw3Uart2::SIZE ==> MsgoutUbxMonHw3Uart2::SIZE()
;;
[u8; MsgoutUbxMonHw3Usb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHw3Usb::SIZE ==> MsgoutUbxMonHw3Usb::SIZE()
;;
[u8; MsgoutUbxMonHwI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHwI2c::SIZE ==> MsgoutUbxMonHwI2c::SIZE()
;;
[u8; MsgoutUbxMonHwSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHwSpi::SIZE ==> MsgoutUbxMonHwSpi::SIZE()
;;
[u8; MsgoutUbxMonHwUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHwUart1::SIZE ==> MsgoutUbxMonHwUart1::SIZE()
;;
[u8; MsgoutUbxMonHwUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHwUart2::SIZE ==> MsgoutUbxMonHwUart2::SIZE()
;;
[u8; MsgoutUbxMonHwUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonHwUsb::SIZE ==> MsgoutUbxMonHwUsb::SIZE()
;;
[u8; MsgoutUbxMonIoI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonIoI2c::SIZE ==> MsgoutUbxMonIoI2c::SIZE()
;;
[u8; MsgoutUbxMonIoSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonIoSpi::SIZE ==> MsgoutUbxMonIoSpi::SIZE()
;;
[u8; MsgoutUbxMonIoUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonIoUart1::SIZE ==> MsgoutUbxMonIoUart1::SIZE()
;;
[u8; MsgoutUbxMonIoUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonIoUart2::SIZE ==> MsgoutUbxMonIoUart2::SIZE()
;;
[u8; MsgoutUbxMonIoUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonIoUsb::SIZE ==> MsgoutUbxMonIoUsb::SIZE()
;;
[u8; MsgoutUbxMonMsgPpI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonMsgPpI2c::SIZE ==> MsgoutUbxMonMsgPpI2c::SIZE()
;;
[u8; MsgoutUbxMonMsgPpSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonMsgPpSpi::SIZE ==> MsgoutUbxMonMsgPpSpi::SIZE()
;;
[u8; MsgoutUbxMonMsgPpUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonMsgPpUart1::SIZE ==> MsgoutUbxMonMsgPpUart1::SIZE()
;;
[u8; MsgoutUbxMonMsgPpUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonMsgPpUart2::SIZE ==> MsgoutUbxMonMsgPpUart2::SIZE()
;;
[u8; MsgoutUbxMonMsgPpUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonMsgPpUsb::SIZE ==> MsgoutUbxMonMsgPpUsb::SIZE()
;;
[u8; MsgoutUbxMonRfI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRfI2c::SIZE ==> MsgoutUbxMonRfI2c::SIZE()
;;
[u8; MsgoutUbxMonRfSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRfSpi::SIZE ==> MsgoutUbxMonRfSpi::SIZE()
;;
[u8; MsgoutUbxMonRfUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRfUart1::SIZE ==> MsgoutUbxMonRfUart1::SIZE()
;;
[u8; MsgoutUbxMonRfUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRfUart2::SIZE ==> MsgoutUbxMonRfUart2::SIZE()
;;
[u8; MsgoutUbxMonRfUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRfUsb::SIZE ==> MsgoutUbxMonRfUsb::SIZE()
;;
[u8; MsgoutUbxMonRxbufI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxbufI2c::SIZE ==> MsgoutUbxMonRxbufI2c::SIZE()
;;
[u8; MsgoutUbxMonRxbufSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxbufSpi::SIZE ==> MsgoutUbxMonRxbufSpi::SIZE()
;;
[u8; MsgoutUbxMonRxbufUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxbufUart1::SIZE ==> MsgoutUbxMonRxbufUart1::SIZE()
;;
[u8; MsgoutUbxMonRxbufUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxbufUart2::SIZE ==> MsgoutUbxMonRxbufUart2::SIZE()
;;
[u8; MsgoutUbxMonRxbufUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxbufUsb::SIZE ==> MsgoutUbxMonRxbufUsb::SIZE()
;;
[u8; MsgoutUbxMonRxrI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxrI2c::SIZE ==> MsgoutUbxMonRxrI2c::SIZE()
;;
[u8; MsgoutUbxMonRxrSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxrSpi::SIZE ==> MsgoutUbxMonRxrSpi::SIZE()
;;
[u8; MsgoutUbxMonRxrUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxrUart1::SIZE ==> MsgoutUbxMonRxrUart1::SIZE()
;;
[u8; MsgoutUbxMonRxrUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxrUart2::SIZE ==> MsgoutUbxMonRxrUart2::SIZE()
;;
[u8; MsgoutUbxMonRxrUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonRxrUsb::SIZE ==> MsgoutUbxMonRxrUsb::SIZE()
;;
[u8; MsgoutUbxMonTxbufI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonTxbufI2c::SIZE ==> MsgoutUbxMonTxbufI2c::SIZE()
;;
[u8; MsgoutUbxMonTxbufSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonTxbufSpi::SIZE ==> MsgoutUbxMonTxbufSpi::SIZE()
;;
[u8; MsgoutUbxMonTxbufUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonTxbufUart1::SIZE ==> MsgoutUbxMonTxbufUart1::SIZE()
;;
[u8; MsgoutUbxMonTxbufUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonTxbufUart2::SIZE ==> MsgoutUbxMonTxbufUart2::SIZE()
;;
[u8; MsgoutUbxMonTxbufUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxMonTxbufUsb::SIZE ==> MsgoutUbxMonTxbufUsb::SIZE()
;;
[u8; MsgoutUbxNavClockI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavClockI2c::SIZE ==> MsgoutUbxNavClockI2c::SIZE()
;;
[u8; MsgoutUbxNavClockSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavClockSpi::SIZE ==> MsgoutUbxNavClockSpi::SIZE()
;;
[u8; MsgoutUbxNavClockUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavClockUart1::SIZE ==> MsgoutUbxNavClockUart1::SIZE()
;;
[u8; MsgoutUbxNavClockUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavClockUart2::SIZE ==> MsgoutUbxNavClockUart2::SIZE()
;;
[u8; MsgoutUbxNavClockUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavClockUsb::SIZE ==> MsgoutUbxNavClockUsb::SIZE()
;;
[u8; MsgoutUbxNavDopI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavDopI2c::SIZE ==> MsgoutUbxNavDopI2c::SIZE()
;;
[u8; MsgoutUbxNavDopSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavDopSpi::SIZE ==> MsgoutUbxNavDopSpi::SIZE()
;;
[u8; MsgoutUbxNavDopUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavDopUart1::SIZE ==> MsgoutUbxNavDopUart1::SIZE()
;;
[u8; MsgoutUbxNavDopUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavDopUart2::SIZE ==> MsgoutUbxNavDopUart2::SIZE()
;;
[u8; MsgoutUbxNavDopUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavDopUsb::SIZE ==> MsgoutUbxNavDopUsb::SIZE()
;;
[u8; MsgoutUbxNavEoeI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavEoeI2c::SIZE ==> MsgoutUbxNavEoeI2c::SIZE()
;;
[u8; MsgoutUbxNavEoeSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavEoeSpi::SIZE ==> MsgoutUbxNavEoeSpi::SIZE()
;;
[u8; MsgoutUbxNavEoeUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavEoeUart1::SIZE ==> MsgoutUbxNavEoeUart1::SIZE()
;;
[u8; MsgoutUbxNavEoeUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavEoeUart2::SIZE ==> MsgoutUbxNavEoeUart2::SIZE()
;;
[u8; MsgoutUbxNavEoeUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavEoeUsb::SIZE ==> MsgoutUbxNavEoeUsb::SIZE()
;;
[u8; MsgoutUbxNavGeofenceI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavGeofenceI2c::SIZE ==> MsgoutUbxNavGeofenceI2c::SIZE()
;;
[u8; MsgoutUbxNavGeofenceSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavGeofenceSpi::SIZE ==> MsgoutUbxNavGeofenceSpi::SIZE()
;;
[u8; MsgoutUbxNavGeofenceUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavGeofenceUart1::SIZE ==> MsgoutUbxNavGeofenceUart1::SIZE()
;;
[u8; MsgoutUbxNavGeofenceUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavGeofenceUart2::SIZE ==> MsgoutUbxNavGeofenceUart2::SIZE()
;;
[u8; MsgoutUbxNavGeofenceUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavGeofenceUsb::SIZE ==> MsgoutUbxNavGeofenceUsb::SIZE()
;;
[u8; MsgoutUbxNavHpPosEcefI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosEcefI2c::SIZE ==> MsgoutUbxNavHpPosEcefI2c::SIZE()
;;
[u8; MsgoutUbxNavHpPosEcefSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosEcefSpi::SIZE ==> MsgoutUbxNavHpPosEcefSpi::SIZE()
;;
[u8; MsgoutUbxNavHpPosEcefUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosEcefUart1::SIZE ==> MsgoutUbxNavHpPosEcefUart1::SIZE()
;;
[u8; MsgoutUbxNavHpPosEcefUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosEcefUart2::SIZE ==> MsgoutUbxNavHpPosEcefUart2::SIZE()
;;
[u8; MsgoutUbxNavHpPosEcefUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosEcefUsb::SIZE ==> MsgoutUbxNavHpPosEcefUsb::SIZE()
;;
[u8; MsgoutUbxNavHpPosllhI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosllhI2c::SIZE ==> MsgoutUbxNavHpPosllhI2c::SIZE()
;;
[u8; MsgoutUbxNavHpPosllhSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosllhSpi::SIZE ==> MsgoutUbxNavHpPosllhSpi::SIZE()
;;
[u8; MsgoutUbxNavHpPosllhUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosllhUart1::SIZE ==> MsgoutUbxNavHpPosllhUart1::SIZE()
;;
[u8; MsgoutUbxNavHpPosllhUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosllhUart2::SIZE ==> MsgoutUbxNavHpPosllhUart2::SIZE()
;;
[u8; MsgoutUbxNavHpPosllhUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavHpPosllhUsb::SIZE ==> MsgoutUbxNavHpPosllhUsb::SIZE()
;;
[u8; MsgoutUbxNavOdoI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOdoI2c::SIZE ==> MsgoutUbxNavOdoI2c::SIZE()
;;
[u8; MsgoutUbxNavOdoSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOdoSpi::SIZE ==> MsgoutUbxNavOdoSpi::SIZE()
;;
[u8; MsgoutUbxNavOdoUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOdoUart1::SIZE ==> MsgoutUbxNavOdoUart1::SIZE()
;;
[u8; MsgoutUbxNavOdoUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOdoUart2::SIZE ==> MsgoutUbxNavOdoUart2::SIZE()
;;
[u8; MsgoutUbxNavOdoUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOdoUsb::SIZE ==> MsgoutUbxNavOdoUsb::SIZE()
;;
[u8; MsgoutUbxNavOrbI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOrbI2c::SIZE ==> MsgoutUbxNavOrbI2c::SIZE()
;;
[u8; MsgoutUbxNavOrbSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOrbSpi::SIZE ==> MsgoutUbxNavOrbSpi::SIZE()
;;
[u8; MsgoutUbxNavOrbUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOrbUart1::SIZE ==> MsgoutUbxNavOrbUart1::SIZE()
;;
[u8; MsgoutUbxNavOrbUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOrbUart2::SIZE ==> MsgoutUbxNavOrbUart2::SIZE()
;;
[u8; MsgoutUbxNavOrbUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavOrbUsb::SIZE ==> MsgoutUbxNavOrbUsb::SIZE()
;;
[u8; MsgoutUbxNavPosEcefI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosEcefI2c::SIZE ==> MsgoutUbxNavPosEcefI2c::SIZE()
;;
[u8; MsgoutUbxNavPosEcefSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosEcefSpi::SIZE ==> MsgoutUbxNavPosEcefSpi::SIZE()
;;
[u8; MsgoutUbxNavPosEcefUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosEcefUart1::SIZE ==> MsgoutUbxNavPosEcefUart1::SIZE()
;;
[u8; MsgoutUbxNavPosEcefUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosEcefUart2::SIZE ==> MsgoutUbxNavPosEcefUart2::SIZE()
;;
[u8; MsgoutUbxNavPosEcefUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosEcefUsb::SIZE ==> MsgoutUbxNavPosEcefUsb::SIZE()
;;
[u8; MsgoutUbxNavPosLlhI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosLlhI2c::SIZE ==> MsgoutUbxNavPosLlhI2c::SIZE()
;;
[u8; MsgoutUbxNavPosLlhSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosLlhSpi::SIZE ==> MsgoutUbxNavPosLlhSpi::SIZE()
;;
[u8; MsgoutUbxNavPosLlhUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosLlhUart1::SIZE ==> MsgoutUbxNavPosLlhUart1::SIZE()
;;
[u8; MsgoutUbxNavPosLlhUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosLlhUart2::SIZE ==> MsgoutUbxNavPosLlhUart2::SIZE()
;;
[u8; MsgoutUbxNavPosLlhUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPosLlhUsb::SIZE ==> MsgoutUbxNavPosLlhUsb::SIZE()
;;
[u8; MsgoutUbxNavPvtI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPvtI2c::SIZE ==> MsgoutUbxNavPvtI2c::SIZE()
;;
[u8; MsgoutUbxNavPvtSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPvtSpi::SIZE ==> MsgoutUbxNavPvtSpi::SIZE()
;;
[u8; MsgoutUbxNavPvtUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPvtUart1::SIZE ==> MsgoutUbxNavPvtUart1::SIZE()
;;
[u8; MsgoutUbxNavPvtUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPvtUart2::SIZE ==> MsgoutUbxNavPvtUart2::SIZE()
;;
[u8; MsgoutUbxNavPvtUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavPvtUsb::SIZE ==> MsgoutUbxNavPvtUsb::SIZE()
;;
[u8; MsgoutUbxNavRelposnedI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavRelposnedI2c::SIZE ==> MsgoutUbxNavRelposnedI2c::SIZE()
;;
[u8; MsgoutUbxNavRelposnedSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavRelposnedSpi::SIZE ==> MsgoutUbxNavRelposnedSpi::SIZE()
;;
[u8; MsgoutUbxNavRelposnedUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavRelposnedUart1::SIZE ==> MsgoutUbxNavRelposnedUart1::SIZE()
;;
[u8; MsgoutUbxNavRelposnedUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavRelposnedUart2::SIZE ==> MsgoutUbxNavRelposnedUart2::SIZE()
;;
[u8; MsgoutUbxNavRelposnedUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavRelposnedUsb::SIZE ==> MsgoutUbxNavRelposnedUsb::SIZE()
;;
[u8; MsgoutUbxNavSatI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSatI2c::SIZE ==> MsgoutUbxNavSatI2c::SIZE()
;;
[u8; MsgoutUbxNavSatSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSatSpi::SIZE ==> MsgoutUbxNavSatSpi::SIZE()
;;
[u8; MsgoutUbxNavSatUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSatUart1::SIZE ==> MsgoutUbxNavSatUart1::SIZE()
;;
[u8; MsgoutUbxNavSatUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSatUart2::SIZE ==> MsgoutUbxNavSatUart2::SIZE()
;;
[u8; MsgoutUbxNavSatUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSatUsb::SIZE ==> MsgoutUbxNavSatUsb::SIZE()
;;
[u8; MsgoutUbxNavSigI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSigI2c::SIZE ==> MsgoutUbxNavSigI2c::SIZE()
;;
[u8; MsgoutUbxNavSigSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSigSpi::SIZE ==> MsgoutUbxNavSigSpi::SIZE()
;;
[u8; MsgoutUbxNavSigUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSigUart1::SIZE ==> MsgoutUbxNavSigUart1::SIZE()
;;
[u8; MsgoutUbxNavSigUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSigUart2::SIZE ==> MsgoutUbxNavSigUart2::SIZE()
;;
[u8; MsgoutUbxNavSigUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSigUsb::SIZE ==> MsgoutUbxNavSigUsb::SIZE()
;;
[u8; MsgoutUbxNavStatusI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavStatusI2c::SIZE ==> MsgoutUbxNavStatusI2c::SIZE()
;;
[u8; MsgoutUbxNavStatusSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavStatusSpi::SIZE ==> MsgoutUbxNavStatusSpi::SIZE()
;;
[u8; MsgoutUbxNavStatusUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavStatusUart1::SIZE ==> MsgoutUbxNavStatusUart1::SIZE()
;;
[u8; MsgoutUbxNavStatusUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavStatusUart2::SIZE ==> MsgoutUbxNavStatusUart2::SIZE()
;;
[u8; MsgoutUbxNavStatusUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavStatusUsb::SIZE ==> MsgoutUbxNavStatusUsb::SIZE()
;;
[u8; MsgoutUbxNavSvinI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSvinI2c::SIZE ==> MsgoutUbxNavSvinI2c::SIZE()
;;
[u8; MsgoutUbxNavSvinSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSvinSpi::SIZE ==> MsgoutUbxNavSvinSpi::SIZE()
;;
[u8; MsgoutUbxNavSvinUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSvinUart1::SIZE ==> MsgoutUbxNavSvinUart1::SIZE()
;;
[u8; MsgoutUbxNavSvinUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSvinUart2::SIZE ==> MsgoutUbxNavSvinUart2::SIZE()
;;
[u8; MsgoutUbxNavSvinUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavSvinUsb::SIZE ==> MsgoutUbxNavSvinUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeBdsI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeBdsI2c::SIZE ==> MsgoutUbxNavTimeBdsI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeBdsSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeBdsSpi::SIZE ==> MsgoutUbxNavTimeBdsSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeBdsUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeBdsUart1::SIZE ==> MsgoutUbxNavTimeBdsUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeBdsUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeBdsUart2::SIZE ==> MsgoutUbxNavTimeBdsUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeBdsUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeBdsUsb::SIZE ==> MsgoutUbxNavTimeBdsUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeGalI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGalI2c::SIZE ==> MsgoutUbxNavTimeGalI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeGalSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGalSpi::SIZE ==> MsgoutUbxNavTimeGalSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeGalUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGalUart1::SIZE ==> MsgoutUbxNavTimeGalUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeGalUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGalUart2::SIZE ==> MsgoutUbxNavTimeGalUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeGalUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGalUsb::SIZE ==> MsgoutUbxNavTimeGalUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeGloI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGloI2c::SIZE ==> MsgoutUbxNavTimeGloI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeGloSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGloSpi::SIZE ==> MsgoutUbxNavTimeGloSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeGloUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGloUart1::SIZE ==> MsgoutUbxNavTimeGloUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeGloUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGloUart2::SIZE ==> MsgoutUbxNavTimeGloUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeGloUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGloUsb::SIZE ==> MsgoutUbxNavTimeGloUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeGpsI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGpsI2c::SIZE ==> MsgoutUbxNavTimeGpsI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeGpsSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGpsSpi::SIZE ==> MsgoutUbxNavTimeGpsSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeGpsUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGpsUart1::SIZE ==> MsgoutUbxNavTimeGpsUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeGpsUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGpsUart2::SIZE ==> MsgoutUbxNavTimeGpsUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeGpsUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeGpsUsb::SIZE ==> MsgoutUbxNavTimeGpsUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeLsI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeLsI2c::SIZE ==> MsgoutUbxNavTimeLsI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeLsSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeLsSpi::SIZE ==> MsgoutUbxNavTimeLsSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeLsUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeLsUart1::SIZE ==> MsgoutUbxNavTimeLsUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeLsUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeLsUart2::SIZE ==> MsgoutUbxNavTimeLsUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeLsUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeLsUsb::SIZE ==> MsgoutUbxNavTimeLsUsb::SIZE()
;;
[u8; MsgoutUbxNavTimeUtcI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeUtcI2c::SIZE ==> MsgoutUbxNavTimeUtcI2c::SIZE()
;;
[u8; MsgoutUbxNavTimeUtcSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeUtcSpi::SIZE ==> MsgoutUbxNavTimeUtcSpi::SIZE()
;;
[u8; MsgoutUbxNavTimeUtcUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeUtcUart1::SIZE ==> MsgoutUbxNavTimeUtcUart1::SIZE()
;;
[u8; MsgoutUbxNavTimeUtcUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeUtcUart2::SIZE ==> MsgoutUbxNavTimeUtcUart2::SIZE()
;;
[u8; MsgoutUbxNavTimeUtcUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavTimeUtcUsb::SIZE ==> MsgoutUbxNavTimeUtcUsb::SIZE()
;;
[u8; MsgoutUbxNavVelEcefI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelEcefI2c::SIZE ==> MsgoutUbxNavVelEcefI2c::SIZE()
;;
[u8; MsgoutUbxNavVelEcefSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelEcefSpi::SIZE ==> MsgoutUbxNavVelEcefSpi::SIZE()
;;
[u8; MsgoutUbxNavVelEcefUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelEcefUart1::SIZE ==> MsgoutUbxNavVelEcefUart1::SIZE()
;;
[u8; MsgoutUbxNavVelEcefUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelEcefUart2::SIZE ==> MsgoutUbxNavVelEcefUart2::SIZE()
;;
[u8; MsgoutUbxNavVelEcefUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelEcefUsb::SIZE ==> MsgoutUbxNavVelEcefUsb::SIZE()
;;
[u8; MsgoutUbxNavVelNedI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelNedI2c::SIZE ==> MsgoutUbxNavVelNedI2c::SIZE()
;;
[u8; MsgoutUbxNavVelNedSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelNedSpi::SIZE ==> MsgoutUbxNavVelNedSpi::SIZE()
;;
[u8; MsgoutUbxNavVelNedUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelNedUart1::SIZE ==> MsgoutUbxNavVelNedUart1::SIZE()
;;
[u8; MsgoutUbxNavVelNedUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelNedUart2::SIZE ==> MsgoutUbxNavVelNedUart2::SIZE()
;;
[u8; MsgoutUbxNavVelNedUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxNavVelNedUsb::SIZE ==> MsgoutUbxNavVelNedUsb::SIZE()
;;
[u8; MsgoutUbxRxmMeasxI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmMeasxI2c::SIZE ==> MsgoutUbxRxmMeasxI2c::SIZE()
;;
[u8; MsgoutUbxRxmMeasxSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmMeasxSpi::SIZE ==> MsgoutUbxRxmMeasxSpi::SIZE()
;;
[u8; MsgoutUbxRxmMeasxUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmMeasxUart1::SIZE ==> MsgoutUbxRxmMeasxUart1::SIZE()
;;
[u8; MsgoutUbxRxmMeasxUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmMeasxUart2::SIZE ==> MsgoutUbxRxmMeasxUart2::SIZE()
;;
[u8; MsgoutUbxRxmMeasxUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmMeasxUsb::SIZE ==> MsgoutUbxRxmMeasxUsb::SIZE()
;;
[u8; MsgoutUbxRxmRawxI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRawxI2c::SIZE ==> MsgoutUbxRxmRawxI2c::SIZE()
;;
[u8; MsgoutUbxRxmRawxSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRawxSpi::SIZE ==> MsgoutUbxRxmRawxSpi::SIZE()
;;
[u8; MsgoutUbxRxmRawxUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRawxUart1::SIZE ==> MsgoutUbxRxmRawxUart1::SIZE()
;;
[u8; MsgoutUbxRxmRawxUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRawxUart2::SIZE ==> MsgoutUbxRxmRawxUart2::SIZE()
;;
[u8; MsgoutUbxRxmRawxUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRawxUsb::SIZE ==> MsgoutUbxRxmRawxUsb::SIZE()
;;
[u8; MsgoutUbxRxmRlmI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRlmI2c::SIZE ==> MsgoutUbxRxmRlmI2c::SIZE()
;;
[u8; MsgoutUbxRxmRlmSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRlmSpi::SIZE ==> MsgoutUbxRxmRlmSpi::SIZE()
;;
[u8; MsgoutUbxRxmRlmUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRlmUart1::SIZE ==> MsgoutUbxRxmRlmUart1::SIZE()
;;
[u8; MsgoutUbxRxmRlmUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRlmUart2::SIZE ==> MsgoutUbxRxmRlmUart2::SIZE()
;;
[u8; MsgoutUbxRxmRlmUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRlmUsb::SIZE ==> MsgoutUbxRxmRlmUsb::SIZE()
;;
[u8; MsgoutUbxRxmRtcmI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRtcmI2c::SIZE ==> MsgoutUbxRxmRtcmI2c::SIZE()
;;
[u8; MsgoutUbxRxmRtcmSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRtcmSpi::SIZE ==> MsgoutUbxRxmRtcmSpi::SIZE()
;;
[u8; MsgoutUbxRxmRtcmUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRtcmUart1::SIZE ==> MsgoutUbxRxmRtcmUart1::SIZE()
;;
[u8; MsgoutUbxRxmRtcmUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRtcmUart2::SIZE ==> MsgoutUbxRxmRtcmUart2::SIZE()
;;
[u8; MsgoutUbxRxmRtcmUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmRtcmUsb::SIZE ==> MsgoutUbxRxmRtcmUsb::SIZE()
;;
[u8; MsgoutUbxRxmSfrbxI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmSfrbxI2c::SIZE ==> MsgoutUbxRxmSfrbxI2c::SIZE()
;;
[u8; MsgoutUbxRxmSfrbxSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmSfrbxSpi::SIZE ==> MsgoutUbxRxmSfrbxSpi::SIZE()
;;
[u8; MsgoutUbxRxmSfrbxUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmSfrbxUart1::SIZE ==> MsgoutUbxRxmSfrbxUart1::SIZE()
;;
[u8; MsgoutUbxRxmSfrbxUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmSfrbxUart2::SIZE ==> MsgoutUbxRxmSfrbxUart2::SIZE()
;;
[u8; MsgoutUbxRxmSfrbxUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxRxmSfrbxUsb::SIZE ==> MsgoutUbxRxmSfrbxUsb::SIZE()
;;
[u8; MsgoutUbxTimTm2I2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTm2I2c::SIZE ==> MsgoutUbxTimTm2I2c::SIZE()
;;
[u8; MsgoutUbxTimTm2Spi::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTm2Spi::SIZE ==> MsgoutUbxTimTm2Spi::SIZE()
;;
[u8; MsgoutUbxTimTm2Uart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTm2Uart1::SIZE ==> MsgoutUbxTimTm2Uart1::SIZE()
;;
[u8; MsgoutUbxTimTm2Uart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTm2Uart2::SIZE ==> MsgoutUbxTimTm2Uart2::SIZE()
;;
[u8; MsgoutUbxTimTm2Usb::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTm2Usb::SIZE ==> MsgoutUbxTimTm2Usb::SIZE()
;;
[u8; MsgoutUbxTimTpI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTpI2c::SIZE ==> MsgoutUbxTimTpI2c::SIZE()
;;
[u8; MsgoutUbxTimTpSpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTpSpi::SIZE ==> MsgoutUbxTimTpSpi::SIZE()
;;
[u8; MsgoutUbxTimTpUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTpUart1::SIZE ==> MsgoutUbxTimTpUart1::SIZE()
;;
[u8; MsgoutUbxTimTpUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTpUart2::SIZE ==> MsgoutUbxTimTpUart2::SIZE()
;;
[u8; MsgoutUbxTimTpUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimTpUsb::SIZE ==> MsgoutUbxTimTpUsb::SIZE()
;;
[u8; MsgoutUbxTimVrfyI2c::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimVrfyI2c::SIZE ==> MsgoutUbxTimVrfyI2c::SIZE()
;;
[u8; MsgoutUbxTimVrfySpi::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimVrfySpi::SIZE ==> MsgoutUbxTimVrfySpi::SIZE()
;;
[u8; MsgoutUbxTimVrfyUart1::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimVrfyUart1::SIZE ==> MsgoutUbxTimVrfyUart1::SIZE()
;;
[u8; MsgoutUbxTimVrfyUart2::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimVrfyUart2::SIZE ==> MsgoutUbxTimVrfyUart2::SIZE()
;;
[u8; MsgoutUbxTimVrfyUsb::SIZE] ==> [u8; 5]
;;
MsgoutUbxTimVrfyUsb::SIZE ==> MsgoutUbxTimVrfyUsb::SIZE()
;;
[u8; SignalGpsEna::SIZE] ==> [u8; 5]
;;
SignalGpsEna::SIZE ==> SignalGpsEna::SIZE()
;;
[u8; SignalGpsL1caEna::SIZE] ==> [u8; 5]
;;
SignalGpsL1caEna::SIZE ==> SignalGpsL1caEna::SIZE()
;;
[u8; SignalGpsL2cEna::SIZE] ==> [u8; 5]
;;
SignalGpsL2cEna::SIZE ==> SignalGpsL2cEna::SIZE()
;;
[u8; SignalGalEna::SIZE] ==> [u8; 5]
;;
SignalGalEna::SIZE ==> SignalGalEna::SIZE()
;;
[u8; SignalGalE1Ena::SIZE] ==> [u8; 5]
;;
SignalGalE1Ena::SIZE ==> SignalGalE1Ena::SIZE()
;;
[u8; SignalGalE5bEna::SIZE] ==> [u8; 5]
;;
SignalGalE5bEna::SIZE ==> SignalGalE5bEna::SIZE()
;;
[u8; SignalBdsEna::SIZE] ==> [u8; 5]
;;
SignalBdsEna::SIZE ==> SignalBdsEna::SIZE()
;;
[u8; SignalBdsB1Ena::SIZE] ==> [u8; 5]
;;
SignalBdsB1Ena::SIZE ==> SignalBdsB1Ena::SIZE()
;;
[u8; SignalBdsB2Ena::SIZE] ==> [u8; 5]
;;
SignalBdsB2Ena::SIZE ==> SignalBdsB2Ena::SIZE()
;;
[u8; SignalQzssEna::SIZE] ==> [u8; 5]
;;
SignalQzssEna::SIZE ==> SignalQzssEna::SIZE()
;;
[u8; SignalQzssL1caEna::SIZE] ==> [u8; 5]
;;
SignalQzssL1caEna::SIZE ==> SignalQzssL1caEna::SIZE()
;;
[u8; SignalQzssL2cEna::SIZE] ==> [u8; 5]
;;
SignalQzssL2cEna::SIZE ==> SignalQzssL2cEna::SIZE()
;;
[u8; SignalGloEna::SIZE] ==> [u8; 5]
;;
SignalGloEna::SIZE ==> SignalGloEna::SIZE()
;;
[u8; SignalGloL1Ena::SIZE] ==> [u8; 5]
;;
SignalGloL1Ena::SIZE ==> SignalGloL1Ena::SIZE()
;;
[u8; SignalGLoL2Ena::SIZE] ==> [u8; 5]
;;
SignalGLoL2Ena::SIZE ==> SignalGLoL2Ena::SIZE()
;;
[u8; TpPulseDef::SIZE] ==> [u8; 5]
;;
TpPulseDef::SIZE ==> TpPulseDef::SIZE()
;;
[u8; TpPulseLengthDef::SIZE] ==> [u8; 5]
;;
TpPulseLengthDef::SIZE ==> TpPulseLengthDef::SIZE()
;;
[u8; TpAntCableDelay::SIZE] ==> [u8; 6]
;;
TpAntCableDelay::SIZE ==> TpAntCableDelay::SIZE()
;;
[u8; TpPeriodTp1::SIZE] ==> [u8; 8]
;;
TpPeriodTp1::SIZE ==> TpPeriodTp1::SIZE()
;;
[u8; TpPeriodLockTp1::SIZE] ==> [u8; 8]
;;
TpPeriodLockTp1::SIZE ==> TpPeriodLockTp1::SIZE()
;;
[u8; TpFreqTp1::SIZE] ==> [u8; 8]
;;
TpFreqTp1::SIZE ==> TpFreqTp1::SIZE()
;;
[u8; TpFreqLockTp1::SIZE] ==> [u8; 8]
;;
TpFreqLockTp1::SIZE ==> TpFreqLockTp1::SIZE()
;;
[u8; TpLenTp1::SIZE] ==> [u8; 8]
;;
TpLenTp1::SIZE ==> TpLenTp1::SIZE()
;;
[u8; TpLenLockTp1::SIZE] ==> [u8; 8]
;;
TpLenLockTp1::SIZE ==> TpLenLockTp1::SIZE()
;;
[u8; TpTp1Ena::SIZE] ==> [u8; 5]
;;
TpTp1Ena::SIZE ==> TpTp1Ena::SIZE()
;;
[u8; TpSyncGnssTp1::SIZE] ==> [u8; 5]
;;
TpSyncGnssTp1::SIZE ==> TpSyncGnssTp1::SIZE()
;;
[u8; TpUseLockedTp1::SIZE] ==> [u8; 5]
;;
TpUseLockedTp1::SIZE ==> TpUseLockedTp1::SIZE()
;;
[u8; TpAlignToTowTp1::SIZE] ==> [u8; 5]
;;
TpAlignToTowTp1::SIZE ==> TpAlignToTowTp1::SIZE()
;;
[u8; TpPolTp1::SIZE] ==> [u8; 5]
;;
TpPolTp1::SIZE ==> TpPolTp1::SIZE()
;;
[u8; TpTimegridTp1::SIZE] ==> [u8; 5]
;;
TpTimegridTp1::SIZE ==> TpTimegridTp1::SIZE()
