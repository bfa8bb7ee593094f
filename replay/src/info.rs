//! Generated by tools/geninfo.py from spec/layout.json.
use ublox::PacketRef;
/// Name, class, id and payload of a packet.
#[allow(unreachable_patterns)]
pub fn info<'a>(p: &'a PacketRef<'_>) -> Option<(&'static str, u8, u8, &'a [u8])> {
    let (c, i) = p.class_and_msg_id();
    Some(match p {
        PacketRef::NavPosLlh(x) => ("NavPosLlh", c, i, x.as_bytes()),
        PacketRef::NavStatus(x) => ("NavStatus", c, i, x.as_bytes()),
        PacketRef::NavDop(x) => ("NavDop", c, i, x.as_bytes()),
        PacketRef::NavPvt(x) => ("NavPvt", c, i, x.as_bytes()),
        PacketRef::NavSolution(x) => ("NavSolution", c, i, x.as_bytes()),
        PacketRef::NavVelNed(x) => ("NavVelNed", c, i, x.as_bytes()),
        PacketRef::NavHpPosLlh(x) => ("NavHpPosLlh", c, i, x.as_bytes()),
        PacketRef::NavHpPosEcef(x) => ("NavHpPosEcef", c, i, x.as_bytes()),
        PacketRef::NavTimeUTC(x) => ("NavTimeUTC", c, i, x.as_bytes()),
        PacketRef::NavTimeLs(x) => ("NavTimeLs", c, i, x.as_bytes()),
        PacketRef::NavSat(x) => ("NavSat", c, i, x.as_bytes()),
        PacketRef::NavEoe(x) => ("NavEoe", c, i, x.as_bytes()),
        PacketRef::NavOdo(x) => ("NavOdo", c, i, x.as_bytes()),
        PacketRef::CfgOdo(x) => ("CfgOdo", c, i, x.as_bytes()),
        PacketRef::MgaAck(x) => ("MgaAck", c, i, x.as_bytes()),
        PacketRef::MgaGpsIono(x) => ("MgaGpsIono", c, i, x.as_bytes()),
        PacketRef::MgaGpsEph(x) => ("MgaGpsEph", c, i, x.as_bytes()),
        PacketRef::MgaGloEph(x) => ("MgaGloEph", c, i, x.as_bytes()),
        PacketRef::AlpSrv(x) => ("AlpSrv", c, i, x.as_bytes()),
        PacketRef::AckAck(x) => ("AckAck", c, i, x.as_bytes()),
        PacketRef::AckNak(x) => ("AckNak", c, i, x.as_bytes()),
        PacketRef::CfgItfm(x) => ("CfgItfm", c, i, x.as_bytes()),
        PacketRef::CfgPrtI2c(x) => ("CfgPrtI2c", c, i, x.as_bytes()),
        PacketRef::CfgPrtSpi(x) => ("CfgPrtSpi", c, i, x.as_bytes()),
        PacketRef::CfgPrtUart(x) => ("CfgPrtUart", c, i, x.as_bytes()),
        PacketRef::CfgNav5(x) => ("CfgNav5", c, i, x.as_bytes()),
        PacketRef::CfgAnt(x) => ("CfgAnt", c, i, x.as_bytes()),
        PacketRef::CfgTmode2(x) => ("CfgTmode2", c, i, x.as_bytes()),
        PacketRef::CfgTmode3(x) => ("CfgTmode3", c, i, x.as_bytes()),
        PacketRef::CfgTp5(x) => ("CfgTp5", c, i, x.as_bytes()),
        PacketRef::InfError(x) => ("InfError", c, i, x.as_bytes()),
        PacketRef::InfWarning(x) => ("InfWarning", c, i, x.as_bytes()),
        PacketRef::InfNotice(x) => ("InfNotice", c, i, x.as_bytes()),
        PacketRef::InfTest(x) => ("InfTest", c, i, x.as_bytes()),
        PacketRef::InfDebug(x) => ("InfDebug", c, i, x.as_bytes()),
        PacketRef::RxmRawx(x) => ("RxmRawx", c, i, x.as_bytes()),
        PacketRef::TimTp(x) => ("TimTp", c, i, x.as_bytes()),
        PacketRef::TimTm2(x) => ("TimTm2", c, i, x.as_bytes()),
        PacketRef::MonVer(x) => ("MonVer", c, i, x.as_bytes()),
        PacketRef::MonGnss(x) => ("MonGnss", c, i, x.as_bytes()),
        PacketRef::MonHw(x) => ("MonHw", c, i, x.as_bytes()),
        PacketRef::RxmRtcm(x) => ("RxmRtcm", c, i, x.as_bytes()),
        PacketRef::EsfMeas(x) => ("EsfMeas", c, i, x.as_bytes()),
        PacketRef::EsfIns(x) => ("EsfIns", c, i, x.as_bytes()),
        PacketRef::HnrAtt(x) => ("HnrAtt", c, i, x.as_bytes()),
        PacketRef::HnrIns(x) => ("HnrIns", c, i, x.as_bytes()),
        PacketRef::HnrPvt(x) => ("HnrPvt", c, i, x.as_bytes()),
        PacketRef::NavAtt(x) => ("NavAtt", c, i, x.as_bytes()),
        PacketRef::NavClock(x) => ("NavClock", c, i, x.as_bytes()),
        PacketRef::NavVelECEF(x) => ("NavVelECEF", c, i, x.as_bytes()),
        PacketRef::MgaGpsEPH(x) => ("MgaGpsEPH", c, i, x.as_bytes()),
        PacketRef::RxmSfrbx(x) => ("RxmSfrbx", c, i, x.as_bytes()),
        PacketRef::EsfRaw(x) => ("EsfRaw", c, i, x.as_bytes()),
        PacketRef::TimSvin(x) => ("TimSvin", c, i, x.as_bytes()),
        PacketRef::SecUniqId(x) => ("SecUniqId", c, i, x.as_bytes()),
        PacketRef::Unknown(u) => ("Unknown", u.class, u.msg_id, u.payload),
        _ => return None,
    })
}
/// Class, id, least payload length and whether the length is fixed, per message.
pub const KNOWN: &[(&str, u8, u8, usize, bool)] = &[
    ("NavPosLlh", 1, 2, 28, true),
    ("NavStatus", 1, 3, 16, true),
    ("NavDop", 1, 4, 18, true),
    ("NavPvt", 1, 7, 92, true),
    ("NavSolution", 1, 6, 52, true),
    ("NavVelNed", 1, 18, 36, true),
    ("NavHpPosLlh", 1, 20, 36, true),
    ("NavHpPosEcef", 1, 19, 28, true),
    ("NavTimeUTC", 1, 33, 20, true),
    ("NavTimeLs", 1, 38, 24, true),
    ("NavSat", 1, 53, 8, false),
    ("NavEoe", 1, 97, 4, true),
    ("NavOdo", 1, 9, 20, true),
    ("CfgOdo", 6, 30, 20, true),
    ("MgaAck", 19, 96, 8, true),
    ("MgaGpsIono", 19, 0, 16, true),
    ("MgaGpsEph", 19, 0, 68, true),
    ("MgaGloEph", 19, 6, 48, true),
    ("AlpSrv", 11, 50, 16, true),
    ("AckAck", 5, 1, 2, true),
    ("AckNak", 5, 0, 2, true),
    ("CfgItfm", 6, 57, 8, true),
    ("CfgPrtI2c", 6, 0, 20, true),
    ("CfgPrtSpi", 6, 0, 20, true),
    ("CfgPrtUart", 6, 0, 20, true),
    ("CfgNav5", 6, 36, 36, true),
    ("CfgAnt", 6, 19, 4, true),
    ("CfgTmode2", 6, 61, 28, true),
    ("CfgTmode3", 6, 113, 40, true),
    ("CfgTp5", 6, 49, 32, true),
    ("InfError", 4, 0, 0, false),
    ("InfWarning", 4, 1, 0, false),
    ("InfNotice", 4, 2, 0, false),
    ("InfTest", 4, 3, 0, false),
    ("InfDebug", 4, 4, 0, false),
    ("RxmRawx", 2, 21, 16, false),
    ("TimTp", 13, 1, 16, true),
    ("TimTm2", 13, 3, 28, true),
    ("MonVer", 10, 4, 40, false),
    ("MonGnss", 10, 40, 8, true),
    ("MonHw", 10, 9, 60, true),
    ("RxmRtcm", 2, 50, 8, true),
    ("EsfMeas", 16, 2, 8, false),
    ("EsfIns", 16, 21, 36, true),
    ("HnrAtt", 40, 1, 32, true),
    ("HnrIns", 40, 2, 36, true),
    ("HnrPvt", 40, 0, 72, true),
    ("NavAtt", 1, 5, 32, true),
    ("NavClock", 1, 34, 20, true),
    ("NavVelECEF", 1, 17, 20, true),
    ("MgaGpsEPH", 19, 0, 68, true),
    ("RxmSfrbx", 2, 19, 8, false),
    ("EsfRaw", 16, 3, 4, false),
    ("TimSvin", 13, 4, 28, true),
    ("SecUniqId", 39, 3, 9, true),
];
