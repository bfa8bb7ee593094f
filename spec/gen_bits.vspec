%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%plain
%prelude
#[cfg(kani)]
mod h {
    #[kani::proof] fn NavHpPosEcefFlags() { let x: u8 = kani::any(); assert!(ublox::NavHpPosEcefFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavHpPosEcefFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavPvtFlags() { let x: u8 = kani::any(); assert!(ublox::NavPvtFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavPvtFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavPvtFlags2() { let x: u8 = kani::any(); assert!(ublox::NavPvtFlags2::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavPvtFlags2::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavStatusFlags() { let x: u8 = kani::any(); assert!(ublox::NavStatusFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavStatusFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn OdoCogFilterFlags() { let x: u8 = kani::any(); assert!(ublox::OdoCogFilterFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::OdoCogFilterFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgInfMask() { let x: u8 = kani::any(); assert!(ublox::CfgInfMask::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::CfgInfMask::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn AntFlags() { let x: u16 = kani::any(); assert!(ublox::AntFlags::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::AntFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgTmode2Flags() { let x: u16 = kani::any(); assert!(ublox::CfgTmode2Flags::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::CfgTmode2Flags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavTimeLsFlags() { let x: u8 = kani::any(); assert!(ublox::NavTimeLsFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavTimeLsFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgTmode3RcvrMode() { let x: u8 = kani::any(); assert!(ublox::CfgTmode3RcvrMode::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::CfgTmode3RcvrMode::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgTp5Flags() { let x: u32 = kani::any(); assert!(ublox::CfgTp5Flags::from_bits_truncate(x).bits() == x & 0xffffffff); assert!(ublox::CfgTp5Flags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgTmode3Flags() { let x: u8 = kani::any(); assert!(ublox::CfgTmode3Flags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::CfgTmode3Flags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavBbrMask() { let x: u16 = kani::any(); assert!(ublox::NavBbrMask::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::NavBbrMask::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgLayer() { let x: u8 = kani::any(); assert!(ublox::CfgLayer::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::CfgLayer::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn InProtoMask() { let x: u16 = kani::any(); assert!(ublox::InProtoMask::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::InProtoMask::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn OutProtoMask() { let x: u16 = kani::any(); assert!(ublox::OutProtoMask::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::OutProtoMask::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn NavTimeUtcFlags() { let x: u8 = kani::any(); assert!(ublox::NavTimeUtcFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::NavTimeUtcFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgNav5Params() { let x: u16 = kani::any(); assert!(ublox::CfgNav5Params::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::CfgNav5Params::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgNavX5Params1() { let x: u16 = kani::any(); assert!(ublox::CfgNavX5Params1::from_bits_truncate(x).bits() == x & 0xffff); assert!(ublox::CfgNavX5Params1::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn CfgNavX5Params2() { let x: u32 = kani::any(); assert!(ublox::CfgNavX5Params2::from_bits_truncate(x).bits() == x & 0xffffffff); assert!(ublox::CfgNavX5Params2::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn RecStatFlags() { let x: u8 = kani::any(); assert!(ublox::RecStatFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::RecStatFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn MonGnssConstellMask() { let x: u8 = kani::any(); assert!(ublox::MonGnssConstellMask::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::MonGnssConstellMask::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn EsfInsBitFlags() { let x: u32 = kani::any(); assert!(ublox::EsfInsBitFlags::from_bits_truncate(x).bits() == x & 0xffffffff); assert!(ublox::EsfInsBitFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn HnrInsBitFlags() { let x: u32 = kani::any(); assert!(ublox::HnrInsBitFlags::from_bits_truncate(x).bits() == x & 0xffffffff); assert!(ublox::HnrInsBitFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn HnrPvtFlags() { let x: u8 = kani::any(); assert!(ublox::HnrPvtFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::HnrPvtFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn HnrPvtValidFlags() { let x: u8 = kani::any(); assert!(ublox::HnrPvtValidFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::HnrPvtValidFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn StdevFlags() { let x: u8 = kani::any(); assert!(ublox::StdevFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::StdevFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof] fn TrkStatFlags() { let x: u8 = kani::any(); assert!(ublox::TrkStatFlags::from_bits_truncate(x).bits() == x & 0xff); assert!(ublox::TrkStatFlags::from_bits_retain(x).bits() == x); }
    #[kani::proof]
    #[kani::should_panic]
    fn probe() { let x: u8 = kani::any(); assert!(ublox::NavHpPosEcefFlags::from_bits_truncate(x).bits() != 77); }
}
