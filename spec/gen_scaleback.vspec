%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%postlude
#[cfg(kani)]
mod h {
    use super::*;
    #[kani::proof_for_contract(ScaleBack::<f32>::as_i16)]
    fn as_i16__f32_1_0() { ScaleBack::<f32>(1. / 1.0).as_i16(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f32>::as_i8)]
    fn as_i8__f32_1_0() { ScaleBack::<f32>(1. / 1.0).as_i8(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f32>::as_u16)]
    fn as_u16__f32_0_1() { ScaleBack::<f32>(1. / 0.1).as_u16(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f32>::as_u8)]
    fn as_u8__f32_0_01() { ScaleBack::<f32>(1. / 0.01).as_u8(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f64>::as_i32)]
    fn as_i32__f64_0_01() { ScaleBack::<f64>(1. / 0.01).as_i32(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f64>::as_i32)]
    fn as_i32__f64_1_0() { ScaleBack::<f64>(1. / 1.0).as_i32(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f64>::as_u32)]
    fn as_u32__f64_0_0001() { ScaleBack::<f64>(1. / 0.0001).as_u32(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f64>::as_u32)]
    fn as_u32__f64_0_001() { ScaleBack::<f64>(1. / 0.001).as_u32(kani::any()); }
    #[kani::proof_for_contract(ScaleBack::<f64>::as_u32)]
    fn as_u32__f64_1_0() { ScaleBack::<f64>(1. / 1.0).as_u32(kani::any()); }
    /// must fail: the contracts are not vacuous
    #[kani::proof]
    #[kani::should_panic]
    fn probe() { let x: f32 = kani::any(); let r = ScaleBack::<f32>(1.).as_i8(x); assert!(r != 77); }
}
%fn ScaleBack::as_i16 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, i16::MIN as f64, i16::MAX as f64)))]
%fn ScaleBack::as_i32 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, i32::MIN as f64, i32::MAX as f64)))]
%fn ScaleBack::as_i8 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, i8::MIN as f64, i8::MAX as f64)))]
%fn ScaleBack::as_u16 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, u16::MIN as f64, u16::MAX as f64)))]
%fn ScaleBack::as_u32 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, u32::MIN as f64, u32::MAX as f64)))]
%fn ScaleBack::as_u8 | attr=#[cfg_attr(kani, kani::ensures(|r| encodes(self.0, x, *r as f64, u8::MIN as f64, u8::MAX as f64)))]
