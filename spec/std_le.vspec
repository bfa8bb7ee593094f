%# The standard library's little-endian conversions: the contracts that spec/pk.vspec and
%# spec/build.vspec give to their wrappers, checked over the whole domain by Kani.
%plain
%prelude
#[cfg(kani)]
mod h {
    fn us(v: i128, h: i128) -> i128 { if v < 0 { v + 2 * h } else { v } }
    fn sg(v: i128, h: i128) -> i128 { if v >= h { v - 2 * h } else { v } }
    fn val(b: &[u8]) -> i128 {
        match b.len() {
            1 => b[0] as i128,
            2 => b[0] as i128 + 256 * b[1] as i128,
            4 => b[0] as i128 + 0x100 * b[1] as i128 + 0x1_0000 * b[2] as i128 + 0x100_0000 * b[3] as i128,
            8 => val(&b[..4]) + 0x1_0000_0000 * val(&b[4..]),
            _ => unreachable!(),
        }
    }
    #[kani::proof] fn u8_from() { let b: [u8; 1] = kani::any(); assert!(u8::from_le_bytes(b) as i128 == val(&b)); }
    #[kani::proof] fn u8_to() { let x: u8 = kani::any(); assert!(val(&x.to_le_bytes()) == x as i128); }
    #[kani::proof] fn i8_from() { let b: [u8; 1] = kani::any(); assert!(i8::from_le_bytes(b) as i128 == sg(val(&b), 1 << 7)); }
    #[kani::proof] fn i8_to() { let x: i8 = kani::any(); assert!(val(&x.to_le_bytes()) == us(x as i128, 1 << 7)); }
    #[kani::proof] fn u16_from() { let b: [u8; 2] = kani::any(); assert!(u16::from_le_bytes(b) as i128 == val(&b)); }
    #[kani::proof] fn u16_to() { let x: u16 = kani::any(); assert!(val(&x.to_le_bytes()) == x as i128); }
    #[kani::proof] fn i16_from() { let b: [u8; 2] = kani::any(); assert!(i16::from_le_bytes(b) as i128 == sg(val(&b), 1 << 15)); }
    #[kani::proof] fn i16_to() { let x: i16 = kani::any(); assert!(val(&x.to_le_bytes()) == us(x as i128, 1 << 15)); }
    #[kani::proof] fn u32_from() { let b: [u8; 4] = kani::any(); assert!(u32::from_le_bytes(b) as i128 == val(&b)); }
    #[kani::proof] fn u32_to() { let x: u32 = kani::any(); assert!(val(&x.to_le_bytes()) == x as i128); }
    #[kani::proof] fn i32_from() { let b: [u8; 4] = kani::any(); assert!(i32::from_le_bytes(b) as i128 == sg(val(&b), 1 << 31)); }
    #[kani::proof] fn i32_to() { let x: i32 = kani::any(); assert!(val(&x.to_le_bytes()) == us(x as i128, 1 << 31)); }
    #[kani::proof] fn u64_from() { let b: [u8; 8] = kani::any(); assert!(u64::from_le_bytes(b) as i128 == val(&b)); }
    #[kani::proof] fn u64_to() { let x: u64 = kani::any(); assert!(val(&x.to_le_bytes()) == x as i128); }
    #[kani::proof] fn usize_to() { let x: usize = kani::any(); assert!(val(&x.to_le_bytes()) == x as i128); }
    // a float is the one with the bit pattern read (f32_bits, f64_bits of spec/pk.vspec are from_bits)
    #[kani::proof] fn f32_from() { let b: [u8; 4] = kani::any(); assert!(f32::from_le_bytes(b).to_bits() as i128 == val(&b) && f32::from_bits(val(&b) as u32).to_bits() as i128 == val(&b)); }
    #[kani::proof] fn f64_from() { let b: [u8; 8] = kani::any(); assert!(f64::from_le_bytes(b).to_bits() as i128 == val(&b) && f64::from_bits(val(&b) as u64).to_bits() as i128 == val(&b)); }
    #[kani::proof] fn f32_to() { let b: [u8; 4] = kani::any(); assert!(f32::from_le_bytes(b).to_le_bytes() == b); }
    #[kani::proof] fn f64_to() { let b: [u8; 8] = kani::any(); assert!(f64::from_le_bytes(b).to_le_bytes() == b); }
    // integers that a float represents exactly are converted without loss
    #[kani::proof] fn f64_of_i32() { let x: i32 = kani::any(); assert!(f64::from(x) as i64 == x as i64); }
    #[kani::proof] fn f64_of_u32() { let x: u32 = kani::any(); assert!(f64::from(x) as i64 == x as i64); }
    #[kani::proof] fn f64_of_small() { let (a, b, c, d): (u8, i8, u16, i16) = kani::any(); assert!(f64::from(a) as i64 == a as i64 && f64::from(b) as i64 == b as i64 && f64::from(c) as i64 == c as i64 && f64::from(d) as i64 == d as i64); }
    #[kani::proof] fn f32_of_small() { let (a, b, c, d): (u8, i8, u16, i16) = kani::any(); assert!(f32::from(a) as i64 == a as i64 && f32::from(b) as i64 == b as i64 && f32::from(c) as i64 == c as i64 && f32::from(d) as i64 == d as i64); }
    #[kani::proof] fn u8_overflowing_add() { let (a, b): (u8, u8) = (kani::any(), kani::any()); let s = a as u16 + b as u16; assert!(a.overflowing_add(b) == ((s % 256) as u8, s > 255)); }
    #[kani::proof]
    #[kani::should_panic]
    fn probe() { let x: u16 = kani::any(); assert!(val(&x.to_le_bytes()) != 77); }
}
