%# Bounded: the unsafe code and the contracts assumed for the standard library (ptr::copy, Vec::drain, Write for Vec),
%# on the real crate, for buffers of up to 5 bytes with arbitrary content. Never counted as proved.
%plain
%prelude
#[cfg(kani)]
mod h {
    use ublox::{FixedLinearBuffer, UnderlyingBuffer};
    /// what a buffer holds is the first `n` bytes of `m`
    fn holds<B: UnderlyingBuffer>(b: &B, m: &[u8; 10], n: usize) {
        assert!(b.len() == n);
        let i: usize = kani::any();
        if i < n { assert!(b[i] == m[i]); }
    }
    fn append(m: &mut [u8; 10], n: usize, x: &[u8]) { let mut i = 0; while i < x.len() { m[n + i] = x[i]; i += 1; } }
    fn remove(m: &mut [u8; 10], n: usize, k: usize) { let mut i = 0; while i + k < n { m[i] = m[i + k]; i += 1; } }
    fn ops<B: UnderlyingBuffer>(mut b: B, cap: usize) {
        let mut m = [0u8; 10];
        let a: [u8; 5] = kani::any();
        let na: usize = kani::any();
        kani::assume(na <= 5);
        let lost = b.extend_from_slice(&a[..na]);
        let n = if na < cap { na } else { cap };
        assert!(lost == na - n);
        append(&mut m, 0, &a[..n]);
        holds(&b, &m, n);
        let k: usize = kani::any();
        kani::assume(k <= n);
        b.drain(k);
        remove(&mut m, n, k);
        holds(&b, &m, n - k);
        let v: u8 = kani::any();
        let f = b.find(v);
        let i: usize = kani::any();
        if i < n - k && m[i] == v { assert!(matches!(f, Some(j) if j <= i)); }
        if let Some(j) = f { assert!(j < n - k && m[j] == v); }
        let nb: usize = kani::any();
        kani::assume(nb <= 3);
        let lost = b.extend_from_slice(&a[..nb]);
        let more = if nb < cap - (n - k) { nb } else { cap - (n - k) };
        assert!(lost == nb - more);
        append(&mut m, n - k, &a[..more]);
        holds(&b, &m, n - k + more);
        b.clear();
        assert!(b.len() == 0);
    }
    #[kani::proof]
    #[kani::unwind(11)]
    fn fixed_buffer() {
        let mut mem: [u8; 5] = kani::any();
        let cap: usize = kani::any();
        kani::assume(cap <= 5);
        ops(FixedLinearBuffer::new(&mut mem[..cap]), cap);
    }
    #[kani::proof]
    #[kani::unwind(11)]
    fn vec_drain_front() {
        let a: [u8; 4] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 4);
        let mut v: Vec<u8> = Vec::from(a);
        v.drain(0..n);
        assert!(v.len() == 4 - n);
        let i: usize = kani::any();
        if i < 4 - n { assert!(v[i] == a[n + i]); }
    }
    #[kani::proof]
    #[kani::unwind(11)]
    fn slice_ptr_copy() {
        let a: [u8; 6] = kani::any();
        let mut s = a;
        let (from, n): (usize, usize) = kani::any();
        kani::assume(from <= 6 && n <= 6 && from + n <= 6);
        let p = s.as_mut_ptr();
        unsafe { core::ptr::copy(p.add(from), p, n); }
        let i: usize = kani::any();
        if i < n { assert!(s[i] == a[from + i]); } else if i < 6 { assert!(s[i] == a[i]); }
    }
    #[kani::proof]
    #[kani::unwind(11)]
    fn vec_io_write() {
        let a: [u8; 4] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 4);
        let mut v: Vec<u8> = vec![7, 8];
        let r = std::io::Write::write(&mut v, &a[..n]);
        assert!(matches!(r, Ok(k) if k == n));
        assert!(v.len() == 2 + n && v[0] == 7 && v[1] == 8);
        let i: usize = kani::any();
        if i < n { assert!(v[2 + i] == a[i]); }
    }
    #[kani::proof]
    #[kani::should_panic]
    fn probe() { let x: u8 = kani::any(); assert!(x != 77); }
}
