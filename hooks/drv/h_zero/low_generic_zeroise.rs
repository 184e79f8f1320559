#[unsafe(no_mangle)]
pub fn gvd_zero8(buf: &mut [u8]) { super::zeroise(buf) }
#[cfg(target_arch = "x86_64")]
#[unsafe(no_mangle)]
pub fn gvd_zero(kind: u32, buf: &mut [u64], a: usize, b: usize) {
    use core::arch::x86_64::*;
    // SAFETY: verification only; `buf` holds 40 words, the vectors are written in place of its words
    unsafe {
        match kind {
            0 => super::zeroise(&mut buf[a..b]),
            1 => { let s: &mut [usize] = core::slice::from_raw_parts_mut(buf[a..b].as_mut_ptr().cast(), b - a); super::zeroise(s) }
            2 => super::zeroise_value(&mut buf[a]),
            3 => { let mut v: __m128i = core::ptr::read_unaligned(buf[8..].as_ptr().cast()); super::zeroise_value(&mut v); core::ptr::write_unaligned(buf[8..].as_mut_ptr().cast(), v) }
            4 => { let mut v: __m256i = core::ptr::read_unaligned(buf[8..].as_ptr().cast()); super::zeroise_value(&mut v); core::ptr::write_unaligned(buf[8..].as_mut_ptr().cast(), v) }
            5 => { let mut v: __m512i = core::ptr::read_unaligned(buf[8..].as_ptr().cast()); super::zeroise_value(&mut v); core::ptr::write_unaligned(buf[8..].as_mut_ptr().cast(), v) }
            _ => { let n = (b - a).min(6); let mut v: [__m128i; 6] = core::ptr::read_unaligned(buf[8..].as_ptr().cast()); super::zeroise(&mut v[..n]); core::ptr::write_unaligned(buf[8..].as_mut_ptr().cast(), v) }
        }
    }
}
