#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_chacha20(key: &[u8; 32], nonce: &[u8; 16], chunks: &mut [&mut [u8]]) {
    let mut c = ChaCha20::new(key, nonce);
    for x in chunks { c.cipher(x); }
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_hchacha(key: &[u8; 32], nonce: &[u8; 16]) -> [u8; 32] {
    let mut n = [0u8; 24];
    n[..16].copy_from_slice(nonce);
    let c = XChaCha20::new(key, &n).0;
    // SAFETY: plain vector data
    let (a, b): ([u8; 32], [u8; 32]) = unsafe { (core::mem::transmute(c.z07), core::mem::transmute(c.z8f)) };
    let mut o = [0u8; 32];
    o[..16].copy_from_slice(&a[..16]);
    o[16..].copy_from_slice(&b[16..]);
    o
}
