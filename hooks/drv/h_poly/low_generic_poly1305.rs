#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_poly1305(key: &[u8; 32], chunks: &[&[u8]]) -> [u8; 16] {
    let mut p = Poly1305::new(key);
    for c in chunks { p.add_bytes(c); }
    p.finish()
}
