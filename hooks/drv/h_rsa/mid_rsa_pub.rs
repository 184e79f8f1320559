#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_rsa_public_op(n: &[u8], e: u32, c: &[u8]) -> Option<Vec<u8>> {
    let k = RsaPublicKey::new(RsaPosInt::from_bytes(n).unwrap(), e).unwrap();
    let m = k.public_op(RsaPosInt::from_bytes(c).unwrap()).ok()?;
    let mut b = vec![0u8; 1024];
    m.to_bytes_fixed(&mut b).unwrap();
    Some(b)
}
