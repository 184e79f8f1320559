struct FnRng<'a>(&'a mut dyn FnMut(&mut [u8]) -> bool);
impl RandomSource for FnRng<'_> {
    fn fill(&mut self, out: &mut [u8]) -> Result<(), Error> { if (self.0)(out) { Ok(()) } else { Err(Error::RngFailed) } }
}
fn enc(p: &JacobianMontPoint) -> Vec<u8> { if p.public_is_infinity() { vec![0] } else { p.as_affine().as_bytes_uncompressed().to_vec() } }
fn sc(b: &[u8; 48]) -> Scalar { Scalar::from_bytes_reduced(b).unwrap() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_raw_verify(q: &[u8], r: &[u8; 48], s: &[u8; 48], e: &[u8; 48]) -> bool {
    PublicKey::from_x962_uncompressed(q).unwrap().raw_ecdsa_verify(&sc(r), &sc(s), &sc(e)).is_ok()
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_raw_sign(d: &[u8; 48], k: &[u8; 48], e: &[u8; 48]) -> ([u8; 48], [u8; 48]) {
    let d = StaticPrivateKey::from_bytes(d).unwrap();
    let k = StaticPrivateKey::from_bytes(k).unwrap();
    let r = k.public_key_x_scalar();
    let s = d.raw_ecdsa_sign(&k, &sc(e), &r);
    (r.as_bytes(), s.as_bytes())
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_generate(rng: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<[u8; 48]> {
    StaticPrivateKey::generate(&mut FnRng(rng)).ok().map(|k| k.as_bytes())
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_scalar_reduced(b: &[u8]) -> Option<[u8; 48]> { Scalar::from_bytes_reduced(b).ok().map(|s| s.as_bytes()) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_public_base(k: &[u8; 48]) -> Vec<u8> { enc(&JacobianMontPoint::public_base_multiply(&sc(k))) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_p384_public_mul(k: &[u8; 48], q: &[u8]) -> Vec<u8> {
    let q = PublicKey::from_x962_uncompressed(q).unwrap();
    enc(&JacobianMontPoint::public_multiply_w5(&sc(k), &q.precomp_w5))
}
