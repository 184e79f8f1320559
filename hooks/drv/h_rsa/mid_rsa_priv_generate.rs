struct FnRng<'a>(&'a mut dyn FnMut(&mut [u8]) -> bool);
impl RandomSource for FnRng<'_> {
    fn fill(&mut self, out: &mut [u8]) -> Result<(), Error> { if (self.0)(out) { Ok(()) } else { Err(Error::RngFailed) } }
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_rsa_generate(bits: usize, cand: &mut dyn FnMut(&mut [u8]) -> bool, wit: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<Vec<Vec<u8>>> {
    let k = super::generate_key(KeySize::try_from(bits).ok()?, &mut FnRng(cand), &mut FnRng(wit)).ok()?;
    let mut b = super::super::RsaComponentsBuffer::default();
    let c = k.encode_components(&mut b).ok()?;
    Some([c.public_modulus, c.public_exponent, c.d, c.p, c.q, c.dp, c.dq, c.iqmp].iter().map(|x| x.to_vec()).collect())
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_rsa_is_prime(w: &[u8], rng: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<bool> {
    super::is_prime(&PosInt::from_bytes(w).unwrap(), KeySize::Rsa2048, &mut FnRng(rng)).ok()
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_rsa_mr_base(w: &[u8], b: &[u8]) -> u8 {
    let w = PosInt::from_bytes(w).unwrap();
    match super::MillerRabinParams::new(&w).check_base(&PosInt::from_bytes(b).unwrap()) { MillerRabinResult::UnsuitableBase => 2, MillerRabinResult::PossiblyPrime => 1, MillerRabinResult::Composite => 0 }
}
