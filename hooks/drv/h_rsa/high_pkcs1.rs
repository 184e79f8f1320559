struct FnRng<'a>(&'a [u8]);
impl RandomSource for FnRng<'_> {
    fn fill(&mut self, out: &mut [u8]) -> Result<(), Error> { if self.0.len() < out.len() { return Err(Error::RngFailed) } out.copy_from_slice(&self.0[..out.len()]); self.0 = &self.0[out.len()..]; Ok(()) }
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_pss_encode(h: u32, out: &mut [u8], salt: &[u8], hash: &[u8]) -> bool {
    match h { 0 => encode_pss_sig::<super::super::hash::Sha256>(out, &mut FnRng(salt), hash), 1 => encode_pss_sig::<super::super::hash::Sha384>(out, &mut FnRng(salt), hash), _ => encode_pss_sig::<super::super::hash::Sha512>(out, &mut FnRng(salt), hash) }.is_ok()
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_pss_verify(h: u32, em: &mut [u8], hash: &[u8]) -> bool {
    match h { 0 => verify_pss_sig::<super::super::hash::Sha256>(em, hash), 1 => verify_pss_sig::<super::super::hash::Sha384>(em, hash), _ => verify_pss_sig::<super::super::hash::Sha512>(em, hash) }.is_ok()
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_pkcs1_encode(h: u32, out: &mut [u8], hash: &[u8]) {
    encode_pkcs1_sig(out, match h { 0 => DIGESTINFO_SHA256, 1 => DIGESTINFO_SHA384, _ => DIGESTINFO_SHA512 }, hash)
}
