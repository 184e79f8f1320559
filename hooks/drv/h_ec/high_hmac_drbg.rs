use crate::high::hash::{Sha256, Sha384, Sha512};
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_hmac_drbg(hash: u8, a: &[u8], b: &[u8], c: &[u8], outs: &mut [&mut [u8]]) {
    fn go<H: Hash>(a: &[u8], b: &[u8], c: &[u8], outs: &mut [&mut [u8]]) {
        let mut d = HmacDrbg::<H>::new(a, b, c);
        for o in outs { d.fill(o).unwrap(); }
    }
    match hash { 0 => go::<Sha256>(a, b, c, outs), 1 => go::<Sha384>(a, b, c, outs), _ => go::<Sha512>(a, b, c, outs) }
}
