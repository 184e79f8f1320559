use crate::high::hash::{Sha256, Sha384, Sha512};
use crate::high::curve::{P256, P384};
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ecdsa_rfc6979(curve: u8, hash: u8, d: &[u8], m: &[&[u8]], random: &[u8], out: &mut [u8]) -> usize {
    fn go<C: Curve>(hash: u8, d: &[u8], m: &[&[u8]], random: &[u8], out: &mut [u8]) -> usize {
        let k = SigningKey::<C> { private_key: C::PrivateKey::from_bytes(d).unwrap() };
        match hash {
            0 => k.rfc6979_sign_with_random::<Sha256>(m, random, out),
            1 => k.rfc6979_sign_with_random::<Sha384>(m, random, out),
            _ => k.rfc6979_sign_with_random::<Sha512>(m, random, out),
        }.map(|x| x.len()).unwrap_or(0)
    }
    if curve == 0 { go::<P256>(hash, d, m, random, out) } else { go::<P384>(hash, d, m, random, out) }
}
