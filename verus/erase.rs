// C21: what each owner of secrets leaves behind when dropped. The contract of a Drop impl speaks of every field holding secrets;
// `zeroise` (x86-64 assembly behind two raw-pointer wrappers) is the assumed leaf, evaluated by the driver for all sizes.
use vstd::prelude::*;
//@use std.rs
verus! {
pub trait Zero { spec fn is_zero(&self) -> bool; }
impl Zero for [u8] { open spec fn is_zero(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> self@[i] == 0 } }
impl Zero for [u64] { open spec fn is_zero(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> self@[i] == 0 } }
impl<const K: usize> Zero for [u8; K] { open spec fn is_zero(&self) -> bool { forall|i: int| 0 <= i < K ==> self@[i] == 0 } }
impl<const K: usize> Zero for [u64; K] { open spec fn is_zero(&self) -> bool { forall|i: int| 0 <= i < K ==> self@[i] == 0 } }
impl Zero for u64 { open spec fn is_zero(&self) -> bool { *self == 0 } }
impl Zero for usize { open spec fn is_zero(&self) -> bool { *self == 0 } }
pub mod low { use super::*;
#[verifier::external_body] pub fn zeroise<T: Zero + ?Sized>(v: &mut T) ensures final(v).is_zero() { unimplemented!() }
#[verifier::external_body] pub fn zeroise_slice(v: &mut [u64]) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> final(v)@[i] == 0 { unimplemented!() }
#[verifier::external_body] pub fn zeroise_value<T: Zero + ?Sized>(v: &mut T) ensures final(v).is_zero() { unimplemented!() }
}
use low::zeroise;
//@item graviola/src/mid/chacha20poly1305.rs :: struct ChaCha20Poly1305
impl ChaCha20Poly1305 {
//@fn graviola/src/mid/chacha20poly1305.rs :: impl Drop for ChaCha20Poly1305 :: drop
//@ spec
    ensures final(self).key.is_zero()
//@end
}
//@item graviola/src/mid/xchacha20poly1305.rs :: struct XChaCha20Poly1305
impl XChaCha20Poly1305 {
//@fn graviola/src/mid/xchacha20poly1305.rs :: impl Drop for XChaCha20Poly1305 :: drop
//@ spec
    ensures final(self).key.is_zero()
//@end
}
//@item graviola/src/low/posint.rs :: struct PosInt
impl<const N: usize> PosInt<N> {
    pub open spec fn wf(self) -> bool { self.used <= N }
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: as_mut_words
//@ ret r
//@ spec
    requires old(self).wf()
    ensures r@ == old(self).words@.take(old(self).used as int), final(r)@.len() == r@.len() ==> final(self).used == old(self).used && final(self).words@.take(old(self).used as int) == final(r)@
        && final(self).words@.skip(old(self).used as int) == old(self).words@.skip(old(self).used as int)
//@end
}
//@item graviola/src/low/posint.rs :: struct SecretPosInt
impl<const N: usize> SecretPosInt<N> {
//@fn graviola/src/low/posint.rs :: impl<const N: usize> Drop for SecretPosInt<N> :: drop
//@ sub low::zeroise\(self\.as_mut_words\(\)\) => low::zeroise_slice(self.0.as_mut_words())
//@ sub \bself\.used => self.0.used
//@ spec
    requires old(self).0.wf(), forall|i: int| old(self).0.used <= i < N ==> old(self).0.words@[i] == 0
    ensures final(self).0.words.is_zero(), final(self).0.used == 0
//@ begin
    let ghost w = self.0.words@; let ghost u = self.0.used as int;
//@ after low::zeroise_slice
    proof { let z = self.0.words@; assert forall|i: int| 0 <= i < N implies z[i] == 0 by { if i < u { assert(z.take(u)[i] == 0); } else { assert(z.skip(u)[i - u] == w.skip(u)[i - u]); } } }
//@end
}
} // verus!
pub mod ed25519 { use super::*; verus! {
//@item graviola/src/mid/ed25519.rs :: struct UnreducedScalar
//@item graviola/src/mid/ed25519.rs :: struct EdwardsPoint
//@item graviola/src/mid/ed25519.rs :: struct VerifyingKey
//@item graviola/src/mid/ed25519.rs :: struct SigningKey
impl SigningKey {
//@fn graviola/src/mid/ed25519.rs :: impl Drop for SigningKey :: drop
//@ spec
    ensures final(self).seed.is_zero(), final(self).s.0.is_zero(), final(self).prefix.is_zero()
//@end
}
} }
pub mod x25519 { use super::*; verus! {
//@item graviola/src/mid/x25519.rs :: struct PrivateKey
impl PrivateKey {
//@fn graviola/src/mid/x25519.rs :: impl Drop for PrivateKey :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
//@item graviola/src/mid/x25519.rs :: struct SharedSecret
impl SharedSecret {
//@fn graviola/src/mid/x25519.rs :: impl Drop for SharedSecret :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
} }
pub mod mlkem { use super::*; verus! {
pub struct EncapKey;
pub const K: usize = 3;
//@item graviola/src/mid/mlkem768.rs :: struct DecapKey
impl DecapKey {
//@fn graviola/src/mid/mlkem768.rs :: impl Drop for DecapKey :: drop
//@ spec
    ensures final(self).dk_pke.is_zero(), final(self).z.is_zero()
//@end
}
//@item graviola/src/mid/mlkem768.rs :: struct Message
impl Message {
//@fn graviola/src/mid/mlkem768.rs :: impl Drop for Message :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
//@item graviola/src/mid/mlkem768.rs :: struct SharedSecret
impl SharedSecret {
//@fn graviola/src/mid/mlkem768.rs :: impl Drop for SharedSecret :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
} }
pub mod p256 { use super::*; verus! {
pub struct FieldElement { }
impl FieldElement { pub const BYTES: usize = 32; }
//@use erase_ec.rs F=graviola/src/mid/p256.rs
} }
pub mod p384 { use super::*; verus! {
pub struct FieldElement { }
impl FieldElement { pub const BYTES: usize = 48; }
//@use erase_ec.rs F=graviola/src/mid/p384.rs
} }
pub mod rsa { use super::*; verus! {
pub struct RsaPublicKey;
// 2048-bit primes and 4096-bit moduli
pub type SecretRsaPosIntModP = SecretPosInt<64>;
pub type SecretRsaPosIntD = SecretPosInt<128>;
//@item graviola/src/mid/rsa_priv.rs :: struct RsaPrivateKey
impl RsaPrivateKey {
//@fn graviola/src/mid/rsa_priv.rs :: impl Drop for RsaPrivateKey :: drop
//@ spec
    ensures final(self).p0 == 0, final(self).q0 == 0
//@end
}
//@item graviola/src/mid/rsa_priv.rs :: struct RsaComponentsBuffer
impl RsaComponentsBuffer {
pub const LEN: usize = 3598;
//@fn graviola/src/mid/rsa_priv.rs :: impl Drop for RsaComponentsBuffer :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
} }
fn main() {}
