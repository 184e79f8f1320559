verus! {
pub mod ed25519 { pub use crate::{SigningKey, VerifyingKey}; }
#[verifier::external_body] pub fn zeroise(v: &mut [u8]) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> final(v)@[i] == 0 { unimplemented!() }
//@item graviola/src/high/ed25519.rs :: struct Ed25519VerifyingKey
//@item graviola/src/high/ed25519.rs :: struct Ed25519SigningKey
pub open spec fn ed_valid(a: Seq<u8>, p: Pt, sig: Seq<u8>, m: Seq<u8>) -> bool {
    let (rb, s) = (sig.take(32), le_val(sig.skip(32)));
    sig.len() == 64 && s < ed_l() && le_val(rb) == ed_enc(ed_add(ed_mul(ed_h(rb + a + m), ed_neg(p)), ed_mul(s, ed_b())))
}
impl Ed25519VerifyingKey {
//@fn graviola/src/high/ed25519.rs :: impl Ed25519VerifyingKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == (bytes@.len() == 32 && ed_decode(bytes@).is_some()), r.is_ok() ==> r.unwrap().0.wf() && r.unwrap().0.bytes@ == bytes@ && pt(r.unwrap().0.point.0@) == ed_decode(bytes@).unwrap()
//@ sub \.map\(Self\) => .map(|k| -> (z: Self) ensures z.0 == k { Self(k) })
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519VerifyingKey :: as_bytes
//@ ret r
//@ spec
    ensures r@ == self.0.bytes@
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519VerifyingKey :: verify
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == ed_valid(self.0.bytes@, pt(self.0.point.0@), signature@, message@)
//@ sub signature\.try_into\(\)\.map_err\(\|_e\| Error::BadSignature\)\? => v_try_array_ref(signature).ok_or(Error::BadSignature)?
//@end
}
impl Ed25519SigningKey {
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: generate
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().0.wf() && os_random(r.unwrap().0.seed@)
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: sign
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures ({ let (a, b) = ed_sig(ed_s(self.0.seed@), sha512(self.0.seed@).skip(32), self.0.verifying_key.bytes@, message@, r@.take(32)); le_val(r@.take(32)) == a && le_val(r@.skip(32)) == b })
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: public_key
//@ ret r
//@ spec
    ensures r.0.bytes@ == self.0.verifying_key.bytes@, r.0.point.0@ == self.0.verifying_key.point.0@
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == (seed@.len() == 32), r.is_ok() ==> r.unwrap().0.wf() && r.unwrap().0.seed@ == seed@
//@ sub seed\.try_into\(\)\s*\.map\(\|seed\| Self\(ed25519::SigningKey::from_seed\(&seed\)\)\)\s*\.map_err\(\|_e\| Error::WrongLength\) => match v_try_array(seed) { Some(seed) => Ok(Self(ed25519::SigningKey::from_seed(&seed))), None => Err(Error::WrongLength) }
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: as_seed
//@ ret r
//@ spec
    ensures r@ == self.0.seed@
//@end
}
}
