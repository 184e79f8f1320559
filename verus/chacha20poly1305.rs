// C02 C03: ChaCha20-Poly1305 and XChaCha20-Poly1305 against RFC 8439 section 2.8, over the contract of the stream cipher
use vstd::prelude::*;
//@use std.rs
verus! {
#[derive(PartialEq, Eq)]
pub enum Error { DecryptFailed }
pub struct Entry { }
impl Entry { #[verifier::external_body] pub fn new_secret() -> Entry { unimplemented!() } }
// proved in unit ct_equal
#[verifier::external_body]
pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// leaf: volatile writes
#[verifier::external_body]
pub fn zeroise(v: &mut [u8]) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> final(v)@[i] == 0 { unimplemented!() }
//@use chacha_spec.rs
// leaf: AVX2 (unit chacha_x86; driver cases leaf_chacha)
#[verifier::external_body] pub struct ChaCha20 { }
impl ChaCha20 {
    pub uninterp spec fn st(self) -> Seq<u32>;
    #[verifier::external_body] pub fn new(key: &[u8; 32], nonce: &[u8; 16]) -> (r: Self) ensures r.st() == cstate(key@, nonce@) { unimplemented!() }
    #[verifier::external_body] pub fn cipher(&mut self, buffer: &mut [u8])
        ensures final(buffer)@ == xor(old(buffer)@, stream(old(self).st(), old(buffer)@.len())), final(self).st() == ctr_add(old(self).st(), div_up(old(buffer)@.len() as int, 64)) { unimplemented!() }
}
#[verifier::external_body] pub struct XChaCha20 { }
impl XChaCha20 {
    pub uninterp spec fn st(self) -> Seq<u32>;
    #[verifier::external_body] pub fn new(key: &[u8; 32], nonce: &[u8; 24]) -> (r: Self) ensures r.st() == xstate(key@, nonce@) { unimplemented!() }
    #[verifier::external_body] pub fn cipher(&mut self, buffer: &mut [u8])
        ensures final(buffer)@ == xor(old(buffer)@, stream(old(self).st(), old(buffer)@.len())), final(self).st() == ctr_add(old(self).st(), div_up(old(buffer)@.len() as int, 64)) { unimplemented!() }
}
//@use poly1305_spec.rs
// proved in unit poly1305
#[verifier::external_body] pub struct Poly1305 { }
impl Poly1305 {
    pub uninterp spec fn models(self, k: Seq<u8>, m: Seq<u8>) -> bool;
    pub uninterp spec fn wf(self) -> bool;
    #[verifier::external_body] pub fn new(key: &[u8; 32]) -> (o: Self) ensures o.models(key@, Seq::empty()), o.wf() { unimplemented!() }
    #[verifier::external_body] pub fn add_bytes(&mut self, bytes: &[u8]) requires old(self).wf()
        ensures final(self).wf(), forall|k: Seq<u8>, m: Seq<u8>| #[trigger] old(self).models(k, m) ==> final(self).models(k, m + bytes@) { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (o: [u8; 16]) requires self.wf() ensures forall|k: Seq<u8>, m: Seq<u8>| #[trigger] self.models(k, m) ==> o@ == poly1305(k, m) { unimplemented!() }
}

pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn pad16(m: Seq<u8>) -> Seq<u8> { m + zeros((16 - m.len() % 16) % 16) }
pub open spec fn aead_ct(st: Seq<u32>, m: Seq<u8>) -> Seq<u8> { xor(m, stream(ctr_add(st, 1), m.len())) }
pub open spec fn aead_tag(st: Seq<u32>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8> {
    poly1305(stream(st, 32), pad16(aad) + pad16(ct) + le(aad.len(), 8) + le(ct.len(), 8))
}
pub proof fn lemma_xor0(a: u8) ensures 0u8 ^ a == a { assert(0u8 ^ a == a) by (bit_vector); }
// RFC 8439: counter 0 with the 96-bit nonce
pub open spec fn nonce16(n: Seq<u8>) -> Seq<u8> { zeros(4) + n }
//@use chachapoly_body.rs FILE=chacha20poly1305 NM=ChaCha20Poly1305 STATE=cstate(self.key@,nonce16(nonce)) NONCE=assert(full_nonce@=~=nonce16(nonce@));
//@use chachapoly_body.rs FILE=xchacha20poly1305 NM=XChaCha20Poly1305 STATE=xstate(self.key@,nonce) NONCE=
} // verus!
fn main(){}
