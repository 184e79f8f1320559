// C01 C03: AES-GCM against SP 800-38D, over the contracts of the block cipher, GHASH and the CTR+GHASH kernel
use vstd::prelude::*;
//@use std.rs
verus! {
#[derive(PartialEq, Eq)]
pub enum Error { DecryptFailed }
pub struct Entry { }
impl Entry { #[verifier::external_body] pub fn new_secret() -> Entry { unimplemented!() } }
// proved in unit ct_equal
#[verifier::external_body]
pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
// FIPS 197 and the field multiplication of SP 800-38D stay abstract
pub uninterp spec fn aes(key: Seq<u8>, block: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gmul(x: Seq<u8>, h: nat) -> Seq<u8>;
// GHASH of the zero-padded string, from chaining value x
pub open spec fn ghash(h: nat, x: Seq<u8>, m: Seq<u8>) -> Seq<u8> decreases m.len() {
    if m.len() == 0 { x } else if m.len() < 16 { gmul(xor(x, m + zeros(16 - m.len())), h) } else { ghash(h, gmul(xor(x, m.take(16)), h), m.skip(16)) }
}
pub open spec fn inc32(b: Seq<u8>, n: int) -> Seq<u8> { b.take(12) + be((be_val(b.skip(12)) + n) as nat % 0x1_0000_0000, 4) }
pub open spec fn ctr_stream(key: Seq<u8>, y0: Seq<u8>, len: nat) -> Seq<u8> { Seq::new(len, |i: int| aes(key, inc32(y0, i / 16 + 1))[i % 16]) }
pub open spec fn y0(nonce: Seq<u8>) -> Seq<u8> { nonce + seq![0u8, 0, 0, 1] }
pub open spec fn hkey(key: Seq<u8>) -> nat { be_val(aes(key, zeros(16))) }
pub open spec fn gcm_ct(key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>) -> Seq<u8> { xor(m, ctr_stream(key, y0(nonce), m.len())) }
pub open spec fn gcm_tag(key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8> {
    xor(ghash(hkey(key), ghash(hkey(key), ghash(hkey(key), zeros(16), aad), ct), be(8 * aad.len(), 8) + be(8 * ct.len(), 8)), aes(key, y0(nonce)))
}
// leaves: AES-NI, PCLMULQDQ and their 512-bit forms (driver cases of C01)
#[verifier::external_body] pub struct AesKey { }
impl AesKey {
    pub uninterp spec fn key(self) -> Seq<u8>;
    // any other length is refused by panicking
    #[verifier::external_body] pub fn new(key: &[u8]) -> (r: Self) requires key@.len() == 16 || key@.len() == 32 ensures r.key() == key@ { unimplemented!() }
    #[verifier::external_body] pub fn encrypt_block(&self, inout: &mut [u8; 16]) ensures final(inout)@ == aes(self.key(), old(inout)@) { unimplemented!() }
}
#[verifier::external_body] pub struct GhashTable { }
impl GhashTable {
    pub uninterp spec fn h(self) -> nat;
    #[verifier::external_body] pub fn new(h: u128) -> (r: Self) ensures r.h() == h as nat { unimplemented!() }
}
pub struct Ghash<'a> { pub table: &'a GhashTable, pub current: u128 }
impl<'a> Ghash<'a> {
    pub uninterp spec fn x(self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(table: &'a GhashTable) -> (r: Self) ensures r.table.h() == table.h(), r.x() == zeros(16) { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, bytes: &[u8]) ensures final(self).table.h() == old(self).table.h(), final(self).x() == ghash(old(self).table.h(), old(self).x(), bytes@) { unimplemented!() }
    #[verifier::external_body] pub fn into_bytes(self) -> (r: [u8; 16]) ensures r@ == self.x() { unimplemented!() }
}
pub mod aes_gcm { use super::*;
    #[verifier::external_body] pub fn encrypt(key: &AesKey, ghash: &mut Ghash<'_>, initial_counter: &[u8; 16], aad: &[u8], cipher_inout: &mut [u8])
        ensures final(cipher_inout)@ == xor(old(cipher_inout)@, ctr_stream(key.key(), initial_counter@, old(cipher_inout)@.len())), final(ghash).table.h() == old(ghash).table.h(),
            final(ghash).x() == super::ghash(old(ghash).table.h(), super::ghash(old(ghash).table.h(), old(ghash).x(), aad@), final(cipher_inout)@) { unimplemented!() }
    #[verifier::external_body] pub fn decrypt(key: &AesKey, ghash: &mut Ghash<'_>, initial_counter: &[u8; 16], aad: &[u8], cipher_inout: &mut [u8])
        ensures final(cipher_inout)@ == xor(old(cipher_inout)@, ctr_stream(key.key(), initial_counter@, old(cipher_inout)@.len())), final(ghash).table.h() == old(ghash).table.h(),
            final(ghash).x() == super::ghash(old(ghash).table.h(), super::ghash(old(ghash).table.h(), old(ghash).x(), aad@), old(cipher_inout)@) { unimplemented!() }
}
//@item graviola/src/mid/aes_gcm.rs :: struct AesGcm
impl AesGcm {
    pub open spec fn wf(self) -> bool { self.gh.h() == hkey(self.key.key()) }
//@fn graviola/src/mid/aes_gcm.rs :: impl AesGcm :: new
//@ ret r
//@ spec
    requires key@.len() == 16 || key@.len() == 32
    ensures r.wf(), r.key.key() == key@
//@ after let mut h
    proof { assert(h@ =~= zeros(16)); }
//@end
//@fn graviola/src/mid/aes_gcm.rs :: impl AesGcm :: encrypt
//@ spec
    requires self.wf(), aad@.len() < 0x2000_0000_0000_0000, old(cipher_inout)@.len() < 0x2000_0000_0000_0000
    ensures final(cipher_inout)@ == gcm_ct(self.key.key(), nonce@, old(cipher_inout)@), final(tag_out)@ == gcm_tag(self.key.key(), nonce@, aad@, final(cipher_inout)@)
//@ before ghash\.add
    proof { lemma_be_len((aad.len() * 8) as nat, 8); lemma_be_len((cipher_inout.len() * 8) as nat, 8); assert(lengths@ =~= be(8 * aad@.len(), 8) + be(8 * cipher_inout@.len(), 8)); }
//@ loop 1
    invariant e_y0@.len() == 16, final_xi@.len() == 16, tag_out@.len() == 16, forall|i: int| 0 <= i < vi1 ==> tag_out@[i] == final_xi@[i] ^ e_y0@[i]
//@ end
    proof { assert(tag_out@ =~= gcm_tag(self.key.key(), nonce@, aad@, cipher_inout@)); }
//@end
//@fn graviola/src/mid/aes_gcm.rs :: impl AesGcm :: decrypt
//@ ret r
//@ spec
    requires self.wf(), aad@.len() < 0x2000_0000_0000_0000, old(cipher_inout)@.len() < 0x2000_0000_0000_0000
    ensures r.is_ok() == (tag@ == gcm_tag(self.key.key(), nonce@, aad@, old(cipher_inout)@)),
        r.is_ok() ==> final(cipher_inout)@ == gcm_ct(self.key.key(), nonce@, old(cipher_inout)@),
        // nothing of a rejected message is released
        r.is_err() ==> final(cipher_inout)@ == Seq::new(old(cipher_inout)@.len(), |i: int| 0u8) && r == Err::<(), Error>(Error::DecryptFailed),
//@ begin
    let ghost c0 = cipher_inout@;
//@ before ghash\.add
    proof { lemma_be_len((aad.len() * 8) as nat, 8); lemma_be_len((cipher_inout.len() * 8) as nat, 8); assert(lengths@ =~= be(8 * aad@.len(), 8) + be(8 * cipher_inout@.len(), 8)); }
//@ after let mut actual_tag
    let ghost x0 = actual_tag@;
//@ loop 1
    invariant e_y0@.len() == 16, actual_tag@.len() == 16, x0.len() == 16, forall|i: int| 0 <= i < vi1 ==> actual_tag@[i] == x0[i] ^ e_y0@[i], forall|i: int| vi1 <= i < 16 ==> actual_tag@[i] == x0[i],
//@ before if ct_equal
    proof { assert(actual_tag@ =~= gcm_tag(self.key.key(), nonce@, aad@, c0)); }
//@ after cipher_inout\.fill
    proof { assert(cipher_inout@ =~= Seq::new(c0.len(), |i: int| 0u8)); }
//@end
//@fn graviola/src/mid/aes_gcm.rs :: impl AesGcm :: nonce_to_y0
//@ ret r
//@ spec
    ensures r@ == y0(nonce@)
//@ tail
    proof { assert(y0@ =~= nonce@ + seq![0u8, 0, 0, 1]); }
//@end
}
} // verus!
fn main(){}
