// C23: TLS 1.2/1.3 record protection over the contracts of the AEADs (proved in units chacha20poly1305 and aes_gcm); rustls types are declared here with the contracts of their public functions
use vstd::prelude::*;
//@use std.rs
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
#[derive(Debug)] pub struct GErr;
#[derive(Debug)] pub enum Error { DecryptError, PeerSentOversizedRecord, Other }
pub mod rustls { pub use super::Error; }
#[derive(Clone, Copy)] pub enum ContentType { ChangeCipherSpec, Alert, Handshake, ApplicationData, Heartbeat, Unknown(u8) }
pub open spec fn typ_byte(t: ContentType) -> u8 { match t { ContentType::ChangeCipherSpec => 20, ContentType::Alert => 21, ContentType::Handshake => 22, ContentType::ApplicationData => 23, ContentType::Heartbeat => 24, ContentType::Unknown(b) => b } }
impl ContentType { #[verifier::external_body] pub fn to_array(self) -> (r: [u8; 1]) ensures r@ == seq![typ_byte(self)] { unimplemented!() } }
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)] pub enum ProtocolVersion { SSLv3, TLSv1_0, TLSv1_1, TLSv1_2, TLSv1_3, Unknown(u16) }
pub open spec fn ver_num(v: ProtocolVersion) -> u16 { match v { ProtocolVersion::SSLv3 => 0x300, ProtocolVersion::TLSv1_0 => 0x301, ProtocolVersion::TLSv1_1 => 0x302, ProtocolVersion::TLSv1_2 => 0x303, ProtocolVersion::TLSv1_3 => 0x304, ProtocolVersion::Unknown(n) => n } }
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
// RFC 8446 5.3
pub open spec fn nonce_of(iv: Seq<u8>, seq: u64) -> Seq<u8> { xor(iv, be(seq as nat, 12)) }
// RFC 8446 5.2
pub open spec fn aad13(len: nat) -> Seq<u8> { seq![23u8, 3, 3] + be(len, 2) }
// RFC 5246 6.2.3.3
pub open spec fn aad12(seq: u64, t: ContentType, v: ProtocolVersion, len: nat) -> Seq<u8> { be(seq as nat, 8) + seq![typ_byte(t)] + be(ver_num(v) as nat, 2) + be(len, 2) }
pub const NONCE_LEN: usize = 12;
pub struct Iv(pub [u8; 12]);
impl Iv {
    #[verifier::external_body] pub fn new(b: [u8; 12]) -> (r: Iv) ensures r.0 == b { unimplemented!() }
    #[verifier::external_body] pub fn copy(b: &[u8]) -> (r: Iv) requires b@.len() == 12 ensures r.0@ == b@ { unimplemented!() }
}
pub struct Nonce(pub [u8; 12]);
impl Nonce { #[verifier::external_body] pub fn new(iv: &Iv, seq: u64) -> (r: Nonce) ensures r.0@ == nonce_of(iv.0@, seq) { unimplemented!() } }
#[verifier::external_body] pub fn make_tls13_aad(len: usize) -> (r: [u8; 5]) ensures r@ == aad13(len as nat) { unimplemented!() }
#[verifier::external_body] pub fn make_tls12_aad(seq: u64, t: ContentType, v: ProtocolVersion, len: usize) -> (r: [u8; 13]) ensures r@ == aad12(seq, t, v, len as nat) { unimplemented!() }
pub struct AeadKey { pub b: Vec<u8> }
impl AeadKey { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() } }
#[derive(Debug)] pub struct UnsupportedOperationError;
pub enum ConnectionTrafficSecrets { Aes128Gcm { key: AeadKey, iv: Iv }, Aes256Gcm { key: AeadKey, iv: Iv }, Chacha20Poly1305 { key: AeadKey, iv: Iv } }
pub struct KeyBlockShape { pub enc_key_len: usize, pub fixed_iv_len: usize, pub explicit_nonce_len: usize }
// at most 2^32 bytes: what a slice of slices of rustls (fragments of at most 2^14 bytes) can hold, with a wide margin
pub struct OutboundChunks { pub b: Vec<u8> }
impl OutboundChunks { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() } }
pub struct OutboundPlainMessage { pub typ: ContentType, pub version: ProtocolVersion, pub payload: OutboundChunks }
pub struct PrefixedPayload { pub b: Vec<u8> }
impl PrefixedPayload {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.b@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_chunks(&mut self, c: &OutboundChunks) ensures final(self).b@ == old(self).b@ + c.b@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, c: &[u8]) ensures final(self).b@ == old(self).b@ + c@ { unimplemented!() }
    #[verifier::external_body] pub fn v_tail_mut(&mut self, n: usize) -> (r: &mut [u8]) requires n <= old(self).b@.len()
        ensures r@ == old(self).b@.skip(n as int), final(self).b@ == old(self).b@.take(n as int) + final(r)@ { unimplemented!() }
}
pub struct OutboundOpaqueMessage { pub typ: ContentType, pub version: ProtocolVersion, pub payload: PrefixedPayload }
impl OutboundOpaqueMessage { pub fn new(typ: ContentType, version: ProtocolVersion, payload: PrefixedPayload) -> (r: Self) ensures r.typ == typ, r.version == version, r.payload == payload { OutboundOpaqueMessage { typ, version, payload } } }
pub struct BorrowedPayload { pub b: Vec<u8> }
impl BorrowedPayload {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
    #[verifier::external_body] pub fn v_take(&self, n: usize) -> (r: &[u8]) requires n <= self.b@.len() ensures r@ == self.b@.take(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_split(&mut self, n: usize) -> (r: (&mut [u8], &mut [u8])) requires n <= old(self).b@.len()
        ensures r.0@ == old(self).b@.take(n as int), r.1@ == old(self).b@.skip(n as int), final(self).b@ == final(r.0)@ + final(r.1)@ { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self).b@ == (if n >= old(self).b@.len() { old(self).b@ } else { old(self).b@.take(n as int) }) { unimplemented!() }
}
pub struct InboundOpaqueMessage { pub typ: ContentType, pub version: ProtocolVersion, pub payload: BorrowedPayload }
pub struct InboundPlainMessage { pub typ: ContentType, pub version: ProtocolVersion, pub payload: Vec<u8> }
// what RFC 8446 5.4 makes of a deciphered TLSInnerPlaintext (padding and content type removed, limits enforced): rustls
pub uninterp spec fn unpadded(p: Seq<u8>) -> Result<InboundPlainMessage, Error>;
impl InboundOpaqueMessage {
    #[verifier::external_body] pub fn into_plain_message(self) -> (r: InboundPlainMessage) ensures r.typ == self.typ, r.version == self.version, r.payload@ == self.payload.b@ { unimplemented!() }
    #[verifier::external_body] pub fn v_plain_range(self, a: usize, b: usize) -> (r: InboundPlainMessage) requires a <= b <= self.payload.b@.len() ensures r.typ == self.typ, r.version == self.version, r.payload@ == self.payload.b@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn into_tls13_unpadded_message(self) -> (r: Result<InboundPlainMessage, Error>) ensures r == unpadded(self.payload.b@) { unimplemented!() }
}
pub enum Aead { ChaCha(Seq<u8>), Gcm(Seq<u8>) }
pub uninterp spec fn seal_ct(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn seal_tag(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
pub open spec fn opens(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>, tag: Seq<u8>, p: Seq<u8>) -> bool { p.len() == ct.len() && seal_ct(k, nonce, aad, p) == ct && seal_tag(k, nonce, aad, p) == tag }
pub open spec fn sealed(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8> { seal_ct(k, nonce, aad, pt) + seal_tag(k, nonce, aad, pt) }
// c is ciphertext and 16-byte tag
pub open spec fn opens_c(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, c: Seq<u8>, p: Seq<u8>) -> bool { c.len() >= 16 && opens(k, nonce, aad, c.take(c.len() - 16), c.skip(c.len() - 16), p) }
pub proof fn lemma_sealed(k: Aead, nonce: Seq<u8>, aad: Seq<u8>, p: Seq<u8>) requires seal_ct(k, nonce, aad, p).len() == p.len(), seal_tag(k, nonce, aad, p).len() == 16 ensures opens_c(k, nonce, aad, sealed(k, nonce, aad, p), p)
{ let c = sealed(k, nonce, aad, p); assert(c.take(c.len() - 16) =~= seal_ct(k, nonce, aad, p)); assert(c.skip(c.len() - 16) =~= seal_tag(k, nonce, aad, p)); }
//@use tls_aead_stub.rs NM=ChaCha20Poly1305 KIND=ChaCha KT=[u8;32] REQ=true
//@use tls_aead_stub.rs NM=AesGcm KIND=Gcm KT=&[u8] REQ=key@.len()==16||key@.len()==32
// the nonces of one direction are pairwise different, and the salt of TLS 1.2 AES-GCM is not touched by the sequence number
pub proof fn lemma_be_inj(a: nat, b: nat, n: nat) requires be(a, n) == be(b, n) ensures a % pw(n) == b % pw(n) decreases n {
    lemma_be_len(a, n); lemma_be_len(b, n);
    if n > 0 { let m = (n - 1) as nat; lemma_be_len(a / 256, m); lemma_be_len(b / 256, m);
        assert(be(a, n).last() == (a % 256) as u8); assert(be(b, n).last() == (b % 256) as u8); assert(be(a, n).drop_last() =~= be(a / 256, m)); assert(be(b, n).drop_last() =~= be(b / 256, m));
        lemma_be_inj(a / 256, b / 256, m); lemma_mod256(a, m); lemma_mod256(b, m); }
}
pub open spec fn pw(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pw((n - 1) as nat) } }
pub proof fn lemma_mod256(a: nat, m: nat) ensures pw(m) > 0, a % (256 * pw(m)) == 256 * ((a / 256) % pw(m)) + a % 256 decreases m
{ lemma_pw(m); vstd::arithmetic::div_mod::lemma_breakdown(a as int, 256, pw(m) as int); }
pub proof fn lemma_pw(m: nat) ensures pw(m) > 0 decreases m { if m > 0 { lemma_pw((m - 1) as nat); } }
pub proof fn lemma_be_hi(v: nat, n: nat, k: nat) requires v < pw(k), k <= n ensures forall|i: int| 0 <= i < n - k ==> be(v, n)[i] == 0 decreases n {
    lemma_be_len(v, n);
    if n > k { if k > 0 { lemma_pw((k - 1) as nat); assert(v / 256 < pw((k - 1) as nat)) by (nonlinear_arith) requires v < 256 * pw((k - 1) as nat); lemma_be_hi(v / 256, (n - 1) as nat, (k - 1) as nat); }
        else { assert(v == 0); lemma_be_hi(0, (n - 1) as nat, 0); }
        lemma_be_len(v / 256, (n - 1) as nat);
    }
}
pub proof fn lemma_nonces(iv: Seq<u8>, s: u64, t: u64) requires iv.len() == 12
    ensures nonce_of(iv, s).len() == 12, nonce_of(iv, s).take(4) == iv.take(4), nonce_of(iv, s) == nonce_of(iv, t) ==> s == t
{
    reveal_with_fuel(pw, 13); lemma_be_len(s as nat, 12); lemma_be_len(t as nat, 12); lemma_be_hi(s as nat, 12, 8);
    let (n, m) = (nonce_of(iv, s), nonce_of(iv, t));
    assert forall|i: int| 0 <= i < 4 implies n[i] == iv[i] by { let a = iv[i]; assert(a ^ 0u8 == a) by (bit_vector); }
    assert(n.take(4) =~= iv.take(4));
    if n == m {
        assert forall|i: int| 0 <= i < 12 implies be(s as nat, 12)[i] == be(t as nat, 12)[i] by { assert(n[i] == m[i]); let (a, x, y) = (iv[i], be(s as nat, 12)[i], be(t as nat, 12)[i]); assert((a ^ x) == (a ^ y) ==> x == y) by (bit_vector); }
        assert(be(s as nat, 12) =~= be(t as nat, 12)); lemma_be_inj(s as nat, t as nat, 12); let w = pw(12); assert(w == 0x1_0000_0000_0000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_small_mod(s as nat, w); vstd::arithmetic::div_mod::lemma_small_mod(t as nat, w);
    }
}
//@use tls_aead_body.rs
}
fn main() {}
