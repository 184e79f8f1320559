// C08, C09, C15: import and export of Ed25519 keys (RFC 8410 in RFC 5958), the public half recomputed and compared
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
pub mod der { use super::*;
//@stub asn1_body.rs
//@stub asn1_types.rs
//@stub asn1_pkix.rs
//@stub asn1_oid.rs
//@stub asn1_oids.rs
//@stub pkcs8_body.rs
}
pub mod asn1 { pub use super::der::*; pub mod pkix { pub use super::super::der::*; } }
pub mod pkix { pub use super::der::*; }
pub mod pkcs8 { pub use super::der::p8::Key; }
verus! {
use der::Type;
use der::top::{Error, KeyFormatError};
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
pub mod ct { use super::*; verus! { #[verifier::external_body] pub fn public_slice(b: &[u8]) { } } }
//@use p8_inj.rs
pub proof fn lemma_tlv_len(t: u8, b: Seq<u8>) requires b.len() < 0x1_0000 ensures der::tlv(t, b).len() == b.len() + (if b.len() < 0x80 { 2int } else if b.len() < 0x100 { 3 } else { 4 }) { }
// the key types, by the contracts of unit ed25519: 32 octets that decode to a point; the public key is a function of the seed
pub uninterp spec fn valid_pub(b: Seq<u8>) -> bool;
pub uninterp spec fn pub_of(seed: Seq<u8>) -> Seq<u8>;
pub mod ed25519 { use super::*; verus! {
    pub struct VerifyingKey { pub bytes: [u8; 32] }
    pub struct SigningKey { pub seed: [u8; 32] }
    impl SigningKey { #[verifier::external_body] pub fn as_seed_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self.seed@ { &self.seed } }
} }
//@item graviola/src/high/ed25519.rs :: struct Ed25519VerifyingKey
//@item graviola/src/high/ed25519.rs :: struct Ed25519SigningKey
pub open spec fn ed_oid() -> Seq<u8> { seq![0x2bu8, 0x65, 0x70] }
pub open spec fn alg_bytes() -> Seq<u8> { der::tlv(0x30, der::tlv(6, ed_oid()) + Seq::empty()) }
pub open spec fn spki_bytes(q: Seq<u8>) -> Seq<u8> { der::tlv(0x30, alg_bytes() + der::tlv(3, seq![0u8] + q)) }
pub proof fn lemma_spki_len(q: Seq<u8>) requires q.len() == 32 ensures spki_bytes(q).len() == 44, alg_bytes().len() == 7
{ lemma_tlv_len(6, ed_oid()); lemma_tlv_len(0x30, der::tlv(6, ed_oid()) + Seq::<u8>::empty()); lemma_tlv_len(3, seq![0u8] + q); lemma_tlv_len(0x30, alg_bytes() + der::tlv(3, seq![0u8] + q)); }
pub proof fn lemma_spki_rest(q: Seq<u8>) requires q.len() == 32 ensures <der::SubjectPublicKeyInfo<'_> as Type<'_>>::rest(spki_bytes(q), 0x30) == Some(Seq::<u8>::empty())
{
    let e = Seq::<u8>::empty(); lemma_spki_len(q);
    let a = der::tlv(6, ed_oid()) + e; let t = der::tlv(3, seq![0u8] + q); let b = alg_bytes() + t;
    der::lemma_tlv_hdr(0x30, b, e); assert(der::tlv(0x30, b) + e =~= spki_bytes(q));
    assert(<der::AlgorithmIdentifier<'_> as Type<'_>>::rest(b, 0x30) == Some(t)) by { der::lemma_tlv_hdr(0x30, a, t); der::lemma_tlv_hdr(6, ed_oid(), e); }
    assert(<der::BitString<'_> as Type<'_>>::rest(t, 3) == Some(e)) by { der::lemma_tlv_hdr(3, seq![0u8] + q, e); assert(t + e =~= t); }
}
// an encoding of that form has exactly these fields
pub proof fn lemma_spki_inj(k: der::SubjectPublicKeyInfo<'_>, q: Seq<u8>) requires k.wf(), k.enc(0x30) == spki_bytes(q), q.len() == 32
    ensures k.algorithm.algorithm.b() == ed_oid(), k.algorithm.parameters.is_none(), k.subjectPublicKey.octets@ == q
{
    let e = Seq::<u8>::empty(); lemma_spki_len(q); let t = der::tlv(3, seq![0u8] + q); let a = der::tlv(6, ed_oid()) + e;
    assert(k.body().len() < 0x1_0000); lemma_inj(0x30, k.body(), alg_bytes() + t);
    let ka = k.algorithm.body(); let kt = k.subjectPublicKey.enc(3);
    assert(k.body() == der::tlv(0x30, ka) + kt);
    der::lemma_tlv_hdr(0x30, ka, kt); der::lemma_tlv_hdr(0x30, a, t); assert(ka == a); assert(kt == t);
    let kp = k.algorithm.parameters.enc(0); let ko = k.algorithm.algorithm.b();
    der::lemma_tlv_hdr(6, ko, kp); der::lemma_tlv_hdr(6, ed_oid(), e); assert(ko == ed_oid() && kp == e);
    let kq = seq![0u8] + k.subjectPublicKey.octets@; lemma_inj(3, kq, seq![0u8] + q); assert(kq.skip(1) =~= k.subjectPublicKey.octets@); assert((seq![0u8] + q).skip(1) =~= q);
}
// PKCS#8: algorithm id-Ed25519 without parameters, the private key an OCTET STRING of 32 octets, no or the matching public key
pub open spec fn p8_ok(b: Seq<u8>, seed: Seq<u8>) -> bool { exists|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok(k, seed) }
pub open spec fn p8_key_ok(k: pkcs8::Key<'_>, seed: Seq<u8>) -> bool {
    k.alg() == ed_oid() && k.par() == Seq::<u8>::empty() && seed.len() == 32 && k.priv_b() == der::tlv(4, seed) && (k.pub_b().is_none() || k.pub_b() == Some(pub_of(seed))) }
pub open spec fn p8_bytes(seed: Seq<u8>) -> Seq<u8> { der::tlv(0x30, der::tlv(2, seq![1u8]) + (alg_bytes() + (der::tlv(4, der::tlv(4, seed)) + der::tlv(0x81, seq![0u8] + pub_of(seed))))) }
// importing what an export produced (or any accepted encoding) gives one key only
pub proof fn lemma_p8_one(b: Seq<u8>, s: Seq<u8>, s2: Seq<u8>) requires p8_ok(b, s), p8_ok(b, s2), b.len() < 0x1_0000 ensures s == s2
{
    let k = choose|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok(k, s); let o = choose|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok(k, s2);
    lemma_p8_inj(k, o, b); lemma_inj(4, s, s2);
}
impl Ed25519VerifyingKey {
    // contracts of unit ed25519
    #[verifier::external_body] pub fn from_bytes(bytes: &[u8]) -> (r: Result<Self, Error>) ensures r.is_ok() == (bytes@.len() == 32 && valid_pub(bytes@)), r.is_ok() ==> r.unwrap().0.bytes@ == bytes@ { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.0.bytes@ { unimplemented!() }
//@fn graviola/src/high/ed25519.rs :: impl Ed25519VerifyingKey :: from_spki_der
//@ ret r
//@ spec
    ensures r.is_ok() == (exists|q: Seq<u8>| bytes@ == #[trigger] spki_bytes(q) && q.len() == 32 && valid_pub(q)),
        r.is_ok() ==> bytes@ == spki_bytes(r.unwrap().0.bytes@)
//@ sub pkix::SubjectPublicKeyInfo::from_bytes\(bytes\)\.map_err\(Error::Asn1Error\)\? => match pkix::SubjectPublicKeyInfo::from_bytes(bytes) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub decoded\.algorithm\.algorithm != asn1::oid::(\w+) => der::v_oid_ne(&decoded.algorithm.algorithm, &asn1::v_\1())
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ begin
    proof { assert(der::der_id_ed25519() =~= ed_oid()); assert forall|q: Seq<u8>| bytes@ == #[trigger] spki_bytes(q) && q.len() == 32 implies <der::SubjectPublicKeyInfo<'_> as Type<'_>>::rest(bytes@, 0x30) == Some(Seq::<u8>::empty()) by { lemma_spki_rest(q); } }
//@ after let decoded
    proof { let k = decoded; assert forall|q: Seq<u8>| bytes@ == #[trigger] spki_bytes(q) && q.len() == 32 implies k.algorithm.algorithm.b() == ed_oid() && k.algorithm.parameters.is_none() && k.subjectPublicKey.octets@ == q by { lemma_spki_inj(k, q); }
        if k.algorithm.algorithm.b() == ed_oid() && k.algorithm.parameters.is_none() { assert(k.enc(0x30) =~= spki_bytes(k.subjectPublicKey.octets@)); } }
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519VerifyingKey :: to_spki_der
//@ ret r
//@ spec
    ensures r.is_ok() == (old(output)@.len() >= 44), r.is_ok() ==> r.unwrap()@ == spki_bytes(self.0.bytes@)
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ sub let len = spki\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(\|_e\| Error::WrongLength\)\?; => let vl0 = output.len(); let mut ve = asn1::Encoder::new(output); let len = match spki.encode(&mut ve) { Ok(x) => x, Err(_) => return Err(Error::WrongLength) };
//@ begin
    proof { assert(der::der_id_ed25519() =~= ed_oid()); lemma_spki_len(self.0.bytes@); lemma_tlv_len(3, seq![0u8] + self.0.bytes@); }
//@ after let spki
    proof { assert(spki.enc(0x30) =~= spki_bytes(self.0.bytes@)); }
//@ after let len
    proof { assert(output@.take(len as int) =~= spki_bytes(self.0.bytes@)); }
//@end
}
impl Ed25519SigningKey {
    // contracts of unit ed25519
    #[verifier::external_body] pub fn from_bytes(seed: &[u8]) -> (r: Result<Self, Error>) ensures r.is_ok() == (seed@.len() == 32), r.is_ok() ==> r.unwrap().0.seed@ == seed@ { unimplemented!() }
    #[verifier::external_body] pub fn public_key(&self) -> (r: Ed25519VerifyingKey) ensures r.0.bytes@ == pub_of(self.0.seed@) { unimplemented!() }
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: from_pkcs8_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> p8_ok(bytes@, r.unwrap().0.seed@), bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|s: Seq<u8>| #[trigger] p8_ok(bytes@, s)
//@ sub &asn1::oid::(\w+) => &asn1::v_\1()
//@ sub asn1::OctetString::from_bytes\((.*?)\)\s*\.map_err\(Error::Asn1Error\)\s*\.and_then\(\|pk\| Self::from_bytes\(pk\.as_octets\(\)\)\)\?; => match asn1::OctetString::from_bytes(\1) { Ok(pk) => match Self::from_bytes(pk.as_octets()) { Ok(x) => x, Err(e) => return Err(e) }, Err(e) => return Err(Error::Asn1Error(e)) };
//@ sub alleged_pub_key != actual_pub_key => !v_slice_eq(alleged_pub_key, &actual_pub_key)
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ begin
    proof { assert(der::der_id_ed25519() =~= ed_oid()); }
//@ after let p8
    proof { assert(p8.encodes(bytes@));
        if bytes@.len() < 0x1_0000 { assert forall|k: pkcs8::Key<'_>| #[trigger] k.encodes(bytes@) implies k.priv_b() == p8.priv_b() && k.pub_b() == p8.pub_b() by { lemma_p8_inj(k, p8, bytes@); } lemma_p8_inj(p8, p8, bytes@); }
        assert forall|s: Seq<u8>| p8.priv_b() == #[trigger] der::tlv(4, s) && s.len() == 32 implies <der::OctetString<'_> as Type<'_>>::rest(p8.priv_b(), 4) == Some(Seq::<u8>::empty()) by { let e = Seq::<u8>::empty(); der::lemma_tlv_hdr(4, s, e); assert(der::tlv(4, s) + e =~= der::tlv(4, s)); }
        assert forall|s: Seq<u8>, x: Seq<u8>| p8.priv_b() == #[trigger] der::tlv(4, s) && p8.priv_b() == #[trigger] der::tlv(4, x) && s.len() == 32 && p8.priv_b().len() < 0x1_0000 implies s == x by { lemma_inj(4, s, x); } }
//@ tail
    proof { assert(p8_key_ok(p8, key.0.seed@)); }
//@end
//@fn graviola/src/high/ed25519.rs :: impl Ed25519SigningKey :: to_pkcs8_der
//@ ret r
//@ spec
    ensures r.is_ok() == (old(output)@.len() >= p8_bytes(self.0.seed@).len()), r.is_ok() ==> r.unwrap()@ == p8_bytes(self.0.seed@) && p8_ok(r.unwrap()@, self.0.seed@)
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ sub let private_key_len = asn1::OctetString::new\((.*?)\)\s*\.encode\(&mut asn1::Encoder::new\(&mut private_key_buf\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vo = asn1::OctetString::new(\1); proof { lemma_tlv_len(4, seed); assert(vo.enc(4) =~= der::tlv(4, seed)); } let mut ve = asn1::Encoder::new(&mut private_key_buf); let private_key_len = match vo.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ sub assert_eq!\(private_key_len, private_key_buf\.len\(\)\); => proof { assert(private_key_len == 34); assert(private_key_buf@ =~= der::tlv(4, seed)); }
//@ sub match pkcs8::Key::construct\((.*?)\)\s*\.encode\(output\)\s*\{ => let vk = pkcs8::Key::construct(\1); proof { assert(vk.0.enc(0x30) =~= p8_bytes(seed)); assert(vk.encodes(p8_bytes(seed))); assert(vk.priv_b() =~= der::tlv(4, seed)); assert(vk.par() =~= Seq::<u8>::empty()); assert(vk.alg() =~= ed_oid()); assert(vk.pub_b().unwrap() =~= pub_of(seed)); assert(p8_key_ok(vk, seed)); } match vk.encode(output) {
//@ begin
    let ghost seed = self.0.seed@;
    proof { assert(der::der_id_ed25519() =~= ed_oid()); der::lemma_ctx(1); assert(der::ctx_tag(1, false) == 0x81) by { assert((0x80u8 | 0u8) | 1u8 == 0x81) by (bit_vector); } assert(!der::is_cons(0x81)) by (compute); assert(!der::is_cons(3)) by (compute); }
//@end
}
}
fn main() {}
