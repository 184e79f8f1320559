// C07-C09: PKCS#8 framing. The key is accepted only with the expected algorithm and parameters and a version matching the presence of the public key.
verus! {
pub mod top { use super::*;
//@item graviola/src/error.rs :: enum KeyFormatError
//@ attr #[derive(Debug)]
//@end
//@item graviola/src/error.rs :: enum Error
//@ attr #[derive(Debug)]
//@ sub crate::high::asn1::Error|asn1::Error => AErr
//@end
}
pub type AErr = Error;
pub mod asn1 { pub use super::{ObjectId, Any, Context, BitString, OctetString, Encoder}; }
#[verifier::external_body] pub fn v_oid_ne(a: &ObjectId, b: &ObjectId) -> (r: bool) requires a.inv(), b.inv() ensures r == (a.b() != b.b()) { unimplemented!() }
// derived PartialEq: the same alternative and equal contents, so (both well-formed) the same encoding
#[verifier::external_body] pub fn v_params_ne(a: &Option<Any<'_>>, b: &Option<Any<'_>>) -> (r: bool) requires a.wf(), b.wf() ensures r == (a.enc(0) != b.enc(0)) { unimplemented!() }
// two equal concatenations with decodable, equally delimited first parts
pub proof fn lemma_split_eq(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>) requires a + x == b + y, x == y ensures a == b
{ assert((a + x).len() == a.len() + x.len() && (b + y).len() == b.len() + y.len()); assert(a.len() == b.len()); assert(a =~= (a + x).take(a.len() as int)); assert(b =~= (b + y).take(b.len() as int)); }
pub proof fn lemma_tlv_inj(t: u8, a: Seq<u8>, b: Seq<u8>) requires tlv(t, a) == tlv(t, b), a.len() < 0x1_0000, b.len() < 0x1_0000 ensures a == b
{ lemma_tlv_hdr(t, a, Seq::empty()); lemma_tlv_hdr(t, b, Seq::empty()); }
pub proof fn lemma_oak_inj(k: &OneAsymmetricKey<'_>, o: &OneAsymmetricKey<'_>) requires k.wf(), o.wf(), k.enc(0x30) == o.enc(0x30), k.enc(0x30).len() < 0x1_0000
    ensures k.version == o.version, k.privateKeyAlgorithm.algorithm.b() == o.privateKeyAlgorithm.algorithm.b(), k.privateKeyAlgorithm.parameters.enc(0) == o.privateKeyAlgorithm.parameters.enc(0),
        k.privateKey.octets@ == o.privateKey.octets@, k.publicKey.0.is_some() == o.publicKey.0.is_some()
{
    lemma_tlv_inj(0x30, k.body(), o.body());
    let kp = k.publicKey.enc(0x81); let op = o.publicKey.enc(0x81);
    let k3 = k.privateKey.enc(4); let o3 = o.privateKey.enc(4); let k2 = k.privateKeyAlgorithm.enc(0x30); let o2 = o.privateKeyAlgorithm.enc(0x30); let k1 = k.version.enc(2); let o1 = o.version.enc(2);
    lemma_ctx(1); assert(ctx_tag(1, false) == 0x81) by { assert((0x80u8 | 0u8) | 1u8 == 0x81) by (bit_vector); } assert(!is_cons(0x81)) by (compute);
    assert(!is_cons(3)) by (compute);
    assert(k.body() == k1 + (k2 + (k3 + kp))); assert(o.body() == o1 + (o2 + (o3 + op)));
    k.version.law_rt(2, k2 + (k3 + kp)); o.version.law_rt(2, o2 + (o3 + op));
    lemma_split_eq(k1, o1, k2 + (k3 + kp), o2 + (o3 + op));
    lemma_tlv_inj(2, seq![k.version.num()], seq![o.version.num()]); assert(seq![k.version.num()][0] == seq![o.version.num()][0]);
    k.privateKeyAlgorithm.law_rt(0x30, k3 + kp); o.privateKeyAlgorithm.law_rt(0x30, o3 + op);
    lemma_split_eq(k2, o2, k3 + kp, o3 + op);
    k.privateKey.law_rt(4, kp); o.privateKey.law_rt(4, op); lemma_split_eq(k3, o3, kp, op);
    lemma_tlv_inj(4, k.privateKey.octets@, o.privateKey.octets@);
    let ka = &k.privateKeyAlgorithm; let oa = &o.privateKeyAlgorithm;
    lemma_tlv_inj(0x30, ka.body(), oa.body());
    ka.algorithm.law_rt(6, ka.parameters.enc(0)); oa.algorithm.law_rt(6, oa.parameters.enc(0)); lemma_split_eq(ka.algorithm.enc(6), oa.algorithm.enc(6), ka.parameters.enc(0), oa.parameters.enc(0));
    lemma_tlv_inj(6, ka.algorithm.b(), oa.algorithm.b());
}
pub mod p8 { use super::*; use super::asn1; use super::top::{Error, KeyFormatError};
//@item graviola/src/high/pkcs8.rs :: struct Key
//@ sub pkix:: => 
//@end
impl<'a> Key<'a> {
    pub open spec fn alg(&self) -> Seq<u8> { self.0.privateKeyAlgorithm.algorithm.b() }
    pub open spec fn par(&self) -> Seq<u8> { self.0.privateKeyAlgorithm.parameters.enc(0) }
    pub open spec fn priv_b(&self) -> Seq<u8> { self.0.privateKey.octets@ }
    pub open spec fn pub_b(&self) -> Option<Seq<u8>> { match self.0.publicKey.0 { None => None, Some(x) => Some(x.octets@) } }
    // version 0 without, version 1 with a public key
    pub open spec fn vers(&self) -> bool { self.0.version == (if self.0.publicKey.0.is_none() { Pkcs8Version::Pkcs8v1 } else { Pkcs8Version::Pkcs8v2 }) }
    pub open spec fn encodes(&self, s: Seq<u8>) -> bool { self.0.wf() && self.0.enc(0x30) == s && self.vers() }
//@fn graviola/src/high/pkcs8.rs :: impl<'a> Key<'a> :: decode
//@ ret r
//@ spec
    requires algorithm.inv(), parameters.wf()
    ensures r.is_ok() ==> r.unwrap().0.wf() && r.unwrap().0.enc(0x30) == slice@ && r.unwrap().vers() && r.unwrap().alg() == algorithm.b() && r.unwrap().par() == parameters.enc(0),
        // complete: every encoding of such a key (of the size the decoder supports) is accepted
        slice@.len() < 0x1_0000 ==> r.is_ok() == (exists|k: Key<'a>| #[trigger] k.encodes(slice@) && k.alg() == algorithm.b() && k.par() == parameters.enc(0))
//@ sub pkix:: => 
//@ sub OneAsymmetricKey::from_bytes\(slice\)\.map_err\(Error::Asn1Error\)\? => match OneAsymmetricKey::from_bytes(slice) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ sub oak\.privateKeyAlgorithm\.algorithm != \*algorithm => v_oid_ne(&oak.privateKeyAlgorithm.algorithm, algorithm)
//@ sub oak\.privateKeyAlgorithm\.parameters != parameters => v_params_ne(&oak.privateKeyAlgorithm.parameters, &parameters)
//@ begin
    let ghost gpar = parameters.enc(0);
    proof {
        if slice@.len() < 0x1_0000 {
            assert forall|k: Key<'a>, o: Key<'a>| #[trigger] k.encodes(slice@) && #[trigger] o.0.enc(0x30) == slice@ && o.0.wf() implies OneAsymmetricKey::rest(slice@, 0x30) == Some(Seq::<u8>::empty()) && o.vers() && o.alg() == k.alg() && o.par() == k.par() by {
                k.0.law_rt(0x30, Seq::empty()); assert(k.0.enc(0x30) + Seq::<u8>::empty() =~= k.0.enc(0x30)); lemma_oak_inj(&k.0, &o.0);
            }
            assert forall|k: Key<'a>| #[trigger] k.encodes(slice@) implies OneAsymmetricKey::rest(slice@, 0x30) == Some(Seq::<u8>::empty()) by { assert(k.0.enc(0x30) == slice@); }
        }
    }
//@ before match \(oak
    let ghost gk = Key(oak); proof { assert(gk.0.enc(0x30) == slice@); assert(gk.vers() ==> gk.encodes(slice@)); }
//@ tail
    proof { assert(gk.encodes(slice@)); }
//@end
//@fn graviola/src/high/pkcs8.rs :: impl<'a> Key<'a> :: construct
//@ ret r
//@ spec
    requires algorithm.inv(), parameters.wf(), private_key_encoding@.len() < 0x1_0000, public_key_encoding.is_some() ==> public_key_encoding.unwrap()@.len() < 0x1_0000, parameters.enc(0).len() < 0x1_0000
    ensures r.0.wf(), r.vers(), r.alg() == algorithm.b(), r.par() == parameters.enc(0), r.priv_b() == private_key_encoding@, r.pub_b() == (match public_key_encoding { None => None, Some(x) => Some(x@) })
//@ sub asn1::Context::from\(asn1::BitString::new\(pub_key\)\) => Context::from(BitString::new(pub_key))
//@ sub pkix:: => 
//@ sub asn1:: => 
//@end
//@fn graviola/src/high/pkcs8.rs :: impl<'a> Key<'a> :: encode
//@ ret r
//@ spec
    requires self.0.wf()
    ensures r.is_ok() == (old(output)@.len() >= self.0.enc(0x30).len()), r.is_ok() ==> r.unwrap()@ == self.0.enc(0x30)
//@ sub let len = self\s*\.0\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let mut ve = Encoder::new(output); let len = match self.0.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ sub output\.get\(\.\.len\)\.ok_or\(Error::WrongLength\) => match v_get_to(output, len) { Some(x) => { proof { assert(x@ =~= self.0.enc(0x30)); } Ok(x) }, None => Err(Error::WrongLength) }
//@end
//@fn graviola/src/high/pkcs8.rs :: impl<'a> Key<'a> :: private_key
//@ ret r
//@ spec
    ensures r@ == self.priv_b()
//@end
//@fn graviola/src/high/pkcs8.rs :: impl<'a> Key<'a> :: public_key
//@ ret r
//@ spec
    ensures r.is_some() == self.pub_b().is_some(), r.is_some() ==> r.unwrap()@ == self.pub_b().unwrap()
//@ sub self\.0\.publicKey\.inner\(\)\.as_ref\(\)\.map\(\|x\| x\.as_octets\(\)\) => match self.0.publicKey.inner() { Some(x) => Some(x.as_octets()), None => None }
//@end
}
}
}
