// C07-C09: import and export of EC private keys (RFC 5915 in RFC 5958), the public half recomputed and compared
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
pub mod der { use super::*;
//@stub asn1_body.rs
//@stub asn1_types.rs
//@stub asn1_pkix.rs
//@stub asn1_oid.rs
//@stub asn1_oids.rs
//@stub pkcs8_body.rs
}
pub mod asn1 { pub use super::der::*; pub mod pkix { pub use super::super::der::*; } }
pub mod pkcs8 { pub use super::der::p8::Key; }
verus! {
use der::Type;
use der::top::{Error, KeyFormatError};
}
//@use rng_spec.rs
//@use ec_traits.rs
verus! {
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
//@use p8_inj.rs
pub proof fn lemma_tlv_len(t: u8, b: Seq<u8>) requires b.len() < 0x1_0000 ensures der::tlv(t, b).len() == b.len() + (if b.len() < 0x80 { 2int } else if b.len() < 0x100 { 3 } else { 4 }) { }
// derived PartialEq on well-formed identifiers
#[verifier::external_body] pub fn v_oid_eq(a: &asn1::ObjectId, b: &asn1::ObjectId) -> (r: bool) requires a.inv(), b.inv() ensures r == (a.b() == b.b()) { unimplemented!() }
//@item graviola/src/high/curve.rs :: const MAX_SCALAR_LEN
//@item graviola/src/high/curve.rs :: const MAX_UNCOMPRESSED_PUBLIC_KEY_LEN
use ec::{Curve, Scalar, PrivateKey, PublicKey};
pub trait CurveOid { spec fn oid_b() -> Seq<u8>; proof fn lemma_oid() ensures Self::oid_b().len() <= 16; fn oid() -> (r: asn1::ObjectId) ensures r.inv(), r.b() == Self::oid_b(); }
pub struct P256; pub struct P384;
// RFC 5480
impl CurveOid for P256 {
    open spec fn oid_b() -> Seq<u8> { seq![0x2au8, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7] }
    proof fn lemma_oid() {}
//@fn graviola/src/high/curve.rs :: impl Curve for P256 :: oid
//@ vis none
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@end
}
impl CurveOid for P384 {
    open spec fn oid_b() -> Seq<u8> { seq![0x2bu8, 0x81, 4, 0, 0x22] }
    proof fn lemma_oid() {}
//@fn graviola/src/high/curve.rs :: impl Curve for P384 :: oid
//@ vis none
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@end
}
pub open spec fn ec_oid() -> Seq<u8> { seq![0x2au8, 0x86, 0x48, 0xce, 0x3d, 2, 1] }
// RFC 5915 ECPrivateKey
pub open spec fn opt_par(p: Option<Seq<u8>>) -> Seq<u8> { match p { None => Seq::empty(), Some(o) => der::tlv(0xa0, der::tlv(6, o)) } }
pub open spec fn opt_pub(p: Option<Seq<u8>>) -> Seq<u8> { match p { None => Seq::empty(), Some(q) => der::tlv(0xa1, der::tlv(3, seq![0u8] + q)) } }
pub open spec fn sec1_bytes(pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>) -> Seq<u8> { der::tlv(0x30, der::tlv(2, seq![1u8]) + (der::tlv(4, pv) + (opt_par(par) + opt_pub(pb)))) }
pub open spec fn small_key(par: Option<Seq<u8>>) -> bool { match par { None => true, Some(o) => o.len() <= 16 } }
// C09: in range, of this curve, with no or the matching public key
pub open spec fn key_ok<S: Scalar>(oid: Seq<u8>, pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>) -> bool {
    0 < be_val(pv) < S::n() && (par.is_none() || par == Some(oid)) && (pb.is_none() || pb == Some(S::enc_pub(be_val(pv) as int))) }
pub open spec fn sec1_ok<S: Scalar>(oid: Seq<u8>, b: Seq<u8>, d: int) -> bool {
    exists|pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>| b == #[trigger] sec1_bytes(pv, par, pb) && key_ok::<S>(oid, pv, par, pb) && be_val(pv) == d }
pub proof fn lemma_tags() ensures der::ctx_tag(0, true) == 0xa0, der::ctx_tag(1, true) == 0xa1, der::is_cons(0xa0), der::is_cons(0xa1)
{ assert((0x80u8 | 0x20u8) | 0u8 == 0xa0) by (bit_vector); assert((0x80u8 | 0x20u8) | 1u8 == 0xa1) by (bit_vector); assert(der::is_cons(0xa0)) by (compute); assert(der::is_cons(0xa1)) by (compute); }
pub open spec fn fpar(k: der::EcPrivateKey<'_>) -> Option<Seq<u8>> { match k.parameters.0 { None => None, Some(o) => Some(o.b()) } }
pub open spec fn fpub(k: der::EcPrivateKey<'_>) -> Option<Seq<u8>> { match k.publicKey.0 { None => None, Some(q) => Some(q.octets@) } }
pub proof fn lemma_enc(k: der::EcPrivateKey<'_>) ensures k.enc(0x30) == sec1_bytes(k.privateKey.octets@, fpar(k), fpub(k)) { lemma_tags(); assert(k.version.num() == 1); }
pub proof fn lemma_len(pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>) ensures pv.len() < sec1_bytes(pv, par, pb).len(), par matches Some(o) ==> o.len() < sec1_bytes(pv, par, pb).len(), pb matches Some(q) ==> q.len() < sec1_bytes(pv, par, pb).len(),
    opt_par(par).len() < sec1_bytes(pv, par, pb).len(), opt_pub(pb).len() < sec1_bytes(pv, par, pb).len() {}
// the strict encoding determines the fields, and is accepted by the decoder
pub proof fn lemma_sec1_inj(pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>, pv2: Seq<u8>, par2: Option<Seq<u8>>, pb2: Option<Seq<u8>>)
    requires sec1_bytes(pv, par, pb) == sec1_bytes(pv2, par2, pb2), sec1_bytes(pv, par, pb).len() < 0x1_0000 ensures pv == pv2, par == par2, pb == pb2
{
    let e = Seq::<u8>::empty(); lemma_len(pv, par, pb); lemma_len(pv2, par2, pb2);
    let t = opt_par(par) + opt_pub(pb); let t2 = opt_par(par2) + opt_pub(pb2); let v = der::tlv(2, seq![1u8]);
    let b = v + (der::tlv(4, pv) + t); let b2 = v + (der::tlv(4, pv2) + t2);
    der::lemma_tlv_hdr(0x30, b, e); der::lemma_tlv_hdr(0x30, b2, e); assert(der::tlv(0x30, b) + e =~= der::tlv(0x30, b)); assert(der::tlv(0x30, b2) + e =~= der::tlv(0x30, b2)); assert(b == b2);
    der::lemma_tlv_hdr(2, seq![1u8], der::tlv(4, pv) + t); der::lemma_tlv_hdr(2, seq![1u8], der::tlv(4, pv2) + t2); assert(der::tlv(4, pv) + t == der::tlv(4, pv2) + t2);
    der::lemma_tlv_hdr(4, pv, t); der::lemma_tlv_hdr(4, pv2, t2); assert(pv == pv2 && t == t2);
    lemma_opt(par, pb); lemma_opt(par2, pb2);
    match (par, par2) {
        (None, None) => { assert(t =~= opt_pub(pb)); assert(t2 =~= opt_pub(pb2)); },
        (Some(o), Some(o2)) => { der::lemma_tlv_hdr(0xa0, der::tlv(6, o), opt_pub(pb)); der::lemma_tlv_hdr(0xa0, der::tlv(6, o2), opt_pub(pb2)); lemma_inj(6, o, o2); },
        (None, Some(o2)) => { assert(t =~= opt_pub(pb)); assert(t2[0] == 0xa0); },
        (Some(o), None) => { assert(t2 =~= opt_pub(pb2)); assert(t[0] == 0xa0); },
    }
    assert(opt_pub(pb) == opt_pub(pb2));
    match (pb, pb2) {
        (Some(q), Some(q2)) => { lemma_inj(0xa1, der::tlv(3, seq![0u8] + q), der::tlv(3, seq![0u8] + q2)); lemma_inj(3, seq![0u8] + q, seq![0u8] + q2); assert((seq![0u8] + q).skip(1) =~= q); assert((seq![0u8] + q2).skip(1) =~= q2); },
        _ => {},
    }
}
pub proof fn lemma_opt(par: Option<Seq<u8>>, pb: Option<Seq<u8>>) ensures pb.is_some() ==> opt_pub(pb).len() > 0 && opt_pub(pb)[0] == 0xa1, pb.is_none() ==> opt_pub(pb).len() == 0, par.is_some() ==> (opt_par(par) + opt_pub(pb))[0] == 0xa0, (par.is_none() && pb.is_some()) ==> (opt_par(par) + opt_pub(pb))[0] == 0xa1 {}
pub proof fn lemma_rest_par(par: Option<Seq<u8>>, s2: Seq<u8>) requires small_key(par), s2.len() < 0x1_0000, par.is_none() ==> s2.len() == 0 || s2[0] != 0xa0
    ensures <der::Context::<'_, 0, true, der::ObjectId> as Type<'_>>::rest(opt_par(par) + s2, 0xa0) == Some(s2)
{
    let e = Seq::<u8>::empty(); lemma_tags(); let t = opt_par(par) + s2;
    match par { None => { assert(t =~= s2); }, Some(o) => { der::lemma_tlv_hdr(0xa0, der::tlv(6, o), s2); der::lemma_tlv_hdr(6, o, e); assert(der::tlv(6, o) + e =~= der::tlv(6, o)); } }
}
pub proof fn lemma_rest_pub(pb: Option<Seq<u8>>) requires opt_pub(pb).len() < 0x1_0000
    ensures <der::Context::<'_, 1, true, der::BitString<'_>> as Type<'_>>::rest(opt_pub(pb), 0xa1) == Some(Seq::<u8>::empty())
{
    let e = Seq::<u8>::empty(); lemma_tags(); let s2 = opt_pub(pb);
    match pb { None => { assert(s2 =~= e); }, Some(q) => { let i = der::tlv(3, seq![0u8] + q); assert(s2 + e =~= s2); der::lemma_tlv_hdr(0xa1, i, e); der::lemma_tlv_hdr(3, seq![0u8] + q, e); assert(i + e =~= i); } }
}
pub proof fn lemma_sec1_rest(pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>) requires sec1_bytes(pv, par, pb).len() < 0x1_0000, small_key(par)
    ensures <der::EcPrivateKey<'_> as Type<'_>>::rest(sec1_bytes(pv, par, pb), 0x30) == Some(Seq::<u8>::empty())
{
    let e = Seq::<u8>::empty(); lemma_len(pv, par, pb); lemma_tags(); lemma_opt(par, pb);
    let s2 = opt_pub(pb); let t = opt_par(par) + s2; let v = der::tlv(2, seq![1u8]); let s0 = der::tlv(4, pv) + t; let b = v + s0; let s = sec1_bytes(pv, par, pb);
    der::lemma_tlv_hdr(0x30, b, e); assert(der::tlv(0x30, b) + e =~= s);
    assert(der::hdr(s, 0x30).is_some() && der::body_of(s, 0x30) == b && der::after(s, 0x30) == e);
    assert(<der::EcPrivateKeyVer as Type<'_>>::rest(b, 2) == Some(s0)) by { der::lemma_tlv_hdr(2, seq![1u8], s0); }
    assert(<der::OctetString<'_> as Type<'_>>::rest(s0, 4) == Some(t)) by { der::lemma_tlv_hdr(4, pv, t); }
    lemma_rest_par(par, s2); lemma_rest_pub(pb);
}
// ------------------------------------------------------------ PKCS#8 (RFC 5958, RFC 5480): algorithm id-ecPublicKey, parameters this curve, the private key as above, no or the matching public key
pub open spec fn p8_ok<S: Scalar>(oid: Seq<u8>, b: Seq<u8>, d: int) -> bool {
    exists|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok::<S>(k, oid, d) }
pub open spec fn p8_key_ok<S: Scalar>(k: pkcs8::Key<'_>, oid: Seq<u8>, d: int) -> bool {
    k.alg() == ec_oid() && k.par() == der::tlv(6, oid) && sec1_ok::<S>(oid, k.priv_b(), d) && (k.pub_b().is_none() || k.pub_b() == Some(S::enc_pub(d))) }
pub proof fn lemma_sec1_one<S: Scalar>(oid: Seq<u8>, b: Seq<u8>, d: int, d2: int) requires sec1_ok::<S>(oid, b, d), sec1_ok::<S>(oid, b, d2), b.len() < 0x1_0000 ensures d == d2
{
    let (pv, par, pb) = choose|pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>| b == #[trigger] sec1_bytes(pv, par, pb) && key_ok::<S>(oid, pv, par, pb) && be_val(pv) == d;
    let (pv2, par2, pb2) = choose|pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>| b == #[trigger] sec1_bytes(pv, par, pb) && key_ok::<S>(oid, pv, par, pb) && be_val(pv) == d2;
    lemma_sec1_inj(pv, par, pb, pv2, par2, pb2);
}
// importing what an export produced (or any accepted encoding) gives one key only
pub proof fn lemma_p8_one<S: Scalar>(oid: Seq<u8>, b: Seq<u8>, d: int, d2: int) requires p8_ok::<S>(oid, b, d), p8_ok::<S>(oid, b, d2), b.len() < 0x1_0000 ensures d == d2
{
    let k = choose|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok::<S>(k, oid, d); let o = choose|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok::<S>(k, oid, d2);
    lemma_p8_inj(k, o, b); lemma_sec1_one::<S>(oid, k.priv_b(), d, d2);
}
pub open spec fn alg_bytes(oid: Seq<u8>) -> Seq<u8> { der::tlv(0x30, der::tlv(6, ec_oid()) + der::tlv(6, oid)) }
// OneAsymmetricKey version 0 around the SEC1 key without parameters; SubjectPublicKeyInfo
pub open spec fn p8_bytes<S: Scalar>(oid: Seq<u8>, d: int) -> Seq<u8> { der::tlv(0x30, der::tlv(2, seq![0u8]) + (alg_bytes(oid) + (der::tlv(4, sec1_bytes(be(d as nat, S::sl()), None, Some(S::enc_pub(d)))) + Seq::empty()))) }
pub open spec fn spki_bytes<S: Scalar>(oid: Seq<u8>, d: int) -> Seq<u8> { der::tlv(0x30, alg_bytes(oid) + der::tlv(3, seq![0u8] + S::enc_pub(d))) }
pub proof fn lemma_sec1_len(pv: Seq<u8>, pb: Seq<u8>) requires pv.len() <= 48, pb.len() <= 97 ensures sec1_bytes(pv, None, Some(pb)).len() <= 200
{ let i = der::tlv(3, seq![0u8] + pb); lemma_tlv_len(3, seq![0u8] + pb); lemma_tlv_len(0xa1, i); lemma_tlv_len(4, pv); lemma_tlv_len(2, seq![1u8]); lemma_tlv_len(0x30, der::tlv(2, seq![1u8]) + (der::tlv(4, pv) + (opt_par(None) + opt_pub(Some(pb))))); }
// the exported key is one the import accepts, as this key
pub proof fn lemma_sec1_self<S: Scalar>(oid: Seq<u8>, par: Option<Seq<u8>>, d: int) requires 0 < d < S::n(), par.is_none() || par == Some(oid) ensures sec1_ok::<S>(oid, sec1_bytes(be(d as nat, S::sl()), par, Some(S::enc_pub(d))), d)
{ S::lemma_curve(); lemma_be_of(d as nat, S::sl()); lemma_small_mod(d as nat, p256(S::sl())); assert(key_ok::<S>(oid, be(d as nat, S::sl()), par, Some(S::enc_pub(d)))); }
//@item graviola/src/high/ecdsa.rs :: struct SigningKey
impl<C: Curve + CurveOid> SigningKey<C> {
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: from_sec1_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().private_key.okd() && sec1_ok::<C::Scalar>(C::oid_b(), bytes@, r.unwrap().private_key.dv()),
        bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|d: int| #[trigger] sec1_ok::<C::Scalar>(C::oid_b(), bytes@, d)
//@ sub asn1::pkix::EcPrivateKey::from_bytes\(bytes\)\.map_err\(Error::Asn1Error\)\? => match asn1::pkix::EcPrivateKey::from_bytes(bytes) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub Some\(x\) if x == &C::oid\(\) => Some(x) if v_oid_eq(x, &C::oid())
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ sub encoded_public_key != expected_public_key\.as_octets\(\) => !v_slice_eq(encoded_public_key, expected_public_key.as_octets())
//@ begin
    let ghost oid = C::oid_b();
    proof { <C::Scalar as Scalar>::lemma_curve(); C::lemma_oid();
        if bytes@.len() < 0x1_0000 { assert forall|pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>| bytes@ == #[trigger] sec1_bytes(pv, par, pb) && key_ok::<C::Scalar>(oid, pv, par, pb) implies <der::EcPrivateKey<'_> as Type<'_>>::rest(bytes@, 0x30) == Some(Seq::<u8>::empty()) by { C::lemma_oid(); lemma_sec1_rest(pv, par, pb); } } }
//@ before match ecpk
    let ghost pv0 = ecpk.privateKey.octets@; let ghost par0 = fpar(ecpk); let ghost pb0 = fpub(ecpk);
    proof { lemma_enc(ecpk); assert(bytes@ == sec1_bytes(pv0, par0, pb0));
        if bytes@.len() < 0x1_0000 { assert forall|pv: Seq<u8>, par: Option<Seq<u8>>, pb: Option<Seq<u8>>| bytes@ == #[trigger] sec1_bytes(pv, par, pb) implies pv == pv0 && par == par0 && pb == pb0 by { lemma_sec1_inj(pv, par, pb, pv0, par0, pb0); } } }
//@ tail
    proof { assert(key_ok::<C::Scalar>(oid, pv0, par0, pb0)); assert(sec1_ok::<C::Scalar>(oid, bytes@, private_key.dv())); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: from_pkcs8_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().private_key.okd() && p8_ok::<C::Scalar>(C::oid_b(), bytes@, r.unwrap().private_key.dv()),
        bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|d: int| #[trigger] p8_ok::<C::Scalar>(C::oid_b(), bytes@, d)
//@ sub &asn1::oid::(\w+) => &asn1::v_\1()
//@ sub alleged_pub_key != actual_pub_key => !v_slice_eq(alleged_pub_key, actual_pub_key)
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ begin
    let ghost oid = C::oid_b();
    proof { <C::Scalar as Scalar>::lemma_curve(); C::lemma_oid(); assert(der::der_id_ecPublicKey() =~= ec_oid()); }
//@ after let p8
    proof { assert(p8.encodes(bytes@));
        if bytes@.len() < 0x1_0000 { assert forall|k: pkcs8::Key<'_>| #[trigger] k.encodes(bytes@) implies k.priv_b() == p8.priv_b() && k.pub_b() == p8.pub_b() && p8.priv_b().len() < 0x1_0000 by { lemma_p8_inj(k, p8, bytes@); } lemma_p8_inj(p8, p8, bytes@); } }
//@ after let key
    proof { if bytes@.len() < 0x1_0000 { assert forall|d: int| #[trigger] sec1_ok::<C::Scalar>(oid, p8.priv_b(), d) implies d == key.private_key.dv() by { lemma_sec1_one::<C::Scalar>(oid, p8.priv_b(), d, key.private_key.dv()); } } }
//@ tail
    proof { assert(p8_key_ok::<C::Scalar>(p8, oid, key.private_key.dv())); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: to_pkcs8_der
//@ ret r
//@ spec
    requires self.private_key.okd()
    ensures r.is_ok() == (old(output)@.len() >= p8_bytes::<C::Scalar>(C::oid_b(), self.private_key.dv()).len()),
        r.is_ok() ==> r.unwrap()@ == p8_bytes::<C::Scalar>(C::oid_b(), self.private_key.dv()) && p8_ok::<C::Scalar>(C::oid_b(), r.unwrap()@, self.private_key.dv())
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ sub pkcs8::Key::construct\((.*)\)\s*\.encode\(output\) => let vk = pkcs8::Key::construct(\1); proof { assert(vk.0.enc(0x30) =~= p8_bytes::<C::Scalar>(oid, d)); assert(vk.encodes(p8_bytes::<C::Scalar>(oid, d))); assert(p8_key_ok::<C::Scalar>(vk, oid, d)); } vk.encode(output)
//@ begin
    let ghost oid = C::oid_b(); let ghost d = self.private_key.dv();
    proof { <C::Scalar as Scalar>::lemma_curve(); C::lemma_oid(); assert(der::der_id_ecPublicKey() =~= ec_oid()); lemma_be_of(d as nat, C::Scalar::sl()); lemma_sec1_len(be(d as nat, C::Scalar::sl()), C::Scalar::enc_pub(d)); lemma_tlv_len(6, oid); lemma_tlv_len(6, ec_oid()); }
//@ after let sec1\b
    proof { lemma_sec1_self::<C::Scalar>(oid, None, d); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: to_spki_der
//@ ret r
//@ spec
    requires self.private_key.okd()
    ensures r.is_ok() == (old(output)@.len() >= spki_bytes::<C::Scalar>(C::oid_b(), self.private_key.dv()).len()),
        r.is_ok() ==> r.unwrap()@ == spki_bytes::<C::Scalar>(C::oid_b(), self.private_key.dv())
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ sub let len = spki\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let mut ve = asn1::Encoder::new(output); let len = match spki.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ begin
    let ghost oid = C::oid_b(); let ghost d = self.private_key.dv();
    proof { <C::Scalar as Scalar>::lemma_curve(); C::lemma_oid(); assert(der::der_id_ecPublicKey() =~= ec_oid()); lemma_tlv_len(6, oid); lemma_tlv_len(6, ec_oid()); lemma_tlv_len(0x30, der::tlv(6, ec_oid()) + der::tlv(6, oid)); let q = seq![0u8] + C::Scalar::enc_pub(d); lemma_tlv_len(3, q); lemma_tlv_len(0x30, alg_bytes(oid) + der::tlv(3, q)); }
//@ after let spki
    proof { assert(spki.enc(0x30) =~= spki_bytes::<C::Scalar>(oid, d)); }
//@ after let len
    proof { assert(output@.take(len as int) =~= spki_bytes::<C::Scalar>(oid, d)); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: to_sec1_der
//@ ret r
//@ spec
    requires self.private_key.okd()
    ensures ({ let s = sec1_bytes(be(self.private_key.dv() as nat, C::Scalar::sl()), Some(C::oid_b()), Some(C::Scalar::enc_pub(self.private_key.dv())));
        r.is_ok() == (old(output)@.len() >= s.len()) && (r.is_ok() ==> r.unwrap()@ == s) })
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: to_sec1_der_detail
//@ ret r
//@ spec
    requires self.private_key.okd(), parameters matches Some(o) ==> o.inv()
    ensures r.is_ok() == (old(output)@.len() >= sec1_bytes(be(self.private_key.dv() as nat, C::Scalar::sl()), match parameters { None => None, Some(o) => Some(o.b()) }, Some(C::Scalar::enc_pub(self.private_key.dv()))).len()),
        r.is_ok() ==> 0 < self.private_key.dv() < C::Scalar::n(),
        r.is_ok() ==> r.unwrap()@ == sec1_bytes(be(self.private_key.dv() as nat, C::Scalar::sl()), match parameters { None => None, Some(o) => Some(o.b()) }, Some(C::Scalar::enc_pub(self.private_key.dv())))
//@ sub x\.into\(\), => asn1::Context::from(x),
//@ sub asn1::BitString::new\(encoded_public_key\)\.into\(\) => asn1::Context::from(asn1::BitString::new(encoded_public_key))
//@ sub let used = ecpk\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let mut ve = asn1::Encoder::new(output); let used = match ecpk.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ sub output\.get\(\.\.used\)\.ok_or\(Error::WrongLength\) => match der::v_get_to(output, used) { Some(x) => { proof { assert(x@ =~= ecpk.enc(0x30)); } Ok(x) }, None => Err(Error::WrongLength) }
//@ begin
    proof { <C::Scalar as Scalar>::lemma_curve(); }
//@ before let vl0
    proof { lemma_enc(ecpk); lemma_be_is(encoded_private_key@, self.private_key.dv()); lemma_small_enc(ecpk); }
//@end
}
pub proof fn lemma_be_is(b: Seq<u8>, x: int) requires be_val(b) == x ensures b == be(x as nat, b.len())
{ lemma_be_bound(b); lemma_be_of(x as nat, b.len()); lemma_small_mod(x as nat, p256(b.len())); lemma_be_inj(b, be(x as nat, b.len())); }
pub proof fn lemma_small_enc(k: der::EcPrivateKey<'_>) requires k.privateKey.octets@.len() <= 100, fpar(k) matches Some(o) ==> o.len() <= 16, fpub(k) matches Some(q) ==> q.len() <= 200 ensures k.body().len() < 0x1000, k.parameters.0 matches Some(o) ==> o.enc(6).len() < 0x100, k.publicKey.0 matches Some(q) ==> q.enc(3).len() < 0x200 { lemma_tags(); }
}
fn main() {}
