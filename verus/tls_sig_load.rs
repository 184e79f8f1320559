// ------------------------------------------------------------ loading private keys
// `Arc<dyn sign::SigningKey>` becomes the enum of the four key types
pub enum AnyKey { Rsa(Rsa), EcdsaP256(EcdsaP256), EcdsaP384(EcdsaP384), Ed25519(Ed25519) }
impl AnyKey {
    // the key offered is the one this encoding holds
    pub open spec fn is_p8(self, b: Seq<u8>) -> bool { match self {
        AnyKey::Rsa(k) => rsa::p8_ok(b) && k.0.v() == rsa::p8_key(b),
        AnyKey::EcdsaP256(k) => ecdsa::p8_256(b) && k.0.v() == <ecdsa::P256 as ecdsa::Curve>::p8_key(b),
        AnyKey::EcdsaP384(k) => ecdsa::p8_384(b) && k.0.v() == <ecdsa::P384 as ecdsa::Curve>::p8_key(b),
        AnyKey::Ed25519(k) => eddsa::ed_p8(b) && k.0.v() == eddsa::p8_key(b) } }
    pub open spec fn is_sec1(self, b: Seq<u8>) -> bool { match self {
        AnyKey::EcdsaP256(k) => ecdsa::sec1_256(b) && k.0.v() == <ecdsa::P256 as ecdsa::Curve>::sec1_key(b),
        AnyKey::EcdsaP384(k) => ecdsa::sec1_384(b) && k.0.v() == <ecdsa::P384 as ecdsa::Curve>::sec1_key(b),
        _ => false } }
}
pub mod pki_types { use super::*; verus! {
    pub struct PrivatePkcs8KeyDer { pub b: Vec<u8> }
    pub struct PrivatePkcs1KeyDer { pub b: Vec<u8> }
    pub struct PrivateSec1KeyDer { pub b: Vec<u8> }
    impl PrivatePkcs8KeyDer { #[verifier::external_body] pub fn secret_pkcs8_der(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
    impl PrivatePkcs1KeyDer { #[verifier::external_body] pub fn secret_pkcs1_der(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
    impl PrivateSec1KeyDer { #[verifier::external_body] pub fn secret_sec1_der(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
    pub enum PrivateKeyDer { Pkcs8(PrivatePkcs8KeyDer), Pkcs1(PrivatePkcs1KeyDer), Sec1(PrivateSec1KeyDer), Unknown }
} }
//@fn rustls-graviola/src/sign.rs :: - :: load_pkcs8
//@ ret r
//@ sub sig <'static> => 
//@ sub sig Arc<dyn sign::SigningKey>, rustls::Error => AnyKey, TErr
//@ sub Ok\(Arc::new\((\w+)\((.*?)\)\)\); => Ok(AnyKey::\1(\1(\2)));
//@ sub rustls::Error::General\(.*?to_string\(\)\) => v_general()
//@ spec
    ensures r.is_ok() == (rsa::p8_ok(key_der.b@) || ecdsa::p8_256(key_der.b@) || ecdsa::p8_384(key_der.b@) || eddsa::ed_p8(key_der.b@)),
        r.is_ok() ==> r.unwrap().is_p8(key_der.b@)
//@end
//@fn rustls-graviola/src/sign.rs :: - :: load_pkcs1
//@ ret r
//@ sub sig <'static> => 
//@ sub sig Arc<dyn sign::SigningKey>, rustls::Error => AnyKey, TErr
//@ sub Ok\(Arc::new\((\w+)\((.*?)\)\)\) => Ok(AnyKey::\1(\1(\2)))
//@ sub \|err\| rustls::Error::General\(format!\(.*?\)\) => |_e: GErr| v_general()
//@ spec
    ensures r.is_ok() == rsa::p1_ok(key_der.b@),
        r.is_ok() ==> (r.unwrap() matches AnyKey::Rsa(k) && k.0.v() == rsa::p1_key(key_der.b@))
//@end
//@fn rustls-graviola/src/sign.rs :: - :: load_sec1
//@ ret r
//@ sub sig <'static> => 
//@ sub sig Arc<dyn sign::SigningKey>, rustls::Error => AnyKey, TErr
//@ sub Ok\(Arc::new\((\w+)\((.*?)\)\)\); => Ok(AnyKey::\1(\1(\2)));
//@ sub rustls::Error::General\(\s*"[^"]*"\.to_string\(\),?\s*\) => v_general()
//@ spec
    ensures r.is_ok() == (ecdsa::sec1_256(key_der.b@) || ecdsa::sec1_384(key_der.b@)),
        r.is_ok() ==> r.unwrap().is_sec1(key_der.b@)
//@end
impl Provider {
//@fn rustls-graviola/src/sign.rs :: impl rustls::crypto::KeyProvider for Provider :: load_private_key
//@ ret r
//@ sub sig <'static> => 
//@ sub sig Arc<dyn sign::SigningKey>, rustls::Error => AnyKey, TErr
//@ sub rustls::Error::General\(.*?to_string\(\)\) => v_general()
//@ spec
    ensures match key_der {
        pki_types::PrivateKeyDer::Pkcs8(d) => r.is_ok() == (rsa::p8_ok(d.b@) || ecdsa::p8_256(d.b@) || ecdsa::p8_384(d.b@) || eddsa::ed_p8(d.b@)) && (r.is_ok() ==> r.unwrap().is_p8(d.b@)),
        pki_types::PrivateKeyDer::Pkcs1(d) => r.is_ok() == rsa::p1_ok(d.b@) && (r.is_ok() ==> (r.unwrap() matches AnyKey::Rsa(k) && k.0.v() == rsa::p1_key(d.b@))),
        pki_types::PrivateKeyDer::Sec1(d) => r.is_ok() == (ecdsa::sec1_256(d.b@) || ecdsa::sec1_384(d.b@)) && (r.is_ok() ==> r.unwrap().is_sec1(d.b@)),
        _ => r.is_err() }
//@end
}
// ------------------------------------------------------------ the table handed to webpki
pub mod table { use super::*; verus! {
    // the statics above (v_NAME), by name
    #[allow(non_camel_case_types)]
    #[derive(PartialEq, Eq, Clone, Copy)] pub enum Alg { ECDSA_P256_SHA256, ECDSA_P256_SHA384, ECDSA_P256_SHA512, ECDSA_P384_SHA256, ECDSA_P384_SHA384, ECDSA_P384_SHA512, ED25519,
        RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, RSA_PKCS1_SHA256, RSA_PKCS1_SHA384, RSA_PKCS1_SHA512 }
    pub use Alg::*;
    // what each named static computes, as its own contract above states
    pub open spec fn computed(a: Alg) -> SigAlg { match a {
        ECDSA_P256_SHA256 => SigAlg::Ecdsa(HashId::Sha256), ECDSA_P256_SHA384 => SigAlg::Ecdsa(HashId::Sha384), ECDSA_P256_SHA512 => SigAlg::Ecdsa(HashId::Sha512),
        ECDSA_P384_SHA256 => SigAlg::Ecdsa(HashId::Sha256), ECDSA_P384_SHA384 => SigAlg::Ecdsa(HashId::Sha384), ECDSA_P384_SHA512 => SigAlg::Ecdsa(HashId::Sha512),
        ED25519 => SigAlg::Ed25519,
        RSA_PSS_SHA256 => SigAlg::Pss(HashId::Sha256), RSA_PSS_SHA384 => SigAlg::Pss(HashId::Sha384), RSA_PSS_SHA512 => SigAlg::Pss(HashId::Sha512),
        RSA_PKCS1_SHA256 => SigAlg::Pkcs1(HashId::Sha256), RSA_PKCS1_SHA384 => SigAlg::Pkcs1(HashId::Sha384), RSA_PKCS1_SHA512 => SigAlg::Pkcs1(HashId::Sha512) } }
    pub struct WebPkiSupportedAlgorithms { pub all: &'static [Alg], pub mapping: &'static [(SignatureScheme, &'static [Alg])] }
    impl WebPkiSupportedAlgorithms {
        // TLS 1.3 takes the first algorithm of a scheme only, and there the ECDSA schemes fix the curve (RFC 8446 4.2.3)
        pub open spec fn tls13_first(s: SignatureScheme, a: Alg) -> bool { (s == SignatureScheme::ECDSA_NISTP256_SHA256 ==> a == ECDSA_P256_SHA256) && (s == SignatureScheme::ECDSA_NISTP384_SHA384 ==> a == ECDSA_P384_SHA384) }
        pub open spec fn row_ok(self, i: int) -> bool {
            &&& self.mapping@[i].1@.len() > 0
            &&& Self::tls13_first(self.mapping@[i].0, self.mapping@[i].1@[0])
            &&& forall|j: int| 0 <= j < self.mapping@[i].1@.len() ==> #[trigger] computed(self.mapping@[i].1@[j]) == alg_of(self.mapping@[i].0) && self.all@.contains(self.mapping@[i].1@[j]) }
        pub open spec fn at(self, s: SignatureScheme, i: int) -> bool { i < self.mapping@.len() && self.mapping@[i].0 == s }
        pub open spec fn offers(self, s: SignatureScheme) -> bool { self.at(s, 0) || self.at(s, 1) || self.at(s, 2) || self.at(s, 3) || self.at(s, 4) || self.at(s, 5) || self.at(s, 6) || self.at(s, 7) || self.at(s, 8) || self.at(s, 9) || self.at(s, 10) || self.at(s, 11) || self.at(s, 12) || self.at(s, 13) || self.at(s, 14) || self.at(s, 15) }
    }
//@constfn rustls-graviola/src/verify.rs :: - :: static ALGORITHMS
//@ spec
    ensures forall|i: int| 0 <= i < r.mapping@.len() ==> r.row_ok(i),
        forall|i: int, j: int| 0 <= i < j < r.mapping@.len() ==> r.mapping@[i].0 != r.mapping@[j].0,
        // every scheme a key of this provider signs with
        forall|s: SignatureScheme| #![trigger r.offers(s)] rsa_scheme(s) || s == SignatureScheme::ECDSA_NISTP256_SHA256 || s == SignatureScheme::ECDSA_NISTP384_SHA384 || s == SignatureScheme::ED25519 ==> r.offers(s)
//@end
} }
