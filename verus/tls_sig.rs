// C26: TLS signature schemes -> algorithms, over the contracts of the signing and verifying functions (C12, C13, C15-C17)
use vstd::prelude::*;
//@use std.rs
verus! {
pub struct Provider;
#[derive(Debug)] pub struct GErr;
#[derive(Debug)] pub struct TErr;
#[derive(Debug)] pub struct InvalidSignature;
#[verifier::external_body] pub fn v_general() -> (r: TErr) { TErr }
pub fn v_inv(x: Result<(), GErr>) -> (r: Result<(), InvalidSignature>) ensures r.is_ok() == x.is_ok() { match x { Ok(()) => Ok(()), Err(_) => Err(InvalidSignature) } }
#[allow(non_camel_case_types)]
#[derive(PartialEq, Eq, Clone, Copy)] pub enum SignatureScheme { RSA_PKCS1_SHA1, ECDSA_SHA1_Legacy, RSA_PKCS1_SHA256, ECDSA_NISTP256_SHA256, RSA_PKCS1_SHA384, ECDSA_NISTP384_SHA384, RSA_PKCS1_SHA512, ECDSA_NISTP521_SHA512,
    RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, ED25519, ED448, ML_DSA_44, ML_DSA_65, ML_DSA_87, Unknown(u16) }
pub enum HashId { Sha256, Sha384, Sha512 }
pub enum SigAlg { Pkcs1(HashId), Pss(HashId), Ecdsa(HashId), Ed25519 }
pub enum Pub { Rsa(Seq<u8>), P256(Seq<u8>), P384(Seq<u8>), Ed25519(Seq<u8>) }
// the signature is valid under this algorithm (RFC 8017, FIPS 186-5, RFC 8032)
pub uninterp spec fn sig_ok(k: Pub, a: SigAlg, msg: Seq<u8>, sig: Seq<u8>) -> bool;
// RFC 8446 4.2.3
pub open spec fn alg_of(s: SignatureScheme) -> SigAlg { match s {
    SignatureScheme::RSA_PKCS1_SHA256 => SigAlg::Pkcs1(HashId::Sha256), SignatureScheme::RSA_PKCS1_SHA384 => SigAlg::Pkcs1(HashId::Sha384), SignatureScheme::RSA_PKCS1_SHA512 => SigAlg::Pkcs1(HashId::Sha512),
    SignatureScheme::RSA_PSS_SHA256 => SigAlg::Pss(HashId::Sha256), SignatureScheme::RSA_PSS_SHA384 => SigAlg::Pss(HashId::Sha384), SignatureScheme::RSA_PSS_SHA512 => SigAlg::Pss(HashId::Sha512),
    SignatureScheme::ECDSA_NISTP256_SHA256 => SigAlg::Ecdsa(HashId::Sha256), SignatureScheme::ECDSA_NISTP384_SHA384 => SigAlg::Ecdsa(HashId::Sha384), _ => SigAlg::Ed25519 } }
pub open spec fn rsa_scheme(s: SignatureScheme) -> bool { s == SignatureScheme::RSA_PKCS1_SHA256 || s == SignatureScheme::RSA_PKCS1_SHA384 || s == SignatureScheme::RSA_PKCS1_SHA512
    || s == SignatureScheme::RSA_PSS_SHA256 || s == SignatureScheme::RSA_PSS_SHA384 || s == SignatureScheme::RSA_PSS_SHA512 }
#[verifier::external_body] pub fn v_contains(s: &[SignatureScheme], x: &SignatureScheme) -> (r: bool) ensures r == s@.contains(*x) { s.contains(x) }
#[verifier::external_body] pub fn v_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { unimplemented!() }
#[verifier::external_body] pub fn v_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arc<T> { x: std::sync::Arc<T> }
impl<T> Arc<T> { pub uninterp spec fn v(self) -> T;
    #[verifier::external_body] pub fn new(x: T) -> (r: Self) ensures r.v() == x { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() } }
pub mod hashing { use super::*; verus! {
    pub trait Hash { spec fn id() -> HashId; }
    pub struct Sha256; pub struct Sha384; pub struct Sha512;
    impl Hash for Sha256 { open spec fn id() -> HashId { HashId::Sha256 } }
    impl Hash for Sha384 { open spec fn id() -> HashId { HashId::Sha384 } }
    impl Hash for Sha512 { open spec fn id() -> HashId { HashId::Sha512 } }
} }
pub mod rsa { use super::*; verus! {
    pub struct SigningKey { pub k: Pub }
    pub struct VerifyingKey { pub k: Pub }
    pub uninterp spec fn modlen(k: Pub) -> nat;
    pub uninterp spec fn rsa_ok(der: Seq<u8>) -> bool;
    pub uninterp spec fn p8_ok(der: Seq<u8>) -> bool;
    pub uninterp spec fn p1_ok(der: Seq<u8>) -> bool;
    pub uninterp spec fn p8_key(der: Seq<u8>) -> SigningKey;
    pub uninterp spec fn p1_key(der: Seq<u8>) -> SigningKey;
    pub open spec fn wrote(k: Pub, a: SigAlg, m: Seq<u8>, s0: Seq<u8>, s1: Seq<u8>) -> bool { s0.len() == s1.len() && modlen(k) <= s1.len() && sig_ok(k, a, m, s1.take(modlen(k) as int)) }
    impl SigningKey {
        #[verifier::external_body] pub fn from_pkcs8_der(b: &[u8]) -> (r: Result<SigningKey, GErr>) ensures r.is_ok() == p8_ok(b@), r.is_ok() ==> r.unwrap() == p8_key(b@) { unimplemented!() }
        #[verifier::external_body] pub fn from_pkcs1_der(b: &[u8]) -> (r: Result<SigningKey, GErr>) ensures r.is_ok() == p1_ok(b@), r.is_ok() ==> r.unwrap() == p1_key(b@) { unimplemented!() }
        #[verifier::external_body] pub fn modulus_len_bytes(&self) -> (r: usize) ensures r == modlen(self.k) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pkcs1_sha256(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pkcs1(HashId::Sha256), m@, old(sig)@, final(sig)@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pkcs1_sha384(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pkcs1(HashId::Sha384), m@, old(sig)@, final(sig)@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pkcs1_sha512(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pkcs1(HashId::Sha512), m@, old(sig)@, final(sig)@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pss_sha256(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pss(HashId::Sha256), m@, old(sig)@, final(sig)@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pss_sha384(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pss(HashId::Sha384), m@, old(sig)@, final(sig)@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_pss_sha512(&self, sig: &mut Vec<u8>, m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() ==> wrote(self.k, SigAlg::Pss(HashId::Sha512), m@, old(sig)@, final(sig)@) { unimplemented!() }
    }
    impl VerifyingKey {
        #[verifier::external_body] pub fn from_pkcs1_der(b: &[u8]) -> (r: Result<VerifyingKey, GErr>) ensures r.is_ok() == rsa_ok(b@), r.is_ok() ==> r.unwrap().k == Pub::Rsa(b@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pkcs1_sha256(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pkcs1(HashId::Sha256), m@, s@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pkcs1_sha384(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pkcs1(HashId::Sha384), m@, s@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pkcs1_sha512(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pkcs1(HashId::Sha512), m@, s@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pss_sha256(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pss(HashId::Sha256), m@, s@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pss_sha384(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pss(HashId::Sha384), m@, s@) { unimplemented!() }
        #[verifier::external_body] pub fn verify_pss_sha512(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(self.k, SigAlg::Pss(HashId::Sha512), m@, s@) { unimplemented!() }
    }
} }
pub mod ecdsa { use super::*; use super::hashing::Hash; verus! {
    pub trait Curve: Sized { type PublicKey; spec fn p8_ok(b: Seq<u8>) -> bool; spec fn sec1_ok(b: Seq<u8>) -> bool; spec fn p8_key(b: Seq<u8>) -> SigningKey<Self>; spec fn sec1_key(b: Seq<u8>) -> SigningKey<Self>; spec fn pubk(k: SigningKey<Self>) -> Pub; spec fn vpub(k: VerifyingKey<Self>) -> Pub; }
    pub struct P256; pub struct P384;
    pub uninterp spec fn p256_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn p384_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn p8_256(b: Seq<u8>) -> bool;
    pub uninterp spec fn p8_384(b: Seq<u8>) -> bool;
    pub uninterp spec fn p8_key256(b: Seq<u8>) -> SigningKey<P256>;
    pub uninterp spec fn sec1_key256(b: Seq<u8>) -> SigningKey<P256>;
    pub uninterp spec fn sec1_256(b: Seq<u8>) -> bool;
    pub uninterp spec fn p8_key384(b: Seq<u8>) -> SigningKey<P384>;
    pub uninterp spec fn sec1_key384(b: Seq<u8>) -> SigningKey<P384>;
    pub uninterp spec fn sec1_384(b: Seq<u8>) -> bool;
    pub uninterp spec fn pub256(k: SigningKey<P256>) -> Seq<u8>;
    pub uninterp spec fn pub384(k: SigningKey<P384>) -> Seq<u8>;
    pub struct P256PublicKey { pub b: Seq<u8> }
    pub struct P384PublicKey { pub b: Seq<u8> }
    impl Curve for P256 { type PublicKey = P256PublicKey; open spec fn p8_ok(b: Seq<u8>) -> bool { p8_256(b) } open spec fn p8_key(b: Seq<u8>) -> SigningKey<Self> { p8_key256(b) } open spec fn sec1_key(b: Seq<u8>) -> SigningKey<Self> { sec1_key256(b) } open spec fn sec1_ok(b: Seq<u8>) -> bool { sec1_256(b) } open spec fn pubk(k: SigningKey<P256>) -> Pub { Pub::P256(pub256(k)) } open spec fn vpub(k: VerifyingKey<P256>) -> Pub { Pub::P256(k.public_key.b) } }
    impl Curve for P384 { type PublicKey = P384PublicKey; open spec fn p8_ok(b: Seq<u8>) -> bool { p8_384(b) } open spec fn p8_key(b: Seq<u8>) -> SigningKey<Self> { p8_key384(b) } open spec fn sec1_key(b: Seq<u8>) -> SigningKey<Self> { sec1_key384(b) } open spec fn sec1_ok(b: Seq<u8>) -> bool { sec1_384(b) } open spec fn pubk(k: SigningKey<P384>) -> Pub { Pub::P384(pub384(k)) } open spec fn vpub(k: VerifyingKey<P384>) -> Pub { Pub::P384(k.public_key.b) } }
    impl P256PublicKey { #[verifier::external_body] pub fn from_x962_uncompressed(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == p256_ok(b@), r.is_ok() ==> r.unwrap().b == b@ { unimplemented!() } }
    impl P384PublicKey { #[verifier::external_body] pub fn from_x962_uncompressed(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == p384_ok(b@), r.is_ok() ==> r.unwrap().b == b@ { unimplemented!() } }
    pub struct SigningKey<C: Curve> { pub c: C, pub id: Seq<u8> }
    pub struct VerifyingKey<C: Curve> { pub public_key: C::PublicKey }
    impl<C: Curve> SigningKey<C> {
        #[verifier::external_body] pub fn from_pkcs8_der(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == C::p8_ok(b@), r.is_ok() ==> r.unwrap() == C::p8_key(b@) { unimplemented!() }
        #[verifier::external_body] pub fn from_sec1_der(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == C::sec1_ok(b@), r.is_ok() ==> r.unwrap() == C::sec1_key(b@) { unimplemented!() }
        #[verifier::external_body] pub fn sign_asn1_1<'a, H: Hash>(&self, m: &[u8], out: &'a mut [u8]) -> (r: Result<&'a [u8], GErr>) ensures r.is_ok() ==> sig_ok(C::pubk(*self), SigAlg::Ecdsa(H::id()), m@, r.unwrap()@) { unimplemented!() }
    }
    impl<C: Curve> VerifyingKey<C> {
        #[verifier::external_body] pub fn verify_asn1_1<H: Hash>(&self, m: &[u8], s: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(C::vpub(*self), SigAlg::Ecdsa(H::id()), m@, s@) { unimplemented!() }
    }
    impl Arc<SigningKey<P256>> { pub open spec fn pubk(self) -> Pub { Pub::P256(pub256(self.v())) }
        pub fn sign_asn1_1<'a, H: Hash>(&self, m: &[u8], out: &'a mut [u8]) -> (r: Result<&'a [u8], GErr>) ensures r.is_ok() ==> sig_ok(self.pubk(), SigAlg::Ecdsa(H::id()), m@, r.unwrap()@) { self.v_ref().sign_asn1_1::<H>(m, out) } }
    impl Arc<SigningKey<P384>> { pub open spec fn pubk(self) -> Pub { Pub::P384(pub384(self.v())) }
        pub fn sign_asn1_1<'a, H: Hash>(&self, m: &[u8], out: &'a mut [u8]) -> (r: Result<&'a [u8], GErr>) ensures r.is_ok() ==> sig_ok(self.pubk(), SigAlg::Ecdsa(H::id()), m@, r.unwrap()@) { self.v_ref().sign_asn1_1::<H>(m, out) } }
} }
impl<T> Arc<T> { #[verifier::external_body] pub fn v_ref(&self) -> (r: &T) ensures *r == self.v() { unimplemented!() } }
pub mod eddsa { use super::*; verus! {
    pub struct Ed25519SigningKey { pub id: Seq<u8> }
    pub struct Ed25519VerifyingKey { pub b: Seq<u8> }
    pub uninterp spec fn ed_pub(k: Ed25519SigningKey) -> Seq<u8>;
    pub uninterp spec fn ed_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn ed_p8(b: Seq<u8>) -> bool;
    pub uninterp spec fn p8_key(b: Seq<u8>) -> Ed25519SigningKey;
    impl Ed25519SigningKey {
        #[verifier::external_body] pub fn from_pkcs8_der(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == ed_p8(b@), r.is_ok() ==> r.unwrap() == p8_key(b@) { unimplemented!() }
        #[verifier::external_body] pub fn sign(&self, m: &[u8]) -> (r: [u8; 64]) ensures sig_ok(Pub::Ed25519(ed_pub(*self)), SigAlg::Ed25519, m@, r@) { unimplemented!() }
    }
    impl Ed25519VerifyingKey {
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<Self, GErr>) ensures r.is_ok() == ed_ok(b@), r.is_ok() ==> r.unwrap().b == b@ { unimplemented!() }
        #[verifier::external_body] pub fn verify(&self, s: &[u8], m: &[u8]) -> (r: Result<(), GErr>) ensures r.is_ok() == sig_ok(Pub::Ed25519(self.b), SigAlg::Ed25519, m@, s@) { unimplemented!() }
    }
} }
pub mod alg_id { use super::*; verus! {
    // rustls-pki-types names
    #[allow(non_camel_case_types)]
    #[derive(PartialEq, Eq, Clone, Copy)] pub enum AlgId { ECDSA_P256, ECDSA_P384, ECDSA_P521, ECDSA_SHA256, ECDSA_SHA384, ECDSA_SHA512, RSA_ENCRYPTION, RSA_PKCS1_SHA256, RSA_PKCS1_SHA384, RSA_PKCS1_SHA512, RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, ED25519, ED448 }
    pub use AlgId::*;
} }
pub use alg_id::AlgId as AlgorithmIdentifier;
// ------------------------------------------------------------ signing
//@item rustls-graviola/src/sign.rs :: struct Rsa
//@item rustls-graviola/src/sign.rs :: struct RsaSigner
impl Rsa {
//@fn rustls-graviola/src/sign.rs :: impl sign::SigningKey for Rsa :: choose_scheme
//@ ret r
//@ sub sig Option<Box<dyn sign::Signer \+ 'static>> => Option<RsaSigner>
//@ sub Some\(Box::new\(RsaSigner (\{.*?\})\)\) => Some(RsaSigner \1)
//@ sub Arc::clone\(&self\.0\) => self.0.clone()
//@ sub schemes\.contains\( => v_contains(schemes, 
//@ spec
    ensures r.is_some() ==> rsa_scheme(r.unwrap().scheme) && schemes@.contains(r.unwrap().scheme) && r.unwrap().key.v() == self.0.v(),
        r.is_none() ==> forall|s: SignatureScheme| rsa_scheme(s) ==> !schemes@.contains(s)
//@end
}
impl RsaSigner {
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for RsaSigner :: sign
//@ ret r
//@ sub sig rustls::Error => TErr
//@ sub vec!\[0u8; (.*?)\]; => v_zeros(\1);
//@ sub self\.key\. => self.key.v_ref().
//@ sub \|err\| rustls::Error::General\(format!\(.*?\)\) => |_e: GErr| v_general()
//@ spec
    requires rsa_scheme(self.scheme)
    ensures r.is_ok() ==> sig_ok(self.key.v().k, alg_of(self.scheme), message@, r.unwrap()@)
//@ tail
    proof { assert(sig@.take(sig@.len() as int) =~= sig@); }
//@end
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for RsaSigner :: scheme
//@ ret r
//@ spec
    ensures r == self.scheme
//@end
}
//@use tls_sig_ec.rs C=P256 S=ECDSA_NISTP256_SHA256
//@use tls_sig_ec.rs C=P384 S=ECDSA_NISTP384_SHA384
//@item rustls-graviola/src/sign.rs :: struct Ed25519
impl Ed25519 {
//@fn rustls-graviola/src/sign.rs :: impl sign::SigningKey for Ed25519 :: choose_scheme
//@ ret r
//@ sub sig Option<Box<dyn sign::Signer \+ 'static>> => Option<Self>
//@ sub Some\(Box::new\(Self\(self\.0\.clone\(\)\)\)\) => Some(Self(self.0.clone()))
//@ sub schemes\.contains\( => v_contains(schemes, 
//@ spec
    ensures r.is_some() == schemes@.contains(SignatureScheme::ED25519), r.is_some() ==> r.unwrap().0.v() == self.0.v()
//@end
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for Ed25519 :: sign
//@ ret r
//@ sub sig rustls::Error => TErr
//@ sub self\.0\.sign\(message\)\.to_vec\(\) => v_to_vec(&self.0.v_ref().sign(message))
//@ spec
    ensures r.is_ok(), sig_ok(Pub::Ed25519(eddsa::ed_pub(self.0.v())), SigAlg::Ed25519, message@, r.unwrap()@)
//@end
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for Ed25519 :: scheme
//@ ret r
//@ spec
    ensures r == SignatureScheme::ED25519
//@end
}
// ------------------------------------------------------------ verification
//@item rustls-graviola/src/verify.rs :: struct RsaVerify
//@ sub struct RsaVerify => struct RsaVerify<F>
//@ sub verify: fn\(.*?\) -> Result<\(\), graviola::Error> => verify: F
//@end
impl<F: Fn(&rsa::VerifyingKey, &[u8], &[u8]) -> Result<(), GErr>> RsaVerify<F> {
    pub open spec fn computes(self, a: SigAlg) -> bool {
        &&& forall|k: &rsa::VerifyingKey, s: &[u8], m: &[u8]| #[trigger] call_requires(self.verify, (k, s, m))
        &&& forall|k: &rsa::VerifyingKey, s: &[u8], m: &[u8], r: Result<(), GErr>| #[trigger] call_ensures(self.verify, (k, s, m), r) ==> r.is_ok() == sig_ok(k.k, a, m@, s@)
    }
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for RsaVerify :: verify_signature
//@ ret r
//@ sub rsa::VerifyingKey::from_pkcs1_der\(public_key\)\s*\.and_then\(\|pk\| \(self\.verify\)\(&pk, signature, message\)\) => (match rsa::VerifyingKey::from_pkcs1_der(public_key) { Ok(pk) => (self.verify)(&pk, signature, message), Err(e) => Err(e) })
//@ spec
    requires exists|a: SigAlg| self.computes(a)
    ensures forall|a: SigAlg| #![trigger self.computes(a)] self.computes(a) ==> r.is_ok() == (rsa::rsa_ok(public_key@) && sig_ok(Pub::Rsa(public_key@), a, message@, signature@))
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for RsaVerify :: public_key_alg_id
//@ ret r
//@ spec
    ensures r == alg_id::RSA_ENCRYPTION
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for RsaVerify :: signature_alg_id
//@ ret r
//@ spec
    ensures r == self.signature_alg_id
//@end
}
//@use tls_sig_rsaalg.rs K=RSA_PSS A=Pss H=SHA256 HN=Sha256
//@use tls_sig_rsaalg.rs K=RSA_PSS A=Pss H=SHA384 HN=Sha384
//@use tls_sig_rsaalg.rs K=RSA_PSS A=Pss H=SHA512 HN=Sha512
//@use tls_sig_rsaalg.rs K=RSA_PKCS1 A=Pkcs1 H=SHA256 HN=Sha256
//@use tls_sig_rsaalg.rs K=RSA_PKCS1 A=Pkcs1 H=SHA384 HN=Sha384
//@use tls_sig_rsaalg.rs K=RSA_PKCS1 A=Pkcs1 H=SHA512 HN=Sha512
//@use tls_sig_ecv.rs C=P256 c=256
//@use tls_sig_ecv.rs C=P384 c=384
//@item rustls-graviola/src/verify.rs :: struct Ed25519Verify
impl Ed25519Verify {
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ed25519Verify :: verify_signature
//@ ret r
//@ sub eddsa::Ed25519VerifyingKey::from_bytes\(public_key\)\s*\.and_then\(\|public_key\| public_key\.verify\(signature, message\)\) => (match eddsa::Ed25519VerifyingKey::from_bytes(public_key) { Ok(public_key) => public_key.verify(signature, message), Err(e) => Err(e) })
//@ spec
    ensures r.is_ok() == (eddsa::ed_ok(public_key@) && sig_ok(Pub::Ed25519(public_key@), SigAlg::Ed25519, message@, signature@))
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ed25519Verify :: public_key_alg_id
//@ ret r
//@ spec
    ensures r == alg_id::ED25519
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ed25519Verify :: signature_alg_id
//@ ret r
//@ spec
    ensures r == alg_id::ED25519
//@end
}
//@use tls_sig_load.rs
}
fn main() {}
