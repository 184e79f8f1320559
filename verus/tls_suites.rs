// C23: each rustls cipher suite names the AEAD, key length, hash and signature family its registered name says (RFC 8446 B.4, RFC 5288, RFC 5289, RFC 7905)
use vstd::prelude::*;
verus! {
#[allow(non_camel_case_types)]
#[derive(PartialEq, Eq, Clone, Copy)] pub enum CipherSuite { TLS13_AES_128_GCM_SHA256, TLS13_AES_256_GCM_SHA384, TLS13_CHACHA20_POLY1305_SHA256, TLS13_AES_128_CCM_SHA256, TLS13_AES_128_CCM_8_SHA256,
    TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
    TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, Unknown(u16) }
#[allow(non_camel_case_types)]
#[derive(PartialEq, Eq, Clone, Copy)] pub enum SignatureScheme { RSA_PKCS1_SHA1, ECDSA_SHA1_Legacy, RSA_PKCS1_SHA256, ECDSA_NISTP256_SHA256, RSA_PKCS1_SHA384, ECDSA_NISTP384_SHA384, RSA_PKCS1_SHA512, ECDSA_NISTP521_SHA512,
    RSA_PSS_SHA256, RSA_PSS_SHA384, RSA_PSS_SHA512, ED25519, ED448, ML_DSA_44, ML_DSA_65, ML_DSA_87, Unknown(u16) }
// the provider's own types, by name
pub mod hash { use super::*; verus! { #[derive(Clone, Copy)] pub enum HashP { Sha256, Sha384 } pub use HashP::*; } }
pub mod hmac { use super::*; verus! { #[derive(Clone, Copy)] pub enum HmacP { Sha256Hmac, Sha384Hmac } pub use HmacP::*; } }
pub mod aead { use super::*; verus! { #[derive(Clone, Copy)] pub enum AeadP { TlsAesGcm(usize), Chacha20Poly1305 } pub use AeadP::*; } }
#[derive(Clone, Copy)] pub enum KeyExchangeAlgorithm { DHE, ECDHE }
pub mod rustls { pub mod crypto { pub use super::super::KeyExchangeAlgorithm; } }
#[derive(Clone, Copy)] pub struct HkdfUsingHmac(pub &'static hmac::HmacP);
#[derive(Clone, Copy)] pub struct PrfUsingHmac(pub &'static hmac::HmacP);
// the two scheme lists below, by name; their contents are the contracts of v_TLS12_*_SCHEMES
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)] pub enum SchemesP { TLS12_RSA_SCHEMES, TLS12_ECDSA_SCHEMES }
pub use SchemesP::*;
#[derive(Clone, Copy)] pub struct Quic;
#[derive(Clone, Copy)] pub struct CipherSuiteCommon { pub suite: CipherSuite, pub hash_provider: &'static hash::HashP, pub confidentiality_limit: u64 }
#[derive(Clone, Copy)] pub struct Tls13CipherSuite { pub common: CipherSuiteCommon, pub hkdf_provider: &'static HkdfUsingHmac, pub aead_alg: &'static aead::AeadP, pub quic: Option<Quic> }
#[derive(Clone, Copy)] pub struct Tls12CipherSuite { pub common: CipherSuiteCommon, pub kx: KeyExchangeAlgorithm, pub sign: SchemesP, pub aead_alg: &'static aead::AeadP, pub prf_provider: &'static PrfUsingHmac }
#[derive(Clone, Copy)] pub enum SupportedCipherSuite { Tls12(&'static Tls12CipherSuite), Tls13(&'static Tls13CipherSuite) }
pub enum Auth { Tls13, Rsa, Ecdsa }
// the registered meaning: (authentication, AEAD, hash)
pub open spec fn meaning(c: CipherSuite) -> Option<(Auth, aead::AeadP, hash::HashP)> { match c {
    CipherSuite::TLS13_AES_128_GCM_SHA256 => Some((Auth::Tls13, aead::TlsAesGcm(16), hash::Sha256)),
    CipherSuite::TLS13_AES_256_GCM_SHA384 => Some((Auth::Tls13, aead::TlsAesGcm(32), hash::Sha384)),
    CipherSuite::TLS13_CHACHA20_POLY1305_SHA256 => Some((Auth::Tls13, aead::Chacha20Poly1305, hash::Sha256)),
    CipherSuite::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 => Some((Auth::Rsa, aead::TlsAesGcm(16), hash::Sha256)),
    CipherSuite::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 => Some((Auth::Rsa, aead::TlsAesGcm(32), hash::Sha384)),
    CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 => Some((Auth::Rsa, aead::Chacha20Poly1305, hash::Sha256)),
    CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 => Some((Auth::Ecdsa, aead::TlsAesGcm(16), hash::Sha256)),
    CipherSuite::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 => Some((Auth::Ecdsa, aead::TlsAesGcm(32), hash::Sha384)),
    CipherSuite::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 => Some((Auth::Ecdsa, aead::Chacha20Poly1305, hash::Sha256)),
    _ => None } }
pub open spec fn is_rsa(s: SignatureScheme) -> bool { s == SignatureScheme::RSA_PKCS1_SHA256 || s == SignatureScheme::RSA_PKCS1_SHA384 || s == SignatureScheme::RSA_PKCS1_SHA512
    || s == SignatureScheme::RSA_PSS_SHA256 || s == SignatureScheme::RSA_PSS_SHA384 || s == SignatureScheme::RSA_PSS_SHA512 }
pub open spec fn is_ec(s: SignatureScheme) -> bool { s == SignatureScheme::ECDSA_NISTP256_SHA256 || s == SignatureScheme::ECDSA_NISTP384_SHA384 || s == SignatureScheme::ECDSA_NISTP521_SHA512 || s == SignatureScheme::ED25519 }
pub open spec fn mac_of(h: hash::HashP) -> hmac::HmacP { match h { hash::HashP::Sha256 => hmac::Sha256Hmac, hash::HashP::Sha384 => hmac::Sha384Hmac } }
// AES-GCM: at most 2^24.5 records under one key (RFC 8446 5.5)
pub open spec fn limit_ok(a: aead::AeadP, n: u64) -> bool { a is TlsAesGcm ==> n <= 23726566 }
impl SupportedCipherSuite {
    pub open spec fn id(self) -> CipherSuite { match self { SupportedCipherSuite::Tls12(t) => t.common.suite, SupportedCipherSuite::Tls13(t) => t.common.suite } }
    pub open spec fn ok(self) -> bool { match self {
        SupportedCipherSuite::Tls13(t) => (meaning(t.common.suite) matches Some(m) && m.0 is Tls13 && *t.aead_alg == m.1 && *t.common.hash_provider == m.2 && *t.hkdf_provider.0 == mac_of(m.2)) && limit_ok(*t.aead_alg, t.common.confidentiality_limit),
        SupportedCipherSuite::Tls12(t) => (meaning(t.common.suite) matches Some(m) && !(m.0 is Tls13) && *t.aead_alg == m.1 && *t.common.hash_provider == m.2 && *t.prf_provider.0 == mac_of(m.2) && (m.0 is Rsa <==> t.sign is TLS12_RSA_SCHEMES))
            && t.kx is ECDHE && limit_ok(*t.aead_alg, t.common.confidentiality_limit) } }
}
//@use tls_suite1.rs S=TLS13_AES_128_GCM_SHA256
//@use tls_suite1.rs S=TLS13_AES_256_GCM_SHA384
//@use tls_suite1.rs S=TLS13_CHACHA20_POLY1305_SHA256
//@constfn rustls-graviola/src/suites.rs :: - :: static TLS12_ECDSA_SCHEMES
//@ sub sig &\[SignatureScheme\] => &'static [SignatureScheme]
//@ spec
    ensures r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> is_ec(#[trigger] r@[i])
//@end
//@constfn rustls-graviola/src/suites.rs :: - :: static TLS12_RSA_SCHEMES
//@ sub sig &\[SignatureScheme\] => &'static [SignatureScheme]
//@ spec
    ensures r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> is_rsa(#[trigger] r@[i])
//@end
//@use tls_suite2.rs S=TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 G=RSA
//@use tls_suite2.rs S=TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 G=RSA
//@use tls_suite2.rs S=TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 G=RSA
//@use tls_suite2.rs S=TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 G=ECDSA
//@use tls_suite2.rs S=TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 G=ECDSA
//@use tls_suite2.rs S=TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 G=ECDSA
//@constfn rustls-graviola/src/suites.rs :: - :: static ALL_CIPHER_SUITES
//@ sub sig &\[SupportedCipherSuite\] => [SupportedCipherSuite; 9]
//@ sub &\[ => [
//@ sub \b(TLS\w+)\b => v_\1()
//@ spec
    ensures forall|i: int| 0 <= i < 9 ==> (#[trigger] r@[i]).ok(),
        forall|i: int, j: int| 0 <= i < j < 9 ==> r@[i].id() != r@[j].id()
//@end
}
fn main() {}
