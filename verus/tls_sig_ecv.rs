//@item rustls-graviola/src/verify.rs :: struct Ecdsa@C@Verify
//@ sub struct Ecdsa@C@Verify => struct Ecdsa@C@Verify<F>
//@ sub verify: fn\(.*?\) -> Result<\(\), graviola::Error> => verify: F
//@end
impl<F: Fn(&ecdsa::VerifyingKey<ecdsa::@C@>, &[u8], &[u8]) -> Result<(), GErr>> Ecdsa@C@Verify<F> {
    pub open spec fn computes(self, a: SigAlg) -> bool {
        &&& forall|k: &ecdsa::VerifyingKey<ecdsa::@C@>, s: &[u8], m: &[u8]| #[trigger] call_requires(self.verify, (k, s, m))
        &&& forall|k: &ecdsa::VerifyingKey<ecdsa::@C@>, s: &[u8], m: &[u8], r: Result<(), GErr>| #[trigger] call_ensures(self.verify, (k, s, m), r) ==> r.is_ok() == sig_ok(Pub::@C@(k.public_key.b), a, m@, s@)
    }
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ecdsa@C@Verify :: verify_signature
//@ ret r
//@ sub <ecdsa::@C@ as ecdsa::Curve>::PublicKey::from_x962_uncompressed\(public_key\)\s*\.and_then\(\|public_key\| \{\s*\(self\.verify\)\(&ecdsa::VerifyingKey \{ public_key \}, signature, message\)\s*\}\) => (match ecdsa::@C@PublicKey::from_x962_uncompressed(public_key) { Ok(public_key) => (self.verify)(&ecdsa::VerifyingKey { public_key }, signature, message), Err(e) => Err(e) })
//@ spec
    requires exists|a: SigAlg| self.computes(a)
    ensures forall|a: SigAlg| #![trigger self.computes(a)] self.computes(a) ==> r.is_ok() == (ecdsa::p@c@_ok(public_key@) && sig_ok(Pub::@C@(public_key@), a, message@, signature@))
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ecdsa@C@Verify :: public_key_alg_id
//@ ret r
//@ spec
    ensures r == alg_id::ECDSA_@C@
//@end
//@fn rustls-graviola/src/verify.rs :: impl SignatureVerificationAlgorithm for Ecdsa@C@Verify :: signature_alg_id
//@ ret r
//@ spec
    ensures r == self.signature_alg_id
//@end
}
//@use tls_sig_ecalg.rs C=@C@ H=SHA256 HN=Sha256
//@use tls_sig_ecalg.rs C=@C@ H=SHA384 HN=Sha384
//@use tls_sig_ecalg.rs C=@C@ H=SHA512 HN=Sha512
