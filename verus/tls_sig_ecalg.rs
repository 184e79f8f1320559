//@constfn rustls-graviola/src/verify.rs :: - :: static ECDSA_@C@_@H@
//@ sub sig &dyn SignatureVerificationAlgorithm => Ecdsa@C@Verify<impl Fn(&ecdsa::VerifyingKey<ecdsa::@C@>, &[u8], &[u8]) -> Result<(), GErr>>
//@ sub &Ecdsa@C@Verify => Ecdsa@C@Verify
//@ sub \|key, signature, message\|\s*key\.verify_asn1::<([\w:]*)>\(&\[message\], signature\) => |key: &ecdsa::VerifyingKey<ecdsa::@C@>, signature: &[u8], message: &[u8]| -> (v: Result<(), GErr>) ensures v.is_ok() == sig_ok(Pub::@C@(key.public_key.b), SigAlg::Ecdsa(HashId::@HN@), message@, signature@) { key.verify_asn1_1::<\1>(message, signature) }
//@ spec
    ensures r.computes(SigAlg::Ecdsa(HashId::@HN@)), r.signature_alg_id == alg_id::ECDSA_@H@
//@end
