//@constfn rustls-graviola/src/verify.rs :: - :: static @K@_@H@
//@ sub sig &dyn SignatureVerificationAlgorithm => RsaVerify<impl Fn(&rsa::VerifyingKey, &[u8], &[u8]) -> Result<(), GErr>>
//@ sub &RsaVerify => RsaVerify
//@ sub \|key, signature, message\|\s*(key\.\w+\([^()]*\)) => |key: &rsa::VerifyingKey, signature: &[u8], message: &[u8]| -> (v: Result<(), GErr>) ensures v.is_ok() == sig_ok(key.k, SigAlg::@A@(HashId::@HN@), message@, signature@) { \1 }
//@ spec
    ensures r.computes(SigAlg::@A@(HashId::@HN@)), r.signature_alg_id == alg_id::@K@_@H@
//@end
