// C16 C17: what the public RSA signature functions decide, from the bytes of the signature to the verdict
verus! {
#[verifier::external_body] pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub fn v_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{ if a.len() != b.len() { return false; } for i in 0..a.len() invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] { if a[i] != b[i] { return false; } } assert(a@ =~= b@); true }
// RFC 8017 9.2 note 1: DER of DigestInfo up to the hash value
pub open spec fn di_of(o: u8, t: u8) -> Seq<u8> { seq![0x30, (17 + o) as u8, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, t, 0x05, 0x00, 0x04, o] }
//@item graviola/src/high/pkcs1.rs :: static DIGESTINFO_SHA256
//@ sub static DIGESTINFO_SHA256: &\[u8\] = &\[ => exec const DIGESTINFO_SHA256: &'static [u8] ensures DIGESTINFO_SHA256@ == di_of(0x20, 1) { let r: &'static [u8] = &[
//@ sub \]; => ]; assert(r@ =~= di_of(0x20, 1)); r }
//@end
//@item graviola/src/high/pkcs1.rs :: static DIGESTINFO_SHA384
//@ sub static DIGESTINFO_SHA384: &\[u8\] = &\[ => exec const DIGESTINFO_SHA384: &'static [u8] ensures DIGESTINFO_SHA384@ == di_of(0x30, 2) { let r: &'static [u8] = &[
//@ sub \]; => ]; assert(r@ =~= di_of(0x30, 2)); r }
//@end
//@item graviola/src/high/pkcs1.rs :: static DIGESTINFO_SHA512
//@ sub static DIGESTINFO_SHA512: &\[u8\] = &\[ => exec const DIGESTINFO_SHA512: &'static [u8] ensures DIGESTINFO_SHA512@ == di_of(0x40, 3) { let r: &'static [u8] = &[
//@ sub \]; => ]; assert(r@ =~= di_of(0x40, 3)); r }
//@end
// RSASSA-PKCS1-V1_5-VERIFY (8.2.2) by comparison of encodings
pub open spec fn pkcs1_ok(n: nat, e: nat, sig: Seq<u8>, di: Seq<u8>, h: Seq<u8>) -> bool {
    is_blen(n, sig.len()) && be_val(sig) < n && npow(be_val(sig) as int, e) % (n as int) == be_val(pkcs1_em(di, h, sig.len()))
}
// RSASSA-PSS-VERIFY (8.1.2), salt as long as the hash, modulus bit length a multiple of 8
pub open spec fn pss_ok<H: Hash>(n: nat, e: nat, sig: Seq<u8>, mh: Seq<u8>) -> bool {
    is_blen(n, sig.len()) && be_val(sig) < n && exists|salt: Seq<u8>| salt.len() == H::spec_out_len() && npow(be_val(sig) as int, e) % (n as int) == be_val(#[trigger] pss_em::<H>(mh, salt, sig.len()))
}
pub proof fn lemma_pss_len<H: Hash>(mh: Seq<u8>, salt: Seq<u8>, n: nat) requires mh.len() == H::spec_out_len(), salt.len() == H::spec_out_len(), n >= 2 * H::spec_out_len() + 2 ensures pss_em::<H>(mh, salt, n).len() == n
{ H::lemma_sizes(pss_m(mh, salt)); }
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
pub struct SystemRandom;
impl RandomSource for SystemRandom { #[verifier::external_body] fn fill(&mut self, out: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() } }
//@item graviola/src/high/rsa.rs :: struct VerifyingKey
impl VerifyingKey {
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: _verify_pkcs1
//@ ret r
//@ spec
    requires self.0.wf(), digest_info@.len() + hash@.len() <= 200
    ensures r.is_ok() == pkcs1_ok(self.0.n.v(), self.0.e as nat, signature@, digest_info@, hash@)
//@ sub match actual_m == m_bytes => match v_slice_eq(actual_m, m_bytes)
//@ begin
    proof { if signature@.len() > 0 && is_blen(self.0.n.v(), signature@.len()) { assert forall|k: nat| is_blen(self.0.n.v(), k) implies k == signature@.len() by { lemma_blen(self.0.n.v(), k, signature@.len()); } } }
//@ before let c =
    proof { lemma_lz(signature@); assert(is_blen(self.0.n.v(), signature@.len())); }
//@ before let mut m_bytes
    let ghost n = self.0.n.v(); let ghost k = signature@.len() as nat;
    proof { assert forall|j: nat| is_blen(n, j) implies j == k by { lemma_blen(n, j, k); } lemma_p256_pow2(k); }
//@ tail
    proof { let em = pkcs1_em(digest_info@, hash@, k); assert(em.len() == k); if be_val(em) == m.v() { lemma_be_inj(em, m_bytes@); } }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pkcs1_sha256
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pkcs1_ok(self.0.n.v(), self.0.e as nat, signature@, di_of(32, 1), sha256(message@))
//@ begin
    proof { hash::Sha256::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pss_sha256
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pss_ok::<Sha256>(self.0.n.v(), self.0.e as nat, signature@, sha256(message@))
//@ begin
    proof { hash::Sha256::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pkcs1_sha384
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pkcs1_ok(self.0.n.v(), self.0.e as nat, signature@, di_of(48, 2), sha384(message@))
//@ begin
    proof { hash::Sha384::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pss_sha384
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pss_ok::<Sha384>(self.0.n.v(), self.0.e as nat, signature@, sha384(message@))
//@ begin
    proof { hash::Sha384::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pkcs1_sha512
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pkcs1_ok(self.0.n.v(), self.0.e as nat, signature@, di_of(64, 3), sha512(message@))
//@ begin
    proof { hash::Sha512::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: verify_pss_sha512
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pss_ok::<Sha512>(self.0.n.v(), self.0.e as nat, signature@, sha512(message@))
//@ begin
    proof { hash::Sha512::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: _verify_pss
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() == pss_ok::<H>(self.0.n.v(), self.0.e as nat, signature@, H::spec_hash(message@))
//@ begin
    let ghost mh = H::spec_hash(message@);
    proof { H::lemma_sizes(message@); if signature@.len() > 0 && is_blen(self.0.n.v(), signature@.len()) { assert forall|k: nat| is_blen(self.0.n.v(), k) implies k == signature@.len() by { lemma_blen(self.0.n.v(), k, signature@.len()); } } }
//@ before let c =
    proof { lemma_lz(signature@); assert(is_blen(self.0.n.v(), signature@.len())); }
//@ before let mut m_bytes
    let ghost n = self.0.n.v(); let ghost k = signature@.len() as nat;
    proof { assert forall|j: nat| is_blen(n, j) implies j == k by { lemma_blen(n, j, k); } lemma_p256_pow2(k); }
//@ tail
    proof {
        assert(be_val(m_bytes@) == m.v());
        assert forall|salt: Seq<u8>| salt.len() == H::spec_out_len() implies (m_bytes@ == #[trigger] pss_em::<H>(mh, salt, k)) == (m.v() == be_val(pss_em::<H>(mh, salt, k))) by {
            let em = pss_em::<H>(mh, salt, k); lemma_pss_len::<H>(mh, salt, k); if be_val(em) == m.v() { lemma_be_inj(em, m_bytes@); } }
    }
//@end
}
//@item graviola/src/high/rsa.rs :: struct SigningKey
impl SigningKey {
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: modulus_len_bytes
//@ ret r
//@ spec
    requires self.0.wf()
    ensures is_blen(self.0.public.n.v(), r as nat)
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: public_key
//@ ret r
//@ spec
    requires self.0.wf()
    ensures r.0 == self.0.public, r.0.wf()
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: _sign_pkcs1
//@ ret r
//@ spec
    requires self.0.wf(), digest_info@.len() + hash@.len() <= 200
    ensures r.is_ok() ==> pkcs1_ok(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, digest_info@, hash@),
        self.0.consistent() && (exists|k: nat| #[trigger] is_blen(self.0.public.n.v(), k) && k <= old(signature)@.len()) ==> r.is_ok()
//@ begin
    let ghost n = self.0.public.n.v();
    proof { assert forall|i: nat, j: nat| is_blen(n, i) && is_blen(n, j) implies i == j by { lemma_blen(n, i, j); } }
//@ after pkcs1::encode_pkcs1_sig
    let ghost em = m@; let ghost k = m@.len() as nat;
    proof { assert(is_blen(n, k)); lemma_lz(em); lemma_em_small(em, n, k, 0); lemma_p256_pow2(k); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: _sign_pss
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pss_ok::<H>(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, H::spec_hash(message@))
//@ sub encode_pss_sig::<H> => encode_pss_sig::<H, SystemRandom>
//@ begin
    let ghost n = self.0.public.n.v();
    proof { H::lemma_sizes(message@); assert forall|i: nat, j: nat| is_blen(n, i) && is_blen(n, j) implies i == j by { lemma_blen(n, i, j); } }
//@ after pkcs1::encode_pss_sig
    let ghost em = m@; let ghost k = m@.len() as nat;
    proof { assert(is_blen(n, k)); lemma_lz(em); lemma_p256_pow2(k); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pkcs1_sha256
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pkcs1_ok(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, di_of(32, 1), sha256(message@)),
        self.0.consistent() && (exists|k: nat| #[trigger] is_blen(self.0.public.n.v(), k) && k <= old(signature)@.len()) ==> r.is_ok()
//@ begin
    proof { hash::Sha256::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pss_sha256
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pss_ok::<Sha256>(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, sha256(message@))
//@ begin
    proof { hash::Sha256::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pkcs1_sha384
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pkcs1_ok(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, di_of(48, 2), sha384(message@)),
        self.0.consistent() && (exists|k: nat| #[trigger] is_blen(self.0.public.n.v(), k) && k <= old(signature)@.len()) ==> r.is_ok()
//@ begin
    proof { hash::Sha384::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pss_sha384
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pss_ok::<Sha384>(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, sha384(message@))
//@ begin
    proof { hash::Sha384::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pkcs1_sha512
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pkcs1_ok(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, di_of(64, 3), sha512(message@)),
        self.0.consistent() && (exists|k: nat| #[trigger] is_blen(self.0.public.n.v(), k) && k <= old(signature)@.len()) ==> r.is_ok()
//@ begin
    proof { hash::Sha512::lemma_sizes(message@); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: sign_pss_sha512
//@ ret r
//@ spec
    requires self.0.wf(), message@.len() < 0x1000_0000_0000_0000
    ensures r.is_ok() ==> pss_ok::<Sha512>(self.0.public.n.v(), self.0.public.e as nat, r.unwrap()@, sha512(message@))
//@ begin
    proof { hash::Sha512::lemma_sizes(message@); }
//@end
}
pub proof fn lemma_em_small(em: Seq<u8>, n: nat, k: nat, z: u8) requires em.len() == k, k > 0, em[0] == 0, is_blen(n, k) ensures be_val(em) < n
{ lemma_be_trim(em, 1); lemma_be_bound(em.skip(1)); lemma_p256_pow2((k - 1) as nat); }
}
