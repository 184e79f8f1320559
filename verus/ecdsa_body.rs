verus! {
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
#[verifier::external_body] pub fn zeroise<const N: usize>(v: &mut [u8; N]) ensures forall|i: int| 0 <= i < N ==> #[trigger] final(v)@[i] == 0 { unimplemented!() }
//@item graviola/src/high/curve.rs :: const MAX_SCALAR_LEN
//@item graviola/src/high/curve.rs :: const MAX_UNCOMPRESSED_PUBLIC_KEY_LEN
use ec::{Curve, Scalar, PrivateKey, PublicKey};
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
// FIPS 186-5: the leftmost bits of the digest (curves whose order has a whole number of bytes), as an integer mod n
pub open spec fn e_of<S: Scalar>(h: Seq<u8>) -> int { be_val(h.take(min2(h.len() as int, S::sl() as int))) as int % S::n() }
pub open spec fn fixed_ok<S: Scalar>(q: Seq<u8>, h: Seq<u8>, r: int, s: int) -> bool { 0 < r < S::n() && 0 < s < S::n() && S::sig_ok(q, e_of::<S>(h), r, s) }
pub open spec fn verifies<S: Scalar>(q: Seq<u8>, h: Seq<u8>, sig: Seq<u8>) -> bool {
    sig.len() == 2 * S::sl() && fixed_ok::<S>(q, h, be_val(sig.take(S::sl() as int)) as int, be_val(sig.skip(S::sl() as int)) as int) }
// the DER of ECDSA-Sig-Value
pub open spec fn der_sig(r: Seq<u8>, s: Seq<u8>) -> Seq<u8> { der::tlv(0x30, der::tlv(2, r) + der::tlv(2, s)) }
pub open spec fn der_ints(r: Seq<u8>, s: Seq<u8>) -> bool { der::min_int(r) && der::min_int(s) && r[0] < 0x80 && s[0] < 0x80 }
pub open spec fn verifies_asn1<S: Scalar>(q: Seq<u8>, h: Seq<u8>, sig: Seq<u8>) -> bool {
    exists|r: Seq<u8>, s: Seq<u8>| sig == #[trigger] der_sig(r, s) && der_ints(r, s) && fixed_ok::<S>(q, h, be_val(r) as int, be_val(s) as int) }
pub proof fn lemma_be_strip(b: Seq<u8>) requires b.len() > 0, b[0] == 0 ensures be_val(b.skip(1)) == be_val(b)
{ lemma_be_append(b.take(1), b.skip(1)); assert(b =~= b.take(1) + b.skip(1)); assert(b.take(1).drop_last() =~= Seq::empty()); assert(be_val(b.take(1)) == 0) by { reveal_with_fuel(be_val, 2); } assert(0 * p256(b.skip(1).len()) == 0); }
pub proof fn lemma_zeros(n: nat) ensures be_val(Seq::new(n, |i: int| 0u8)) == 0 decreases n
{ let z = Seq::new(n, |i: int| 0u8); if n > 0 { lemma_zeros((n - 1) as nat); assert(z.drop_last() =~= Seq::new((n - 1) as nat, |i: int| 0u8)); } }
pub proof fn lemma_min_big(b: Seq<u8>, l: nat) requires der::min_int(b), b[0] < 0x80, b.len() > l + (if b[0] == 0 { 1int } else { 0 }), ensures be_val(b) >= p256(l)
{
    if b[0] == 0 { let c = b.skip(1); lemma_be_strip(b); lemma_top(c, l); } else { lemma_top(b, l); }
}
pub proof fn lemma_top(b: Seq<u8>, l: nat) requires b.len() > l, b[0] >= 1 ensures be_val(b) >= p256(l)
{ lemma_be_append(b.take(1), b.skip(1)); assert(b =~= b.take(1) + b.skip(1)); assert(b.take(1).drop_last() =~= Seq::empty()); assert(be_val(b.take(1)) == b[0]) by { reveal_with_fuel(be_val, 2); }
  lemma_p256_mono(l, b.skip(1).len()); assert(b[0] * p256(b.skip(1).len()) >= p256(b.skip(1).len())) by (nonlinear_arith) requires b[0] >= 1; }
pub proof fn lemma_der_sig(r: Seq<u8>, s: Seq<u8>) requires der_ints(r, s), r.len() < 0x1000, s.len() < 0x1000
    ensures <der::EcdsaSigValue<'_> as der::Type<'_>>::rest(der_sig(r, s), 0x30) == Some(Seq::<u8>::empty()),
        forall|r2: Seq<u8>, s2: Seq<u8>| r2.len() < 0x1000 && s2.len() < 0x1000 && #[trigger] der_sig(r2, s2) == der_sig(r, s) ==> r2 == r && s2 == s
{
    let b = der::tlv(2, r) + der::tlv(2, s); let e = Seq::<u8>::empty();
    der::lemma_tlv_hdr(2, r, der::tlv(2, s)); der::lemma_tlv_hdr(2, s, e); assert(der::tlv(2, s) + e =~= der::tlv(2, s)); der::lemma_tlv_hdr(0x30, b, e); assert(der::tlv(0x30, b) + e =~= der::tlv(0x30, b));
    assert forall|r2: Seq<u8>, s2: Seq<u8>| r2.len() < 0x1000 && s2.len() < 0x1000 && #[trigger] der_sig(r2, s2) == der_sig(r, s) implies r2 == r && s2 == s by {
        let b2 = der::tlv(2, r2) + der::tlv(2, s2);
        der::lemma_tlv_hdr(0x30, b2, e); assert(der::tlv(0x30, b2) + e =~= der::tlv(0x30, b2)); assert(b == b2);
        der::lemma_tlv_hdr(2, r2, der::tlv(2, s2)); assert(r == r2); der::lemma_tlv_hdr(2, s2, e); assert(der::tlv(2, s2) + e =~= der::tlv(2, s2)); assert(der::tlv(2, s) == der::tlv(2, s2)); }
}
pub proof fn lemma_short(b: Seq<u8>, l: nat) requires der::min_int(b), b[0] < 0x80, be_val(b) < p256(l) ensures b.len() <= l + 1, b[0] != 0 ==> b.len() <= l { if b.len() > l + (if b[0] == 0 { 1int } else { 0 }) { lemma_min_big(b, l); } }

//@item graviola/src/high/ecdsa.rs :: struct VerifyingKey
impl<C: Curve> VerifyingKey<C> {
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> VerifyingKey<C> :: from_x962_uncompressed
//@ ret r
//@ spec
    ensures r.is_ok() == C::Scalar::is_pub(encoded@), r.is_ok() ==> r.unwrap().public_key.okq() && r.unwrap().public_key.encq() == encoded@
//@ sub \.map\(\|public_key\| Self \{ public_key \}\) => .map(|public_key: C::PublicKey| -> (z: Self) ensures z.public_key == public_key { Self { public_key } })
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> VerifyingKey<C> :: verify
//@ ret ok
//@ spec
    requires self.public_key.okq(), concat(message@).len() < 0x1000_0000_0000_0000
    ensures ok.is_ok() == verifies::<C::Scalar>(self.public_key.encq(), H::spec_hash(concat(message@)), signature@)
//@ sub C::Scalar::LEN_BYTES => C::Scalar::v_len()
//@ sub for m in message \{ => for m in message.iter() {
//@ begin
    proof { <C::Scalar as Scalar>::lemma_curve(); H::lemma_sizes(concat(message@)); assert(concat(message@.take(0)) =~= Seq::<u8>::empty()); let l = C::Scalar::sl() as int; if signature@.len() == 2 * l { assert(signature@.subrange(0, l) =~= signature@.take(l)); assert(signature@.subrange(l, 2 * l) =~= signature@.skip(l)); } }
//@ loop 1
    invariant vn1 == message@.len(), concat(message@).len() < 0x1000_0000_0000_0000, ctx.models(concat(message@.take(vi1 as int)))
//@ lbegin 1
    proof { lemma_concat_take(message@, vi1 as int); lemma_concat_len(message@, vi1 + 1); }
//@ before let hash
    proof { assert(message@.take(message@.len() as int) =~= message@); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> VerifyingKey<C> :: verify_asn1
//@ ret ok
//@ spec
    requires self.public_key.okq(), concat(message@).len() < 0x1000_0000_0000_0000
    ensures ok.is_ok() == verifies_asn1::<C::Scalar>(self.public_key.encq(), H::spec_hash(concat(message@)), signature@)
//@ sub C::Scalar::LEN_BYTES => C::Scalar::v_len()
//@ sub let fixed = &mut \[0u8; MAX_SCALAR_LEN \* 2\]\[\.\.(.*?)\]; => let mut vfixed = [0u8; MAX_SCALAR_LEN * 2]; let fixed = &mut vfixed[..\1];
//@ begin
    let ghost l = C::Scalar::sl(); let ghost h = H::spec_hash(concat(message@)); let ghost q = self.public_key.encq(); 
    proof { <C::Scalar as Scalar>::lemma_curve();
        assert forall|r: Seq<u8>, s: Seq<u8>| signature@ == #[trigger] der_sig(r, s) && der_ints(r, s) && be_val(r) < p256(l) && be_val(s) < p256(l) implies
            <der::EcdsaSigValue<'_> as der::Type<'_>>::rest(signature@, 0x30) == Some(Seq::<u8>::empty()) && r.len() <= l + 1 && s.len() <= l + 1 by { lemma_short(r, l); lemma_short(s, l); lemma_der_sig(r, s); } }
//@ before if sig\.r
    let ghost rb = sig.r.b(); let ghost sb = sig.s.b();
    proof { assert(signature@ == der_sig(rb, sb));
        assert forall|r: Seq<u8>, s: Seq<u8>| signature@ == #[trigger] der_sig(r, s) && der_ints(r, s) && be_val(r) < p256(l) && be_val(s) < p256(l) implies r == rb && s == sb by { 
            lemma_short(r, l); lemma_short(s, l); lemma_der_sig(r, s); lemma_sig_len(rb, sb); lemma_sig_len(r, s); } }
//@ before write_fixed\(&mut fixed\[\.\.
    proof { lemma_min_fits(rb, l); lemma_min_fits(sb, l); }
//@ tail
    proof { let f = fixed@; assert(f.take(l as int) =~= f.subrange(0, l as int)); assert(f.skip(l as int) =~= f.subrange(l as int, 2 * l as int));
        if fixed_ok::<C::Scalar>(q, h, be_val(rb) as int, be_val(sb) as int) { assert(signature@ == der_sig(rb, sb) && der_ints(rb, sb)); } }
//@end
}
pub proof fn lemma_sig_len(r: Seq<u8>, s: Seq<u8>) ensures r.len() + s.len() <= der_sig(r, s).len(), r.len() <= 100 && s.len() <= 100 ==> der_sig(r, s).len() < 0x400 {}
pub proof fn lemma_min_fits(b: Seq<u8>, l: nat) requires der::min_int(b), b[0] < 0x80 ensures (b.len() <= l + (if b[0] == 0 { 1int } else { 0 })) == (be_val(b) < p256(l))
{ if b.len() > l + (if b[0] == 0 { 1int } else { 0 }) { lemma_min_big(b, l); } else { if b[0] == 0 { lemma_be_strip(b); lemma_be_bound(b.skip(1)); lemma_p256_mono(b.skip(1).len(), l); } else { lemma_be_bound(b); lemma_p256_mono(b.len(), l); } } }
//@fn graviola/src/high/ecdsa.rs :: - :: hash_to_scalar
//@ ret r
//@ spec
    ensures r.is_ok(), r.unwrap().okv(), r.unwrap().val() == e_of::<C::Scalar>(hash@)
//@ sub C::Scalar::LEN_BYTES => C::Scalar::v_len()
//@ begin
    let ghost h0 = hash@; proof { assert(h0.take(h0.len() as int) =~= h0); assert(C::Scalar::sl() <= h0.len() ==> h0.subrange(0, C::Scalar::sl() as int) =~= h0.take(C::Scalar::sl() as int)); }
//@end
//@fn graviola/src/high/ecdsa.rs :: - :: write_fixed
//@ ret r
//@ spec
    requires old(out)@.len() <= 0x1000
    ensures final(out)@.len() == old(out)@.len(), r.is_ok() == (value0@.len() <= old(out)@.len() + (if value0@.len() > 0 && value0@[0] == 0 { 1int } else { 0 })), r.is_ok() ==> be_val(final(out)@) == be_val(value0@)
//@ sub sig mut value: => value0:
//@ sub out\.split_at_mut\((.*?)\); => v_split_at_mut(out, \1);
//@ begin
    let mut value = value0; let ghost n = out@.len() as int;
    proof { if value@.len() > 0 && value@[0] == 0 { lemma_be_strip(value@); assert(value@.subrange(1, value@.len() as int) =~= value@.skip(1)); } }
//@ tail
    proof { let z = Seq::new((n - value@.len()) as nat, |i: int| 0u8); assert(out@ =~= z + value@); lemma_be_append(z, value@); lemma_zeros(z.len()); assert(0 * p256(value@.len()) == 0); }
//@end

// ---- signing
pub open spec fn nonces<R: RandomSource, S: Scalar>(a: R, ks: Seq<int>, gs: Seq<R>) -> bool {
    &&& ks.len() > 0 && gs.len() == ks.len() + 1 && gs[0] == a && S::gx(ks.last()) != 0
    &&& forall|i: int| 0 <= i < ks.len() ==> ec::drew(gs[i], gs[i + 1], #[trigger] ks[i], S::n(), S::sl()) && 0 < ks[i] < S::n() && (i < ks.len() - 1 ==> S::gx(ks[i]) == 0)
}
// RFC 6979 3.2 with the additional input of 3.6: k is the first candidate of HMAC_DRBG(seed) in [1, n-1] with r != 0
pub open spec fn rfc6979<H: Hash, S: Scalar>(seed: Seq<u8>, k: int) -> bool {
    exists|g: HmacDrbg<H>, ks: Seq<int>, gs: Seq<HmacDrbg<H>>| g.wf() && g.kv() == drbg_init::<H>(seed) && #[trigger] nonces::<HmacDrbg<H>, S>(g, ks, gs) && ks.last() == k }
pub open spec fn seed_of<S: Scalar>(d: int, h: Seq<u8>, random: Seq<u8>) -> Seq<u8> { be(d as nat, S::sl()) + be(e_of::<S>(h) as nat, S::sl()) + random }
pub open spec fn signed_k<S: Scalar>(d: int, h: Seq<u8>, k: int, sig: Seq<u8>) -> bool {
    sig.len() == 2 * S::sl() && be_val(sig.take(S::sl() as int)) == S::gx(k) && be_val(sig.skip(S::sl() as int)) == S::ssig(d, k, e_of::<S>(h), S::gx(k)) }
pub open spec fn signed<H: Hash, S: Scalar>(d: int, h: Seq<u8>, random: Seq<u8>, sig: Seq<u8>) -> bool {
    exists|k: int| 0 < k < S::n() && S::gx(k) != 0 && #[trigger] rfc6979::<H, S>(seed_of::<S>(d, h, random), k) && signed_k::<S>(d, h, k, sig) }
// the signature is one that `verify` accepts under the matching public key (unless s is 0, which no one can make happen and the code does not test)
pub proof fn lemma_signed<H: Hash, S: Scalar>(d: int, h: Seq<u8>, random: Seq<u8>, sig: Seq<u8>)
    requires 0 < d < S::n(), signed::<H, S>(d, h, random, sig), be_val(sig.skip(S::sl() as int)) != 0 ensures verifies::<S>(S::enc_pub(d), h, sig)
{ let k = choose|k: int| 0 < k < S::n() && S::gx(k) != 0 && #[trigger] rfc6979::<H, S>(seed_of::<S>(d, h, random), k) && signed_k::<S>(d, h, k, sig); S::lemma_sign(d, k, e_of::<S>(h)); }
pub proof fn lemma_be_is(b: Seq<u8>, x: int) requires be_val(b) == x ensures b == be(x as nat, b.len())
{ lemma_be_bound(b); lemma_be_of(x as nat, b.len()); lemma_small_mod(x as nat, p256(b.len())); lemma_be_inj(b, be(x as nat, b.len())); }
//@item graviola/src/high/ecdsa.rs :: struct SigningKey
impl<C: Curve> SigningKey<C> {
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: generate
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().private_key.okd()
//@ begin
    let mut vrng = SystemRandom;
//@ sub &mut SystemRandom => &mut vrng
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: rfc6979_sign_with_random
//@ ret ok
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires self.private_key.okd(), concat(message@).len() < 0x1000_0000_0000_0000, random@.len() < 0x100_0000
    ensures old(signature)@.len() < 2 * C::Scalar::sl() ==> ok.is_err(), ok.is_ok() ==> signed::<H, C::Scalar>(self.private_key.dv(), H::spec_hash(concat(message@)), random@, ok.unwrap()@)
//@ sub C::Scalar::LEN_BYTES => C::Scalar::v_len()
//@ sub signature\s*\.get_mut\(\.\.(.*?)\)\s*\.ok_or\(Error::WrongLength\)\? => match v_get_mut_to(signature, \1) { Some(x) => x, None => return Err(Error::WrongLength) }
//@ sub for m in message \{ => for m in message.iter() {
//@ sub let \(k, r\) = loop \{(.*?)break \(k, x\);(.*?)\};\s*let s => let mut vkr: Option<(C::PrivateKey, C::Scalar)> = None; loop {\1vkr = Some((k, x)); break;\2} let (k, r) = vkr.unwrap(); let s
//@ sub HmacDrbg::<H>::new\(\s*encoded_private_key, => HmacDrbg::<H>::new(encoded_private_key,
//@ begin
    let ghost l = C::Scalar::sl() as int; let ghost h = H::spec_hash(concat(message@)); let ghost d = self.private_key.dv();
    proof { <C::Scalar as Scalar>::lemma_curve(); H::lemma_sizes(concat(message@)); assert(concat(message@.take(0)) =~= Seq::<u8>::empty()); }
//@ loop 1
    invariant vn1 == message@.len(), concat(message@).len() < 0x1000_0000_0000_0000, ctx.models(concat(message@.take(vi1 as int)))
//@ lbegin 1
    proof { lemma_concat_take(message@, vi1 as int); lemma_concat_len(message@, vi1 + 1); }
//@ before let hash
    proof { assert(message@.take(message@.len() as int) =~= message@); }
//@ before let mut rng
    let ghost seed = seed_of::<C::Scalar>(d, h, random@);
    proof { let eb = e_bytes@.subrange(0, l); assert(e_bytes@.take(l) =~= eb); lemma_be_is(encoded_private_key@, d); lemma_be_is(eb, e_of::<C::Scalar>(h)); }
//@ before zeroise
    let ghost g0 = rng; let ghost mut ks: Seq<int> = Seq::empty(); let ghost mut gs: Seq<HmacDrbg<H>> = seq![rng];
    proof { assert(g0.kv() == drbg_init::<H>(seed)); }
//@ loop 2
    invariant rng.wf(), gs.len() == ks.len() + 1, gs[0] == g0, gs.last() == rng, vkr.is_none(),
        forall|i: int| 0 <= i < ks.len() ==> ec::drew(gs[i], gs[i + 1], #[trigger] ks[i], C::Scalar::n(), C::Scalar::sl()) && 0 < ks[i] < C::Scalar::n() && C::Scalar::gx(ks[i]) == 0
    ensures vkr.is_some(), vkr.unwrap().0.okd(), vkr.unwrap().1.okv(), vkr.unwrap().1.val() == C::Scalar::gx(vkr.unwrap().0.dv()), 0 < vkr.unwrap().0.dv() < C::Scalar::n(), C::Scalar::gx(vkr.unwrap().0.dv()) != 0,
        rfc6979::<H, C::Scalar>(seed, vkr.unwrap().0.dv())
//@ after let x = 
    proof { let kv = k.dv(); let ks1 = ks.push(kv); let gs1 = gs.push(rng);
        assert forall|i: int| 0 <= i < ks1.len() implies ec::drew(gs1[i], gs1[i + 1], #[trigger] ks1[i], C::Scalar::n(), C::Scalar::sl()) && 0 < ks1[i] < C::Scalar::n() by { if i < ks.len() { assert(ks1[i] == ks[i]); } }
        if C::Scalar::gx(kv) != 0 { assert(ks1.last() == kv); assert(nonces::<HmacDrbg<H>, C::Scalar>(g0, ks1, gs1)); }
        ks = ks1; gs = gs1; }
//@ tail
    proof { let o = output@; assert(o.subrange(0, 2 * l) =~= o); assert(o.take(l) =~= o.subrange(0, l)); assert(o.skip(l) =~= o.subrange(l, 2 * l)); assert(signed_k::<C::Scalar>(d, h, k.dv(), o)); assert(rfc6979::<H, C::Scalar>(seed, k.dv())); assert(signed::<H, C::Scalar>(d, h, random@, o)); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: sign
//@ ret ok
//@ spec
    requires self.private_key.okd(), concat(message@).len() < 0x1000_0000_0000_0000
    ensures old(signature)@.len() < 2 * C::Scalar::sl() ==> ok.is_err(), ok.is_ok() ==> exists|random: Seq<u8>| #[trigger] os_random(random) && random.len() == 16 && signed::<H, C::Scalar>(self.private_key.dv(), H::spec_hash(concat(message@)), random, ok.unwrap()@)
//@ begin
    let mut vrng = SystemRandom;
//@ sub SystemRandom\.fill => vrng.fill
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: fixed_to_asn1
//@ ret ok
//@ spec
    requires fixed_signature@.len() == 2 * C::Scalar::sl()
    ensures ok.is_ok() ==> exists|r: Seq<u8>, s: Seq<u8>| ok.unwrap()@ == #[trigger] der_sig(r, s) && der_ints(r, s) && be_val(r) == be_val(fixed_signature@.take(C::Scalar::sl() as int)) && be_val(s) == be_val(fixed_signature@.skip(C::Scalar::sl() as int)),
        old(asn1_signature)@.len() >= 2 * C::Scalar::sl() + 9 ==> ok.is_ok()
//@ sub C::Scalar::LEN_BYTES => C::Scalar::v_len()
//@ sub let sig_len = sig\s*\.encode\(&mut asn1::Encoder::new\(asn1_signature\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = asn1_signature.len(); let mut ve = asn1::Encoder::new(asn1_signature); let sig_len = match sig.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ begin
    let ghost l = C::Scalar::sl() as int; let ghost f = fixed_signature@; 
    proof { <C::Scalar as Scalar>::lemma_curve(); assert(f.subrange(0, l) =~= f.take(l)); assert(f.subrange(l, 2 * l) =~= f.skip(l)); }
//@ before let vl0
    let ghost rb = sig.r.b(); let ghost sb = sig.s.b();
    proof { lemma_sig_len(rb, sb); assert(sig.enc(0x30) == der_sig(rb, sb)); }
//@ tail
    proof { assert(asn1_signature@.subrange(0, sig_len as int) =~= der_sig(rb, sb)); }
//@end
//@fn graviola/src/high/ecdsa.rs :: impl<C: Curve> SigningKey<C> :: sign_asn1
//@ ret ok
//@ spec
    requires self.private_key.okd(), concat(message@).len() < 0x1000_0000_0000_0000
    ensures ok.is_ok() ==> exists|random: Seq<u8>, fixed: Seq<u8>, r: Seq<u8>, s: Seq<u8>| #[trigger] os_random(random) && random.len() == 16 && #[trigger] signed::<H, C::Scalar>(self.private_key.dv(), H::spec_hash(concat(message@)), random, fixed)
        && ok.unwrap()@ == #[trigger] der_sig(r, s) && der_ints(r, s) && be_val(r) == be_val(fixed.take(C::Scalar::sl() as int)) && be_val(s) == be_val(fixed.skip(C::Scalar::sl() as int))
//@ begin
    proof { <C::Scalar as Scalar>::lemma_curve(); }
//@end
}
}
