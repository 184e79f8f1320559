// C08 C09 C26: RSA private keys as PKCS#1 RSAPrivateKey (RFC 8017 A.1.2) and PKCS#8, over the contracts of the DER codec (unit asn1), the big integers (posint_b) and the RSA private key (rsa)
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
pub mod der { use super::*;
//@stub asn1_body.rs
//@stub asn1_types.rs
//@stub asn1_pkix.rs
//@stub asn1_oid.rs
//@stub asn1_oids.rs
//@stub pkcs8_body.rs
}
pub mod asn1 { pub use super::der::*; pub mod pkix { pub use super::super::der::*; } }
pub mod pkcs8 { pub use super::der::p8::Key; }
//@stub rsa_der_body.rs
verus! {
//@use p8_inj.rs NOLEN=1
#[verifier::external_body] pub fn zeroise(b: &mut [u8]) ensures final(b)@.len() == old(b)@.len() { unimplemented!() }
pub mod ct { use super::*; verus! { #[verifier::external_body] pub fn public_slice(b: &[u8]) {} } }
pub mod low { pub use super::ct; }
pub struct Vals { pub n: nat, pub e: nat, pub d: nat, pub p: nat, pub q: nat, pub dp: nat, pub dq: nat, pub i: nat }
pub struct Octs { pub n: Seq<u8>, pub e: Seq<u8>, pub d: Seq<u8>, pub p: Seq<u8>, pub q: Seq<u8>, pub dp: Seq<u8>, pub dq: Seq<u8>, pub i: Seq<u8> }
// p and q odd, of the same word width, of 1017 to 4096 bits, dp and dq not zero, and an acceptable public key (contract of RsaPrivateKey::new, unit rsa)
pub uninterp spec fn new_ok(v: Vals) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_new_ok(v: Vals) ensures #[trigger] new_ok(v) ==> key_ok(v.n, v.e) && v.e <= 0xffff_ffff && v.n < lim(128) && v.d < lim(128) && v.p < lim(64) && v.q < lim(64) && v.dp < lim(64) && v.dq < lim(64) && v.i < lim(64) {}
impl Octs {
    pub open spec fn of(self, v: Vals) -> bool { der_uint(v.n, self.n) && der_uint(v.e, self.e) && der_uint(v.d, self.d) && der_uint(v.p, self.p) && der_uint(v.q, self.q) && der_uint(v.dp, self.dp) && der_uint(v.dq, self.dq) && der_uint(v.i, self.i) }
    pub open spec fn mins(self) -> bool { der::min_int(self.n) && der::min_int(self.e) && der::min_int(self.d) && der::min_int(self.p) && der::min_int(self.q) && der::min_int(self.dp) && der::min_int(self.dq) && der::min_int(self.i) }
    // two-prime version: 0
    pub open spec fn body(self) -> Seq<u8> { der::tlv(2, seq![0u8]) + (der::tlv(2, self.n) + (der::tlv(2, self.e) + (der::tlv(2, self.d) + (der::tlv(2, self.p) + (der::tlv(2, self.q) + (der::tlv(2, self.dp) + (der::tlv(2, self.dq) + (der::tlv(2, self.i))))))))) }
    pub open spec fn bytes(self) -> Seq<u8> { der::tlv(0x30, self.body()) }
}
#[verifier::opaque] pub open spec fn priv_der(v: Vals, s: Seq<u8>) -> bool { exists|o: Octs| o.of(v) && s == #[trigger] o.bytes() }
// a number has one encoding
pub proof fn lemma_uint_one(v: nat, b: Seq<u8>, c: Seq<u8>) requires der_uint(v, b), der_uint(v, c) ensures b == c
{
    let (x, y) = (strip(b), strip(c)); lemma_strip(b); lemma_strip(c);
    if x.len() < y.len() { lemma_be_bound(x); lemma_lead(y); lemma_p256_mono(x.len(), (y.len() - 1) as nat); }
    if y.len() < x.len() { lemma_be_bound(y); lemma_lead(x); lemma_p256_mono(y.len(), (x.len() - 1) as nat); }
    lemma_be_inj(x, y);
}
pub open spec fn strip(b: Seq<u8>) -> Seq<u8> { if b[0] == 0 { b.skip(1) } else { b } }
pub proof fn lemma_strip(b: Seq<u8>) requires der::min_int(b), b[0] < 0x80
    ensures be_val(strip(b)) == be_val(b), strip(b).len() > 0 ==> strip(b)[0] != 0, b == (if strip(b).len() == 0 || strip(b)[0] >= 0x80 { seq![0u8] + strip(b) } else { strip(b) })
{ if b[0] == 0 { lemma_be_trim(b, 1); assert(b =~= seq![0u8] + b.skip(1)); } }
pub proof fn lemma_lead(s: Seq<u8>) requires s.len() > 0, s[0] != 0 ensures be_val(s) >= p256((s.len() - 1) as nat)
{
    let (a, b) = (s.take(1), s.skip(1)); assert(s =~= a + b); lemma_be_append(a, b); assert(a.drop_last() =~= Seq::empty()); assert(be_val(a.drop_last()) == 0); assert(be_val(a) == a[0]);
    let (x, y) = (be_val(a), p256(b.len())); assert(x * y >= y) by (nonlinear_arith) requires x >= 1, y >= 0;
}
// one INTEGER of a sequence of several
pub proof fn lemma_step(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>) requires der::tlv(2, a) + x == der::tlv(2, b) + y, (der::tlv(2, a) + x).len() < 0x1_0000 ensures a == b, x == y
{ der::lemma_tlv_hdr(2, a, x); der::lemma_tlv_hdr(2, b, y); }
pub proof fn lemma_priv_inj(o: Octs, u: Octs) requires o.bytes() == u.bytes(), o.bytes().len() < 0x1_0000 ensures o == u
{
    lemma_inj(0x30, o.body(), u.body());
    lemma_step(seq![0u8], seq![0u8], der::tlv(2, o.n) + (der::tlv(2, o.e) + (der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))))))), der::tlv(2, u.n) + (der::tlv(2, u.e) + (der::tlv(2, u.d) + (der::tlv(2, u.p) + (der::tlv(2, u.q) + (der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i)))))))));
    lemma_step(o.n, u.n, der::tlv(2, o.e) + (der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))))))), der::tlv(2, u.e) + (der::tlv(2, u.d) + (der::tlv(2, u.p) + (der::tlv(2, u.q) + (der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i))))))));
    lemma_step(o.e, u.e, der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))))), der::tlv(2, u.d) + (der::tlv(2, u.p) + (der::tlv(2, u.q) + (der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i)))))));
    lemma_step(o.d, u.d, der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))))), der::tlv(2, u.p) + (der::tlv(2, u.q) + (der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i))))));
    lemma_step(o.p, u.p, der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))), der::tlv(2, u.q) + (der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i)))));
    lemma_step(o.q, u.q, der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))), der::tlv(2, u.dp) + (der::tlv(2, u.dq) + (der::tlv(2, u.i))));
    lemma_step(o.dp, u.dp, der::tlv(2, o.dq) + (der::tlv(2, o.i)), der::tlv(2, u.dq) + (der::tlv(2, u.i)));
    lemma_step(o.dq, u.dq, der::tlv(2, o.i), der::tlv(2, u.i));
    lemma_inj(2, o.i, u.i);
}
pub proof fn lemma_priv_rest(o: Octs) requires o.mins(), o.bytes().len() < 0x1_0000 ensures <der::RSAPrivateKey<'_> as Type<'_>>::rest(o.bytes(), 0x30) == Some(Seq::<u8>::empty())
{
    let e = Seq::<u8>::empty(); let x = o.body(); der::lemma_tlv_hdr(0x30, x, e); assert(der::tlv(0x30, x) + e =~= der::tlv(0x30, x));
    der::lemma_tlv_hdr(2, seq![0u8], der::tlv(2, o.n) + (der::tlv(2, o.e) + (der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))))))));
    der::lemma_tlv_hdr(2, o.n, der::tlv(2, o.e) + (der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))))))));
    der::lemma_tlv_hdr(2, o.e, der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))))));
    der::lemma_tlv_hdr(2, o.d, der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))))));
    der::lemma_tlv_hdr(2, o.p, der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i)))));
    der::lemma_tlv_hdr(2, o.q, der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))));
    der::lemma_tlv_hdr(2, o.dp, der::tlv(2, o.dq) + (der::tlv(2, o.i)));
    der::lemma_tlv_hdr(2, o.dq, der::tlv(2, o.i));
    der::lemma_tlv_hdr(2, o.i, e); assert(der::tlv(2, o.i) + e =~= der::tlv(2, o.i));
}
// one key per encoding, one encoding per key
pub proof fn lemma_priv_one(v: Vals, w: Vals, s: Seq<u8>) requires priv_der(v, s), priv_der(w, s), s.len() < 0x1_0000 ensures v == w
{ reveal(priv_der); let o = choose|o: Octs| o.of(v) && s == #[trigger] o.bytes(); let u = choose|o: Octs| o.of(w) && s == #[trigger] o.bytes(); lemma_priv_inj(o, u); }
pub proof fn lemma_priv_canon(v: Vals, s: Seq<u8>, t: Seq<u8>) requires priv_der(v, s), priv_der(v, t) ensures s == t
{ reveal(priv_der); let o = choose|o: Octs| o.of(v) && s == #[trigger] o.bytes(); let u = choose|o: Octs| o.of(v) && t == #[trigger] o.bytes(); lemma_uint_one(v.n, o.n, u.n); lemma_uint_one(v.e, o.e, u.e); lemma_uint_one(v.d, o.d, u.d); lemma_uint_one(v.p, o.p, u.p); lemma_uint_one(v.q, o.q, u.q); lemma_uint_one(v.dp, o.dp, u.dp); lemma_uint_one(v.dq, o.dq, u.dq); lemma_uint_one(v.i, o.i, u.i); }
pub proof fn lemma_pub_canon(n: nat, e: nat, s: Seq<u8>, t: Seq<u8>) requires pub_der(n, e, s), pub_der(n, e, t) ensures s == t
{
    let (a, b) = choose|nb: Seq<u8>, eb: Seq<u8>| der_uint(n, nb) && der_uint(e, eb) && s == #[trigger] pub_bytes(nb, eb);
    let (c, d) = choose|nb: Seq<u8>, eb: Seq<u8>| der_uint(n, nb) && der_uint(e, eb) && t == #[trigger] pub_bytes(nb, eb);
    lemma_uint_one(n, a, c); lemma_uint_one(e, b, d);
}
pub mod rsa_priv { use super::*; use super::rsa_pub::*; verus! {
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BITS
//@end
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BYTES
//@end
    // (the fields the exporters read; the contract of `new` is proved in unit rsa)
    pub struct RsaPrivateKey { pub public: RsaPublicKey, pub p: PosInt<64>, pub q: PosInt<64>, pub d: PosInt<128>, pub dp: PosInt<64>, pub dq: PosInt<64>, pub iqmp: PosInt<64> }
//@item graviola/src/mid/rsa_priv.rs :: struct RsaComponentsBuffer
//@ sub Self::LEN => 4620
//@end
    impl RsaComponentsBuffer {
//@const graviola/src/mid/rsa_priv.rs :: impl RsaComponentsBuffer :: LEN
//@end
//@fn graviola/src/mid/rsa_priv.rs :: impl Default for RsaComponentsBuffer :: default
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < 4620 ==> r.0@[i] == 0
//@end
    }
//@item graviola/src/mid/rsa_priv.rs :: struct RsaComponents
//@end
    impl RsaPrivateKey {
        pub open spec fn vals(self) -> Vals { Vals { n: self.public.n.v(), e: self.public.e as nat, d: self.d.v(), p: self.p.v(), q: self.q.v(), dp: self.dp.v(), dq: self.dq.v(), i: self.iqmp.v() } }
        pub open spec fn wf(self) -> bool { new_ok(self.vals()) }
        #[verifier::external_body] pub fn new(p: PosInt<64>, q: PosInt<64>, d: PosInt<128>, dp: PosInt<64>, dq: PosInt<64>, iqmp: PosInt<64>, n: PosInt<128>, e: u32) -> (r: Result<Self, Error>)
            ensures r.is_ok() == new_ok(Vals { n: n.v(), e: e as nat, d: d.v(), p: p.v(), q: q.v(), dp: dp.v(), dq: dq.v(), i: iqmp.v() }),
                r.is_ok() ==> r.unwrap().vals() == (Vals { n: n.v(), e: e as nat, d: d.v(), p: p.v(), q: q.v(), dp: dp.v(), dq: dq.v(), i: iqmp.v() }) { unimplemented!() }
        #[verifier::external_body] pub fn public_key(&self) -> (r: RsaPublicKey) ensures r == self.public { unimplemented!() }
//@fn graviola/src/mid/rsa_priv.rs :: impl RsaPrivateKey :: encode_components
//@ ret r
//@ spec
    requires self.wf(), old(buffer).0@[1025] == 0
    ensures r.is_ok(), ({ let (c, v) = (r.unwrap(), self.vals());
        comp(c.public_modulus, v.n, 1025) && comp(c.public_exponent, v.e, 5) && comp(c.p, v.p, 513) && comp(c.q, v.q, 513) && comp(c.d, v.d, 1025) && comp(c.dp, v.dp, 513) && comp(c.dq, v.dq, 513) && comp(c.iqmp, v.i, 513) })
//@ sub (buffer(?:\.0)?)\.split_at_mut\( => v_split_at_mut(@@\1, 
//@ sub @@buffer\.0 => &mut buffer.0
//@ sub @@ => 
//@ begin
    broadcast use axiom_new_ok;
//@ after public_exponent\[
    proof { assert(public_exponent@[0] == 0); lemma_be_trim(public_exponent@, 1); assert(public_exponent@.skip(1) =~= be(self.public.e as nat, 4)); lemma_be4(self.public.e as nat); }
//@end
    }
    pub open spec fn comp(b: &[u8], v: nat, m: int) -> bool { 1 <= b@.len() <= m && b@[0] == 0 && be_val(b@) == v }
} }
//@item graviola/src/high/rsa.rs :: struct SigningKey
pub fn v_any_negative(a: &[&der::Integer<'_>; 7]) -> (r: bool) requires forall|i: int| 0 <= i < 7 ==> a@[i].b().len() > 0 ensures r == exists|i: int| 0 <= i < 7 && !#[trigger] a@[i].nonneg()
{ let mut i = 0; while i < 7 invariant i <= 7, forall|j: int| 0 <= j < i ==> #[trigger] a@[j].nonneg(), forall|i: int| 0 <= i < 7 ==> a@[i].b().len() > 0 decreases 7 - i { if a[i].is_negative() { return true; } i += 1; } false }
impl SigningKey {
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: from_pkcs1_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().0.wf() && priv_der(r.unwrap().0.vals(), bytes@),
        bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|v: Vals| #[trigger] new_ok(v) && priv_der(v, bytes@)
//@ sub pkix::RSAPrivateKey::from_bytes\(bytes\)\.map_err\(Error::Asn1Error\)\? => v_decode(bytes)?
//@ sub integers\.iter\(\)\.any\(\|i\| i\.is_negative\(\)\) => v_any_negative(&integers)
//@ sub decoded\s*\.publicExponent\s*\.as_usize\(\)\s*\.map_err\(Error::Asn1Error\)\? => match decoded.publicExponent.as_usize() { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub e\.try_into\(\)\.map_err\(\|_\w*\| Error::OutOfRange\)\? => match v_u32(e) { Some(x) => x, None => return Err(Error::OutOfRange) }
//@ begin
    broadcast use axiom_new_ok;
//@ after let integers
    proof { assert(integers@[0] == decoded.modulus && integers@[1] == decoded.privateExponent && integers@[2] == decoded.prime1 && integers@[3] == decoded.prime2 && integers@[4] == decoded.exponent1 && integers@[5] == decoded.exponent2 && integers@[6] == decoded.coefficient); }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: to_pkcs1_der
//@ ret r
//@ spec
    requires self.0.wf()
    // exactly when the buffer holds the encoding, which never exceeds 4657 octets
    ensures r.is_ok() ==> r.unwrap()@.len() <= 4657 && priv_der(self.0.vals(), r.unwrap()@), r.is_ok() == exists|s: Seq<u8>| s.len() <= old(output)@.len() && #[trigger] priv_der(self.0.vals(), s),
        old(output)@.len() >= 4657 ==> r.is_ok()
//@ sub let used = (pkix::RSAPrivateKey \{.*?\n        \})\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let vk = \1; @@; let mut ve = asn1::Encoder::new(output); let used = match vk.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ sub @@; => proof { lemma_enc(&vk, self.0.vals()); }
//@ sub output\.get\(\.\.used\)\.ok_or\(Error::WrongLength\) => match der::v_get_to(output, used) { Some(x) => { proof { assert(x@ =~= vk.enc(0x30)); } Ok(x) }, None => Err(Error::WrongLength) }
//@ begin
    broadcast use axiom_new_ok;
//@end
}
pub open spec fn gvals(k: &der::RSAPrivateKey<'_>) -> Vals { let o = gocts(k); Vals { n: be_val(o.n), e: be_val(o.e), d: be_val(o.d), p: be_val(o.p), q: be_val(o.q), dp: be_val(o.dp), dq: be_val(o.dq), i: be_val(o.i) } }
pub open spec fn nonneg(k: &der::RSAPrivateKey<'_>) -> bool { k.modulus.nonneg() && k.publicExponent.nonneg() && k.privateExponent.nonneg() && k.prime1.nonneg() && k.prime2.nonneg() && k.exponent1.nonneg() && k.exponent2.nonneg() && k.coefficient.nonneg() }
pub open spec fn filled(k: &der::RSAPrivateKey<'_>) -> bool { k.modulus.b().len() > 0 && k.publicExponent.b().len() > 0 && k.privateExponent.b().len() > 0 && k.prime1.b().len() > 0 && k.prime2.b().len() > 0 && k.exponent1.b().len() > 0 && k.exponent2.b().len() > 0 && k.coefficient.b().len() > 0 }
// the decoder and what it says about the octets
pub fn v_decode<'a>(bytes: &'a [u8]) -> (r: Result<der::RSAPrivateKey<'a>, Error>)
    ensures r.is_ok() ==> filled(&r.unwrap()) && (r.unwrap().version is two_prime && nonneg(&r.unwrap()) ==> priv_der(gvals(&r.unwrap()), bytes@)) && (r.unwrap().publicExponent.nonneg() && be_val(r.unwrap().publicExponent.b()) <= 0xffff_ffff ==> r.unwrap().publicExponent.b().len() <= 8),
        r.is_ok() && bytes@.len() < 0x1_0000 ==> forall|v: Vals| #[trigger] priv_der(v, bytes@) ==> v == gvals(&r.unwrap()) && r.unwrap().version is two_prime && nonneg(&r.unwrap()),
        r.is_err() && bytes@.len() < 0x1_0000 ==> forall|v: Vals| !#[trigger] priv_der(v, bytes@)
{
    proof { if bytes@.len() < 0x1_0000 { assert forall|v: Vals| #[trigger] priv_der(v, bytes@) implies <der::RSAPrivateKey<'_> as Type<'_>>::rest(bytes@, 0x30) == Some(Seq::<u8>::empty()) by { lemma_acc(v, bytes@); } } }
    match pkix::RSAPrivateKey::from_bytes(bytes) {
        Ok(k) => { proof { lemma_dec(&k, bytes@); } Ok(k) }
        Err(e) => Err(Error::Asn1Error(e)),
    }
}
pub proof fn lemma_acc(v: Vals, b: Seq<u8>) requires priv_der(v, b), b.len() < 0x1_0000 ensures <der::RSAPrivateKey<'_> as Type<'_>>::rest(b, 0x30) == Some(Seq::<u8>::empty())
{ reveal(priv_der); let o = choose|o: Octs| o.of(v) && b == #[trigger] o.bytes(); lemma_priv_rest(o); }
pub proof fn lemma_dec(k: &der::RSAPrivateKey<'_>, b: Seq<u8>) requires k.wf(), k.enc(0x30) == b
    ensures filled(k), k.version is two_prime && nonneg(k) ==> priv_der(gvals(k), b), k.publicExponent.nonneg() && be_val(k.publicExponent.b()) <= 0xffff_ffff ==> k.publicExponent.b().len() <= 8,
        b.len() < 0x1_0000 ==> forall|v: Vals| #[trigger] priv_der(v, b) ==> v == gvals(k) && k.version is two_prime && nonneg(k)
{
    reveal(priv_der); let go = gocts(k); lemma_small(go.e);
    if k.version is two_prime { assert(b == go.bytes()); if nonneg(k) { assert(go.of(gvals(k))); } }
    if b.len() < 0x1_0000 { assert forall|v: Vals| #[trigger] priv_der(v, b) implies v == gvals(k) && k.version is two_prime && nonneg(k) by {
        let o = choose|o: Octs| o.of(v) && b == #[trigger] o.bytes(); lemma_version(*k, o); lemma_priv_inj(go, o); } }
}
pub proof fn lemma_enc(k: &der::RSAPrivateKey<'_>, v: Vals) requires k.version is two_prime, gocts(k).of(v), k.modulus.b().len() <= 1025, k.publicExponent.b().len() <= 5, k.privateExponent.b().len() <= 1025, k.prime1.b().len() <= 513, k.prime2.b().len() <= 513, k.exponent1.b().len() <= 513, k.exponent2.b().len() <= 513, k.coefficient.b().len() <= 513
    ensures k.wf(), k.enc(0x30).len() <= 4657, priv_der(v, k.enc(0x30)), forall|s: Seq<u8>| #[trigger] priv_der(v, s) ==> s == k.enc(0x30)
{
    let go = gocts(k); lemma_tlv_len(2, go.n); lemma_tlv_len(2, go.e); lemma_tlv_len(2, go.d); lemma_tlv_len(2, go.p); lemma_tlv_len(2, go.q); lemma_tlv_len(2, go.dp); lemma_tlv_len(2, go.dq); lemma_tlv_len(2, go.i); lemma_tlv_len(2, seq![0u8]); lemma_tlv_len(0x30, go.body()); assert(k.enc(0x30) == go.bytes());
    assert(priv_der(v, go.bytes())) by { reveal(priv_der); } assert forall|s: Seq<u8>| #[trigger] priv_der(v, s) implies s == go.bytes() by { lemma_priv_canon(v, s, go.bytes()); }
}
impl SigningKey {
    // contract of unit rsa
    #[verifier::external_body] pub fn public_key(&self) -> (r: VerifyingKey) ensures r.0 == self.0.public { unimplemented!() }
//@const graviola/src/high/rsa.rs :: impl SigningKey :: MAX_PKCS1_BUFFER_LEN
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: to_pkcs8_der
//@ ret r
//@ spec
    requires self.0.wf()
    ensures r.is_ok() ==> exists|s: Seq<u8>| #[trigger] priv_der(self.0.vals(), s) && r.unwrap()@ == p8_bytes(s), r.is_ok() ==> p8_ok(self.0.vals(), r.unwrap()@),
        r.is_ok() == exists|s: Seq<u8>| p8_bytes(s).len() <= old(output)@.len() && #[trigger] priv_der(self.0.vals(), s)
//@ sub let rc = pkcs8::Key::construct\(\s*self\.to_pkcs1_der\(&mut pkcs1_buffer\)\?,(.*?)\)\s*\.encode\(output\); => let vp = self.to_pkcs1_der(&mut pkcs1_buffer)?; let ghost gp = vp@; let vk = pkcs8::Key::construct(vp,\1); proof { lemma_p8_enc(vk, gp); lemma_p8_make(vk, self.0.vals(), gp); } let rc = vk.encode(output);
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ begin
    broadcast use axiom_new_ok;
    proof { assert(der::tlv(5, Seq::<u8>::empty()).len() == 2) by { lemma_tlv_len(5, Seq::<u8>::empty()); } }
//@ tail
    proof { assert forall|s: Seq<u8>| #[trigger] priv_der(self.0.vals(), s) implies s == gp by { lemma_priv_canon(self.0.vals(), s, gp); } }
//@end
//@fn graviola/src/high/rsa.rs :: impl SigningKey :: from_pkcs8_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().0.wf() && p8_ok(r.unwrap().0.vals(), bytes@),
        bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|v: Vals| #[trigger] new_ok(v) && p8_ok(v, bytes@)
//@ sub &asn1::oid::(\w+) => &asn1::v_\1()
//@ sub alleged_pub_key != key\.public_key\(\)\.to_pkcs1_der\(&mut pub_key_buf\)\? => !v_pub_eq(alleged_pub_key, key.public_key().to_pkcs1_der(&mut pub_key_buf)?, &key)
//@ sub KeyFormatError::(\w+)\.into\(\) => Error::KeyFormatError(KeyFormatError::\1)
//@ begin
    broadcast use axiom_new_ok;
    proof { lemma_p8_any(bytes@); }
//@ after let p8
    proof { lemma_p8_in(p8, bytes@); }
//@ after let key
    proof { lemma_p8_key(p8, key.0.vals(), bytes@); }
//@end
}
// PKCS#8: rsaEncryption with NULL parameters around an RSAPrivateKey; a public key, if there is one, is the matching RSAPublicKey
pub open spec fn p8_key_ok(k: pkcs8::Key<'_>, v: Vals) -> bool { k.alg() == der::der_rsaEncryption() && k.par() == der::tlv(5, Seq::empty()) && priv_der(v, k.priv_b()) && (k.pub_b().is_none() || pub_der(v.n, v.e, k.pub_b().unwrap())) }
#[verifier::opaque] pub open spec fn p8_ok(v: Vals, b: Seq<u8>) -> bool { exists|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok(k, v) }
pub open spec fn p8_bytes(p: Seq<u8>) -> Seq<u8> { der::tlv(0x30, der::tlv(2, seq![0u8]) + (alg() + der::tlv(4, p))) }
pub proof fn lemma_p8_enc(k: pkcs8::Key<'_>, p: Seq<u8>) requires k.0.wf(), k.vers(), k.alg() == der::der_rsaEncryption(), k.par() == der::tlv(5, Seq::empty()), k.priv_b() == p, k.pub_b().is_none() ensures k.0.enc(0x30) == p8_bytes(p)
{ assert(k.0.privateKeyAlgorithm.body() =~= der::tlv(6, der::der_rsaEncryption()) + der::tlv(5, Seq::empty())); assert(k.0.body() =~= der::tlv(2, seq![0u8]) + (alg() + der::tlv(4, p))); }
pub proof fn lemma_p8_make(k: pkcs8::Key<'_>, v: Vals, p: Seq<u8>) requires k.0.wf(), k.vers(), p8_key_ok(k, v) ensures p8_ok(v, k.0.enc(0x30)) { reveal(p8_ok); assert(k.encodes(k.0.enc(0x30))); }
pub proof fn lemma_p8_any(b: Seq<u8>) ensures forall|v: Vals| #[trigger] p8_ok(v, b) ==> exists|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && k.alg() == der::der_rsaEncryption() && k.par() == der::tlv(5, Seq::empty()) { reveal(p8_ok); }
// everything an encoding can mean, given one decoding of it
pub proof fn lemma_p8_in(p8: pkcs8::Key<'_>, b: Seq<u8>) requires p8.encodes(b), p8.alg() == der::der_rsaEncryption(), p8.par() == der::tlv(5, Seq::empty())
    ensures b.len() < 0x1_0000 ==> p8.priv_b().len() < 0x1_0000 && forall|v: Vals| #[trigger] p8_ok(v, b) ==> p8_key_ok(p8, v)
{ reveal(p8_ok); if b.len() < 0x1_0000 { lemma_p8_inj(p8, p8, b); assert forall|v: Vals| #[trigger] p8_ok(v, b) implies p8_key_ok(p8, v) by { let k = choose|k: pkcs8::Key<'static>| #[trigger] k.encodes(b) && p8_key_ok(k, v); lemma_p8_inj(k, p8, b); } } }
pub proof fn lemma_p8_key(p8: pkcs8::Key<'_>, v: Vals, b: Seq<u8>) requires p8.encodes(b), p8.alg() == der::der_rsaEncryption(), p8.par() == der::tlv(5, Seq::empty()), priv_der(v, p8.priv_b())
    ensures p8.pub_b().is_none() || pub_der(v.n, v.e, p8.pub_b().unwrap()) ==> p8_ok(v, b), b.len() < 0x1_0000 ==> forall|w: Vals| #[trigger] p8_ok(w, b) ==> w == v
{ if p8_key_ok(p8, v) { lemma_p8_make(p8, v, p8.priv_b()); }
  lemma_p8_in(p8, b); if b.len() < 0x1_0000 { assert forall|w: Vals| #[trigger] p8_ok(w, b) implies w == v by { lemma_priv_one(v, w, p8.priv_b()); } } }
pub fn v_pub_eq(a: &[u8], b: &[u8], key: &SigningKey) -> (r: bool) requires pub_der(key.0.vals().n, key.0.vals().e, b@) ensures r == pub_der(key.0.vals().n, key.0.vals().e, a@)
{ proof { let v = key.0.vals(); if pub_der(v.n, v.e, a@) { lemma_pub_canon(v.n, v.e, a@, b@); } } v_slice_eq(a, b) }
pub open spec fn gocts(k: &der::RSAPrivateKey<'_>) -> Octs { Octs { n: k.modulus.b(), e: k.publicExponent.b(), d: k.privateExponent.b(), p: k.prime1.b(), q: k.prime2.b(), dp: k.exponent1.b(), dq: k.exponent2.b(), i: k.coefficient.b() } }
pub proof fn lemma_version(k: der::RSAPrivateKey<'_>, o: Octs) requires k.enc(0x30) == o.bytes(), o.bytes().len() < 0x1_0000 ensures k.version is two_prime
{ lemma_inj(0x30, k.body(), o.body()); lemma_step(seq![k.version.num()], seq![0u8], k.modulus.enc(2) + (k.publicExponent.enc(2) + (k.privateExponent.enc(2) + (k.prime1.enc(2) + (k.prime2.enc(2) + (k.exponent1.enc(2) + (k.exponent2.enc(2) + (k.coefficient.enc(2)))))))), der::tlv(2, o.n) + (der::tlv(2, o.e) + (der::tlv(2, o.d) + (der::tlv(2, o.p) + (der::tlv(2, o.q) + (der::tlv(2, o.dp) + (der::tlv(2, o.dq) + (der::tlv(2, o.i))))))))); assert(seq![k.version.num()][0] == seq![0u8][0]); }
}
fn main() {}
