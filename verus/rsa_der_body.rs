verus! {
use der::Type;
use asn1::pkix;
use der::top::{Error, KeyFormatError};
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
pub open spec fn lim(n: int) -> nat { p256((8 * n) as nat) }
pub open spec fn max_n() -> nat { lim(128) }      // 2^8192
pub uninterp spec fn key_ok(n: nat, e: nat) -> bool;      // n odd, of 2041 to 8192 bits, e positive
#[verifier::external_body] pub broadcast proof fn axiom_key_ok(n: nat, e: nat) ensures #[trigger] key_ok(n, e) ==> 0 < n < max_n() && e > 0 {}
pub struct PosInt<const N: usize> { pub n: usize }
impl<const N: usize> PosInt<N> {
    pub uninterp spec fn v(&self) -> nat;
    // (unit posint_b; leading zeros do not count)
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<PosInt<N>, Error>) ensures r.is_ok() == (be_val(b@) < lim(N as int)), r.is_ok() ==> r.unwrap().v() == be_val(b@) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes_asn1<'a>(&self, out: &'a mut [u8]) -> (r: Result<&'a [u8], Error>)
        requires self.v() < lim(N as int) ensures old(out)@.len() >= 8 * N + 1 ==> r.is_ok(), r.is_ok() ==> 1 <= r.unwrap()@.len() <= 8 * N + 1 && r.unwrap()@[0] == 0 && be_val(r.unwrap()@) == self.v() { unimplemented!() }
}
pub mod rsa_pub { use super::*; verus! {
//@item graviola/src/mid/rsa_pub.rs :: const MAX_PUBLIC_MODULUS_BITS
//@item graviola/src/mid/rsa_pub.rs :: const MAX_PUBLIC_MODULUS_BYTES
    pub struct RsaPublicKey { pub n: PosInt<128>, pub e: u32 }
    impl RsaPublicKey {
        pub open spec fn wf(self) -> bool { key_ok(self.n.v(), self.e as nat) }
        #[verifier::external_body] pub fn new(n: PosInt<128>, e: u32) -> (r: Result<Self, Error>) ensures r.is_ok() == key_ok(n.v(), e as nat), r.is_ok() ==> r.unwrap().n == n && r.unwrap().e == e { unimplemented!() }
    }
} }
#[verifier::external_body] pub fn v_u32(e: usize) -> (r: Option<u32>) ensures r.is_some() == (e <= 0xffff_ffff), r.is_some() ==> r.unwrap() == e { e.try_into().ok() }
// contents octets of a non-negative INTEGER
pub open spec fn der_uint(v: nat, b: Seq<u8>) -> bool { der::min_int(b) && b[0] < 0x80 && be_val(b) == v }
pub open spec fn pub_bytes(nb: Seq<u8>, eb: Seq<u8>) -> Seq<u8> { der::tlv(0x30, der::tlv(2, nb) + der::tlv(2, eb)) }
pub open spec fn pub_der(n: nat, e: nat, s: Seq<u8>) -> bool { exists|nb: Seq<u8>, eb: Seq<u8>| der_uint(n, nb) && der_uint(e, eb) && s == #[trigger] pub_bytes(nb, eb) }
pub open spec fn alg() -> Seq<u8> { der::tlv(0x30, der::tlv(6, der::der_rsaEncryption()) + der::tlv(5, Seq::empty())) }
pub open spec fn spki_bytes(p: Seq<u8>) -> Seq<u8> { der::tlv(0x30, alg() + der::tlv(3, seq![0u8] + p)) }
pub proof fn lemma_pub_inj(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) requires pub_bytes(a, b) == pub_bytes(c, d), pub_bytes(a, b).len() < 0x1_0000 ensures a == c, b == d
{
    let e = Seq::<u8>::empty(); let (x, y) = (der::tlv(2, a) + der::tlv(2, b), der::tlv(2, c) + der::tlv(2, d));
    der::lemma_tlv_hdr(0x30, x, e); der::lemma_tlv_hdr(0x30, y, e); assert(der::tlv(0x30, x) + e =~= der::tlv(0x30, x)); assert(der::tlv(0x30, y) + e =~= der::tlv(0x30, y)); assert(x == y);
    der::lemma_tlv_hdr(2, a, der::tlv(2, b)); der::lemma_tlv_hdr(2, c, der::tlv(2, d)); assert(a == c && der::tlv(2, b) == der::tlv(2, d));
    der::lemma_tlv_hdr(2, b, e); der::lemma_tlv_hdr(2, d, e); assert(der::tlv(2, b) + e =~= der::tlv(2, b)); assert(der::tlv(2, d) + e =~= der::tlv(2, d));
}
pub proof fn lemma_pub_rest(a: Seq<u8>, b: Seq<u8>) requires der::min_int(a), der::min_int(b), pub_bytes(a, b).len() < 0x1_0000 ensures <der::RSAPublicKey<'_> as Type<'_>>::rest(pub_bytes(a, b), 0x30) == Some(Seq::<u8>::empty())
{
    let e = Seq::<u8>::empty(); let x = der::tlv(2, a) + der::tlv(2, b);
    der::lemma_tlv_hdr(0x30, x, e); assert(der::tlv(0x30, x) + e =~= der::tlv(0x30, x));
    der::lemma_tlv_hdr(2, a, der::tlv(2, b)); der::lemma_tlv_hdr(2, b, e); assert(der::tlv(2, b) + e =~= der::tlv(2, b));
}
// a value below 256^m has at most m + 1 contents octets
pub proof fn lemma_min_len(s: Seq<u8>, m: nat) requires der::min_int(s), s[0] < 0x80, be_val(s) < p256(m) ensures s.len() <= m + 1
{
    if s.len() > m + 1 {
        let i = if s[0] == 0 { 1int } else { 0 }; let u = s.skip(i); lemma_be_trim(s, i); assert(u[0] != 0); let (a, b) = (u.take(1), u.skip(1)); assert(u =~= a + b); lemma_be_append(a, b);
        assert(a.drop_last() =~= Seq::empty()); assert(be_val(a.drop_last()) == 0); assert(be_val(a) == u[0]);
        lemma_p256_mono(m, b.len()); let (x, y) = (be_val(a), p256(b.len())); assert(x * y >= y) by (nonlinear_arith) requires x >= 1, y >= 0;
    }
}
//@item graviola/src/high/rsa.rs :: struct VerifyingKey
impl VerifyingKey {
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: from_pkcs1_der
//@ ret r
//@ spec
    ensures r.is_ok() ==> r.unwrap().0.wf() && pub_der(r.unwrap().0.n.v(), r.unwrap().0.e as nat, bytes@),
        bytes@.len() < 0x1_0000 ==> r.is_ok() == exists|n: nat, e: nat| #[trigger] key_ok(n, e) && e <= 0xffff_ffff && pub_der(n, e, bytes@)
//@ sub pkix::RSAPublicKey::from_bytes\(bytes\)\.map_err\(Error::Asn1Error\)\? => match pkix::RSAPublicKey::from_bytes(bytes) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub decoded\s*\.publicExponent\s*\.as_usize\(\)\s*\.map_err\(Error::Asn1Error\)\? => match decoded.publicExponent.as_usize() { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) }
//@ sub e\.try_into\(\)\.map_err\(\|_e\| Error::OutOfRange\)\? => match v_u32(e) { Some(x) => x, None => return Err(Error::OutOfRange) }
//@ begin
    broadcast use axiom_key_ok;
    proof { if bytes@.len() < 0x1_0000 { assert forall|a: Seq<u8>, b: Seq<u8>| der::min_int(a) && der::min_int(b) && bytes@ == #[trigger] pub_bytes(a, b) implies <der::RSAPublicKey<'_> as Type<'_>>::rest(bytes@, 0x30) == Some(Seq::<u8>::empty()) by { lemma_pub_rest(a, b); } } }
//@ after let decoded
    let ghost (nb, eb) = (decoded.modulus.b(), decoded.publicExponent.b());
    proof { assert(bytes@ == pub_bytes(nb, eb)); lemma_small(eb);
        if bytes@.len() < 0x1_0000 { assert forall|a: Seq<u8>, b: Seq<u8>| bytes@ == #[trigger] pub_bytes(a, b) implies a == nb && b == eb by { lemma_pub_inj(nb, eb, a, b); } } }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: to_pkcs1_der
//@ ret r
//@ spec
    requires self.0.wf()
    // 1040 octets: the longest encoding (8192-bit modulus, 32-bit exponent)
    ensures old(output)@.len() >= 1040 ==> r.is_ok(), r.is_ok() ==> r.unwrap()@.len() <= 1040 && pub_der(self.0.n.v(), self.0.e as nat, r.unwrap()@)
//@ sub let used = pub_key\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let mut ve = asn1::Encoder::new(output); let used = match pub_key.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ begin
    broadcast use axiom_key_ok;
//@ after public_exponent\[
    proof { lemma_be_trim(public_exponent@, 1); assert(public_exponent@.skip(1) =~= be(self.0.e as nat, 4)); lemma_be4(self.0.e as nat); }
//@ after let pub_key
    let ghost (nb, eb) = (pub_key.modulus.b(), pub_key.publicExponent.b());
    proof { lemma_tlv_len(2, nb); lemma_tlv_len(2, eb); lemma_tlv_len(0x30, der::tlv(2, nb) + der::tlv(2, eb)); assert(pub_key.enc(0x30) == pub_bytes(nb, eb)); }
//@ after let used
    proof { assert(output@.take(used as int) =~= pub_bytes(nb, eb)); }
//@end
//@fn graviola/src/high/rsa.rs :: impl VerifyingKey :: to_spki_der
//@ ret r
//@ spec
    requires self.0.wf()
    ensures old(output)@.len() >= 1064 ==> r.is_ok(), r.is_ok() ==> exists|p: Seq<u8>| pub_der(self.0.n.v(), self.0.e as nat, p) && r.unwrap()@ == #[trigger] spki_bytes(p)
//@ sub asn1::oid::(\w+)\.clone\(\) => asn1::v_\1()
//@ sub let len = spki\s*\.encode\(&mut asn1::Encoder::new\(output\)\)\s*\.map_err\(Error::Asn1Error\)\?; => let vl0 = output.len(); let mut ve = asn1::Encoder::new(output); let len = match spki.encode(&mut ve) { Ok(x) => x, Err(e) => return Err(Error::Asn1Error(e)) };
//@ after let spki
    let ghost p = spki.subjectPublicKey.octets@;
    proof { let e = Seq::<u8>::empty(); lemma_tlv_len(5, e); lemma_tlv_len(6, der::der_rsaEncryption()); lemma_tlv_len(0x30, der::tlv(6, der::der_rsaEncryption()) + der::tlv(5, e)); lemma_tlv_len(3, seq![0u8] + p); lemma_tlv_len(0x30, alg() + der::tlv(3, seq![0u8] + p)); assert(spki.enc(0x30) == spki_bytes(p)); }
//@ after let len
    proof { assert(output@.take(len as int) =~= spki_bytes(p)); }
//@end
}
pub proof fn lemma_tlv_len(t: u8, b: Seq<u8>) requires b.len() < 0x1_0000 ensures der::tlv(t, b).len() == b.len() + (if b.len() < 0x80 { 2int } else if b.len() < 0x100 { 3 } else { 4 }) { }
pub proof fn lemma_be4(e: nat) requires e <= 0xffff_ffff ensures be_val(be(e, 4)) == e { lemma_be_of(e, 4); reveal_with_fuel(p256, 5); lemma_small_mod(e, p256(4)); }
// a small exponent has at most 8 contents octets
pub proof fn lemma_small(b: Seq<u8>) requires der::min_int(b) ensures b[0] < 0x80 && be_val(b) <= 0xffff_ffff ==> b.len() <= 8
{ reveal_with_fuel(p256, 5); if b[0] < 0x80 && be_val(b) <= 0xffff_ffff { lemma_min_len(b, 4); } }
}
