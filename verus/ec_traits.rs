// C12 C13: the interface between the generic ECDSA code (high/ecdsa.rs) and a curve (high/curve.rs), as contracts. The generic code is proved over
// these; p256/p384 prove the `impl ... for P256/P384` functions against the same contracts.
verus! {
pub mod ec { use super::*;
pub trait Scalar: Sized {
    spec fn n() -> int;
    spec fn sl() -> nat;                                         // encoded length of a scalar
    spec fn gx(d: int) -> int;                                   // x coordinate of [d]G, mod n
    spec fn enc_pub(d: int) -> Seq<u8>;                          // SEC1 uncompressed encoding of [d]G
    spec fn ssig(d: int, k: int, e: int, r: int) -> int;         // k^-1 (e + r d) mod n
    spec fn is_pub(b: Seq<u8>) -> bool;                          // encodes a point of the curve
    spec fn sig_ok(q: Seq<u8>, e: int, r: int, s: int) -> bool;  // SEC1 4.1.4 steps 4-8
    spec fn val(self) -> int;
    spec fn okv(self) -> bool;
    proof fn lemma_curve() ensures 1 < Self::n() <= p256(Self::sl()), 0 < Self::sl() <= 48, forall|d: int| #[trigger] Self::enc_pub(d).len() == 2 * Self::sl() + 1;
    // a signature made with nonce k verifies (the group law is the trusted part of the curve units)
    proof fn lemma_sign(d: int, k: int, e: int) requires 0 < d < Self::n(), 0 < k < Self::n(), Self::gx(k) != 0, Self::ssig(d, k, e, Self::gx(k)) != 0
        ensures 0 < Self::gx(k) < Self::n(), 0 < Self::ssig(d, k, e, Self::gx(k)) < Self::n(), Self::sig_ok(Self::enc_pub(d), e, Self::gx(k), Self::ssig(d, k, e, Self::gx(k)));
    fn v_len() -> (r: usize) ensures r == Self::sl();            // const LEN_BYTES
    fn from_bytes_checked(bytes: &[u8]) -> (r: Result<Self, Error>) ensures r.is_ok() == (0 < be_val(bytes@) < Self::n()), r.is_ok() ==> r.unwrap().okv() && r.unwrap().val() == be_val(bytes@);
    fn from_bytes_reduced(bytes: &[u8]) -> (r: Self) requires bytes@.len() <= Self::sl() ensures r.okv(), r.val() == be_val(bytes@) as int % Self::n();
    fn is_zero(&self) -> (r: bool) requires self.okv() ensures r == (self.val() == 0);
    fn write_bytes(&self, target: &mut [u8]) requires self.okv(), old(target)@.len() == Self::sl() ensures final(target)@.len() == Self::sl(), be_val(final(target)@) == self.val(), 0 <= self.val() < Self::n();
}
pub trait PrivateKey<S: Scalar>: Sized {
    spec fn dv(self) -> int;
    spec fn okd(self) -> bool;
    fn from_bytes(bytes: &[u8]) -> (r: Result<Self, Error>) ensures r.is_ok() == (0 < be_val(bytes@) < S::n()), r.is_ok() ==> r.unwrap().okd() && r.unwrap().dv() == be_val(bytes@);
    fn encode<'a>(&self, out: &'a mut [u8]) -> (r: Result<&'a [u8], Error>) requires self.okd()
        ensures r.is_ok() == (old(out)@.len() >= S::sl()), r.is_ok() ==> r.unwrap()@.len() == S::sl() && be_val(r.unwrap()@) == self.dv() && 0 < self.dv() < S::n() && final(out)@.len() == old(out)@.len();
    fn public_key_x_scalar(&self) -> (r: S) requires self.okd() ensures r.okv(), r.val() == S::gx(self.dv());
    fn public_key_encode_uncompressed<'a>(&self, out: &'a mut [u8]) -> (r: Result<&'a [u8], Error>) requires self.okd()
        ensures r.is_ok() == (old(out)@.len() >= 2 * S::sl() + 1), r.is_ok() ==> r.unwrap()@ == S::enc_pub(self.dv());
    fn raw_ecdsa_sign(&self, k: &Self, e: &S, r: &S) -> (s: S) requires self.okd(), k.okd(), e.okv(), r.okv() ensures s.okv(), s.val() == S::ssig(self.dv(), k.dv(), e.val(), r.val());
}
pub trait PublicKey<S: Scalar>: Sized {
    spec fn okq(self) -> bool;
    spec fn encq(self) -> Seq<u8>;
    fn from_x962_uncompressed(bytes: &[u8]) -> (r: Result<Self, Error>) ensures r.is_ok() == S::is_pub(bytes@), r.is_ok() ==> r.unwrap().okq() && r.unwrap().encq() == bytes@;
    fn raw_ecdsa_verify(&self, r: &S, s: &S, e: &S) -> (ok: Result<(), Error>)
        requires self.okq(), 0 < r.val() < S::n(), 0 < s.val() < S::n(), r.okv(), s.okv(), e.okv() ensures ok.is_ok() == S::sig_ok(self.encq(), e.val(), r.val(), s.val());
}
// a candidate is drawn until it lies in [1, n-1] (FIPS 186-5 A.2.2): the states and outputs of the generator
pub open spec fn drawn<R: RandomSource>(a: R, b: R, st: Seq<R>, out: Seq<Seq<u8>>, n: int, l: nat) -> bool {
    &&& out.len() > 0 && st.len() == out.len() + 1 && st[0] == a && st.last() == b
    &&& forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).len() == l && R::step(st[i], st[i + 1], out[i]) && R::gives(out[i])
    &&& forall|i: int| 0 <= i < out.len() - 1 ==> !(0 < be_val(#[trigger] out[i]) < n)
    &&& 0 < be_val(out.last()) < n
}
pub open spec fn drew<R: RandomSource>(a: R, b: R, d: int, n: int, l: nat) -> bool { exists|st: Seq<R>, out: Seq<Seq<u8>>| #[trigger] drawn(a, b, st, out, n, l) && be_val(out.last()) == d }
pub trait Curve: Sized {
    type Scalar: Scalar;
    type PrivateKey: PrivateKey<Self::Scalar>;
    type PublicKey: PublicKey<Self::Scalar>;
    fn generate_random_key<R: RandomSource>(rng: &mut R) -> (r: Result<Self::PrivateKey, Error>) requires old(rng).ready()
        ensures final(rng).ready(), r.is_ok() ==> r.unwrap().okd() && drew(*old(rng), *final(rng), r.unwrap().dv(), Self::Scalar::n(), Self::Scalar::sl());
}
}
}
