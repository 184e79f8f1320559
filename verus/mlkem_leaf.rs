// ML-KEM ring operations (FIPS 203 section 4.3), left abstract; contracts of the assembly leaves (mlkem-native / s2n-bignum documentation),
// evaluated against the specification by the driver cases of C19 and C20
verus! {
pub uninterp spec fn fips_ntt(f: Seq<int>) -> Seq<int>;
pub uninterp spec fn fips_intt(f: Seq<int>) -> Seq<int>;
// scalar product of two vectors of three polynomials in the NTT domain (MultiplyNTTs, summed)
pub uninterp spec fn dot3(a: Seq<int>, b: Seq<int>) -> Seq<int>;
// coefficient order of the current implementation in the NTT domain (a permutation; the identity on aarch64)
pub open spec fn inrange(f: Seq<int>, p: int, q: int) -> bool { forall|i: int| 0 <= i < f.len() ==> p <= #[trigger] f[i] < q }
pub uninterp spec fn perm(i: int) -> int;
pub uninterp spec fn iperm(i: int) -> int;
#[verifier::external_body] pub proof fn axiom_perm() ensures forall|i: int| 0 <= i < 256 ==> 0 <= #[trigger] perm(i) < 256 && iperm(perm(i)) == i, forall|i: int| 0 <= i < 256 ==> 0 <= #[trigger] iperm(i) < 256 && perm(iperm(i)) == i {}
pub open spec fn ord(f: Seq<int>) -> Seq<int> { Seq::new(256, |i: int| f[perm(i)]) }
pub open spec fn unord(f: Seq<int>) -> Seq<int> { Seq::new(256, |i: int| f[iperm(i)]) }
pub proof fn axiom_ord(f: Seq<int>) requires f.len() == 256
    ensures ord(f).len() == 256, unord(f).len() == 256, unord(ord(f)) == f, ord(unord(f)) == f, ord(modz(f)) == modz(ord(f)), unord(modz(f)) == modz(unord(f)),
        forall|p: int, q: int| #[trigger] inrange(f, p, q) ==> inrange(ord(f), p, q) && inrange(unord(f), p, q)
{ axiom_perm(); assert(unord(ord(f)) =~= f); assert(ord(unord(f)) =~= f); assert(ord(modz(f)) =~= modz(ord(f))); assert(unord(modz(f)) =~= modz(unord(f))); }
#[verifier::external_body] pub proof fn axiom_ntt_len(f: Seq<int>, g: Seq<int>)
    ensures fips_ntt(f).len() == 256, fips_intt(f).len() == 256, dot3(f, g).len() == 256, modz(fips_ntt(f)) == fips_ntt(f), modz(fips_intt(f)) == fips_intt(f), modz(dot3(f, g)) == dot3(f, g) {}
pub open spec fn modz(f: Seq<int>) -> Seq<int> { f.map_values(|x: int| x % 3329) }
pub open spec fn modq(f: Seq<i16>) -> Seq<int> { modz(ints(f)) }
// Montgomery factor
pub open spec fn mul_r(f: Seq<int>) -> Seq<int> { f.map_values(|x: int| (65536 * x) % 3329) }
pub open spec fn small(f: Seq<i16>, b: int) -> bool { forall|i: int| 0 <= i < f.len() ==> -b <= #[trigger] f[i] <= b }
pub open spec fn pol<A>(f: Seq<A>, i: int) -> Seq<A> { f.subrange(256 * i, 256 * i + 256) }
pub open spec fn map_pol(f: spec_fn(Seq<int>) -> Seq<int>, s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |k: int| f(pol(s, k / 256))[k % 256]) }
pub open spec fn ord_vec(s: Seq<int>) -> Seq<int> { map_pol(|p: Seq<int>| ord(p), s) }
pub open spec fn unord_vec(s: Seq<int>) -> Seq<int> { map_pol(|p: Seq<int>| unord(p), s) }
pub open spec fn ntt_vec(s: Seq<int>) -> Seq<int> { map_pol(|p: Seq<int>| fips_ntt(p), s) }
// ByteEncode_12 / ByteDecode_12 of one polynomial
pub open spec fn dec12(b: Seq<u8>) -> Seq<int> { Seq::new((b.len() / 3 * 2) as nat, |i: int| if i % 2 == 0 { b[i / 2 * 3] + 256 * (b[i / 2 * 3 + 1] as int % 16) } else { b[i / 2 * 3 + 1] as int / 16 + 16 * b[i / 2 * 3 + 2] }) }
pub open spec fn enc12(t: Seq<int>) -> Seq<u8> { Seq::new((t.len() / 2 * 3) as nat, |k: int| (if k % 3 == 0 { t[k / 3 * 2] % 256 } else if k % 3 == 1 { t[k / 3 * 2] / 256 + 16 * (t[k / 3 * 2 + 1] % 16) } else { t[k / 3 * 2 + 1] / 16 }) as u8) }
pub uninterp spec fn is_cache(bt: Seq<i16>, b: Seq<int>) -> bool;
pub mod low { use super::*; pub use super::Entry;
#[verifier::external_body] pub fn mlkem_reduce(a: &mut [i16; 256]) ensures ints(final(a)@) == modq(old(a)@), canon(final(a)@) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_ntt(a: &mut [i16; 256]) requires small(old(a)@, 8191) ensures modq(final(a)@) == ord(fips_ntt(modq(old(a)@))), small(final(a)@, 26632) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_intt(a: &mut [i16; 256]) ensures modq(final(a)@) == fips_intt(unord(mul_r(modq(old(a)@)))), small(final(a)@, 26632) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_frombytes(r: &mut [i16; 256], a: &[u8; 384]) ensures ints(final(r)@) == ord(dec12(a@)) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_tobytes(r: &mut [u8; 384], a: &[i16; 256]) requires forall|i: int| 0 <= i < 256 ==> 0 <= #[trigger] a@[i] < 4096 ensures final(r)@ == enc12(unord(ints(a@))) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_unpack(a: &mut [i16; 256]) ensures ints(final(a)@) == ord(ints(old(a)@)) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_tomont(a: &mut [i16; 256]) ensures modq(final(a)@) == mul_r(modq(old(a)@)), small(final(a)@, 3328) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_mulcache_compute(x: &mut [i16; 128], a: &[i16; 256]) ensures is_cache(final(x)@, modq(a@)) { unimplemented!() }
#[verifier::external_body] pub fn mlkem_basemul_k3(r: &mut [i16; 256], a: &[i16; 768], b: &[i16; 768], bt: &[i16; 384])
    requires small(a@, 4096), forall|i: int| 0 <= i < 3 ==> is_cache(#[trigger] bt@.subrange(128 * i, 128 * i + 128), pol(modq(b@), i))
    ensures mul_r(modq(final(r)@)) == ord(dot3(unord_vec(modq(a@)), unord_vec(modq(b@)))) { unimplemented!() }
}
// FIPS 202 (contracts proved in unit sha3)
pub uninterp spec fn sha3_256(m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha3_512(m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn shake256_at(m: Seq<u8>, i: int) -> u8;
pub open spec fn shake256(m: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| shake256_at(m, i)) }
pub open spec fn concat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
pub mod sha3 { use super::*;
    pub const SHAKE_PAD_BYTE: u8 = 0x1f;
    pub struct Sha3_256Context { x: u8 }
    impl Sha3_256Context {
        pub uninterp spec fn msg(self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).msg() == old(self).msg() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finish(self) -> (r: [u8; 32]) ensures r@ == sha3_256(self.msg()) { unimplemented!() }
    }
    pub struct Sha3_512Context { x: u8 }
    impl Sha3_512Context {
        pub uninterp spec fn msg(self) -> Seq<u8>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.msg() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).msg() == old(self).msg() + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finish(self) -> (r: [u8; 64]) ensures r@ == sha3_512(self.msg()) { unimplemented!() }
    }
    pub struct Shake256 { x: u8 }
    impl Shake256 {
        pub uninterp spec fn msg(self) -> Seq<u8>;
        pub uninterp spec fn pos(self) -> int;
        #[verifier::external_body] pub fn new(m: &[&[u8]]) -> (r: Self) ensures r.msg() == concat(m@), r.pos() == 0 { unimplemented!() }
        #[verifier::external_body] pub fn read(&mut self, out: &mut [u8]) ensures final(self).msg() == old(self).msg(), final(self).pos() == old(self).pos() + old(out)@.len(), final(out)@.len() == old(out)@.len(),
            old(self).pos() == 0 ==> final(out)@ == shake256(old(self).msg(), old(out)@.len() as int) { unimplemented!() }
        // six-way parallel: inputs carry the padding byte
        #[verifier::external_body] pub fn one_shot_sextet(inputs: &[&[u8; 40]; 6], outputs: &mut [[u8; 128]; 6])
            requires forall|i: int| 0 <= i < 6 ==> (#[trigger] inputs@[i])@[33] == 0x1f && forall|k: int| 34 <= k < 40 ==> #[trigger] inputs@[i]@[k] == 0
            ensures forall|i: int| 0 <= i < 6 ==> (#[trigger] final(outputs)@[i])@ == shake256(inputs@[i]@.take(33), 128) { unimplemented!() }
    }
}
#[verifier::external_body] pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
}
