// C17 C28: RSA key generation, candidate primes: exactly the requested size, odd, from the random source, and only after the primality test
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
//@stub posint_leaf.rs
//@stub posint_body.rs
//@stub posint_bytes.rs
//@use rng_spec.rs
verus! {
#[verifier::external_body] pub fn zeroise(b: &mut [u8]) ensures final(b)@.len() == old(b)@.len() { unimplemented!() }
pub mod super_ { use super::*; verus! {
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BITS
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BYTES
pub type RsaPosIntModP = PosInt<64>;
} }
//@item graviola/src/mid/rsa_priv/generate.rs :: enum KeySize
//@ attr #[derive(Clone, Copy)]
//@end
impl KeySize {
    pub open spec fn bits(self) -> nat { match self { KeySize::Rsa2048 => 2048, KeySize::Rsa3072 => 3072, KeySize::Rsa4096 => 4096, KeySize::Rsa6144 => 6144, KeySize::Rsa8192 => 8192 } }
//@fn graviola/src/mid/rsa_priv/generate.rs :: impl KeySize :: public_modulus_size_bits
//@ ret r
//@ spec
    ensures r == self.bits()
//@end
//@fn graviola/src/mid/rsa_priv/generate.rs :: impl KeySize :: private_prime_size_bits
//@ ret r
//@ spec
    ensures r == self.bits() / 2
//@end
//@fn graviola/src/mid/rsa_priv/generate.rs :: impl KeySize :: miller_rabin_rounds
//@ ret r
//@ spec
    // FIPS 186-5 table B.1, 2^-100 column
    ensures r >= 4, self is Rsa2048 ==> r >= 5
//@end
//@fn graviola/src/mid/rsa_priv/generate.rs :: impl TryFrom<usize> for KeySize :: try_from
//@ ret r
//@ sub sig Self::Error => Error
//@ spec
    ensures r.is_ok() ==> r.unwrap().bits() == value, r.is_ok() == (value == 2048 || value == 3072 || value == 4096 || value == 6144 || value == 8192)
//@end
}
// passed `rounds` rounds of the Miller-Rabin test with random witnesses, and shares no factor with the product of the small primes
pub uninterp spec fn mr_passed(v: nat, rounds: KeySize) -> bool;
pub uninterp spec fn small_primes() -> nat;
pub open spec fn tested(v: nat, size: KeySize) -> bool { mr_passed(v, size) && coprime(v, small_primes()) }
pub open spec fn sized(v: nat, size: KeySize) -> bool { v % 2 == 1 && 3 * pow2((size.bits() / 2 - 2) as nat) <= v < pow2(size.bits() / 2) }
// the octets drawn, with the top two bits and the lowest bit set
pub open spec fn adjusted(b: Seq<u8>) -> Seq<u8> { let c = b.update(0, b[0] | 0xc0); c.update(c.len() - 1, c[c.len() - 1] | 1) }
pub open spec fn prime_from<R: RandomSource>(c: PosInt<64>, size: KeySize) -> bool {
    c.wf() && sized(c.v(), size) && tested(c.v(), size) && exists|b: Seq<u8>| #[trigger] R::gives(b) && b.len() == size.bits() / 16 && c.v() == be_val(adjusted(b)) }
pub fn v_small_primes() -> (r: PosInt<64>) ensures r.wf(), r.v() == small_primes() { v_small() }
#[verifier::external_body] fn v_small() -> (r: PosInt<64>) ensures r.wf(), r.v() == small_primes() { unimplemented!() }
#[verifier::external_body] fn miller_rabin<R: RandomSource>(w: &PosInt<64>, size: KeySize, rng: &mut R) -> (r: Result<bool, Error>) requires old(rng).ready(), w.wf(), w.v() % 2 == 1, w.v() > 3
    ensures final(rng).ready(), r.is_ok() && r.unwrap() ==> mr_passed(w.v(), size) { unimplemented!() }
//@fn graviola/src/mid/rsa_priv/generate.rs :: - :: is_prime
//@ ret r
//@ sub sig fn is_prime\( => fn is_prime<R: RandomSource>(
//@ sub sig &mut dyn RandomSource => &mut R
//@ sub sig MaxPosInt => PosInt<64>
//@ spec
    requires old(rng).ready(), candidate.wf(), candidate.v() % 2 == 1, candidate.v() > 3
    ensures final(rng).ready(), r.is_ok() && r.unwrap() ==> tested(candidate.v(), size)
//@ sub PosInt::from_bytes\(PRODUCT_OF_SMALL_PRIMES\)\.unwrap\(\) => v_small_primes()
//@end
pub proof fn lemma_adjust(b: Seq<u8>, size: KeySize) requires b.len() == size.bits() / 16 ensures sized(be_val(adjusted(b)), size), adjusted(b).len() == b.len(), lz(adjusted(b)) == 0, be_val(adjusted(b)) > 3
{
    let s = adjusted(b); let n = s.len(); let (x0, x1) = (b[0], b[b.len() - 1]);
    assert((x0 | 0xc0) >= 0xc0) by (bit_vector); assert((x1 | 1) % 2 == 1) by (bit_vector); assert(s[0] >= 0xc0); assert(s[n - 1] % 2 == 1);
    let (h, t) = (s.take(1), s.skip(1)); assert(s =~= h + t); lemma_be_append(h, t); assert(h.drop_last() =~= Seq::empty()); assert(be_val(h.drop_last()) == 0); assert(be_val(h) == s[0]);
    lemma_be_bound(s); lemma_p256_pow2(n); lemma_p256_pow2((n - 1) as nat); lemma_pow2_adds((8 * (n - 1)) as nat, 6); lemma2_to64(); lemma_pow2_pos((8 * (n - 1)) as nat);
    let (a, k) = (be_val(h), p256((n - 1) as nat)); assert(a * k >= 0xc0 * k) by (nonlinear_arith) requires a >= 0xc0, k >= 0;
    assert(pow2((8 * n - 2) as nat) == k * 64);
    assert(be_val(s) == be_val(s.drop_last()) * 256 + s[n - 1]);
}
//@fn graviola/src/mid/rsa_priv/generate.rs :: - :: random_prime_one
//@ ret r
//@ sub sig fn random_prime_one\( => fn random_prime_one<R: RandomSource, Q: RandomSource>(
//@ sub sig candidate_random: &mut dyn RandomSource => candidate_random: &mut R
//@ sub sig checks_random: &mut dyn RandomSource => checks_random: &mut Q
//@ sub sig super::RsaPosIntModP => PosInt<64>
//@ spec
    requires old(candidate_random).ready(), old(checks_random).ready()
    ensures final(candidate_random).ready(), final(checks_random).ready(), r.is_ok() && r.unwrap().is_some() ==> prime_from::<R>(r.unwrap().unwrap(), size)
//@ sub super:: => super_::
//@ after candidate_random\.fill
    let ghost gb = buffer@.take(bytes as int);
//@ before let candidate
    proof { assert(buffer@.take(bytes as int) =~= adjusted(gb)); lemma_adjust(gb, size); }
//@end
//@fn graviola/src/mid/rsa_priv/generate.rs :: - :: random_prime
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ sub sig fn random_prime\( => fn random_prime<R: RandomSource, Q: RandomSource>(
//@ sub sig candidate_random: &mut dyn RandomSource => candidate_random: &mut R
//@ sub sig checks_random: &mut dyn RandomSource => checks_random: &mut Q
//@ sub sig super::RsaPosIntModP => PosInt<64>
//@ spec
    requires old(candidate_random).ready(), old(checks_random).ready()
    ensures final(candidate_random).ready(), final(checks_random).ready(), r.is_ok() ==> prime_from::<R>(r.unwrap(), size)
//@ loop 1
    invariant candidate_random.ready(), checks_random.ready()
//@end
}
fn main() {}
