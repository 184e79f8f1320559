// contracts of the s2n-bignum routines, from the comments above each of them (assembly; evaluated by the driver cases of C18)
verus! {
pub open spec fn coprime(a: nat, b: nat) -> bool { !exists|d: nat| d > 1 && #[trigger] (a as int % d as int) == 0 && b as int % d as int == 0 }
pub mod low { use super::*;
#[verifier::external_body] pub fn bignum_bitsize(x: &[u64]) -> (r: usize) ensures val(x@) < pow2(r as nat), r > 0 ==> val(x@) >= pow2((r - 1) as nat), r <= 64 * x@.len(), (r == 0) == (val(x@) == 0) { unimplemented!() }
#[verifier::external_body] pub fn bignum_digitsize(x: &[u64]) -> (r: usize) ensures r <= x@.len(), forall|i: int| r <= i < x@.len() ==> x@[i] == 0, r > 0 ==> x@[r - 1] != 0 { unimplemented!() }
#[verifier::external_body] pub fn bignum_ctz(x: &[u64]) -> (r: usize) ensures val(x@) == 0 ==> r == 64 * x@.len(), val(x@) > 0 ==> val(x@) as int % pow2(r as nat) as int == 0 && (val(x@) as int / pow2(r as nat) as int) % 2 == 1 && r < 64 * x@.len() { unimplemented!() }
#[verifier::external_body] pub fn bignum_cmp_lt(x: &[u64], y: &[u64]) -> (r: u64) ensures r == (if val(x@) < val(y@) { 1int } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn bignum_eq(x: &[u64], y: &[u64]) -> (r: bool) ensures r == (val(x@) == val(y@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_coprime(x: &[u64], y: &[u64], t: &mut [u64]) -> (r: bool) requires old(t)@.len() >= 2 * x@.len(), old(t)@.len() >= 2 * y@.len() ensures final(t)@.len() == old(t)@.len(), r == coprime(val(x@), val(y@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_shr_small(z: &mut [u64], x: &[u64], c: u8) requires c < 64 ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == (val(x@) as int / pow2(c as nat) as int) % bp(old(z)@.len()) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_add(z: &mut [u64], x: &[u64], y: &[u64]) -> (c: u64) requires x@.len() <= old(z)@.len(), y@.len() <= old(z)@.len()
    ensures final(z)@.len() == old(z)@.len(), c <= 1, val(final(z)@) + c * bp(old(z)@.len()) == val(x@) + val(y@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_optsub(z: &mut [u64], x: &[u64], y: &[u64], p: u64) requires x@.len() == old(z)@.len(), y@.len() == old(z)@.len()
    ensures final(z)@.len() == old(z)@.len(), p == 0 ==> val(final(z)@) == val(x@), p != 0 ==> val(final(z)@) == (val(x@) - val(y@)) % bp(old(z)@.len()) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_mul(z: &mut [u64], x: &[u64], y: &[u64]) requires old(z)@.len() >= x@.len() + y@.len() ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == val(x@) * val(y@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_modadd(z: &mut [u64], x: &[u64], y: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == y@.len() == m@.len(), val(x@) < val(m@), val(y@) < val(m@)
    ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == (val(x@) + val(y@)) as int % val(m@) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_modsub(z: &mut [u64], x: &[u64], y: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == y@.len() == m@.len(), val(x@) < val(m@), val(y@) < val(m@)
    ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == (val(x@) - val(y@)) % val(m@) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_montmul(z: &mut [u64], x: &[u64], y: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == y@.len() == m@.len(), odd(val(m@) as int), val(x@) * val(y@) <= bp(m@.len()) * val(m@)
    ensures final(z)@.len() == old(z)@.len(), is_redc(val(final(z)@) as int, (val(x@) * val(y@)) as int, val(m@) as int, m@.len()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_montsqr(z: &mut [u64], x: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == m@.len(), odd(val(m@) as int), val(x@) * val(x@) <= bp(m@.len()) * val(m@)
    ensures final(z)@.len() == old(z)@.len(), is_redc(val(final(z)@) as int, (val(x@) * val(x@)) as int, val(m@) as int, m@.len()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_montredc(z: &mut [u64], x: &[u64], m: &[u64], p: u64) requires old(z)@.len() == m@.len(), odd(val(m@) as int)
    ensures final(z)@.len() == old(z)@.len(), x@.len() <= p + m@.len() && val(x@) <= bp(p as nat) * val(m@) ==> is_redc(val(final(z)@) as int, val(x@) as int, val(m@) as int, p as nat) { unimplemented!() }
#[verifier::external_body] pub fn bignum_demont(z: &mut [u64], x: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == m@.len(), odd(val(m@) as int)
    ensures final(z)@.len() == old(z)@.len(), is_redc(val(final(z)@) as int, val(x@) as int, val(m@) as int, m@.len()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_montifier(z: &mut [u64], m: &[u64], t: &mut [u64]) requires old(z)@.len() == m@.len(), old(t)@.len() >= m@.len(), odd(val(m@) as int)
    ensures final(z)@.len() == old(z)@.len(), final(t)@.len() == old(t)@.len(), val(final(z)@) == (bp(m@.len()) * bp(m@.len())) as int % val(m@) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_negmodinv(z: &mut [u64], x: &[u64]) requires old(z)@.len() == x@.len(), odd(val(x@) as int)
    ensures final(z)@.len() == old(z)@.len(), (val(x@) * val(final(z)@) + 1) as int % bp(x@.len()) as int == 0 { unimplemented!() }
#[verifier::external_body] pub fn bignum_emontredc_8n(z: &mut [u64], m: &[u64], w: u64) -> (c: u64) requires old(z)@.len() == 2 * m@.len(), m@.len() % 8 == 0, m@.len() > 0, (m@[0] * w + 1) as int % bb() == 0
    ensures final(z)@.len() == old(z)@.len(), c <= 1, exists|q: nat| q < bp(m@.len()) && #[trigger] (q * val(m@)) + val(old(z)@) == bp(m@.len()) * (val(final(z)@.skip(m@.len() as int)) + c * bp(m@.len())) { unimplemented!() }
#[verifier::external_body] pub fn bignum_kmul_16_32(z: &mut [u64], x: &[u64], y: &[u64], t: &mut [u64; 32]) requires old(z)@.len() == 32, x@.len() == 16, y@.len() == 16 ensures final(z)@.len() == 32, val(final(z)@) == val(x@) * val(y@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_kmul_32_64(z: &mut [u64], x: &[u64], y: &[u64], t: &mut [u64; 96]) requires old(z)@.len() == 64, x@.len() == 32, y@.len() == 32 ensures final(z)@.len() == 64, val(final(z)@) == val(x@) * val(y@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_ksqr_16_32(z: &mut [u64], x: &[u64], t: &mut [u64; 24]) requires old(z)@.len() == 32, x@.len() == 16 ensures final(z)@.len() == 32, val(final(z)@) == val(x@) * val(x@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_ksqr_32_64(z: &mut [u64], x: &[u64], t: &mut [u64; 72]) requires old(z)@.len() == 64, x@.len() == 32 ensures final(z)@.len() == 64, val(final(z)@) == val(x@) * val(x@) { unimplemented!() }
#[verifier::external_body] pub fn bignum_modinv(z: &mut [u64], a: &[u64], b: &[u64], t: &mut [u64]) requires old(z)@.len() == a@.len() == b@.len(), old(t)@.len() >= 3 * b@.len(), odd(val(b@) as int), val(b@) > 1, coprime(val(a@), val(b@))
    ensures final(z)@.len() == old(z)@.len(), val(final(z)@) < val(b@), cong((val(a@) * val(final(z)@)) as int, 1, val(b@) as int) { unimplemented!() }
#[verifier::external_body] pub fn bignum_copy_row_from_table(z: &mut [u64], table: &[u64], height: u64, width: u64, index: u64) requires old(z)@.len() == width, table@.len() == height * width, index < height
    ensures final(z)@ == table@.subrange(index * width, index * width + width) { unimplemented!() }
#[verifier::external_body] pub fn zeroise_vec(v: &mut Vec<u64>) ensures final(v)@.len() == old(v)@.len() { unimplemented!() }
}
}
