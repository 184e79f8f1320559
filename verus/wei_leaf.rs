// contracts of the P-@C@ and scalar-field assembly (s2n-bignum; from the comment above each routine; evaluated by the driver cases of C10-C13)
verus! {
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
pub mod ct { use super::*;
    #[verifier::external_body] pub fn into_public<T>(x: T) -> (r: T) ensures r == x { x }
    #[verifier::external_body] pub fn into_secret<T>(x: T) -> (r: T) ensures r == x { x }
}
pub trait Zero: Sized { spec fn is_zero(self) -> bool; }
impl<const K: usize> Zero for [u8; K] { open spec fn is_zero(self) -> bool { forall|i: int| 0 <= i < K ==> self@[i] == 0 } }
impl<const K: usize> Zero for [u64; K] { open spec fn is_zero(self) -> bool { forall|i: int| 0 <= i < K ==> self@[i] == 0 } }
pub mod low { use super::*; pub use super::Entry; pub use super::ct;
#[verifier::external_body] pub fn zeroise<T: Zero>(v: &mut T) ensures final(v).is_zero() { unimplemented!() }
#[verifier::external_body] pub fn bignum_montmul_p@C@(z: &mut [u64; @W@], x: &[u64; @W@], y: &[u64; @W@]) requires val(x@) * val(y@) <= bp(W) * P() ensures is_redc(val(final(z)@) as int, (val(x@) * val(y@)) as int, P(), W) { unimplemented!() }
#[verifier::external_body] pub fn bignum_montsqr_p@C@(z: &mut [u64; @W@], x: &[u64; @W@]) requires val(x@) * val(x@) <= bp(W) * P() ensures is_redc(val(final(z)@) as int, (val(x@) * val(x@)) as int, P(), W) { unimplemented!() }
#[verifier::external_body] pub fn bignum_add_p@C@(z: &mut [u64; @W@], x: &[u64; @W@], y: &[u64; @W@]) requires val(x@) < P(), val(y@) < P() ensures val(final(z)@) == (val(x@) + val(y@)) as int % P() { unimplemented!() }
#[verifier::external_body] pub fn bignum_neg_p@C@(z: &mut [u64; @W@], x: &[u64; @W@]) requires val(x@) < P() ensures val(final(z)@) == (-(val(x@) as int)) % P() { unimplemented!() }
#[verifier::external_body] pub fn bignum_demont_p@C@(z: &mut [u64; @W@], x: &[u64; @W@]) requires val(x@) < P() ensures is_redc(val(final(z)@) as int, val(x@) as int, P(), W) { unimplemented!() }
#[verifier::external_body] pub fn bignum_tomont_p@C@(z: &mut [u64; @W@], x: &[u64; @W@]) ensures is_mont(val(final(z)@) as int, val(x@) as int, P(), W) { unimplemented!() }
#[verifier::external_body] pub fn bignum_inv_p@C@(z: &mut [u64; @W@], x: &[u64; @W@]) ensures val(final(z)@) == minv(val(x@) as int, P()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_mod_n@C@(z: &mut [u64; @W@], x: &[u64; @W@]) ensures val(final(z)@) == val(x@) as int % N() { unimplemented!() }
#[verifier::external_body] pub fn bignum_cmp_lt(x: &[u64], y: &[u64]) -> (r: u64) ensures r == (if val(x@) < val(y@) { 1int } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn bignum_eq(x: &[u64], y: &[u64]) -> (r: bool) ensures r == (val(x@) == val(y@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_mux(p: u64, z: &mut [u64], x: &[u64], y: &[u64]) requires old(z)@.len() == x@.len() == y@.len() ensures final(z)@ == (if p != 0 { x@ } else { y@ }) { unimplemented!() }
#[verifier::external_body] pub fn bignum_montmul(z: &mut [u64], x: &[u64], y: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == y@.len() == m@.len(), odd(val(m@) as int), val(x@) * val(y@) <= bp(m@.len()) * val(m@)
    ensures final(z)@.len() == old(z)@.len(), is_redc(val(final(z)@) as int, (val(x@) * val(y@)) as int, val(m@) as int, m@.len()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_demont(z: &mut [u64], x: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == m@.len(), odd(val(m@) as int)
    ensures final(z)@.len() == old(z)@.len(), is_redc(val(final(z)@) as int, val(x@) as int, val(m@) as int, m@.len()) { unimplemented!() }
#[verifier::external_body] pub fn bignum_modadd(z: &mut [u64], x: &[u64], y: &[u64], m: &[u64]) requires old(z)@.len() == x@.len() == y@.len() == m@.len(), val(x@) < val(m@), val(y@) < val(m@)
    ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == (val(x@) + val(y@)) as int % val(m@) as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_modinv(z: &mut [u64], a: &[u64], b: &[u64], t: &mut [u64]) requires old(z)@.len() == a@.len() == b@.len(), old(t)@.len() >= 3 * b@.len(), odd(val(b@) as int), val(b@) > 1, val(b@) == N(), val(a@) as int % N() != 0
    ensures final(z)@.len() == old(z)@.len(), val(final(z)@) == minv(val(a@) as int, N()) { unimplemented!() }
#[verifier::external_body] pub fn p@C@_montjdouble(z: &mut [u64; @W3@], x: &[u64; @W3@]) requires jok(x@) ensures jok(final(z)@), jac(final(z)@) == padd(jac(x@), jac(x@)) { unimplemented!() }
// no doubling: the two points must differ unless one of them is the point at infinity
#[verifier::external_body] pub fn p@C@_montjadd(z: &mut [u64; @W3@], x: &[u64; @W3@], y: &[u64; @W3@]) requires jok(x@), jok(y@), jac(x@) != jac(y@) || jac(x@) == Pt::Inf ensures jok(final(z)@), jac(final(z)@) == padd(jac(x@), jac(y@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_jac_point_select_p@C@(z: &mut [u64; @W3@], table: &[u64], index: u8) requires table@.len() == 16 * @W3@, index <= 16
    ensures index == 0 ==> forall|i: int| 0 <= i < @W3@ ==> final(z)@[i] == 0, index > 0 ==> final(z)@ == table@.subrange((index - 1) * @W3@, (index - 1) * @W3@ + @W3@) { unimplemented!() }
// used by P-256 only
#[verifier::external_body] pub fn p@C@_montjmixadd(z: &mut [u64; @W3@], x: &[u64; @W3@], y: &[u64; @W2@]) requires jok(x@) ensures aok(y@) && aff(y@) != Pt::Inf && jac(x@) != aff(y@) ==> jok(final(z)@) && jac(final(z)@) == padd(jac(x@), aff(y@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_aff_point_select_p@C@(z: &mut [u64; @W2@], table: &[u64], index: u8) requires table@.len() == 64 * @W2@, index <= 64
    ensures index == 0 ==> forall|i: int| 0 <= i < @W2@ ==> final(z)@[i] == 0, index > 0 ==> final(z)@ == table@.subrange((index - 1) * @W2@, (index - 1) * @W2@ + @W2@) { unimplemented!() }
}
}
