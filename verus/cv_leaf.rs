// contracts of the curve25519 assembly (s2n-bignum; evaluated by the driver cases of C14, C15) and the annotation helpers
verus! {
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
pub mod ct { 
    use super::*;
    #[verifier::external_body] pub fn into_public<T>(x: T) -> (r: T) ensures r == x { x }
    #[verifier::external_body] pub fn into_secret<T>(x: T) -> (r: T) ensures r == x { x }
    #[verifier::external_body] pub fn secret_slice<T>(x: &[T]) { }
    #[verifier::external_body] pub fn public_slice<T>(x: &[T]) { }
}
// RFC 7748 X25519(k, u), decoding of both included
pub uninterp spec fn x25519(k: nat, u: nat) -> nat;
pub mod low { use super::*; pub use super::Entry; pub use super::ct;
#[verifier::external_body] pub fn curve25519_x25519(res: &mut [u64; 4], scalar: &[u64; 4], point: &[u64; 4]) ensures val(final(res)@) == x25519(val(scalar@), val(point@)) { unimplemented!() }
#[verifier::external_body] pub fn curve25519_x25519base(res: &mut [u64; 4], scalar: &[u64; 4]) ensures val(final(res)@) == x25519(val(scalar@), 9) { unimplemented!() }
#[verifier::external_body] pub fn bignum_cmp_lt(x: &[u64], y: &[u64]) -> (r: u64) ensures r == (if val(x@) < val(y@) { 1int } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn bignum_eq(x: &[u64], y: &[u64]) -> (r: bool) ensures r == (val(x@) == val(y@)) { unimplemented!() }
}
}
