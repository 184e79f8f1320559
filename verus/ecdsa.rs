// C12 C13: the generic ECDSA code (high/ecdsa.rs) and HMAC_DRBG over the contracts of the curve interface, the hash interface and HMAC
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
pub mod der { use super::*;
//@stub asn1_body.rs
//@stub asn1_types.rs
//@stub asn1_pkix.rs
}
pub mod asn1 { pub use super::der::*; pub mod pkix { pub use super::super::der::*; } }
verus! {
use der::Type;
//@item graviola/src/error.rs :: enum KeyFormatError
//@ attr #[derive(Debug)]
//@end
//@item graviola/src/error.rs :: enum Error
//@ attr #[derive(Debug)]
//@ sub crate::high::asn1::Error|asn1::Error => der::Error
//@end
// proved in unit ct_equal
#[verifier::external_body]
pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
}
verus! {
//@use hashtraits.rs
//@stub hmac_body.rs
}
//@use rng_spec.rs
//@use ec_traits.rs
//@use drbg_body.rs
//@use ecdsa_body.rs
fn main() {}
