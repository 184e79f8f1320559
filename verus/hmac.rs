// C06 (C13, C17, C23 use it): HMAC against RFC 2104 over the contract of the hash interface
use vstd::prelude::*;
//@use std.rs
verus! {
pub enum Error { BadSignature }
// proved in unit ct_equal
#[verifier::external_body]
pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@use hashtraits.rs
//@use hmac_body.rs
} // verus!
fn main(){}
