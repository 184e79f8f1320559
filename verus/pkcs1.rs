use vstd::prelude::*;
//@use std.rs
verus! {
pub enum Error { BadSignature }
#[verifier::external_body] pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@use hashtraits.rs
}
//@use pkcs1_body.rs
fn main() {}
