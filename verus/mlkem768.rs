// C19 C20 C28: ML-KEM-768 (FIPS 203) over the abstract ring operations
use vstd::prelude::*;
//@use std.rs
verus! { #[derive(Debug)] pub enum Error { RngFailed, OutOfRange }
pub struct Entry;
impl Entry { #[verifier::external_body] pub fn new_public() -> Self { Entry } #[verifier::external_body] pub fn new_secret() -> Self { Entry } }
}
//@use rng_spec.rs
//@stub mlkem_codec_body.rs
//@use mlkem_leaf.rs
//@use mlkem768_body.rs
fn main() {}
