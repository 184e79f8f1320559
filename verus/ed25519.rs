use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
verus! { #[derive(Debug)] pub enum Error { RngFailed, NotOnCurve, WrongLength, BadSignature } }
//@use cv_leaf.rs
//@stub util_body.rs
//@use rng_spec.rs
//@use ed25519_body.rs
//@use ed25519_hi.rs
fn main() {}
