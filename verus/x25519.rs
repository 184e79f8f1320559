use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
verus! { #[derive(Debug)] pub enum Error { RngFailed, NotOnCurve, WrongLength } }
//@use cv_leaf.rs
//@use util_body.rs
//@use rng_spec.rs
//@use x25519_body.rs
fn main() {}
