// C02 C22: Poly1305 against RFC 8439
use vstd::prelude::*;
//@use std.rs
verus! {
//@use blockwise.rs
//@use poly1305_body.rs
} // verus!
fn main(){}
