use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@stub posint_leaf.rs
//@stub posint_body.rs
//@use rsa_body.rs
fn main() {}
