use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use posint_leaf.rs
//@use posint_body.rs
fn main() {}
