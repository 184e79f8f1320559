// C03 C06 C16 C23 C24: byte-string comparison accepts only full equality
use vstd::prelude::*;
//@use std.rs
verus! {
// leaf: assembly; zero exactly when the two n-byte strings are equal (bounded checks: leaf cases of the driver)
#[verifier::external_body]
pub fn ct_compare_bytes(a: &[u8], b: &[u8], n: usize) -> (r: u8) requires a@.len() == n, b@.len() == n ensures (r == 0) == (a@ == b@) { unimplemented!() }
//@fn graviola/src/low/generic/ct_equal.rs :: - :: ct_equal
//@ ret r
//@ spec
    ensures r == (a@ == b@)
//@ sub (\w+)\.as_ptr\(\) => \1
//@end
} // verus!
fn main(){}
