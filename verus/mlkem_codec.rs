// C19 C20: the ML-KEM compression and byte codecs against FIPS 203 section 4.2
use vstd::prelude::*;
//@use std.rs
//@use mlkem_codec_body.rs
fn main() {}
