use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
verus! { #[derive(Debug)] pub enum Error { WrongLength, NotUncompressed, NotOnCurve, OutOfRange, RngFailed, BadSignature } }
//@use p256_const.rs
//@use wei_spec.rs
//@use wei_leaf.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@stub util_body.rs
//@use wei_field.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use wei_point.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use wei_mul.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use wei_base256.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use rng_spec.rs
//@use ec_traits.rs
//@use wei_keys.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use wei_nr256.rs C=256 F=graviola/src/mid/p256.rs W=4 W2=8 W3=12 BB=32 B1=33 B2=65 NB=33 T5=192 TOP=255
//@use wei_curve.rs C=256 F=graviola/src/mid/p256.rs BB=32 B2=65
fn main() {}
