use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
verus! { #[derive(Debug)] pub enum Error { WrongLength, NotUncompressed, NotOnCurve, OutOfRange, RngFailed, BadSignature } }
//@use p384_const.rs
//@use wei_spec.rs
//@use wei_leaf.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@stub util_body.rs
//@use wei_field.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use wei_point.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use wei_mul.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use wei_base384.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use rng_spec.rs
//@use ec_traits.rs
//@use wei_keys.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use wei_nr384.rs C=384 F=graviola/src/mid/p384.rs W=6 W2=12 W3=18 BB=48 B1=49 B2=97 NB=49 T5=288 TOP=380
//@use wei_curve.rs C=384 F=graviola/src/mid/p384.rs BB=48 B2=97
fn main() {}
