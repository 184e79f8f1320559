use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
//@stub posint_leaf.rs
//@stub posint_body.rs
//@stub posint_bytes.rs
//@stub rsa_body.rs
verus! {
//@use hashtraits.rs
//@use hash_stub.rs A=256 B=64 OL=32
//@use hash_stub.rs A=384 B=128 OL=48
//@use hash_stub.rs A=512 B=128 OL=64
}
//@stub pkcs1_body.rs
//@use rsa_hi_body.rs
pub mod rsa_pub { pub use crate::*; }
pub mod rsa_priv { pub use crate::*; }
pub mod hash { pub use crate::*; }
pub mod pkcs1 { pub use crate::*; }
fn main() {}
