// C04: the hash contexts handed to rustls, over the contracts of the SHA-2 contexts (unit sha2)
use vstd::prelude::*;
verus! {
pub spec const BOUND: nat = 0x1000_0000_0000_0000;
pub struct Digest { pub b: Vec<u8> }
impl Digest { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
pub mod hash { use super::*; verus! {
    pub struct Output { pub b: Vec<u8> }
    impl Output { #[verifier::external_body] pub fn new(x: &[u8]) -> (r: Output) ensures r.b@ == x@ { unimplemented!() } }
    #[derive(PartialEq, Eq, Clone, Copy)] pub enum HashAlgorithm { MD5, SHA1, SHA224, SHA256, SHA384, SHA512 }
} }
pub mod sha2 { use super::*; verus! {
//@use tls_hash_stub.rs N=Sha256 n=256 L=32
//@use tls_hash_stub.rs N=Sha384 n=384 L=48
} }
//@use tls_hash1.rs N=Sha256 n=256 L=32 A=SHA256
//@use tls_hash1.rs N=Sha384 n=384 L=48 A=SHA384
}
fn main() {}
