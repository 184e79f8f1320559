// C07 C08: RSA public keys as PKCS#1 and SubjectPublicKeyInfo (RFC 8017 A.1.1, RFC 3279 2.3.1), over the contracts of the DER codec (unit asn1) and of the RSA public key (unit rsa)
use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
pub mod der { use super::*;
//@stub asn1_body.rs
//@stub asn1_types.rs
//@stub asn1_pkix.rs
//@stub asn1_oid.rs
//@stub asn1_oids.rs
//@stub pkcs8_body.rs
}
pub mod asn1 { pub use super::der::*; pub mod pkix { pub use super::super::der::*; } }
//@use rsa_der_body.rs
fn main() {}
