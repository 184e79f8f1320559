use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
//@use asn1_body.rs
//@use asn1_types.rs
//@use asn1_pkix.rs
//@use asn1_oid.rs
//@use asn1_oids.rs
//@use pkcs8_body.rs
fn main() {}
