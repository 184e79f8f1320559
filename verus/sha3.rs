// C05: the sponge (padding, absorbing, squeezing, incremental reads) against FIPS 202, the permutation left abstract.
use vstd::prelude::*;
//@use std.rs
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@use blockwise.rs
//@use sponge.rs
//@use sha3_hash.rs NM=Sha3_256Context H=fips_sha3_256 R=136 O=32 RN=SHA3_256_R_BYTES
//@use sha3_hash.rs NM=Sha3_512Context H=fips_sha3_512 R=72 O=64 RN=SHA3_512_R_BYTES
//@use shake.rs NM=Shake128 H=fips_shake128 R=168 RN=SHAKE_128_R_BYTES
//@use shake.rs NM=Shake256 H=fips_shake256 R=136 RN=SHAKE_256_R_BYTES
} // verus!
fn main(){}
