// C28: the public random source and the rustls adapter give operating system randomness or an error
use vstd::prelude::*;
//@use std.rs
verus! {
pub enum Error { RngFailed, Other }
}
//@use rng_spec.rs
pub mod mid { pub mod rng { pub use crate::*; } }
pub mod graviola { pub use crate::Error; pub mod random { use crate::*; use vstd::prelude::*; verus! {
//@fn graviola/src/lib.rs :: mod random :: fill
//@ ret r
//@ spec
    ensures final(out)@.len() == old(out)@.len(), r.is_ok() ==> os_random(final(out)@)
//@ sub use crate::mid::rng::\{RandomSource, SystemRandom\}; => 
//@ sub SystemRandom\.fill\( => let mut vs = SystemRandom; vs.fill(
//@end
} } }
pub mod rustls { pub mod crypto { use vstd::prelude::*; verus! { pub struct GetRandomFailed; } } }
verus! {
pub struct RngProvider;
impl RngProvider {
//@fn rustls-graviola/src/lib.rs :: impl rustls::crypto::SecureRandom for RngProvider :: fill
//@ ret r
//@ spec
    ensures final(bytes)@.len() == old(bytes)@.len(), r.is_ok() ==> os_random(final(bytes)@)
//@end
}
}
fn main() {}
