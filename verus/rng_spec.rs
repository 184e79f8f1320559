// C28: what a random source promises. `os_random(b)`: b is an output of the operating system generator (an uninterpreted predicate, so the
// only way to establish it is a successful fill of the whole buffer).
verus! {
pub uninterp spec fn os_random(b: Seq<u8>) -> bool;
pub trait RandomSource: Sized {
    spec fn gives(b: Seq<u8>) -> bool;
    spec fn step(a: Self, b: Self, out: Seq<u8>) -> bool;    // for a deterministic generator: the state after, and the output, of one call
    spec fn ready(self) -> bool;
    fn fill(&mut self, out: &mut [u8]) -> (r: Result<(), Error>) requires old(self).ready()
        ensures final(self).ready(), final(out)@.len() == old(out)@.len(), r.is_ok() ==> Self::gives(final(out)@) && Self::step(*old(self), *final(self), final(out)@);
}
pub mod getrandom { use super::*;
    pub struct Error;
    #[verifier::external_body] pub fn fill(dest: &mut [u8]) -> (r: Result<(), Error>) ensures final(dest)@.len() == old(dest)@.len(), r.is_ok() ==> os_random(final(dest)@) { unimplemented!() }
}
//@item graviola/src/mid/rng.rs :: struct SystemRandom
impl RandomSource for SystemRandom {
    open spec fn gives(b: Seq<u8>) -> bool { os_random(b) }
    open spec fn step(a: Self, b: Self, out: Seq<u8>) -> bool { true }
    open spec fn ready(self) -> bool { true }
//@fn graviola/src/mid/rng.rs :: impl RandomSource for SystemRandom :: fill
//@ vis none
//@end
}
}
