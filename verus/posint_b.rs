use vstd::prelude::*;
//@use std.rs
//@use nat_spec.rs
//@use bytes_spec.rs
//@use posint_leaf.rs
verus! {
#[derive(Debug)] pub enum Error { OutOfRange }
//@item graviola/src/low/posint.rs :: struct PosInt
impl<const N: usize> PosInt<N> {
    pub open spec fn wf(self) -> bool { 1 <= N <= 0x10_0000 && self.used <= N && forall|i: int| self.used <= i < N ==> self.words@[i] == 0 }
    pub open spec fn v(self) -> nat { val(self.words@) }
    pub proof fn lemma_used(self, k: int) requires self.wf(), self.used <= k <= N ensures val(self.words@.take(k)) == self.v(), self.v() < bp(k as nat)
    { lemma_val_ext(self.words@, k); }
    // proved in unit posint
    #[verifier::external_body] pub fn zero() -> (r: Self) requires 1 <= N <= 0x10_0000 ensures r.wf(), r.v() == 0, r.used == 0 { unimplemented!() }
    #[verifier::external_body] pub fn push_word(&mut self, word: u64) -> (r: Result<(), Error>) requires old(self).wf()
        ensures r.is_err() == (old(self).used == N), r.is_err() ==> *final(self) == *old(self),
            r.is_ok() ==> final(self).wf() && final(self).used == old(self).used + 1 && final(self).v() == old(self).v() + word * bp(old(self).used as nat) && final(self).words@ == old(self).words@.update(old(self).used as int, word) { unimplemented!() }
    #[verifier::external_body] pub fn as_words(&self) -> (r: &[u64]) requires self.wf() ensures r@ == self.words@.take(self.used as int), val(r@) == self.v(), r@.len() == self.used, self.v() < bp(self.used as nat) { unimplemented!() }
    #[verifier::external_body] pub fn len_bytes(&self) -> (r: usize) requires self.wf() ensures self.v() < pow2((8 * r) as nat), r > 0 ==> self.v() >= pow2((8 * (r - 1)) as nat), r <= 8 * self.used, (r == 0) == (self.v() == 0) { unimplemented!() }
}
}
//@use posint_bytes.rs
fn main() {}
