    // contract of the context proved in unit sha2; `m` is what it has absorbed
    pub uninterp spec fn digest@n@(m: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body] pub proof fn lemma_len@n@(m: Seq<u8>) ensures digest@n@(m).len() == @L@ { unimplemented!() }
    pub struct @N@Context { pub m: Ghost<Seq<u8>> }
    impl @N@Context {
        #[verifier::external_body] pub fn v_output_sz() -> (r: usize) ensures r == @L@ { unimplemented!() }
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.m@ == self.m@ { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, b: &[u8]) requires old(self).m@.len() + b@.len() < BOUND ensures final(self).m@ == old(self).m@ + b@ { unimplemented!() }
        #[verifier::external_body] pub fn finish(self) -> (r: Digest) requires self.m@.len() < BOUND ensures r.b@ == digest@n@(self.m@) { unimplemented!() }
    }
