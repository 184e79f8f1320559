// the contract of hash::Sha@A@ (proved in unit sha2)
pub uninterp spec fn sha@A@(m: Seq<u8>) -> Seq<u8>;
pub struct Sha@A@; pub struct Sha@A@Context;
impl HashContext for Sha@A@Context {
    open spec fn spec_digest(m: Seq<u8>) -> Seq<u8> { sha@A@(m) }
    uninterp spec fn models(self, m: Seq<u8>) -> bool;
    uninterp spec fn wf(self) -> bool;
    #[verifier::external_body] fn update(&mut self, bytes: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn finish(self) -> (r: HashOutput) { unimplemented!() }
}
impl Hash for Sha@A@ {
    type Context = Sha@A@Context;
    open spec fn spec_block_len() -> nat { @B@ }
    open spec fn spec_out_len() -> nat { @OL@ }
    open spec fn spec_hash(m: Seq<u8>) -> Seq<u8> { sha@A@(m) }
    #[verifier::external_body] proof fn lemma_sizes(m: Seq<u8>) {}
    #[verifier::external_body] fn new() -> (r: Self::Context) { unimplemented!() }
    #[verifier::external_body] fn hash(bytes: &[u8]) -> (r: HashOutput) { unimplemented!() }
    #[verifier::external_body] fn zeroed_block() -> (r: HashBlock) { unimplemented!() }
    #[verifier::external_body] fn zeroed_output() -> (r: HashOutput) { unimplemented!() }
}
