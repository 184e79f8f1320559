//@item graviola/src/high/hash.rs :: struct Sha@A@
//@item graviola/src/high/hash.rs :: struct Sha@A@Context
impl Hash for Sha@A@ {
    type Context = Sha@A@Context;
    open spec fn spec_block_len() -> nat { @B@ }
    open spec fn spec_out_len() -> nat { @OL@ }
    open spec fn spec_hash(m: Seq<u8>) -> Seq<u8> { @H@(m) }
    proof fn lemma_sizes(m: Seq<u8>) { lemma_blocks_len@W@(@IV@(), pad(m, @B@, @L@)); }
//@fn graviola/src/high/hash.rs :: impl Hash for Sha@A@ :: new
//@ vis none
//@end
//@fn graviola/src/high/hash.rs :: impl Hash for Sha@A@ :: hash
//@ vis none
//@ begin
    proof { assert(Seq::<u8>::empty() + bytes@ =~= bytes@); }
//@end
//@fn graviola/src/high/hash.rs :: impl Hash for Sha@A@ :: zeroed_block
//@ vis none
//@end
//@fn graviola/src/high/hash.rs :: impl Hash for Sha@A@ :: zeroed_output
//@ vis none
//@end
}
impl HashContext for Sha@A@Context {
    open spec fn spec_digest(m: Seq<u8>) -> Seq<u8> { @H@(m) }
    open spec fn models(self, m: Seq<u8>) -> bool { @C@.models(@IV@(), m) }
    open spec fn wf(self) -> bool { @C@.wf() }
//@fn graviola/src/high/hash.rs :: impl HashContext for Sha@A@Context :: update
//@ vis none
//@ end
    proof { assert forall|m: Seq<u8>| #[trigger] old(self).models(m) && m.len() + bytes@.len() <= usize::MAX implies final(self).models(m + bytes@) by { 
        old(self)@P@.lemma_step(@C@, @IV@(), m, bytes@); } }
//@end
//@fn graviola/src/high/hash.rs :: impl HashContext for Sha@A@Context :: finish
//@ vis none
//@ begin
    proof { let m = choose|m: Seq<u8>| #[trigger] self.models(m) && m.len() < 0x2000_0000_0000_0000;
        assert(@C@.blockwise.data().len() == @C@.blockwise.used); assert(m.skip(m.len() - m.len() % @B@).len() == m.len() % @B@);
        assert(@C@.nblocks * @B@ + @C@.blockwise.used == m.len()); }
//@end
}
