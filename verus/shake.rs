pub open spec fn @H@(m: Seq<u8>, i: int) -> u8 { stream(sponge_state(m, @R@, 0x1f), @R@, i) }
//@item graviola/src/mid/sha3.rs :: struct @NM@
impl @NM@ {
    // the next byte read is byte pos of the output for message m
    pub open spec fn reading(self, m: Seq<u8>, pos: int) -> bool { reading(self.sponge.s@, self.buffer@, self.buffer_offset as int, @R@, sponge_state(m, @R@, 0x1f), pos) }
//@fn graviola/src/mid/sha3.rs :: impl @NM@ :: new
//@ ret r
//@ spec
    ensures r.reading(concat(message@), 0), r.buffer_offset <= @R@
//@end
//@fn graviola/src/mid/sha3.rs :: impl @NM@ :: read
//@ spec
    requires old(self).buffer_offset <= @R@
    ensures final(self).buffer_offset <= @R@, final(output)@.len() == old(output)@.len(), 
        forall|m: Seq<u8>, pos: int| #[trigger] old(self).reading(m, pos) ==> final(self).reading(m, pos + old(output)@.len())
            && forall|i: int| 0 <= i < old(output)@.len() ==> #[trigger] final(output)@[i] == @H@(m, pos + i)
//@end
}
