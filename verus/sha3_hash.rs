pub open spec fn @H@(m: Seq<u8>) -> Seq<u8> { Seq::new(@O@, |i: int| state_byte(sponge_state(m, @R@, 0x06), i)) }
//@item graviola/src/mid/sha3.rs :: struct @NM@
impl @NM@ {
//@const graviola/src/mid/sha3.rs :: impl @NM@ :: OUTPUT_SZ
//@fn graviola/src/mid/sha3.rs :: impl @NM@ :: new
//@ ret r
//@ spec
    ensures r.sponge.models(Seq::empty())
//@end
//@fn graviola/src/mid/sha3.rs :: impl @NM@ :: update
//@ spec
    requires old(self).sponge.wf()
    ensures final(self).sponge.wf(), forall|m: Seq<u8>| #[trigger] old(self).sponge.models(m) ==> final(self).sponge.models(m + bytes@)
//@end
//@fn graviola/src/mid/sha3.rs :: impl @NM@ :: finish
//@ ret r
//@ spec
    requires self.sponge.wf()
    ensures forall|m: Seq<u8>| #[trigger] self.sponge.models(m) ==> r@ =~= @H@(m)
//@end
}
