//@item graviola/src/mid/sha2.rs :: struct @NM@
impl @NM@ {
//@const graviola/src/mid/sha2.rs :: impl @NM@ :: BLOCK_SZ
//@const graviola/src/mid/sha2.rs :: impl @NM@ :: OUTPUT_SZ

    // the bytes hashed so far are m
    pub open spec fn models(self, iv: Seq<@T@>, m: Seq<u8>) -> bool {
        &&& self.blockwise.wf() && self.blockwise.used < @B@
        &&& self.nblocks == m.len() / @B@
        &&& self.h@ == blocks@W@(iv, m.take(m.len() - m.len() % @B@))
        &&& self.blockwise.data() == m.skip(m.len() - m.len() % @B@)
    }
    pub open spec fn wf(self) -> bool { self.blockwise.wf() && self.blockwise.used < @B@ }

    // one update step over the blocks and the rest
    pub open spec fn step(self, new: Self, bytes: Seq<u8>) -> bool {
        let all = self.blockwise.data() + bytes;
        let n = all.len() - all.len() % @B@;
        &&& new.wf()
        &&& new.h@ == blocks@W@(self.h@, all.take(n))
        &&& new.blockwise.data() == all.skip(n)
        &&& (self.nblocks + n / @B@ <= usize::MAX ==> new.nblocks == self.nblocks + n / @B@)
    }
    pub proof fn lemma_step(self, new: Self, iv: Seq<@T@>, m: Seq<u8>, bytes: Seq<u8>)
        requires self.models(iv, m), self.step(new, bytes), m.len() + bytes.len() <= usize::MAX
        ensures new.models(iv, m + bytes)
    {
        let k = m.len() - m.len() % @B@;
        let all = self.blockwise.data() + bytes; let n = all.len() - all.len() % @B@;
        let mm = m + bytes;
        let kk = mm.len() - mm.len() % @B@;
        let a = m.len() as int; let b = bytes.len() as int;
        assert(all.len() == a % @B@ + b);
        assert(kk == k + n && kk % @B@ == 0 && k % @B@ == 0 && n % @B@ == 0 && 0 <= k <= kk && kk / @B@ == a / @B@ + n / @B@) by (nonlinear_arith)
            requires k == a - a % @B@, n == (a % @B@ + b) - (a % @B@ + b) % @B@, kk == (a + b) - (a + b) % @B@, a >= 0, b >= 0;
        assert(mm.len() / @B@ == kk / @B@) by (nonlinear_arith) requires kk == mm.len() - mm.len() % @B@;
        assert(mm.take(kk) =~= m.take(k) + all.take(n));
        assert(mm.skip(kk) =~= all.skip(n));
        lemma_blocks@W@(iv, m.take(k), all.take(n));
    }

//@fn graviola/src/mid/sha2.rs :: impl @NM@ :: new
//@ ret r
//@ spec
    ensures r.models(iv@W@(), Seq::empty())
//@ tail
    proof { assert(Seq::<u8>::empty().take(0) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty().skip(0) =~= Seq::<u8>::empty());
        assert([0u8; @B@]@.take(0) =~= Seq::<u8>::empty()); }
//@end
//@fn graviola/src/mid/sha2.rs :: impl @NM@ :: update_blocks
//@ spec
    requires blocks@.len() % @B@ == 0
    ensures final(self).h@ == blocks@W@(old(self).h@, blocks@), final(self).blockwise == old(self).blockwise,
        final(self).nblocks == (if old(self).nblocks + blocks@.len() / @B@ > usize::MAX { usize::MAX as int } else { old(self).nblocks + blocks@.len() / @B@ }),
//@end
//@fn graviola/src/mid/sha2.rs :: impl @NM@ :: update
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), old(self).step(*final(self), bytes@),
//@ begin
    let ghost b0 = bytes@;
    let ghost all = self.blockwise.data() + b0;
    let ghost n = all.len() - all.len() % @B@;
    proof { 
        if self.blockwise.used == 0 { assert(all =~= b0); if b0.len() % @B@ == 0 { assert(all.take(n) =~= b0); assert(all.skip(n) =~= self.blockwise.data()); } }
    }
//@ after let bytes
    let ghost rest = bytes@;
    proof { lemma_and_mask(bytes.len()); }
    let ghost first = if self.blockwise.used == @B@ { self.blockwise.data() } else { Seq::empty() };
//@ end
    proof {
        let w = rest.take(rest.len() - rest.len() % @B@);
        if old(self).blockwise.used > 0 && first.len() == 0 {
            assert(n == 0); assert(rest.len() == 0); assert(all.take(0) =~= Seq::<u8>::empty()); assert(all.skip(0) =~= all);
        }
        assert(all.take(n) =~= first + w);
        lemma_blocks@W@(old(self).h@, first, w);
        assert(self.blockwise.data() =~= all.skip(n));
    }
//@end
//@fn graviola/src/mid/sha2.rs :: impl @NM@ :: finish
//@ ret r
//@ spec
    requires self.wf(),
        // the documented refusal of over-long messages
        self.nblocks * @B@ + self.blockwise.used <= usize::MAX, 8 * (self.nblocks * @B@ + self.blockwise.used) <= @LMAX@
    ensures forall|iv: Seq<@T@>, m: Seq<u8>| #[trigger] self.models(iv, m) ==> r@ == @WS@(blocks@W@(iv, pad(m, @B@, @L@)))
//@ sub \.and_then\(\|bytes\|\s*([^)]*\(\))\)\) => .and_then(|bytes: usize| -> (o: Option<usize>) ensures o == (if bytes + this.blockwise.used > usize::MAX { None } else { Some((bytes + this.blockwise.used) as usize) }) { \1) })
//@ loop 1
    invariant r@.len() == @O@, forall|i: int| 0 <= i < @K@ * vi1 ==> r@[i] == #[trigger] @WS@(this.h@)[i]
//@ lbegin 1
    proof { lemma_be_len(this.h@[vi1 as int] as nat, @K@); }
//@ tail
    proof {
        let hf = this.h@;
        assert(r@ =~= @WS@(hf));
        assert forall|iv: Seq<@T@>, m: Seq<u8>| #[trigger] self.models(iv, m) implies hf == blocks@W@(iv, pad(m, @B@, @L@)) by {
            let k = m.len() - m.len() % @B@;
            let p = pad(m, @B@, @L@);
            assert(self.blockwise.used == m.len() % @B@);
            assert(self.nblocks * @B@ + self.blockwise.used == m.len());
            lemma_be_len(8 * m.len(), @L@);
            assert(p =~= m.take(k) + tailb);
            lemma_blocks@W@(iv, m.take(k), tailb);
        }
    }
//@ after let last_blocks
    let ghost tailb = last_blocks.bytes();
//@end
}
