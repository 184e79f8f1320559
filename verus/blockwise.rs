//@item graviola/src/low/generic/blockwise.rs :: struct Blockwise
//@item graviola/src/low/generic/blockwise.rs :: enum FinalBlocks
impl<const N: usize> Blockwise<N> {
    pub open spec fn data(self) -> Seq<u8> { self.buffer@.take(self.used as int) }
    pub open spec fn wf(self) -> bool { self.used <= N && N > 0 }

//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: new
//@ ret r
//@ spec
    ensures r.used == 0
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: used
//@ ret r
//@ spec
    ensures r == self.used
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: add_leading
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        // nothing is lost, reordered or duplicated; the buffer takes only what fits
        old(self).used == 0 ==> r@ == bytes@ && *final(self) == *old(self),
        old(self).used > 0 ==> {
            let n = if old(self).used + bytes@.len() < N { old(self).used + bytes@.len() } else { N as int };
            let all = old(self).data() + bytes@;
            &&& final(self).data() == all.take(n) &&& r@ == all.skip(n) &&& final(self).used == n
        },
//@ tail
    proof {
        assert(final(self).data() + returned@ =~= old(self).data() + bytes@) by {
            assert(bytes@ =~= taken@ + returned@);
            assert(final(self).buffer@.take(old(self).used as int) =~= old(self).data());
        }
        let all = old(self).data() + bytes@;
        assert(final(self).data() =~= all.take(final(self).used as int));
        assert(returned@ =~= all.skip(final(self).used as int));
    }
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: take
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        old(self).used == N ==> r.is_some() && r.unwrap()@ == old(self).data() && final(self).used == 0,
        old(self).used != N ==> r.is_none() && *final(self) == *old(self),
//@ begin
    proof { if self.used == N { assert(self.buffer@.take(N as int) =~= self.buffer@); } }
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: peek_remaining
//@ ret r
//@ spec
    requires self.wf()
    ensures self.used == 0 ==> r.is_none(),
        self.used > 0 ==> r.is_some() && r.unwrap()@ == self.data(),
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: add_trailing
//@ spec
    requires old(self).wf(), trailing@.len() <= N, old(self).used == 0 || trailing@.len() == 0
    ensures final(self).wf(), final(self).data() == old(self).data() + trailing@
//@ end
    proof { assert(final(self).data() =~= old(self).data() + trailing@); }
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: add
//@ spec
    requires old(self).wf(), old(self).used + bytes@.len() <= N
    ensures final(self).wf(), final(self).data() == old(self).data() + bytes@
//@end
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> Blockwise<N> :: md_pad_with_length
//@ ret r
//@ spec
    requires old(self).wf(), old(self).used < N, 1 <= length_bits@.len() < N
    ensures
        r.bytes() == old(self).data() + seq![0x80u8]
            + Seq::new(((2 * N - 1 - length_bits@.len() - old(self).used) as nat % N as nat), |i: int| 0u8) + length_bits@,
        r.bytes().len() % N as nat == 0,
//@ after self.add_leading\(&\[0x80
    proof { assert(self.data() =~= old(self).data() + seq![0x80u8]); }
    let ghost d1 = self.data();
//@ before let first
    let ghost d2 = self.data();
    proof { assert(self.used == N); assert(d2.len() == N); assert forall|i: int| d1.len() <= i < N implies d2[i] == 0u8 by { assert(d2[i] == (d1 + [0u8; N]@.skip(0))[i]); } 
      assert(d2.take(d1.len() as int) =~= d1); }
//@ before FinalBlocks::Two
    proof {
        let d = old(self).data(); let z = (2 * N - 1 - length_bits@.len() - old(self).used) as nat;
        assert(z % N as nat == z) by { lemma_small_mod(z, N as nat); }
        let want = d + seq![0x80u8] + Seq::new(z, |i: int| 0u8) + length_bits@;
        assert(want.len() == 2 * N);
        let got = first@ + second@;
        assert forall|i: int| 0 <= i < 2 * N implies got[i] == want[i] by {
            if i < d.len() {} else if i == d.len() {} else if i < N {} else if i < 2 * N - length_bits@.len() {} else {}
        }
        assert(got =~= want);
        assert((2 * N) as nat % N as nat == 0) by { lemma_mod_multiples_basic(2, N as int); }
    }
//@ before FinalBlocks::One
    proof {
        let d = old(self).data(); let z = (2 * N - 1 - length_bits@.len() - old(self).used) as nat;
        assert(z % N as nat == (z - N) as nat) by { lemma_mod_add_multiples_vanish((z - N) as int, N as int); lemma_small_mod((z - N) as nat, N as nat); }
        let want = d + seq![0x80u8] + Seq::new((z - N) as nat, |i: int| 0u8) + length_bits@;
        assert(want.len() == N);
        assert forall|i: int| 0 <= i < N implies self.buffer@[i] == want[i] by {
            if i < d.len() {} else if i == d.len() {} else if i < N - length_bits@.len() {} else {}
        }
        assert(self.buffer@ =~= want);
        assert(N as nat % N as nat == 0) by { lemma_mod_self_0(N as int); }
    }
//@end
}
impl<const N: usize> FinalBlocks<N> {
    pub open spec fn bytes(self) -> Seq<u8> {
        match self { FinalBlocks::One(a) => a@, FinalBlocks::Two(b) => b@[0]@ + b@[1]@ }
    }
}
