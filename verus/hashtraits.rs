//@item graviola/src/high/hash.rs :: enum HashOutput
//@ sub sha2::Sha(\d+)Context::OUTPUT_SZ => \1 / 8
//@end
impl HashOutput {
    pub open spec fn bytes(self) -> Seq<u8> { match self { HashOutput::Sha256(v) => v@, HashOutput::Sha384(v) => v@, HashOutput::Sha512(v) => v@ } }
//@fn graviola/src/high/hash.rs :: impl AsRef<[u8]> for HashOutput :: as_ref
//@ ret r
//@ spec
    ensures r@ == self.bytes()
//@end
//@fn graviola/src/high/hash.rs :: impl AsMut<[u8]> for HashOutput :: as_mut
//@ ret r
//@ spec
    ensures r@ == old(self).bytes(), final(r)@ == final(self).bytes()
//@end
//@fn graviola/src/high/hash.rs :: impl HashOutput :: ct_equal
//@ ret r
//@ spec
    ensures r == (self.bytes() == other@)
//@end
//@fn graviola/src/high/hash.rs :: impl HashOutput :: truncated_ct_equal
//@ ret r
//@ sub assert_ne!\(L, 0\); => assert(L != 0);
//@ sub assert!\(L <= self\.as_ref\(\)\.len\(\)\); => let vlen = self.as_ref().len(); assert(L <= vlen);
//@ spec
    requires 0 < L <= self.bytes().len()
    ensures r == (self.bytes().take(L as int) == other@)
//@end
}
//@item graviola/src/high/hash.rs :: struct HashBlock
impl HashBlock {
    pub open spec fn wf(self) -> bool { self.len <= 128 }
    pub open spec fn bytes(self) -> Seq<u8> { self.buf@.take(self.len as int) }
//@fn graviola/src/high/hash.rs :: impl HashBlock :: new
//@ ret r
//@ spec
    requires len <= 128
    ensures r.wf(), r.len == len, r.bytes() =~= Seq::new(len as nat, |i: int| 0u8)
//@end
//@fn graviola/src/high/hash.rs :: impl Deref for HashBlock :: deref
//@ ret r
//@ sub sig &Self::Target => &[u8]
//@ spec
    requires self.wf()
    ensures r@ == self.bytes()
//@end
//@fn graviola/src/high/hash.rs :: impl DerefMut for HashBlock :: deref_mut
//@ ret r
//@ sub sig &mut Self::Target => &mut [u8]
//@ spec
    requires old(self).wf()
    ensures r@ == old(self).bytes(), final(self).wf(), final(self).len == old(self).len, final(r)@.len() == r@.len() ==> final(self).bytes() == final(r)@
//@end
}
// C05/C06: what every user of a hash may rely on
pub trait Hash: Sized {
    type Context: HashContext;
    spec fn spec_block_len() -> nat;
    spec fn spec_out_len() -> nat;
    spec fn spec_hash(m: Seq<u8>) -> Seq<u8>;
    proof fn lemma_sizes(m: Seq<u8>)
        ensures 0 < Self::spec_out_len() <= Self::spec_block_len() <= 128, Self::spec_out_len() <= 64, Self::spec_hash(m).len() == Self::spec_out_len(),
            Self::Context::spec_digest(m) == Self::spec_hash(m);
//@fn graviola/src/high/hash.rs :: trait Hash :: new
//@ vis none
//@ ret r
//@ spec
    ensures r.models(Seq::empty())
//@end
//@fn graviola/src/high/hash.rs :: trait Hash :: hash
//@ vis none
//@ ret r
//@ spec
    requires bytes@.len() < 0x1000_0000_0000_0000
    ensures r.bytes() == Self::spec_hash(bytes@)
//@end
//@fn graviola/src/high/hash.rs :: trait Hash :: zeroed_block
//@ vis none
//@ ret r
//@ spec
    ensures r.wf(), r.bytes() =~= Seq::new(Self::spec_block_len(), |i: int| 0u8)
//@end
//@fn graviola/src/high/hash.rs :: trait Hash :: zeroed_output
//@ vis none
//@ ret r
//@ spec
    ensures r.bytes() =~= Seq::new(Self::spec_out_len(), |i: int| 0u8)
//@end
}
pub trait HashContext: Sized {
    spec fn spec_digest(m: Seq<u8>) -> Seq<u8>;
    spec fn models(self, m: Seq<u8>) -> bool;
    spec fn wf(self) -> bool;
//@fn graviola/src/high/hash.rs :: trait HashContext :: update
//@ vis none
//@ spec
    requires exists|m: Seq<u8>| #[trigger] old(self).models(m)
    ensures forall|m: Seq<u8>| #[trigger] old(self).models(m) && m.len() + bytes@.len() <= usize::MAX ==> final(self).models(m + bytes@)
//@end
//@fn graviola/src/high/hash.rs :: trait HashContext :: finish
//@ vis none
//@ ret r
//@ spec
    requires exists|m: Seq<u8>| #[trigger] self.models(m) && m.len() < 0x2000_0000_0000_0000
    ensures forall|m: Seq<u8>| #[trigger] self.models(m) ==> r.bytes() == Self::spec_digest(m)
//@end
}
