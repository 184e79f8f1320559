// C04, C06: SHA-2 streaming, padding and output encoding against FIPS 180-4, the compression function left abstract.
use vstd::prelude::*;
//@use std.rs
verus! {
broadcast use vstd::seq_lib::group_seq_properties;

// ------------------------------------------------------------ FIPS 180-4 (parametric in the compression function)
pub uninterp spec fn compress_raw256(h: Seq<u32>, block: Seq<u8>) -> [u32; 8];
pub open spec fn compress256(h: Seq<u32>, block: Seq<u8>) -> Seq<u32> { compress_raw256(h, block)@ }
pub uninterp spec fn compress_raw512(h: Seq<u64>, block: Seq<u8>) -> [u64; 8];
pub open spec fn compress512(h: Seq<u64>, block: Seq<u8>) -> Seq<u64> { compress_raw512(h, block)@ }

pub open spec fn blocks256(h: Seq<u32>, m: Seq<u8>) -> Seq<u32> decreases m.len()
    { if m.len() < 64 { h } else { compress256(blocks256(h, m.take(m.len() - 64)), m.skip(m.len() - 64)) } }
pub open spec fn blocks512(h: Seq<u64>, m: Seq<u8>) -> Seq<u64> decreases m.len()
    { if m.len() < 128 { h } else { compress512(blocks512(h, m.take(m.len() - 128)), m.skip(m.len() - 128)) } }

// one 1 bit, the fewest 0 bits that leave room for the length, the length in bits
pub open spec fn pad(m: Seq<u8>, n: nat, lenlen: nat) -> Seq<u8> {
    let k = (2 * n - 1 - lenlen - (m.len() % n)) as nat % n;
    m + seq![0x80u8] + Seq::new(k, |i: int| 0u8) + be(8 * m.len(), lenlen)
}
pub open spec fn words32(h: Seq<u32>) -> Seq<u8> { Seq::new(4 * h.len(), |i: int| be(h[i / 4] as nat, 4)[i % 4]) }
pub open spec fn words64(h: Seq<u64>) -> Seq<u8> { Seq::new(8 * h.len(), |i: int| be(h[i / 8] as nat, 8)[i % 8]) }
pub open spec fn iv256() -> Seq<u32> { seq![0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19] }
pub open spec fn iv384() -> Seq<u64> { seq![0xcbbb9d5dc1059ed8u64, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4] }
pub open spec fn iv512() -> Seq<u64> { seq![0x6a09e667f3bcc908u64, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179] }
pub open spec fn sha256(m: Seq<u8>) -> Seq<u8> { words32(blocks256(iv256(), pad(m, 64, 8))) }
pub open spec fn sha384(m: Seq<u8>) -> Seq<u8> { words64(blocks512(iv384(), pad(m, 128, 16))).take(48) }
pub open spec fn sha512(m: Seq<u8>) -> Seq<u8> { words64(blocks512(iv512(), pad(m, 128, 16))) }

//@use blockwise.rs

pub proof fn lemma_blocks256(h: Seq<u32>, a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 64 == 0, b.len() % 64 == 0
    ensures blocks256(h, a + b) == blocks256(blocks256(h, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let m = a + b;
        assert(b.len() >= 64);
        assert(m.take(m.len() - 64) =~= a + b.take(b.len() - 64));
        assert(m.skip(m.len() - 64) =~= b.skip(b.len() - 64));
        lemma_blocks256(h, a, b.take(b.len() - 64));
    }
}
pub proof fn lemma_blocks512(h: Seq<u64>, a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 128 == 0, b.len() % 128 == 0
    ensures blocks512(h, a + b) == blocks512(blocks512(h, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let m = a + b;
        assert(b.len() >= 128);
        assert(m.take(m.len() - 128) =~= a + b.take(b.len() - 128));
        assert(m.skip(m.len() - 128) =~= b.skip(b.len() - 128));
        lemma_blocks512(h, a, b.take(b.len() - 128));
    }
}

} // verus!
pub mod low { use super::*; verus! {
    // leaf: SHA-NI intrinsics or the portable rounds (C04 leaf checks); abstract here
    #[verifier::external_body]
    pub fn sha256_compress_blocks(state: &mut [u32; 8], blocks: &[u8])
        requires blocks@.len() % 64 == 0
        ensures final(state)@ == blocks256(old(state)@, blocks@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sha512_compress_blocks(state: &mut [u64; 8], blocks: &[u8])
        requires blocks@.len() % 128 == 0
        ensures final(state)@ == blocks512(old(state)@, blocks@)
    { unimplemented!() }
} }
verus! {
impl<const N: usize> FinalBlocks<N> {
//@fn graviola/src/low/generic/blockwise.rs :: impl<const N: usize> AsRef<[u8]> for FinalBlocks<N> :: as_ref
//@ ret r
//@ spec
    ensures r@ == self.bytes()
//@ before match self
    proof { match self { FinalBlocks::Two(b) => lemma_flat2(b@), _ => {} } }
//@end
}
pub assume_specification<T, const N: usize> [<[[T; N]]>::as_flattened] (s: &[[T; N]]) -> (r: &[T])
    ensures r@ == flat(s@);
pub open spec fn flat<T, const N: usize>(s: Seq<[T; N]>) -> Seq<T> decreases s.len()
    { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ } }

// a one-element array of blocks flattens to its block; two to the concatenation
pub proof fn lemma_flat2<const N: usize>(s: Seq<[u8; N]>) requires s.len() == 2 ensures flat(s) == s[0]@ + s[1]@
    { reveal_with_fuel(flat, 3); assert(s.drop_last().drop_last().len() == 0); assert(flat(s.drop_last()) =~= s[0]@); }
pub proof fn lemma_and_mask(x: usize) ensures x & 63 == x % 64, x & 127 == x % 128
    { assert(x & 63 == x % 64 && x & 127 == x % 128) by (bit_vector); }
//@use sha2_ctx.rs NM=Sha256Context W=256 T=u32 B=64 L=8 O=32 WS=words32 K=4 LMAX=0xffff_ffff_ffff_ffff
//@use sha2_ctx.rs NM=Sha512Context W=512 T=u64 B=128 L=16 O=64 WS=words64 K=8 LMAX=0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff

// ------------------------------------------------------------ SHA-384 and the generic hash interface
//@item graviola/src/mid/sha2.rs :: struct Sha384Context
impl Sha384Context {
//@const graviola/src/mid/sha2.rs :: impl Sha384Context :: OUTPUT_SZ
//@fn graviola/src/mid/sha2.rs :: impl Sha384Context :: new
//@ ret r
//@ spec
    ensures r.inner.models(iv384(), Seq::empty())
//@ tail
    proof { assert(Seq::<u8>::empty().take(0) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty().skip(0) =~= Seq::<u8>::empty());
        assert([0u8; 128]@.take(0) =~= Seq::<u8>::empty()); }
//@end
//@fn graviola/src/mid/sha2.rs :: impl Sha384Context :: update
//@ spec
    requires old(self).inner.wf()
    ensures final(self).inner.wf(), old(self).inner.step(final(self).inner, bytes@)
//@end
//@fn graviola/src/mid/sha2.rs :: impl Sha384Context :: finish
//@ ret r
//@ spec
    requires self.inner.wf(), self.inner.nblocks * 128 + self.inner.blockwise.used <= usize::MAX
    ensures forall|iv: Seq<u64>, m: Seq<u8>| #[trigger] self.inner.models(iv, m) ==> r@ == words64(blocks512(iv, pad(m, 128, 16))).take(48)
//@end
}
pub proof fn lemma_blocks_len256(h: Seq<u32>, m: Seq<u8>) requires h.len() == 8 ensures blocks256(h, m).len() == 8 decreases m.len()
    { let n: int = 64; if m.len() >= n { lemma_blocks_len256(h, m.take(m.len() - n)); } }
pub proof fn lemma_blocks_len512(h: Seq<u64>, m: Seq<u8>) requires h.len() == 8 ensures blocks512(h, m).len() == 8 decreases m.len()
    { let n: int = 128; if m.len() >= n { lemma_blocks_len512(h, m.take(m.len() - n)); } }
pub mod sha2 { pub use super::{Sha256Context, Sha384Context, Sha512Context}; }
//@use hashtraits.rs
// C05 leaf: proved in unit ct_equal
#[verifier::external_body]
pub fn ct_equal(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
} // verus!
pub mod wrap { use super::*; verus! {
//@use hash_wrap.rs A=256 W=256 T=u32 C=self.0 P=.0 B=64 LB=64 L=8 OL=32 H=sha256 IV=iv256 MX=0x2000_0000_0000_0000
//@use hash_wrap.rs A=384 W=512 T=u64 C=self.0.inner P=.0.inner B=128 LB=128 L=16 OL=48 H=sha384 IV=iv384 MX=0x2000_0000_0000_0000
//@use hash_wrap.rs A=512 W=512 T=u64 C=self.0 P=.0 B=128 LB=128 L=16 OL=64 H=sha512 IV=iv512 MX=0x2000_0000_0000_0000
} }
fn main(){}
