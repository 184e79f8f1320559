// RFC 2104
pub open spec fn key0<H: Hash>(key: Seq<u8>) -> Seq<u8> {
    let k = if key.len() > H::spec_block_len() { H::spec_hash(key) } else { key };
    k + Seq::new((H::spec_block_len() - k.len()) as nat, |i: int| 0u8)
}
pub open spec fn xorpad(k: Seq<u8>, x: u8) -> Seq<u8> { Seq::new(k.len(), |i: int| k[i] ^ x) }
pub open spec fn hmac<H: Hash>(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    H::spec_hash(xorpad(key0::<H>(key), 0x5c) + H::spec_hash(xorpad(key0::<H>(key), 0x36) + m))
}
pub proof fn lemma_xor(a: u8) ensures a ^ 0x36 ^ (0x5cu8 ^ 0x36u8) == a ^ 0x5c { assert(a ^ 0x36 ^ (0x5cu8 ^ 0x36u8) == a ^ 0x5c) by (bit_vector); }

//@item graviola/src/high/hmac.rs :: struct Hmac
impl<H: Hash> Hmac<H> {
    pub open spec fn models(self, key: Seq<u8>, m: Seq<u8>) -> bool {
        &&& self.inner.models(xorpad(key0::<H>(key), 0x36) + m)
        &&& self.outer.models(xorpad(key0::<H>(key), 0x5c))
    }
//@fn graviola/src/high/hmac.rs :: impl<H: Hash> Hmac<H> :: new
//@ ret r
//@ spec
    requires key@.len() < 0x1000_0000_0000_0000
    ensures r.models(key@, Seq::empty())
//@ sub sig impl AsRef<\[u8\]> => &[u8]
//@ sub let key = key\.as_ref\(\); => 
//@ sub key_block\.len\(\) => key_block.deref().len()
//@ sub key_block\[ => key_block.deref_mut()[
//@ sub for byte in key_block\.iter_mut\(\) => for byte in key_block.deref_mut().iter_mut()
//@ sub update\(&key_block\) => update(key_block.deref())
//@ begin
    let ghost k = key@;
    proof { H::lemma_sizes(key@); }
//@ loop 1
    invariant vn1 == H::spec_block_len(), key_block.wf(), key_block.bytes().len() == H::spec_block_len(), key_block.len == H::spec_block_len(), 
        forall|i: int| 0 <= i < vi1 ==> key_block.bytes()[i] == k0[i] ^ 0x36, forall|i: int| vi1 <= i < k0.len() ==> key_block.bytes()[i] == k0[i], k0.len() == H::spec_block_len(),
//@ before let mut inner
    proof { assert(key_block.bytes() =~= xorpad(k0, 0x36)); }
    let ghost k1 = key_block.bytes();
//@ before for
    let ghost k0 = key_block.bytes();
    proof { assert(k0 =~= key0::<H>(k)); }
//@ loop 2
    invariant vn2 == H::spec_block_len(), key_block.wf(), key_block.bytes().len() == H::spec_block_len(), key_block.len == H::spec_block_len(), k1.len() == H::spec_block_len(),
        forall|i: int| 0 <= i < vi2 ==> key_block.bytes()[i] == k1[i] ^ (0x5cu8 ^ 0x36u8), forall|i: int| vi2 <= i < k1.len() ==> key_block.bytes()[i] == k1[i],
//@ before let mut outer
    proof { assert forall|i: int| 0 <= i < k0.len() implies key_block.bytes()[i] == k0[i] ^ 0x5c by { lemma_xor(k0[i]); }
        assert(key_block.bytes() =~= xorpad(k0, 0x5c)); }
//@ tail
    proof { assert(Seq::<u8>::empty() + xorpad(k0, 0x36) =~= xorpad(k0, 0x36) + Seq::empty()); assert(Seq::<u8>::empty() + xorpad(k0, 0x5c) =~= xorpad(k0, 0x5c)); }
//@end
//@fn graviola/src/high/hmac.rs :: impl<H: Hash> Hmac<H> :: update
//@ sub sig impl AsRef<\[u8\]> => &[u8]
//@ sub bytes\.as_ref\(\) => bytes
//@ spec
    requires exists|key: Seq<u8>, m: Seq<u8>| #[trigger] old(self).models(key, m)
    ensures forall|key: Seq<u8>, m: Seq<u8>| #[trigger] old(self).models(key, m) && m.len() + bytes@.len() + 128 <= usize::MAX ==> final(self).models(key, m + bytes@)
//@ end
    proof { assert forall|key: Seq<u8>, m: Seq<u8>| #[trigger] old(self).models(key, m) && m.len() + bytes@.len() + 128 <= usize::MAX implies final(self).models(key, m + bytes@) by {
        H::lemma_sizes(key); assert((xorpad(key0::<H>(key), 0x36) + m) + bytes@ =~= xorpad(key0::<H>(key), 0x36) + (m + bytes@)); } }
//@end
//@fn graviola/src/high/hmac.rs :: impl<H: Hash> Hmac<H> :: finish
//@ ret r
//@ spec
    requires exists|key: Seq<u8>, m: Seq<u8>| #[trigger] self.models(key, m) && m.len() < 0x1000_0000_0000_0000
    ensures forall|key: Seq<u8>, m: Seq<u8>| #[trigger] self.models(key, m) ==> r.bytes() == hmac::<H>(key, m)
//@ begin
    proof { 
        let (key, m) = choose|key: Seq<u8>, m: Seq<u8>| #[trigger] self.models(key, m) && m.len() < 0x1000_0000_0000_0000;
        H::lemma_sizes(key); 
        assert(self.inner.models(xorpad(key0::<H>(key), 0x36) + m));
        assert forall|x: Seq<u8>| H::Context::spec_digest(x) == #[trigger] H::spec_hash(x) && H::spec_hash(x).len() <= 64 by { H::lemma_sizes(x); }
        assert forall|x: Seq<u8>| #[trigger] H::Context::spec_digest(x) == H::spec_hash(x) && H::spec_hash(x).len() <= 64 by { H::lemma_sizes(x); }
        assert forall|kk: Seq<u8>| #[trigger] key0::<H>(kk).len() == H::spec_block_len() <= 128 by { H::lemma_sizes(kk); }
    }
//@end
//@fn graviola/src/high/hmac.rs :: impl<H: Hash> Hmac<H> :: verify
//@ ret r
//@ spec
    requires exists|key: Seq<u8>, m: Seq<u8>| #[trigger] self.models(key, m) && m.len() < 0x1000_0000_0000_0000
    ensures forall|key: Seq<u8>, m: Seq<u8>| #[trigger] self.models(key, m) ==> (r.is_ok() <==> expected_tag@ == hmac::<H>(key, m)), r.is_err() ==> r == Err::<(), Error>(Error::BadSignature)
//@end
}
