// C14 C28: X25519 keys, public keys and shared secrets as byte strings
verus! {
//@item graviola/src/mid/x25519.rs :: struct PrivateKey
//@item graviola/src/mid/x25519.rs :: struct StaticPrivateKey
//@item graviola/src/mid/x25519.rs :: struct PublicKey
//@item graviola/src/mid/x25519.rs :: struct SharedSecret
//@item graviola/src/mid/x25519.rs :: const ZERO
//@ sub const ZERO: \[u64; 4\] = \[0; 4\]; => exec const ZERO: [u64; 4] ensures val(ZERO@) == 0 { let r = [0u64; 4]; proof { lemma_val_zeros(r@); } r }
//@end
impl PrivateKey {
//@const graviola/src/mid/x25519.rs :: impl PrivateKey :: BYTES
//@fn graviola/src/mid/x25519.rs :: impl PrivateKey :: new_random
//@ ret r
//@ spec
    ensures r.is_ok() ==> exists|b: Seq<u8>| b.len() == 32 && #[trigger] os_random(b) && val(r.unwrap().0@) == le_val(b)
//@ sub \[0u8; Self::BYTES\] => [0u8; 32]
//@end
//@fn graviola/src/mid/x25519.rs :: impl PrivateKey :: public_key
//@ ret r
//@ spec
    ensures val(r.0@) == x25519(val(self.0@), 9)
//@end
//@fn graviola/src/mid/x25519.rs :: impl PrivateKey :: diffie_hellman
//@ ret r
//@ spec
    ensures r.is_ok() == (x25519(val(self.0@), val(peer.0@)) != 0), r.is_ok() ==> le_val(r.unwrap().0@) == x25519(val(self.0@), val(peer.0@))
//@end
}
impl StaticPrivateKey {
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: try_from_slice
//@ ret r
//@ spec
    ensures r.is_ok() == (b@.len() == 32), r.is_ok() ==> val(r.unwrap().0.0@) == le_val(b@)
//@ sub util::little_endian_slice_to_u64x4\(b\)\s*\.map\(\|words\| Self\(PrivateKey\(words\)\)\)\s*\.ok_or\(Error::WrongLength\) => match util::little_endian_slice_to_u64x4(b) { Some(words) => Ok(Self(PrivateKey(words))), None => Err(Error::WrongLength) }
//@end
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: from_array
//@ ret r
//@ spec
    ensures val(r.0.0@) == le_val(b@)
//@ sub sig Self::BYTES => 32
//@end
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: as_bytes
//@ ret r
//@ spec
    ensures le_val(r@) == val(self.0.0@)
//@ sub sig Self::BYTES => 32
//@end
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: new_random
//@ ret r
//@ spec
    ensures r.is_ok() ==> exists|b: Seq<u8>| b.len() == 32 && #[trigger] os_random(b) && val(r.unwrap().0.0@) == le_val(b)
//@ sub \.map\(Self\) => .map(|k| -> (z: Self) ensures z.0 == k { Self(k) })
//@end
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: public_key
//@ ret r
//@ spec
    ensures val(r.0@) == x25519(val(self.0.0@), 9)
//@end
//@fn graviola/src/mid/x25519.rs :: impl StaticPrivateKey :: diffie_hellman
//@ ret r
//@ spec
    ensures r.is_ok() == (x25519(val(self.0.0@), val(peer.0@)) != 0), r.is_ok() ==> le_val(r.unwrap().0@) == x25519(val(self.0.0@), val(peer.0@))
//@end
}
impl PublicKey {
//@fn graviola/src/mid/x25519.rs :: impl PublicKey :: try_from_slice
//@ ret r
//@ spec
    ensures r.is_ok() == (b@.len() == 32), r.is_ok() ==> val(r.unwrap().0@) == le_val(b@)
//@ sub util::little_endian_slice_to_u64x4\(b\)\s*\.map\(Self\)\s*\.ok_or\(Error::WrongLength\) => match util::little_endian_slice_to_u64x4(b) { Some(words) => Ok(Self(words)), None => Err(Error::WrongLength) }
//@end
//@fn graviola/src/mid/x25519.rs :: impl PublicKey :: from_array
//@ ret r
//@ spec
    ensures val(r.0@) == le_val(b@)
//@ sub sig Self::BYTES => 32
//@end
//@fn graviola/src/mid/x25519.rs :: impl PublicKey :: as_bytes
//@ ret r
//@ spec
    ensures le_val(r@) == val(self.0@)
//@ sub sig Self::BYTES => 32
//@end
}
impl SharedSecret {
//@fn graviola/src/mid/x25519.rs :: impl SharedSecret :: as_bytes
//@ ret r
//@ spec
    ensures r@ == self.0@
//@end
}
}
