// the object identifiers of RFC 5480, 8017, 5754, 8410 (DER contents octets)
verus! {
pub open spec fn der_id_ecPublicKey() -> Seq<u8> { seq![0x2au8, 0x86u8, 0x48u8, 0xceu8, 0x3du8, 0x02u8, 0x01u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_ecPublicKey
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![1usize, 2usize, 840usize, 10045usize, 2usize, 1usize]); reveal_with_fuel(arcs, 6); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(4) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(10045)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(2)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(1)); assert(oid_enc(vp@) =~= der_id_ecPublicKey()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_ecPublicKey()
//@end
pub open spec fn der_id_prime256v1() -> Seq<u8> { seq![0x2au8, 0x86u8, 0x48u8, 0xceu8, 0x3du8, 0x03u8, 0x01u8, 0x07u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_prime256v1
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![1usize, 2usize, 840usize, 10045usize, 3usize, 1usize, 7usize]); reveal_with_fuel(arcs, 7); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(5).drop_last() =~= p2.take(4)); assert(p2.take(5) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(10045)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(3)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(1)); assert(arcs(p2.take(5)) =~= arcs(p2.take(4)) + b128(7)); assert(oid_enc(vp@) =~= der_id_prime256v1()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_prime256v1()
//@end
pub open spec fn der_secp384r1() -> Seq<u8> { seq![0x2bu8, 0x81u8, 0x04u8, 0x00u8, 0x22u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static secp384r1
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![1usize, 3usize, 132usize, 0usize, 34usize]); reveal_with_fuel(arcs, 5); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(3) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(132)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(0)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(34)); assert(oid_enc(vp@) =~= der_secp384r1()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_secp384r1()
//@end
pub open spec fn der_rsaEncryption() -> Seq<u8> { seq![0x2au8, 0x86u8, 0x48u8, 0x86u8, 0xf7u8, 0x0du8, 0x01u8, 0x01u8, 0x01u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static rsaEncryption
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![1usize, 2usize, 840usize, 113549usize, 1usize, 1usize, 1usize]); reveal_with_fuel(arcs, 7); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(5).drop_last() =~= p2.take(4)); assert(p2.take(5) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(113549)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(1)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(1)); assert(arcs(p2.take(5)) =~= arcs(p2.take(4)) + b128(1)); assert(oid_enc(vp@) =~= der_rsaEncryption()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_rsaEncryption()
//@end
pub open spec fn der_id_sha256() -> Seq<u8> { seq![0x60u8, 0x86u8, 0x48u8, 0x01u8, 0x65u8, 0x03u8, 0x04u8, 0x02u8, 0x01u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_sha256
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![2usize, 16usize, 840usize, 1usize, 101usize, 3usize, 4usize, 2usize, 1usize]); reveal_with_fuel(arcs, 9); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(5).drop_last() =~= p2.take(4)); assert(p2.take(6).drop_last() =~= p2.take(5)); assert(p2.take(7).drop_last() =~= p2.take(6)); assert(p2.take(7) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(1)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(101)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(3)); assert(arcs(p2.take(5)) =~= arcs(p2.take(4)) + b128(4)); assert(arcs(p2.take(6)) =~= arcs(p2.take(5)) + b128(2)); assert(arcs(p2.take(7)) =~= arcs(p2.take(6)) + b128(1)); assert(oid_enc(vp@) =~= der_id_sha256()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_sha256()
//@end
pub open spec fn der_id_sha384() -> Seq<u8> { seq![0x60u8, 0x86u8, 0x48u8, 0x01u8, 0x65u8, 0x03u8, 0x04u8, 0x02u8, 0x02u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_sha384
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![2usize, 16usize, 840usize, 1usize, 101usize, 3usize, 4usize, 2usize, 2usize]); reveal_with_fuel(arcs, 9); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(5).drop_last() =~= p2.take(4)); assert(p2.take(6).drop_last() =~= p2.take(5)); assert(p2.take(7).drop_last() =~= p2.take(6)); assert(p2.take(7) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(1)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(101)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(3)); assert(arcs(p2.take(5)) =~= arcs(p2.take(4)) + b128(4)); assert(arcs(p2.take(6)) =~= arcs(p2.take(5)) + b128(2)); assert(arcs(p2.take(7)) =~= arcs(p2.take(6)) + b128(2)); assert(oid_enc(vp@) =~= der_id_sha384()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_sha384()
//@end
pub open spec fn der_id_sha512() -> Seq<u8> { seq![0x60u8, 0x86u8, 0x48u8, 0x01u8, 0x65u8, 0x03u8, 0x04u8, 0x02u8, 0x03u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_sha512
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![2usize, 16usize, 840usize, 1usize, 101usize, 3usize, 4usize, 2usize, 3usize]); reveal_with_fuel(arcs, 9); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(3).drop_last() =~= p2.take(2)); assert(p2.take(4).drop_last() =~= p2.take(3)); assert(p2.take(5).drop_last() =~= p2.take(4)); assert(p2.take(6).drop_last() =~= p2.take(5)); assert(p2.take(7).drop_last() =~= p2.take(6)); assert(p2.take(7) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(840)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(1)); assert(arcs(p2.take(3)) =~= arcs(p2.take(2)) + b128(101)); assert(arcs(p2.take(4)) =~= arcs(p2.take(3)) + b128(3)); assert(arcs(p2.take(5)) =~= arcs(p2.take(4)) + b128(4)); assert(arcs(p2.take(6)) =~= arcs(p2.take(5)) + b128(2)); assert(arcs(p2.take(7)) =~= arcs(p2.take(6)) + b128(3)); assert(oid_enc(vp@) =~= der_id_sha512()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_sha512()
//@end
pub open spec fn der_id_ed25519() -> Seq<u8> { seq![0x2bu8, 0x65u8, 0x70u8] }
//@constfn @expanded:graviola/high/asn1/oid :: - :: static id_ed25519
//@ sub ^ObjectId::from_path\(&(\[.*\])\)$ => { let vp = \1; proof { assert(vp@ =~= seq![1usize, 3usize, 101usize, 112usize]); reveal_with_fuel(arcs, 4); reveal_with_fuel(b128_hi, 4); let p2 = vp@.skip(2); assert(p2.take(1).drop_last() =~= p2.take(0)); assert(p2.take(2).drop_last() =~= p2.take(1)); assert(p2.take(2) =~= p2); assert(p2.take(0) =~= Seq::empty()); assert(arcs(p2.take(1)) =~= arcs(p2.take(0)) + b128(101)); assert(arcs(p2.take(2)) =~= arcs(p2.take(1)) + b128(112)); assert(oid_enc(vp@) =~= der_id_ed25519()); } ObjectId::from_path(&vp) }
//@ spec
    ensures r.inv(), r.b() == der_id_ed25519()
//@end
}
