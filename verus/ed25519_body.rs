// C15 C28: Ed25519 (RFC 8032 5.1) over the curve arithmetic of the assembly
verus! {
pub open spec fn ed_l() -> nat { pow2(252) + 27742317777372353535851937790883648493 }
pub open spec fn ed_p() -> int { pow2(255) - 19 }
pub struct Pt { pub x: nat, pub y: nat }
pub open spec fn pt(w: Seq<u64>) -> Pt { Pt { x: val(w.take(4)), y: val(w.skip(4)) } }
pub open spec fn pt_ok(p: Pt) -> bool { p.x < ed_p() && p.y < ed_p() }
pub uninterp spec fn ed_b() -> Pt;
pub uninterp spec fn ed_mul(k: nat, p: Pt) -> Pt;
pub uninterp spec fn ed_add(p: Pt, q: Pt) -> Pt;
pub uninterp spec fn ed_decode(b: Seq<u8>) -> Option<Pt>;      // RFC 8032 5.1.3
pub open spec fn ed_neg(p: Pt) -> Pt { Pt { x: ((-(p.x as int)) % ed_p()) as nat, y: p.y } }
pub open spec fn ed_enc(p: Pt) -> nat { p.y + (p.x % 2) * pow2(255) }      // 5.1.2, as a number
pub uninterp spec fn sha512(m: Seq<u8>) -> Seq<u8>;
pub open spec fn ed_h(m: Seq<u8>) -> nat { (le_val(sha512(m)) as int % ed_l() as int) as nat }
pub open spec fn clamped(b: Seq<u8>) -> nat { le_val(b.update(0, b[0] & 0xf8).update(31, (b[31] & 0x7f) | 0x40)) }
// proved in unit sha2
pub struct Sha512Context;
impl Sha512Context {
    pub uninterp spec fn models(self, m: Seq<u8>) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.models(Seq::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures forall|m: Seq<u8>| #[trigger] old(self).models(m) && m.len() + b@.len() <= usize::MAX ==> final(self).models(m + b@) { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: [u8; 64]) requires exists|m: Seq<u8>| #[trigger] self.models(m) && m.len() < 0x2000_0000_0000_0000 ensures forall|m: Seq<u8>| #[trigger] self.models(m) ==> r@ == sha512(m) { unimplemented!() }
}
pub mod ed_low { use super::*;
#[verifier::external_body] pub fn edwards25519_scalarmulbase(res: &mut [u64; 8], scalar: &[u64; 4]) ensures pt(final(res)@) == ed_mul(val(scalar@), ed_b()), pt_ok(pt(final(res)@)) { unimplemented!() }
#[verifier::external_body] pub fn edwards25519_scalarmuldouble(res: &mut [u64; 8], scalar: &[u64; 4], point: &[u64; 8], bscalar: &[u64; 4]) requires pt_ok(pt(point@))
    ensures pt(final(res)@) == ed_add(ed_mul(val(scalar@), pt(point@)), ed_mul(val(bscalar@), ed_b())), pt_ok(pt(final(res)@)) { unimplemented!() }
#[verifier::external_body] pub fn edwards25519_decode(z: &mut [u64; 8], c: &[u8; 32]) -> (r: bool) ensures r == ed_decode(c@).is_some(), r ==> pt(final(z)@) == ed_decode(c@).unwrap() && pt_ok(pt(final(z)@)) { unimplemented!() }
#[verifier::external_body] pub fn bignum_neg_p25519(z: &mut [u64; 4], x: &[u64; 4]) requires val(x@) < ed_p() ensures val(final(z)@) == (-(val(x@) as int)) % ed_p() { unimplemented!() }
#[verifier::external_body] pub fn bignum_mod_n25519(z: &mut [u64; 4], x: &[u64; 8]) ensures val(final(z)@) == val(x@) as int % ed_l() as int { unimplemented!() }
#[verifier::external_body] pub fn bignum_madd_n25519(z: &mut [u64; 4], x: &[u64; 4], y: &[u64; 4], c: &[u64; 4]) ensures val(final(z)@) == (val(x@) * val(y@) + val(c@)) as int % ed_l() as int { unimplemented!() }
}
//@item graviola/src/mid/ed25519.rs :: const ORDER
pub proof fn lemma_order() ensures val(ORDER@) == ed_l(), ed_l() > 0
{
    reveal_with_fuel(val, 5); let w = ORDER@; assert(w.skip(1)[0] == w[1] && w.skip(1).skip(1)[0] == w[2] && w.skip(1).skip(1).skip(1)[0] == w[3]); assert(w.skip(1).skip(1).skip(1).skip(1) =~= Seq::empty());
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(60, 64); lemma_pow2_adds(124, 64); lemma_pow2_adds(188, 64);
}
//@item graviola/src/mid/ed25519.rs :: struct SigningKey
//@item graviola/src/mid/ed25519.rs :: struct VerifyingKey
//@item graviola/src/mid/ed25519.rs :: struct CompressedEdwardsY
//@item graviola/src/mid/ed25519.rs :: struct EdwardsPoint
//@item graviola/src/mid/ed25519.rs :: struct UnreducedScalar
//@item graviola/src/mid/ed25519.rs :: struct Scalar
// RFC 8032 5.1.5
pub open spec fn ed_s(seed: Seq<u8>) -> nat { clamped(sha512(seed).take(32)) }
// RFC 8032 5.1.6: (R as a number, S)
pub open spec fn ed_sig(s: nat, prefix: Seq<u8>, a: Seq<u8>, m: Seq<u8>, rb: Seq<u8>) -> (nat, nat) {
    let r = ed_h(prefix + m); (ed_enc(ed_mul(r, ed_b())), ((ed_h(rb + a + m) * s + r) as int % ed_l() as int) as nat)
}
impl SigningKey {
    pub open spec fn wf(self) -> bool {
        sha512(self.seed@).len() == 64 && val(self.s.0@) == ed_s(self.seed@) && self.prefix@ == sha512(self.seed@).skip(32) && self.verifying_key.wf()
        && pt(self.verifying_key.point.0@) == ed_mul(ed_s(self.seed@), ed_b()) && le_val(self.verifying_key.bytes@) == ed_enc(pt(self.verifying_key.point.0@))
    }
//@fn graviola/src/mid/ed25519.rs :: impl SigningKey :: from_seed
//@ ret r
//@ spec
    ensures r.wf(), r.seed@ == seed@
//@ sub h\[0\.\.32\] => (&h[0..32])
//@ sub h\[32\.\.64\] => (&h[32..64])
//@ sub ctx\.update\(seed\) => ctx.update(seed); proof { assert(Seq::<u8>::empty() + seed@ =~= seed@); }
//@ before let s = Unred
    proof { assert(s@ =~= sha512(seed@).take(32)); assert(prefix@ =~= sha512(seed@).skip(32)); }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl SigningKey :: sign
//@ ret r
//@ spec
    requires self.wf(), msg@.len() < 0x1000_0000_0000_0000
    ensures ({ let (a, b) = ed_sig(ed_s(self.seed@), sha512(self.seed@).skip(32), self.verifying_key.bytes@, msg@, r@.take(32)); le_val(r@.take(32)) == a && le_val(r@.skip(32)) == b })
//@ sub s\.v_to_le_bytes\(\) => s.to_le_bytes()
//@ tail
    proof {
        assert(sig@.take(32) =~= sig_r.0@); assert(sig@.skip(32).len() == 32); assert(self.prefix@ + msg@ + Seq::<u8>::empty() =~= self.prefix@ + msg@); 
    }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl SigningKey :: verifying_key
//@ ret r
//@ spec
    ensures *r == self.verifying_key
//@end
//@fn graviola/src/mid/ed25519.rs :: impl SigningKey :: as_seed_bytes
//@ ret r
//@ spec
    ensures r@ == self.seed@
//@end
}
impl VerifyingKey {
    // derived Clone
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn wf(self) -> bool { pt_ok(pt(self.point.0@)) }
//@fn graviola/src/mid/ed25519.rs :: impl VerifyingKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == (bytes@.len() == 32 && ed_decode(bytes@).is_some()), r.is_ok() ==> r.unwrap().wf() && r.unwrap().bytes@ == bytes@ && pt(r.unwrap().point.0@) == ed_decode(bytes@).unwrap()
//@ sub let Ok\(bytes\) = bytes\.try_into\(\) else => let Some(bytes) = v_try_array_ref::<32>(bytes) else
//@ sub \.map\(\|point\| Self \{(.*)\}\)\s*\}$ => .map(|point| -> (z: Self) ensures z.bytes@ == bytes@, z.point == point { Self {\1} }) }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl VerifyingKey :: verify
//@ ret r
//@ spec
    requires self.wf(), msg@.len() < 0x1000_0000_0000_0000
    ensures ({ let (rb, s) = (sig@.take(32), le_val(sig@.skip(32)));
        r.is_ok() == (s < ed_l() && le_val(rb) == ed_enc(ed_add(ed_mul(ed_h(rb + self.bytes@ + msg@), ed_neg(pt(self.point.0@))), ed_mul(s, ed_b())))) })
//@ sub r_sig == r\.0 => v_eq(r_sig, &r.0)
//@ sub s\.v_try_into_unwrap\(\) => &s.v_try_into_unwrap::<32>()
//@ tail
    proof { if le_val(r_sig@) == le_val(r.0@) { lemma_le_inj(r_sig@, r.0@); } }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl VerifyingKey :: as_bytes
//@ ret r
//@ spec
    ensures r@ == self.bytes@
//@end
}
pub fn v_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{ if a.len() != b.len() { return false; } for i in 0..a.len() invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] { if a[i] != b[i] { return false; } } assert(a@ =~= b@); true }
impl EdwardsPoint {
//@fn graviola/src/mid/ed25519.rs :: impl EdwardsPoint :: scalarmuldouble
//@ ret r
//@ spec
    requires pt_ok(pt(point.0@))
    ensures pt(r.0@) == ed_add(ed_mul(val(scalar.0@), pt(point.0@)), ed_mul(val(bscalar.0@), ed_b())), pt_ok(pt(r.0@))
//@ sub low:: => ed_low::
//@end
//@fn graviola/src/mid/ed25519.rs :: impl EdwardsPoint :: negate
//@ ret r
//@ spec
    requires pt_ok(pt(self.0@))
    ensures pt(r.0@) == ed_neg(pt(self.0@)), pt_ok(pt(r.0@))
//@ sub low:: => ed_low::
//@ sub self\.0\[\.\.4\]\.v_try_into_unwrap\(\) => &(&self.0[..4]).v_try_into_unwrap::<4>()
//@ tail
    proof { assert(out@.take(4) =~= x_neg@); assert(out@.skip(4) =~= self.0@.skip(4)); lemma2_to64(); lemma_pow2_strictly_increases(64, 255); let x = val(self.0@.take(4)) as int; lemma_mod_bound(-x, ed_p()); }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl EdwardsPoint :: decompress_from
//@ ret r
//@ spec
    ensures r.is_ok() == ed_decode(compressed@).is_some(), r.is_ok() ==> pt(r.unwrap().0@) == ed_decode(compressed@).unwrap() && pt_ok(pt(r.unwrap().0@))
//@ sub low:: => ed_low::
//@end
//@fn graviola/src/mid/ed25519.rs :: impl EdwardsPoint :: compress
//@ ret r
//@ spec
    requires pt_ok(pt(self.0@))
    ensures le_val(r.0@) == ed_enc(pt(self.0@))
//@ tail
    proof {
        let (o, y) = (out.0@, seq![y0, y1, y2, y3]); assert(o.subrange(0, 8) =~= le(y0 as nat, 8)); assert(o.subrange(8, 16) =~= le(y1 as nat, 8)); assert(o.subrange(16, 24) =~= le(y2 as nat, 8)); assert(o.subrange(24, 32) =~= le(y3 as nat, 8));
        assert forall|i: int| 0 <= i < 4 implies o.subrange(8 * i, 8 * i + 8) == #[trigger] le(y[i] as nat, 8) by { if i == 0 {} else if i == 1 {} else if i == 2 {} else {} }
        lemma_enc(self.0@, o, y);
    }
//@end
}
pub proof fn lemma_enc(p: Seq<u64>, o: Seq<u8>, y: Seq<u64>)
    requires p.len() == 8, o.len() == 32, y.len() == 4, pt_ok(pt(p)), y[0] == p[4], y[1] == p[5], y[2] == p[6], y[3] == (p[7] & 0x7fffffffffffffff) | (p[0] << 63),
        forall|i: int| 0 <= i < 4 ==> o.subrange(8 * i, 8 * i + 8) == #[trigger] le(y[i] as nat, 8)
    ensures le_val(o) == ed_enc(pt(p))
{
    let a = p.skip(4); let b = a.take(3); let u = y.take(3); assert(b =~= u); assert(a =~= b + seq![p[7]]); assert(y =~= u + seq![y[3]]);
    lemma_val_append(b, seq![p[7]]); lemma_val_append(u, seq![y[3]]); lemma_val1(seq![p[7]]); lemma_val1(seq![y[3]]); lemma_val_bound(b);
    lemma2_to64(); lemma2_to64_rest(); lemma_bp_pow2(3); lemma_pow2_adds(192, 63); let q = pow2(192) as int; let z = p[7] as int;
    assert(z < 0x8000_0000_0000_0000) by (nonlinear_arith) requires q * z < q * 0x8000_0000_0000_0000, q > 0;
    let (h, x) = (p[7], p[0]); assert(h < 0x8000_0000_0000_0000 ==> (h & 0x7fffffffffffffff) | (x << 63) == add(h, mul(x % 2, 0x8000_0000_0000_0000))) by (bit_vector);
    let w = p.take(4); lemma_val_even(w); assert(w[0] == x); let e = (x % 2) as int;
    assert(y[3] == z + e * 0x8000_0000_0000_0000);
    assert(q * (z + e * 0x8000_0000_0000_0000) == q * z + e * (q * 0x8000_0000_0000_0000)) by (nonlinear_arith);
    lemma_words_le(o, y, 4); assert(o.take(32) =~= o); assert(y.take(4) =~= y);
}
pub proof fn lemma_words_le(o: Seq<u8>, y: Seq<u64>, n: int)
    requires 0 <= n <= y.len(), o.len() == 8 * y.len(), forall|i: int| 0 <= i < y.len() ==> o.subrange(8 * i, 8 * i + 8) == #[trigger] le(y[i] as nat, 8)
    ensures le_val(o.take(8 * n)) == val(y.take(n)) decreases n
{
    if n > 0 {
        let i = n - 1; lemma_words_le(o, y, i); let w = o.subrange(8 * i, 8 * i + 8); assert(w == le(y[i] as nat, 8)); assert(o.take(8 * n) =~= o.take(8 * i) + w); lemma_le_append(o.take(8 * i), w);
        lemma_le_of(y[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(y[i] as nat, p256(8));
        assert(y.take(n) =~= y.take(i) + seq![y[i]]); lemma_val_append(y.take(i), seq![y[i]]); lemma_val1(seq![y[i]]); lemma_p256_bp(i as nat);
    } else { assert(o.take(0) =~= Seq::empty()); assert(y.take(0) =~= Seq::empty()); }
}
impl UnreducedScalar {
//@fn graviola/src/mid/ed25519.rs :: impl UnreducedScalar :: clamp_from_le_bytes
//@ ret r
//@ spec
    ensures val(r.0@) == clamped(x@)
//@ begin
    let ghost x0 = x@;
//@ tail
    proof { assert(x@ =~= x0.update(0, x0[0] & 0xf8).update(31, (x0[31] & 0x7f) | 0x40)); }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl UnreducedScalar :: base_mul
//@ ret r
//@ spec
    ensures pt(r.0@) == ed_mul(val(self.0@), ed_b()), pt_ok(pt(r.0@))
//@ sub low:: => ed_low::
//@end
}
impl Scalar {
//@fn graviola/src/mid/ed25519.rs :: impl Scalar :: try_from_le_bytes
//@ ret r
//@ spec
    ensures r.is_some() == (le_val(x@) < ed_l()), r.is_some() ==> val(r.unwrap().0@) == le_val(x@)
//@ sub \((low::bignum_cmp_lt\([^)]*\)[^)]*)\)\.then_some\(Self\(s\)\) => if \1 { Some(Self(s)) } else { None }
//@ begin
    proof { lemma_order(); }
//@end
//@fn graviola/src/mid/ed25519.rs :: impl Scalar :: reduce_from_le_bytes
//@ ret r
//@ spec
    ensures val(r.0@) == le_val(x@) as int % ed_l() as int
//@ sub low:: => ed_low::
//@end
//@fn graviola/src/mid/ed25519.rs :: impl Scalar :: to_le_bytes
//@ ret r
//@ spec
    ensures le_val(r@) == val(self.0@)
//@end
//@fn graviola/src/mid/ed25519.rs :: impl Scalar :: base_mul
//@ ret r
//@ spec
    ensures pt(r.0@) == ed_mul(val(self.0@), ed_b()), pt_ok(pt(r.0@))
//@ sub low:: => ed_low::
//@end
//@fn graviola/src/mid/ed25519.rs :: impl Scalar :: madd_n25519
//@ ret r
//@ spec
    ensures val(r.0@) == (val(x@) * val(y@) + val(c@)) as int % ed_l() as int
//@ sub low:: => ed_low::
//@end
}
//@fn graviola/src/mid/ed25519.rs :: - :: ed25519_digest
//@ ret r
//@ spec
    requires x1@.len() + x2@.len() + x3@.len() < 0x2000_0000_0000_0000
    ensures r@ == sha512(x1@ + x2@ + x3@)
//@ before h\.update
    proof { assert(Seq::<u8>::empty() + x1@ =~= x1@); }
//@end
}
