// keys, Diffie-Hellman and raw ECDSA for P-@C@
verus! {
#[verifier::external_body] pub fn v_unreachable() -> (r: !) requires false { panic!() }
// every key: a non-identity point of the curve with its table of multiples
impl PublicKey {
pub open spec fn pt(self) -> Pt { self.point.pt() }
pub open spec fn wf(self) -> bool { self.point.ok() && self.point.pt() != Pt::Inf && tab5(self.precomp_w5@, self.point.pt()) }
//@fn @F@ :: impl PublicKey :: from_affine
//@ ret r
//@ spec
    requires point.ok(), point.pt() != Pt::Inf ensures r.wf(), r.pt() == point.pt()
//@end
//@fn @F@ :: impl PublicKey :: from_x962_uncompressed
//@ ret r
//@ spec
    ensures r.is_ok() == is_sec1(bytes@), r.is_ok() ==> r.unwrap().wf() && r.unwrap().pt() == sec1_pt(bytes@) && sec1(r.unwrap().pt()) == bytes@
//@end
//@fn @F@ :: impl PublicKey :: as_bytes_uncompressed
//@ ret r
//@ sub sig Self::BYTES => @B2@
//@ spec
    requires self.wf() ensures r@ == sec1(self.pt())
//@end
//@fn @F@ :: impl PublicKey :: raw_ecdsa_verify
//@ ret ok
//@ spec
    requires self.wf(), 0 < r.v() < N(), 0 < s.v() < N() ensures ok.is_ok() == ecdsa_ok(self.pt(), e.v(), r.v(), s.v())
//@ begin
    hide(padd); hide(on);
    proof { lemma_verify_setup(self.precomp_w5@, self.pt(), e.v(), r.v(), s.v()); }
//@ before let point =
    proof { lemma_same_add(lhs.pt(), rhs.pt()); }
//@end
}
// SEC1 4.1.4: the point u1 G + u2 Q, its x coordinate compared with r
pub open spec fn ecdsa_ok(q: Pt, e: int, r: int, s: int) -> bool { let w = minv(s, N()); let x = padd(smul(w * e, G()), smul(w * r, q)); x != Pt::Inf && px(x) % N() == r }
// SEC1 4.1.3: (e + r d) / k
pub open spec fn ecdsa_s(d: int, k: int, e: int, r: int) -> int { (minv(k, N()) * (e + d * r)) % N() }
pub proof fn lemma_same_add(a: Pt, b: Pt) ensures a == b ==> padd(a, a) == padd(a, b) {}
pub proof fn lemma_smul_mod(a: int, p: Pt) ensures smul(a % N(), p) == smul(a, p) { reveal(smul); lemma_pn(); lemma_mod_twice(a, N()); }
pub proof fn lemma_mul_mods(a: int, b: int) ensures ((a % N()) * (b % N())) % N() == (a * b) % N() { lemma_pn(); lemma_mul_mod_noop(a, b, N()); }
pub proof fn lemma_verify_setup(t: Seq<u64>, q: Pt, e: int, r: int, s: int) requires tab5(t, q), q != Pt::Inf, on(q), 0 < r < N(), 0 < s < N()
    ensures wf5(t), t5p(t) == q, on(G()), smul((((minv(s, N()) % N()) * (e % N())) % N()), G()) == smul(minv(s, N()) * e, G()), smul((((minv(s, N()) % N()) * (r % N())) % N()), q) == smul(minv(s, N()) * r, q), smul(minv(s, N()) * r, q) != Pt::Inf, 
{
    hide(padd); let w = minv(s, N()); lemma_pn(); lemma_t5p(t, q); lemma_g_on(); lemma_small_mod(s as nat, N() as nat); lemma_small_mod(r as nat, N() as nat); axiom_prime_n(s); lemma_mul_mods(w, e); lemma_mul_mods(w, r); lemma_smul_mod(w * e, G()); lemma_smul_mod(w * r, q); lemma_smul_inf(w * r, q);
    if (w * r) % N() == 0 { let m = N(); // r = r s w = 0
        cong_mod(w * r, m); cong_sym(0, w * r, m); cong_refl(s, m); cong_mul(s, s, w * r, 0, m); assert(s * (w * r) == r * (s * w)) by (nonlinear_arith); cong_refl(r, m); cong_mul(r, r, s * w, 1, m); assert(s * 0 == 0 && r * 1 == r); cong_sym(r * (s * w), r, m); cong_trans(r, r * (s * w), 0, m); cong_unique(r, 0, m); }
}
//@item @F@ :: struct PrivateKey
//@item @F@ :: struct StaticPrivateKey
//@item @F@ :: struct SharedSecret
//@ sub FieldElement::BYTES => @BB@
//@end
impl SharedSecret {
//@fn @F@ :: impl Drop for SharedSecret :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
pub open spec fn pubkey(d: int) -> Pt { smul(d, G()) }
impl PrivateKey {
pub open spec fn d(self) -> int { self.scalar.v() }
pub open spec fn wf(self) -> bool { 0 < self.d() < N() }
//@fn @F@ :: impl PrivateKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == (0 < be_val(bytes@) < N()), r.is_ok() ==> r.unwrap().d() == be_val(bytes@)
//@ sub \.map\(\|scalar\| Self \{\s*scalar: low::ct::into_secret\(scalar\),\s*\}\) => .map(|scalar: Scalar| -> (z: Self) ensures z.scalar == scalar { Self { scalar: low::ct::into_secret(scalar) } })
//@end
//@fn @F@ :: impl PrivateKey :: generate
//@ ret o
//@ sub sig fn generate => fn generate<R: RandomSource>
//@ sub sig &mut dyn RandomSource => &mut R
//@ sub for _ in 0\.\.64 => for i_ in 0..64
//@ spec
    requires old(rng).ready()
    ensures final(rng).ready(), o.is_ok() ==> o.unwrap().wf() && ec::drew(*old(rng), *final(rng), o.unwrap().d(), N(), @BB@) && exists|b: Seq<u8>| #[trigger] R::gives(b) && b.len() == @BB@ && be_val(b) == o.unwrap().d()
//@ begin
    let ghost mut st: Seq<R> = seq![*rng]; let ghost mut out: Seq<Seq<u8>> = Seq::empty();
//@ loop 1
    invariant rng.ready(), st.len() == out.len() + 1, st[0] == *old(rng), st.last() == *rng,
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).len() == @BB@ && R::step(st[i], st[i + 1], out[i]) && R::gives(out[i]) && !(0 < be_val(out[i]) < N())
//@ after rng\.fill
    proof { let st1 = st.push(*rng); let out1 = out.push(r@);
        assert forall|i: int| 0 <= i < out1.len() implies (#[trigger] out1[i]).len() == @BB@ && R::step(st1[i], st1[i + 1], out1[i]) && R::gives(out1[i]) by { if i < out.len() { assert(out1[i] == out[i]); } }
        if 0 < be_val(r@) < N() { assert(out1.last() == r@); assert(ec::drawn(*old(rng), *rng, st1, out1, N(), @BB@)); assert(ec::drew(*old(rng), *rng, be_val(r@) as int, N(), @BB@)); }
        st = st1; out = out1; }
//@end
//@fn @F@ :: impl PrivateKey :: new_random
//@ ret o
//@ spec
    ensures o.is_ok() ==> o.unwrap().wf() && exists|b: Seq<u8>| #[trigger] os_random(b) && b.len() == @BB@ && be_val(b) == o.unwrap().d()
//@ begin
    proof { assert(forall|b: Seq<u8>| #[trigger] SystemRandom::gives(b) == os_random(b)); }
//@end
//@fn @F@ :: impl PrivateKey :: public_point
//@ ret r
//@ sub panic!\("internal fault"\) => v_unreachable()
//@ spec
    requires self.wf() ensures r.ok(), r.pt() == pubkey(self.d()), r.pt() != Pt::Inf
//@ begin
    proof { lemma_pn(); lemma_g_on(); lemma_smul_inf(self.d(), G()); lemma_small_mod(self.d() as nat, N() as nat); }
//@end
//@fn @F@ :: impl PrivateKey :: public_key_uncompressed
//@ ret r
//@ sub sig PublicKey::BYTES => @B2@
//@ spec
    requires self.wf() ensures r@ == sec1(pubkey(self.d()))
//@end
//@fn @F@ :: impl PrivateKey :: diffie_hellman
//@ ret r
//@ spec
    requires self.wf(), peer.wf() ensures r.is_ok(), smul(self.d(), peer.pt()) != Pt::Inf, r.unwrap().0@ == be32(px(smul(self.d(), peer.pt())))
//@ begin
    proof { lemma_pn(); lemma_t5p(peer.precomp_w5@, peer.pt()); lemma_smul_inf(self.d(), peer.pt()); lemma_small_mod(self.d() as nat, N() as nat); }
//@ sub Ok\(SharedSecret\(util::(\w+)\(\s*&result\.x\(\)\.demont\(\)\.0,?\s*\)\)\) => { let s = SharedSecret(util::\1(&result.x().demont().0)); proof { lemma_be32(s.0@, px(result.pt())); } Ok(s) }
//@end
}
impl StaticPrivateKey {
pub open spec fn d(self) -> int { self.0.d() }
pub open spec fn wf(self) -> bool { 0 < self.d() < N() }
//@fn @F@ :: impl StaticPrivateKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == (0 < be_val(bytes@) < N()), r.is_ok() ==> r.unwrap().d() == be_val(bytes@) && r.unwrap().wf()
//@ sub \.map\(Self\) => .map(|k: PrivateKey| -> (z: Self) ensures z.0 == k { Self(k) })
//@end
//@fn @F@ :: impl StaticPrivateKey :: as_bytes
//@ ret r
//@ sub sig Scalar::BYTES => @BB@
//@ spec
    requires self.wf() ensures r@ == be32(self.d()), be_val(r@) == self.d()
//@ sub low::ct::into_public\(self\.0\.scalar\.as_bytes\(\)\) => let r = low::ct::into_public(self.0.scalar.as_bytes()); r
//@ tail
    proof { lemma_be32(r@, self.d()); }
//@end
//@fn @F@ :: impl StaticPrivateKey :: public_key_uncompressed
//@ ret r
//@ sub sig PublicKey::BYTES => @B2@
//@ spec
    requires self.wf() ensures r@ == sec1(pubkey(self.d()))
//@end
//@fn @F@ :: impl StaticPrivateKey :: diffie_hellman
//@ ret r
//@ spec
    requires self.wf(), peer.wf() ensures r.is_ok(), smul(self.d(), peer.pt()) != Pt::Inf, r.unwrap().0@ == be32(px(smul(self.d(), peer.pt())))
//@end
//@fn @F@ :: impl StaticPrivateKey :: generate
//@ ret o
//@ sub sig fn generate => fn generate<R: RandomSource>
//@ sub sig &mut dyn RandomSource => &mut R
//@ sub \.map\(Self\) => .map(|k: PrivateKey| -> (z: Self) ensures z.0 == k { Self(k) })
//@ spec
    requires old(rng).ready()
    ensures final(rng).ready(), o.is_ok() ==> o.unwrap().wf() && ec::drew(*old(rng), *final(rng), o.unwrap().d(), N(), @BB@) && exists|b: Seq<u8>| #[trigger] R::gives(b) && b.len() == @BB@ && be_val(b) == o.unwrap().d()
//@end
//@fn @F@ :: impl StaticPrivateKey :: public_key_x_scalar
//@ ret r
//@ spec
    requires self.wf() ensures r.v() == px(pubkey(self.d())) % N(), r.ok()
//@end
//@fn @F@ :: impl StaticPrivateKey :: raw_ecdsa_sign
//@ ret s
//@ spec
    requires self.wf(), k.wf(), e.ok(), r.ok() ensures s.v() == ecdsa_s(self.d(), k.d(), e.v(), r.v()), s.ok()
//@ begin
    proof { lemma_sign_arith(self.d(), k.d(), e.v(), r.v()); }
//@end
}
pub proof fn lemma_sign_arith(d: int, k: int, e: int, r: int) requires 0 < k < N()
    ensures (minv(k, N()) * ((((d % N()) * (r % N())) % N() + e) % N() % N())) % N() == ecdsa_s(d, k, e, r)
{ let m = N(); let i = minv(k, m); lemma_pn(); lemma_mul_mods(d, r); lemma_mod_twice((d * r) % m + e, m); lemma_add_mod_noop((d * r), e, m); let x = ((d * r) % m + e) % m; lemma_add_mod_noop_right(e, d * r, m); assert(x == (e + d * r) % m) by { assert((d * r) % m + e == e + (d * r) % m); }
  lemma_mul_mod_noop_right(i, e + d * r, m); }
}
