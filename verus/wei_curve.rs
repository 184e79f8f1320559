// C12 C13: high/curve.rs for P-@C@: the functions the generic ECDSA code calls keep the interface contracts of ec_traits.rs
verus! {
pub struct P@C@;
impl ec::Scalar for Scalar {
    open spec fn n() -> int { N() }
    open spec fn sl() -> nat { @BB@ }
    open spec fn gx(d: int) -> int { px(pubkey(d)) % N() }
    open spec fn enc_pub(d: int) -> Seq<u8> { sec1(pubkey(d)) }
    open spec fn ssig(d: int, k: int, e: int, r: int) -> int { ecdsa_s(d, k, e, r) }
    open spec fn is_pub(b: Seq<u8>) -> bool { is_sec1(b) }
    open spec fn sig_ok(q: Seq<u8>, e: int, r: int, s: int) -> bool { ecdsa_ok(sec1_pt(q), e, r, s) }
    open spec fn val(self) -> int { self.v() }
    open spec fn okv(self) -> bool { self.ok() }
    proof fn lemma_curve() { lemma_pn(); lemma_n_fits(); assert forall|d: int| #[trigger] Self::enc_pub(d).len() == 2 * Self::sl() + 1 by { lemma_sec1_len(pubkey(d)); } }
    proof fn lemma_sign(d: int, k: int, e: int) { lemma_ecdsa(d, k, e); }
    fn v_len() -> (r: usize) { Self::BYTES }
//@fn graviola/src/high/curve.rs :: impl Scalar<P@C@> for p@C@::Scalar :: from_bytes_checked
//@ vis none
//@end
//@fn graviola/src/high/curve.rs :: impl Scalar<P@C@> for p@C@::Scalar :: from_bytes_reduced
//@ vis none
//@end
//@fn graviola/src/high/curve.rs :: impl Scalar<P@C@> for p@C@::Scalar :: is_zero
//@ vis none
//@end
//@fn graviola/src/high/curve.rs :: impl Scalar<P@C@> for p@C@::Scalar :: write_bytes
//@ vis none
//@end
}
impl ec::PrivateKey<Scalar> for StaticPrivateKey {
    open spec fn dv(self) -> int { self.d() }
    open spec fn okd(self) -> bool { self.wf() }
//@fn graviola/src/high/curve.rs :: impl PrivateKey<P@C@> for p@C@::StaticPrivateKey :: from_bytes
//@ vis none
//@end
//@fn graviola/src/high/curve.rs :: impl PrivateKey<P@C@> for p@C@::StaticPrivateKey :: encode
//@ vis none
//@ sub out\.get_mut\(0\.\.(\w+)\) => v_get_mut_to(out, \1)
//@end
//@fn graviola/src/high/curve.rs :: impl PrivateKey<P@C@> for p@C@::StaticPrivateKey :: public_key_x_scalar
//@ vis none
//@ sub sig p@C@::Scalar => Scalar
//@end
//@fn graviola/src/high/curve.rs :: impl PrivateKey<P@C@> for p@C@::StaticPrivateKey :: public_key_encode_uncompressed
//@ vis none
//@ sub out\.get_mut\(0\.\.p@C@::PublicKey::BYTES\) => v_get_mut_to(out, PublicKey::BYTES)
//@ begin
    proof { lemma_sec1_len(pubkey(self.d())); }
//@end
//@fn graviola/src/high/curve.rs :: impl PrivateKey<P@C@> for p@C@::StaticPrivateKey :: raw_ecdsa_sign
//@ vis none
//@ sub sig p@C@::Scalar => Scalar
//@end
}
impl ec::PublicKey<Scalar> for PublicKey {
    open spec fn okq(self) -> bool { self.wf() && sec1_pt(sec1(self.pt())) == self.pt() }
    open spec fn encq(self) -> Seq<u8> { sec1(self.pt()) }
//@fn graviola/src/high/curve.rs :: impl PublicKey<P@C@> for p@C@::PublicKey :: from_x962_uncompressed
//@ vis none
//@end
//@fn graviola/src/high/curve.rs :: impl PublicKey<P@C@> for p@C@::PublicKey :: raw_ecdsa_verify
//@ vis none
//@ sub sig p@C@::Scalar => Scalar
//@end
}
impl ec::Curve for P@C@ {
    type Scalar = Scalar;
    type PrivateKey = StaticPrivateKey;
    type PublicKey = PublicKey;
//@fn graviola/src/high/curve.rs :: impl Curve for P@C@ :: generate_random_key
//@ vis none
//@ sub sig fn generate_random_key => fn generate_random_key<R: RandomSource>
//@ sub sig &mut dyn RandomSource => &mut R
//@ sub sig p@C@::StaticPrivateKey => Self::PrivateKey
//@ sub p@C@::StaticPrivateKey => StaticPrivateKey
//@end
}
pub proof fn lemma_nmul_mul(k: nat, d: int, p: Pt) requires on(p) ensures nmul(k, smul(d, p)) == smul(k * d, p) decreases k
{ hide(padd); if k == 0 { lemma_smul_0(p); assert(0 * d == 0); } else { lemma_nmul_mul((k - 1) as nat, d, p); lemma_smul_add((k - 1) * d, d, p); assert((k - 1) * d + d == k * d) by (nonlinear_arith); } }
pub proof fn lemma_smul_mul(a: int, d: int, p: Pt) requires on(p) ensures smul(a, smul(d, p)) == smul(a * d, p)
{ hide(padd); lemma_pn(); lemma_mod_bound(a, N()); lemma_nmul_mul((a % N()) as nat, d, p); assert(smul(a, smul(d, p)) == nmul((a % N()) as nat, smul(d, p))) by { reveal(smul); }
  lemma_mul_mod_noop_left(a, d, N()); lemma_smul_mod((a % N()) * d, p); lemma_smul_mod(a * d, p); }
pub proof fn lemma_sec1_back(p: Pt) requires on(p), p != Pt::Inf ensures sec1_pt(sec1(p)) == p
{
    match p { Pt::Aff(x, y) => { let b = sec1(p); lemma_sec1_len(p); lemma_pn(); lemma_bp_bytes();
        assert(b.subrange(1, 1 + @BB@int) =~= be32(x)) by { lemma_be_len(x as nat, @BB@); lemma_be_len(y as nat, @BB@); } assert(b.subrange(1 + @BB@int, @B2@) =~= be32(y)) by { lemma_be_len(x as nat, @BB@); lemma_be_len(y as nat, @BB@); }
        lemma_be_of(x as nat, @BB@); lemma_be_of(y as nat, @BB@); lemma_small_mod(x as nat, p256(@BB@)); lemma_small_mod(y as nat, p256(@BB@)); }, _ => {} }
}
pub proof fn lemma_bp_bytes() ensures P() < p256(@BB@) { assert(P() < p256(@BB@)) by (compute_only); }
// SEC1: what 4.1.3 makes, 4.1.4 accepts
pub proof fn lemma_ecdsa(d: int, k: int, e: int) requires 0 < d < N(), 0 < k < N(), px(pubkey(k)) % N() != 0, ecdsa_s(d, k, e, px(pubkey(k)) % N()) != 0
    ensures 0 < px(pubkey(k)) % N() < N(), 0 < ecdsa_s(d, k, e, px(pubkey(k)) % N()) < N(), ecdsa_ok(sec1_pt(sec1(pubkey(d))), e, px(pubkey(k)) % N(), ecdsa_s(d, k, e, px(pubkey(k)) % N()))
{
    hide(padd); hide(sec1); hide(sec1_pt); hide(on); hide(cong);
    let m = N(); let r = px(pubkey(k)) % m; let i = minv(k, m); let z = e + d * r; let s = ecdsa_s(d, k, e, r); let w = minv(s, m);
    lemma_pn(); lemma_g_on(); lemma_mod_bound(px(pubkey(k)), m); lemma_mod_bound(i * z, m);
    lemma_small_mod(d as nat, m as nat); lemma_small_mod(k as nat, m as nat); lemma_small_mod(s as nat, m as nat);
    lemma_smul_on(d, G()); lemma_smul_inf(d, G()); lemma_sec1_back(pubkey(d)); let q = pubkey(d);
    axiom_prime_n(k); axiom_prime_n(s);
    lemma_smul_mul(w * r, d, G()); lemma_smul_add(w * e, w * r * d, G());
    assert(w * e + w * r * d == w * z) by (nonlinear_arith) requires z == e + d * r;
    // w z == w (k i) z == k w s == k
    cong_refl(w * z, m); cong_mul(k * i, 1, w * z, w * z, m); assert(1 * (w * z) == w * z); assert((k * i) * (w * z) == (k * w) * (i * z)) by (nonlinear_arith);
    cong_mod(i * z, m); cong_refl(k * w, m); cong_mul(k * w, k * w, s, i * z, m);
    cong_refl(k, m); cong_mul(k, k, s * w, 1, m); assert(k * 1 == k); assert(k * (s * w) == (k * w) * s) by (nonlinear_arith);
    cong_sym((k * w) * s, k, m); cong_trans(k, (k * w) * s, (k * w) * (i * z), m); cong_trans(k, (k * w) * (i * z), w * z, m);
    cong_is_mod(k, w * z, m);
    lemma_smul_mod(k, G()); lemma_smul_mod(w * z, G()); lemma_smul_inf(k, G());
}
pub proof fn lemma_n_fits() ensures 1 < N() <= p256(@BB@) { assert(1 < N() <= p256(@BB@)) by (compute_only); }
pub proof fn lemma_sec1_len(p: Pt) ensures sec1(p).len() == @B2@ { assert forall|x: int| #[trigger] be32(x).len() == @BB@ by { lemma_be_len(x as nat, @BB@); } }
}
