// multiplication of the base point of P-256 with the stored 7-bit window tables (trusted: row i holds (j+1) 2^(7i) G; the driver compares entries)
verus! {
pub open spec fn ent7(t: Seq<u64>, j: int) -> Seq<u64> { t.subrange(j * 8, j * 8 + 8) }
pub open spec fn row7(t: Seq<u64>, i: nat) -> bool { forall|j: int| 0 <= j < 64 ==> #[trigger] aok(ent7(t, j)) && aff(ent7(t, j)) == smul((j + 1) * pow2(7 * i), G()) }
pub open spec fn tab7(t: Seq<[u64; 512]>) -> bool { t.len() == 37 && forall|i: int| 0 <= i < 37 ==> row7(#[trigger] t[i]@, i as nat) }
pub type AffineMontPointTableW7 = [[u64; 512]; 37];
pub mod precomp { use super::*;
    #[verifier::external_body] pub exec const CURVE_GENERATOR_PRECOMP_W7: AffineMontPointTableW7 ensures tab7(CURVE_GENERATOR_PRECOMP_W7@) { [[0u64; 512]; 37] }
}
pub proof fn lemma_recode7(v: u8) ensures v < 128 ==> (v >> 7) == 0, v >= 128 ==> (v >> 7) == 1, v >> 7 <= 1
{ assert(v < 128 ==> (v >> 7) == 0) by (bit_vector); assert(128 <= v ==> (v >> 7) == 1) by (bit_vector); }
pub proof fn lemma_next0_7(b: Seq<u8>) requires b.len() > 0 ensures ({ let v = b[0] << 1; R(le_val(b), 0) - 128 * R(le_val(b), 7) == (v + 1) / 2 - (if v >= 128 { 128int } else { 0 }) })
{ hide(T); hide(R); hide(le_val); hide(pow2); lemma_window0(b); let c = b[0]; assert(c < 128 ==> c << 1 == 2 * c) by (bit_vector); assert(c >= 128 ==> c << 1 == 2 * c - 256) by (bit_vector); let u = c << 1; assert(u == T(le_val(b), 0) % 256); lemma_R7(le_val(b), 0, u as int); assert((0 + 7) as nat == 7); }
pub open spec fn win7(b: Seq<u8>, i: nat) -> u8 { (((b[(i - 1) / 8] as u16) | ((b[(i - 1) / 8 + 1] as u16) << 8)) >> (((i - 1) % 8) as usize)) as u8 }
pub proof fn lemma_nexti_7(b: Seq<u8>, i: nat) requires i > 0, (i - 1) / 8 + 1 < b.len() ensures ({ let v = win7(b, i); R(le_val(b), i) - 128 * R(le_val(b), i + 7) == (v + 1) / 2 - (if v >= 128 { 128int } else { 0 }) })
{ hide(T); hide(R); hide(le_val); hide(pow2); lemma_window(b, i); let o = (i - 1) / 8; let sh = ((i - 1) % 8) as usize; let (x, y) = (b[o], b[o + 1]); lemma_win(x, y, sh); let u = win7(b, i); assert(u == T(le_val(b), i) % 256); lemma_R7(le_val(b), i, u as int); }
impl Scalar {
//@fn @F@ :: impl Scalar :: booth_recoded_w7
//@ ret r
//@ spec
    ensures le_val(r.bytes@) == self.v(), r.index == 0
//@end
}
//@item @F@ :: struct BoothRecodeW7
//@end
impl BoothRecodeW7 {
pub open spec fn k(self) -> nat { le_val(self.bytes@) }
//@fn @F@ :: impl BoothRecodeW7 :: new
//@ ret r
//@ spec
    ensures le_val(r.bytes@) == scalar.v(), r.index == 0
//@ tail
    proof { let c = bytes@.drop_last(); lemma_le_pad(bytes@); assert forall|i: int| 0 <= i < W implies #[trigger] c.subrange(8 * i, 8 * i + 8) == le(scalar.0@[i] as nat, 8) by { assert(c.subrange(8 * i, 8 * i + 8) =~= le(scalar.0@[i] as nat, 8)); } lemma_words_le(scalar.0@, c); }
//@end
//@fn @F@ :: impl BoothRecodeW7 :: recode
//@ ret r
//@ spec
    ensures r.0 <= 64, r.1 <= 1, sgn(r.0, r.1) == (v + 1) / 2 - (if v >= 128 { 128int } else { 0 })
//@ begin
    proof { lemma_recode7(v); assert((1u16 << 8) == 256) by (bit_vector); assert(!0u8 == 255u8 && !255u8 == 0u8) by (bit_vector); assert(forall|d: u8| #![auto] d & 0 == 0 && d & 255 == d && 0 | d == d && d | 0 == d) by (bit_vector);
      assert(forall|d: u8| #![auto] d >> 1 == d / 2 && d & 1 == d % 2) by (bit_vector); assert(1u8 & 1 == 1u8 && 0u8 & 1 == 0u8 && 255u8 & 1 == 1) by (bit_vector);
      let x = (255 - v) as u16; assert(x < 256 ==> x as u8 == x) by (bit_vector); }
//@end
//@fn @F@ :: impl Iterator for BoothRecodeW7 :: next
//@ ret r
//@ sub sig Self::Item => (u8, u8)
//@ spec
    requires old(self).index <= 259, old(self).index % 7 == 0
    ensures final(self).bytes@ == old(self).bytes@, r.is_none() == (old(self).index == 259), r.is_none() ==> final(self).index == old(self).index, r.is_some() ==> ({ let (d, s) = r.unwrap(); let i = old(self).index as nat; let k = old(self).k(); &&& d <= 64 &&& s <= 1
        &&& sgn(d, s) == R(k, i) - 128 * R(k, i + 7) &&& final(self).index == i + 7 })
//@ begin
    proof { let i = self.index as nat; if i == 0 { lemma_next0_7(self.bytes@); } else if i <= 252 { lemma_nexti_7(self.bytes@, i); } }
//@end
}
impl AffineMontPoint {
//@fn @F@ :: impl AffineMontPoint :: negate_y
//@ spec
    requires old(self).ok() ensures final(self).ok(), final(self).pt() == neg(old(self).pt())
//@ end
    proof { let (s, t) = (old(self).xy@, self.xy@); assert(wd(t, 0) =~= wd(s, 0)); assert(wd(t, 1) =~= neg_y.0@); lemma_aff_neg(s, t); }
//@end
//@fn @F@ :: impl AffineMontPoint :: maybe_negate_y
//@ spec
    requires old(self).ok() ensures final(self).ok(), final(self).pt() == (if sign == 0 { old(self).pt() } else { neg(old(self).pt()) })
//@ end
    proof { let (s, t) = (old(self).xy@, self.xy@); assert(wd(t, 0) =~= wd(s, 0)); assert(wd(t, 1) =~= result.0@); if sign == 0 { assert(s =~= wd(s, 0) + wd(s, 1)); assert(t =~= wd(t, 0) + wd(t, 1)); } else { lemma_aff_neg(s, t); } }
//@end
//@fn @F@ :: impl AffineMontPoint :: lookup_w7
//@ ret o
//@ spec
    requires index <= 64 ensures forall|i: nat| #[trigger] row7(table@, i) ==> o.ok() && o.pt() == smul(index * pow2(7 * i), G())
//@ tail
    proof { lemma_lookup7(table@, r.xy@, index as int); }
//@end
//@fn @F@ :: impl AffineMontPoint :: public_lookup_w7
//@ ret o
//@ spec
    requires index <= 64 ensures forall|i: nat| #[trigger] row7(table@, i) ==> o.ok() && o.pt() == smul(index * pow2(7 * i), G())
//@ tail
    proof { lemma_lookup7(table@, r.xy@, index as int); }
//@end
//@fn @F@ :: impl AffineMontPoint :: private_eq
//@ ret r
//@ spec
    ensures r == (val(self.xy@) == val(other.xy@))
//@end
//@fn @F@ :: impl AffineMontPoint :: is_infinity
//@ ret r
//@ spec
    ensures r == (if self.pt() == Pt::Inf { 1u8 } else { 0u8 })
//@ begin
    proof { assert forall|z: Seq<u64>| z.len() == 8 && (forall|i: int| 0 <= i < 8 ==> z[i] == 0) implies #[trigger] val(z) == 0 by { lemma_val_zeros(z); } let s = self.xy@; lemma_val_append(wd(s, 0), wd(s, 1)); assert(s =~= wd(s, 0) + wd(s, 1)); lemma_bp_pos(4); let (a, b, p) = (val(wd(s, 0)), val(wd(s, 1)), bp(4)); assert((a + p * b == 0) == (a == 0 && b == 0)) by (nonlinear_arith) requires a >= 0, b >= 0, p > 0; }
//@end
}
pub proof fn lemma_lookup7(t: Seq<u64>, r: Seq<u64>, x: int) requires 0 <= x <= 64, r.len() == 8, x > 0 ==> r == ent7(t, x - 1), x == 0 ==> forall|j: int| 0 <= j < 8 ==> r[j] == 0
    ensures forall|i: nat| #[trigger] row7(t, i) ==> aok(r) && aff(r) == smul(x * pow2(7 * i), G())
{
    assert forall|i: nat| #[trigger] row7(t, i) implies aok(r) && aff(r) == smul(x * pow2(7 * i), G()) by {
        if x == 0 { lemma_val_zeros(wd(r, 0)); lemma_val_zeros(wd(r, 1)); lemma_pn(); assert(0 * pow2(7 * i) == 0); lemma_smul_0(G()); } else { assert(aok(ent7(t, x - 1))); }
    }
}
// the accumulator k - 2^(7i) R(k, 7i) and the next term differ
pub proof fn lemma_differ7(k: nat, i: nat) requires k < N(), 1 <= i <= 36, R(k, 7 * i) - 128 * R(k, 7 * i + 7) != 0, -64 <= R(k, 7 * i) - 128 * R(k, 7 * i + 7) <= 64
    ensures ({ let a = k - pow2(7 * i) * R(k, 7 * i); let t = (R(k, 7 * i) - 128 * R(k, 7 * i + 7)) * pow2(7 * i); smul(a, G()) != smul(t, G()) && smul(t, G()) != Pt::Inf })
{
    let m = pow2(7 * i) as int; let h = pow2((7 * i - 1) as nat) as int; let r = R(k, 7 * i); let d = r - 128 * R(k, 7 * i + 7); let a = k - m * r; let t = d * m; lemma_pn(); lemma_g_on();
    lemma_R_bound(k, 7 * i); lemma_pow2_unfold(7 * i); lemma_pow2_pos((7 * i - 1) as nat); assert(m == 2 * h); assert(-h <= a <= h);
    let q = pow2(250) as int; lemma_pow2_adds(250, 6); lemma2_to64(); assert(pow2(6) == 64); lemma_bp_pow2(4); lemma_r(); assert(63 * rr_m() < 64 * N() && 64 * N() < 64 * rr_m()) by (compute_only); assert(bp(W) == rr_m()); assert(bp(W) == 64 * q);
    assert(63 * q < N() < 64 * q);
    lemma_smul_eq(a, t, G()); lemma_smul_inf(t, G());
    if i < 36 {
        if i < 35 { lemma_pow2_strictly_increases(7 * i, 245); } assert(m <= pow2(245)); lemma_pow2_adds(245, 5); assert(pow2(5) == 32); assert(32 * m <= q);
        assert(-64 * m <= t <= 64 * m && (t >= m || t <= -m)) by (nonlinear_arith) requires t == d * m, -64 <= d <= 64, d != 0, m > 0;
        lemma_nonzero_mod(a - t); lemma_nonzero_mod(t);
    } else {
        lemma_pow2_adds(250, 2); assert(pow2(2) == 4); assert(m == 4 * q); assert(h == 2 * q);
        lemma_R_bound(k, 259); lemma_pow2_unfold(257); lemma_pow2_adds(256, 3); lemma_pow2_adds(250, 6); lemma_R_top(k, 259); assert(d == r); assert(t == m * r) by (nonlinear_arith) requires t == d * m, d == r;
        assert(a == k - t);
        assert(t == 4 * q * d) by (nonlinear_arith) requires t == d * m, m == 4 * q;
        assert(d > 0) by { if d < 0 { assert(t <= -4 * q) by (nonlinear_arith) requires t == 4 * q * d, d <= -1, q > 0; } }
        assert(d <= 16) by { if d >= 17 { assert(t >= 68 * q) by (nonlinear_arith) requires t == 4 * q * d, d >= 17, q > 0; } }
        assert(4 * q <= t <= 64 * q) by (nonlinear_arith) requires t == 4 * q * d, 1 <= d <= 16, q > 0;
        // a - t = k - 2t
        let z = a - t; assert(z < 0 && z > -2 * N());
        if d <= 15 { assert(t <= 60 * q) by (nonlinear_arith) requires t == 4 * q * d, d <= 15, q > 0; } else { assert(t == 64 * q) by (nonlinear_arith) requires t == 4 * q * d, d == 16; }
        assert(z != -N());
        if z > -N() { lemma_nonzero_mod(z); } else { lemma_fundamental_div_mod_converse(z, N(), -2, z + 2 * N()); }
        if t < N() { lemma_nonzero_mod(t); } else { assert(d == 16); lemma_fundamental_div_mod_converse(t, N(), 1, t - N()); }
    }
}
pub proof fn lemma_first7(s: Seq<u64>, t: Seq<u64>, digit: u8, d0: int) requires s.len() == 12, aok(t), aff(t) == smul(d0, G()), -64 <= d0 <= 64, digit == 0 <==> d0 == 0, wd(s, 0) == wd(t, 0), wd(s, 1) == wd(t, 1), digit == 0 ==> val(wd(s, 2)) == 0, digit != 0 ==> wd(s, 2) == CURVE_ONE_MONT.0@
    ensures jok(s), jac(s) == smul(d0, G())
{ lemma_g_on(); lemma_pn(); lemma_onefe(); lemma_smul_inf(d0, G()); if digit == 0 { lemma_small_mod(0, N() as nat); lemma_jac_inf(s); } else { lemma_nonzero_mod(d0); lemma_jac_one(s, t); } }
pub proof fn lemma_step7(k: nat, i: nat, digit: u8, sign: u8) requires k < N(), 1 <= i <= 36, digit <= 64, sgn(digit, sign) == R(k, 7 * i) - 128 * R(k, 7 * i + 7)
    ensures ({ let a = k - pow2(7 * i) * R(k, 7 * i); let t = (R(k, 7 * i) - 128 * R(k, 7 * i + 7)) * pow2(7 * i); let n = (i + 1) as nat;
        &&& sign == 0 ==> smul(digit * pow2(7 * i), G()) == smul(t, G()) &&& sign != 0 ==> neg(smul(digit * pow2(7 * i), G())) == smul(t, G()) &&& smul(a, G()) != smul(t, G()) || smul(t, G()) == Pt::Inf
        &&& padd(smul(a, G()), smul(t, G())) == smul(k - pow2(7 * n) * R(k, 7 * n), G()) })
{
    let m = pow2(7 * i) as int; let r = R(k, 7 * i); let q = R(k, 7 * i + 7); let d = r - 128 * q; let a = k - m * r; let t = d * m; lemma_g_on(); let n = (i + 1) as nat; assert(7 * n == 7 * i + 7);
    lemma_smul_neg(digit * m, G()); assert(-(digit * m) == (-(digit as int)) * m) by (nonlinear_arith);
    if d == 0 { assert(t == 0) by (nonlinear_arith) requires t == d * m, d == 0; lemma_smul_0(G()); } else { lemma_differ7(k, i); }
    lemma_smul_add(a, t, G()); lemma_pow2_adds(7 * i, 7); lemma2_to64(); assert(pow2(7) == 128);
    assert(a + t == k - (m * 128) * q) by (nonlinear_arith) requires a == k - m * r, t == d * m, d == r - 128 * q;
}
impl JacobianMontPoint {
//@fn @F@ :: impl JacobianMontPoint :: set_z
//@ spec
    ensures wd(final(self).xyz@, 0) == wd(old(self).xyz@, 0), wd(final(self).xyz@, 1) == wd(old(self).xyz@, 1), wd(final(self).xyz@, 2) == fe.0@
//@ end
    proof { let (s, t) = (old(self).xyz@, self.xyz@); assert(wd(t, 0) =~= wd(s, 0)); assert(wd(t, 1) =~= wd(s, 1)); assert(wd(t, 2) =~= fe.0@); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: select
//@ ret o
//@ spec
    ensures o.xyz@ == (if select == 0 { p0.xyz@ } else { p1.xyz@ })
//@end
//@fn @F@ :: impl JacobianMontPoint :: add_inplace_affine
//@ spec
    requires old(self).ok(), p.ok(), old(self).pt() != p.pt() || p.pt() == Pt::Inf ensures final(self).ok(), final(self).pt() == padd(old(self).pt(), p.pt())
//@end
//@fn @F@ :: impl JacobianMontPoint :: multiply_w7
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ ret r
//@ spec
    requires scalar.ok(), tab7(precomp@) ensures r.ok(), r.pt() == smul(scalar.v(), G())
//@ sub for \(index, \(digit, sign\)\) in \(1\.\.\)\.zip\(terms\) \{ => let mut index_: usize = 1; loop { let (digit, sign) = match terms.next() { Some(x) => x, None => break }; let index = index_; index_ += 1;
//@ begin
    hide(padd); hide(jok); hide(on); hide(row7); hide(aok);
    let ghost k = scalar.v() as nat;
    proof { lemma_g_on(); lemma_R_0(k); lemma2_to64(); lemma_smul_0(G()); assert(row7(precomp@[0]@, 0)); assert(pow2(7 * 0) == 1); }
//@ before #1 let tmp =
    let ghost d0 = sgn(digit, sign);
    proof { lemma_smul_neg(digit as int, G()); assert(digit * 1 == digit); }
//@ before let mut result =
    proof { assert(tmp.ok() && tmp.pt() == smul(d0, G())); assert(pow2(7) == 128); assert(d0 == k - pow2(7) * R(k, 7)); lemma_onefe(); }
//@ before let mut index_
    proof { lemma_first7(result.xyz@, tmp.xy@, digit, d0); }
//@ loop 1
    invariant terms.k() == k, 1 <= index_ <= 37, terms.index == 7 * index_, result.ok(), result.pt() == smul(k - pow2(7 * index_ as nat) * R(k, 7 * index_ as nat), G())
    ensures index_ == 37
    decreases 37 - index_
//@ lbegin 1
    let ghost i = index_ as nat;
//@ before #2 let tmp =
    let ghost a = k - pow2(7 * i) * R(k, 7 * i); let ghost d = R(k, 7 * i) - 128 * R(k, 7 * i + 7);
    proof { assert(row7(precomp@[index as int]@, i)); lemma_step7(k, i, digit, sign); }
//@ before result\.add_inplace_affine
    proof { assert(tmp.ok() && tmp.pt() == smul(d * pow2(7 * i), G())); }
//@ tail
    proof { lemma_pn(); lemma_bp_pow2(4); lemma_pow2_adds(256, 3); lemma2_to64(); assert(pow2(3) == 8); lemma_R_top(k, 259); assert(pow2(259) * 0 == 0); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: base_multiply
//@ ret r
//@ spec
    requires scalar.ok() ensures r.ok(), r.pt() == smul(scalar.v(), G())
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_base_multiply
//@ ret r
//@ spec
    requires scalar.ok() ensures r.ok(), r.pt() == smul(scalar.v(), G())
//@end
}
}
