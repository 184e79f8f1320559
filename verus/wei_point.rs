// affine and Jacobian points of P-@C@
verus! {
use core::ops::Range;
pub open spec fn be32(x: int) -> Seq<u8> { be(x as nat, 8 * W) }
// SEC1 2.3.3, uncompressed
pub open spec fn sec1(p: Pt) -> Seq<u8> { match p { Pt::Inf => seq![4u8] + be32(0) + be32(0), Pt::Aff(x, y) => seq![4u8] + be32(x) + be32(y) } }
pub open spec fn px(p: Pt) -> int { match p { Pt::Inf => 0, Pt::Aff(x, _) => x } }
pub proof fn lemma_be32(b: Seq<u8>, x: int) requires b.len() == 8 * W, be_val(b) == x ensures b == be32(x)
{ lemma_be_bound(b); lemma_be_of(x as nat, 8 * W); lemma_small_mod(x as nat, p256(8 * W)); lemma_be_inj(b, be32(x)); }
pub proof fn lemma_origin_off() ensures !on_eq(0, 0) { assert(0 < cb() < P()) by (compute_only); assert(0int * 0 == 0 && 0int * 0 * 0 - 3 * 0 + cb() == cb()); if on_eq(0, 0) { cong_unique(0, cb(), P()); } }
pub proof fn lemma_aff_on(s: Seq<u64>) requires s.len() == 2 * W, red(wd(s, 0)), red(wd(s, 1)), on_eq(fe(wd(s, 0)), fe(wd(s, 1))) ensures aok(s), aff(s) == Pt::Aff(fe(wd(s, 0)), fe(wd(s, 1)))
{ let (a, b) = (val(wd(s, 0)) as int, val(wd(s, 1)) as int); lemma_fe(a); lemma_fe(b); lemma_origin_off(); if a == 0 && b == 0 { lemma_fe_zero(a); lemma_fe_zero(b); } }
pub proof fn lemma_not_on(s: Seq<u64>) requires s.len() == 2 * W, red(wd(s, 0)), red(wd(s, 1)), !on_eq(fe(wd(s, 0)), fe(wd(s, 1))), aok(s) ensures aff(s) == Pt::Inf {}
pub proof fn lemma_fe_neg0(x: int) ensures ((-x) % P() == 0) == (x % P() == 0)
{ lemma_pn(); if x % P() == 0 { lemma_fundamental_div_mod(x, P()); lemma_mod_multiples_basic(-(x / P()), P()); let q = x / P(); assert(-x == (-q) * P()) by (nonlinear_arith) requires x == P() * q; }
  if (-x) % P() == 0 { lemma_fundamental_div_mod(-x, P()); lemma_mod_multiples_basic(-((-x) / P()), P()); let q = (-x) / P(); assert(x == (-q) * P()) by (nonlinear_arith) requires -x == P() * q; } }
pub proof fn lemma_neg_mod(b: int, i: int) ensures (((-b) % P()) * i) % P() == (-((b * i) % P())) % P()
{ lemma_pn(); let m = P(); cong_mod(-b, m); cong_refl(i, m); cong_mul((-b) % m, -b, i, i, m); assert((-b) * i == -(b * i)) by (nonlinear_arith);
  cong_mod(b * i, m); cong_refl(0, m); cong_add(0, 0, (b * i) % m, b * i, m); let x = -((b * i) % m); cong_sym(x, -(b * i), m); cong_trans(((-b) % m) * i, -(b * i), x, m);
  cong_mod(((-b) % m) * i, m); cong_trans((((-b) % m) * i) % m, ((-b) % m) * i, x, m); lemma_mod_bound(((-b) % m) * i, m); cong_is_mod((((-b) % m) * i) % m, x, m); }
pub proof fn lemma_aff_neg(s: Seq<u64>, t: Seq<u64>) requires aok(s), t.len() == s.len(), wd(t, 0) == wd(s, 0), red(wd(t, 1)), fe(wd(t, 1)) == (-fe(wd(s, 1))) % P() ensures aok(t), aff(t) == neg(aff(s))
{ let y = fe(wd(s, 1)); lemma_pn(); lemma_fe(val(wd(s, 1)) as int); lemma_fe_zero(val(wd(s, 1)) as int); lemma_fe_zero(val(wd(t, 1)) as int); lemma_fe_neg0(y); lemma_small_mod(y as nat, P() as nat); lemma_on_neg(aff(s)); }
pub proof fn lemma_jac_neg(s: Seq<u64>, t: Seq<u64>) requires jok(s), t.len() == s.len(), wd(t, 0) == wd(s, 0), wd(t, 2) == wd(s, 2), red(wd(t, 1)), fe(wd(t, 1)) == (-fe(wd(s, 1))) % P() ensures jok(t), jac(t) == neg(jac(s))
{ reveal(jac); lemma_on_neg(jac(s)); lemma_neg_mod(fe(wd(s, 1)), minv(z3(fe(wd(s, 2))), P())); }
pub proof fn lemma_jac_inf(s: Seq<u64>) requires s.len() == 3 * W, red(wd(s, 0)), red(wd(s, 1)), val(wd(s, 2)) == 0 ensures jok(s), jac(s) == Pt::Inf { reveal(jac); lemma_pn(); }
pub proof fn lemma_small2(s: Seq<u64>) requires s.len() == W, s[0] <= 1, forall|i: int| 1 <= i < W ==> s[i] == 0 ensures red(s) { lemma_val_ext(s, 1); let t = s.take(1); lemma_val1(t); lemma_pn(); }
pub proof fn lemma_minv1() ensures minv(1, P()) == 1 { lemma_pn(); lemma_small_mod(1, P() as nat); axiom_prime_p(1); cong_unique(minv(1, P()), 1, P()); assert(1 * minv(1, P()) == minv(1, P())); }
pub proof fn lemma_jac_one(s: Seq<u64>, t: Seq<u64>) requires s.len() == 3 * W, aok(t), aff(t) != Pt::Inf, wd(s, 0) == wd(t, 0), wd(s, 1) == wd(t, 1), red(wd(s, 2)), fe(wd(s, 2)) == 1 ensures jok(s), jac(s) == aff(t)
{ reveal(jac); lemma_pn(); lemma_fe_zero(val(wd(s, 2)) as int); lemma_minv1(); lemma_small_mod(1, P() as nat); let (x, y) = (fe(wd(s, 0)), fe(wd(s, 1))); lemma_fe(val(wd(s, 0)) as int); lemma_fe(val(wd(s, 1)) as int); lemma_small_mod(x as nat, P() as nat); lemma_small_mod(y as nat, P() as nat); assert(x * 1 == x && y * 1 == y); assert(z2(1) == 1 && z3(1) == 1); }
pub proof fn lemma_onefe() ensures CURVE_ONE_MONT.ok(), CURVE_ONE_MONT.f() == 1 { lemma_consts(); lemma_pn(); assert(0 <= one_m() < P()) by (compute_only); lemma_limbs(CURVE_ONE_MONT.0@); assert(val(CURVE_ONE_MONT.0@) == one_m()); lemma_fe_of(one_m(), 1); lemma_small_mod(1, P() as nat); }
// x coordinate by division with z^2 (also right at infinity)
pub proof fn lemma_jx(s: Seq<u64>) requires jok(s) ensures (fe(wd(s, 0)) * minv(z2(fe(wd(s, 2))), P())) % P() == px(jac(s))
{ reveal(jac); lemma_pn(); if val(wd(s, 2)) == 0 { lemma_fe_zero(0); lemma_small_mod(0, P() as nat); assert(z2(0) == 0); assert(fe(wd(s, 0)) * 0 == 0); } }
pub proof fn lemma_jy(s: Seq<u64>) requires jok(s) ensures jac(s) == Pt::Inf ==> (fe(wd(s, 1)) * minv(z3(fe(wd(s, 2))), P())) % P() == 0, jac(s) matches Pt::Aff(x, y) ==> y == (fe(wd(s, 1)) * minv(z3(fe(wd(s, 2))), P())) % P()
{ reveal(jac); lemma_pn(); if val(wd(s, 2)) == 0 { lemma_fe_zero(0); lemma_small_mod(0, P() as nat); assert(z2(0) == 0); assert(z3(0) == 0); assert(fe(wd(s, 1)) * 0 == 0); } }

pub proof fn lemma_minv_small(a: int) ensures 0 <= minv(a, P()) < P(), minv(a, P()) % P() == minv(a, P()) { lemma_pn(); if a % P() != 0 { axiom_prime_p(a); } lemma_small_mod(minv(a, P()) as nat, P() as nat); }
pub proof fn lemma_asaff(s: Seq<u64>) requires jok(s)
    ensures ({ let (a, b) = (minv(z2(fe(wd(s, 2))), P()), minv(z3(fe(wd(s, 2))), P())); a % P() == a && b % P() == b && forall|t: Seq<u64>| #![trigger aok(t)] #![trigger aff(t)] t.len() == 2 * W && red(wd(t, 0)) && red(wd(t, 1)) && fe(wd(t, 0)) == (fe(wd(s, 0)) * a) % P() && fe(wd(t, 1)) == (fe(wd(s, 1)) * b) % P() ==> aok(t) && aff(t) == jac(s) })
{
    let (a, b) = (minv(z2(fe(wd(s, 2))), P()), minv(z3(fe(wd(s, 2))), P())); lemma_minv_small(z2(fe(wd(s, 2)))); lemma_minv_small(z3(fe(wd(s, 2))));
    assert forall|t: Seq<u64>| #![trigger aok(t)] #![trigger aff(t)] t.len() == 2 * W && red(wd(t, 0)) && red(wd(t, 1)) && fe(wd(t, 0)) == (fe(wd(s, 0)) * a) % P() && fe(wd(t, 1)) == (fe(wd(s, 1)) * b) % P() implies aok(t) && aff(t) == jac(s) by
    { lemma_jx(s); lemma_jy(s); match jac(s) { Pt::Inf => { lemma_fe_zero(val(wd(t, 0)) as int); lemma_fe_zero(val(wd(t, 1)) as int); }, Pt::Aff(x, y) => { lemma_aff_on(t); } } }
}
pub proof fn lemma_pubeq(s: Seq<u64>, q: Pt) requires jok(s), jac(s) != Pt::Inf, on(q)
    ensures q matches Pt::Aff(x, y) ==> (((x * z2(fe(wd(s, 2)))) % P() == fe(wd(s, 0)) && (y * z3(fe(wd(s, 2)))) % P() == fe(wd(s, 1))) == (q == jac(s))), !((0 * z2(fe(wd(s, 2)))) % P() == fe(wd(s, 0)) && (0 * z3(fe(wd(s, 2)))) % P() == fe(wd(s, 1)))
{
    reveal(jac); let (bx, by, bz) = (fe(wd(s, 0)), fe(wd(s, 1)), fe(wd(s, 2))); lemma_fe(val(wd(s, 0)) as int); lemma_fe(val(wd(s, 1)) as int); lemma_fe(val(wd(s, 2)) as int); lemma_fe_zero(val(wd(s, 2)) as int); lemma_z_powers(bz); lemma_pn();
    match q { Pt::Aff(x, y) => { lemma_div_eq(bx, z2(bz), x); lemma_div_eq(by, z3(bz), y); }, _ => {} }
    assert(0 * z2(bz) == 0 && 0 * z3(bz) == 0); lemma_small_mod(0, P() as nat); lemma_origin_off(); lemma_div_eq(bx, z2(bz), 0); lemma_div_eq(by, z3(bz), 0);
}
pub type JacobianMontPointTableW5 = [u64; @T5@];
pub open spec fn ent5(t: Seq<u64>, j: int) -> Seq<u64> { t.subrange(j * @W3@, j * @W3@ + @W3@) }
pub open spec fn tab5(t: Seq<u64>, p: Pt) -> bool { forall|j: int| 0 <= j < 16 ==> #[trigger] jok(ent5(t, j)) && jac(ent5(t, j)) == smul(j + 1, p) }

//@item @F@ :: struct AffineMontPoint
//@ attr #[derive(Clone, Copy, Debug)]
//@end
//@item @F@ :: struct JacobianMontPoint
//@ attr #[derive(Clone, Copy, Debug)]
//@end
//@item @F@ :: struct PublicKey
//@end
impl Default for AffineMontPoint { fn default() -> (r: Self) ensures forall|i: int| 0 <= i < 2 * W ==> r.xy@[i] == 0 { Self { xy: [0u64; @W2@] } } }
impl PublicKey {
//@const @F@ :: impl PublicKey :: BYTES
}
impl AffineMontPoint {
pub open spec fn ok(self) -> bool { aok(self.xy@) }
pub open spec fn pt(self) -> Pt { aff(self.xy@) }
//@const @F@ :: impl AffineMontPoint :: X
//@ sub const X: Range<usize> = (.*); => exec const X: Range<usize> ensures Self::X.start == 0, Self::X.end == @W@ { \1 }
//@end
//@const @F@ :: impl AffineMontPoint :: Y
//@ sub const Y: Range<usize> = (.*); => exec const Y: Range<usize> ensures Self::Y.start == @W@, Self::Y.end == @W2@ { \1 }
//@end
//@fn @F@ :: impl AffineMontPoint :: x
//@ ret r
//@ spec
    ensures r.0@ == wd(self.xy@, 0)
//@end
//@fn @F@ :: impl AffineMontPoint :: y
//@ ret r
//@ spec
    ensures r.0@ == wd(self.xy@, 1)
//@end
//@fn @F@ :: impl AffineMontPoint :: from_xy
//@ ret o
//@ spec
    ensures wd(o.xy@, 0) == x.0@, wd(o.xy@, 1) == y.0@
//@ tail
    proof { assert(wd(r.xy@, 0) =~= x.0@); assert(wd(r.xy@, 1) =~= y.0@); }
//@end
//@fn @F@ :: impl AffineMontPoint :: on_curve
//@ ret r
//@ spec
    requires red(wd(self.xy@, 0)), red(wd(self.xy@, 1)) ensures r == on_eq(fe(wd(self.xy@, 0)), fe(wd(self.xy@, 1)))
//@ begin
    let ghost x0 = fe(wd(self.xy@, 0)); let ghost y0 = fe(wd(self.xy@, 1));
    proof { lemma_consts(); lemma_pn(); assert(CURVE_A_MONT.ok() && CURVE_B_MONT.ok()) by { assert(0 <= a_m() < P() && 0 <= b_m() < P()) by (compute_only); lemma_limbs(CURVE_A_MONT.0@); lemma_limbs(CURVE_B_MONT.0@); assert(CURVE_A_MONT.v() == a_m()); assert(CURVE_B_MONT.v() == b_m()); }
      lemma_fe_of(CURVE_A_MONT.v(), -3); lemma_fe_of(CURVE_B_MONT.v(), cb()); lemma_eqn(x0, y0); }
//@end
//@fn @F@ :: impl AffineMontPoint :: as_bytes_uncompressed
//@ ret o
//@ spec
    requires self.ok() ensures o@ == sec1(self.pt())
//@ sub sig PublicKey::BYTES => @B2@
//@ sub r\.split_at_mut\(1\) => v_split_at_mut(&mut r, 1)
//@ sub xy\.split_at_mut\(FieldElement::BYTES\) => v_split_at_mut(xy, FieldElement::BYTES)
//@ after x\.copy_from_slice
    let ghost xs = x@;
//@ tail
    proof { let ys = y@; let (a, b) = (r@.subrange(1, @B1@), r@.subrange(@B1@, @B2@)); assert(a =~= xs); assert(b =~= ys);
      let (vx, vy) = (val(wd(self.xy@, 0)) as int, val(wd(self.xy@, 1)) as int); lemma_fe_zero(vx); lemma_fe_zero(vy);
      lemma_be32(a, fe(wd(self.xy@, 0))); lemma_be32(b, fe(wd(self.xy@, 1))); assert(r@ =~= seq![4u8] + a + b); }
//@end
//@fn @F@ :: impl AffineMontPoint :: x_scalar
//@ ret r
//@ spec
    requires self.ok() ensures r.v() == px(self.pt()) % N(), r.ok()
//@ after let bytes
    proof { let s = bytes@.subrange(1, @B1@); lemma_be_of(0, 8 * W); lemma_p256_pos(8 * W); lemma_p256_bp(W); lemma_pn(); match self.pt() { Pt::Inf => { assert(s =~= be32(0)); lemma_small_mod(0, p256(8 * W)); }, Pt::Aff(x, y) => { lemma_be_of(x as nat, 8 * W); lemma_be_of(y as nat, 8 * W); assert(s =~= be32(x)); lemma_small_mod(x as nat, p256(8 * W)); } } }
//@end
//@fn @F@ :: impl AffineMontPoint :: from_x962_uncompressed
//@ ret r
//@ spec
    ensures r.is_ok() == is_sec1(bytes@), r.is_ok() ==> r.unwrap().ok() && r.unwrap().pt() == sec1_pt(bytes@) && r.unwrap().pt() != Pt::Inf && sec1(r.unwrap().pt()) == bytes@
//@ sub Some\(&?0x04\) => Some(v) if *v == 0x04
//@ begin
    let ghost b0 = bytes@;
//@ before #1 if !x\.public_is_canonical
    proof { assert(b0.skip(1).take(@BB@) =~= b0.subrange(1, @B1@)); assert(b0.skip(1).skip(@BB@) =~= b0.subrange(@B1@, @B2@)); }
//@ before if !point\.on_curve
    proof { lemma_pn(); lemma_small_mod(x.v() as nat, P() as nat); lemma_small_mod(y.v() as nat, P() as nat); if on_eq(x.v(), y.v()) { lemma_aff_on(point.xy@); 
      lemma_be32(b0.subrange(1, @B1@), x.v()); lemma_be32(b0.subrange(@B1@, @B2@), y.v()); assert(b0 =~= seq![4u8] + b0.subrange(1, @B1@) + b0.subrange(@B1@, @B2@)); } }
//@end
}
pub open spec fn is_sec1(b: Seq<u8>) -> bool { b.len() == @B2@ && b[0] == 4 && be_val(b.subrange(1, @B1@)) < P() && be_val(b.subrange(@B1@, @B2@)) < P() && on_eq(be_val(b.subrange(1, @B1@)) as int, be_val(b.subrange(@B1@, @B2@)) as int) }
pub open spec fn sec1_pt(b: Seq<u8>) -> Pt { Pt::Aff(be_val(b.subrange(1, @B1@)) as int, be_val(b.subrange(@B1@, @B2@)) as int) }
// the equation as on_curve evaluates it
pub proof fn lemma_eqn(x: int, y: int) ensures (y * y) % P() == ((((((x * x) % P() + (-3) % P()) % P()) * x) % P()) + cb() % P()) % P() <==> on_eq(x, y)
{
    lemma_pn(); let m = P(); let a = (x * x) % m; let b = (a + (-3) % m) % m; let c = (b * x) % m; let d = (c + cb() % m) % m;
    cong_mod(x * x, m); cong_mod(-3, m); cong_add(a, x * x, (-3) % m, -3, m); cong_mod(a + (-3) % m, m); cong_trans(b, a + (-3) % m, x * x - 3, m);
    cong_refl(x, m); cong_mul(b, x * x - 3, x, x, m); cong_mod(b * x, m); assert((x * x - 3) * x == x * x * x - 3 * x) by (nonlinear_arith); cong_trans(c, b * x, x * x * x - 3 * x, m);
    cong_mod(cb(), m); cong_add(c, x * x * x - 3 * x, cb() % m, cb(), m); cong_mod(c + cb() % m, m); let e = x * x * x - 3 * x + cb(); cong_trans(d, c + cb() % m, e, m);
    cong_mod(y * y, m); let l = (y * y) % m;
    if l == d { cong_sym(l, y * y, m); cong_trans(y * y, l, e, m); }
    if on_eq(x, y) { cong_trans(l, y * y, e, m); cong_sym(d, e, m); cong_trans(l, e, d, m); cong_unique(l, d, m); }
}
impl JacobianMontPoint {
pub open spec fn ok(self) -> bool { jok(self.xyz@) }
pub open spec fn pt(self) -> Pt { jac(self.xyz@) }
//@const @F@ :: impl JacobianMontPoint :: X
//@ sub const X: Range<usize> = (.*); => exec const X: Range<usize> ensures Self::X.start == 0, Self::X.end == @W@ { \1 }
//@end
//@const @F@ :: impl JacobianMontPoint :: Y
//@ sub const Y: Range<usize> = (.*); => exec const Y: Range<usize> ensures Self::Y.start == @W@, Self::Y.end == @W2@ { \1 }
//@end
//@const @F@ :: impl JacobianMontPoint :: XY
//@ sub const XY: Range<usize> = (.*); => exec const XY: Range<usize> ensures Self::XY.start == 0, Self::XY.end == @W2@ { \1 }
//@end
//@const @F@ :: impl JacobianMontPoint :: Z
//@ sub const Z: Range<usize> = (.*); => exec const Z: Range<usize> ensures Self::Z.start == @W2@, Self::Z.end == @W3@ { \1 }
//@end
//@fn @F@ :: impl JacobianMontPoint :: infinity
//@ ret r
//@ spec
    ensures r.ok(), r.pt() == Pt::Inf
//@ sub Self \{\s*xyz: (\[[0-9, ]*\]),\s*\} => let r = Self { xyz: \1 }; r
//@ tail
    proof { let s = r.xyz@; lemma_small2(wd(s, 0)); lemma_small2(wd(s, 1)); lemma_val_zeros(wd(s, 2)); lemma_jac_inf(s); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: zero
//@ ret r
//@ spec
    ensures r.ok(), r.pt() == Pt::Inf
//@ sub Self \{ xyz: (\[[0-9; ]*\]) \} => let r = Self { xyz: \1 }; r
//@ tail
    proof { let s = r.xyz@; lemma_small2(wd(s, 0)); lemma_small2(wd(s, 1)); lemma_val_zeros(wd(s, 2)); lemma_jac_inf(s); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: x
//@ ret r
//@ spec
    ensures r.0@ == wd(self.xyz@, 0)
//@end
//@fn @F@ :: impl JacobianMontPoint :: y
//@ ret r
//@ spec
    ensures r.0@ == wd(self.xyz@, 1)
//@end
//@fn @F@ :: impl JacobianMontPoint :: z
//@ ret r
//@ spec
    ensures r.0@ == wd(self.xyz@, 2)
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_is_infinity
//@ ret r
//@ spec
    requires self.ok() ensures r == (self.pt() == Pt::Inf)
//@ begin
    proof { reveal(jac); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: from_affine
//@ ret r
//@ spec
    ensures p.ok() && p.pt() != Pt::Inf ==> r.ok() && r.pt() == p.pt(), wd(r.xyz@, 0) == wd(p.xy@, 0), wd(r.xyz@, 1) == wd(p.xy@, 1)
//@ sub Default::default\(\) => [0u64; @W3@]
//@ tail
    proof { assert(wd(xyz@, 0) =~= wd(p.xy@, 0)); assert(wd(xyz@, 1) =~= wd(p.xy@, 1)); assert(wd(xyz@, 2) =~= CURVE_ONE_MONT.0@); lemma_onefe(); if p.ok() && p.pt() != Pt::Inf { lemma_jac_one(xyz@, p.xy@); } }
//@end
//@fn @F@ :: impl JacobianMontPoint :: as_affine
//@ ret r
//@ spec
    requires self.ok() ensures r.ok(), r.pt() == self.pt()
//@ begin
    proof { lemma_asaff(self.xyz@); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_eq
//@ ret r
//@ spec
    requires self.ok(), other.ok(), other.pt() != Pt::Inf ensures r == (self.pt() == other.pt())
//@ begin
    proof { lemma_pubeq(other.xyz@, self.pt()); lemma_pn(); lemma_fe_zero(0); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: x_scalar
//@ ret r
//@ spec
    requires self.ok() ensures r.v() == px(self.pt()) % N(), r.ok()
//@ begin
    proof { lemma_asaff(self.xyz@); lemma_jx(self.xyz@); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: double
//@ ret r
//@ spec
    requires self.ok() ensures r.ok(), r.pt() == padd(self.pt(), self.pt())
//@end
//@fn @F@ :: impl JacobianMontPoint :: add
//@ ret r0
//@ spec
    requires self.ok(), p.ok(), self.pt() != p.pt() || self.pt() == Pt::Inf ensures r0.ok(), r0.pt() == padd(self.pt(), p.pt())
//@end
//@fn @F@ :: impl JacobianMontPoint :: add_inplace
//@ spec
    requires old(self).ok(), p.ok(), old(self).pt() != p.pt() || p.pt() == Pt::Inf ensures final(self).ok(), final(self).pt() == padd(old(self).pt(), p.pt())
//@end
//@fn @F@ :: impl JacobianMontPoint :: double_inplace_n
//@ spec
    requires old(self).ok() ensures final(self).ok(), final(self).pt() == dbln(n as nat, old(self).pt())
//@ sub for _ in 0\.\.n => for i_ in 0..n
//@ loop 1
    invariant self.ok(), self.pt() == dbln(i_ as nat, old(self).pt())
//@end
//@fn @F@ :: impl JacobianMontPoint :: lookup_w5
//@ ret o
//@ spec
    requires index <= 16 ensures forall|p: Pt| #[trigger] tab5(table@, p) ==> o.ok() && o.pt() == smul(index as int, p)
//@ tail
    proof { lemma_lookup5(table@, r.xyz@, index as int); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_lookup_w5
//@ ret o
//@ spec
    requires index <= 16 ensures forall|p: Pt| #[trigger] tab5(table@, p) ==> o.ok() && o.pt() == smul(index as int, p)
//@ tail
    proof { lemma_lookup5(table@, r.xyz@, index as int); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: negate_y
//@ spec
    requires old(self).ok() ensures final(self).ok(), final(self).pt() == neg(old(self).pt())
//@ end
    proof { let (s, t) = (old(self).xyz@, self.xyz@); assert(wd(t, 0) =~= wd(s, 0)); assert(wd(t, 2) =~= wd(s, 2)); assert(wd(t, 1) =~= neg_y.0@); lemma_jac_neg(s, t); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: maybe_negate_y
//@ spec
    requires old(self).ok() ensures final(self).ok(), final(self).pt() == (if sign == 0 { old(self).pt() } else { neg(old(self).pt()) })
//@ end
    proof { let (s, t) = (old(self).xyz@, self.xyz@); assert(wd(t, 0) =~= wd(s, 0)); assert(wd(t, 2) =~= wd(s, 2)); assert(wd(t, 1) =~= result.0@); if sign == 0 { assert(s =~= wd(s, 0) + wd(s, 1) + wd(s, 2)); assert(t =~= wd(t, 0) + wd(t, 1) + wd(t, 2)); } else { lemma_jac_neg(s, t); } }
//@end
}
pub proof fn lemma_lookup5(t: Seq<u64>, r: Seq<u64>, i: int) requires 0 <= i <= 16, t.len() == 16 * @W3@, r.len() == @W3@, i > 0 ==> r == ent5(t, i - 1), i == 0 ==> (jok(r) && jac(r) == Pt::Inf) || (forall|j: int| 0 <= j < @W3@ ==> r[j] == 0)
    ensures forall|p: Pt| #[trigger] tab5(t, p) ==> jok(r) && jac(r) == smul(i, p)
{
    assert forall|p: Pt| #[trigger] tab5(t, p) implies jok(r) && jac(r) == smul(i, p) by {
        lemma_smul_0(p);
        if i == 0 { if !(jok(r) && jac(r) == Pt::Inf) { lemma_small2(wd(r, 0)); lemma_small2(wd(r, 1)); lemma_val_zeros(wd(r, 2)); lemma_jac_inf(r); } } else { assert(jok(ent5(t, i - 1))); }
    }
}
pub open spec fn dbln(n: nat, p: Pt) -> Pt decreases n { if n == 0 { p } else { let q = dbln((n - 1) as nat, p); padd(q, q) } }
}
