// field elements, scalars and affine points of P-@C@
verus! {
//@item @F@ :: const CURVE_P
//@item @F@ :: const CURVE_ORDER
//@item @F@ :: const CURVE_ORDER_MM
//@item @F@ :: struct FieldElement
//@ attr #[derive(Clone, Copy, Debug)]
//@end
//@item @F@ :: const CURVE_A_MONT
//@item @F@ :: const CURVE_B_MONT
//@item @F@ :: const CURVE_ONE_MONT
impl Default for FieldElement { fn default() -> (r: Self) ensures val(r.0@) == 0, forall|i: int| 0 <= i < W ==> r.0@[i] == 0 { let r = Self([0u64; @W@]); proof { lemma_val_zeros(r.0@); } r } }
pub proof fn lemma_consts() ensures val(CURVE_P@) == P(), val(CURVE_ORDER@) == N(), CURVE_P@.len() == W, CURVE_ORDER@.len() == W,
    is_mont(val(CURVE_A_MONT.0@) as int, -3, P(), W), is_mont(val(CURVE_B_MONT.0@) as int, cb(), P(), W), is_mont(val(CURVE_ONE_MONT.0@) as int, 1, P(), W), cong(val(CURVE_ORDER_MM@) as int, (bp(W) * bp(W)) as int, N()), val(CURVE_ORDER_MM@) < N()
{
    lemma_limbs(CURVE_P@); lemma_limbs(CURVE_ORDER@); lemma_limbs(CURVE_ORDER_MM@); lemma_limbs(CURVE_A_MONT.0@); lemma_limbs(CURVE_B_MONT.0@); lemma_limbs(CURVE_ONE_MONT.0@); lemma_r();
    lemma_mont_consts(); assert(bp(W) == rr_m());
    assert(val(CURVE_A_MONT.0@) == a_m()); assert(val(CURVE_B_MONT.0@) == b_m()); assert(val(CURVE_ONE_MONT.0@) == one_m()); assert(val(CURVE_ORDER_MM@) == mm_m());
    cong_w(a_m(), (-3) * rr_m(), P(), q_a()); cong_w(b_m(), cb() * rr_m(), P(), q_b()); cong_w(one_m(), 1 * rr_m(), P(), q_one()); cong_w(mm_m(), rr_m() * rr_m(), N(), q_mm());
}
#[verifier::external_body] pub fn v_eq_words(a: &[u64; @W@], b: &[u64; @W@]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub proof fn lemma_val_inj(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len(), val(a) == val(b) ensures a == b decreases a.len()
{ if a.len() > 0 { lemma_val_inj(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a =~= b); } }
impl FieldElement {
//@const @F@ :: impl FieldElement :: BYTES
pub open spec fn v(self) -> int { val(self.0@) as int }
pub open spec fn ok(self) -> bool { self.v() < P() }
pub open spec fn f(self) -> int { fe(self.0@) }
//@fn @F@ :: impl FieldElement :: inv
//@ ret r
//@ spec
    ensures r.v() == minv(self.v(), P()), r.ok()
//@ tail
    proof { lemma_pn(); if self.v() % P() != 0 { axiom_prime_p(self.v()); } }
//@end
//@fn @F@ :: impl FieldElement :: mont_sqr
//@ ret r
//@ spec
    requires self.ok() ensures r.ok(), r.f() == (self.f() * self.f()) % P()
//@ begin
    proof { lemma_val_bound(self.0@); lemma_redc_exists_mul(val(self.0@), val(self.0@)); }
//@ tail
    proof { lemma_pn(); lemma_fe(self.v()); lemma_mont_mul(r.v(), self.v(), self.v(), self.f(), self.f(), P(), W); lemma_fe_of(r.v(), self.f() * self.f()); }
//@end
//@fn @F@ :: impl FieldElement :: add
//@ ret r
//@ spec
    requires self.ok(), other.ok() ensures r.ok(), r.f() == (self.f() + other.f()) % P()
//@ tail
    proof { lemma_pn(); lemma_fe(self.v()); lemma_fe(other.v()); let p = bp(W) as int; let (a, b, x, y) = (self.v(), other.v(), self.f(), other.f()); cong_mod(a + b, P()); cong_add(a, x * p, b, y * p, P());
        assert(x * p + y * p == (x + y) * p) by (nonlinear_arith); cong_trans(r.v(), a + b, (x + y) * p, P()); lemma_fe_of(r.v(), x + y); }
//@end
//@fn @F@ :: impl FieldElement :: mont_mul
//@ ret r
//@ spec
    requires self.ok(), other.ok() ensures r.ok(), r.f() == (self.f() * other.f()) % P()
//@ begin
    proof { lemma_val_bound(other.0@); lemma_redc_exists_mul(val(self.0@), val(other.0@)); }
//@ tail
    proof { lemma_pn(); lemma_fe(self.v()); lemma_fe(other.v()); lemma_mont_mul(r.v(), self.v(), other.v(), self.f(), other.f(), P(), W); lemma_fe_of(r.v(), self.f() * other.f()); }
//@end
//@fn @F@ :: impl FieldElement :: demont
//@ ret r
//@ spec
    requires self.ok() ensures r.ok(), r.v() == self.f()
//@ tail
    proof { lemma_pn(); lemma_fe(self.v()); lemma_from_mont(r.v(), self.v(), self.f(), P(), W); lemma_small_mod(self.f() as nat, P() as nat); }
//@end
//@fn @F@ :: impl FieldElement :: as_mont
//@ ret r
//@ spec
    ensures r.ok(), r.f() == self.v() % P()
//@ tail
    proof { lemma_fe_of(r.v(), self.v()); }
//@end
//@fn @F@ :: impl FieldElement :: negate_mod_p
//@ ret r
//@ spec
    requires self.ok() ensures r.ok(), r.f() == (-self.f()) % P()
//@ tail
    proof { lemma_pn(); lemma_fe(self.v()); let p = bp(W) as int; let (a, x) = (self.v(), self.f()); cong_mod(-a, P()); cong_refl(0, P()); cong_add(0, 0, a, x * p, P());
        assert(0 - x * p == (-x) * p) by (nonlinear_arith); cong_trans(r.v(), -a, (-x) * p, P()); lemma_fe_of(r.v(), -x); }
//@end
//@fn @F@ :: impl FieldElement :: public_eq
//@ ret r
//@ spec
    ensures r == (self.v() == other.v()), self.ok() && other.ok() ==> r == (self.f() == other.f())
//@ sub self\.0 == other\.0 => v_eq_words(&self.0, &other.0)
//@ begin
    proof { if self.v() == other.v() { lemma_val_inj(self.0@, other.0@); } if self.ok() && other.ok() && self.f() == other.f() { lemma_fe_inj(self.v(), other.v()); lemma_val_inj(self.0@, other.0@); } }
//@end
//@fn @F@ :: impl FieldElement :: public_is_canonical
//@ ret r
//@ spec
    ensures r == self.ok()
//@ begin
    proof { lemma_consts(); }
//@end
//@fn @F@ :: impl FieldElement :: select
//@ ret r
//@ spec
    ensures r.0@ == (if select == 0 { p0.0@ } else { p1.0@ })
//@end
}
//@item @F@ :: struct Scalar
impl Default for Scalar { fn default() -> (r: Self) ensures val(r.0@) == 0 { let r = Self([0u64; @W@]); proof { lemma_val_zeros(r.0@); } r } }
impl Scalar {
//@const @F@ :: impl Scalar :: BYTES
pub open spec fn v(self) -> int { val(self.0@) as int }
pub open spec fn ok(self) -> bool { self.v() < N() }
//@fn @F@ :: impl Scalar :: from_bytes_checked
//@ ret r
//@ spec
    ensures r.is_ok() == (0 < be_val(bytes@) < N()), r.is_ok() ==> r.unwrap().v() == be_val(bytes@)
//@ begin
    proof { lemma_lz_fits(bytes@); }
//@end
//@fn @F@ :: impl Scalar :: from_bytes_reduced
//@ ret r
//@ spec
    ensures r.is_ok() == (bytes@.len() - lz(bytes@) <= 8 * W), r.is_ok() ==> r.unwrap().v() == be_val(bytes@) as int % N() && r.unwrap().ok()
//@end
//@fn @F@ :: impl Scalar :: into_range_check
//@ ret r
//@ spec
    ensures r.is_ok() == (0 < self.v() < N()), r.is_ok() ==> r.unwrap().v() == self.v()
//@ begin
    proof { lemma_pn(); cong_mod(self.v(), N()); if self.v() < N() { lemma_small_mod(self.v() as nat, N() as nat); } }
//@end
//@fn @F@ :: impl Scalar :: as_bytes
//@ ret r
//@ spec
    ensures be_val(r@) == self.v()
//@ sub sig Self::BYTES => @BB@
//@end
//@fn @F@ :: impl Scalar :: is_zero
//@ ret r
//@ spec
    ensures r == (self.v() == 0)
//@end
//@fn @F@ :: impl Scalar :: private_eq
//@ ret r
//@ spec
    ensures r == (self.v() == other.v())
//@end
//@fn @F@ :: impl Scalar :: public_eq
//@ ret r
//@ spec
    ensures r == (self.v() == other.v())
//@end
//@fn @F@ :: impl Scalar :: reduce_mod_n
//@ ret r
//@ spec
    ensures r.v() == self.v() % N(), r.ok()
//@ begin
    proof { lemma_pn(); lemma_mod_bound(self.v(), N()); }
//@end
// the number a Montgomery-form scalar stands for
pub open spec fn m(self) -> int { demont(self.v(), N(), W) }
//@fn @F@ :: impl Scalar :: demont
//@ ret r
//@ spec
    ensures is_redc(r.v(), self.v(), N(), W), self.ok() ==> r.ok() && r.v() == self.m()
//@ begin
    proof { lemma_consts(); lemma_pn(); }
//@ tail
    proof { if self.ok() { lemma_demont(self.v(), N(), W); lemma_from_mont(r.v(), self.v(), self.m(), N(), W); lemma_small_mod(self.m() as nat, N() as nat); } }
//@end
//@fn @F@ :: impl Scalar :: as_mont
//@ ret r
//@ spec
    ensures is_mont(r.v(), self.v(), N(), W), r.ok(), r.m() == self.v() % N()
//@ begin
    proof { lemma_consts(); lemma_pn(); lemma_val_bound(self.0@); let (a, b) = (val(self.0@), val(CURVE_ORDER_MM@)); assert(a * b <= bp(W) * N()) by (nonlinear_arith) requires 0 <= a < bp(W), 0 <= b < N(); }
//@ tail
    proof { lemma_to_mont(r.v(), self.v(), val(CURVE_ORDER_MM@) as int, N(), W); lemma_demont_of(r.v(), self.v(), N(), W); }
//@end
//@fn @F@ :: impl Scalar :: mont_mul
//@ ret r
//@ spec
    requires self.ok() || other.ok() ensures is_redc(r.v(), self.v() * other.v(), N(), W), r.ok(), other.ok() ==> r.v() == (self.v() * other.m()) % N(), self.ok() && other.ok() ==> r.m() == (self.m() * other.m()) % N()
//@ tail
    proof { if other.ok() { lemma_demont(other.v(), N(), W); lemma_mm(r.v(), self.v(), other.v(), other.m()); if self.ok() { lemma_demont(self.v(), N(), W); lemma_mont_mul(r.v(), self.v(), other.v(), self.m(), other.m(), N(), W); lemma_demont_of(r.v(), self.m() * other.m(), N(), W); } } }
//@ begin
    proof { lemma_consts(); lemma_pn(); lemma_val_bound(self.0@); lemma_val_bound(other.0@); let (a, b) = (val(self.0@), val(other.0@)); 
        if a < N() { assert(a * b <= bp(W) * N()) by (nonlinear_arith) requires 0 <= a < N(), 0 <= b < bp(W); } else { assert(a * b <= bp(W) * N()) by (nonlinear_arith) requires 0 <= a < bp(W), 0 <= b < N(); } }
//@end
//@fn @F@ :: impl Scalar :: inv
//@ ret r
//@ spec
    requires 0 < self.v() < N() ensures r.v() == minv(self.v(), N()), 0 < r.v() < N()
//@ begin
    proof { lemma_consts(); lemma_pn(); lemma_small_mod(self.v() as nat, N() as nat); axiom_prime_n(self.v()); }
//@end
//@fn @F@ :: impl Scalar :: add
//@ ret r
//@ spec
    requires self.ok(), other.ok() ensures r.v() == (self.v() + other.v()) % N(), r.ok()
//@ begin
    proof { lemma_consts(); lemma_pn(); lemma_mod_bound(self.v() + other.v(), N()); }
//@end
//@fn @F@ :: impl Drop for Scalar :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
pub proof fn lemma_mm(r: int, a: int, b: int, y: int) requires is_redc(r, a * b, N(), W), 0 <= r < N(), is_mont(b, y, N(), W) ensures r == (a * y) % N()
{ lemma_pn(); let m = N(); let p = bp(W) as int; cong_refl(a, m); cong_mul(a, a, b, y * p, m); assert(a * (y * p) == (a * y) * p) by (nonlinear_arith); cong_trans(r * p, a * b, (a * y) * p, m); cong_cancel(r, a * y, m, W); cong_is_mod(r, a * y, m); }
// a number below N has at most 8W significant bytes
pub proof fn lemma_lz_fits(s: Seq<u8>) ensures be_val(s) < N() ==> s.len() - lz(s) <= 8 * W
{
    lemma_lz(s); let i = lz(s) as int; lemma_be_trim(s, i); let t = s.skip(i); lemma_pn(); lemma_p256_bp(W);
    if t.len() > 8 * W { assert(t[0] != 0); assert(t =~= t.take(1) + t.skip(1)); lemma_be_append(t.take(1), t.skip(1)); let h = t.take(1); assert(h.drop_last() =~= Seq::empty()); assert(be_val(h.drop_last()) == 0); assert(be_val(h) == t[0]);
        lemma_p256_mono(8 * W, t.skip(1).len()); let (x, y) = (be_val(h), p256(t.skip(1).len())); assert(x * y >= y) by (nonlinear_arith) requires x >= 1, y >= 0; }
}
}
