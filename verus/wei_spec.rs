// short Weierstrass curves y^2 = x^3 - 3x + b over GF(P) with a prime number N of points; Jacobian coordinates in Montgomery form
verus! {
pub enum Pt { Inf, Aff(int, int) }
pub open spec fn minv(a: int, m: int) -> int { if a % m == 0 { 0 } else { choose|r: int| 0 <= r < m && #[trigger] cong(a * r, 1, m) } }
pub open spec fn on_eq(x: int, y: int) -> bool { cong(y * y, x * x * x - 3 * x + cb(), P()) }
pub open spec fn on(p: Pt) -> bool { match p { Pt::Inf => true, Pt::Aff(x, y) => 0 <= x < P() && 0 <= y < P() && on_eq(x, y) } }
pub open spec fn neg(p: Pt) -> Pt { match p { Pt::Inf => Pt::Inf, Pt::Aff(x, y) => Pt::Aff(x, (-y) % P()) } }
// chord and tangent
pub open spec fn lam(x1: int, y1: int, x2: int, y2: int) -> int { if x1 == x2 { (3 * x1 * x1 - 3) * minv(2 * y1, P()) } else { (y2 - y1) * minv(x2 - x1, P()) } }
pub open spec fn padd(p: Pt, q: Pt) -> Pt {
    match (p, q) {
        (Pt::Inf, _) => q, (_, Pt::Inf) => p,
        (Pt::Aff(x1, y1), Pt::Aff(x2, y2)) => if x1 == x2 && (y1 + y2) % P() == 0 { Pt::Inf } else {
            let l = lam(x1, y1, x2, y2); let x3 = (l * l - x1 - x2) % P(); Pt::Aff(x3, (l * (x1 - x3) - y1) % P()) },
    }
}
pub open spec fn G() -> Pt { Pt::Aff(gx(), gy()) }
pub open spec fn nmul(k: nat, p: Pt) -> Pt decreases k { if k == 0 { Pt::Inf } else { padd(nmul((k - 1) as nat, p), p) } }
#[verifier::opaque] pub open spec fn smul(k: int, p: Pt) -> Pt { nmul((k % N()) as nat, p) }
// trusted mathematics: the points form an abelian group of prime order N; P and N are prime
pub axiom fn axiom_group(a: Pt, b: Pt, c: Pt) requires on(a), on(b), on(c) ensures on(padd(a, b)), padd(a, b) == padd(b, a), padd(padd(a, b), c) == padd(a, padd(b, c));
pub axiom fn axiom_order(p: Pt, k: nat) requires on(p), p != Pt::Inf ensures (nmul(k, p) == Pt::Inf) == (k as int % N() == 0);
pub axiom fn axiom_prime_p(a: int) requires a % P() != 0 ensures 0 < minv(a, P()) < P(), cong(a * minv(a, P()), 1, P());
pub axiom fn axiom_prime_n(a: int) requires a % N() != 0 ensures 0 < minv(a, N()) < N(), cong(a * minv(a, N()), 1, N());

pub proof fn lemma_pn() ensures odd(P()), odd(N()), P() > 0x1_0000_0000_0000_0000, N() > 0x1_0000_0000_0000_0000, P() < bp(W), N() < bp(W), 2 * N() > bp(W), W > 0 { lemma_r(); }
pub proof fn lemma_g_on() ensures on(G()), G() != Pt::Inf { assert(gy() * gy() - (gx() * gx() * gx() - 3 * gx() + cb()) == q_g() * P()) by (compute_only); assert(0 <= gx() < P() && 0 <= gy() < P()) by (compute_only); cong_w(gy() * gy(), gx() * gx() * gx() - 3 * gx() + cb(), P(), q_g()); }
pub proof fn lemma_on_neg(p: Pt) requires on(p) ensures on(neg(p)), padd(p, neg(p)) == Pt::Inf
{ match p { Pt::Inf => {}, Pt::Aff(x, y) => { lemma_pn(); let z = (-y) % P(); cong_mod(-y, P()); cong_mul(z, -y, z, -y, P()); assert((-y) * (-y) == y * y) by (nonlinear_arith); cong_trans(z * z, y * y, x * x * x - 3 * x + cb(), P());
    if y == 0 { lemma_small_mod(0, P() as nat); } else { lemma_fundamental_div_mod_converse(-y, P(), -1, P() - y); assert(z == P() - y); lemma_mod_self_0(P()); } assert((y + z) % P() == 0) by { if y == 0 { lemma_small_mod(0, P() as nat); } } } } }
pub proof fn lemma_nmul_on(k: nat, p: Pt) requires on(p) ensures on(nmul(k, p)) decreases k
{ if k > 0 { lemma_nmul_on((k - 1) as nat, p); axiom_group(nmul((k - 1) as nat, p), p, p); } }
pub proof fn lemma_nmul_add(a: nat, b: nat, p: Pt) requires on(p) ensures nmul(a + b, p) == padd(nmul(a, p), nmul(b, p)) decreases b
{ if b > 0 { lemma_nmul_add(a, (b - 1) as nat, p); lemma_nmul_on(a, p); lemma_nmul_on((b - 1) as nat, p); axiom_group(nmul(a, p), nmul((b - 1) as nat, p), p); assert((a + b - 1) as nat == a + (b - 1) as nat); } }
pub proof fn lemma_smul_on(k: int, p: Pt) requires on(p) ensures on(smul(k, p)) { reveal(smul); lemma_nmul_on((k % N()) as nat, p); }
pub proof fn lemma_smul_inf(k: int, p: Pt) requires on(p), p != Pt::Inf ensures (smul(k, p) == Pt::Inf) == (k % N() == 0)
{ reveal(smul); lemma_pn(); lemma_mod_bound(k, N()); axiom_order(p, (k % N()) as nat); lemma_mod_twice(k, N()); }
pub proof fn lemma_smul_add(a: int, b: int, p: Pt) requires on(p) ensures smul(a + b, p) == padd(smul(a, p), smul(b, p))
{
    reveal(smul); lemma_pn(); let (x, y) = (a % N(), b % N()); lemma_mod_bound(a, N()); lemma_mod_bound(b, N());
    lemma_nmul_add(x as nat, y as nat, p); lemma_add_mod_noop(a, b, N());
    if x + y < N() { lemma_small_mod((x + y) as nat, N() as nat); }
    else {
        let z = x + y - N(); lemma_fundamental_div_mod_converse(x + y, N(), 1, z); lemma_nmul_add(N() as nat, z as nat, p);
        if p != Pt::Inf { axiom_order(p, N() as nat); lemma_mod_self_0(N()); } else { lemma_nmul_inf(N() as nat); }
    }
}
pub proof fn lemma_nmul_inf(k: nat) ensures nmul(k, Pt::Inf) == Pt::Inf decreases k { if k > 0 { lemma_nmul_inf((k - 1) as nat); } }
pub proof fn lemma_smul_0(p: Pt) ensures smul(0, p) == Pt::Inf { reveal(smul); lemma_pn(); lemma_small_mod(0, N() as nat); }
pub proof fn lemma_smul_1(p: Pt) ensures smul(1, p) == p { reveal(smul); lemma_pn(); lemma_small_mod(1, N() as nat); reveal_with_fuel(nmul, 3); }
pub proof fn lemma_smul_dbl(k: int, p: Pt) requires on(p) ensures smul(2 * k, p) == padd(smul(k, p), smul(k, p)) { lemma_smul_add(k, k, p); assert(k + k == 2 * k); }
pub proof fn lemma_smul_neg(k: int, p: Pt) requires on(p) ensures smul(-k, p) == neg(smul(k, p))
{
    lemma_smul_add(k, -k, p); lemma_smul_0(p); lemma_smul_on(k, p); lemma_smul_on(-k, p); lemma_pn();
    match (smul(k, p), smul(-k, p)) { (Pt::Aff(x, y), Pt::Aff(u, v)) => { assert(u == x && (y + v) % P() == 0); 
        if y == 0 { lemma_small_mod(v as nat, P() as nat); lemma_small_mod(0, P() as nat); assert(-y == 0); }
        else { lemma_fundamental_div_mod_converse(-y, P(), -1, P() - y); if y + v < P() { lemma_small_mod((y + v) as nat, P() as nat); } else { lemma_fundamental_div_mod_converse(y + v, P(), 1, y + v - P()); } } }, _ => {} }
}
pub proof fn lemma_smul_eq(a: int, b: int, p: Pt) requires on(p), p != Pt::Inf ensures (smul(a, p) == smul(b, p)) == ((a - b) % N() == 0)
{
    lemma_smul_add(a, -b, p); lemma_smul_neg(b, p); lemma_smul_inf(a - b, p); lemma_smul_on(b, p); lemma_on_neg(smul(b, p)); assert(a + -b == a - b);
    if (a - b) % N() == 0 { reveal(smul); lemma_pn(); lemma_mod_equiv(a, b); }
}
pub proof fn lemma_mod_equiv(a: int, b: int) requires (a - b) % N() == 0 ensures a % N() == b % N()
{ lemma_pn(); lemma_fundamental_div_mod(a - b, N()); let t = (a - b) / N(); lemma_mod_multiples_vanish(t, b, N()); assert(N() * t + b == a); }
// no multiple of N strictly between
pub proof fn lemma_nonzero_mod(a: int) requires 0 < a < N() || -N() < a < 0 ensures a % N() != 0
{ lemma_pn(); if a > 0 { lemma_small_mod(a as nat, N() as nat); } else { lemma_fundamental_div_mod_converse(a, N(), -1, a + N()); } }

// ---- field elements and coordinates as words
pub open spec fn fe(w: Seq<u64>) -> int { demont(val(w) as int, P(), W) }
pub open spec fn wd(s: Seq<u64>, i: int) -> Seq<u64> { s.subrange(i * W, i * W + W) }
pub open spec fn red(w: Seq<u64>) -> bool { val(w) < P() }
pub open spec fn aff(s: Seq<u64>) -> Pt { if val(wd(s, 0)) == 0 && val(wd(s, 1)) == 0 { Pt::Inf } else { Pt::Aff(fe(wd(s, 0)), fe(wd(s, 1))) } }
pub open spec fn aok(s: Seq<u64>) -> bool { s.len() == 2 * W && red(wd(s, 0)) && red(wd(s, 1)) && on(aff(s)) }
pub open spec fn z2(z: int) -> int { (z * z) % P() }
pub open spec fn z3(z: int) -> int { (z * z2(z)) % P() }
pub open spec fn jac_xy(x: int, y: int, z: int) -> Pt { Pt::Aff((x * minv(z2(z), P())) % P(), (y * minv(z3(z), P())) % P()) }
#[verifier::opaque] pub open spec fn jac(s: Seq<u64>) -> Pt { if val(wd(s, 2)) == 0 { Pt::Inf } else { jac_xy(fe(wd(s, 0)), fe(wd(s, 1)), fe(wd(s, 2))) } }
pub open spec fn jok(s: Seq<u64>) -> bool { s.len() == 3 * W && red(wd(s, 0)) && red(wd(s, 1)) && red(wd(s, 2)) && on(jac(s)) }

pub proof fn lemma_fe(a: int) requires 0 <= a < P() ensures is_mont(a, demont(a, P(), W), P(), W), 0 <= demont(a, P(), W) < P() { lemma_pn(); lemma_demont(a, P(), W); }
pub proof fn lemma_fe_of(r: int, x: int) requires is_mont(r, x, P(), W) ensures demont(r, P(), W) == x % P() { lemma_pn(); lemma_demont_of(r, x, P(), W); }
pub proof fn lemma_fe_zero(a: int) requires 0 <= a < P() ensures (demont(a, P(), W) == 0) == (a == 0)
{ lemma_fe(a); lemma_pn(); cong_refl(0, P()); assert(0 * bp(W) == 0); if a == 0 { lemma_fe_of(0, 0); lemma_small_mod(0, P() as nat); } else if demont(a, P(), W) == 0 { cong_unique(a, 0, P()); } }
pub proof fn lemma_fe_inj(a: int, b: int) requires 0 <= a < P(), 0 <= b < P(), demont(a, P(), W) == demont(b, P(), W) ensures a == b
{ lemma_fe(a); lemma_fe(b); let t = demont(a, P(), W) * bp(W); cong_sym(b, t, P()); cong_trans(a, t, b, P()); cong_unique(a, b, P()); }
pub proof fn lemma_redc_exists_mul(x: nat, y: nat) requires x < P(), y < bp(W) ensures x * y <= bp(W) * P() { assert(x * y <= bp(W) * P()) by (nonlinear_arith) requires x < P(), y < bp(W), x >= 0, y >= 0; }
// a product with the inverse cancels
pub proof fn lemma_div_eq(a: int, d: int, b: int) requires 0 <= a < P(), 0 <= b < P(), d % P() != 0 ensures ((a * minv(d, P())) % P() == b) == ((b * d) % P() == a)
{
    lemma_pn(); axiom_prime_p(d); let i = minv(d, P()); let m = P();
    if (a * i) % m == b { cong_mod(a * i, m); cong_refl(d, m); cong_mul(b, a * i, d, d, m); assert((a * i) * d == a * (d * i)) by (nonlinear_arith); cong_refl(a, m); cong_mul(a, a, d * i, 1, m); cong_trans(b * d, a * (d * i), a, m); cong_sym(b * d, a, m); cong_is_mod(a, b * d, m); }
    if (b * d) % m == a { cong_mod(b * d, m); cong_refl(i, m); cong_mul(a, b * d, i, i, m); assert((b * d) * i == b * (d * i)) by (nonlinear_arith); cong_refl(b, m); cong_mul(b, b, d * i, 1, m); cong_trans(a * i, b * (d * i), b, m); cong_sym(a * i, b, m); cong_is_mod(b, a * i, m); }
}
// the powers of a non-zero z are non-zero
pub proof fn lemma_z_powers(z: int) requires 0 < z < P() ensures z2(z) % P() != 0, z3(z) % P() != 0
{
    lemma_pn(); let m = P(); lemma_small_mod(z as nat, m as nat); axiom_prime_p(z); let i = minv(z, m);
    lemma_mod_twice(z * z, m); lemma_mod_twice(z * z2(z), m);
    if z2(z) == 0 { cong_mod(z * z, m); cong_sym(0, z * z, m); lemma_nozero(z, z); }
    if z3(z) == 0 { cong_mod(z * z2(z), m); cong_sym(0, z * z2(z), m); lemma_mod_bound(z * z, m); lemma_small_mod(z2(z) as nat, m as nat); lemma_nozero(z, z2(z)); }
}
pub proof fn lemma_nozero(z: int, w: int) requires z % P() != 0, w % P() != 0, cong(z * w, 0, P()) ensures false
{ lemma_pn(); let m = P(); axiom_prime_p(z); let i = minv(z, m); cong_refl(i, m); cong_mul(z * w, 0, i, i, m); assert((z * w) * i == w * (z * i)) by (nonlinear_arith); assert(0 * i == 0); cong_refl(w, m); cong_mul(w, w, z * i, 1, m);
  cong_sym(w * (z * i), w, m); cong_trans(w, w * (z * i), 0, m); cong_sym(w, 0, m); cong_is_mod0(w, m); }
pub proof fn cong_is_mod0(w: int, m: int) requires cong(0, w, m), m > 0 ensures w % m == 0 { cong_is_mod(0, w, m); }
// signed window digits (Booth): 2k shifted, rounded
pub open spec fn T(k: nat, i: nat) -> nat { 2 * k / pow2(i) }
pub open spec fn R(k: nat, i: nat) -> int { (T(k, i) + 1) as int / 2 }
pub open spec fn sgn(d: u8, s: u8) -> int { if s == 0 { d as int } else { -(d as int) } }
pub proof fn lemma_T_step(k: nat, i: nat, j: nat) ensures T(k, i + j) == T(k, i) / pow2(j)
{ lemma_pow2_adds(i, j); lemma_pow2_pos(i); lemma_pow2_pos(j); lemma_div_denominator((2 * k) as int, pow2(i) as int, pow2(j) as int); }
// the rounded part is within half a unit
pub proof fn lemma_R_bound(k: nat, i: nat) requires i > 0 ensures -(pow2((i - 1) as nat) as int) <= k - pow2(i) * R(k, i) <= pow2((i - 1) as nat)
{
    lemma_pow2_unfold(i); let h = pow2((i - 1) as nat) as int; lemma_pow2_pos((i - 1) as nat); lemma_pow2_pos(i); let m = pow2(i) as int; assert(m == 2 * h);
    let t = T(k, i) as int; lemma_fundamental_div_mod((2 * k) as int, m); lemma_mod_bound((2 * k) as int, m); let r = R(k, i);
    assert(2 * r == t || 2 * r == t + 1);
    assert(2 * (m * r) == m * t || 2 * (m * r) == m * t + m) by (nonlinear_arith) requires 2 * r == t || 2 * r == t + 1;
}
// five further bits
pub proof fn lemma_R5(k: nat, i: nat, v: int) requires v == T(k, i) % 64 ensures R(k, i) - 32 * R(k, i + 5) == (v + 1) / 2 - (if v >= 32 { 32int } else { 0 })
{ lemma_T_step(k, i, 5); lemma2_to64(); assert(pow2(5) == 32); let t = T(k, i) as int; let u = T(k, i + 5) as int; assert(u == t / 32); }
pub proof fn lemma_R7(k: nat, i: nat, v: int) requires v == T(k, i) % 256 ensures R(k, i) - 128 * R(k, i + 7) == (v + 1) / 2 - (if v >= 128 { 128int } else { 0 })
{ lemma_T_step(k, i, 7); lemma2_to64(); assert(pow2(7) == 128); let t = T(k, i) as int; let u = T(k, i + 7) as int; assert(u == t / 128); }
pub proof fn lemma_window_arith(w: int, y: int, s: nat, p: int) requires 0 <= w < 65536, y >= 0, s < 8, p == pow2(s) ensures (w + 65536 * y) / p % 256 == (w / p) % 256
{
    lemma_pow2_adds(s, (8 - s) as nat); lemma2_to64(); lemma_pow2_pos(s); let d = pow2((8 - s) as nat) as int; assert(p * d == 256);
    lemma_fundamental_div_mod(w, p); lemma_mod_bound(w, p); let q = w / p; let e = d * y;
    assert(w + 65536 * y == (q + 256 * e) * p + w % p) by (nonlinear_arith) requires p * d == 256, w == p * q + w % p, e == d * y;
    lemma_fundamental_div_mod_converse(w + 65536 * y, p, q + 256 * e, w % p); lemma_mod_multiples_vanish(e, q, 256);
}
// a 16-bit window of the little-endian bytes
pub proof fn lemma_window(b: Seq<u8>, i: nat) requires i > 0, (i - 1) / 8 + 1 < b.len()
    ensures T(le_val(b), i) % 256 == ((b[(i - 1) / 8] + 256 * b[(i - 1) / 8 + 1]) / pow2(((i - 1) % 8) as nat) as int) % 256, pow2(((i - 1) % 8) as nat) > 0
{
    let o = (i - 1) / 8; let s = ((i - 1) % 8) as nat; let k = le_val(b) as int; let c = b.skip(o);
    assert(b =~= b.take(o) + c); lemma_le_append(b.take(o), c); lemma_le_bound(b.take(o)); lemma_p256_pow2(o as nat); lemma_pow2_pos((8 * o) as nat);
    let q = pow2((8 * o) as nat) as int; let x = le_val(c) as int; let lo = le_val(b.take(o)) as int;
    assert(k == x * q + lo) by (nonlinear_arith) requires k == lo + q * x; lemma_fundamental_div_mod_converse(k, q, x, lo);
    // 2k / 2^i == k / 2^(i-1)
    lemma_pow2_unfold(i); lemma_pow2_pos((i - 1) as nat); lemma_div_denominator(2 * k, 2, pow2((i - 1) as nat) as int); assert(2 * k / 2 == k);
    assert((i - 1) as nat == (8 * o) as nat + s); lemma_pow2_adds((8 * o) as nat, s); lemma_pow2_pos(s); lemma_div_denominator(k, q, pow2(s) as int);
    assert(T(le_val(b), i) == x / (pow2(s) as int));
    let d = c.skip(1); assert(c[0] == b[o]); assert(d[0] == b[o + 1]); let y = le_val(d.skip(1)) as int; let w = b[o] + 256 * b[o + 1];
    assert(x == c[0] + 256 * le_val(d)); assert(le_val(d) == d[0] + 256 * y);
    assert(x == w + 65536 * y);
    let p = pow2(s) as int;
    lemma_window_arith(w, y, s, p);
    assert(x / p % 256 == (w / p) % 256);
}
pub proof fn lemma_window0(b: Seq<u8>) requires b.len() > 0 ensures T(le_val(b), 0) % 256 == (2 * b[0]) % 256
{ lemma2_to64(); let x = le_val(b.skip(1)); assert(2 * le_val(b) == 2 * b[0] + 512 * x); let k = 2 * le_val(b) as int; assert(k / 1 == k); }
pub proof fn lemma_R_top(k: nat, i: nat) requires 2 * k < pow2(i) ensures R(k, i) == 0, T(k, i) == 0 { lemma_basic_div((2 * k) as int, pow2(i) as int); }
pub proof fn lemma_R_0(k: nat) ensures R(k, 0) == k { lemma2_to64(); assert((2 * k) as int / 1 == 2 * k); }
}
