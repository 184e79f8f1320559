// window recoding and scalar multiplication (5-bit windows) for P-@C@
verus! {
use vstd::bits::*;
pub proof fn lemma_words_le(w: Seq<u64>, b: Seq<u8>) requires b.len() == 8 * w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] b.subrange(8 * i, 8 * i + 8) == le(w[i] as nat, 8) ensures le_val(b) == val(w) decreases w.len()
{
    if w.len() > 0 { let (h, t) = (b.subrange(0, 8), b.subrange(8, b.len() as int)); assert(h =~= b.subrange(8 * 0int, 8 * 0int + 8)); assert forall|i: int| 0 <= i < w.skip(1).len() implies #[trigger] t.subrange(8 * i, 8 * i + 8) == le(w.skip(1)[i] as nat, 8) by { assert(t.subrange(8 * i, 8 * i + 8) =~= b.subrange(8 * (i + 1), 8 * (i + 1) + 8)); }
      lemma_words_le(w.skip(1), t); assert(b =~= h + t); lemma_le_append(h, t); lemma_le_of(w[0] as nat, 8); lemma_p256_bp(1); lemma_p256_pow2(8); lemma2_to64(); lemma2_to64_rest(); lemma_small_mod(w[0] as nat, p256(8)); assert(p256(8) == 0x1_0000_0000_0000_0000); }
    else { assert(b =~= Seq::empty()); assert(w =~= Seq::empty()); assert(le_val(b) == 0); assert(val(w) == 0); }
}
pub proof fn lemma_le_pad(b: Seq<u8>) requires b.len() > 0, b.last() == 0 ensures le_val(b) == le_val(b.drop_last())
{ let t = seq![0u8]; assert(b =~= b.drop_last() + t); lemma_le_append(b.drop_last(), t); assert(t.skip(1) =~= Seq::empty()); assert(le_val(t.skip(1)) == 0); assert(le_val(t) == 0); }
pub proof fn lemma_recode5(v: u8) requires v < 64
    ensures v < 32 ==> (v >> 5) == 0, v >= 32 ==> (v >> 5) == 1, v >> 5 <= 1
{ assert(v < 32 ==> (v >> 5) == 0) by (bit_vector); assert(32 <= v < 64 ==> (v >> 5) == 1) by (bit_vector); }
pub proof fn lemma_win(a: u8, b: u8, sh: usize) requires sh < 8 ensures ((((a as u16) | ((b as u16) << 8)) >> sh) as u8) as int == ((a + 256 * b) / pow2(sh as nat) as int) % 256
{
    let w = (a as u16) | ((b as u16) << 8); assert(w == a + 256 * b) by (bit_vector) requires w == (a as u16) | ((b as u16) << 8);
    lemma2_to64(); assert(sh == 0 ==> w >> sh == w) by (bit_vector); assert(sh == 1 ==> w >> sh == w / 2) by (bit_vector); assert(sh == 2 ==> w >> sh == w / 4) by (bit_vector); assert(sh == 3 ==> w >> sh == w / 8) by (bit_vector);
    assert(sh == 4 ==> w >> sh == w / 16) by (bit_vector); assert(sh == 5 ==> w >> sh == w / 32) by (bit_vector); assert(sh == 6 ==> w >> sh == w / 64) by (bit_vector); assert(sh == 7 ==> w >> sh == w / 128) by (bit_vector);
    let x = w >> sh; assert(x as u8 == (x % 256) as u8) by (bit_vector); let n = sh as nat;
    assert(x == w as int / pow2(n) as int) by { if n == 0 { assert(pow2(0) == 1); assert(w as int / 1 == w as int); } else if n == 1 { assert(pow2(1) == 2); } else if n == 2 { assert(pow2(2) == 4); } else if n == 3 { assert(pow2(3) == 8); } else if n == 4 { assert(pow2(4) == 16); } else if n == 5 { assert(pow2(5) == 32); } else if n == 6 { assert(pow2(6) == 64); } else { assert(pow2(7) == 128); } }
}
pub proof fn lemma_mask5(v: u8) ensures v & 63 == v % 64 { assert(v & 63 == v % 64) by (bit_vector); }
pub proof fn lemma_dbl5(a: int, p: Pt) requires on(p) ensures dbln(5, smul(a, p)) == smul(32 * a, p)
{ reveal_with_fuel(dbln, 6); lemma_smul_dbl(a, p); lemma_smul_dbl(2 * a, p); lemma_smul_dbl(4 * a, p); lemma_smul_dbl(8 * a, p); lemma_smul_dbl(16 * a, p);
  assert(2 * (2 * a) == 4 * a && 2 * (4 * a) == 8 * a && 2 * (8 * a) == 16 * a && 2 * (16 * a) == 32 * a); }
// the accumulator and the next term differ (or the term is the point at infinity)
pub proof fn lemma_differ5(k: nat, i: nat, p: Pt) requires k < N(), on(p), p != Pt::Inf, i == 0 || i >= 5, -16 <= R(k, i) - 32 * R(k, i + 5) <= 16
    ensures smul(32 * R(k, i + 5), p) != smul(R(k, i) - 32 * R(k, i + 5), p) || smul(R(k, i) - 32 * R(k, i + 5), p) == Pt::Inf
{
    let rr = R(k, i + 5); let a = 32 * rr; let d = R(k, i) - a; lemma_pn(); lemma_R_bound(k, i + 5); lemma_pow2_pos(i); lemma_pow2_adds(i, 5); lemma_pow2_adds(i, 4); lemma2_to64();
    let m = pow2(i) as int; assert(pow2(i + 5) == 32 * m && pow2((i + 5 - 1) as nat) == 16 * m) by { assert((i + 5 - 1) as nat == i + 4); assert(pow2(4) == 16); assert(pow2(5) == 32); }
    assert(rr >= 0); assert(a * m <= k + 16 * m) by { assert((32 * m) * rr == a * m) by (nonlinear_arith) requires a == 32 * rr; }
    if d == 0 { lemma_smul_0(p); } else {
        lemma_smul_eq(a, d, p); let z = a - d;
        if i == 0 {
            assert(m == 1); lemma_R_0(k); assert(a + d == k); assert(N() % 32 == 17 || N() % 32 == 19) by (compute_only);
            assert(z != 0); assert(z != N());
            if z < N() { lemma_nonzero_mod(z); } else { let q = z - N(); lemma_fundamental_div_mod_converse(z, N(), 1, q); }
        } else {
            if i == 5 { } else { lemma_pow2_strictly_increases(5, i); }
            assert(m >= 32); if a > 16 { assert((a - 16) * m >= (a - 16) * 32) by (nonlinear_arith) requires a > 16, m >= 32; assert((a - 16) * m == a * m - 16 * m) by (nonlinear_arith); }
            lemma_nonzero_mod(z);
        }
    }
}
impl Scalar {
//@fn @F@ :: impl Scalar :: reversed_booth_recoded_w5
//@ ret r
//@ spec
    ensures le_val(r.bytes@) == self.v(), r.index == @TOP@
//@end
}
pub proof fn lemma_v64(t: nat, u: u8) requires t % 256 == u ensures (u & 63) == t % 64, (u & 63) < 64 { lemma_mask5(u); }
pub proof fn lemma_next0(b: Seq<u8>) requires b.len() > 0 ensures (b[0] << 1) & 63 < 64, ({ let v = (b[0] << 1) & 63; R(le_val(b), 0) - 32 * R(le_val(b), 5) == (v + 1) / 2 - (if v >= 32 { 32int } else { 0 }) })
{ hide(T); hide(R); hide(le_val); hide(pow2); lemma_window0(b); let c = b[0]; assert(c < 128 ==> c << 1 == 2 * c) by (bit_vector); assert(c >= 128 ==> c << 1 == 2 * c - 256) by (bit_vector); let u = (c << 1) & 63; lemma_v64(T(le_val(b), 0), c << 1); lemma_R5(le_val(b), 0, u as int); assert((0 + 5) as nat == 5); }
pub open spec fn win(b: Seq<u8>, i: nat) -> u8 { (((b[(i - 1) / 8] as u16) | ((b[(i - 1) / 8 + 1] as u16) << 8)) >> (((i - 1) % 8) as usize)) as u8 & 63 }
#[verifier::spinoff_prover] pub proof fn lemma_nexti(b: Seq<u8>, i: nat) requires i > 0, (i - 1) / 8 + 1 < b.len() ensures win(b, i) < 64, ({ let v = win(b, i); R(le_val(b), i) - 32 * R(le_val(b), i + 5) == (v + 1) / 2 - (if v >= 32 { 32int } else { 0 }) })
{ hide(T); hide(R); hide(le_val); hide(pow2); lemma_window(b, i); let o = (i - 1) / 8; let sh = ((i - 1) % 8) as usize; let (x, y) = (b[o], b[o + 1]); lemma_win(x, y, sh); let u = (((x as u16) | ((y as u16) << 8)) >> sh) as u8; lemma_v64(T(le_val(b), i), u); lemma_R5(le_val(b), i, (u & 63) as int); }
//@item @F@ :: struct BoothRecodeW5
//@end
impl BoothRecodeW5 {
pub open spec fn k(self) -> nat { le_val(self.bytes@) }
//@fn @F@ :: impl BoothRecodeW5 :: new
//@ ret r
//@ spec
    ensures le_val(r.bytes@) == scalar.v(), r.index == @TOP@
//@ tail
    proof { let c = bytes@.drop_last(); lemma_le_pad(bytes@); assert forall|i: int| 0 <= i < W implies #[trigger] c.subrange(8 * i, 8 * i + 8) == le(scalar.0@[i] as nat, 8) by { assert(c.subrange(8 * i, 8 * i + 8) =~= le(scalar.0@[i] as nat, 8)); } lemma_words_le(scalar.0@, c); }
//@end
//@fn @F@ :: impl BoothRecodeW5 :: recode
//@ ret r
//@ spec
    requires v < 64 ensures r.0 <= 16, r.1 <= 1, sgn(r.0, r.1) == (v + 1) / 2 - (if v >= 32 { 32int } else { 0 })
//@ begin
    proof { lemma_recode5(v); assert((1u16 << 6) == 64) by (bit_vector); assert(!0u8 == 255u8 && !255u8 == 0u8) by (bit_vector); assert(forall|d: u8| #![auto] d & 0 == 0 && d & 255 == d && 0 | d == d && d | 0 == d) by (bit_vector);
      assert(forall|d: u8| #![auto] d >> 1 == d / 2 && d & 1 == d % 2) by (bit_vector); assert(1u8 & 1 == 1u8 && 0u8 & 1 == 0u8 && 255u8 & 1 == 1) by (bit_vector);
      let x = (63 - v) as u16; assert(x < 64 ==> x as u8 == x) by (bit_vector); }
//@end
//@fn @F@ :: impl Iterator for BoothRecodeW5 :: next
//@ ret r
//@ sub sig Self::Item => (u8, u8, bool)
//@ sub const MASK: u8 => let MASK: u8
//@ spec
    requires old(self).index == usize::MAX || (old(self).index <= @TOP@ && old(self).index % 5 == 0)
    ensures final(self).bytes@ == old(self).bytes@, r.is_none() == (old(self).index == usize::MAX), r.is_none() ==> final(self).index == usize::MAX, r.is_some() ==> ({ let (d, s, last) = r.unwrap(); let i = old(self).index as nat; let k = old(self).k(); &&& d <= 16 &&& s <= 1
        &&& sgn(d, s) == R(k, i) - 32 * R(k, i + 5) &&& last == (i == 0) &&& final(self).index == (if i == 0 { usize::MAX as int } else { i - 5 }) })
//@ begin
    proof { let i = self.index as nat; assert(1u8 << (5 + 1) == 64) by (bit_vector); if i == 0 { lemma_next0(self.bytes@); } else if i <= @TOP@ { lemma_nexti(self.bytes@, i); } }
//@end
}
// the point a table belongs to
pub open spec fn t5p(t: Seq<u64>) -> Pt { jac(ent5(t, 0)) }
pub open spec fn wf5(t: Seq<u64>) -> bool { tab5(t, t5p(t)) && t5p(t) != Pt::Inf && on(t5p(t)) }
pub proof fn lemma_t5p(t: Seq<u64>, p: Pt) requires tab5(t, p), p != Pt::Inf, on(p) ensures t5p(t) == p, wf5(t) { lemma_smul_1(p); assert(jok(ent5(t, 0))); }
impl JacobianMontPoint {
//@fn @F@ :: impl JacobianMontPoint :: _multiply_w5
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ ret r
//@ spec
    requires scalar.ok(), wf5(precomp@) ensures r.ok(), r.pt() == smul(scalar.v(), t5p(precomp@))
//@ sub for \(digit, sign, last\) in terms \{ => loop { let (digit, sign, last) = match terms.next() { Some(x) => x, None => break };
//@ begin
    let ghost k = scalar.v() as nat; let ghost p = t5p(precomp@);
//@ before let \(digit, _, _\)
    proof { lemma_pn(); lemma_p256_bp(W); lemma_p256_pow2(8 * W); lemma_pow2_adds(8 * 8 * W, 1); lemma2_to64(); lemma_val_bound(scalar.0@); assert(2 * k < pow2((64 * W + 1) as nat)); if @TOP@ + 5 > 64 * W + 1 { lemma_pow2_strictly_increases((64 * W + 1) as nat, (@TOP@ + 5) as nat); } lemma_R_top(k, (@TOP@ + 5) as nat); }
//@ before #1 result\.double_inplace_n
    proof { assert(result.pt() == smul(R(k, @TOP@), p)); lemma_dbl5(R(k, @TOP@), p); }
//@ loop 1
    invariant terms.k() == k, terms.index == usize::MAX || (terms.index <= @TOP@ - 5 && terms.index % 5 == 0), result.ok(), result.pt() == (if terms.index == usize::MAX { smul(k as int, p) } else { smul(32 * R(k, (terms.index + 5) as nat), p) })
    ensures terms.index == usize::MAX
    decreases (if terms.index == usize::MAX { 0 } else { terms.index + 1 })
//@ lbegin 1
    let ghost i = terms.index as nat;
//@ before let tmp =
    let ghost a = 32 * R(k, i + 5); let ghost d = R(k, i) - a;
    proof { lemma_smul_neg(digit as int, p); lemma_differ5(k, i, p); lemma_smul_add(a, d, p); lemma_dbl5(a + d, p); lemma_R_0(k); assert(a + d == R(k, i)); }
//@ before result\.add_inplace
    proof { assert(tmp.pt() == smul(d, p)); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: multiply_w5
//@ ret r
//@ spec
    requires scalar.ok(), wf5(precomp@) ensures r.ok(), r.pt() == smul(scalar.v(), t5p(precomp@))
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_multiply_w5
//@ ret r
//@ spec
    requires scalar.ok(), wf5(precomp@) ensures r.ok(), r.pt() == smul(scalar.v(), t5p(precomp@))
//@end
}
pub proof fn lemma_aok_on(s: Seq<u64>) requires aok(s) ensures on(aff(s)) {}
// the differences of small multiples
pub proof fn lemma_small_multiples(p: Pt) requires on(p), p != Pt::Inf
    ensures smul(1, p) == p, padd(smul(1, p), smul(1, p)) == smul(2, p), padd(smul(2, p), smul(2, p)) == smul(4, p), padd(smul(3, p), smul(3, p)) == smul(6, p), padd(smul(4, p), smul(4, p)) == smul(8, p), padd(smul(5, p), smul(5, p)) == smul(10, p), padd(smul(6, p), smul(6, p)) == smul(12, p), padd(smul(7, p), smul(7, p)) == smul(14, p), padd(smul(8, p), smul(8, p)) == smul(16, p), padd(smul(1, p), smul(2, p)) == smul(3, p), smul(1, p) != smul(2, p), padd(smul(1, p), smul(4, p)) == smul(5, p), smul(1, p) != smul(4, p), padd(smul(1, p), smul(6, p)) == smul(7, p), smul(1, p) != smul(6, p), padd(smul(1, p), smul(8, p)) == smul(9, p), smul(1, p) != smul(8, p), padd(smul(1, p), smul(10, p)) == smul(11, p), smul(1, p) != smul(10, p), padd(smul(1, p), smul(12, p)) == smul(13, p), smul(1, p) != smul(12, p), padd(smul(1, p), smul(14, p)) == smul(15, p), smul(1, p) != smul(14, p)
{ hide(padd); lemma_pn(); lemma_smul_1(p); lemma_smul_add(1, 1, p); lemma_smul_add(2, 2, p); lemma_smul_add(3, 3, p); lemma_smul_add(4, 4, p); lemma_smul_add(5, 5, p); lemma_smul_add(6, 6, p); lemma_smul_add(7, 7, p); lemma_smul_add(8, 8, p); lemma_smul_add(1, 2, p); lemma_smul_eq(1, 2, p); lemma_nonzero_mod(1 - 2); lemma_smul_add(1, 4, p); lemma_smul_eq(1, 4, p); lemma_nonzero_mod(1 - 4); lemma_smul_add(1, 6, p); lemma_smul_eq(1, 6, p); lemma_nonzero_mod(1 - 6); lemma_smul_add(1, 8, p); lemma_smul_eq(1, 8, p); lemma_nonzero_mod(1 - 8); lemma_smul_add(1, 10, p); lemma_smul_eq(1, 10, p); lemma_nonzero_mod(1 - 10); lemma_smul_add(1, 12, p); lemma_smul_eq(1, 12, p); lemma_nonzero_mod(1 - 12); lemma_smul_add(1, 14, p); lemma_smul_eq(1, 14, p); lemma_nonzero_mod(1 - 14); }
impl AffineMontPoint {
//@fn @F@ :: impl AffineMontPoint :: public_precomp_w5
//@ ret r
//@ spec
    requires self.ok(), self.pt() != Pt::Inf ensures tab5(r@, self.pt())
//@ sub macro_rules! index \{[^}]*\}[^}]*\} => 
//@ sub index!\((\d+)\) => \1 - 1
//@ sub zip\(r\) => zip(r.iter())
//@ sub = \[0; => = [0u64;
//@ begin
    hide(padd); hide(jok); hide(aok); hide(on);
    let ghost p = self.pt();
    proof { lemma_aok_on(self.xy@); lemma_small_multiples(p); }
//@ before let mut t =
    proof { assert(forall|j: int| 0 <= j < 16 ==> (#[trigger] r@[j]).ok() && r@[j].pt() == smul(j + 1, p)); }
//@ loop 1
    invariant vn1 == 16, vlen1_0 == @T5@, vlen1_1 == 16, forall|j: int| 0 <= j < 16 ==> (#[trigger] r@[j]).ok() && r@[j].pt() == smul(j + 1, p), forall|j: int| 0 <= j < vi1 ==> #[trigger] ent5(t@, j) == r@[j].xyz@
//@ lbegin 1
    let ghost t0 = t@;
//@ lend 1
    proof { assert forall|j: int| 0 <= j < vi1 + 1 implies #[trigger] ent5(t@, j) == r@[j].xyz@ by { if j == vi1 as int { assert(ent5(t@, j) =~= r@[j].xyz@); } else { assert(ent5(t0, j) == r@[j].xyz@); assert(ent5(t@, j) =~= ent5(t0, j)); } } }
//@end
}
}
