// curve P-256 (FIPS 186-5 / SEC 2): field prime, order, b, base point; quotients for the Montgomery constants
verus! {
pub spec const W: nat = 4;
pub open spec fn P() -> int { ((18446744073709551615 + 0x1_0000_0000_0000_0000 * (4294967295 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 18446744069414584321)))) as int }
pub open spec fn N() -> int { ((17562291160714782033 + 0x1_0000_0000_0000_0000 * (13611842547513532036 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * 18446744069414584320)))) as int }
pub open spec fn cb() -> int { ((4309448131093880907 + 0x1_0000_0000_0000_0000 * (7285987128567378166 + 0x1_0000_0000_0000_0000 * (12964664127075681980 + 0x1_0000_0000_0000_0000 * 6540974713487397863)))) as int }
pub open spec fn gx() -> int { ((17627433388654248598 + 0x1_0000_0000_0000_0000 * (8575836109218198432 + 0x1_0000_0000_0000_0000 * (17923454489921339634 + 0x1_0000_0000_0000_0000 * 7716867327612699207)))) as int }
pub open spec fn gy() -> int { ((14678990851816772085 + 0x1_0000_0000_0000_0000 * (3156516839386865358 + 0x1_0000_0000_0000_0000 * (10297457778147434006 + 0x1_0000_0000_0000_0000 * 5756518291402817435)))) as int }
pub open spec fn q_a() -> int { (4) as int }
pub open spec fn q_b() -> int { (-(15608596021259845087 + 0x1_0000_0000_0000_0000 * (15471205765448216720 + 0x1_0000_0000_0000_0000 * (6784199210305457720 + 0x1_0000_0000_0000_0000 * 6540974715010337216)))) as int }
pub open spec fn q_one() -> int { (-1) as int }
pub open spec fn q_mm() -> int { (-(85565669623438334 + 0x1_0000_0000_0000_0000 * (4834901528447446049 + 0x1_0000_0000_0000_0000 * (18446744069414584319 + 0x1_0000_0000_0000_0000 * (4294967295 + 0x1_0000_0000_0000_0000 * 1))))) as int }
pub open spec fn q_g() -> int { (-(975669936827335768 + 0x1_0000_0000_0000_0000 * (6262550386941950842 + 0x1_0000_0000_0000_0000 * (18279903725037813076 + 0x1_0000_0000_0000_0000 * (10606265912551796789 + 0x1_0000_0000_0000_0000 * (815958046231024342 + 0x1_0000_0000_0000_0000 * (2249088148553010784 + 0x1_0000_0000_0000_0000 * (15911040879844309834 + 0x1_0000_0000_0000_0000 * 1350466004842432563)))))))) as int }
pub proof fn lemma_r() ensures bp(W) == (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 1)))) { reveal_with_fuel(bp, 5); }
pub proof fn lemma_limbs(w: Seq<u64>) requires w.len() == W ensures val(w) == w[0] + 0x1_0000_0000_0000_0000 * (w[1] + 0x1_0000_0000_0000_0000 * (w[2] + 0x1_0000_0000_0000_0000 * (w[3]))) { reveal_with_fuel(val, 5); }
pub open spec fn a_m() -> int { ((18446744073709551612 + 0x1_0000_0000_0000_0000 * (17179869183 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 18446744056529682436)))) as int }
pub open spec fn b_m() -> int { ((15608596021259845087 + 0x1_0000_0000_0000_0000 * (12461466548982526096 + 0x1_0000_0000_0000_0000 * (16546823903870267094 + 0x1_0000_0000_0000_0000 * 15866188208926050356)))) as int }
pub open spec fn one_m() -> int { ((1 + 0x1_0000_0000_0000_0000 * (18446744069414584320 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * 4294967294)))) as int }
pub open spec fn mm_m() -> int { ((9449762124159643298 + 0x1_0000_0000_0000_0000 * (5087230966250696614 + 0x1_0000_0000_0000_0000 * (2901921493521525849 + 0x1_0000_0000_0000_0000 * 7413256579398063648)))) as int }
pub open spec fn rr_m() -> int { ((0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 1))))) as int }
pub proof fn lemma_mont_consts() ensures a_m() - (-3) * rr_m() == q_a() * P(), b_m() - cb() * rr_m() == q_b() * P(), one_m() - 1 * rr_m() == q_one() * P(), mm_m() - rr_m() * rr_m() == q_mm() * N()
{
    assert(a_m() - (-3) * rr_m() == q_a() * P()) by (compute_only); assert(b_m() - cb() * rr_m() == q_b() * P()) by (compute_only);
    assert(one_m() - 1 * rr_m() == q_one() * P()) by (compute_only); assert(mm_m() - rr_m() * rr_m() == q_mm() * N()) by (compute_only);
}
}
