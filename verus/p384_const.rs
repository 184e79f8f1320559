// curve P-384 (FIPS 186-5 / SEC 2): field prime, order, b, base point; quotients for the Montgomery constants
verus! {
pub spec const W: nat = 6;
pub open spec fn P() -> int { ((4294967295 + 0x1_0000_0000_0000_0000 * (18446744069414584320 + 0x1_0000_0000_0000_0000 * (18446744073709551614 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * 18446744073709551615)))))) as int }
pub open spec fn N() -> int { ((17072048233947408755 + 0x1_0000_0000_0000_0000 * (6348401684107011962 + 0x1_0000_0000_0000_0000 * (14367412456785391071 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * 18446744073709551615)))))) as int }
pub open spec fn cb() -> int { ((3064076045283764975 + 0x1_0000_0000_0000_0000 * (14291673747578343837 + 0x1_0000_0000_0000_0000 * (221811693264799578 + 0x1_0000_0000_0000_0000 * (1737717031765098770 + 0x1_0000_0000_0000_0000 * (10992729701402291481 + 0x1_0000_0000_0000_0000 * 12912154004749740004)))))) as int }
pub open spec fn gx() -> int { ((4203087948775033527 + 0x1_0000_0000_0000_0000 * (6125724927633205612 + 0x1_0000_0000_0000_0000 * (6482722621138151992 + 0x1_0000_0000_0000_0000 * (7934563412932533144 + 0x1_0000_0000_0000_0000 * (10282218360005504372 + 0x1_0000_0000_0000_0000 * 12288012358878168375)))))) as int }
pub open spec fn gy() -> int { ((8809917716911230559 + 0x1_0000_0000_0000_0000 * (747793036959711645 + 0x1_0000_0000_0000_0000 * (16850834916486723776 + 0x1_0000_0000_0000_0000 * (17938995913990739068 + 0x1_0000_0000_0000_0000 * (6745997240412855337 + 0x1_0000_0000_0000_0000 * 3897828414440483951)))))) as int }
pub open spec fn q_a() -> int { (4) as int }
pub open spec fn q_b() -> int { (-(11912784340095937996 + 0x1_0000_0000_0000_0000 * (8757083681624877353 + 0x1_0000_0000_0000_0000 * (221811693264799579 + 0x1_0000_0000_0000_0000 * (1737717031765098770 + 0x1_0000_0000_0000_0000 * (10992729701402291481 + 0x1_0000_0000_0000_0000 * 12912154004749740004)))))) as int }
pub open spec fn q_one() -> int { (-1) as int }
pub open spec fn q_mm() -> int { (-(1374695839762142861 + 0x1_0000_0000_0000_0000 * (12098342389602539653 + 0x1_0000_0000_0000_0000 * (4079331616924160544 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 1))))))) as int }
pub open spec fn q_g() -> int { (-(13542498140179430160 + 0x1_0000_0000_0000_0000 * (11470610909747921012 + 0x1_0000_0000_0000_0000 * (1491241417249632487 + 0x1_0000_0000_0000_0000 * (306234309366492219 + 0x1_0000_0000_0000_0000 * (8247319037544887245 + 0x1_0000_0000_0000_0000 * (13721815689714321945 + 0x1_0000_0000_0000_0000 * (5993347220244505956 + 0x1_0000_0000_0000_0000 * (992931167759229925 + 0x1_0000_0000_0000_0000 * (17686140858663983970 + 0x1_0000_0000_0000_0000 * (10750857235180296945 + 0x1_0000_0000_0000_0000 * (14586553154054664603 + 0x1_0000_0000_0000_0000 * 5452623029077125947)))))))))))) as int }
pub proof fn lemma_r() ensures bp(W) == (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 1)))))) { reveal_with_fuel(bp, 7); }
pub proof fn lemma_limbs(w: Seq<u64>) requires w.len() == W ensures val(w) == w[0] + 0x1_0000_0000_0000_0000 * (w[1] + 0x1_0000_0000_0000_0000 * (w[2] + 0x1_0000_0000_0000_0000 * (w[3] + 0x1_0000_0000_0000_0000 * (w[4] + 0x1_0000_0000_0000_0000 * (w[5]))))) { reveal_with_fuel(val, 7); }
pub open spec fn a_m() -> int { ((17179869180 + 0x1_0000_0000_0000_0000 * (18446744056529682432 + 0x1_0000_0000_0000_0000 * (18446744073709551611 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * (18446744073709551615 + 0x1_0000_0000_0000_0000 * 18446744073709551615)))))) as int }
pub open spec fn b_m() -> int { ((581395848458481100 + 0x1_0000_0000_0000_0000 * (17809957346689692396 + 0x1_0000_0000_0000_0000 * (8643006485390950958 + 0x1_0000_0000_0000_0000 * (16372638458395724514 + 0x1_0000_0000_0000_0000 * (13126622871277412500 + 0x1_0000_0000_0000_0000 * 14774077593024970745)))))) as int }
pub open spec fn one_m() -> int { ((18446744069414584321 + 0x1_0000_0000_0000_0000 * (4294967295 + 0x1_0000_0000_0000_0000 * 1))) as int }
pub open spec fn mm_m() -> int { ((3256554584917936553 + 0x1_0000_0000_0000_0000 * (18391999277541532697 + 0x1_0000_0000_0000_0000 * (13564358545871743303 + 0x1_0000_0000_0000_0000 * (15279949475123764421 + 0x1_0000_0000_0000_0000 * (4589268600508278933 + 0x1_0000_0000_0000_0000 * 902107514168524577)))))) as int }
pub open spec fn rr_m() -> int { ((0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * (0 + 0x1_0000_0000_0000_0000 * 1))))))) as int }
pub proof fn lemma_mont_consts() ensures a_m() - (-3) * rr_m() == q_a() * P(), b_m() - cb() * rr_m() == q_b() * P(), one_m() - 1 * rr_m() == q_one() * P(), mm_m() - rr_m() * rr_m() == q_mm() * N()
{
    assert(a_m() - (-3) * rr_m() == q_a() * P()) by (compute_only); assert(b_m() - cb() * rr_m() == q_b() * P()) by (compute_only);
    assert(one_m() - 1 * rr_m() == q_one() * P()) by (compute_only); assert(mm_m() - rr_m() * rr_m() == q_mm() * N()) by (compute_only);
}
}
