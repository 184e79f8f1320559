// RFC 8439 section 2.5: the one-time authenticator, over the contract of the block buffer
pub open spec fn pp() -> nat { (0x4_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 - 5) as nat } // 2^130 - 5
pub open spec fn times_p(k: int) -> int { 0x4_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * k) - 5 * k }
pub proof fn lemma_times_p(k: int) ensures times_p(k) == pp() * k, times_p(k) == k * pp(), pp() > 0
{
    assert(0x4_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * k) - 5 * k == (0x4_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 - 5) * k) by (nonlinear_arith);
    assert((0x4_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 - 5) >= 0) by (compute);
    assert(pp() * k == k * pp()) by (nonlinear_arith);
}

pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub open spec fn clamp(k: Seq<u8>) -> Seq<u8> {
    Seq::new(16, |i: int| if i == 3 || i == 7 || i == 11 || i == 15 { k[i] & 15u8 } else if i == 4 || i == 8 || i == 12 { k[i] & 252u8 } else { k[i] })
}
pub open spec fn poly_r(k: Seq<u8>) -> nat { le_val(clamp(k.take(16))) }
pub open spec fn poly_s(k: Seq<u8>) -> nat { le_val(k.skip(16)) }
pub open spec fn pstep(acc: nat, r: nat, b: Seq<u8>) -> nat { ((acc + le_val(b) + p256(b.len())) * r) % pp() }
pub open spec fn poly(acc: nat, r: nat, m: Seq<u8>) -> nat decreases m.len() {
    if m.len() == 0 { acc } else if m.len() <= 16 { pstep(acc, r, m) } else { poly(pstep(acc, r, m.take(16)), r, m.skip(16)) }
}
pub open spec fn poly1305(k: Seq<u8>, m: Seq<u8>) -> Seq<u8> { le((poly(0, poly_r(k), m) + poly_s(k)) % (0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat), 16) }

