// FIPS 180-4 6.2.2 / 6.4.2 for u@B@ words, @R@ rounds
pub open spec fn add@B@(a: u@B@, b: u@B@) -> u@B@ { a.wrapping_add(b) }
pub open spec fn rotr@B@(x: u@B@, n: u32) -> u@B@ { (x >> n) | (x << ((@B@ - n) as u32)) }
pub open spec fn ch@B@(x: u@B@, y: u@B@, z: u@B@) -> u@B@ { (x & y) ^ (!x & z) }
pub open spec fn maj@B@(x: u@B@, y: u@B@, z: u@B@) -> u@B@ { (x & y) ^ (x & z) ^ (y & z) }
pub open spec fn bsig0_@B@(x: u@B@) -> u@B@ { rotr@B@(x, @A0@) ^ rotr@B@(x, @A1@) ^ rotr@B@(x, @A2@) }
pub open spec fn bsig1_@B@(x: u@B@) -> u@B@ { rotr@B@(x, @E0@) ^ rotr@B@(x, @E1@) ^ rotr@B@(x, @E2@) }
pub open spec fn ssig0_@B@(x: u@B@) -> u@B@ { rotr@B@(x, @S0@) ^ rotr@B@(x, @S1@) ^ (x >> @S2@) }
pub open spec fn ssig1_@B@(x: u@B@) -> u@B@ { rotr@B@(x, @T0@) ^ rotr@B@(x, @T1@) ^ (x >> @T2@) }
#[verifier::opaque]
pub open spec fn w@B@(m: Seq<u8>, t: int) -> u@B@ decreases t {
    if t < 0 { 0 }
    else if t < 16 { be_val(m.subrange(t * @WB@, t * @WB@ + @WB@)) as u@B@ }
    else { add@B@(add@B@(add@B@(ssig1_@B@(w@B@(m, t - 2)), w@B@(m, t - 7)), ssig0_@B@(w@B@(m, t - 15))), w@B@(m, t - 16)) }
}
pub open spec fn round@B@(s: Seq<u@B@>, w: u@B@, k: u@B@) -> Seq<u@B@> {
    let t1 = add@B@(add@B@(add@B@(add@B@(s[7], bsig1_@B@(s[4])), ch@B@(s[4], s[5], s[6])), k), w);
    let t2 = add@B@(bsig0_@B@(s[0]), maj@B@(s[0], s[1], s[2]));
    seq![add@B@(t1, t2), s[0], s[1], s[2], add@B@(s[3], t1), s[4], s[5], s[6]]
}
pub open spec fn rounds@B@(h: Seq<u@B@>, m: Seq<u8>, t: int) -> Seq<u@B@> decreases t {
    if t <= 0 { h } else { round@B@(rounds@B@(h, m, t - 1), w@B@(m, t - 1), fips_k@B@()[t - 1]) }
}
pub open spec fn compress@B@(h: Seq<u@B@>, m: Seq<u8>) -> Seq<u@B@> { let r = rounds@B@(h, m, @R@); Seq::new(8, |i: int| add@B@(h[i], r[i])) }
pub open spec fn blocks@B@(h: Seq<u@B@>, m: Seq<u8>) -> Seq<u@B@> decreases m.len()
    { if m.len() < @BLK@ { h } else { compress@B@(blocks@B@(h, m.take(m.len() - @BLK@)), m.skip(m.len() - @BLK@)) } }
// slot of the 16-word window that holds W[j], after t words were produced
pub open spec fn slot@B@(w: Seq<u@B@>, m: Seq<u8>, t: int, j: int) -> bool { t - 16 <= j < t && j >= 0 ==> w[j % 16] == w@B@(m, j) }

//@constfn graviola/src/low/generic/sha@H@.rs :: - :: static K
//@ spec
    ensures r@ == fips_k@B@()
//@ tail
    proof { assert(v_r@ =~= fips_k@B@()); }
//@end
//@fn @expanded:graviola/low/generic/sha@H@ :: - :: sha@H@_compress_block
//@ attr #[verifier::loop_isolation(false)]
//@ sub \bK\[t\] => v_K()[t]
//@ spec
    requires block@.len() == @BLK@
    ensures final(state)@ == compress@B@(old(state)@, block@)
//@ begin
    let ghost S0 = state@;
//@ loop 1
    invariant block@.len() == @BLK@, state@ == S0, S0.len() == 8, seq![a, b, c, d, e, f, g, h] == rounds@B@(S0, block@, t as int),
        forall|j: int| #![trigger w@B@(block@, j)] slot@B@(w@, block@, t as int, j)
//@ before #1 let mut w
    proof { assert(seq![a, b, c, d, e, f, g, h] =~= S0); }
//@ lbegin 1
    let ghost w0 = w@;
    proof { reveal(w@B@); let m = block@; let ti = t as int;
        if t >= 16 { assert(slot@B@(w0, m, ti, ti - 2) && slot@B@(w0, m, ti, ti - 7) && slot@B@(w0, m, ti, ti - 15) && slot@B@(w0, m, ti, ti - 16)) by { let _ = (w@B@(m, ti - 2), w@B@(m, ti - 7), w@B@(m, ti - 15), w@B@(m, ti - 16)); } } }
    let ghost (a0, b0, c0, d0, e0, f0, g0, h0) = (a, b, c, d, e, f, g, h);
    proof { let s = rounds@B@(S0, block@, t as int); assert(s[0] == a && s[1] == b && s[2] == c && s[3] == d && s[4] == e && s[5] == f && s[6] == g && s[7] == h); }
//@ lend 1
    proof {
        let ti = t as int; let m = block@;
        assert(w_t == w@B@(m, ti)) by { reveal(w@B@); }
        assert(w@ =~= w0.update(ti % 16, w_t));
        assert forall|j: int| #![trigger w@B@(m, j)] slot@B@(w@, m, ti + 1, j) by {
            if ti + 1 - 16 <= j < ti + 1 && j >= 0 { if j == ti { } else { assert(slot@B@(w0, m, ti, j)); assert(j % 16 != ti % 16); } }
        }
        assert(seq![a, b, c, d, e, f, g, h] =~= round@B@(rounds@B@(S0, m, ti), w@B@(m, ti), fips_k@B@()[ti]));
    }
//@ end
    proof { assert(state@ =~= compress@B@(S0, block@)); }
//@end
//@fn graviola/src/low/generic/sha@H@.rs :: - :: sha@H@_compress_blocks
//@ spec
    requires blocks@.len() % @BLK@ == 0
    ensures final(state)@ == blocks@B@(old(state)@, blocks@)
//@ begin
    let ghost S0 = state@;
    proof { assert(blocks@.take(0) =~= Seq::empty()); }
//@ loop 1
    invariant blocks@.len() % @BLK@ == 0, vi1 * @BLK@ <= blocks@.len(), state@ == blocks@B@(S0, blocks@.take(vi1 * @BLK@))
//@ lend 1
    proof { let p = blocks@.take(vi1 * @BLK@ + @BLK@); assert(p.take(p.len() - @BLK@) =~= blocks@.take(vi1 * @BLK@)); assert(p.skip(p.len() - @BLK@) =~= block@); }
//@ end
    proof { assert(blocks@.take(blocks@.len() as int) =~= blocks@); }
//@end
