// C16 C17: RSA public and private operations over the PosInt contracts
verus! {
use vstd::bits::*;
pub type RsaPosInt = PosInt<128>;
pub type RsaPosIntModP = PosInt<64>;
pub type RsaPosIntD = PosInt<128>;
pub type RsaPosIntModN = PosInt<128>;
// SecretPosInt<N> is PosInt<N> with an erasing Drop; From, Deref are the identity
pub type SecretRsaPosIntModP = PosInt<64>;
pub type SecretRsaPosIntD = PosInt<128>;
//@item graviola/src/mid/rsa_pub.rs :: const MAX_PUBLIC_MODULUS_BITS
//@item graviola/src/mid/rsa_pub.rs :: const MAX_PUBLIC_MODULUS_BYTES
//@item graviola/src/mid/rsa_pub.rs :: const MIN_PUBLIC_MODULUS_BITS
//@item graviola/src/mid/rsa_pub.rs :: const MIN_PUBLIC_MODULUS_BYTES
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BITS
//@item graviola/src/mid/rsa_priv.rs :: const MAX_PRIVATE_MODULUS_BYTES
//@item graviola/src/mid/rsa_priv.rs :: const MIN_PRIVATE_MODULUS_BITS
//@item graviola/src/mid/rsa_priv.rs :: const MIN_PRIVATE_MODULUS_BYTES
#[verifier::external_body] pub fn v_ilog2(x: u32) -> (r: u32) requires x > 0 ensures r < 32, pow2(r as nat) <= x < pow2((r + 1) as nat) { x.ilog2() }
pub fn v_in(lo: usize, hi: usize, x: usize) -> (r: bool) ensures r == (lo <= x <= hi) { lo <= x && x <= hi }
// k with 256^(k-1) <= n < 256^k
pub open spec fn is_blen(n: nat, k: nat) -> bool { k > 0 && pow2((8 * (k - 1)) as nat) <= n < pow2(8 * k) }
pub proof fn lemma_blen(n: nat, a: nat, b: nat) requires is_blen(n, a), is_blen(n, b) ensures a == b
{ if a < b { if 8 * a < 8 * (b - 1) { lemma_pow2_strictly_increases(8 * a, (8 * (b - 1)) as nat); } } if b < a { if 8 * b < 8 * (a - 1) { lemma_pow2_strictly_increases(8 * b, (8 * (a - 1)) as nat); } } }
//@item graviola/src/mid/rsa_pub.rs :: struct RsaPublicKey
impl RsaPublicKey {
    // derived Clone
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn wf(self) -> bool {
        self.n.modulus() && self.montifier.montifier_of(self.n) && self.one.wf() && self.one.used == self.n.used && is_mont(self.one.v() as int, 1, self.n.v() as int, self.n.used as nat)
        && self.n.n0_ok(self.n0) && self.e > 0 && pow2(2040) <= self.n.v() < pow2(8192)
    }
//@fn graviola/src/mid/rsa_pub.rs :: impl RsaPublicKey :: new
//@ ret r
//@ spec
    requires n.wf()
    ensures r.is_ok() == (odd(n.v() as int) && pow2(2040) <= n.v() < pow2(8192) && e > 0), r.is_ok() ==> r.unwrap().wf() && r.unwrap().n == n && r.unwrap().e == e
//@ sub \(MIN_PUBLIC_MODULUS_BYTES\.\.=MAX_PUBLIC_MODULUS_BYTES\)\.contains\(&n_len\) => v_in(MIN_PUBLIC_MODULUS_BYTES, MAX_PUBLIC_MODULUS_BYTES, n_len)
//@ after let n_len
    proof { lemma_len8(n.v(), n_len as nat, 256); lemma_len8(n.v(), n_len as nat, 1025); }
//@ before let montifier
    proof { lemma_val_ext(n.words@, n.used as int); }
//@ before let one
    proof { let (z, m, b) = (montifier.v() as int, n.v() as int, bp(n.used as nat) as int); n.lemma_used(n.used as int); assert(1 * z <= b * m) by (nonlinear_arith) requires 0 <= z < m, b >= 1; assert(1 < b); }
//@ tail
    proof { lemma_to_mont(one.v() as int, 1, montifier.v() as int, n.v() as int, n.used as nat); }
//@end
//@fn graviola/src/mid/rsa_pub.rs :: impl RsaPublicKey :: modulus_len_bytes
//@ ret r
//@ spec
    requires self.wf()
    ensures is_blen(self.n.v(), r as nat), 256 <= r <= 1024
//@ sub self\.n\.len_bytes\(\) => { let r = self.n.len_bytes(); proof { lemma_len8(self.n.v(), r as nat, 256); lemma_len8(self.n.v(), r as nat, 1025); lemma2_to64(); lemma_pow2_pos(2040); } r }
//@end
//@fn graviola/src/mid/rsa_pub.rs :: impl RsaPublicKey :: public_op
//@ ret r
//@ spec
    requires self.wf(), c.wf()
    ensures r.is_ok() == (c.v() < self.n.v()), r.is_ok() ==> r.unwrap().wf() && r.unwrap().used == self.n.used && r.unwrap().v() == npow(c.v() as int, self.e as nat) % (self.n.v() as int)
//@ sub sig mut c: => c:
//@ sub ^\{ => { let mut c = c; let ghost x = c.v() as int; let ghost m = self.n.v() as int; let ghost k = self.n.used as nat;
//@ sub for bit in \(0\.\.self\.e\.ilog2\(\) \+ 1\)\.rev\(\) \{ => let vl: u32 = v_ilog2(self.e) + 1; proof { lemma_top_zero(self.e as nat, vl as nat); } for vb in 0..vl { let bit: u32 = vl - 1 - vb;
//@ sub let mask = 1 << bit => let mask: u32 = 1 << bit
//@ begin
    proof { self.n.lemma_used(self.n.used as int); }
//@ before let vl
    proof { assert(npow(x, 0) == 1); }
//@ loop 1
    invariant self.wf(), vl == vl, 1 <= vl <= 32, pow2((vl - 1) as nat) <= self.e < pow2(vl as nat), m == self.n.v(), k == self.n.used, m < bp(k), c_mont.wf(), c_mont.used == k, is_mont(c_mont.v() as int, x, m, k),
        accum.wf(), accum.used == k, is_mont(accum.v() as int, npow(x, top(self.e as nat, (vl - vb) as nat)), m, k), first == (vb == 0)
//@ before let bit
    proof { lemma_top_zero(self.e as nat, vl as nat); }
//@ before let tmp
    let ghost t0 = top(self.e as nat, (vl - vb) as nat); let ghost a0 = accum.v() as int;
    proof { lemma_top_step(self.e as nat, (vl - vb) as nat); lemma_red(a0, a0, m, k); lemma_top_zero(self.e as nat, vl as nat); }
//@ after let tmp
    proof {
        if vb == 0 { assert(t0 == 0); } else { lemma_mont_mul(tmp.v() as int, a0, a0, npow(x, t0), npow(x, t0), m, k); }
        lemma_npow_add(x, t0, t0); assert(is_mont(tmp.v() as int, npow(x, 2 * t0), m, k));
        lemma_red(tmp.v() as int, c_mont.v() as int, m, k); lemma_npow_add(x, 2 * t0, 1); lemma_npow1(x);
        let (e, b) = (self.e, bit); assert(b < 32 ==> ((e & (1u32 << b)) == (1u32 << b)) == ((e >> b) % 2 == 1)) by (bit_vector); lemma_u32_shr_is_div(e, b);
    }
    let ghost tv = tmp.v() as int;
//@ before if self\.e & mask
    proof { assert(top(self.e as nat, bit as nat) == 2 * t0 + (if self.e & mask == mask { 1int } else { 0 })); }
//@ lend 1
    proof { if self.e & mask == mask { lemma_mont_mul(accum.v() as int, tv, c_mont.v() as int, npow(x, 2 * t0), x, m, k); } }
//@ tail
    proof { lemma_top_all(self.e as nat); assert forall|o: int| is_redc(o, accum.v() as int, m, k) implies o == npow(x, self.e as nat) % m by { lemma_from_mont(o, accum.v() as int, npow(x, self.e as nat), m, k); } }
//@end
}
//@item graviola/src/mid/rsa_priv.rs :: struct RsaPrivateKey
// x -> x^dp^e is the identity mod p (for prime p: e * dp = 1 mod p - 1, by Fermat)
pub open spec fn exp_inverse(dp: nat, e: nat, p: int) -> bool { forall|x: int| 0 <= x < p ==> #[trigger] npow(npow(x, dp), e) % p == x }
pub open spec fn norm<const N: usize>(x: PosInt<N>) -> bool { x.wf() && (x.used > 0 ==> x.words@[x.used - 1] != 0) }
impl RsaPrivateKey {
    pub open spec fn wf(self) -> bool {
        self.public.wf() && self.p.modulus() && self.q.modulus() && self.p.used == self.q.used && self.p.v() > 1 && self.q.v() > 1
        && self.p_montifier.montifier_of(self.p) && self.q_montifier.montifier_of(self.q) && self.p.n0_ok(self.p0) && self.q.n0_ok(self.q0)
        && self.dp.wf() && self.dp.used >= 1 && self.dq.wf() && self.dq.used >= 1 && self.iqmp.wf()
        && self.iqmp_mont.wf() && self.iqmp_mont.used == self.p.used && self.iqmp_mont.v() < self.p.v() && (self.iqmp.v() < bp(self.p.used as nat) ==> is_mont(self.iqmp_mont.v() as int, self.iqmp.v() as int, self.p.v() as int, self.p.used as nat))
    }
    // a two-prime key whose parts agree
    pub open spec fn consistent(self) -> bool {
        self.public.n.v() == self.p.v() * self.q.v() && self.iqmp.v() < bp(self.p.used as nat) && cong((self.q.v() * self.iqmp.v()) as int, 1, self.p.v() as int)
        && exp_inverse(self.dp.v(), self.public.e as nat, self.p.v() as int) && exp_inverse(self.dq.v(), self.public.e as nat, self.q.v() as int)
    }
//@fn graviola/src/mid/rsa_priv.rs :: impl RsaPrivateKey :: new
//@ ret r
//@ spec
    requires norm(p), norm(q), norm(d), norm(dp), norm(dq), norm(iqmp), norm(n)
    ensures r.is_ok() ==> r.unwrap().wf() && r.unwrap().public.n == n && r.unwrap().public.e == e && r.unwrap().p == p && r.unwrap().q == q && r.unwrap().d == d && r.unwrap().dp == dp && r.unwrap().dq == dq && r.unwrap().iqmp == iqmp,
        odd(p.v() as int) && odd(q.v() as int) && pow2(1016) <= p.v() && p.used == q.used && dp.v() > 0 && dq.v() > 0 && odd(n.v() as int) && pow2(2040) <= n.v() && e > 0 ==> r.is_ok()
//@ sub \(MIN_PRIVATE_MODULUS_BYTES\.\.=MAX_PRIVATE_MODULUS_BYTES\)\.contains\(&p_len\) => v_in(MIN_PRIVATE_MODULUS_BYTES, MAX_PRIVATE_MODULUS_BYTES, p_len)
//@ sub \.into\(\) => 
//@ after let p_len
    proof {
        lemma_len8(p.v(), p_len as nat, 128); lemma_len8(p.v(), p_len as nat, 513); lemma_val_bound(p.words@); lemma_bp_pow2(64); lemma_val_bound(n.words@); lemma_bp_pow2(128);
        lemma2_to64(); lemma_pow2_strictly_increases(1, 1016); lemma_norm_len(p, p_len as nat); dp.lemma_used(dp.used as int); dq.lemma_used(dq.used as int);
        assert forall|r: nat| (q.v() < #[trigger] pow2(8 * r) && (r > 0 ==> q.v() >= pow2((8 * (r - 1)) as nat)) && (r == 0) == (q.v() == 0)) implies q.used == div_up(r as int, 8) by { lemma_norm_len(q, r); }
    }
//@ before let public
    proof { lemma_norm_big(q); lemma_bp_mono(1, (q.used - 1) as nat); assert(p.used >= 2) by { if p.used <= 1 { lemma_bp_pow2(1); p.lemma_used(1); lemma_pow2_strictly_increases(64, 1016); } } }
//@end
//@fn graviola/src/mid/rsa_priv.rs :: impl RsaPrivateKey :: public_key
//@ ret r
//@ spec
    ensures r == self.public
//@end
//@fn graviola/src/mid/rsa_priv.rs :: impl RsaPrivateKey :: modulus_len_bytes
//@ ret r
//@ spec
    requires self.wf()
    ensures is_blen(self.public.n.v(), r as nat), 256 <= r <= 1024
//@end
//@fn graviola/src/mid/rsa_priv.rs :: impl RsaPrivateKey :: private_op
//@ ret r
//@ spec
    requires self.wf(), norm(*c)
    ensures r.is_ok() ==> r.unwrap().wf() && r.unwrap().v() < self.public.n.v() && npow(r.unwrap().v() as int, self.public.e as nat) % (self.public.n.v() as int) == c.v(),
        c.v() >= self.public.n.v() ==> r.is_err(), self.consistent() && c.v() < self.public.n.v() ==> r.is_ok()
//@ sub low::PosInt::mul => PosInt::mul
//@ sub low::ct::into_public\(m\) => m
//@ sub let h = m_1\s*\.sub_mod\(&m_2_mod_p, &self\.p\)\s*\.mont_mul => let hs = m_1.sub_mod(&m_2_mod_p, &self.p); let h = hs.mont_mul
//@ sub let m_2_mod_p = m_2\s*\.to_montgomery\(&self\.p_montifier, &self\.p\)\s*\.from_montgomery => let m_2_mont = m_2.to_montgomery(&self.p_montifier, &self.p); let m_2_mod_p = m_2_mont.from_montgomery
//@ begin
    let ghost (p, q, x) = (self.p.v() as int, self.q.v() as int, c.v() as int); let ghost k = self.p.used as nat; let ghost (dp, dq, e, iq) = (self.dp.v(), self.dq.v(), self.public.e as nat, self.iqmp.v() as int);
    proof {
        self.p.lemma_used(k as int); self.q.lemma_used(k as int); lemma_bp_mono(k, 64);
        assert(p * q < bp(k) * bp(k)) by (nonlinear_arith) requires 0 < p < bp(k), 0 < q < bp(k); lemma_bp_add(k, k); 
        if self.consistent() && x < p * q {
            lemma_norm(*c, 2 * k); assert(x <= bp(k) * p && x <= bp(k) * q) by (nonlinear_arith) requires 0 <= x < p * q, 0 < p < bp(k), 0 < q < bp(k);
        }
    }
//@ after let cmq
    proof { if self.consistent() && x < p * q { assert(cmp.v() == x % p && cmq.v() == x % q); } }
//@ after let m_2_mod_p
    proof { lemma_from_mont(m_2_mod_p.v() as int, m_2_mont.v() as int, m_2.v() as int, p, k); }
//@ after let hs
    proof { lemma_red(hs.v() as int, self.iqmp_mont.v() as int, p, k); }
//@ after let h =
    proof {
        let (m2, hh) = (m_2.v() as int, h.v() as int); assert(m2 + q * hh < p * q) by (nonlinear_arith) requires 0 <= m2 < q, 0 <= hh < p; assert(q * hh >= 0) by (nonlinear_arith) requires q > 0, hh >= 0;
        lemma_bp_mono(2 * k, 128); 
    }
//@ before #2 let m =
    proof {
        if self.consistent() && x < p * q {
            lemma_mont_part(h.v() as int, hs.v() as int, self.iqmp_mont.v() as int, iq, p, k);
            lemma_crt(x, p, q, dp, dq, e, iq, m_1.v() as int, m_2.v() as int, hs.v() as int, h.v() as int, m.v() as int);
        }
    }
//@end
}
pub proof fn lemma_norm_big<const N: usize>(x: PosInt<N>) requires norm(x), x.used > 0 ensures x.v() >= bp((x.used - 1) as nat)
{
    let i = x.used - 1; lemma_val_split(x.words@, i); let t = x.words@.skip(i); assert(t[0] == x.words@[i]); lemma_bp_pos(i as nat);
    assert(val(t) >= 1); let (b, y) = (bp(i as nat) as int, val(t) as int); assert(b * y >= b) by (nonlinear_arith) requires y >= 1, b > 0;
}
pub proof fn lemma_norm_len<const N: usize>(x: PosInt<N>, r: nat) requires norm(x), x.v() < pow2(8 * r), r > 0 ==> x.v() >= pow2((8 * (r - 1)) as nat) ensures x.used == div_up(r as int, 8)
{
    let u = x.used as int; lemma_bp_pow2(u as nat); x.lemma_used(u);
    if u > 0 { lemma_norm_big(x); lemma_bp_pow2((u - 1) as nat); if 8 * r <= 64 * (u - 1) { if 8 * r < 64 * (u - 1) { lemma_pow2_strictly_increases(8 * r, (64 * (u - 1)) as nat); } } }
    if r > 0 { if 8 * (r - 1) >= 64 * u { if 8 * (r - 1) > 64 * u { lemma_pow2_strictly_increases((64 * u) as nat, (8 * (r - 1)) as nat); } } }
    else { lemma2_to64(); assert(x.v() == 0); if u > 0 { lemma_bp_pos((u - 1) as nat); } }
}
pub proof fn lemma_norm<const N: usize>(x: PosInt<N>, k: nat) requires norm(x), x.v() < bp(k) ensures x.used <= k
{ if x.used > k { lemma_val_fits(x.words@, k as int); } }
// r = redc(s * a), a the Montgomery form of x: r = s * x
pub proof fn lemma_mont_part(r: int, s: int, a: int, x: int, m: int, k: nat) requires odd(m), m > 0, is_redc(r, s * a, m, k), is_mont(a, x, m, k) ensures cong(r, s * x, m)
{
    let b = bp(k) as int; cong_refl(s, m); cong_mul(s, s, a, x * b, m); assert(s * (x * b) == (s * x) * b) by (nonlinear_arith); cong_trans(r * b, s * a, (s * x) * b, m); cong_cancel(r, s * x, m, k);
}
pub proof fn lemma_join(a: int, b: int, p: int, q: int, iq: int) requires cong(a, b, p), cong(a, b, q), cong(q * iq, 1, p) ensures cong(a, b, p * q)
{
    let s = choose|s: int| a - b == #[trigger] (s * p); let t = choose|t: int| a - b == #[trigger] (t * q); let u = choose|u: int| q * iq - 1 == #[trigger] (u * p);
    let w = s * iq - t * u;
    assert(t == w * p) by (nonlinear_arith) requires s * p == t * q, q * iq - 1 == u * p, w == s * iq - t * u;
    assert(t * q == w * (p * q)) by (nonlinear_arith) requires t == w * p; cong_w(a, b, p * q, w);
}
pub proof fn lemma_crt(c: int, p: int, q: int, dp: nat, dq: nat, e: nat, iq: int, m1: int, m2: int, s: int, h: int, m: int)
    requires p > 1, q > 1, 0 <= c < p * q, exp_inverse(dp, e, p), exp_inverse(dq, e, q), cong(q * iq, 1, p), m1 == npow(c % p, dp) % p, m2 == npow(c % q, dq) % q,
        s == (m1 - m2 % p) % p, cong(h, s * iq, p), 0 <= h < p, m == m2 + q * h
    ensures 0 <= m < p * q, npow(m, e) % (p * q) == c
{
    assert(0 <= m2 + q * h < p * q) by (nonlinear_arith) requires 0 <= m2 < q, 0 <= h < p;
    // m = m1 mod p
    cong_mod(m2, p); cong_mod(m1 - m2 % p, p); cong_refl(m1, p); cong_add(m1, m1, m2 % p, m2, p); cong_trans(s, m1 - m2 % p, m1 - m2, p);
    cong_refl(iq, p); cong_mul(s, m1 - m2, iq, iq, p); cong_trans(h, s * iq, (m1 - m2) * iq, p); cong_refl(q, p); cong_mul(q, q, h, (m1 - m2) * iq, p);
    assert(q * ((m1 - m2) * iq) == (m1 - m2) * (q * iq)) by (nonlinear_arith); cong_refl(m1 - m2, p); cong_mul(m1 - m2, m1 - m2, q * iq, 1, p); cong_trans(q * h, (m1 - m2) * (q * iq), (m1 - m2) * 1, p);
    cong_refl(m2, p); cong_add(m2, m2, q * h, m1 - m2, p); assert(m2 + (m1 - m2) == m1);
    lemma_half_crt(m, m1, c, p, dp, e);
    assert(m - m2 == h * q) by (nonlinear_arith) requires m == m2 + q * h; cong_w(m, m2, q, h); lemma_half_crt(m, m2, c, q, dq, e);
    lemma_join(npow(m, e), c, p, q, iq); assert(p * q > 0) by (nonlinear_arith) requires p > 1, q > 1; cong_sym(npow(m, e), c, p * q); cong_is_mod(c, npow(m, e), p * q);
}
pub proof fn lemma_half_crt(m: int, m1: int, c: int, p: int, d: nat, e: nat) requires p > 1, cong(m, m1, p), m1 == npow(c % p, d) % p, exp_inverse(d, e, p) ensures cong(npow(m, e), c, p)
{
    let z = npow(c % p, d); cong_mod(z, p); cong_trans(m, m1, z, p); lemma_npow_cong(m, z, e, p); cong_mod(c, p); let y = npow(npow(c % p, d), e); assert(y % p == c % p); cong_mod(y, p); cong_sym(y % p, y, p);
    cong_trans(npow(m, e), y, y % p, p); cong_trans(npow(m, e), c % p, c, p);
}
pub proof fn lemma_len8(v: nat, r: nat, b: nat) requires v < pow2(8 * r), r > 0 ==> v >= pow2((8 * (r - 1)) as nat), b > 0 ensures (r >= b) == (v >= pow2((8 * (b - 1)) as nat))
{
    if r >= b { if r > b { lemma_pow2_strictly_increases((8 * (b - 1)) as nat, (8 * (r - 1)) as nat); } }
    else { if 8 * r < 8 * (b - 1) { lemma_pow2_strictly_increases(8 * r, (8 * (b - 1)) as nat); } }
}
}
