// C18: PosInt arithmetic over the contracts of the s2n-bignum routines
verus! {
#[derive(Debug)]
pub enum Error { OutOfRange, DecryptFailed, BadSignature, WrongLength, RngFailed }
//@item graviola/src/low/posint.rs :: struct PosInt
// derived Clone
impl<const N: usize> PosInt<N> {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn wf(self) -> bool { 1 <= N <= 0x10_0000 && self.used <= N && forall|i: int| self.used <= i < N ==> self.words@[i] == 0 }
    pub open spec fn v(self) -> nat { val(self.words@) }
    // the value, as seen through any window that covers it
    pub proof fn lemma_used(self, k: int) requires self.wf(), self.used <= k <= N ensures val(self.words@.take(k)) == self.v(), self.v() < bp(k as nat)
    { lemma_val_ext(self.words@, k); }
    pub proof fn lemma_fits(self, k: int) requires self.wf(), self.v() < bp(k as nat), 0 <= k <= N ensures val(self.words@.take(k)) == self.v()
    { lemma_val_fits(self.words@, k); }
    // a Montgomery modulus with its constant
    pub open spec fn modulus(self) -> bool { self.wf() && odd(self.v() as int) && self.used >= 1 }
    pub open spec fn n0_ok(self, n0: u64) -> bool { (self.words@[0] * n0 + 1) as int % bb() == 0 }
    pub open spec fn montifier_of(self, n: Self) -> bool { self.wf() && self.v() < n.v() && cong(self.v() as int, (bp(n.used as nat) * bp(n.used as nat)) as int, n.v() as int) }
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: zero
//@ ret r
//@ spec
    requires 1 <= N <= 0x10_0000
    ensures r.wf(), r.v() == 0, r.used == 0
//@ sub Self \{ => let r = Self {
//@ sub \}\s*\}$ => }; proof { lemma_val_zeros(r.words@); } r }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: push_word
//@ ret r
//@ spec
    requires old(self).wf()
    ensures r.is_err() == (old(self).used == N), r.is_err() ==> *final(self) == *old(self),
        r.is_ok() ==> final(self).wf() && final(self).used == old(self).used + 1 && final(self).v() == old(self).v() + word * bp(old(self).used as nat)
            && final(self).words@ == old(self).words@.update(old(self).used as int, word)
//@ tail
    proof {
        let (a, b, u) = (old(self).words@, self.words@, old(self).used as int);
        old(self).lemma_used(u); assert(b.take(u) =~= a.take(u)); assert(b.take(u + 1) =~= a.take(u) + seq![word]);
        lemma_val_append(a.take(u), seq![word]); lemma_val1(seq![word]); lemma_val_ext(b, u + 1);
        assert(bp(u as nat) * word == word * bp(u as nat)) by (nonlinear_arith);
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: word
//@ ret r
//@ spec
    requires 1 <= N <= 0x10_0000
    ensures r.wf(), r.v() == w, r.used == 1
//@ tail
    proof { assert(w * bp(0) == w) by { assert(bp(0) == 1); } }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: one
//@ ret r
//@ spec
    requires 1 <= N <= 0x10_0000
    ensures r.wf(), r.v() == 1, r.used == 1
//@ tail
    proof { lemma_val_ext(r.words@, 1); assert(r.words@.take(1) =~= seq![1u64]); lemma_val1(seq![1u64]); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: expand
//@ spec
    requires old(self).wf(), other.wf(), other.used >= old(self).used || old(self).v() < bp(other.used as nat)
    ensures final(self).wf(), final(self).v() == old(self).v(), final(self).used == other.used
//@ begin
    proof { if other.used < old(self).used { lemma_val_fits(old(self).words@, other.used as int); } }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: fixed_one
//@ ret r
//@ spec
    requires self.wf(), self.used >= 1
    ensures r.wf(), r.v() == 1, r.used == self.used
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: as_words
//@ ret r
//@ spec
    requires self.wf()
    ensures r@ == self.words@.take(self.used as int), val(r@) == self.v(), r@.len() == self.used, self.v() < bp(self.used as nat)
//@ begin
    proof { self.lemma_used(self.used as int); assert(self.words@.subrange(0, self.used as int) =~= self.words@.take(self.used as int)); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: as_mut_words
//@ ret r
//@ spec
    requires old(self).wf()
    ensures r@ == old(self).words@.take(old(self).used as int), val(r@) == old(self).v(), r@.len() == old(self).used,
        final(self).used == old(self).used, final(r)@.len() == r@.len() ==> final(self).wf() && final(self).v() == val(final(r)@) && final(self).v() < bp(old(self).used as nat) && final(self).words@.take(old(self).used as int) == final(r)@
//@ begin
    proof {
        let (w, u) = (self.words@, self.used as int); self.lemma_used(u); assert(w.subrange(0, u) =~= w.take(u)); lemma_val_zeros(w.skip(u));
        assert forall|x: Seq<u64>| x.len() == u implies val(#[trigger] (x + w.skip(u))) == val(x) && val(x) < bp(u as nat) by { lemma_val_append(x, w.skip(u)); lemma_val_bound(x); assert(bp(u as nat) * 0 == 0); }
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: as_words_with_len_of
//@ ret r
//@ spec
    requires self.wf(), len.wf()
    ensures r@ == self.words@.take(len.used as int), val(r@) < bp(len.used as nat), self.v() < bp(len.used as nat) ==> val(r@) == self.v(), r@.len() == len.used
//@ begin
    proof { lemma_val_bound(self.words@.take(len.used as int)); if self.v() < bp(len.used as nat) { self.lemma_fits(len.used as int); } assert(self.words@.subrange(0, len.used as int) =~= self.words@.take(len.used as int)); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: len_bits
//@ ret r
//@ spec
    requires self.wf()
    ensures self.v() < pow2(r as nat), r > 0 ==> self.v() >= pow2((r - 1) as nat), r <= 64 * self.used, (r == 0) == (self.v() == 0)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: len_bytes
//@ ret r
//@ spec
    requires self.wf()
    ensures self.v() < pow2((8 * r) as nat), r > 0 ==> self.v() >= pow2((8 * (r - 1)) as nat), r <= 8 * self.used, (r == 0) == (self.v() == 0)
//@ sub self\.len_bits\(\) => { let b = self.len_bits(); proof { lemma_bits_bytes(self.v(), b as nat); } b }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: count_trailing_zeroes
//@ ret r
//@ spec
    requires self.wf()
    ensures self.v() == 0 ==> r == 64 * self.used, self.v() > 0 ==> self.v() as int % pow2(r as nat) as int == 0 && (self.v() as int / pow2(r as nat) as int) % 2 == 1 && r < 64 * self.used
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: is_even
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (self.v() % 2 == 0)
//@ begin
    proof { lemma_val_even(self.words@); let w = self.words@[0]; assert((w & 1 == 0) == (w % 2 == 0)) by (bit_vector); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: is_odd
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (self.v() % 2 == 1)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: is_zero
//@ ret r
//@ spec
    requires self.wf()
    ensures r == (self.v() == 0)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: is_coprime
//@ ret r
//@ spec
    requires self.wf(), other.wf()
    ensures r == coprime(self.v(), other.v())
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: equals
//@ ret r
//@ spec
    requires self.wf(), other.wf()
    ensures r == (self.v() == other.v())
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: less_than
//@ ret r
//@ spec
    requires self.wf(), other.wf()
    ensures r == (self.v() < other.v())
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: shift_right_1
//@ ret o
//@ spec
    requires self.wf()
    ensures o.wf(), o.v() == self.v() / 2, o.used == self.used
//@ begin
    proof { self.lemma_used(self.used as int); lemma2_to64(); lemma_small_mod((self.v() / 2) as nat, bp(self.used as nat)); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: shift_right_vartime
//@ ret o
//@ spec
    requires self.wf(), shift < 64 * self.used
    ensures o.wf(), o.v() == self.v() as int / pow2(shift as nat) as int, o.used == self.used - shift / 64
//@ before let words =
    proof { assert(shift & 63 == shift % 64) by (bit_vector); }
//@ before low::
    proof {
        let (u, w) = (self.used as int, words as int); let s = self.words@.take(u);
        self.lemma_used(u); lemma_val_split(s, w); assert(s.subrange(w, u) =~= s.skip(w));
        let (lo, b, h) = (val(s.take(w)) as int, bp(w as nat) as int, val(s.skip(w)) as int); let n = self.v() as int;
        assert(n == h * b + lo) by (nonlinear_arith) requires n == lo + b * h; lemma_fundamental_div_mod_converse(n, b, h, lo);
        lemma_bp_pow2(w as nat); lemma_pow2_adds((64 * w) as nat, bits as nat); lemma_pow2_pos(bits as nat); lemma_pow2_pos((64 * w) as nat);
        lemma_div_denominator(n, b, pow2(bits as nat) as int); assert(64 * w + bits == shift);
        lemma_val_bound(s.skip(w)); let q = h / pow2(bits as nat) as int;
        assert(0 <= q <= h) by (nonlinear_arith) requires q == h / pow2(bits as nat) as int, h >= 0, pow2(bits as nat) >= 1;
        lemma_small_mod(q as nat, bp((u - w) as nat));
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: montifier
//@ ret o
//@ spec
    requires self.modulus()
    ensures o.montifier_of(*self), o.used == self.used
//@ tail
    proof { self.lemma_used(self.used as int); cong_mod((bp(self.used as nat) * bp(self.used as nat)) as int, self.v() as int); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: to_montgomery
//@ ret o
//@ spec
    requires n.modulus(), self.wf(), montifier.montifier_of(*n)
    ensures o.wf(), o.used == n.used, o.v() < n.v(), self.v() < bp(n.used as nat) ==> is_mont(o.v() as int, self.v() as int, n.v() as int, n.used as nat)
//@ begin
    proof {
        n.lemma_used(n.used as int); let (a, z, m, b) = (val(self.words@.take(n.used as int)) as int, montifier.v() as int, n.v() as int, bp(n.used as nat) as int);
        lemma_val_bound(self.words@.take(n.used as int)); assert(a * z <= b * m) by (nonlinear_arith) requires 0 <= a < b, 0 <= z < m;
    }
//@ tail
    proof { if self.v() < bp(n.used as nat) { self.lemma_fits(n.used as int); } lemma_to_mont(mont.v() as int, val(self.words@.take(n.used as int)) as int, montifier.v() as int, n.v() as int, n.used as nat); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_neg_inverse
//@ ret o
//@ spec
    requires self.modulus()
    ensures self.n0_ok(o)
//@ tail
    proof {
        self.lemma_used(self.used as int); let (a, b) = (self.words@, tmp.words@);
        let (a0, b0, ah, bh, x, y) = (a[0] as int, b[0] as int, val(a.skip(1)) as int, val(b.skip(1)) as int, self.v() as int, tmp.v() as int);
        let k = self.used as nat; let p = bp((k - 1) as nat) as int; lemma_bp_pos((k - 1) as nat);
        assert(x == a0 + bb() * ah && y == b0 + bb() * bh);
        let s = x * y + 1; lemma_fundamental_div_mod(s, bb() * p); let q = s / (bb() * p);
        assert(s == bb() * (p * q)) by (nonlinear_arith) requires s == (bb() * p) * q + 0;
        assert(a0 * b0 + 1 == (p * q - (a0 * bh + ah * b0 + bb() * ah * bh)) * bb()) by (nonlinear_arith) requires s == bb() * (p * q), s == x * y + 1, x == a0 + bb() * ah, y == b0 + bb() * bh;
        lemma_mod_multiples_basic(p * q - (a0 * bh + ah * b0 + bb() * ah * bh), bb());
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_mul
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), self.v() < bp(n.used as nat), v.wf(), v.v() < bp(n.used as nat), self.v() * v.v() <= bp(n.used as nat) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * v.v()) as int, n.v() as int, n.used as nat)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), self.v() < bp(n.used as nat), self.v() * self.v() <= bp(n.used as nat) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * self.v()) as int, n.v() as int, n.used as nat)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr_in_place
//@ spec
    requires n.modulus(), n.n0_ok(n0), old(self).wf(), old(self).v() < bp(n.used as nat), old(self).v() * old(self).v() <= bp(n.used as nat) * n.v()
    ensures final(self).wf(), final(self).used == n.used, is_redc(final(self).v() as int, (old(self).v() * old(self).v()) as int, n.v() as int, n.used as nat)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_mul_1024
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), v.wf(), n.used == 16, self.used == 16, v.used == 16, self.v() * v.v() <= bp(16) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * v.v()) as int, n.v() as int, 16)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr_1024
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), n.used == 16, self.used == 16, self.v() * self.v() <= bp(16) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * self.v()) as int, n.v() as int, 16)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr_1024_in_place
//@ spec
    requires n.modulus(), n.n0_ok(n0), old(self).wf(), n.used == 16, old(self).used == 16, old(self).v() * old(self).v() <= bp(16) * n.v()
    ensures final(self).wf(), final(self).used == n.used, is_redc(final(self).v() as int, (old(self).v() * old(self).v()) as int, n.v() as int, 16)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_mul_2048
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), v.wf(), n.used == 32, self.used == 32, v.used == 32, self.v() * v.v() <= bp(32) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * v.v()) as int, n.v() as int, 32)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr_2048
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), self.wf(), n.used == 32, self.used == 32, self.v() * self.v() <= bp(32) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, (self.v() * self.v()) as int, n.v() as int, 32)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_sqr_2048_in_place
//@ spec
    requires n.modulus(), n.n0_ok(n0), old(self).wf(), n.used == 32, old(self).used == 32, old(self).v() * old(self).v() <= bp(32) * n.v()
    ensures final(self).wf(), final(self).used == n.used, is_redc(final(self).v() as int, (old(self).v() * old(self).v()) as int, n.v() as int, 32)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_reduce8
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n0), old(product)@.len() == 2 * n.used, n.used % 8 == 0, val(old(product)@) <= bp(n.used as nat) * n.v()
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, val(old(product)@) as int, n.v() as int, n.used as nat)
//@ before let carry = low
    let ghost p0 = product@; let ghost k = n.used as nat;
    proof { n.lemma_used(k as int); assert(n.words@.take(k as int)[0] == n.words@[0]); }
//@ before let \(_
    let ghost t = val(product@.skip(k as int)) + carry * bp(k);
    let ghost q = choose|q: nat| q < bp(k) && #[trigger] (q * n.v()) + val(p0) == bp(k) * t;
    proof {
        let (m, b, x) = (n.v() as int, bp(k) as int, val(p0) as int);
        assert(q * n.v() + val(p0) == bp(k) * t);
        assert(t < 2 * m) by (nonlinear_arith) requires q * m + x == b * t, q < b, x <= b * m, m > 0, b > 0;
        assert((q as int) * m == t * b - x) by (nonlinear_arith) requires q * m + x == b * t; cong_w(t * b, x, m, q as int);
    }
    let ghost c0 = carry;
//@ before #2 let carry
    proof { assert(reduced@ =~= product@.skip(k as int)); let (c, e) = (carry, if val(reduced@) < n.v() { 1u64 } else { 0u64 });
        assert(c <= 1 && e <= 1 ==> ((c | (e ^ 1)) == 0) == (c == 0 && e == 1)) by (bit_vector); assert(carry * bp(k) == (if carry == 0 { 0 } else { bp(k) })) by (nonlinear_arith) requires carry <= 1; }
//@ tail
    proof {
        let (m, b, h) = (n.v() as int, bp(k) as int, val(reduced@) as int); lemma_val_bound(reduced@);
        if carry != 0 {
            if c0 == 1 { lemma_mod_add_multiples_vanish(h - m, b); assert(h + b == t); lemma_small_mod((t - m) as nat, b as nat); } else { lemma_small_mod((t - m) as nat, b as nat); }
            assert(result.v() == t - m); assert((-1) * m == -m); cong_w(t - m, t as int, m, -1); cong_refl(b, m); cong_mul(t - m, t as int, b, b, m);
            cong_trans((t - m) * b, t * b, val(p0) as int, m);
        } else { assert(result.v() == t); }
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_reduce8_in_place
//@ spec
    requires n.modulus(), n.n0_ok(n0), old(self).wf(), old(self).used == n.used, old(product)@.len() == 2 * n.used, n.used % 8 == 0, val(old(product)@) <= bp(n.used as nat) * n.v()
    ensures final(self).wf(), final(self).used == n.used, is_redc(final(self).v() as int, val(old(product)@) as int, n.v() as int, n.used as nat)
//@ before let carry = low
    let ghost p0 = product@; let ghost k = n.used as nat;
    proof { n.lemma_used(k as int); assert(n.words@.take(k as int)[0] == n.words@[0]); }
//@ before let \(_
    let ghost t = val(product@.skip(k as int)) + carry * bp(k);
    let ghost q = choose|q: nat| q < bp(k) && #[trigger] (q * n.v()) + val(p0) == bp(k) * t;
    proof {
        let (m, b, x) = (n.v() as int, bp(k) as int, val(p0) as int);
        assert(q * n.v() + val(p0) == bp(k) * t);
        assert(t < 2 * m) by (nonlinear_arith) requires q * m + x == b * t, q < b, x <= b * m, m > 0, b > 0;
        assert((q as int) * m == t * b - x) by (nonlinear_arith) requires q * m + x == b * t; cong_w(t * b, x, m, q as int);
    }
    let ghost c0 = carry;
//@ before #2 let carry
    proof { assert(reduced@ =~= product@.skip(k as int)); let (c, e) = (carry, if val(reduced@) < n.v() { 1u64 } else { 0u64 });
        assert(c <= 1 && e <= 1 ==> ((c | (e ^ 1)) == 0) == (c == 0 && e == 1)) by (bit_vector); assert(carry * bp(k) == (if carry == 0 { 0 } else { bp(k) })) by (nonlinear_arith) requires carry <= 1; }
//@ end
    proof {
        let (m, b, h) = (n.v() as int, bp(k) as int, val(reduced@) as int); lemma_val_bound(reduced@);
        if carry != 0 {
            if c0 == 1 { lemma_mod_add_multiples_vanish(h - m, b); assert(h + b == t); lemma_small_mod((t - m) as nat, b as nat); } else { lemma_small_mod((t - m) as nat, b as nat); }
            assert(self.v() == t - m); assert((-1) * m == -m); cong_w(t - m, t as int, m, -1); cong_refl(b, m); cong_mul(t - m, t as int, b, b, m);
            cong_trans((t - m) * b, t * b, val(p0) as int, m);
        } else { assert(self.v() == t); }
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_redc
//@ ret o
//@ spec
    requires n.modulus(), self.wf()
    ensures o.wf(), o.used == n.used, o.v() < bp(n.used as nat), self.used <= 2 * n.used && self.v() <= bp(n.used as nat) * n.v() ==> is_redc(o.v() as int, self.v() as int, n.v() as int, n.used as nat)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: reduce
//@ ret o
//@ spec
    requires N > M, n.modulus(), n_montifier.montifier_of(*n), self.wf()
    ensures o.wf(), o.used == n.used, o.v() < n.v(), self.used <= 2 * n.used && self.v() <= bp(n.used as nat) * n.v() ==> o.v() == self.v() as int % n.v() as int
//@ sub self\.mont_redc\(n\)\s*\.to_montgomery => let t = self.mont_redc(n); let o = t.to_montgomery
//@ sub n_montifier, n\) => n_montifier, n);
//@ tail
    proof { n.lemma_used(n.used as int); let (r, m, b) = (t.v() as int, n.v() as int, bp(n.used as nat) as int); if self.used <= 2 * n.used && self.v() <= bp(n.used as nat) * n.v() { cong_trans(o.v() as int, r * b, self.v() as int, m); cong_is_mod(o.v() as int, self.v() as int, m); } }
    o
//@ begin
    proof { n.lemma_used(n.used as int); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: from_montgomery
//@ ret o
//@ spec
    requires n.modulus(), self.wf(), self.used == n.used
    ensures o.wf(), o.used == n.used, is_redc(o.v() as int, self.v() as int, n.v() as int, n.used as nat)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mul
//@ ret r
//@ spec
    requires a.wf(), b.wf(), N + N <= M <= 0x10_0000
    ensures r.wf(), r.used == a.used + b.used, r.v() == a.v() * b.v()
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mod_exp
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n_0), n_montifier.montifier_of(*n), self.wf(), self.v() < bp(n.used as nat), e.wf(), e.used >= 1
    ensures o.wf(), o.used == n.used, o.v() == npow(self.v() as int, e.v()) % (n.v() as int)
//@ before let one_mont
    proof {
        n.lemma_used(n.used as int); lemma_bp_mono(1, n.used as nat); assert(bp(1) == 0x1_0000_0000_0000_0000) by { assert(bp(0) == 1); }
        let (z, m, b) = (n_montifier.v() as int, n.v() as int, bp(n.used as nat) as int); assert(1 * z <= b * m) by (nonlinear_arith) requires 0 <= z < m, b >= 1;
    }
//@ before let self_mont
    proof { lemma_to_mont(one_mont.v() as int, 1, n_montifier.v() as int, n.v() as int, n.used as nat); }
//@ sub self_mont\.mont_exp\((.*?)\)\.from_montgomery\(n\) => let t = self_mont.mont_exp(\1); let o = t.from_montgomery(n);
//@ tail
    proof {
        let (x, m, k) = (self.v() as int, n.v() as int, n.used as nat); let d = demont(self_mont.v() as int, m, k);
        lemma_demont_of(self_mont.v() as int, x, m, k); cong_mod(x, m); lemma_npow_cong(d, x, e.v(), m); 
        lemma_mont_cong(t.v() as int, npow(d, e.v()), npow(x, e.v()), m, k); lemma_from_mont(o.v() as int, t.v() as int, npow(x, e.v()), m, k);
    }
    o
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mont_exp
//@ attr #[verifier::loop_isolation(true)]
//@ ret o
//@ spec
    requires n.modulus(), n.n0_ok(n_0), self.wf(), self.used == n.used, self.v() < n.v(), one_mont.wf(), one_mont.used == n.used, is_mont(one_mont.v() as int, 1, n.v() as int, n.used as nat), e.wf(), e.used >= 1
    ensures o.wf(), o.used == n.used, is_mont(o.v() as int, npow(demont(self.v() as int, n.v() as int, n.used as nat), e.v()), n.v() as int, n.used as nat)
//@ sub low::zeroise\(&mut table\) => low::zeroise_vec(&mut table)
//@ sub for bit in BitsMsbFirstIter::new\(e\.as_words\(\)\) \{ => let mut v_it = BitsMsbFirstIter::new(e.as_words()); while let Some(bit) = v_it.next() {
//@ sub let mut table = Vec => let mut table: Vec<u64> = Vec
//@ begin
    let ghost m = n.v() as int; let ghost k = n.used as nat; let ghost x = demont(self.v() as int, m, k);
    proof { n.lemma_used(k as int); lemma_demont(self.v() as int, m, k); lemma_npow1(x); assert(npow(x, 0) == 1); }
//@ before let mut first
    let ghost mut a: nat = 0; let ghost mut tb: nat = 64 * e.used as nat; let ghost ev = e.v();
    proof { e.lemma_used(e.used as int); lemma_bp_pow2(e.used as nat); lemma_top_zero(ev, tb); lemma_row_all(table@, m, k); }
//@ loop 1
    invariant k == n.used, m == n.v(), m < bp(k), e.wf(), ev == e.v(), n.modulus(), n.n0_ok(n_0), v_it.wf(), v_it.words@ == e.words@.take(e.used as int), val(v_it.words@) == ev, v_it.rem() == tb, tb <= 64 * e.used,
        accum.wf(), accum.used == k, is_mont(accum.v() as int, npow(x, a), m, k), first ==> a == 0,
        wcount == (64 * e.used - tb) % 4, 0 <= wcount < 4, window < 16, wcount == 0 ==> window == 0, wcount == 1 ==> window < 2, wcount == 2 ==> window < 4, wcount == 3 ==> window < 8,
        a + window == top(ev, tb), term.wf(), term.used == k, is_tab(table@, 16, x, m, k)
    ensures tb == 0, wcount == 0
    decreases tb
//@ lbegin 1
    proof { lemma_top_step(ev, tb); lemma_red(accum.v() as int, accum.v() as int, m, k); n.lemma_used(k as int); }
    let ghost ac0 = accum; let ghost a0 = a; let ghost w0 = window;
//@ sub let mut window = 0 => let mut window: u64 = 0
//@ before window =
    proof {
        tb = (tb - 1) as nat;
        if first_was { assert(2 * a0 == 0); } else { lemma_npow_add(x, a0, a0); lemma_mont_mul(accum.v() as int, ac0.v() as int, ac0.v() as int, npow(x, a0), npow(x, a0), m, k); }
        a = 2 * a0; let (w, b) = (window, bit);
        assert(w < 8 && b <= 1 ==> ((w << 1) | b) == 2 * w + b) by (bit_vector);
    }
//@ before if first
    let ghost first_was = first;
//@ before low::bignum_copy
    let ghost j = window as int;
    proof { assert(0 <= j * k && j * k + k <= 16 * k) by (nonlinear_arith) requires 0 <= j < 16, k >= 0; }
//@ before accum = accum\.mont_mul
    proof {
        assert(term.words@.take(k as int) == table@.subrange(j * k, j * k + k));
        term.lemma_used(k as int); lemma_red(accum.v() as int, term.v() as int, m, k); n.lemma_used(k as int);
    }
    let ghost ac1 = accum;
//@ after accum = accum\.mont_mul
    proof { lemma_npow_add(x, a, j as nat); lemma_mont_mul(accum.v() as int, ac1.v() as int, term.v() as int, npow(x, a), npow(x, j as nat), m, k); a = a + j as nat; }
//@ before low::zeroise
    proof { lemma_top_all(ev); assert(a == ev); }
//@ before #1 table\.extend
    let ghost tab0 = table@;
//@ after #1 table\.extend
    proof { lemma_row(tab0, accum.words@.take(k as int), 0, x, m, k); assert(table@ =~= tab0 + accum.words@.take(k as int)); }
//@ before #2 table\.extend
    let ghost tab1 = table@;
//@ after #2 table\.extend
    proof { lemma_row(tab1, t1.words@.take(k as int), 1, x, m, k); assert(table@ =~= tab1 + t1.words@.take(k as int)); }
//@ before #3 table\.extend
    let ghost tab2 = table@;
//@ after #3 table\.extend
    proof { lemma_row(tab2, t2.words@.take(k as int), 2, x, m, k); assert(table@ =~= tab2 + t2.words@.take(k as int)); }
//@ before #4 table\.extend
    let ghost tab3 = table@;
//@ after #4 table\.extend
    proof { lemma_row(tab3, t3.words@.take(k as int), 3, x, m, k); assert(table@ =~= tab3 + t3.words@.take(k as int)); }
//@ before #5 table\.extend
    let ghost tab4 = table@;
//@ after #5 table\.extend
    proof { lemma_row(tab4, t4.words@.take(k as int), 4, x, m, k); assert(table@ =~= tab4 + t4.words@.take(k as int)); }
//@ before #6 table\.extend
    let ghost tab5 = table@;
//@ after #6 table\.extend
    proof { lemma_row(tab5, t5.words@.take(k as int), 5, x, m, k); assert(table@ =~= tab5 + t5.words@.take(k as int)); }
//@ before #7 table\.extend
    let ghost tab6 = table@;
//@ after #7 table\.extend
    proof { lemma_row(tab6, t6.words@.take(k as int), 6, x, m, k); assert(table@ =~= tab6 + t6.words@.take(k as int)); }
//@ before #8 table\.extend
    let ghost tab7 = table@;
//@ after #8 table\.extend
    proof { lemma_row(tab7, t7.words@.take(k as int), 7, x, m, k); assert(table@ =~= tab7 + t7.words@.take(k as int)); }
//@ before #9 table\.extend
    let ghost tab8 = table@;
//@ after #9 table\.extend
    proof { lemma_row(tab8, t8.words@.take(k as int), 8, x, m, k); assert(table@ =~= tab8 + t8.words@.take(k as int)); }
//@ before #10 table\.extend
    let ghost tab9 = table@;
//@ after #10 table\.extend
    proof { lemma_row(tab9, t9.words@.take(k as int), 9, x, m, k); assert(table@ =~= tab9 + t9.words@.take(k as int)); }
//@ before #11 table\.extend
    let ghost tab10 = table@;
//@ after #11 table\.extend
    proof { lemma_row(tab10, t10.words@.take(k as int), 10, x, m, k); assert(table@ =~= tab10 + t10.words@.take(k as int)); }
//@ before #12 table\.extend
    let ghost tab11 = table@;
//@ after #12 table\.extend
    proof { lemma_row(tab11, t11.words@.take(k as int), 11, x, m, k); assert(table@ =~= tab11 + t11.words@.take(k as int)); }
//@ before #13 table\.extend
    let ghost tab12 = table@;
//@ after #13 table\.extend
    proof { lemma_row(tab12, t12.words@.take(k as int), 12, x, m, k); assert(table@ =~= tab12 + t12.words@.take(k as int)); }
//@ before #14 table\.extend
    let ghost tab13 = table@;
//@ after #14 table\.extend
    proof { lemma_row(tab13, t13.words@.take(k as int), 13, x, m, k); assert(table@ =~= tab13 + t13.words@.take(k as int)); }
//@ before #15 table\.extend
    let ghost tab14 = table@;
//@ after #15 table\.extend
    proof { lemma_row(tab14, t14.words@.take(k as int), 14, x, m, k); assert(table@ =~= tab14 + t14.words@.take(k as int)); }
//@ before #16 table\.extend
    let ghost tab15 = table@;
//@ after #16 table\.extend
    proof { lemma_row(tab15, t15.words@.take(k as int), 15, x, m, k); assert(table@ =~= tab15 + t15.words@.take(k as int)); }
//@ before let t2 =
    proof { lemma_red(t1.v() as int, t1.v() as int, m, k); }
//@ after let t2 =
    proof { lemma_npow_add(x, 1, 1); lemma_mont_mul(t2.v() as int, t1.v() as int, t1.v() as int, npow(x, 1), npow(x, 1), m, k); }
//@ before let t3 =
    proof { lemma_red(t2.v() as int, t1.v() as int, m, k); }
//@ after let t3 =
    proof { lemma_npow_add(x, 2, 1); lemma_mont_mul(t3.v() as int, t2.v() as int, t1.v() as int, npow(x, 2), npow(x, 1), m, k); }
//@ before let t4 =
    proof { lemma_red(t2.v() as int, t2.v() as int, m, k); }
//@ after let t4 =
    proof { lemma_npow_add(x, 2, 2); lemma_mont_mul(t4.v() as int, t2.v() as int, t2.v() as int, npow(x, 2), npow(x, 2), m, k); }
//@ before let t5 =
    proof { lemma_red(t4.v() as int, t1.v() as int, m, k); }
//@ after let t5 =
    proof { lemma_npow_add(x, 4, 1); lemma_mont_mul(t5.v() as int, t4.v() as int, t1.v() as int, npow(x, 4), npow(x, 1), m, k); }
//@ before let t6 =
    proof { lemma_red(t3.v() as int, t3.v() as int, m, k); }
//@ after let t6 =
    proof { lemma_npow_add(x, 3, 3); lemma_mont_mul(t6.v() as int, t3.v() as int, t3.v() as int, npow(x, 3), npow(x, 3), m, k); }
//@ before let t7 =
    proof { lemma_red(t6.v() as int, t1.v() as int, m, k); }
//@ after let t7 =
    proof { lemma_npow_add(x, 6, 1); lemma_mont_mul(t7.v() as int, t6.v() as int, t1.v() as int, npow(x, 6), npow(x, 1), m, k); }
//@ before let t8 =
    proof { lemma_red(t4.v() as int, t4.v() as int, m, k); }
//@ after let t8 =
    proof { lemma_npow_add(x, 4, 4); lemma_mont_mul(t8.v() as int, t4.v() as int, t4.v() as int, npow(x, 4), npow(x, 4), m, k); }
//@ before let t9 =
    proof { lemma_red(t8.v() as int, t1.v() as int, m, k); }
//@ after let t9 =
    proof { lemma_npow_add(x, 8, 1); lemma_mont_mul(t9.v() as int, t8.v() as int, t1.v() as int, npow(x, 8), npow(x, 1), m, k); }
//@ before let t10 =
    proof { lemma_red(t5.v() as int, t5.v() as int, m, k); }
//@ after let t10 =
    proof { lemma_npow_add(x, 5, 5); lemma_mont_mul(t10.v() as int, t5.v() as int, t5.v() as int, npow(x, 5), npow(x, 5), m, k); }
//@ before let t11 =
    proof { lemma_red(t10.v() as int, t1.v() as int, m, k); }
//@ after let t11 =
    proof { lemma_npow_add(x, 10, 1); lemma_mont_mul(t11.v() as int, t10.v() as int, t1.v() as int, npow(x, 10), npow(x, 1), m, k); }
//@ before let t12 =
    proof { lemma_red(t6.v() as int, t6.v() as int, m, k); }
//@ after let t12 =
    proof { lemma_npow_add(x, 6, 6); lemma_mont_mul(t12.v() as int, t6.v() as int, t6.v() as int, npow(x, 6), npow(x, 6), m, k); }
//@ before let t13 =
    proof { lemma_red(t12.v() as int, t1.v() as int, m, k); }
//@ after let t13 =
    proof { lemma_npow_add(x, 12, 1); lemma_mont_mul(t13.v() as int, t12.v() as int, t1.v() as int, npow(x, 12), npow(x, 1), m, k); }
//@ before let t14 =
    proof { lemma_red(t7.v() as int, t7.v() as int, m, k); }
//@ after let t14 =
    proof { lemma_npow_add(x, 7, 7); lemma_mont_mul(t14.v() as int, t7.v() as int, t7.v() as int, npow(x, 7), npow(x, 7), m, k); }
//@ before let t15 =
    proof { lemma_red(t14.v() as int, t1.v() as int, m, k); }
//@ after let t15 =
    proof { lemma_npow_add(x, 14, 1); lemma_mont_mul(t15.v() as int, t14.v() as int, t1.v() as int, npow(x, 14), npow(x, 1), m, k); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: mod_inverse
//@ ret o
//@ spec
    requires self.wf(), n.modulus(), n.v() > 1, self.v() < bp(n.used as nat), coprime(self.v(), n.v())
    ensures o.wf(), o.used == n.used, o.v() < n.v(), cong((self.v() * o.v()) as int, 1, n.v() as int)
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: reduce_even
//@ ret o
//@ spec
    requires 1 <= M < N, self.wf(), m.wf(), m.used >= 1, m.v() > 1, m.words@[m.used - 1] != 0, self.used + 1 >= m.used
    ensures o.wf(), o.used == m.used, o.v() == self.v() as int % m.v() as int
//@ sub for j in \(0\.\.i\)\.rev\(\) \{ => for vj in 0..i { let j = i - 1 - vj;
//@ sub for b in \(0\.\.64\)\.rev\(\) \{ => for vb in 0..64u64 { let b: u64 = 63 - vb;
//@ before let limit
    let ghost mv = m.v() as int; let ghost n = self.v(); let ghost w = self.words@.take(self.used as int);
    proof { self.lemma_used(self.used as int); m.lemma_used(m.used as int); lemma_val_zeros(r.words@); }
//@ after r\.words
    proof {
        let (k, s) = (limit as int, self.words@.subrange(i as int, self.used as int)); lemma_val_ext(r.words@, k); assert(r.words@.take(k) =~= s);
        lemma_val_split(w, i as int); assert(w.skip(i as int) =~= s); let (lo, b, h) = (val(w.take(i as int)) as int, bp(i as nat) as int, val(s) as int);
        assert(n as int == h * b + lo) by (nonlinear_arith) requires n == lo + b * h; lemma_fundamental_div_mod_converse(n as int, b, h, lo); lemma_bp_pow2(i as nat);
        assert(top(n, (64 * i) as nat) == h);
        // R^(used - 1) <= m
        let mw = m.words@.take(m.used as int); lemma_val_split(mw, k); let t = mw.skip(k); assert(t.len() == 1); lemma_val1(t); assert(t[0] == m.words@[k]);
        let (p, y) = (bp(k as nat) as int, t[0] as int); assert(p * y >= p) by (nonlinear_arith) requires y >= 1, p >= 0;
        assert(r.v() < mv); lemma_small_mod(r.v(), mv as nat);
    }
//@ loop 1
    invariant 1 <= M < N, self.wf(), m.wf(), m.used >= 1, m.v() > 1, mv == m.v(), n == self.v(), w == self.words@.take(self.used as int), val(w) == n, i <= self.used,
        r.wf(), r.used == m.used, r.v() == top(n, (64 * (i - vj)) as nat) as int % mv, addend.wf(), addend.used == m.used, forall|q: int| 1 <= q < M ==> addend.words@[q] == 0
//@ loop 2
    invariant 1 <= M < N, self.wf(), m.wf(), m.used >= 1, m.v() > 1, mv == m.v(), n == self.v(), w == self.words@.take(self.used as int), val(w) == n, 0 <= j < i <= self.used, word == self.words@[j as int],
        r.wf(), r.used == m.used, r.v() == top(n, (64 * (j + 1) - vb) as nat) as int % mv, addend.wf(), addend.used == m.used, forall|q: int| 1 <= q < M ==> addend.words@[q] == 0
//@ before let bit
    proof { let t = (64 * j + b) as nat; lemma_top_step(n, t + 1); lemma_word_bit(w, j as int, b); assert(w[j as int] == word); cong_mod(top(n, t + 1) as int, mv); }
    let ghost r0 = r;
//@ after addend\.words
    proof { let x = word >> b; assert(x & 1 <= 1) by (bit_vector); lemma_val_ext(addend.words@, 1); assert(addend.words@.take(1) =~= seq![bit]); lemma_val1(seq![bit]); cong_mod((r0.v() + r0.v()) as int, mv); }
//@ lend 2
    proof {
        let t = top(n, (64 * j + b + 1) as nat) as int; let x = r0.v() as int;
        assert(bit == top(n, (64 * j + b) as nat) % 2);
        cong_mod(t, mv); cong_mod(x + x, mv); cong_add(x, t, x, t, mv); cong_trans((x + x) % mv, x + x, t + t, mv); cong_refl(bit as int, mv); cong_add((x + x) % mv, t + t, bit as int, bit as int, mv);
        cong_mod((x + x) % mv + bit, mv); cong_trans(r.v() as int, (x + x) % mv + bit, t + t + bit, mv); cong_is_mod(r.v() as int, t + t + bit, mv);
    }
//@ tail
    proof { lemma_top_all(n); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: add
//@ ret o
//@ spec
    requires self.wf(), b.wf(), self.v() + b.v() < bp(N as nat)
    ensures o.wf(), o.v() == self.v() + b.v()
//@ before r.used
    proof { lemma_bp_pos(N as nat); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: add_shift_right_1
//@ ret o
//@ spec
    requires self.wf(), b.wf(), self.v() + b.v() > 0
    ensures o.wf(), o.v() == (self.v() + b.v()) / 2
//@ before let mut r =
    proof {
        assert(carry * bp(N as nat) == (if carry == 0 { 0 } else { bp(N as nat) })) by (nonlinear_arith) requires carry <= 1;
        if tmp.used == 0 { lemma_val_zeros(tmp.words@); lemma_bp_pos(N as nat); }
        tmp.lemma_used(tmp.used as int); lemma2_to64(); lemma_val_bound(tmp.words@); lemma_small_mod((tmp.v() / 2) as nat, bp(N as nat));
        if carry != 0 && tmp.used == N { }
    }
//@ before r\.used =
    proof { lemma_val_fits(r.words@, tmp.used as int); }
//@ before r\.words
    let ghost w0 = r.words@;
//@ tail
    proof {
        let (i, c, o) = (r.used - 1, carry, w0[r.used - 1]);
        if c == 0 { assert(o | (c << 63) == o) by (bit_vector) requires c == 0; assert(r.words@ =~= w0); }
        else {
            let (x, y) = (w0.take(i), w0.skip(i)); lemma_val_split(w0, i); assert(y =~= seq![o]); lemma_val1(y);
            let z = r.words@; lemma_val_split(z, i); assert(z.take(i) =~= x); assert(z.skip(i) =~= seq![z[i]]); lemma_val1(seq![z[i]]);
            let p = bp(i as nat) as int; lemma_bp_pos(i as nat); assert(bp(N as nat) == 0x1_0000_0000_0000_0000 * p);
            assert(2 * (tmp.v() as int / 2) <= tmp.v());
            assert((o as int) < 0x8000_0000_0000_0000) by (nonlinear_arith) requires p * o <= tmp.v() as int / 2, 2 * (tmp.v() as int / 2) < 0x1_0000_0000_0000_0000 * p, p > 0;
            assert(o < 0x8000_0000_0000_0000 && c == 1 ==> o | (c << 63) == o + 0x8000_0000_0000_0000) by (bit_vector);
            assert(p * (o + 0x8000_0000_0000_0000) == p * o + 0x8000_0000_0000_0000 * p) by (nonlinear_arith);
        }
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: add_mod
//@ ret o
//@ spec
    requires self.wf(), b.wf(), m.wf(), self.v() < m.v(), b.v() < m.v()
    ensures o.wf(), o.v() == (self.v() + b.v()) as int % m.v() as int
//@ begin
    proof { m.lemma_used(m.used as int); cong_mod((self.v() + b.v()) as int, m.v() as int); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: sub
//@ ret o
//@ spec
    requires self.wf(), b.wf(), b.v() <= self.v(), self.used == b.used
    ensures o.wf(), o.used == self.used, o.v() == self.v() - b.v()
//@ begin
    proof { self.lemma_used(self.used as int); lemma_small_mod((self.v() - b.v()) as nat, bp(self.used as nat)); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: sub_mod
//@ ret o
//@ spec
    requires self.wf(), b.wf(), p.wf(), self.used == p.used, b.used == p.used, self.v() < p.v(), b.v() < p.v()
    ensures o.wf(), o.used == p.used, o.v() == (self.v() - b.v()) % p.v() as int
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: widen
//@ ret r
//@ spec
    requires self.wf(), N <= M <= 0x10_0000
    ensures r.wf(), r.used == self.used, r.v() == self.v()
//@ tail
    proof { self.lemma_used(self.used as int); lemma_val_ext(r.words@, r.used as int); assert(r.words@.take(r.used as int) =~= self.words@.take(self.used as int)); }
//@end
}
}

verus! {
// rows of the exponentiation table
pub open spec fn is_tab(t: Seq<u64>, cnt: int, x: int, m: int, k: nat) -> bool {
    t.len() == cnt * k && forall|i: int| 0 <= i < cnt ==> is_mont(val(#[trigger] t.subrange(i * k, i * k + k)) as int, npow(x, i as nat), m, k)
}
pub proof fn lemma_row(t: Seq<u64>, w: Seq<u64>, cnt: int, x: int, m: int, k: nat)
    requires is_tab(t, cnt, x, m, k), cnt >= 0, w.len() == k, is_mont(val(w) as int, npow(x, cnt as nat), m, k)
    ensures is_tab(t + w, cnt + 1, x, m, k)
{
    assert((cnt + 1) * k == cnt * k + k) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < cnt + 1 implies is_mont(val(#[trigger] (t + w).subrange(i * k, i * k + k)) as int, npow(x, i as nat), m, k) by {
        if i < cnt { assert(0 <= i * k && i * k + k <= cnt * k) by (nonlinear_arith) requires 0 <= i < cnt, k >= 0; assert((t + w).subrange(i * k, i * k + k) =~= t.subrange(i * k, i * k + k)); }
        else { assert((t + w).subrange(i * k, i * k + k) =~= w); }
    }
}
pub proof fn lemma_row_all(t: Seq<u64>, m: int, k: nat) {}
// reduced operands satisfy the multiplication's precondition
pub proof fn lemma_red(a: int, b: int, m: int, k: nat) requires 0 <= a < m, 0 <= b < m, m < bp(k) ensures a * b <= bp(k) * m, a < bp(k), b < bp(k)
{ assert(a * b <= bp(k) * m) by (nonlinear_arith) requires 0 <= a < m, 0 <= b < m, m < bp(k); }
//@item graviola/src/low/posint.rs :: struct BitsMsbFirstIter
impl<'a> BitsMsbFirstIter<'a> {
    pub open spec fn rem(self) -> nat { (64 * self.word + self.bit) as nat }
    pub open spec fn wf(self) -> bool { self.word < self.words@.len() && self.bit <= 64 }
//@fn graviola/src/low/posint.rs :: impl<'a> BitsMsbFirstIter<'a> :: new
//@ ret r
//@ spec
    requires words@.len() >= 1
    ensures r.wf(), r.words == words, r.rem() == 64 * words@.len()
//@end
//@fn graviola/src/low/posint.rs :: impl Iterator for BitsMsbFirstIter<'_> :: next
//@ ret r
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).words == old(self).words, r.is_none() == (old(self).rem() == 0), r.is_none() ==> *final(self) == *old(self),
        r.is_some() ==> final(self).rem() == old(self).rem() - 1 && r.unwrap() <= 1 && r.unwrap() == top(val(old(self).words@), final(self).rem()) % 2
//@ sub sig Self::Item => u64
//@ tail
    proof { lemma_word_bit(self.words@, self.word as int, self.bit as u64); let y = self.words@[self.word as int] >> self.bit; assert(y & 1 <= 1) by (bit_vector); }
//@end
}
}
