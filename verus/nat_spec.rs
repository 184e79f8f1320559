// numbers as 64-bit little-endian words, congruences, Montgomery form
verus! {
pub open spec fn bb() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn val(w: Seq<u64>) -> nat decreases w.len() { if w.len() == 0 { 0 } else { w[0] as nat + 0x1_0000_0000_0000_0000 * val(w.skip(1)) } }
pub open spec fn bp(k: nat) -> nat decreases k { if k == 0 { 1 } else { 0x1_0000_0000_0000_0000 * bp((k - 1) as nat) } }
pub open spec fn npow(x: int, e: nat) -> int decreases e { if e == 0 { 1 } else { x * npow(x, (e - 1) as nat) } }
pub open spec fn cong(a: int, b: int, m: int) -> bool { exists|q: int| a - b == #[trigger] (q * m) }
pub open spec fn odd(m: int) -> bool { m % 2 == 1 }
// r is x / R^k in [0, m)
pub open spec fn is_redc(r: int, x: int, m: int, k: nat) -> bool { 0 <= r < m && cong(r * bp(k), x, m) }
// a represents x in Montgomery form
pub open spec fn is_mont(a: int, x: int, m: int, k: nat) -> bool { 0 <= a < m && cong(a, x * bp(k), m) }

pub proof fn lemma_bp_pos(k: nat) ensures bp(k) > 0 decreases k { if k > 0 { lemma_bp_pos((k - 1) as nat); } }
pub proof fn lemma_bp_add(a: nat, b: nat) ensures bp(a + b) == bp(a) * bp(b) decreases a
{ if a > 0 { lemma_bp_add((a - 1) as nat, b); assert((a + b - 1) as nat == (a - 1) as nat + b); 
    let (x, y) = (bp((a - 1) as nat), bp(b)); assert(0x1_0000_0000_0000_0000 * (x * y) == (0x1_0000_0000_0000_0000 * x) * y) by (nonlinear_arith); } else { assert(bp(0) == 1); assert(1 * bp(b) == bp(b)); assert(a + b == b); } }
pub proof fn lemma_bp_mono(a: nat, b: nat) requires a <= b ensures bp(a) <= bp(b)
{ lemma_bp_add(a, (b - a) as nat); lemma_bp_pos((b - a) as nat); lemma_bp_pos(a); let (x, y) = (bp(a), bp((b - a) as nat)); assert(x * y >= x) by (nonlinear_arith) requires x > 0, y >= 1; }
pub proof fn lemma_val_bound(w: Seq<u64>) ensures val(w) < bp(w.len()) decreases w.len()
{ if w.len() > 0 { lemma_val_bound(w.skip(1)); } }
pub proof fn lemma_val_append(a: Seq<u64>, b: Seq<u64>) ensures val(a + b) == val(a) + bp(a.len()) * val(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(1 * val(b) == val(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b); lemma_val_append(a.skip(1), b);
        let (x, y, z) = (val(a.skip(1)), bp((a.len() - 1) as nat), val(b));
        assert(0x1_0000_0000_0000_0000 * (x + y * z) == 0x1_0000_0000_0000_0000 * x + (0x1_0000_0000_0000_0000 * y) * z) by (nonlinear_arith);
    }
}
pub proof fn lemma_val_split(w: Seq<u64>, k: int) requires 0 <= k <= w.len() ensures val(w) == val(w.take(k)) + bp(k as nat) * val(w.skip(k)), val(w.take(k)) < bp(k as nat)
{ assert(w =~= w.take(k) + w.skip(k)); lemma_val_append(w.take(k), w.skip(k)); lemma_val_bound(w.take(k)); }
pub proof fn lemma_val_zeros(w: Seq<u64>) requires forall|i: int| 0 <= i < w.len() ==> w[i] == 0 ensures val(w) == 0 decreases w.len()
{ if w.len() > 0 { lemma_val_zeros(w.skip(1)); } }
pub proof fn lemma_val_zero_inv(w: Seq<u64>) requires val(w) == 0 ensures forall|i: int| 0 <= i < w.len() ==> w[i] == 0 decreases w.len()
{ if w.len() > 0 { lemma_val_zero_inv(w.skip(1)); assert forall|i: int| 0 <= i < w.len() implies w[i] == 0 by { if i > 0 { assert(w[i] == w.skip(1)[i - 1]); } } } }
// zero words above k do not change the value
pub proof fn lemma_val_ext(w: Seq<u64>, k: int) requires 0 <= k <= w.len(), forall|i: int| k <= i < w.len() ==> w[i] == 0 ensures val(w) == val(w.take(k)), val(w) < bp(k as nat)
{ lemma_val_split(w, k); lemma_val_zeros(w.skip(k)); let b = bp(k as nat); assert(b * 0 == 0); }
// a value below R^k has zero words above k
pub proof fn lemma_val_fits(w: Seq<u64>, k: int) requires 0 <= k <= w.len(), val(w) < bp(k as nat) ensures val(w) == val(w.take(k)), forall|i: int| k <= i < w.len() ==> w[i] == 0
{
    lemma_val_split(w, k); let (h, b) = (val(w.skip(k)), bp(k as nat));
    if h > 0 { assert(b * h >= b) by (nonlinear_arith) requires h >= 1, b >= 0; }
    assert(b * 0 == 0);
    lemma_val_zero_inv(w.skip(k)); assert forall|i: int| k <= i < w.len() implies w[i] == 0 by { assert(w[i] == w.skip(k)[i - k]); }
}
pub proof fn lemma_val1(w: Seq<u64>) requires w.len() == 1 ensures val(w) == w[0] { assert(w.skip(1) =~= Seq::empty()); assert(val(w.skip(1)) == 0); }
pub proof fn lemma_val_even(w: Seq<u64>) requires w.len() > 0 ensures val(w) % 2 == w[0] % 2
{ let (a, b) = (w[0] as int, val(w.skip(1)) as int); assert(val(w) == a + 0x1_0000_0000_0000_0000 * b); }

// ---- congruences
pub proof fn cong_w(a: int, b: int, m: int, q: int) requires a - b == q * m ensures cong(a, b, m) {}
pub proof fn cong_refl(a: int, m: int) ensures cong(a, a, m) { assert(0 * m == 0); cong_w(a, a, m, 0); }
pub proof fn cong_sym(a: int, b: int, m: int) requires cong(a, b, m) ensures cong(b, a, m)
{ let q = choose|q: int| a - b == #[trigger] (q * m); assert((-q) * m == -(q * m)) by (nonlinear_arith); cong_w(b, a, m, -q); }
pub proof fn cong_trans(a: int, b: int, c: int, m: int) requires cong(a, b, m), cong(b, c, m) ensures cong(a, c, m)
{ let q = choose|q: int| a - b == #[trigger] (q * m); let r = choose|q: int| b - c == #[trigger] (q * m); assert((q + r) * m == q * m + r * m) by (nonlinear_arith); cong_w(a, c, m, q + r); }
pub proof fn cong_add(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a + c, b + d, m), cong(a - c, b - d, m)
{ let q = choose|q: int| a - b == #[trigger] (q * m); let r = choose|q: int| c - d == #[trigger] (q * m); assert((q + r) * m == q * m + r * m && (q - r) * m == q * m - r * m) by (nonlinear_arith); cong_w(a + c, b + d, m, q + r); cong_w(a - c, b - d, m, q - r); }
pub proof fn cong_mul(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a * c, b * d, m)
{
    let q = choose|q: int| a - b == #[trigger] (q * m); let r = choose|q: int| c - d == #[trigger] (q * m);
    // ac - bd = c(a-b) + b(c-d)
    assert(a * c - b * d == (c * q + b * r) * m) by (nonlinear_arith) requires a - b == q * m, c - d == r * m;
    cong_w(a * c, b * d, m, c * q + b * r);
}
pub proof fn cong_mod(a: int, m: int) requires m > 0 ensures cong(a % m, a, m), 0 <= a % m < m
{ lemma_fundamental_div_mod(a, m); lemma_mod_bound(a, m); let q = a / m; assert(m * q == q * m) by (nonlinear_arith); assert((-q) * m == -(q * m)) by (nonlinear_arith); cong_w(a % m, a, m, -q); }
pub proof fn cong_unique(a: int, b: int, m: int) requires cong(a, b, m), 0 <= a < m, 0 <= b < m ensures a == b
{ let q = choose|q: int| a - b == #[trigger] (q * m); assert(q == 0) by (nonlinear_arith) requires a - b == q * m, 0 <= a < m, 0 <= b < m; assert(0 * m == 0); }
pub proof fn cong_is_mod(r: int, x: int, m: int) requires cong(r, x, m), 0 <= r < m ensures r == x % m
{ cong_mod(x, m); cong_sym(x % m, x, m); cong_trans(r, x, x % m, m); cong_unique(r, x % m, m); }
// an odd modulus cancels powers of two
pub proof fn lemma_cancel2(a: int, b: int, m: int) requires odd(m), cong(2 * a, 2 * b, m) ensures cong(a, b, m)
{
    let q = choose|q: int| 2 * a - 2 * b == #[trigger] (q * m); let h = q / 2; let j = m / 2;
    assert(m == 2 * j + 1);
    if q % 2 == 1 { assert(q == 2 * h + 1); assert(q * m == 2 * (2 * h * j + h + j) + 1) by (nonlinear_arith) requires q == 2 * h + 1, m == 2 * j + 1; assert(false); }
    assert(q == 2 * h); assert(q * m == 2 * (h * m)) by (nonlinear_arith) requires q == 2 * h; cong_w(a, b, m, h);
}
pub proof fn lemma_cancel_pow2(a: int, b: int, m: int, n: nat) requires odd(m), cong(a * pow2(n), b * pow2(n), m) ensures cong(a, b, m) decreases n
{
    reveal(pow2); 
    if n == 0 { lemma2_to64(); assert(a * 1 == a && b * 1 == b); }
    else {
        lemma_pow2_unfold(n); let p = pow2((n - 1) as nat) as int;
        assert(a * (2 * p) == 2 * (a * p) && b * (2 * p) == 2 * (b * p)) by (nonlinear_arith);
        lemma_cancel2(a * p, b * p, m); lemma_cancel_pow2(a, b, m, (n - 1) as nat);
    }
}
pub proof fn lemma_bp_pow2(k: nat) ensures bp(k) == pow2(64 * k) decreases k
{ lemma2_to64(); if k > 0 { lemma_bp_pow2((k - 1) as nat); lemma_pow2_adds(64, (64 * (k - 1)) as nat); assert(64 + 64 * (k - 1) == 64 * k); lemma2_to64_rest(); } }
pub proof fn cong_cancel(a: int, b: int, m: int, k: nat) requires odd(m), cong(a * bp(k), b * bp(k), m) ensures cong(a, b, m)
{ lemma_bp_pow2(k); lemma_cancel_pow2(a, b, m, 64 * k); }
// division by 2^64k modulo an odd number
pub open spec fn half(a: int, m: int) -> int { if a % 2 == 0 { a / 2 } else { (a + m) / 2 } }
pub open spec fn halves(a: int, m: int, n: nat) -> int decreases n { if n == 0 { a } else { half(halves(a, m, (n - 1) as nat), m) } }
pub proof fn lemma_halves(a: int, m: int, n: nat) requires odd(m), m > 0, 0 <= a < m ensures 0 <= halves(a, m, n) < m, cong(halves(a, m, n) * pow2(n), a, m) decreases n
{
    if n == 0 { lemma2_to64(); cong_refl(a, m); assert(a * 1 == a); }
    else {
        lemma_halves(a, m, (n - 1) as nat); let h = halves(a, m, (n - 1) as nat); let g = half(h, m); let p = pow2((n - 1) as nat) as int;
        lemma_pow2_unfold(n);
        if h % 2 == 0 { cong_refl(2 * g, m); } else { assert(1 * m == m); cong_w(2 * g, h, m, 1); }
        assert(cong(2 * g, h, m)); cong_refl(p, m); cong_mul(2 * g, h, p, p, m); assert(g * (2 * p) == (2 * g) * p) by (nonlinear_arith);
        cong_trans(g * pow2(n), h * p, a, m);
    }
}
pub open spec fn demont(a: int, m: int, k: nat) -> int { halves(a, m, 64 * k) }
pub proof fn lemma_demont(a: int, m: int, k: nat) requires odd(m), m > 0, 0 <= a < m
    ensures 0 <= demont(a, m, k) < m, is_mont(a, demont(a, m, k), m, k), is_redc(demont(a, m, k), a, m, k)
{ lemma_halves(a, m, 64 * k); lemma_bp_pow2(k); cong_sym(demont(a, m, k) * bp(k), a, m); }
// demont(a) is the residue a represents
pub proof fn lemma_demont_of(a: int, x: int, m: int, k: nat) requires odd(m), m > 0, is_mont(a, x, m, k) ensures demont(a, m, k) == x % m
{
    lemma_demont(a, m, k); let d = demont(a, m, k);
    cong_sym(a, x * bp(k), m); 
    cong_trans(d * bp(k), a, x * bp(k), m); cong_cancel(d, x, m, k); cong_is_mod(d, x, m);
}
pub proof fn lemma_mont_cong(a: int, x: int, y: int, m: int, k: nat) requires is_mont(a, x, m, k), cong(x, y, m) ensures is_mont(a, y, m, k)
{ cong_refl(bp(k) as int, m); cong_mul(x, y, bp(k) as int, bp(k) as int, m); cong_trans(a, x * bp(k), y * bp(k), m); }
pub proof fn lemma_mont_mul(r: int, a: int, b: int, x: int, y: int, m: int, k: nat)
    requires odd(m), is_mont(a, x, m, k), is_mont(b, y, m, k), is_redc(r, a * b, m, k)
    ensures is_mont(r, x * y, m, k)
{
    let p = bp(k) as int;
    cong_mul(a, x * p, b, y * p, m); assert((x * p) * (y * p) == ((x * y) * p) * p) by (nonlinear_arith);
    cong_trans(r * p, a * b, (x * y * p) * p, m); cong_cancel(r, x * y * p, m, k);
}
// r = x / R where x = a * R^2: the conversions
pub proof fn lemma_to_mont(r: int, a: int, z: int, m: int, k: nat)
    requires odd(m), cong(z, (bp(k) * bp(k)) as int, m), is_redc(r, a * z, m, k)
    ensures is_mont(r, a, m, k)
{
    let p = bp(k) as int;
    cong_refl(a, m); cong_mul(a, a, z, p * p, m); assert(a * (p * p) == (a * p) * p) by (nonlinear_arith);
    cong_trans(r * p, a * z, (a * p) * p, m); cong_cancel(r, a * p, m, k);
}
pub proof fn lemma_from_mont(r: int, a: int, x: int, m: int, k: nat)
    requires odd(m), m > 0, is_mont(a, x, m, k), is_redc(r, a, m, k)
    ensures r == x % m
{ let p = bp(k) as int; cong_trans(r * p, a, x * p, m); cong_cancel(r, x, m, k); cong_is_mod(r, x, m); }
pub proof fn lemma_npow_add(x: int, a: nat, b: nat) ensures npow(x, a + b) == npow(x, a) * npow(x, b) decreases a
{ if a > 0 { lemma_npow_add(x, (a - 1) as nat, b); assert((a + b - 1) as nat == (a - 1) as nat + b); let (u, v) = (npow(x, (a - 1) as nat), npow(x, b)); assert(x * (u * v) == (x * u) * v) by (nonlinear_arith); } else { assert(1 * npow(x, b) == npow(x, b)); assert(a + b == b); } }
pub proof fn lemma_npow_cong(x: int, y: int, e: nat, m: int) requires cong(x, y, m) ensures cong(npow(x, e), npow(y, e), m) decreases e
{ if e == 0 { cong_refl(1, m); } else { lemma_npow_cong(x, y, (e - 1) as nat, m); cong_mul(x, y, npow(x, (e - 1) as nat), npow(y, (e - 1) as nat), m); } }
pub proof fn lemma_npow1(x: int) ensures npow(x, 1) == x { reveal_with_fuel(npow, 2); assert(x * 1 == x); }
// bits of a number, most significant first
pub open spec fn top(n: nat, r: nat) -> nat { n / pow2(r) }
pub proof fn lemma_top_step(n: nat, r: nat) requires r > 0 ensures top(n, (r - 1) as nat) == 2 * top(n, r) + top(n, (r - 1) as nat) % 2
{
    lemma_pow2_unfold(r); lemma_pow2_pos((r - 1) as nat); let p = pow2((r - 1) as nat) as int;
    lemma_div_denominator(n as int, p, 2); assert(p * 2 == 2 * p);
    assert(n as int / p / 2 == n as int / (p * 2));
    lemma_fundamental_div_mod(top(n, (r - 1) as nat) as int, 2);
}
pub proof fn lemma_word_bit(w: Seq<u64>, i: int, j: u64) requires 0 <= i < w.len(), 0 <= j < 64
    ensures top(val(w), (64 * i + j) as nat) % 2 == (w[i] >> j) & 1
{
    lemma_val_split(w, i); let s = w.skip(i); let (lo, b, h) = (val(w.take(i)) as int, bp(i as nat) as int, val(s) as int);
    lemma_bp_pow2(i as nat); lemma_pow2_adds((64 * i) as nat, j as nat); lemma_pow2_pos(j as nat); lemma_pow2_pos((64 * i) as nat);
    let p = pow2(j as nat) as int; let n = val(w) as int;
    lemma_div_denominator(n, b, p); assert(n / (b * p) == n / b / p);
    assert(n == h * b + lo) by (nonlinear_arith) requires n == lo + b * h; lemma_fundamental_div_mod_converse(n, b, h, lo);
    let x = w[i] as int; let t = val(s.skip(1)) as int; assert(s[0] == w[i]); assert(h == x + 0x1_0000_0000_0000_0000 * t);
    // 2^64 = p * q with q even
    let q = pow2((64 - j) as nat) as int; lemma_pow2_adds(j as nat, (64 - j) as nat); lemma2_to64_rest(); assert(p * q == 0x1_0000_0000_0000_0000);
    lemma_pow2_unfold((64 - j) as nat); let q2 = pow2((63 - j) as nat) as int; assert(q == 2 * q2);
    lemma_fundamental_div_mod(x, p); lemma_mod_bound(x, p);
    let y = x / p; let z = x % p;
    assert(h == (y + q * t) * p + z) by (nonlinear_arith) requires h == x + (p * q) * t, x == p * y + z;
    lemma_fundamental_div_mod_converse(h, p, y + q * t, z);
    assert(q * t == 2 * (q2 * t)) by (nonlinear_arith) requires q == 2 * q2;
    assert((y + q * t) % 2 == y % 2);
    vstd::bits::lemma_u64_shr_is_div(w[i], j); let ww = (w[i] >> j); assert(ww as int == y); assert(ww & 1 == ww % 2) by (bit_vector);
}
pub proof fn lemma_top_zero(n: nat, r: nat) requires n < pow2(r) ensures top(n, r) == 0 { lemma_basic_div(n as int, pow2(r) as int); }
pub proof fn lemma_top_all(n: nat) ensures top(n, 0) == n { lemma2_to64(); assert(n as int / 1 == n as int); }
pub proof fn lemma_bits_bytes(v: nat, r: nat) ensures v < pow2(r) ==> v < pow2((8 * ((r + 7) / 8)) as nat), r > 0 && v >= pow2((r - 1) as nat) ==> v >= pow2((8 * ((r + 7) / 8 - 1)) as nat)
{ let t = (8 * ((r + 7) / 8)) as nat; if t > r { lemma_pow2_strictly_increases(r, t); } if r > 0 { let t = (8 * ((r + 7) / 8 - 1)) as nat; if t < r - 1 { lemma_pow2_strictly_increases(t, (r - 1) as nat); } } }
}
