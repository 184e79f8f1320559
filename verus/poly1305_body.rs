//@use poly1305_spec.rs
pub proof fn lemma_poly_split(acc: nat, r: nat, a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 16 == 0
    ensures poly(acc, r, a + b) == poly(poly(acc, r, a), r, b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).take(16) =~= a.take(16)); assert((a + b).skip(16) =~= a.skip(16) + b);
        lemma_poly_split(pstep(acc, r, a.take(16)), r, a.skip(16), b);
        if b.len() == 0 { assert(a + b =~= a); }
        if a.len() == 16 { assert(a.take(16) =~= a); assert(a.skip(16) + b =~= b); assert(a.skip(16) =~= Seq::<u8>::empty());}
    }
}
pub proof fn lemma_poly_snoc(acc: nat, r: nat, a: Seq<u8>, b: Seq<u8>)
    requires a.len() % 16 == 0, b.len() <= 16, b.len() > 0
    ensures poly(acc, r, a + b) == pstep(poly(acc, r, a), r, b)
{ lemma_poly_split(acc, r, a, b); }
pub proof fn lemma_le4(s: Seq<u8>) requires s.len() == 4 ensures le_val(s) == s[0] + 256 * s[1] + 65536 * s[2] + 16777216 * s[3]
{ reveal_with_fuel(le_val, 5); assert(s.skip(1).skip(1).skip(1).skip(1) =~= Seq::empty()); }
pub proof fn lemma_le_append(a: Seq<u8>, b: Seq<u8>)
    ensures le_val(a + b) == le_val(a) + p256(a.len()) * le_val(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(1 * le_val(b) == le_val(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b); lemma_le_append(a.skip(1), b);
        let (x, y, z) = (le_val(a.skip(1)), p256((a.len() - 1) as nat), le_val(b));
        assert(256 * (x + y * z) == 256 * x + (256 * y) * z) by (nonlinear_arith);
    }
}
pub proof fn lemma_p256_16() ensures p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(12) == 0x1_0000_0000_0000_0000_0000_0000, p256(16) == (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000)
{ reveal_with_fuel(p256, 17); }
pub proof fn lemma_le16(s: Seq<u8>) requires s.len() == 16
    ensures le_val(s) == le_val(s.subrange(0, 4)) + 0x1_0000_0000 * le_val(s.subrange(4, 8)) + 0x1_0000_0000_0000_0000 * le_val(s.subrange(8, 12)) + 0x1_0000_0000_0000_0000_0000_0000 * le_val(s.subrange(12, 16))
{
    lemma_p256_16();
    let (a, b, c, d) = (s.subrange(0, 4), s.subrange(4, 8), s.subrange(8, 12), s.subrange(12, 16));
    assert(s =~= a + (b + (c + d)));
    lemma_le_append(a, b + (c + d)); lemma_le_append(b, c + d); lemma_le_append(c, d);
    let (w, x, y, z) = (le_val(a) as int, le_val(b) as int, le_val(c) as int, le_val(d) as int); let p = p256(4) as int;
    assert(w + p * (x + p * (y + p * z)) == w + 0x1_0000_0000 * x + 0x1_0000_0000_0000_0000 * y + 0x1_0000_0000_0000_0000_0000_0000 * z) by (nonlinear_arith) requires p == 0x1_0000_0000;
}
pub proof fn lemma_le16_bytes(s: Seq<u8>) requires s.len() == 16
    ensures le_val(s) == s[0] + 0x100 * s[1] + 0x1_0000 * s[2] + 0x100_0000 * s[3]
        + 0x1_0000_0000 * (s[4] + 0x100 * s[5] + 0x1_0000 * s[6] + 0x100_0000 * s[7])
        + 0x1_0000_0000_0000_0000 * (s[8] + 0x100 * s[9] + 0x1_0000 * s[10] + 0x100_0000 * s[11])
        + 0x1_0000_0000_0000_0000_0000_0000 * (s[12] + 0x100 * s[13] + 0x1_0000 * s[14] + 0x100_0000 * s[15])
{
    lemma_le16(s);
    lemma_le4(s.subrange(0, 4)); lemma_le4(s.subrange(4, 8)); lemma_le4(s.subrange(8, 12)); lemma_le4(s.subrange(12, 16));
}
pub proof fn lemma_zeros(n: nat) ensures le_val(Seq::new(n, |i: int| 0u8)) == 0 decreases n
{ let z = Seq::new(n, |i: int| 0u8); if n > 0 { lemma_zeros((n - 1) as nat); assert(z.skip(1) =~= Seq::new((n - 1) as nat, |i: int| 0u8)); } }

pub open spec fn w4(a: u8, b: u8, c: u8, d: u8) -> int { a + 256 * b + 65536 * c + 16777216 * d }
// the five overlapping reads of a 16-byte block, as numbers
pub proof fn lemma_word(w: u32, a: u8, b: u8, c: u8, d: u8)
    requires w == w4(a, b, c, d)
    ensures w & 0x3ffffff == a + 0x100 * b + 0x10000 * c + 0x1000000 * (d & 3),
        (w >> 2) & 0x3ffffff == (a >> 2) + 0x40 * b + 0x4000 * c + 0x400000 * (d & 15),
        (w >> 4) & 0x3ffffff == (a >> 4) + 0x10 * b + 0x1000 * c + 0x100000 * (d & 63),
        (w >> 6) & 0x3ffffff == (a >> 6) + 0x4 * b + 0x400 * c + 0x40000 * d,
        (w >> 8) == b + 0x100 * c + 0x10000 * d,
        (w >> 8) | (1u32 << 24) == 0x1000000 + b + 0x100 * c + 0x10000 * d, 1u32 << 24 == 0x1000000,
        (w >> 2) & 0x3ffff03 == ((a >> 2) & 3) + 0x40 * (b & 252) + 0x4000 * c + 0x400000 * (d & 15),
        (w >> 4) & 0x3ffc0ff == (a >> 4) + 0x10 * (b & 15) + 0x1000 * (c & 252) + 0x100000 * (d & 63),
        (w >> 6) & 0x3f03fff == (a >> 6) + 0x4 * b + 0x400 * (c & 15) + 0x40000 * (d & 252),
        (w >> 8) & 0x00fffff == b + 0x100 * c + 0x10000 * (d & 15),
        (d & 3) + 4 * (d >> 2) == d, (d & 15) + 16 * (d >> 4) == d, (d & 63) + 64 * (d >> 6) == d, (d & 3) + 4 * ((d >> 2) & 3) == d & 15,
        a & 3 <= 3, a & 15 <= 15, a & 63 <= 63, a >> 2 <= 63, a >> 4 <= 15, a >> 6 <= 3, a & 252 <= 252,
        d & 3 <= 3, d & 15 <= 15, d & 63 <= 63, d & 252 <= 252, c & 15 <= 15, c & 252 <= 252, b & 15 <= 15, b & 252 <= 252, d >> 2 <= 63, d >> 4 <= 15, d >> 6 <= 3, (d >> 2) & 3 <= 3, (a >> 2) & 3 <= 3,
{
    let (A, B, C, D) = (a as u32, b as u32, c as u32, d as u32);
    let x = A | (B << 8) | (C << 16) | (D << 24);
    assert(x == A + 256u32 * B + 65536u32 * C + 16777216u32 * D) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, x == A | (B << 8) | (C << 16) | (D << 24);
    assert(w == x);
    let w = A | (B << 8) | (C << 16) | (D << 24);
    assert(w & 0x3ffffff == A + 0x100u32 * B + 0x10000u32 * C + 0x1000000u32 * (D & 3)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 2) & 0x3ffffff == (A >> 2) + 0x40u32 * B + 0x4000u32 * C + 0x400000u32 * (D & 15)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 4) & 0x3ffffff == (A >> 4) + 0x10u32 * B + 0x1000u32 * C + 0x100000u32 * (D & 63)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 6) & 0x3ffffff == (A >> 6) + 0x4u32 * B + 0x400u32 * C + 0x40000u32 * D) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 8) == B + 0x100u32 * C + 0x10000u32 * D) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert(((w >> 8) | (1u32 << 24)) == 0x1000000u32 + B + 0x100u32 * C + 0x10000u32 * D) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 2) & 0x3ffff03 == ((A >> 2) & 3) + 0x40u32 * (B & 252) + 0x4000u32 * C + 0x400000u32 * (D & 15)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 4) & 0x3ffc0ff == (A >> 4) + 0x10u32 * (B & 15) + 0x1000u32 * (C & 252) + 0x100000u32 * (D & 63)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 6) & 0x3f03fff == (A >> 6) + 0x4u32 * B + 0x400u32 * (C & 15) + 0x40000u32 * (D & 252)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert((w >> 8) & 0x00fffff == B + 0x100u32 * C + 0x10000u32 * (D & 15)) by (bit_vector) requires A < 256, B < 256, C < 256, D < 256, w == A | (B << 8) | (C << 16) | (D << 24);
    assert(1u32 << 24 == 0x1000000) by (bit_vector);
    assert(A >> 2 == (a >> 2) as u32 && A >> 4 == (a >> 4) as u32 && A >> 6 == (a >> 6) as u32 && ((A >> 2) & 3) == ((a >> 2) & 3) as u32
        && D & 3 == (d & 3) as u32 && D & 15 == (d & 15) as u32 && D & 63 == (d & 63) as u32 && D & 252 == (d & 252) as u32 && B & 15 == (b & 15) as u32 && B & 252 == (b & 252) as u32 && C & 15 == (c & 15) as u32 && C & 252 == (c & 252) as u32) by (bit_vector)
        requires A == a as u32, B == b as u32, C == c as u32, D == d as u32;
    assert((d & 3) + 4 * (d >> 2) == d && (d & 15) + 16 * (d >> 4) == d && (d & 63) + 64 * (d >> 6) == d && (d & 3) + 4 * ((d >> 2) & 3) == d & 15) by (bit_vector);
    assert(a & 3 <= 3 && a & 15 <= 15 && a & 63 <= 63 && a >> 2 <= 63 && a >> 4 <= 15 && a >> 6 <= 3 && a & 252 <= 252) by (bit_vector);
    assert(d & 3 <= 3 && d & 15 <= 15 && d & 63 <= 63 && d & 252 <= 252 && d >> 2 <= 63 && d >> 4 <= 15 && d >> 6 <= 3 && (d >> 2) & 3 <= 3 && (a >> 2) & 3 <= 3) by (bit_vector);
    assert(c & 15 <= 15 && c & 252 <= 252 && b & 15 <= 15 && b & 252 <= 252) by (bit_vector);
}
pub open spec fn v5(h: Seq<u32>) -> nat { (h[0] + 0x400_0000 * h[1] + 0x10_0000_0000_0000 * h[2] + 0x4000_0000_0000_0000_0000 * h[3] + 0x1_0000_0000_0000_0000_0000_0000_00 * h[4]) as nat }
// the bound kept on the accumulator between blocks
pub open spec fn hb(h: Seq<u32>) -> bool { h[0] < 0x400_0000 && h[1] < 0x400_0100 && h[2] < 0x400_0000 && h[3] < 0x400_0000 && h[4] < 0x400_0000 }
pub open spec fn hb2(h: Seq<u32>) -> bool { h[0] < 0x800_0000 && h[1] < 0x800_0100 && h[2] < 0x800_0000 && h[3] < 0x800_0000 && h[4] < 0x800_0000 }
pub open spec fn hb0(h: Seq<u32>) -> bool { h[0] < 0x400_0000 && h[1] < 0x400_0000 && h[2] < 0x400_0000 && h[3] < 0x400_0000 && h[4] < 0x400_0000 }
pub open spec fn rb(r: Seq<u32>) -> bool { r[0] < 0x400_0000 && r[1] < 0x400_0000 && r[2] < 0x400_0000 && r[3] < 0x400_0000 && r[4] < 0x10_0000 }

pub proof fn lemma_shift26(x: u32) ensures x >> 26 == x / 0x400_0000, x & 0x3ff_ffff == x % 0x400_0000
{ assert(x >> 26 == x / 0x400_0000 && x & 0x3ff_ffff == x % 0x400_0000) by (bit_vector); }
pub proof fn lemma_shift26w(x: u64) ensures x >> 26 == x / 0x400_0000, x & 0x3ff_ffff == x % 0x400_0000
{ assert(x >> 26 == x / 0x400_0000 && x & 0x3ff_ffff == x % 0x400_0000) by (bit_vector); }

// h * r modulo 2^130 - 5 in columns
pub open spec fn cols(h: Seq<u32>, r: Seq<u32>) -> (int, int, int, int, int) {
    (h[0] * r[0] + 5 * (h[1] * r[4]) + 5 * (h[2] * r[3]) + 5 * (h[3] * r[2]) + 5 * (h[4] * r[1]),
     h[0] * r[1] + h[1] * r[0] + 5 * (h[2] * r[4]) + 5 * (h[3] * r[3]) + 5 * (h[4] * r[2]),
     h[0] * r[2] + h[1] * r[1] + h[2] * r[0] + 5 * (h[3] * r[4]) + 5 * (h[4] * r[3]),
     h[0] * r[3] + h[1] * r[2] + h[2] * r[1] + h[3] * r[0] + 5 * (h[4] * r[4]),
     h[0] * r[4] + h[1] * r[3] + h[2] * r[2] + h[3] * r[1] + h[4] * r[0])
}
pub open spec fn v5i(d: (int, int, int, int, int)) -> int { d.0 + 0x400_0000 * d.1 + 0x10_0000_0000_0000 * d.2 + 0x4000_0000_0000_0000_0000 * d.3 + 0x1_0000_0000_0000_0000_0000_0000_00 * d.4 }
pub proof fn lemma_cols(h: Seq<u32>, r: Seq<u32>)
    ensures v5(h) * v5(r) == v5i(cols(h, r)) + times_p(h[1] * r[4] + h[2] * r[3] + h[3] * r[2] + h[4] * r[1]
        + 0x400_0000 * (h[2] * r[4] + h[3] * r[3] + h[4] * r[2]) + 0x10_0000_0000_0000 * (h[3] * r[4] + h[4] * r[3]) + 0x4000_0000_0000_0000_0000 * (h[4] * r[4]))
{
    let (h0, h1, h2, h3, h4) = (h[0] as int, h[1] as int, h[2] as int, h[3] as int, h[4] as int);
    let (r0, r1, r2, r3, r4) = (r[0] as int, r[1] as int, r[2] as int, r[3] as int, r[4] as int);
    lemma_cols_int(h0, h1, h2, h3, h4, r0, r1, r2, r3, r4);
}
pub proof fn lemma_row(a: int, r0: int, r1: int, r2: int, r3: int, r4: int)
    ensures a * (r0 + 0x400_0000 * r1 + 0x10_0000_0000_0000 * r2 + 0x4000_0000_0000_0000_0000 * r3 + 0x1_0000_0000_0000_0000_0000_0000_00 * r4)
        == a * r0 + 0x400_0000 * (a * r1) + 0x10_0000_0000_0000 * (a * r2) + 0x4000_0000_0000_0000_0000 * (a * r3) + 0x1_0000_0000_0000_0000_0000_0000_00 * (a * r4)
{
    assert(a * (r0 + 0x400_0000 * r1 + 0x10_0000_0000_0000 * r2 + 0x4000_0000_0000_0000_0000 * r3 + 0x1_0000_0000_0000_0000_0000_0000_00 * r4)
        == a * r0 + 0x400_0000 * (a * r1) + 0x10_0000_0000_0000 * (a * r2) + 0x4000_0000_0000_0000_0000 * (a * r3) + 0x1_0000_0000_0000_0000_0000_0000_00 * (a * r4)) by (nonlinear_arith);
}
pub proof fn lemma_cols_int(h0: int, h1: int, h2: int, h3: int, h4: int, r0: int, r1: int, r2: int, r3: int, r4: int)
    ensures (h0 + 0x400_0000 * h1 + 0x10_0000_0000_0000 * h2 + 0x4000_0000_0000_0000_0000 * h3 + 0x1_0000_0000_0000_0000_0000_0000_00 * h4)
        * (r0 + 0x400_0000 * r1 + 0x10_0000_0000_0000 * r2 + 0x4000_0000_0000_0000_0000 * r3 + 0x1_0000_0000_0000_0000_0000_0000_00 * r4)
     == (h0 * r0 + 5 * (h1 * r4) + 5 * (h2 * r3) + 5 * (h3 * r2) + 5 * (h4 * r1))
      + 0x400_0000 * (h0 * r1 + h1 * r0 + 5 * (h2 * r4) + 5 * (h3 * r3) + 5 * (h4 * r2))
      + 0x10_0000_0000_0000 * (h0 * r2 + h1 * r1 + h2 * r0 + 5 * (h3 * r4) + 5 * (h4 * r3))
      + 0x4000_0000_0000_0000_0000 * (h0 * r3 + h1 * r2 + h2 * r1 + h3 * r0 + 5 * (h4 * r4))
      + 0x1_0000_0000_0000_0000_0000_0000_00 * (h0 * r4 + h1 * r3 + h2 * r2 + h3 * r1 + h4 * r0)
      + times_p(h1 * r4 + h2 * r3 + h3 * r2 + h4 * r1
        + 0x400_0000 * (h2 * r4 + h3 * r3 + h4 * r2) + 0x10_0000_0000_0000 * (h3 * r4 + h4 * r3) + 0x4000_0000_0000_0000_0000 * (h4 * r4))
{
    let rr = r0 + 0x400_0000 * r1 + 0x10_0000_0000_0000 * r2 + 0x4000_0000_0000_0000_0000 * r3 + 0x1_0000_0000_0000_0000_0000_0000_00 * r4;
    lemma_row(rr, h0, h1, h2, h3, h4);
    lemma_row(h0, r0, r1, r2, r3, r4); lemma_row(h1, r0, r1, r2, r3, r4); lemma_row(h2, r0, r1, r2, r3, r4); lemma_row(h3, r0, r1, r2, r3, r4); lemma_row(h4, r0, r1, r2, r3, r4);
    lemma_mul_is_commutative(rr, h0); lemma_mul_is_commutative(rr, h1); lemma_mul_is_commutative(rr, h2); lemma_mul_is_commutative(rr, h3); lemma_mul_is_commutative(rr, h4);
    lemma_mul_is_commutative(rr, h0 + 0x400_0000 * h1 + 0x10_0000_0000_0000 * h2 + 0x4000_0000_0000_0000_0000 * h3 + 0x1_0000_0000_0000_0000_0000_0000_00 * h4);
}
pub proof fn lemma_prod(a: int, b: int, x: int, y: int) requires 0 <= a <= x, 0 <= b <= y ensures 0 <= a * b <= x * y
{ assert(0 <= a * b <= x * y) by (nonlinear_arith) requires 0 <= a <= x, 0 <= b <= y; }

pub open spec fn t128(k: int) -> int { 0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * k) }
pub proof fn lemma_t128(k: int, t: nat) requires t < 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
    ensures (t + t128(k)) % ((0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int)) == t
{
    let M: int = 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
    assert(t128(k) == M * k) by (nonlinear_arith) requires t128(k) == 0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * k), M == 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int;
    lemma_mod_multiples_vanish(k, t as int, M); lemma_small_mod(t, M as nat);
}
pub proof fn lemma_le_split(x: nat, a: nat, b: nat, hi: nat) requires x < p256(a) ensures le(x + p256(a) * hi, a + b) == le(x, a) + le(hi, b) decreases a
{
    if a == 0 { assert(x + 1 * hi == hi); assert(p256(0) * hi == hi); assert(le(x, 0) + le(hi, b) =~= le(hi, b)); }
    else {
        let y = x + p256(a) * hi; let c = p256((a - 1) as nat);
        assert(p256(a) * hi == 256 * (c * hi)) by (nonlinear_arith) requires p256(a) == 256 * c;
        assert(y % 256 == x % 256 && y / 256 == x / 256 + c * hi);
        lemma_le_split(x / 256, (a - 1) as nat, b, hi);
        assert(seq![(x % 256) as u8] + (le(x / 256, (a - 1) as nat) + le(hi, b)) =~= (seq![(x % 256) as u8] + le(x / 256, (a - 1) as nat)) + le(hi, b));
    }
}
pub proof fn lemma_le_words(a: u32, b: u32, c: u32, d: u32, t: nat) requires t == a + 0x1_0000_0000 * b + 0x1_0000_0000_0000_0000 * c + 0x1_0000_0000_0000_0000_0000_0000 * d
    ensures le(t, 16) == le(a as nat, 4) + le(b as nat, 4) + le(c as nat, 4) + le(d as nat, 4), t < 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000
{
    lemma_p256_16();
    lemma_le_split(a as nat, 4, 12, b as nat + 0x1_0000_0000 * c as nat + 0x1_0000_0000_0000_0000 * d as nat);
    lemma_le_split(b as nat, 4, 8, c as nat + 0x1_0000_0000 * d as nat);
    lemma_le_split(c as nat, 4, 4, d as nat);
    assert(le(a as nat, 4) + (le(b as nat, 4) + (le(c as nat, 4) + le(d as nat, 4))) =~= le(a as nat, 4) + le(b as nat, 4) + le(c as nat, 4) + le(d as nat, 4));
}
pub proof fn lemma_pack32(a: u32, b: u32, c: u32, d: u32, e: u32)
    requires a < 0x400_0000, b < 0x400_0000, c < 0x400_0000, d < 0x400_0000, e < 0x400_0000
    ensures a | (b << 26) == a + 0x400_0000 * (b % 64), (b >> 6) | (c << 20) == b / 64 + 0x10_0000 * (c % 4096), (c >> 12) | (d << 14) == c / 4096 + 0x4000 * (d % 0x4_0000), (d >> 18) | (e << 8) == d / 0x4_0000 + 0x100 * (e % 0x100_0000)
{
    assert(a | (b << 26) == a + 0x400_0000u32 * (b % 64) && (b >> 6) | (c << 20) == b / 64 + 0x10_0000u32 * (c % 4096) && (c >> 12) | (d << 14) == c / 4096 + 0x4000u32 * (d % 0x4_0000) && (d >> 18) | (e << 8) == d / 0x4_0000 + 0x100u32 * (e % 0x100_0000)) by (bit_vector)
        requires a < 0x400_0000, b < 0x400_0000, c < 0x400_0000, d < 0x400_0000, e < 0x400_0000;
}
//@fn graviola/src/low/generic/poly1305.rs :: - :: read32
//@ ret r
//@ spec
    requires bytes@.len() == 4 ensures r == le_val(bytes@), r == w4(bytes@[0], bytes@[1], bytes@[2], bytes@[3])
//@ begin
    proof { lemma_le4(bytes@); }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: add
//@ spec
    requires hb(old(h)@), hb0(x@) ensures v5(final(h)@) == v5(old(h)@) + v5(x@), hb2(final(h)@)
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: mul
//@ spec
    requires hb2(old(h)@), rb(r@), s@[0] == 5 * r@[1], s@[1] == 5 * r@[2], s@[2] == 5 * r@[3], s@[3] == 5 * r@[4]
    ensures hb(final(h)@), v5(final(h)@) % pp() == (v5(old(h)@) * v5(r@)) % pp()
//@ attr #[verifier::rlimit(200)]
//@ sub -> u64 \{ => -> (o: u64) ensures o == a * b { proof { assert(a * b <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires a <= 0xffff_ffff, b <= 0xffff_ffff, a >= 0, b >= 0; }
//@ before #1 let d0
    let ghost H = h@; let ghost (c0, c1, c2, c3, c4) = cols(h@, r@);
    proof {
        let (M, N, L) = (0x800_00ffint, 0x3ff_ffffint, 0xf_ffffint);
        assert forall|i: int, j: int| #![trigger H[i], r@[j]] 0 <= i < 5 && 0 <= j < 4 implies 0 <= H[i] * r@[j] <= M * N by { lemma_prod(H[i] as int, r@[j] as int, M, N); }
        assert forall|i: int| #![trigger H[i]] 0 <= i < 5 implies 0 <= H[i] * r@[4] <= M * L by { lemma_prod(H[i] as int, r@[4] as int, M, L); }
        assert forall|i: int, j: int| #![trigger H[i], r@[j + 1]] 0 <= i < 5 && 0 <= j < 4 implies H[i] * s@[j] == 5 * (H[i] * r@[j + 1]) by { assert(H[i] * (5 * r@[j + 1]) == 5 * (H[i] * r@[j + 1])) by (nonlinear_arith); }
        assert(H[1] * s@[3] == 5 * (H[1] * r@[3int + 1])); assert(H[2] * s@[2] == 5 * (H[2] * r@[2int + 1])); assert(H[3] * s@[1] == 5 * (H[3] * r@[1int + 1])); assert(H[4] * s@[0] == 5 * (H[4] * r@[0int + 1]));
        assert(H[2] * s@[3] == 5 * (H[2] * r@[3int + 1])); assert(H[3] * s@[2] == 5 * (H[3] * r@[2int + 1])); assert(H[4] * s@[1] == 5 * (H[4] * r@[1int + 1]));
        assert(H[3] * s@[3] == 5 * (H[3] * r@[3int + 1])); assert(H[4] * s@[2] == 5 * (H[4] * r@[2int + 1]));
        assert(H[4] * s@[3] == 5 * (H[4] * r@[3int + 1]));
    }
//@ before #1 let carry
    proof { assert(d0 == c0 && d1 == c1 && d2 == c2 && d3 == c3 && d4 == c4);
      assert(d0 <= 21 * 0x800_00ff * 0x3ff_ffff && d1 <= 21 * 0x800_00ff * 0x3ff_ffff && d2 <= 21 * 0x800_00ff * 0x3ff_ffff && d3 <= 21 * 0x800_00ff * 0x3ff_ffff && d4 <= 0x800_00ff * 0xf_ffff + 4 * 0x800_00ff * 0x3ff_ffff);
      lemma_shift26w(d0); }
    let ghost e0 = d0;
//@ before #2 let carry
    proof { lemma_shift26w(d1); } let ghost e1 = d1;
//@ before #3 let carry
    proof { lemma_shift26w(d2); } let ghost e2 = d2;
//@ before #4 let carry
    proof { lemma_shift26w(d3); } let ghost e3 = d3;
//@ before #5 let carry
    proof { lemma_shift26w(d4); } let ghost e4 = d4;
//@ before #6 let carry
    proof { lemma_shift26(h[0]); } let ghost f0 = h[0]; let ghost f1 = h[1];
//@ end
    proof {
        lemma_cols(H, r@);
        let K = H[1] * r@[4] + H[2] * r@[3] + H[3] * r@[2] + H[4] * r@[1] + 0x400_0000 * (H[2] * r@[4] + H[3] * r@[3] + H[4] * r@[2]) + 0x10_0000_0000_0000 * (H[3] * r@[4] + H[4] * r@[3]) + 0x4000_0000_0000_0000_0000 * (H[4] * r@[4]);
        assert(v5(h@) == v5i((c0, c1, c2, c3, c4)) - times_p(e4 as int / 0x400_0000));
        lemma_mod_multiples_vanish(K + e4 / 0x400_0000, v5(h@) as int, pp() as int);
        lemma_times_p(K + e4 / 0x400_0000);
        assert(v5(H) * v5(r@) == pp() * (K + e4 / 0x400_0000) + v5(h@));
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: min_reduce
//@ spec
    requires hb(old(h)@) ensures hb0(final(h)@), v5(final(h)@) % pp() == v5(old(h)@) % pp()
//@ before #1 let carry
    let ghost H = h@;
    proof { lemma_shift26(h[1]); }
//@ before #2 let carry
    proof { lemma_shift26(h[2]); }
//@ before #3 let carry
    proof { lemma_shift26(h[3]); }
//@ before #4 let carry
    proof { lemma_shift26(h[4]); }
    let ghost c = h[4] / 0x400_0000;
//@ before #5 let carry
    proof { lemma_shift26(h[0]); }
//@ end
    proof { assert(v5(h@) == v5(H) - times_p(c as int)); lemma_times_p(c as int); lemma_mod_multiples_vanish(c as int, v5(h@) as int, pp() as int); }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: equal_mask
//@ ret o
//@ spec
    ensures o == (if x == y { 0xffff_ffffu32 } else { 0u32 })
//@ begin
    proof {
        let d = x ^ y;
        assert(d == 0 <==> x == y) by (bit_vector) requires d == x ^ y;
        assert(((!d & sub(d, 1)) >> 31) == (if d == 0 { 1u32 } else { 0u32 })) by (bit_vector);
        assert(d == 0 ==> sub(d, 1) == 0xffff_ffff) by (bit_vector);
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: maybe_sub_130_5
//@ spec
    requires hb0(old(h)@) ensures hb0(final(h)@), v5(final(h)@) == v5(old(h)@) % pp()
//@ before #1 let carry
    let ghost H = h@; let ghost a0 = g0;
    proof { lemma_shift26(g0); assert(g0 == H[0] + 5); }
//@ before #2 let carry
    proof { lemma_shift26(g1); assert(g1 == H[1] + a0 / 0x400_0000); }
    let ghost a1 = g1; let ghost b0 = g0; proof { assert(a0 == 0x400_0000 * (a0 / 0x400_0000) + b0 && b0 < 0x400_0000); }
//@ before #3 let carry
    proof { lemma_shift26(g2); assert(g2 == H[2] + a1 / 0x400_0000); }
    let ghost a2 = g2; let ghost b1 = g1; proof { assert(a1 == 0x400_0000 * (a1 / 0x400_0000) + b1 && b1 < 0x400_0000); }
//@ before #4 let carry
    proof { lemma_shift26(g3); assert(g3 == H[3] + a2 / 0x400_0000); }
    let ghost a3 = g3; let ghost b2 = g2; proof { assert(a2 == 0x400_0000 * (a2 / 0x400_0000) + b2 && b2 < 0x400_0000); }
//@ before let negative_mask
    let ghost G = seq![g0, g1, g2, g3, g4];
    proof {
        let b3 = g3; assert(a3 == 0x400_0000 * (a3 / 0x400_0000) + b3 && b3 < 0x400_0000);
        assert(1u32 << 26 == 0x400_0000) by (bit_vector);
        let t = H[4] + a3 / 0x400_0000;
        assert(g4 == (if t >= 0x400_0000 { t - 0x400_0000 } else { t - 0x400_0000 + 0x1_0000_0000 }));
        assert(v5(H) + 5 == b0 + 0x400_0000 * b1 + 0x10_0000_0000_0000 * b2 + 0x4000_0000_0000_0000_0000 * b3 + 0x1_0000_0000_0000_0000_0000_0000_00 * t);
        assert(g4 & 0x80000000 == (if g4 >= 0x80000000 { 0x80000000u32 } else { 0u32 })) by (bit_vector);
        assert(forall|a: u32, b: u32| ((a & 0xffff_ffffu32) | (b & !0xffff_ffffu32)) == a && ((a & 0u32) | (b & !0u32)) == b) by (bit_vector);
        lemma_times_p(1);
        if g4 < 0x80000000 { assert(t >= 0x400_0000); assert(v5(G) == v5(H) - times_p(1)); assert(hb0(G)); }
        else { assert(t < 0x400_0000); assert(v5(H) < times_p(1)); }
    }
//@ end
    proof {
        if g4 < 0x80000000 { assert(h@ =~= G); assert(v5(H) < 2 * times_p(1)); lemma_mod_add_multiples_vanish(v5(G) as int, pp() as int); lemma_small_mod(v5(G), pp()); }
        else { assert(h@ =~= H); lemma_small_mod(v5(H), pp()); }
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: - :: full_reduce
//@ spec
    requires hb(old(h)@) ensures hb0(final(h)@), v5(final(h)@) == v5(old(h)@) % pp()
//@end

// derived Clone
impl<const N: usize> Blockwise<N> { #[verifier::external_body] pub fn v_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item graviola/src/low/generic/poly1305.rs :: struct Poly1305
impl Poly1305 {
    pub open spec fn models(self, k: Seq<u8>, m: Seq<u8>) -> bool {
        let n = m.len() - m.len() % 16;
        &&& self.wf() && v5(self.r@) == poly_r(k)
        &&& self.s@[0] + 0x1_0000_0000 * self.s@[1] + 0x1_0000_0000_0000_0000 * self.s@[2] + 0x1_0000_0000_0000_0000_0000_0000 * self.s@[3] == poly_s(k)
        &&& v5(self.h@) % pp() == poly(0, poly_r(k), m.take(n))
        &&& self.bw.data() == m.skip(n)
    }
    pub open spec fn wf(self) -> bool {
        &&& rb(self.r@) && hb(self.h@) && self.r5@[0] == 5 * self.r@[1] && self.r5@[1] == 5 * self.r@[2] && self.r5@[2] == 5 * self.r@[3] && self.r5@[3] == 5 * self.r@[4]
        &&& self.bw.wf() && self.bw.used < 16
    }
    pub open spec fn same(self, o: Self) -> bool { self.r == o.r && self.s == o.s && self.r5 == o.r5 }
    // one block taken in
    pub open spec fn stepped(self, o: Self, b: Seq<u8>) -> bool {
        &&& o.same(self) && o.bw == self.bw && hb(o.h@) && v5(o.h@) % pp() == ((v5(self.h@) + le_val(b) + p256(b.len())) * v5(self.r@)) % pp()
    }
    pub proof fn lemma_stepped(self, o: Self, b: Seq<u8>) requires self.stepped(o, b)
        ensures v5(o.h@) % pp() == pstep(v5(self.h@) % pp(), v5(self.r@), b)
    {
        let (x, y, r) = (v5(self.h@) as int, (le_val(b) + p256(b.len())) as int, v5(self.r@) as int);
        lemma_mul_mod_noop_left(x + y, r, pp() as int); lemma_mul_mod_noop_left(x % (pp() as int) + y, r, pp() as int);
        lemma_add_mod_noop(x, y, pp() as int); lemma_add_mod_noop(x % (pp() as int), y, pp() as int); lemma_mod_twice(x, pp() as int);
    }

//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: new
//@ ret o
//@ spec
    ensures o.models(key@, Seq::empty())
//@ before let r5
    proof {
        let k = key@; let c = clamp(k.take(16));
        lemma_word(w4(k[0], k[1], k[2], k[3]) as u32, k[0], k[1], k[2], k[3]);
        lemma_word(w4(k[3], k[4], k[5], k[6]) as u32, k[3], k[4], k[5], k[6]);
        lemma_word(w4(k[6], k[7], k[8], k[9]) as u32, k[6], k[7], k[8], k[9]);
        lemma_word(w4(k[9], k[10], k[11], k[12]) as u32, k[9], k[10], k[11], k[12]);
        lemma_word(w4(k[12], k[13], k[14], k[15]) as u32, k[12], k[13], k[14], k[15]);
        lemma_le16_bytes(c);
        assert(v5(r@) == poly_r(k));
    }
//@ tail
    proof {
        let k = key@; let t = k.skip(16);
        lemma_le16(t);
        assert(t.subrange(0, 4) =~= k.subrange(16, 20) && t.subrange(4, 8) =~= k.subrange(20, 24) && t.subrange(8, 12) =~= k.subrange(24, 28) && t.subrange(12, 16) =~= k.subrange(28, 32));
        assert(Seq::<u8>::empty().take(0) =~= Seq::empty()); assert(Seq::<u8>::empty().skip(0) =~= Seq::empty());
        assert forall|q: Seq<u8>| #[trigger] q.take(0) == Seq::<u8>::empty() by { assert(q.take(0) =~= Seq::<u8>::empty()); }
        assert(v5(h@) == 0); lemma_times_p(1); lemma_small_mod(0, pp());
        assert(le_val(k.skip(16)) == s@[0] + 0x1_0000_0000 * s@[1] + 0x1_0000_0000_0000_0000 * s@[2] + 0x1_0000_0000_0000_0000_0000_0000 * s@[3]);
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: process_block
//@ spec
    requires old(self).rb0(), hb0(block@) || (hb0(block@.update(4, 0)) && block@[4] < 0x200_0000)
    ensures final(self).same(*old(self)), final(self).bw == old(self).bw, hb(final(self).h@),
        v5(final(self).h@) % pp() == ((v5(old(self).h@) + v5(block@)) * v5(old(self).r@)) % pp()
//@end
    pub open spec fn rb0(self) -> bool { rb(self.r@) && hb(self.h@) && self.r5@[0] == 5 * self.r@[1] && self.r5@[1] == 5 * self.r@[2] && self.r5@[2] == 5 * self.r@[3] && self.r5@[3] == 5 * self.r@[4] }
//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: process_whole_block
//@ spec
    requires old(self).rb0() ensures old(self).stepped(*final(self), inp@)
//@ before self\.process_block
    proof {
        let k = inp@; lemma_p256_16(); lemma_le16_bytes(k);
        lemma_word(w4(k[0], k[1], k[2], k[3]) as u32, k[0], k[1], k[2], k[3]);
        lemma_word(w4(k[3], k[4], k[5], k[6]) as u32, k[3], k[4], k[5], k[6]);
        lemma_word(w4(k[6], k[7], k[8], k[9]) as u32, k[6], k[7], k[8], k[9]);
        lemma_word(w4(k[9], k[10], k[11], k[12]) as u32, k[9], k[10], k[11], k[12]);
        lemma_word(w4(k[12], k[13], k[14], k[15]) as u32, k[12], k[13], k[14], k[15]);
        assert(v5(block@) == le_val(k) + p256(16));
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: process_last_block
//@ spec
    requires old(self).rb0(), inp@.len() < 16 ensures old(self).stepped(*final(self), inp@)
//@ before let block
    let ghost k = bytes@;
    proof {
        let z = Seq::new((15 - inp@.len()) as nat, |i: int| 0u8);
        assert forall|i: int| 0 <= i < 16 implies k[i] == (inp@ + (seq![1u8] + z))[i] by { if i < inp@.len() {} else if i == inp@.len() {} else {} }
        assert(k =~= inp@ + (seq![1u8] + z));
        lemma_le_append(inp@, seq![1u8] + z); lemma_zeros((15 - inp@.len()) as nat);
        assert((seq![1u8] + z).skip(1) =~= z);
        assert(le_val(seq![1u8] + z) == 1);
        assert(p256(inp@.len()) * 1 == p256(inp@.len()));
    }
//@ before self\.process_block
    proof {
        lemma_le16_bytes(k);
        lemma_word(w4(k[0], k[1], k[2], k[3]) as u32, k[0], k[1], k[2], k[3]);
        lemma_word(w4(k[3], k[4], k[5], k[6]) as u32, k[3], k[4], k[5], k[6]);
        lemma_word(w4(k[6], k[7], k[8], k[9]) as u32, k[6], k[7], k[8], k[9]);
        lemma_word(w4(k[9], k[10], k[11], k[12]) as u32, k[9], k[10], k[11], k[12]);
        lemma_word(w4(k[12], k[13], k[14], k[15]) as u32, k[12], k[13], k[14], k[15]);
        assert(v5(block@) == le_val(k));
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: add_bytes
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(*old(self)), forall|k: Seq<u8>, m: Seq<u8>| #[trigger] old(self).models(k, m) ==> final(self).models(k, m + bytes@)
//@ sub let mut full_blocks = bytes\.chunks_exact\(16\); => 
//@ sub for block in full_blocks\.by_ref\(\) => for block in bytes.chunks_exact(16)
//@ sub block\.v_try_into_unwrap => &block.v_try_into_unwrap
//@ sub full_blocks\.remainder\(\) => &bytes[bytes.len() - bytes.len() % 16..]
//@ begin
    let ghost b0 = bytes@; let ghost S = *self;
    let ghost all = self.bw.data() + b0; let ghost n = all.len() - all.len() % 16;
    let ghost rr = v5(self.r@);
    proof { if self.bw.used == 0 { assert(all =~= b0); if b0.len() % 16 == 0 { assert(all.take(n) =~= b0); assert(all.skip(n) =~= self.bw.data()); } } }
//@ after let bytes
    let ghost rest = bytes@;
    let ghost first = if self.bw.used == 16 { self.bw.data() } else { Seq::empty() };
    let ghost T = *self;
//@ before #1 self\.process_whole_block
    let ghost T1 = *self;
//@ after #1 self\.process_whole_block
    proof { T1.lemma_stepped(*self, first); assert(poly(v5(S.h@) % pp(), rr, first) == pstep(v5(S.h@) % pp(), rr, first)); }
//@ loop 1
    invariant self.rb0(), self.same(S), rr == v5(self.r@), bytes@ == rest, self.bw == bw1, bw1.wf(), first.len() % 16 == 0,
        vi1 * 16 <= rest.len(), v5(self.h@) % pp() == poly(v5(S.h@) % pp(), rr, first + rest.take(vi1 * 16))
//@ before let vlen1_0
    let ghost bw1 = self.bw;
    proof { assert(first + rest.take(0) =~= first); }
//@ lbegin 1
    let ghost T2 = *self;
//@ lend 1
    proof {
        let b = rest.subrange(vi1 * 16, vi1 * 16 + 16);
        T2.lemma_stepped(*self, b);
        lemma_poly_snoc(v5(S.h@) % pp(), rr, first + rest.take(vi1 * 16), b);
        assert(first + rest.take(vi1 * 16) + b =~= first + rest.take((vi1 + 1) * 16));
    }
//@ end
    proof {
        let w = rest.take(rest.len() - rest.len() % 16);
        if S.bw.used > 0 && first.len() == 0 { assert(n == 0); assert(rest.len() == 0); assert(all.take(0) =~= Seq::<u8>::empty()); assert(all.skip(0) =~= all); }
        assert(all.take(n) =~= first + w);
        assert(self.bw.data() =~= all.skip(n));
        assert(rest.len() / 16 * 16 == rest.len() - rest.len() % 16);
        assert(v5(self.h@) % pp() == poly(v5(S.h@) % pp(), rr, all.take(n)));
        assert forall|k: Seq<u8>, m: Seq<u8>| #[trigger] S.models(k, m) implies self.models(k, m + b0) by {
            let j = m.len() - m.len() % 16; let mm = m + b0; let jj = mm.len() - mm.len() % 16;
            assert(jj == j + n);
            assert(mm.take(jj) =~= m.take(j) + all.take(n));
            assert(mm.skip(jj) =~= all.skip(n));
            lemma_poly_split(0, poly_r(k), m.take(j), all.take(n));
        }
    }
//@end
//@fn graviola/src/low/generic/poly1305.rs :: impl Poly1305 :: finish
//@ ret o
//@ spec
    requires self.wf() ensures forall|k: Seq<u8>, m: Seq<u8>| #[trigger] self.models(k, m) ==> o@ == poly1305(k, m)
//@ sub \.bw\.clone\(\) => .bw.v_clone()
//@ sub b: u32\) -> u64 => b: u32) -> (o: u64) ensures o == a + b
//@ attr #[verifier::rlimit(100)]
//@ before full_reduce
    let ghost h1 = this.h@;
    proof {
        assert forall|k: Seq<u8>, m: Seq<u8>| #[trigger] self.models(k, m) implies v5(h1) % pp() == poly(0, poly_r(k), m) by {
            let n = m.len() - m.len() % 16;
            assert(m.take(n) + m.skip(n) =~= m);
            if self.bw.used > 0 { self.lemma_stepped(this, self.bw.data()); lemma_poly_snoc(0, poly_r(k), m.take(n), m.skip(n)); }
            else { assert(m.take(n) =~= m); }
        }
    }
//@ after full_reduce
    let ghost H = this.h@;
//@ before fn add32
    let ghost L = this.h@;
    proof {
        lemma_pack32(H[0], H[1], H[2], H[3], H[4]);
        assert(L[0] + 0x1_0000_0000 * L[1] + 0x1_0000_0000_0000_0000 * L[2] + 0x1_0000_0000_0000_0000_0000_0000 * L[3] + t128(H[4] as int / 0x100_0000) == v5(H));
        assert(forall|x: u64| #[trigger] (x >> 32) == x / 0x1_0000_0000) by (bit_vector);
        assert(forall|x: u64| #[trigger] (x as u32) == x % 0x1_0000_0000) by (bit_vector);
    }
    let ghost S = this.s@;
//@ after #2 let f
    let ghost f1 = f;
//@ after #3 let f
    let ghost f2 = f;
//@ after #4 let f
    let ghost f3 = f;
//@ before let mut r
    proof {
        let T = this.h@;
        let sum = L[0] + 0x1_0000_0000 * L[1] + 0x1_0000_0000_0000_0000 * L[2] + 0x1_0000_0000_0000_0000_0000_0000 * L[3] + S[0] + 0x1_0000_0000 * S[1] + 0x1_0000_0000_0000_0000 * S[2] + 0x1_0000_0000_0000_0000_0000_0000 * S[3];
        let t = T[0] + 0x1_0000_0000 * T[1] + 0x1_0000_0000_0000_0000 * T[2] + 0x1_0000_0000_0000_0000_0000_0000 * T[3];
        assert(sum == t + t128(f3 as int / 0x1_0000_0000));
        lemma_le_words(T[0], T[1], T[2], T[3], t as nat);
        lemma_t128(f3 as int / 0x1_0000_0000 + H[4] as int / 0x100_0000, t as nat);
    }
    let ghost T = this.h@;
//@ tail
    proof {
        assert(r@ =~= le(T[0] as nat, 4) + le(T[1] as nat, 4) + le(T[2] as nat, 4) + le(T[3] as nat, 4)) by { lemma_le_len(T[0] as nat, 4); lemma_le_len(T[1] as nat, 4); lemma_le_len(T[2] as nat, 4); lemma_le_len(T[3] as nat, 4); }
        assert forall|k: Seq<u8>, m: Seq<u8>| #[trigger] self.models(k, m) implies r@ == poly1305(k, m) by {
            assert(v5(H) == poly(0, poly_r(k), m));
        }
    }
//@end
}
