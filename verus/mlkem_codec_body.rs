verus! {
//@item graviola/src/mid/mlkem768.rs :: const K
//@item graviola/src/mid/mlkem768.rs :: const K_BYTE
//@item graviola/src/mid/mlkem768.rs :: const DU
//@item graviola/src/mid/mlkem768.rs :: const DV
//@item graviola/src/mid/mlkem768.rs :: const Q
//@item graviola/src/mid/mlkem768.rs :: const Q_HALF
//@ sub \(Q \+ 1\) / 2 => ((Q + 1) as u16 / 2) as i16
//@end
//@item graviola/src/mid/mlkem768.rs :: const N
pub open spec fn q() -> int { 3329 }
// FIPS 203 (4.7), (4.8): Compress_d and Decompress_d with p = 2^d, rounding to nearest
pub open spec fn compress(p: int, x: int) -> int { ((p * x + 1664) / 3329) % p }
pub open spec fn decompress(p: int, y: int) -> int { (3329 * y + p / 2) / p }
pub proof fn lemma_recip(n: int, a: int, m: int, p: int) requires 3329 * m < p, n >= 0, a == n / 3329, (n - 3329 * a + 1) * m >= (p - 3329 * m) * a, p > 0, m > 0
    ensures ((n + 1) * m) / p == a
{
    lemma_fundamental_div_mod(n, 3329); let b = n - 3329 * a; assert(0 <= b < 3329);
    assert((n + 1) * m == a * p + ((b + 1) * m - (p - 3329 * m) * a)) by (nonlinear_arith) requires n == 3329 * a + b;
    let r = (b + 1) * m - (p - 3329 * m) * a;
    assert(0 <= r < p) by (nonlinear_arith) requires r == (b + 1) * m - (p - 3329 * m) * a, 0 <= b < 3329, 3329 * m < p, m > 0, a >= 0, (b + 1) * m >= (p - 3329 * m) * a;
    lemma_fundamental_div_mod_converse((n + 1) * m, p, a, r);
}
//@fn graviola/src/mid/mlkem768.rs :: - :: compress_4
//@ ret r
//@ spec
    requires 0 <= x < 3329
    ensures r == compress(16, x as int)
//@ begin
    proof {
        let y = x as u64; assert(y << 4 == y * 16 && y * 16 < 0x100_0000) by (bit_vector) requires y < 3329;
        let n = 16 * x + 1664; let a = n / 3329; assert(0 <= a <= 16); assert((n - 3329 * a + 1) * 80635 >= 1541 * a); lemma_recip(n, a, 80635, 0x1000_0000);
        let w = ((n + 1) * 80635) as u64; assert(w >> 28 == w / 0x1000_0000) by (bit_vector); let v = w >> 28; assert(v & 0xf == v % 16 && (v & 0xf) < 16) by (bit_vector);
    }
//@end
//@fn graviola/src/mid/mlkem768.rs :: - :: compress_10
//@ ret r
//@ spec
    requires 0 <= x < 3329
    ensures r == compress(1024, x as int)
//@ begin
    proof {
        let y = x as u64; assert(y << 10 == y * 1024 && y * 1024 < 0x1_0000_0000) by (bit_vector) requires y < 3329;
        let n = 1024 * x + 1664; let a = n / 3329; let b = n - 3329 * a; assert(a <= 1024); assert(b == 0 ==> a <= 953);
        assert((b + 1) * 1290167 >= 1353 * a); lemma_recip(n, a, 1290167, 0x1_0000_0000);
        let w = ((n + 1) * 1290167) as u64; assert(w >> 32 == w / 0x1_0000_0000) by (bit_vector); let v = w >> 32; assert(v & 0x3ff == v % 1024 && (v & 0x3ff) < 1024) by (bit_vector);
    }
//@end
//@fn graviola/src/mid/mlkem768.rs :: - :: decompress_4
//@ ret r
//@ spec
    requires 0 <= y < 16
    ensures r == decompress(16, y as int), 0 <= r < 3329
//@ begin
    proof { let w = (y * 3329 + 8) as u32; assert(w >> 4 == w / 16) by (bit_vector); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: - :: decompress_10
//@ ret r
//@ spec
    requires 0 <= y < 1024
    ensures r == decompress(1024, y as int), 0 <= r < 3329
//@ begin
    proof { let w = (y * 3329 + 512) as u32; assert(w >> 10 == w / 1024) by (bit_vector); }
//@end

pub trait Domain {}
pub struct Normal;
impl Domain for Normal {}
pub struct Ntt;
impl Domain for Ntt {}
pub struct MulCache;
impl Domain for MulCache {}
use core::marker::PhantomData;
//@item graviola/src/mid/mlkem768.rs :: struct Coeffs
//@ sub , PhantomData<D> => , pub PhantomData<D>
//@end
//@item graviola/src/mid/mlkem768.rs :: struct Message
// every coefficient is a canonical residue
pub open spec fn canon(s: Seq<i16>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 3329 }
impl<const C: usize, D: Domain> Coeffs<C, D> {
//@fn graviola/src/mid/mlkem768.rs :: impl<const C: usize, D: Domain> Coeffs<C, D> :: zero
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < C ==> #[trigger] r.0@[i] == 0
//@end
}

pub open spec fn ints(s: Seq<i16>) -> Seq<int> { s.map_values(|x: i16| x as int) }
// ByteEncode_10 / ByteDecode_10: 4 values <-> 5 bytes, little-endian bit order
pub open spec fn enc10(t: Seq<int>) -> Seq<u8> { Seq::new((t.len() / 4 * 5) as nat, |k: int| enc10_byte(t, k)) }
pub open spec fn enc10_byte(t: Seq<int>, k: int) -> u8 {
    let i = k / 5 * 4; let j = k % 5;
    (if j == 0 { t[i] % 256 } else if j == 1 { t[i] / 256 + 4 * (t[i + 1] % 64) } else if j == 2 { t[i + 1] / 64 + 16 * (t[i + 2] % 16) } else if j == 3 { t[i + 2] / 16 + 64 * (t[i + 3] % 4) } else { t[i + 3] / 4 }) as u8 }
pub open spec fn dec10_at(b: Seq<u8>, i: int) -> int {
    let k = i / 4 * 5; let j = i % 4;
    if j == 0 { b[k] + 256 * (b[k + 1] % 4) } else if j == 1 { b[k + 1] / 4 + 64 * (b[k + 2] % 16) } else if j == 2 { b[k + 2] / 16 + 16 * (b[k + 3] % 64) } else { b[k + 3] / 64 + 4 * b[k + 4] } }
pub open spec fn dec10(b: Seq<u8>) -> Seq<int> { Seq::new((b.len() / 5 * 4) as nat, |i: int| dec10_at(b, i)) }
pub open spec fn compress_all(p: int, f: Seq<int>) -> Seq<int> { f.map_values(|x: int| compress(p, x)) }
pub open spec fn decompress_all(p: int, f: Seq<int>) -> Seq<int> { f.map_values(|x: int| decompress(p, x)) }
// Decompress_1 of the message bits, and ByteEncode_1(Compress_1(.))
pub open spec fn message_poly(m: Seq<u8>) -> Seq<int> { bits_of(m).map_values(|b: bool| if b { 1665int } else { 0 }) }
pub open spec fn message_bits(f: Seq<int>) -> Seq<bool> { f.map_values(|x: int| compress(2, x) == 1) }
impl Coeffs<{ K * N }, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Normal> :: compress_into_bytes_du_10
//@ spec
    requires canon(self.0@)
    ensures final(c_1)@ == enc10(compress_all(1024, ints(self.0@)))
//@ begin
    let ghost tt = compress_all(1024, ints(self.0@)); 
//@ loop 1
    invariant vn1 == 192, canon(self.0@), self.0@.len() == 768, tt == compress_all(1024, ints(self.0@)), forall|k: int| 0 <= k < vi1 * 5 ==> #[trigger] c_1@[k] == enc10_byte(tt, k)
//@ lbegin 1
    let ghost pre = c_1@; 
//@ lend 1
    proof {
        assert(0 <= t0 < 1024 && 0 <= t1 < 1024 && 0 <= t2 < 1024 && 0 <= t3 < 1024);
        assert(t0 as u8 == t0 % 256 && ((t0 >> 8) | (t1 << 2)) as u8 == t0 / 256 + 4 * (t1 % 64) && ((t1 >> 6) | (t2 << 4)) as u8 == t1 / 64 + 16 * (t2 % 16)
            && ((t2 >> 4) | (t3 << 6)) as u8 == t2 / 16 + 64 * (t3 % 4) && (t3 >> 2) as u8 == t3 / 4) by (bit_vector) requires t0 < 1024, t1 < 1024, t2 < 1024, t3 < 1024;
        let g = vi1 as int; let o = seq![t0 as u8, ((t0 >> 8) | (t1 << 2)) as u8, ((t1 >> 6) | (t2 << 4)) as u8, ((t2 >> 4) | (t3 << 6)) as u8, (t3 >> 2) as u8];
        assert(c_1@ =~= pre.take(g * 5) + o + pre.skip(g * 5 + 5));
        assert(tt[4 * g] == t0 && tt[4 * g + 1] == t1 && tt[4 * g + 2] == t2 && tt[4 * g + 3] == t3);
        assert forall|k: int| 0 <= k < (g + 1) * 5 implies #[trigger] c_1@[k] == enc10_byte(tt, k) by { if k >= g * 5 { assert(k / 5 == g); assert(c_1@[k] == o[k - g * 5]); } }
    }
//@ end
    proof { assert(c_1@ =~= enc10(tt)); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Normal> :: decompress_from_bytes_du_10
//@ ret r
//@ spec
    ensures ints(r.0@) == decompress_all(1024, dec10(c_1@)), canon(r.0@)
//@ begin
    let ghost tt = dec10(c_1@);
//@ loop 1
    invariant vn1 == 192, tt == dec10(c_1@), c_1@.len() == 960, r.0@.len() == 768, forall|k: int| 0 <= k < vi1 * 4 ==> #[trigger] r.0@[k] == decompress(1024, tt[k]) && 0 <= r.0@[k] < 3329
//@ lbegin 1
    let ghost pre = r.0@; 
//@ after let t3
    proof {
        let (b0, b1, b2, b3, b4) = (inp@[0], inp@[1], inp@[2], inp@[3], inp@[4]);
        assert(((b0 as u16) | ((b1 as u16 & 0x3) << 8)) == b0 as u16 + 256 * (b1 as u16 % 4) && (((b1 as u16) >> 2) | ((b2 as u16 & 0xf) << 6)) == b1 as u16 / 4 + 64 * (b2 as u16 % 16)
            && (((b2 as u16) >> 4) | ((b3 as u16 & 0x3f) << 4)) == b2 as u16 / 16 + 16 * (b3 as u16 % 64) && (((b3 as u16) >> 6) | ((b4 as u16) << 2)) == b3 as u16 / 64 + 4 * b4 as u16) by (bit_vector);
    }
//@ lend 1
    proof {
        let (b0, b1, b2, b3, b4) = (inp@[0], inp@[1], inp@[2], inp@[3], inp@[4]);
        let g = vi1 as int; let o = seq![decompress(1024, t0 as int) as i16, decompress(1024, t1 as int) as i16, decompress(1024, t2 as int) as i16, decompress(1024, t3 as int) as i16];
        assert(r.0@ =~= pre.take(g * 4) + o + pre.skip(g * 4 + 4));
        assert(b0 == c_1@[5 * g] && b1 == c_1@[5 * g + 1] && b2 == c_1@[5 * g + 2] && b3 == c_1@[5 * g + 3] && b4 == c_1@[5 * g + 4]);
        assert(tt[4 * g] == t0 && tt[4 * g + 1] == t1 && tt[4 * g + 2] == t2 && tt[4 * g + 3] == t3);
        assert forall|k: int| 0 <= k < (g + 1) * 4 implies #[trigger] r.0@[k] == decompress(1024, tt[k]) && 0 <= r.0@[k] < 3329 by { if k >= g * 4 { assert(r.0@[k] == o[k - g * 4]); } else { assert(r.0@[k] == pre[k]); } }
    }
//@ tail
    proof { assert(ints(r.0@) =~= decompress_all(1024, tt)); }
//@end
}

pub open spec fn enc4(t: Seq<int>) -> Seq<u8> { Seq::new((t.len() / 2) as nat, |k: int| (t[2 * k] + 16 * t[2 * k + 1]) as u8) }
pub open spec fn dec4(b: Seq<u8>) -> Seq<int> { Seq::new(b.len() * 2, |i: int| if i % 2 == 0 { b[i / 2] as int % 16 } else { b[i / 2] as int / 16 }) }
pub open spec fn bitof(b: u8, j: int) -> bool { (b >> (j as u8)) & 1 == 1 }
// BytesToBits, ByteEncode_1, Compress_1
pub open spec fn bits_of(m: Seq<u8>) -> Seq<bool> { Seq::new(m.len() * 8, |i: int| bitof(m[i / 8], i % 8)) }
//@fn graviola/src/low/generic/ct_copy.rs :: - :: ct_select_i16
//@ ret r
//@ spec
    requires bit <= 1
    ensures r == (if bit == 1 { if_set } else { if_unset })
//@ sub black_box\((bit as i32)\) => (\1)
//@ begin
    proof {
        let (bb, p, q) = (bit, if_set as u16, if_unset as u16);
        assert((((-(bb as i32)) as i32) >> 16) as u16 == (if bb == 1 { 0xffffu16 } else { 0u16 })) by (bit_vector) requires bb <= 1;
        assert((q ^ (0xffffu16 & (p ^ q))) == p && (q ^ (0u16 & (p ^ q))) == q) by (bit_vector);
        let s = if_set; let u = if_unset; assert((s as u16) as i16 == s && (u as u16) as i16 == u) by (bit_vector);
    }
//@end
//@fn graviola/src/low/generic/ct_copy.rs :: - :: ct_copy
//@ spec
    ensures final(output)@ == (if cond { old(output)@ } else { if_false@ })
//@ sub black_box\((cond as i16)\) => (\1)
//@ begin
    let ghost o0 = output@;
//@ after let mask
    proof { let cc = (if cond { 1i16 } else { 0i16 }); assert(((((-cc) as i16) >> 8) as u8) == (if cc == 1 { 0xffu8 } else { 0u8 })) by (bit_vector) requires cc == 0 || cc == 1; assert(mask == (if cond { 0xffu8 } else { 0u8 })); }
//@ loop 1
    invariant mask == (if cond { 0xffu8 } else { 0u8 }), vn1 == N, o0.len() == N, forall|i: int| vi1 <= i < N ==> #[trigger] output@[i] == o0[i], forall|i: int| 0 <= i < vi1 ==> #[trigger] output@[i] == (if cond { o0[i] } else { if_false@[i] })
//@ lend 1
    proof { let (a, b) = (o0[vi1 as int], if_false@[vi1 as int]); assert((b ^ (0xffu8 & (a ^ b))) == a && (b ^ (0u8 & (a ^ b))) == b) by (bit_vector); }
//@ end
    proof { assert(output@ =~= (if cond { o0 } else { if_false@ })); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: - :: compress_1_x8
//@ ret r
//@ spec
    requires canon(coeffs@)
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] bitof(r, j) == (compress(2, coeffs@[j] as int) == 1)
//@ sub let mut r = 0; => let mut r: u8 = 0; proof { assert(1u8 << 0u8 == 1) by (bit_vector); }
//@ loop 1
    invariant vn1 == 8, canon(coeffs@), r as int >= 0, forall|j: int| 0 <= j < i ==> #[trigger] bitof(r, j) == (compress(2, coeffs@[j] as int) == 1), i < 8 ==> r < (1u8 << (i as u8)), i <= 8
//@ lbegin 1
    let ghost r0 = r; let ghost x0 = coeffs@[i as int];
    proof {
        let y = x0 as u64; assert(y << 1 == y * 2 && y * 2 < 0x100_0000) by (bit_vector) requires y < 3329;
        let n = 2 * x0 + 1664; let a = n / 3329; assert(0 <= a <= 2); assert((n - 3329 * a + 1) * 80635 >= 1541 * a); lemma_recip(n, a, 80635, 0x1000_0000);
        let w = ((n + 1) * 80635) as u64; assert(w >> 28 == w / 0x1000_0000) by (bit_vector); let v = w >> 28; assert(v & 1 == v % 2 && (v & 1) < 2) by (bit_vector);
        assert(v == a); assert((v & 1) == compress(2, x0 as int));
    }
//@ lend 1
    proof {
        let c = (x & 1) as u8; let ii = i as u8; assert((x & 1) < 2) by (bit_vector); assert(r == r0 | (c << ii));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] bitof(r, j) == (compress(2, coeffs@[j] as int) == 1) by {
            let jj = j as u8; assert(((r0 | (c << ii)) >> jj) & 1 == (if jj == ii { c } else { (r0 >> jj) & 1 })) by (bit_vector) requires c <= 1, jj <= ii, ii < 8, r0 < (1u8 << ii);
            if j < i { assert(bitof(r0, j) == (compress(2, coeffs@[j] as int) == 1)); }
        }
        assert(ii < 7 ==> (r0 | (c << ii)) < (1u8 << ((ii + 1) as u8))) by (bit_vector) requires c <= 1, ii < 8, r0 < (1u8 << ii);
    }
//@end
impl Coeffs<N, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<N, Normal> :: compress_into_bytes_dv_4
//@ spec
    requires canon(self.0@)
    ensures final(c_2)@ == enc4(compress_all(16, ints(self.0@)))
//@ begin
    let ghost tt = compress_all(16, ints(self.0@)); 
//@ loop 1
    invariant vn1 == 128, canon(self.0@), self.0@.len() == 256, tt == compress_all(16, ints(self.0@)), forall|k: int| 0 <= k < vi1 ==> #[trigger] c_2@[k] == (tt[2 * k] + 16 * tt[2 * k + 1]) as u8
//@ lend 1
    proof {
        let (x, y) = (tt[2 * vi1] as u8, tt[2 * vi1 + 1] as u8); assert(0 <= tt[2 * vi1] < 16 && 0 <= tt[2 * vi1 + 1] < 16);
        assert(x | (y << 4) == x + 16 * y) by (bit_vector) requires x < 16, y < 16;
    }
//@ end
    proof { assert(c_2@ =~= enc4(tt)); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<N, Normal> :: decompress_from_bytes_dv_4
//@ ret r
//@ spec
    ensures ints(r.0@) == decompress_all(16, dec4(c_2@)), canon(r.0@)
//@ begin
    let ghost tt = dec4(c_2@);
//@ sub \(byte (&|>>) => (*byte \1
//@ loop 1
    invariant vn1 == 128, tt == dec4(c_2@), c_2@.len() == 128, r.0@.len() == 256, forall|k: int| 0 <= k < vi1 * 2 ==> #[trigger] r.0@[k] == decompress(16, tt[k]) && 0 <= r.0@[k] < 3329
//@ lbegin 1
    let ghost pre = r.0@; 
    proof { let b = c_2@[vi1 as int]; assert((b & 0xf) == b % 16 && (b >> 4) == b / 16) by (bit_vector); }
//@ lend 1
    proof {
        let g = vi1 as int; let o = seq![decompress(16, tt[2 * g]) as i16, decompress(16, tt[2 * g + 1]) as i16]; 
        assert(r.0@ =~= pre.take(g * 2) + o + pre.skip(g * 2 + 2));
        assert forall|k: int| 0 <= k < (g + 1) * 2 implies #[trigger] r.0@[k] == decompress(16, tt[k]) && 0 <= r.0@[k] < 3329 by { if k >= g * 2 { assert(r.0@[k] == o[k - g * 2]); } else { assert(r.0@[k] == pre[k]); } }
    }
//@ tail
    proof { assert(ints(r.0@) =~= decompress_all(16, tt)); }
//@end
}


impl Coeffs<N, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<N, Normal> :: from_message_bits
//@ ret r
//@ spec
    ensures canon(r.0@), ints(r.0@) == message_poly(m.0@)
//@ sub \(byte >> => (*byte >>
//@ loop 1
    invariant vn1 == 32, r.0@.len() == 256, forall|k: int| 0 <= k < i * 8 ==> #[trigger] r.0@[k] == (if bits_of(m.0@)[k] { 1665i16 } else { 0i16 })
//@ loop 2
    invariant i < 32, byte == m.0@[i as int], r.0@.len() == 256, forall|k: int| 0 <= k < i * 8 + bit ==> #[trigger] r.0@[k] == (if bits_of(m.0@)[k] { 1665i16 } else { 0i16 })
//@ lbegin 2
    proof { let (b, j) = (*byte, bit as u8); assert(((b >> j) & 1) <= 1) by (bit_vector); assert(bits_of(m.0@)[i * 8 + bit] == bitof(b, bit as int)); }
//@ tail
    proof { assert(ints(r.0@) =~= message_poly(m.0@)); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<N, Normal> :: to_message_bits
//@ ret r
//@ spec
    requires canon(self.0@)
    ensures bits_of(r.0@) == message_bits(ints(self.0@))
//@ sub \*r = compress_1_x8\(&(.*?)\.v_try_into_unwrap\(\)\) => *vr = compress_1_x8(&\1.v_try_into_unwrap())
//@ sub for \(i, r\) in => for (i, vr) in
//@ loop 1
    invariant vn1 == 32, canon(self.0@), self.0@.len() == 256, forall|k: int| 0 <= k < i * 8 ==> #[trigger] bits_of(r.0@)[k] == (compress(2, self.0@[k] as int) == 1)
//@ lbegin 1
    let ghost pre = r.0@;
//@ lend 1
    proof { assert forall|k: int| 0 <= k < (i + 1) * 8 implies #[trigger] bits_of(r.0@)[k] == (compress(2, self.0@[k] as int) == 1) by {
        if k < i * 8 { assert(bits_of(pre)[k] == bits_of(r.0@)[k]); } else { assert(k / 8 == i); let s = self.0@.subrange(i * 8, i * 8 + 8); assert(s[k % 8] == self.0@[k]); assert(bitof(r.0@[i as int], k % 8) == (compress(2, s[k % 8] as int) == 1)); } } }
//@ tail
    proof { assert(bits_of(r.0@) =~= message_bits(ints(self.0@))); }
//@end
}
// SamplePolyCBD_2 (FIPS 203 algorithm 8) on the 1024 bits of the buffer
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn cbd2_at(b: Seq<bool>, i: int) -> int { b2i(b[4 * i]) + b2i(b[4 * i + 1]) - b2i(b[4 * i + 2]) - b2i(b[4 * i + 3]) }
pub open spec fn cbd2(b: Seq<u8>) -> Seq<int> { Seq::new(b.len() * 2, |i: int| cbd2_at(bits_of(b), i)) }

pub proof fn lemma_bit32(b: Seq<u8>, t: u32, n: int) requires b.len() == 4, t as nat == le_val(b), 0 <= n < 32 ensures ((t >> (n as u32)) & 1) == b2i(bits_of(b)[n])
{
    reveal_with_fuel(le_val, 5); assert(b.skip(1)[0] == b[1]); assert(b.skip(1).skip(1)[0] == b[2]); assert(b.skip(1).skip(1).skip(1)[0] == b[3]); assert(b.skip(1).skip(1).skip(1).skip(1).len() == 0);
    let (b0, b1, b2, b3) = (b[0], b[1], b[2], b[3]); let nn = n as u32;
    assert(t == b0 as u32 + 256 * b1 as u32 + 65536 * b2 as u32 + 16777216 * b3 as u32);
    let x = b[n / 8]; let j = (n % 8) as u8;
    assert(x == (if nn < 8 { b0 } else if nn < 16 { b1 } else if nn < 24 { b2 } else { b3 }));
    assert(((t >> nn) & 1) == ((x >> j) & 1) as u32) by (bit_vector) requires t == b0 as u32 + 256 * b1 as u32 + 65536 * b2 as u32 + 16777216 * b3 as u32, nn < 32, j as u32 == nn % 8, x == (if nn < 8 { b0 } else if nn < 16 { b1 } else if nn < 24 { b2 } else { b3 });
    assert(((x >> j) & 1) < 2) by (bit_vector);
}
//@fn graviola/src/mid/mlkem768.rs :: - :: sample_cbd2
//@ spec
    ensures ints(final(out)@) == cbd2(buf@), forall|i: int| 0 <= i < 256 ==> -2 <= #[trigger] final(out)@[i] <= 2
//@ loop 1
    invariant vn1 == 32, buf@.len() == 128, out@.len() == 256, forall|k: int| 0 <= k < vi1 * 8 ==> #[trigger] out@[k] == cbd2_at(bits_of(buf@), k)
//@ loop 2
    invariant vn2 == 8, d == (t & 0x5555_5555) + ((t >> 1) & 0x5555_5555), t as nat == le_val(in_bytes@), in_bytes@.len() == 4, out_coeffs@.len() == 8, forall|k: int| 0 <= k < j ==> #[trigger] out_coeffs@[k] == cbd2_at(bits_of(in_bytes@), k)
//@ lbegin 1
    let ghost pre = out@;
//@ after let t =
    proof { assert((t & 0x5555_5555) <= 0x5555_5555 && ((t >> 1) & 0x5555_5555) <= 0x5555_5555) by (bit_vector); }
//@ lbegin 2
    proof {
        let s = (4 * j) as u32; lemma_bit32(in_bytes@, t, 4 * j as int); lemma_bit32(in_bytes@, t, 4 * j as int + 1); lemma_bit32(in_bytes@, t, 4 * j as int + 2); lemma_bit32(in_bytes@, t, 4 * j as int + 3);
        assert(((d >> s) & 0x3) == ((t >> s) & 1) + ((t >> ((s + 1) as u32)) & 1) && ((d >> ((s + 2) as u32)) & 0x3) == ((t >> ((s + 2) as u32)) & 1) + ((t >> ((s + 3) as u32)) & 1)) by (bit_vector) requires s % 4 == 0, s <= 28, d == (t & 0x5555_5555) + ((t >> 1) & 0x5555_5555);
    }
//@ lend 1
    proof { 
        let g = vi1 as int; assert(out@ =~= pre.take(g * 8) + out@.subrange(g * 8, g * 8 + 8) + pre.skip(g * 8 + 8));
        assert forall|k: int| 0 <= k < (g + 1) * 8 implies #[trigger] out@[k] == cbd2_at(bits_of(buf@), k) by {
            if k >= g * 8 {
                let i = k - g * 8; assert forall|x: int| 0 <= x < 4 implies #[trigger] bits_of(buf@)[4 * k + x] == bits_of(in_bytes@)[4 * i + x] by { assert((4 * k + x) / 8 == 4 * g + (4 * i + x) / 8 && (4 * k + x) % 8 == (4 * i + x) % 8); assert(in_bytes@[(4 * i + x) / 8] == buf@[g * 4 + (4 * i + x) / 8]); }
                assert(bits_of(buf@)[4 * k + 0] == bits_of(in_bytes@)[4 * i + 0]); assert(bits_of(buf@)[4 * k + 1] == bits_of(in_bytes@)[4 * i + 1]); assert(bits_of(buf@)[4 * k + 2] == bits_of(in_bytes@)[4 * i + 2]); assert(bits_of(buf@)[4 * k + 3] == bits_of(in_bytes@)[4 * i + 3]);
            } else { assert(out@[k] == pre[k]); } } }
//@ end
    proof { assert(ints(out@) =~= cbd2(buf@)); }
//@end
}
