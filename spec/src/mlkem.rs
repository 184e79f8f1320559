//! FIPS 203 ML-KEM-768, written from the standard's algorithms with plain modular arithmetic.
use crate::hash::{sha3_256, sha3_512, shake128, shake256};
pub const Q: i64 = 3329;
const K: usize = 3;
pub type Poly = [i64; 256];
fn bitrev7(i: usize) -> usize { (0..7).fold(0, |a, b| a | ((i >> b) & 1) << (6 - b)) }
fn powq(b: i64, e: usize) -> i64 { let mut r = 1; for _ in 0..e { r = r * b % Q; } r }
fn zetas() -> &'static [i64; 128] {
    static Z: std::sync::OnceLock<[i64; 128]> = std::sync::OnceLock::new();
    Z.get_or_init(|| { let mut z = [0; 128]; for i in 0..128 { z[i] = powq(17, bitrev7(i)); } z })
}
pub fn ntt(f: &Poly) -> Poly {
    let mut f = *f;
    let z = zetas();
    let (mut i, mut len) = (1, 128);
    while len >= 2 {
        let mut s = 0;
        while s < 256 {
            for j in s..s + len {
                let t = z[i] * f[j + len] % Q;
                f[j + len] = (f[j] - t).rem_euclid(Q);
                f[j] = (f[j] + t).rem_euclid(Q);
            }
            i += 1;
            s += 2 * len;
        }
        len /= 2;
    }
    f
}
pub fn intt(f: &Poly) -> Poly {
    let mut f = *f;
    let z = zetas();
    let (mut i, mut len) = (127, 2);
    while len <= 128 {
        let mut s = 0;
        while s < 256 {
            for j in s..s + len {
                let t = f[j];
                f[j] = (t + f[j + len]).rem_euclid(Q);
                f[j + len] = (z[i] * (f[j + len] - t)).rem_euclid(Q);
            }
            i -= 1;
            s += 2 * len;
        }
        len *= 2;
    }
    for x in f.iter_mut() { *x = *x * 3303 % Q; }
    f
}
pub fn mulntt(a: &Poly, b: &Poly) -> Poly {
    let mut h = [0; 256];
    for i in 0..128 {
        let g = powq(17, 2 * bitrev7(i) + 1);
        let (a0, a1, b0, b1) = (a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]);
        h[2 * i] = (a0 * b0 + a1 * b1 % Q * g) % Q;
        h[2 * i + 1] = (a0 * b1 + a1 * b0) % Q;
    }
    h
}
pub fn addp(a: &Poly, b: &Poly) -> Poly { let mut r = [0; 256]; for i in 0..256 { r[i] = (a[i] + b[i]).rem_euclid(Q); } r }
pub fn subp(a: &Poly, b: &Poly) -> Poly { let mut r = [0; 256]; for i in 0..256 { r[i] = (a[i] - b[i]).rem_euclid(Q); } r }
pub fn byte_encode(d: usize, f: &Poly) -> Vec<u8> {
    let mut o = vec![0u8; 32 * d];
    for i in 0..256 { for j in 0..d { let b = i * d + j; o[b / 8] |= (((f[i] >> j) & 1) as u8) << (b % 8); } }
    o
}
pub fn byte_decode(d: usize, b: &[u8]) -> Poly {
    let mut f = [0; 256];
    for i in 0..256 { for j in 0..d { let k = i * d + j; f[i] |= (((b[k / 8] >> (k % 8)) & 1) as i64) << j; } }
    if d == 12 { for x in f.iter_mut() { *x %= Q; } }
    f
}
/// round-half-up of (2^d / q) x, mod 2^d
pub fn compress1(d: usize, x: i64) -> i64 { ((2 * (x << d) + Q) / (2 * Q)) & ((1 << d) - 1) }
pub fn decompress1(d: usize, y: i64) -> i64 { (2 * Q * y + (1 << d)) >> (d + 1) }
fn mapp(f: &Poly, g: impl Fn(i64) -> i64) -> Poly { let mut r = [0; 256]; for i in 0..256 { r[i] = g(f[i]); } r }
pub fn sample_ntt(seed: &[u8]) -> Poly {
    let s = shake128(seed, 168 * 12);
    let mut o = [0; 256];
    let (mut j, mut i) = (0, 0);
    while j < 256 {
        let (a, b, c) = (s[i] as i64, s[i + 1] as i64, s[i + 2] as i64);
        let (d1, d2) = (a + 256 * (b % 16), b / 16 + 16 * c);
        if d1 < Q { o[j] = d1; j += 1; }
        if d2 < Q && j < 256 { o[j] = d2; j += 1; }
        i += 3;
    }
    o
}
pub fn cbd2(b: &[u8]) -> Poly {
    let bit = |i: usize| ((b[i / 8] >> (i % 8)) & 1) as i64;
    let mut o = [0; 256];
    for i in 0..256 { o[i] = (bit(4 * i) + bit(4 * i + 1) - bit(4 * i + 2) - bit(4 * i + 3)).rem_euclid(Q); }
    o
}
fn prf(s: &[u8], n: u8) -> Poly { cbd2(&shake256(&[s, &[n]].concat(), 128)) }
fn matrix(rho: &[u8]) -> Vec<Vec<Poly>> { (0..K).map(|i| (0..K).map(|j| sample_ntt(&[rho, &[j as u8, i as u8]].concat())).collect()).collect() }
fn g(x: &[u8]) -> (Vec<u8>, Vec<u8>) { let h = sha3_512(x); (h[..32].to_vec(), h[32..].to_vec()) }
/// returns (ek 1184, dk 2400)
pub fn keygen(d: &[u8; 32], z: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let (rho, sigma) = g(&[&d[..], &[K as u8]].concat());
    let a = matrix(&rho);
    let s: Vec<Poly> = (0..K).map(|i| ntt(&prf(&sigma, i as u8))).collect();
    let e: Vec<Poly> = (0..K).map(|i| ntt(&prf(&sigma, (K + i) as u8))).collect();
    let mut ek = vec![];
    for i in 0..K { let mut t = e[i]; for j in 0..K { t = addp(&t, &mulntt(&a[i][j], &s[j])); } ek.extend(byte_encode(12, &t)); }
    ek.extend(&rho);
    let mut dk: Vec<u8> = s.iter().flat_map(|p| byte_encode(12, p)).collect();
    dk.extend(&ek);
    dk.extend(sha3_256(&ek));
    dk.extend(z);
    (ek, dk)
}
fn pke_enc(ek: &[u8], m: &[u8], r: &[u8]) -> Vec<u8> {
    let t: Vec<Poly> = (0..K).map(|i| byte_decode(12, &ek[384 * i..384 * (i + 1)])).collect();
    let a = matrix(&ek[384 * K..]);
    let y: Vec<Poly> = (0..K).map(|i| ntt(&prf(r, i as u8))).collect();
    let e1: Vec<Poly> = (0..K).map(|i| prf(r, (K + i) as u8)).collect();
    let e2 = prf(r, 2 * K as u8);
    let mut c = vec![];
    for i in 0..K {
        let mut u = [0; 256];
        for j in 0..K { u = addp(&u, &mulntt(&a[j][i], &y[j])); }
        c.extend(byte_encode(10, &mapp(&addp(&intt(&u), &e1[i]), |x| compress1(10, x))));
    }
    let mut v = [0; 256];
    for j in 0..K { v = addp(&v, &mulntt(&t[j], &y[j])); }
    let mu = mapp(&byte_decode(1, m), |x| decompress1(1, x));
    c.extend(byte_encode(4, &mapp(&addp(&addp(&intt(&v), &e2), &mu), |x| compress1(4, x))));
    c
}
fn pke_dec(dk: &[u8], c: &[u8]) -> Vec<u8> {
    let mut w = mapp(&byte_decode(4, &c[960..1088]), |y| decompress1(4, y));
    let mut acc = [0; 256];
    for i in 0..K {
        let u = mapp(&byte_decode(10, &c[320 * i..320 * (i + 1)]), |y| decompress1(10, y));
        acc = addp(&acc, &mulntt(&byte_decode(12, &dk[384 * i..384 * (i + 1)]), &ntt(&u)));
    }
    w = subp(&w, &intt(&acc));
    byte_encode(1, &mapp(&w, |x| compress1(1, x)))
}
pub fn ek_ok(ek: &[u8]) -> bool {
    ek.len() == 1184 && ek[..1152].chunks(3).all(|c| (c[0] as i64 | (c[1] as i64 & 15) << 8) < Q && ((c[1] >> 4) as i64 | (c[2] as i64) << 4) < Q)
}
/// (shared secret, ciphertext)
pub fn encaps(ek: &[u8], m: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let (k, r) = g(&[&m[..], &sha3_256(ek)].concat());
    (k, pke_enc(ek, m, &r))
}
pub fn decaps(dk: &[u8], c: &[u8]) -> Vec<u8> {
    let (dkp, ek, h, z) = (&dk[..1152], &dk[1152..2336], &dk[2336..2368], &dk[2368..]);
    let m = pke_dec(dkp, c);
    let (k, r) = g(&[&m[..], h].concat());
    if pke_enc(ek, &m, &r) == c { k } else { shake256(&[z, c].concat(), 32) }
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn rt() {
        let (ek, dk) = keygen(&[1; 32], &[2; 32]);
        assert!(ek_ok(&ek));
        let (k, c) = encaps(&ek, &[9; 32]);
        assert_eq!(c.len(), 1088);
        assert_eq!(decaps(&dk, &c), k);
        let mut c2 = c.clone();
        c2[5] ^= 1;
        assert_ne!(decaps(&dk, &c2), k);
        // NTT product = negacyclic convolution
        let (mut a, mut b) = ([0; 256], [0; 256]);
        for i in 0..256 { a[i] = (i as i64 * 7 + 3) % Q; b[i] = (i as i64 * i as i64 + 1) % Q; }
        let mut c = [0; 256];
        for i in 0..256 { for j in 0..256 { let p = a[i] * b[j] % Q; if i + j < 256 { c[i + j] = (c[i + j] + p) % Q; } else { c[i + j - 256] = (c[i + j - 256] - p).rem_euclid(Q); } } }
        assert_eq!(intt(&mulntt(&ntt(&a), &ntt(&b))), c);
        for d in [1usize, 4, 10] { for x in 0..Q { // nearest integer, ties up, checked against exact rational rounding
            let num = x << d; let fl = num / Q; let rem = num - fl * Q; let want = (fl + (2 * rem >= Q) as i64) & ((1 << d) - 1);
            assert_eq!(compress1(d, x), want); } }
    }
}
