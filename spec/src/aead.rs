//! AES (FIPS 197), GCM (SP 800-38D), ChaCha20/Poly1305 (RFC 8439), XChaCha20 (draft-irtf-cfrg-xchacha).
use crate::nat::Nat;

fn xt(x: u8) -> u8 { (x << 1) ^ if x & 0x80 != 0 { 0x1b } else { 0 } }
fn gm(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a; } a = xt(a); b >>= 1; } r }
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut t = [0u8; 256];
        for x in 0..=255u8 {
            let mut inv = 1u8;
            for _ in 0..254 { inv = gm(inv, x); }
            if x == 0 { inv = 0; }
            t[x as usize] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        t
    })
}
pub struct Aes(Vec<[u8; 16]>);
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 { t = t.map(|b| s[b as usize]); }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes(w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect())
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *b;
        let n = self.0.len() - 1;
        for i in 0..16 { st[i] ^= self.0[0][i]; }
        for r in 1..=n {
            let mut t = [0u8; 16];
            for c in 0..4 { for row in 0..4 { t[4 * c + row] = s[st[4 * ((c + row) % 4) + row] as usize]; } }
            if r != n {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 { t[4 * c + i] = xt(a[i]) ^ xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4]; }
                }
            }
            for i in 0..16 { st[i] = t[i] ^ self.0[r][i]; }
        }
        st
    }
}
/// multiplication in GF(2^128), SP 800-38D algorithm 1
pub fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in (0..128).rev() {
        if (x >> i) & 1 == 1 { z ^= v; }
        v = (v >> 1) ^ if v & 1 == 1 { 0xe1u128 << 120 } else { 0 };
    }
    z
}
pub struct GhashKey(Vec<[u128; 256]>);
impl GhashKey {
    /// tabulated multiplication by h (linear in each byte of the other operand)
    pub fn new(h: u128) -> GhashKey {
        let mut basis = [0u128; 128];
        for i in 0..128 { basis[i] = gmul(1u128 << i, h); }
        GhashKey((0..16).map(|p| { let mut t = [0u128; 256]; for v in 1..256usize { let low = v & v.wrapping_neg(); t[v] = t[v ^ low] ^ basis[8 * p + low.trailing_zeros() as usize]; } t }).collect())
    }
    pub fn mul(&self, x: u128) -> u128 { (0..16).fold(0, |a, p| a ^ self.0[p][(x >> (8 * p)) as u8 as usize]) }
}
fn pad16(v: &[u8]) -> Vec<u8> { let mut v = v.to_vec(); while v.len() % 16 != 0 { v.push(0); } v }
pub fn ghash(h: u128, aad: &[u8], ct: &[u8]) -> u128 {
    let k = GhashKey::new(h);
    let mut d = pad16(aad);
    d.extend(pad16(ct));
    d.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
    d.extend_from_slice(&(ct.len() as u64 * 8).to_be_bytes());
    d.chunks(16).fold(0, |y, b| k.mul(y ^ u128::from_be_bytes(b.try_into().unwrap())))
}
pub fn gcm_seal(key: &[u8], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.enc(&[0; 16]));
    let ctr = |i: u32| -> [u8; 16] { let mut b = [0u8; 16]; b[..12].copy_from_slice(nonce); b[12..].copy_from_slice(&i.to_be_bytes()); a.enc(&b) };
    let mut ct = pt.to_vec();
    for (i, c) in ct.chunks_mut(16).enumerate() { let ks = ctr(2u32.wrapping_add(i as u32)); for (x, k) in c.iter_mut().zip(ks) { *x ^= k; } }
    let t = ghash(h, aad, &ct) ^ u128::from_be_bytes(ctr(1));
    (ct, t.to_be_bytes())
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn chacha_rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12); qr(s, 1, 5, 9, 13); qr(s, 2, 6, 10, 14); qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15); qr(s, 1, 6, 11, 12); qr(s, 2, 7, 8, 13); qr(s, 3, 4, 9, 14);
    }
}
fn chacha_state(key: &[u8; 32], tail: &[u8; 16]) -> [u32; 16] {
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() { s[i] = u32::from_le_bytes(c.try_into().unwrap()); }
    for (i, c) in key.chunks(4).enumerate() { s[4 + i] = u32::from_le_bytes(c.try_into().unwrap()); }
    for (i, c) in tail.chunks(4).enumerate() { s[12 + i] = u32::from_le_bytes(c.try_into().unwrap()); }
    s
}
pub fn chacha_block(key: &[u8; 32], tail: &[u8; 16]) -> [u8; 64] {
    let s0 = chacha_state(key, tail);
    let mut s = s0;
    chacha_rounds(&mut s);
    let mut o = [0u8; 64];
    for i in 0..16 { o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(s0[i]).to_le_bytes()); }
    o
}
pub fn hchacha(key: &[u8; 32], n: &[u8; 16]) -> [u8; 32] {
    let mut s = chacha_state(key, n);
    chacha_rounds(&mut s);
    let mut o = [0u8; 32];
    for (j, i) in (0..4).chain(12..16).enumerate() { o[4 * j..4 * j + 4].copy_from_slice(&s[i].to_le_bytes()); }
    o
}
pub fn chacha_xor(key: &[u8; 32], nonce: &[u8; 12], ctr: u32, m: &mut [u8]) {
    for (i, c) in m.chunks_mut(64).enumerate() {
        let mut t = [0u8; 16];
        t[..4].copy_from_slice(&ctr.wrapping_add(i as u32).to_le_bytes());
        t[4..].copy_from_slice(nonce);
        for (x, k) in c.iter_mut().zip(chacha_block(key, &t)) { *x ^= k; }
    }
}
pub fn poly1305(key: &[u8; 32], m: &[u8]) -> [u8; 16] {
    let p = Nat::one().shl(130).sub(&Nat::from_u64(5));
    let mut rb: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] { rb[i] &= 15; }
    for i in [4, 8, 12] { rb[i] &= 252; }
    let r = Nat::from_le(&rb);
    let s = Nat::from_le(&key[16..]);
    let mut a = Nat::zero();
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        a = a.add(&Nat::from_le(&b)).mul(&r).rem(&p);
    }
    a.add(&s).rem(&Nat::one().shl(128)).to_le(16).try_into().unwrap()
}
pub fn chacha_seal(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let mut ct = pt.to_vec();
    chacha_xor(key, nonce, 1, &mut ct);
    let mut pk = [0u8; 32];
    chacha_xor(key, nonce, 0, &mut pk);
    let mut m = pad16(aad);
    m.extend(pad16(&ct));
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    (ct, poly1305(&pk, &m))
}
pub fn xchacha_seal(key: &[u8; 32], nonce: &[u8; 24], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let k = hchacha(key, nonce[..16].try_into().unwrap());
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&nonce[16..]);
    chacha_seal(&k, &n, aad, pt)
}
#[cfg(test)]
mod t {
    use super::*;
    fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
    fn uh(s: &str) -> Vec<u8> { (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect() }
    #[test]
    fn kats() {
        let a = Aes::new(&(0..16).collect::<Vec<u8>>());
        assert_eq!(hx(&a.enc(&uh("00112233445566778899aabbccddeeff").try_into().unwrap())), "69c4e0d86a7b0430d8cdb78070b4c55a");
        let a = Aes::new(&(0..32).collect::<Vec<u8>>());
        assert_eq!(hx(&a.enc(&uh("00112233445566778899aabbccddeeff").try_into().unwrap())), "8ea2b7ca516745bfeafc49904b496089");
        let (c, t) = gcm_seal(&[0; 16], &[0; 12], &[], &[0; 16]);
        assert_eq!(hx(&c), "0388dace60b6a392f328c2b971b2fe78");
        assert_eq!(hx(&t), "ab6e47d42cec13bdf53a67b21257bddf");
        assert_eq!(hx(&poly1305(&uh("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b").try_into().unwrap(), b"Cryptographic Forum Research Group")), "a8061dc1305136c6c22b8baf0c0127a9");
        let k: Vec<u8> = (0x80..0xa0).collect();
        let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
        let (_, t) = chacha_seal(&k.clone().try_into().unwrap(), &uh("070000004041424344454647").try_into().unwrap(), &uh("50515253c0c1c2c3c4c5c6c7"), pt);
        assert_eq!(hx(&t), "1ae10b594f09e26a7e902ecbd0600691");
        let n: Vec<u8> = (0x40..0x58).collect();
        let (_, t) = xchacha_seal(&k.try_into().unwrap(), &n.try_into().unwrap(), &uh("50515253c0c1c2c3c4c5c6c7"), pt);
        assert_eq!(hx(&t), "c0875924c1c7987947deafd8780acf49");
    }
}
