//! FIPS 180-4, FIPS 202, RFC 2104, HMAC_DRBG (as used by RFC 6979).
use crate::nat::Nat;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n { if v.iter().all(|p| c % p != 0) { v.push(c); } c += 1; }
    v
}
/// floor(frac(p^(1/k)) * 2^bits)
fn frac_root(p: u64, k: usize, bits: usize) -> u64 {
    let target = Nat::from_u64(p).shl(bits * k);
    let mut x = Nat::zero();
    for i in (0..bits + 6).rev() {
        let t = x.add(&Nat::one().shl(i));
        let mut pw = Nat::one();
        for _ in 0..k { pw = pw.mul(&t); }
        if pw <= target { x = t; }
    }
    let v = x.0.get(0).copied().unwrap_or(0);
    if bits == 64 { v } else { v & ((1 << bits) - 1) }
}
struct Consts { k32: Vec<u32>, k64: Vec<u64>, h256: Vec<u32>, h384: Vec<u64>, h512: Vec<u64> }
fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        Consts {
            k32: p[..64].iter().map(|p| frac_root(*p, 3, 32) as u32).collect(),
            k64: p.iter().map(|p| frac_root(*p, 3, 64)).collect(),
            h256: p[..8].iter().map(|p| frac_root(*p, 2, 32) as u32).collect(),
            h512: p[..8].iter().map(|p| frac_root(*p, 2, 64)).collect(),
            h384: p[8..16].iter().map(|p| frac_root(*p, 2, 64)).collect(),
        }
    })
}
pub fn sha256_compress(h: &mut [u32; 8], block: &[u8]) {
    let c = consts();
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap()); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut s = *h;
    for i in 0..64 {
        let [a, b, cc, d, e, f, g, hh] = s;
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k32[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & cc) ^ (b & cc);
        s = [t1.wrapping_add(s0).wrapping_add(maj), a, b, cc, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(s[i]); }
}
pub fn sha512_compress(h: &mut [u64; 8], block: &[u8]) {
    let c = consts();
    let mut w = [0u64; 80];
    for i in 0..16 { w[i] = u64::from_be_bytes(block[8 * i..8 * i + 8].try_into().unwrap()); }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut s = *h;
    for i in 0..80 {
        let [a, b, cc, d, e, f, g, hh] = s;
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k64[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) ^ (a & cc) ^ (b & cc);
        s = [t1.wrapping_add(s0).wrapping_add(maj), a, b, cc, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(s[i]); }
}
fn pad(m: &[u8], block: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    let lenb = block / 8;
    while v.len() % block != block - lenb { v.push(0); }
    let bits = (m.len() as u128) * 8;
    v.extend_from_slice(&bits.to_be_bytes()[16 - lenb..]);
    v
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 8] = consts().h256.clone().try_into().unwrap();
    for b in pad(m, 64).chunks(64) { sha256_compress(&mut h, b); }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn sha5(m: &[u8], iv: &[u64], n: usize) -> Vec<u8> {
    let mut h: [u64; 8] = iv.to_vec().try_into().unwrap();
    for b in pad(m, 128).chunks(128) { sha512_compress(&mut h, b); }
    let mut v: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    v.truncate(n);
    v
}
pub fn sha384(m: &[u8]) -> Vec<u8> { sha5(m, &consts().h384, 48) }
pub fn sha512(m: &[u8]) -> Vec<u8> { sha5(m, &consts().h512, 64) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H { S256, S384, S512 }
impl H {
    pub const ALL: [H; 3] = [H::S256, H::S384, H::S512];
    pub fn hash(self, m: &[u8]) -> Vec<u8> { match self { H::S256 => sha256(m), H::S384 => sha384(m), H::S512 => sha512(m) } }
    pub fn len(self) -> usize { match self { H::S256 => 32, H::S384 => 48, H::S512 => 64 } }
    pub fn block(self) -> usize { match self { H::S256 => 64, _ => 128 } }
}
pub fn hmac(h: H, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.hash(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(m);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend(h.hash(&i));
    h.hash(&o)
}
/// SP 800-90A HMAC_DRBG without reseed, as instantiated by RFC 6979 (seed material = concatenation).
pub struct Drbg { h: H, k: Vec<u8>, v: Vec<u8> }
impl Drbg {
    pub fn new(h: H, seed: &[u8]) -> Drbg {
        let mut d = Drbg { h, k: vec![0; h.len()], v: vec![1; h.len()] };
        d.update(seed);
        d
    }
    fn update(&mut self, seed: &[u8]) {
        self.k = hmac(self.h, &self.k, &[&self.v[..], &[0], seed].concat());
        self.v = hmac(self.h, &self.k, &self.v);
        if !seed.is_empty() {
            self.k = hmac(self.h, &self.k, &[&self.v[..], &[1], seed].concat());
            self.v = hmac(self.h, &self.k, &self.v);
        }
    }
    pub fn gen(&mut self, n: usize) -> Vec<u8> {
        let mut o = vec![];
        while o.len() < n { self.v = hmac(self.h, &self.k, &self.v); o.extend_from_slice(&self.v); }
        o.truncate(n);
        self.update(&[]);
        o
    }
}

pub fn keccak_f(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        let mut b = [0u64; 25];
        let (mut x, mut y) = (1usize, 0usize);
        b[0] = a[0];
        let mut rot = [0u32; 25];
        for t in 0..24u32 { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; let ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
        for x in 0..5 { for y in 0..5 { b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(rot[x + 5 * y]); } }
        for x in 0..5 { for y in 0..5 { a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]); } }
        for j in 0..7 {
            if lfsr & 1 == 1 { a[0] ^= 1u64 << ((1u32 << j) - 1); }
            lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
        }
    }
}
pub fn sponge(rate: usize, dom: u8, m: &[u8], out: usize) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(dom);
    while p.len() % rate != 0 { p.push(0); }
    *p.last_mut().unwrap() ^= 0x80;
    let mut s = [0u64; 25];
    for b in p.chunks(rate) {
        for (i, x) in b.iter().enumerate() { s[i / 8] ^= (*x as u64) << (8 * (i % 8)); }
        keccak_f(&mut s);
    }
    let mut o = vec![];
    loop {
        for i in 0..rate { if o.len() == out { return o; } o.push((s[i / 8] >> (8 * (i % 8))) as u8); }
        keccak_f(&mut s);
    }
}
pub fn sha3_256(m: &[u8]) -> Vec<u8> { sponge(136, 6, m, 32) }
pub fn sha3_384(m: &[u8]) -> Vec<u8> { sponge(104, 6, m, 48) }
pub fn sha3_512(m: &[u8]) -> Vec<u8> { sponge(72, 6, m, 64) }
pub fn shake128(m: &[u8], n: usize) -> Vec<u8> { sponge(168, 0x1f, m, n) }
pub fn shake256(m: &[u8], n: usize) -> Vec<u8> { sponge(136, 0x1f, m, n) }

#[cfg(test)]
mod t {
    use super::*;
    fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
    #[test]
    fn kats() {
        assert_eq!(hx(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert!(hx(&sha384(b"abc")).starts_with("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded163"));
        assert!(hx(&sha512(b"abc")).starts_with("ddaf35a193617abacc417349ae204131"));
        assert!(hx(&sha3_256(b"abc")).starts_with("3a985da74fe225b2045c172d6bd390bd"));
        assert!(hx(&sha3_512(b"abc")).starts_with("b751850b1a57168a5693cd924b6b096e"));
        assert!(hx(&shake128(b"", 32)).starts_with("7f9c2ba4e88f827d616045507605853e"));
        assert!(hx(&hmac(H::S256, b"Jefe", b"what do ya want for nothing?")).starts_with("5bdcc146bf60754e6a042426089575c7"));
    }
}
