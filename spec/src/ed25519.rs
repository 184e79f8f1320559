//! RFC 8032 Ed25519 (cofactorless equation, R compared as bytes)
use crate::hash::sha512;
use crate::nat::{El, Mont, Nat};
pub struct Ed { pub p: Nat, pub l: Nat, f: Mont, d: El, sqrtm1: El, pub b: (Nat, Nat) }
#[derive(Clone)]
pub struct E(El, El, El, El);
impl Ed {
    pub fn get() -> &'static Ed {
        static C: std::sync::OnceLock<Ed> = std::sync::OnceLock::new();
        C.get_or_init(|| {
            let p = crate::x25519::p();
            let f = Mont::new(&p);
            let l = Nat::one().shl(252).add(&Nat::from_hex("14def9dea2f79cd65812631a5cf5d3ed"));
            let d = f.neg(&f.mul(&f.enter(&Nat::from_u64(121665)), &f.inv(&f.enter(&Nat::from_u64(121666)))));
            let sqrtm1 = f.pow(&f.enter(&Nat::from_u64(2)), &p.sub(&Nat::one()).shr(2));
            let mut e = Ed { p, l, f, d, sqrtm1, b: (Nat::zero(), Nat::zero()) };
            let y = e.f.leave(&e.f.mul(&e.f.enter(&Nat::from_u64(4)), &e.f.inv(&e.f.enter(&Nat::from_u64(5)))));
            let mut enc: [u8; 32] = y.to_le(32).try_into().unwrap();
            enc[31] &= 0x7f;
            e.b = e.decode(&enc).unwrap();
            e
        })
    }
    /// strict decoding (RFC 8032 5.1.3): y < p, x recoverable, x = 0 with sign bit 1 rejected
    pub fn decode(&self, b: &[u8; 32]) -> Option<(Nat, Nat)> {
        let f = &self.f;
        let sign = b[31] >> 7 == 1;
        let mut yb = *b;
        yb[31] &= 0x7f;
        let y = Nat::from_le(&yb);
        if y.ge(&self.p) { return None; }
        let ym = f.enter(&y);
        let y2 = f.mul(&ym, &ym);
        let u = f.sub(&y2, &f.one());
        let v = f.add(&f.mul(&self.d, &y2), &f.one());
        let w = f.mul(&u, &f.inv(&v));
        let mut x = f.pow(&w, &self.p.add(&Nat::from_u64(3)).shr(3));
        if f.mul(&x, &x) != w {
            x = f.mul(&x, &self.sqrtm1);
            if f.mul(&x, &x) != w { return None; }
        }
        let mut x = f.leave(&x);
        if x.is_zero() && sign { return None; }
        if x.bit(0) != sign { x = self.p.sub(&x).rem(&self.p); }
        Some((x, y))
    }
    pub fn encode(&self, p: &(Nat, Nat)) -> [u8; 32] {
        let mut b: [u8; 32] = p.1.to_le(32).try_into().unwrap();
        if p.0.bit(0) { b[31] |= 0x80; }
        b
    }
    fn up(&self, p: &(Nat, Nat)) -> E { let f = &self.f; let (x, y) = (f.enter(&p.0), f.enter(&p.1)); E(x.clone(), y.clone(), f.one(), f.mul(&x, &y)) }
    fn down(&self, p: &E) -> (Nat, Nat) { let f = &self.f; let zi = f.inv(&p.2); (f.leave(&f.mul(&p.0, &zi)), f.leave(&f.mul(&p.1, &zi))) }
    fn addp(&self, p: &E, q: &E) -> E {
        let f = &self.f;
        let a = f.mul(&f.sub(&p.1, &p.0), &f.sub(&q.1, &q.0));
        let b = f.mul(&f.add(&p.1, &p.0), &f.add(&q.1, &q.0));
        let c = f.mul(&f.mul(&p.3, &f.add(&self.d, &self.d)), &q.3);
        let d = f.mul(&f.add(&p.2, &p.2), &q.2);
        let (e, ff, g, h) = (f.sub(&b, &a), f.sub(&d, &c), f.add(&d, &c), f.add(&b, &a));
        E(f.mul(&e, &ff), f.mul(&g, &h), f.mul(&ff, &g), f.mul(&e, &h))
    }
    fn mulp(&self, k: &Nat, p: &(Nat, Nat)) -> E {
        let pj = self.up(p);
        let mut r = self.up(&(Nat::zero(), Nat::one()));
        for i in (0..k.bits()).rev() { r = self.addp(&r, &r); if k.bit(i) { r = self.addp(&r, &pj); } }
        r
    }
    pub fn mul(&self, k: &Nat, p: &(Nat, Nat)) -> (Nat, Nat) { self.down(&self.mulp(k, p)) }
    pub fn add(&self, p: &(Nat, Nat), q: &(Nat, Nat)) -> (Nat, Nat) { self.down(&self.addp(&self.up(p), &self.up(q))) }
    pub fn neg(&self, p: &(Nat, Nat)) -> (Nat, Nat) { (self.p.sub(&p.0).rem(&self.p), p.1.clone()) }
    pub fn expand(seed: &[u8; 32]) -> (Nat, Vec<u8>) {
        let h = sha512(seed);
        let mut a: [u8; 32] = h[..32].try_into().unwrap();
        a[0] &= 248; a[31] &= 63; a[31] |= 64;
        (Nat::from_le(&a), h[32..].to_vec())
    }
    pub fn public(&self, seed: &[u8; 32]) -> [u8; 32] { self.encode(&self.mul(&Ed::expand(seed).0, &self.b)) }
    pub fn hram(&self, r: &[u8], a: &[u8], m: &[u8]) -> Nat { Nat::from_le(&sha512(&[r, a, m].concat())).rem(&self.l) }
    pub fn sign(&self, seed: &[u8; 32], m: &[u8]) -> [u8; 64] {
        let (a, prefix) = Ed::expand(seed);
        let ab = self.encode(&self.mul(&a, &self.b));
        let r = Nat::from_le(&sha512(&[&prefix[..], m].concat())).rem(&self.l);
        let rb = self.encode(&self.mul(&r, &self.b));
        let s = r.add(&self.hram(&rb, &ab, m).mul(&a)).rem(&self.l);
        [&rb[..], &s.to_le(32)[..]].concat().try_into().unwrap()
    }
    /// Some(true/false); None if the public key does not decode
    pub fn verify(&self, pk: &[u8; 32], m: &[u8], sig: &[u8]) -> Option<bool> {
        let a = self.decode(pk)?;
        if sig.len() != 64 { return Some(false); }
        let s = Nat::from_le(&sig[32..]);
        if s.ge(&self.l) { return Some(false); }
        let k = self.hram(&sig[..32], pk, m);
        let r = self.down(&self.addp(&self.mulp(&s, &self.b), &self.mulp(&k, &self.neg(&a))));
        Some(self.encode(&r)[..] == sig[..32])
    }
}
#[cfg(test)]
mod t {
    use super::*;
    fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
    #[test]
    fn kat() {
        let e = Ed::get();
        let seed: [u8; 32] = Nat::from_hex("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60").to_be(32).try_into().unwrap();
        assert_eq!(hx(&e.public(&seed)), "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a");
        assert!(hx(&e.sign(&seed, b"")).starts_with("e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e06522490155"));
        assert_eq!(e.verify(&e.public(&seed), b"", &e.sign(&seed, b"")), Some(true));
    }
}
