//! Short Weierstrass curves P-256 and P-384 (SP 800-186), ECDSA (FIPS 186-5).
use crate::hash::{Drbg, H};
use crate::nat::{El, Mont, Nat};

pub struct Curve { pub p: Nat, pub b: Nat, pub n: Nat, pub g: (Nat, Nat), pub len: usize, f: Mont, am: El, bm: El }
pub type Pt = Option<(Nat, Nat)>;
#[derive(Clone)]
struct J(El, El, El);

impl Curve {
    fn mk(len: usize, p: Nat, b: &str, n: &str, gx: &str, gy: &str) -> Curve {
        let f = Mont::new(&p);
        let a = p.sub(&Nat::from_u64(3));
        let b = Nat::from_hex(b);
        Curve { am: f.enter(&a), bm: f.enter(&b), b, n: Nat::from_hex(n), g: (Nat::from_hex(gx), Nat::from_hex(gy)), len, f, p }
    }
    pub fn p256() -> &'static Curve {
        static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
        C.get_or_init(|| Curve::mk(32,
            Nat::from_hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"))
    }
    pub fn p384() -> &'static Curve {
        static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
        C.get_or_init(|| Curve::mk(48,
            Nat::one().shl(384).sub(&Nat::one().shl(128)).sub(&Nat::one().shl(96)).add(&Nat::one().shl(32)).sub(&Nat::one()),
            "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
            "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"))
    }
    pub fn on_curve(&self, x: &Nat, y: &Nat) -> bool {
        if x.ge(&self.p) || y.ge(&self.p) { return false; }
        let f = &self.f;
        let (x, y) = (f.enter(x), f.enter(y));
        f.mul(&y, &y) == self.rhs(&x)
    }
    fn rhs(&self, x: &El) -> El { let f = &self.f; f.add(&f.mul(x, &f.add(&f.mul(x, x), &self.am)), &self.bm) }
    /// a point with the given x, if one exists (p = 3 mod 4)
    pub fn lift_x(&self, x: &Nat) -> Option<(Nat, Nat)> {
        let f = &self.f;
        let r = self.rhs(&f.enter(x));
        let y = f.pow(&r, &self.p.add(&Nat::one()).shr(2));
        if f.mul(&y, &y) == r { Some((x.rem(&self.p), f.leave(&y))) } else { None }
    }
    fn up(&self, p: &Pt) -> J { let f = &self.f; match p { None => J(f.one(), f.one(), f.zero()), Some((x, y)) => J(f.enter(x), f.enter(y), f.one()) } }
    fn down(&self, p: &J) -> Pt {
        let f = &self.f;
        if f.is_zero(&p.2) { return None; }
        let zi = f.inv(&p.2);
        let z2 = f.mul(&zi, &zi);
        Some((f.leave(&f.mul(&p.0, &z2)), f.leave(&f.mul(&p.1, &f.mul(&z2, &zi)))))
    }
    fn dbl(&self, p: &J) -> J {
        let f = &self.f;
        if f.is_zero(&p.2) || f.is_zero(&p.1) { return J(f.one(), f.one(), f.zero()); }
        let yy = f.mul(&p.1, &p.1);
        let s = f.mul(&p.0, &yy);
        let s = f.add(&f.add(&s, &s), &f.add(&s, &s));
        let xx = f.mul(&p.0, &p.0);
        let z2 = f.mul(&p.2, &p.2);
        let m = f.add(&f.add(&f.add(&xx, &xx), &xx), &f.mul(&self.am, &f.mul(&z2, &z2)));
        let x = f.sub(&f.mul(&m, &m), &f.add(&s, &s));
        let y4 = f.mul(&yy, &yy);
        let y8 = f.add(&f.add(&f.add(&y4, &y4), &f.add(&y4, &y4)), &f.add(&f.add(&y4, &y4), &f.add(&y4, &y4)));
        let y = f.sub(&f.mul(&m, &f.sub(&s, &x)), &y8);
        let yz = f.mul(&p.1, &p.2);
        J(x, y, f.add(&yz, &yz))
    }
    fn addj(&self, p: &J, q: &J) -> J {
        let f = &self.f;
        if f.is_zero(&p.2) { return q.clone(); }
        if f.is_zero(&q.2) { return p.clone(); }
        let (z1, z2) = (f.mul(&p.2, &p.2), f.mul(&q.2, &q.2));
        let (u1, u2) = (f.mul(&p.0, &z2), f.mul(&q.0, &z1));
        let (s1, s2) = (f.mul(&p.1, &f.mul(&z2, &q.2)), f.mul(&q.1, &f.mul(&z1, &p.2)));
        if u1 == u2 { return if s1 == s2 { self.dbl(p) } else { J(f.one(), f.one(), f.zero()) }; }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let h2 = f.mul(&h, &h);
        let h3 = f.mul(&h2, &h);
        let v = f.mul(&u1, &h2);
        let x = f.sub(&f.sub(&f.mul(&r, &r), &h3), &f.add(&v, &v));
        let y = f.sub(&f.mul(&r, &f.sub(&v, &x)), &f.mul(&s1, &h3));
        J(x, y, f.mul(&h, &f.mul(&p.2, &q.2)))
    }
    fn mulj(&self, k: &Nat, p: &Pt) -> J {
        let pj = self.up(p);
        let mut r = self.up(&None);
        for i in (0..k.bits()).rev() { r = self.dbl(&r); if k.bit(i) { r = self.addj(&r, &pj); } }
        r
    }
    pub fn mul(&self, k: &Nat, p: &Pt) -> Pt { self.down(&self.mulj(k, p)) }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt { self.down(&self.addj(&self.up(p), &self.up(q))) }
    pub fn neg(&self, p: &Pt) -> Pt { p.as_ref().map(|(x, y)| (x.clone(), self.p.sub(y).rem(&self.p))) }
    pub fn base(&self) -> Pt { Some(self.g.clone()) }
    pub fn enc(&self, p: &Pt) -> Vec<u8> { let (x, y) = p.as_ref().unwrap(); [vec![4], x.to_be(self.len), y.to_be(self.len)].concat() }
    pub fn dec(&self, b: &[u8]) -> Option<(Nat, Nat)> {
        if b.len() != 1 + 2 * self.len || b[0] != 4 { return None; }
        let (x, y) = (Nat::from_be(&b[1..1 + self.len]), Nat::from_be(&b[1 + self.len..]));
        if self.on_curve(&x, &y) { Some((x, y)) } else { None }
    }
    pub fn scalar_ok(&self, k: &Nat) -> bool { !k.is_zero() && k.lt(&self.n) }
    /// leftmost bits of the hash as an integer
    pub fn e(&self, hash: &[u8]) -> Nat {
        let n = self.n.bits();
        let e = Nat::from_be(hash);
        let l = hash.len() * 8;
        if l > n { e.shr(l - n) } else { e }
    }
    pub fn verify(&self, q: &(Nat, Nat), hash: &[u8], r: &Nat, s: &Nat) -> bool {
        if !self.scalar_ok(r) || !self.scalar_ok(s) { return false; }
        let w = s.invm(&self.n).unwrap();
        let u1 = self.e(hash).mulm(&w, &self.n);
        let u2 = r.mulm(&w, &self.n);
        match self.down(&self.addj(&self.mulj(&u1, &self.base()), &self.mulj(&u2, &Some(q.clone())))) {
            None => false,
            Some((x, _)) => x.rem(&self.n) == *r,
        }
    }
    pub fn sign(&self, d: &Nat, hash: &[u8], k: &Nat) -> Option<(Nat, Nat)> {
        let r = self.mul(k, &self.base())?.0.rem(&self.n);
        let s = k.invm(&self.n)?.mulm(&self.e(hash).add(&r.mul(d)), &self.n);
        if r.is_zero() || s.is_zero() { None } else { Some((r, s)) }
    }
    pub fn drbg(h: H, seed: &[u8]) -> Drbg { Drbg::new(h, seed) }
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn group() {
        for c in [Curve::p256(), Curve::p384()] {
            assert!(c.on_curve(&c.g.0, &c.g.1));
            assert!(c.p.is_prime() && c.n.is_prime());
            assert_eq!(c.mul(&c.n, &c.base()), None);
            assert_eq!(c.mul(&c.n.sub(&Nat::one()), &c.base()), c.neg(&c.base()));
            let (a, b) = (Nat::from_u64(0x1234567812345), Nat::from_u64(987654321987654321));
            assert_eq!(c.add(&c.mul(&a, &c.base()), &c.mul(&b, &c.base())), c.mul(&a.add(&b), &c.base()));
            let q = c.mul(&a, &c.base()).unwrap();
            let (r, s) = c.sign(&a, &[7; 64], &b).unwrap();
            assert!(c.verify(&q, &[7; 64], &r, &s));
            assert!(!c.verify(&q, &[8; 64], &r, &s));
        }
    }
}
