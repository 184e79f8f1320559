//! RFC 7748 (Montgomery ladder over the plain field)
use crate::nat::{Mont, Nat};
pub fn p() -> Nat { Nat::one().shl(255).sub(&Nat::from_u64(19)) }
pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut k = *k;
    k[0] &= 248; k[31] &= 127; k[31] |= 64;
    let k = Nat::from_le(&k);
    let mut ub = *u;
    ub[31] &= 127;
    let p = p();
    let f = Mont::new(&p);
    let x1 = f.enter(&Nat::from_le(&ub).rem(&p));
    let (mut x2, mut z2, mut x3, mut z3) = (f.one(), f.zero(), x1.clone(), f.one());
    let a24 = f.enter(&Nat::from_u64(121665));
    for t in (0..255).rev() {
        let b = k.bit(t);
        if b { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
        let a = f.add(&x2, &z2);
        let aa = f.mul(&a, &a);
        let bb = f.sub(&x2, &z2);
        let b2 = f.mul(&bb, &bb);
        let e = f.sub(&aa, &b2);
        let c = f.add(&x3, &z3);
        let d = f.sub(&x3, &z3);
        let da = f.mul(&d, &a);
        let cb = f.mul(&c, &bb);
        let s = f.add(&da, &cb);
        let m = f.sub(&da, &cb);
        x3 = f.mul(&s, &s);
        z3 = f.mul(&x1, &f.mul(&m, &m));
        x2 = f.mul(&aa, &b2);
        z2 = f.mul(&e, &f.add(&aa, &f.mul(&a24, &e)));
        if b { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
    }
    let zi = f.pow(&z2, &p.sub(&Nat::from_u64(2)));
    f.leave(&f.mul(&x2, &zi)).to_le(32).try_into().unwrap()
}
pub fn base(k: &[u8; 32]) -> [u8; 32] { let mut u = [0; 32]; u[0] = 9; x25519(k, &u) }
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn kat() {
        let mut k = [0u8; 32];
        k[0] = 9;
        let r = x25519(&k, &k);
        assert_eq!(r[..4], [0x42, 0x2c, 0x8e, 0x7a]);
    }
}
