//! Natural numbers, little-endian u64 limbs, always normalised.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Nat(pub Vec<u64>);

impl Nat {
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn one() -> Nat { Nat(vec![1]) }
    pub fn from_u64(x: u64) -> Nat { Nat(vec![x]).norm() }
    fn norm(mut self) -> Nat { while self.0.last() == Some(&0) { self.0.pop(); } self }
    pub fn from_limbs(l: &[u64]) -> Nat { Nat(l.to_vec()).norm() }
    pub fn limbs(&self, n: usize) -> Vec<u64> { let mut v = self.0.clone(); assert!(v.len() <= n); v.resize(n, 0); v }
    pub fn from_be(b: &[u8]) -> Nat { let mut v = b.to_vec(); v.reverse(); Nat::from_le(&v) }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut l = vec![0u64; b.len() / 8 + 1];
        for (i, x) in b.iter().enumerate() { l[i / 8] |= (*x as u64) << (8 * (i % 8)); }
        Nat(l).norm()
    }
    pub fn from_hex(s: &str) -> Nat {
        let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
        let s = if s.len() % 2 == 1 { format!("0{s}") } else { s };
        let b: Vec<u8> = (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect();
        Nat::from_be(&b)
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        while v.len() > n { assert_eq!(v.pop(), Some(0), "to_le overflow"); }
        v.resize(n, 0);
        v
    }
    pub fn to_be(&self, n: usize) -> Vec<u8> { let mut v = self.to_le(n); v.reverse(); v }
    /// minimal big-endian (empty for zero)
    pub fn to_be_min(&self) -> Vec<u8> { self.to_be((self.bits() + 7) / 8) }
    pub fn bits(&self) -> usize { match self.0.last() { None => 0, Some(x) => self.0.len() * 64 - x.leading_zeros() as usize } }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 64).map_or(false, |x| (x >> (i % 64)) & 1 == 1) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_even(&self) -> bool { !self.bit(0) }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            let t = *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128 + c;
            r.push(t as u64);
            c = t >> 64;
        }
        r.push(c as u64);
        Nat(r).norm()
    }
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(self.ge(o), "negative");
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = false;
        for i in 0..self.0.len() {
            let y = *o.0.get(i).unwrap_or(&0);
            let (t, b1) = self.0[i].overflowing_sub(y);
            let (t, b2) = t.overflowing_sub(b as u64);
            b = b1 || b2;
            r.push(t);
        }
        Nat(r).norm()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, x) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, y) in o.0.iter().enumerate() {
                let t = *x as u128 * *y as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        Nat(r).norm()
    }
    pub fn shl(&self, k: usize) -> Nat {
        let (w, b) = (k / 64, k % 64);
        let mut r = vec![0u64; w];
        let mut c = 0u64;
        for x in &self.0 {
            r.push(if b == 0 { *x } else { (x << b) | c });
            c = if b == 0 { 0 } else { x >> (64 - b) };
        }
        r.push(c);
        Nat(r).norm()
    }
    pub fn shr(&self, k: usize) -> Nat {
        let (w, b) = (k / 64, k % 64);
        if w >= self.0.len() { return Nat::zero(); }
        let s = &self.0[w..];
        let r = (0..s.len()).map(|i| if b == 0 { s[i] } else { (s[i] >> b) | (s.get(i + 1).unwrap_or(&0) << (64 - b)) }).collect();
        Nat(r).norm()
    }
    /// schoolbook division on 32-bit digits (Knuth D)
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self.lt(d) { return (Nat::zero(), self.clone()); }
        let to32 = |n: &Nat| -> Vec<u32> {
            let mut v: Vec<u32> = n.0.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect();
            while v.last() == Some(&0) { v.pop(); }
            v
        };
        let from32 = |v: &[u32]| -> Nat {
            Nat(v.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()).norm()
        };
        let dv = to32(d);
        if dv.len() == 1 {
            let mut u = to32(self);
            let mut r = 0u64;
            for x in u.iter_mut().rev() {
                let t = (r << 32) | *x as u64;
                *x = (t / dv[0] as u64) as u32;
                r = t % dv[0] as u64;
            }
            return (from32(&u), Nat::from_u64(r));
        }
        let s = dv[dv.len() - 1].leading_zeros() as usize;
        let v = to32(&d.shl(s));
        let mut u = to32(&self.shl(s));
        let n = v.len();
        while u.len() < to32(self).len() + 1 { u.push(0); }
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= 1 << 32 { break; }
            }
            let mut b = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + c;
                c = p >> 32;
                let t = u[i + j] as i64 - b - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                b = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - b - c as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        (from32(&q), from32(&u[..n]).shr(s))
    }
    pub fn rem(&self, d: &Nat) -> Nat { self.divrem(d).1 }
    pub fn addm(&self, o: &Nat, m: &Nat) -> Nat { self.add(o).rem(m) }
    pub fn subm(&self, o: &Nat, m: &Nat) -> Nat { self.rem(m).add(m).sub(&o.rem(m)).rem(m) }
    pub fn mulm(&self, o: &Nat, m: &Nat) -> Nat { self.mul(o).rem(m) }
    pub fn powm(&self, e: &Nat, m: &Nat) -> Nat {
        if !m.is_even() && m.bits() > 1 { return Mont::new(m).powm(self, e); }
        let mut r = Nat::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulm(&r, m);
            if e.bit(i) { r = r.mulm(self, m); }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() { let r = a.rem(&b); a = b; b = r; }
        a
    }
    /// inverse modulo m, if it exists
    pub fn invm(&self, m: &Nat) -> Option<Nat> {
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Nat::zero(), Nat::one());
        while !r1.is_zero() {
            let (q, r2) = r0.divrem(&r1);
            let t2 = t0.subm(&q.mul(&t1), m);
            r0 = r1; r1 = r2; t0 = t1; t1 = t2;
        }
        if r0 == Nat::one() { Some(t0.rem(m)) } else { None }
    }
    pub fn is_prime(&self) -> bool {
        let two = Nat::from_u64(2);
        if self.lt(&two) { return false; }
        for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
            let p = Nat::from_u64(p);
            if *self == p { return true; }
            if self.rem(&p).is_zero() { return false; }
        }
        let n1 = self.sub(&Nat::one());
        let mut s = 0;
        while !n1.bit(s) { s += 1; }
        let d = n1.shr(s);
        let m = Mont::new(self);
        'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53] {
            let mut x = m.powm(&Nat::from_u64(a), &d);
            if x == Nat::one() || x == n1 { continue; }
            for _ in 1..s {
                x = x.mulm(&x, self);
                if x == n1 { continue 'w; }
            }
            return false;
        }
        true
    }
    fn cmpn(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &Nat) -> bool { self.cmpn(o) == Ordering::Less }
    pub fn ge(&self, o: &Nat) -> bool { !self.lt(o) }
}
impl PartialOrd for Nat { fn partial_cmp(&self, o: &Nat) -> Option<Ordering> { Some(self.cmpn(o)) } }
impl Ord for Nat { fn cmp(&self, o: &Nat) -> Ordering { self.cmpn(o) } }

/// Montgomery context (speed only; validated against `mulm` in the crate tests).
#[derive(Clone)]
pub struct Mont { pub n: Nat, nl: Vec<u64>, n0: u64, rr: Vec<u64>, one: Vec<u64> }
pub type El = Vec<u64>;
impl Mont {
    pub fn new(n: &Nat) -> Mont {
        assert!(!n.is_even());
        let k = n.0.len();
        let mut inv = 1u64;
        for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(n.0[0].wrapping_mul(inv))); }
        let r = Nat::one().shl(64 * k).rem(n);
        let rr = r.mulm(&r, n).limbs(k);
        Mont { n: n.clone(), nl: n.0.clone(), n0: inv.wrapping_neg(), rr, one: r.limbs(k) }
    }
    pub fn mul(&self, a: &El, b: &El) -> El {
        let k = self.nl.len();
        let mut t = vec![0u64; k + 2];
        for i in 0..k {
            let mut c = 0u128;
            for j in 0..k {
                let x = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
                t[j] = x as u64;
                c = x >> 64;
            }
            let x = t[k] as u128 + c;
            t[k] = x as u64;
            t[k + 1] = (x >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.nl[0] as u128) >> 64;
            for j in 1..k {
                let x = t[j] as u128 + m as u128 * self.nl[j] as u128 + c;
                t[j - 1] = x as u64;
                c = x >> 64;
            }
            let x = t[k] as u128 + c;
            t[k - 1] = x as u64;
            t[k] = t[k + 1] + (x >> 64) as u64;
        }
        self.fix(t)
    }
    fn fix(&self, mut t: Vec<u64>) -> El {
        let k = self.nl.len();
        let top = t[k];
        t.truncate(k);
        if top != 0 || t.iter().rev().ge(self.nl.iter().rev()) {
            let mut b = false;
            for j in 0..k {
                let (x, b1) = t[j].overflowing_sub(self.nl[j]);
                let (x, b2) = x.overflowing_sub(b as u64);
                t[j] = x;
                b = b1 || b2;
            }
        }
        t
    }
    pub fn add(&self, a: &El, b: &El) -> El {
        let k = self.nl.len();
        let mut t = vec![0u64; k + 1];
        let mut c = 0u128;
        for i in 0..k { let x = a[i] as u128 + b[i] as u128 + c; t[i] = x as u64; c = x >> 64; }
        t[k] = c as u64;
        self.fix(t)
    }
    pub fn neg(&self, a: &El) -> El { self.n.sub(&Nat::from_limbs(a)).rem(&self.n).limbs(self.nl.len()) }
    pub fn sub(&self, a: &El, b: &El) -> El { self.add(a, &self.neg(b)) }
    pub fn enter(&self, a: &Nat) -> El { self.mul(&a.rem(&self.n).limbs(self.nl.len()), &self.rr) }
    pub fn leave(&self, a: &El) -> Nat { let mut o = vec![0; self.nl.len()]; o[0] = 1; Nat::from_limbs(&self.mul(a, &o)) }
    pub fn one(&self) -> El { self.one.clone() }
    pub fn zero(&self) -> El { vec![0; self.nl.len()] }
    pub fn is_zero(&self, a: &El) -> bool { a.iter().all(|x| *x == 0) }
    pub fn pow(&self, a: &El, e: &Nat) -> El {
        let mut r = self.one();
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) { r = self.mul(&r, a); }
        }
        r
    }
    pub fn inv(&self, a: &El) -> El { self.enter(&self.leave(a).invm(&self.n).expect("no inverse")) }
    pub fn powm(&self, a: &Nat, e: &Nat) -> Nat { self.leave(&self.pow(&self.enter(a), e)) }
}

#[cfg(test)]
mod t {
    use super::*;
    fn r(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; match *s % 5 { 0 => 0, 1 => u64::MAX, 2 => 1, _ => *s } }
    #[test]
    fn div_and_mont() {
        let mut s = 88172645463325252;
        for i in 0..20000 {
            let a = Nat((0..1 + i % 7).map(|_| r(&mut s)).collect()).norm();
            let b = Nat((0..1 + i % 4).map(|_| r(&mut s)).collect()).norm();
            if b.is_zero() { continue; }
            let (q, m) = a.divrem(&b);
            assert!(m.lt(&b));
            assert_eq!(q.mul(&b).add(&m), a);
            if !b.is_even() && b.bits() > 1 {
                let c = Nat((0..1 + i % 5).map(|_| r(&mut s)).collect()).norm();
                let mt = Mont::new(&b);
                assert_eq!(mt.leave(&mt.mul(&mt.enter(&a), &mt.enter(&c))), a.mulm(&c, &b));
                assert_eq!(mt.leave(&mt.sub(&mt.enter(&a), &mt.enter(&c))), a.subm(&c, &b));
            }
            if let Some(i) = a.invm(&b) { assert_eq!(a.mulm(&i, &b), Nat::one().rem(&b)); }
        }
    }
}
