use crate::core::*;
#[cfg(feature = "h_pi")]
use gspec::nat::Nat;

#[cfg(feature = "h_pi")]
extern "Rust" {
    fn gvd_pi(op: &str, n: usize, a: &[&[u64]], k: u64) -> Option<Vec<u64>>;
    fn gvd_copy_row(z: &mut [u64], table: &[u64], h: u64, w: u64, i: u64);
    fn gvd_secret_zeroed(w: &[u64]) -> Vec<u64>;
}
#[cfg(feature = "h_pi")]
mod h {
    use super::*;
    fn pi(op: &str, n: usize, a: &[&[u64]], k: u64) -> Option<Vec<u64>> { unsafe { gvd_pi(op, n, a, k) } }
    fn nat(w: &[u64]) -> Nat { Nat::from_limbs(w) }
    fn show(a: &[&[u64]]) -> String { a.iter().map(|x| hex(&x.iter().rev().flat_map(|w| w.to_be_bytes()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ") }
    fn width(s: &mut Src) -> (usize, usize) { let n = s.pick(&[4usize, 4, 32, 64]); let w = match s.below(6) { 0 => n, 1 => 1, 2 => n - 1, 3 => s.pick(&[16usize, 32]).min(n), _ => s.range(1, n) }; (n, w) }
    /// odd modulus of exactly w words
    fn odd(s: &mut Src, w: usize) -> Vec<u64> {
        let mut v = s.words(w); v[0] |= 1; if v[w - 1] == 0 { v[w - 1] = s.pick(&[1, 1 << 63, u64::MAX]) } if w == 1 && v[0] == 1 { v[0] = 3 } v
    }
    fn lt(s: &mut Src, m: &[u64]) -> Vec<u64> {
        let n = nat(m); match s.below(7) { 0 => Nat::zero(), 1 => Nat::one().rem(&n), 2 => n.sub(&Nat::one()), 3 => n.shr(1), 4 => n.shr(1).add(&Nat::one()).rem(&n), _ => Nat::from_limbs(&s.words(m.len())).rem(&n) }.limbs(m.len())
    }
    pub fn simple(s: &mut Src) -> R {
        let (n, w) = width(s); let w2 = if s.chance(1, 2) { w } else { s.range(1, n) };
        let a = s.words(w); let mut b = s.words(w2); if s.chance(1, 5) { b = a.clone(); if s.chance(1, 2) { let i = s.range(0, w - 1); b[i] = b[i].wrapping_add(1) } }
        let (x, y) = (nat(&a), nat(&b)); s.note = format!("N={n} {}", show(&[&a, &b]));
        macro_rules! want { ($op:expr, $args:expr, $v:expr) => {{ let g = pi($op, n, $args, 0).ok_or(concat!($op, " failed"))?; ck!(nat(&g) == $v, "{}: got {} want {} {}", $op, show(&[&g]), hex(&$v.to_be_min()), s.note); }} }
        macro_rules! num { ($op:expr, $args:expr, $v:expr) => {{ let g = pi($op, n, $args, 0).unwrap()[0]; ck!(g == $v as u64, "{}: got {g} want {} {}", $op, $v as u64, s.note); }} }
        if x.add(&y).bits() <= n * 64 { want!("add", &[&a, &b], x.add(&y)) }
        if !x.add(&y).is_zero() { want!("add_shr1", &[&a, &b], x.add(&y).shr(1)) }
        let (hi, lo, hx, hy) = if x.ge(&y) { (&a, &b, &x, &y) } else { (&b, &a, &y, &x) };
        if hi.len() >= lo.len() { want!("sub", &[hi, lo], hx.sub(hy)) }
        want!("shr1", &[&a], x.shr(1));
        if !x.is_zero() { let k = s.below(x.bits() as u64); let g = pi("shr", n, &[&a], k).unwrap(); ck!(nat(&g) == x.shr(k as usize), "shr {k}: {} {}", show(&[&g]), s.note); }
        num!("less_than", &[&a, &b], x.lt(&y)); num!("less_than", &[&b, &a], y.lt(&x)); num!("equals", &[&a, &b], x == y); num!("equals", &[&a, &a], true);
        num!("len_bits", &[&a], x.bits()); num!("len_bytes", &[&a], (x.bits() + 7) / 8); num!("is_even", &[&a], x.is_even()); num!("is_zero", &[&a], x.is_zero());
        if !x.is_zero() { let mut t = 0; while !x.bit(t) { t += 1 } num!("ctz", &[&a], t) }
        want!("mul", &[&a, &b], x.mul(&y)); want!("widen", &[&a], x); if w2 >= w { want!("expand", &[&a, &b], x); }
        want!("one", &[], Nat::one()); want!("zero", &[], Nat::zero()); want!("fixed_one", &[&a], Nat::one());
        let g = pi("fixed_one", n, &[&a], 0).unwrap(); ck!(g.len() == a.len(), "fixed_one width");
        let k = s.word(); let g = pi("word", n, &[], k).unwrap(); ck!(nat(&g) == Nat::from_u64(k), "word");
        Ok(())
    }
    pub fn bytes(s: &mut Src) -> R {
        let (n, w) = width(s); let l = match s.below(4) { 0 => s.range(0, 8 * n + 20), 1 => 8 * w + s.range(0, 2) - 1, _ => s.range(0, 8 * w) };
        let mut b = s.bytes(l); let z = s.pick(&[0usize, 0, 1, 2, 9]); for i in 0..z.min(l) { b[i] = 0 }
        let x = Nat::from_be(&b); s.note = format!("N={n} {}", hex(&b));
        let v: Vec<u64> = b.iter().map(|x| *x as u64).collect();
        match pi("from_bytes", n, &[&v], 0) { Some(g) => ck!(nat(&g) == x, "from_bytes {} {}", show(&[&g]), s.note), None => ck!(x.bits() > n * 64, "from_bytes refused {}", s.note) }
        let a = s.words(w); let x = nat(&a); s.note = format!("N={n} {}", show(&[&a]));
        for (op, need, k) in [("to_bytes", w * 8, s.range(0, 8 * w + 9)), ("to_bytes", w * 8, w * 8), ("to_bytes_asn1", w * 8 + 1, s.range(0, 8 * w + 9)), ("to_bytes_asn1", w * 8 + 1, w * 8 + 1), ("to_bytes_fixed", (x.bits() + 7) / 8, s.range(0, 8 * w + 9)), ("to_bytes_fixed", (x.bits() + 7) / 8, (x.bits() + 7) / 8)] {
            match pi(op, n, &[&a], k as u64) {
                Some(g) => { let g: Vec<u8> = g.iter().map(|x| *x as u8).collect(); ck!(k >= need, "{op} accepted {k} bytes"); ck!(Nat::from_be(&g) == x, "{op} {} {}", hex(&g), s.note); if op == "to_bytes_asn1" { ck!(g[0] == 0, "ASN.1 sign byte") } if op == "to_bytes_fixed" { ck!(g.len() == k, "length") } }
                None => ck!(k < need, "{op} refused {k} bytes {}", s.note),
            }
        }
        Ok(())
    }
    pub fn modular(s: &mut Src) -> R {
        let (n, w) = width(s); let m = odd(s, w); let mn = nat(&m); let a = lt(s, &m); let b = lt(s, &m); let (x, y) = (nat(&a), nat(&b));
        s.note = format!("N={n} {}", show(&[&a, &b, &m]));
        macro_rules! want { ($op:expr, $args:expr, $v:expr) => {{ let v = $v; let g = pi($op, n, $args, 0).ok_or(concat!($op, " failed"))?; ck!(nat(&g) == v, "{}: got {} want {} {}", $op, show(&[&g]), hex(&v.to_be_min()), s.note); }} }
        want!("add_mod", &[&a, &b, &m], x.addm(&y, &mn)); want!("sub_mod", &[&a, &b, &m], x.subm(&y, &mn));
        let r = Nat::one().shl(64 * w); let ri = r.rem(&mn).invm(&mn).unwrap_or(Nat::zero());
        if mn != Nat::one() {
            let g = pi("montifier", n, &[&m], 0).unwrap(); ck!(nat(&g) == r.mul(&r).rem(&mn), "montifier {} {}", show(&[&g]), s.note);
            let g = pi("mont_neg_inverse", n, &[&m], 0).unwrap()[0]; ck!(g.wrapping_mul(m[0]) == u64::MAX, "mont_neg_inverse {g:x} {}", s.note);
            want!("to_mont", &[&a, &m], x.mul(&r).rem(&mn)); want!("from_mont", &[&a, &m], x.mul(&ri).rem(&mn));
            want!("mont_mul", &[&a, &b, &m], x.mul(&y).rem(&mn).mul(&ri).rem(&mn));
            want!("mont_sqr", &[&a, &m], x.mul(&x).rem(&mn).mul(&ri).rem(&mn)); want!("mont_sqr_in_place", &[&a, &m], x.mul(&x).rem(&mn).mul(&ri).rem(&mn));
            // operands chosen so that the product is a chosen edge value
            let t = lt(s, &m); if let Some(xi) = x.invm(&mn) { let c = nat(&t).mulm(&r, &mn).mulm(&xi, &mn).limbs(w); s.note = format!("N={n} {}", show(&[&a, &c, &m])); want!("mont_mul", &[&a, &c, &m], nat(&t)) }
            // to_montgomery of unreduced values (used to reduce a half-size result)
            let u = s.words(w); s.note = format!("N={n} {}", show(&[&u, &m])); want!("to_mont", &[&u, &m], nat(&u).mul(&r).rem(&mn)); want!("from_mont", &[&u, &m], nat(&u).mul(&ri).rem(&mn));
        }
        Ok(())
    }
    /// composite moduli of 16 and 32 words where the product is a multiple of the modulus
    pub fn zero_product(s: &mut Src) -> R {
        let w = s.pick(&[16usize, 32, 8, 4]); let p = odd(s, w / 2); let q = odd(s, w / 2); let m = nat(&p).mul(&nat(&q)).limbs(w);
        let top = m[w - 1]; if top == 0 { s.trivial(); return Ok(()) }
        let a = nat(&p).mul(&nat(&s.words(w / 2)).rem(&nat(&q))).limbs(w); let b = nat(&q).mul(&nat(&s.words(w / 2)).rem(&nat(&p))).limbs(w);
        s.note = show(&[&a, &b, &m]);
        for n in [32usize, 64] { let g = pi("mont_mul", n, &[&a, &b, &m], 0).unwrap(); ck!(nat(&g).is_zero(), "mont_mul of zero divisors: {} {}", show(&[&g]), s.note) }
        // square: m = p^2
        let m = nat(&p).mul(&nat(&p)).limbs(w); if m[w - 1] == 0 { return Ok(()) } let a = nat(&p).limbs(w);
        for op in ["mont_sqr", "mont_sqr_in_place"] { let g = pi(op, 64, &[&a, &m], 0).unwrap(); ck!(nat(&g).is_zero(), "{op} of p mod p^2: {}", show(&[&g])) }
        Ok(())
    }
    pub fn inverse(s: &mut Src) -> R {
        let (n, w) = width(s); let w = w.min(if s.thorough { 64 } else { 40 }); let m = odd(s, w); let mn = nat(&m); let a = lt(s, &m); let x = nat(&a);
        s.note = format!("N={n} {}", show(&[&a, &m]));
        let co = x.gcd(&mn) == Nat::one();
        if !x.is_zero() { let g = pi("coprime", n, &[&a, &m], 0).unwrap()[0]; ck!(g == co as u64, "coprime got {g} {}", s.note) }
        if co && mn != Nat::one() { let g = pi("mod_inverse", n, &[&a, &m], 0).unwrap(); ck!(nat(&g).lt(&mn) && nat(&g).mulm(&x, &mn) == Nat::one(), "mod_inverse {} {}", show(&[&g]), s.note) }
        // invert_vartime: any parity of the modulus; at the widths key generation uses it
        let w = s.range(1, 8.min(n)); let mut m = s.words(w); if m[w - 1] == 0 { m[w - 1] = 1 } let cands = [vec![65537u64], vec![3], vec![1], vec![s.u64()], s.words(w)]; let e = s.pick(&cands);
        let e: Vec<u64> = nat(&e).rem(&nat(&m)).0.clone(); if e.is_empty() { return Ok(()) }
        let mn = nat(&m); let x = nat(&e); s.note = format!("N={n} {}", show(&[&e, &m]));
        let want = if x.is_even() && mn.is_even() { None } else { x.invm(&mn) }; let want = if x.gcd(&mn) == Nat::one() { want } else { None };
        match (pi("invert", n, &[&e, &m], 0), want) { (None, None) => {} (Some(g), Some(v)) => { if mn != Nat::one() { ck!(nat(&g) == v, "invert_vartime got {} want {} {}", show(&[&g]), hex(&v.to_be_min()), s.note) } } (g, v) => ck!(mn == Nat::one(), "invert_vartime got {:?} want {} {}", g.map(|g| show(&[&g])), v.is_some(), s.note) }
        Ok(())
    }
    pub fn invert_big(s: &mut Src) -> R {
        let w = s.pick(&[32usize, 48, 64]); let mut m = s.words(w); m[w - 1] |= s.pick(&[1 << 63, 1]); m[0] &= !3; let e = [65537u64]; let mn = nat(&m); s.note = show(&[&e, &m]);
        let want = if nat(&e).gcd(&mn) == Nat::one() { nat(&e).invm(&mn) } else { None };
        let g = pi("invert", 64, &[&e, &m], 0); ck!(g.as_ref().map(|g| nat(g)) == want, "invert_vartime {:?} {}", g.map(|g| show(&[&g])), s.note);
        Ok(())
    }
    pub fn reduce(s: &mut Src) -> R {
        let (n, w) = width(s); let w = w.min(32); let m = odd(s, w); let mn = nat(&m);
        let l = if s.chance(1, 2) { 2 * w } else { s.range(1, 2 * n) }; let a = s.words(l); let x = nat(&a); s.note = format!("N={n} {}", show(&[&a, &m]));
        if mn != Nat::one() && l <= 2 * w { let g = pi("reduce", n, &[&a, &m], 0).unwrap(); ck!(nat(&g) == x.rem(&mn), "reduce {} {}", show(&[&g]), s.note) }
        let mut m = s.words(w); if m[w - 1] == 0 { m[w - 1] = s.pick(&[1, u64::MAX, 1 << 63]) } let l = s.range(w.saturating_sub(1).max(1), 2 * n).min(w + 6); let a = s.words(l); s.note = format!("N={n} {}", show(&[&a, &m]));
        if nat(&m).bits() > 1 { let g = pi("reduce_even", n, &[&a, &m], 0).unwrap(); ck!(nat(&g) == nat(&a).rem(&nat(&m)), "reduce_even {} {}", show(&[&g]), s.note) }
        Ok(())
    }
    pub fn exp(s: &mut Src) -> R {
        let n = s.pick(&[4usize, 32, 64]); let w = if n == 4 { s.range(1, 4) } else { s.pick(&[16usize, 16, 32, 32, 8, 17, 24, 31]) }; let m = odd(s, w); let mn = nat(&m); if mn == Nat::one() { return Ok(()) }
        let a = lt(s, &m); let el = s.range(1, if n == 4 { 4 } else { 3 }); let e = s.words(el); s.note = format!("N={n} {}", show(&[&a, &e, &m]));
        let want = nat(&a).powm(&nat(&e), &mn);
        let g = pi("mod_exp", n, &[&a, &e, &m], 0).unwrap(); ck!(nat(&g) == want, "mod_exp {} want {} {}", show(&[&g]), hex(&want.to_be_min()), s.note);
        Ok(())
    }
    pub fn row(s: &mut Src) -> R {
        let w = s.pick(&[16usize, 32, 8, 24, 64, 17, 18, 20, 31, 33, 48, 40]); let h = 16; let t: Vec<u64> = (0..w * h).map(|_| s.u64()).collect(); let i = s.range(0, h - 1); let mut z = vec![0; w]; s.note = format!("w={w} i={i}");
        unsafe { gvd_copy_row(&mut z, &t, h as u64, w as u64, i as u64) }; ck!(z == t[i * w..(i + 1) * w], "table row {i} of width {w}");
        Ok(())
    }
    pub fn secret(s: &mut Src) -> R { let w = s.range(1, 64); let a = s.words(w); s.note = show(&[&a]); let g = unsafe { gvd_secret_zeroed(&a) }; ck!(g.iter().all(|x| *x == 0), "SecretPosInt not erased on drop: {}", show(&[&g])); Ok(()) }
}
pub fn c18() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("rsa_sign", 30, 1, crate::rsa::c17_sign), case("generate", 2, 1, crate::rsa::c17_generate)];
    #[cfg(feature = "h_pi")]
    v.extend([case("simple", 20000, 4, h::simple), case("bytes", 10000, 2, h::bytes), case("modular", 10000, 5, h::modular), case("zero_product", 2000, 1, h::zero_product), case("inverse", 1500, 3, h::inverse), case("invert_big", 20, 1, h::invert_big), case("reduce", 3000, 2, h::reduce), case("exp", 500, 2, h::exp), case("row", 2000, 1, h::row)]);
    v
}
#[cfg(feature = "h_pi")]
pub fn secret(s: &mut Src) -> R { h::secret(s) }
