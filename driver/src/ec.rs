use crate::core::*;
use graviola::hashing::{Sha256, Sha384, Sha512};
use graviola::key_agreement as ka;
use graviola::signing::ecdsa::{SigningKey, VerifyingKey, P256, P384};
use gspec::ec::{Curve, Pt};
use gspec::hash::H;
use gspec::nat::Nat;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum C { P256, P384 }
pub use C::*;
impl C {
    pub const ALL: [C; 2] = [C::P256, C::P384];
    pub fn sp(self) -> &'static Curve { match self { C::P256 => Curve::p256(), C::P384 => Curve::p384() } }
    pub fn len(self) -> usize { self.sp().len }
}
/// the real library, uniformly
pub fn pub_accepts(c: C, b: &[u8]) -> Option<Vec<u8>> {
    match c { C::P256 => ka::p256::PublicKey::from_x962_uncompressed(b).ok().map(|k| k.as_bytes_uncompressed().to_vec()), C::P384 => ka::p384::PublicKey::from_x962_uncompressed(b).ok().map(|k| k.as_bytes_uncompressed().to_vec()) }
}
pub fn priv_accepts(c: C, b: &[u8]) -> Option<Vec<u8>> {
    match c { C::P256 => ka::p256::StaticPrivateKey::from_bytes(b).ok().map(|k| k.as_bytes().to_vec()), C::P384 => ka::p384::StaticPrivateKey::from_bytes(b).ok().map(|k| k.as_bytes().to_vec()) }
}
pub fn real_pub(c: C, d: &[u8]) -> Vec<u8> {
    match c { C::P256 => ka::p256::StaticPrivateKey::from_bytes(d).unwrap().public_key_uncompressed().to_vec(), C::P384 => ka::p384::StaticPrivateKey::from_bytes(d).unwrap().public_key_uncompressed().to_vec() }
}
pub fn real_dh(c: C, d: &[u8], q: &[u8]) -> Result<Vec<u8>, String> {
    match c {
        C::P256 => ka::p256::StaticPrivateKey::from_bytes(d).unwrap().diffie_hellman(&ka::p256::PublicKey::from_x962_uncompressed(q).map_err(|e| format!("{e:?}"))?).map(|s| s.0.to_vec()).map_err(|e| format!("{e:?}")),
        C::P384 => ka::p384::StaticPrivateKey::from_bytes(d).unwrap().diffie_hellman(&ka::p384::PublicKey::from_x962_uncompressed(q).map_err(|e| format!("{e:?}"))?).map(|s| s.0.to_vec()).map_err(|e| format!("{e:?}")),
    }
}
pub fn real_verify(c: C, h: H, q: &[u8], m: &[&[u8]], sig: &[u8], asn1: bool) -> Result<bool, String> {
    macro_rules! go { ($c:ty) => {{ let k = VerifyingKey::<$c>::from_x962_uncompressed(q).map_err(|e| format!("public key rejected: {e:?}"))?;
        Ok(match (h, asn1) { (H::S256, false) => k.verify::<Sha256>(m, sig), (H::S384, false) => k.verify::<Sha384>(m, sig), (H::S512, false) => k.verify::<Sha512>(m, sig), (H::S256, true) => k.verify_asn1::<Sha256>(m, sig), (H::S384, true) => k.verify_asn1::<Sha384>(m, sig), (H::S512, true) => k.verify_asn1::<Sha512>(m, sig) }.is_ok()) }} }
    match c { C::P256 => go!(P256), C::P384 => go!(P384) }
}
pub fn real_sign(c: C, h: H, d: &[u8], m: &[&[u8]], buf: &mut [u8], asn1: bool) -> Result<Vec<u8>, String> {
    macro_rules! go { ($c:ty, $k:ty) => {{ let k = SigningKey::<$c> { private_key: <$k>::from_bytes(d).map_err(|e| format!("{e:?}"))? };
        match (h, asn1) { (H::S256, false) => k.sign::<Sha256>(m, buf), (H::S384, false) => k.sign::<Sha384>(m, buf), (H::S512, false) => k.sign::<Sha512>(m, buf), (H::S256, true) => k.sign_asn1::<Sha256>(m, buf), (H::S384, true) => k.sign_asn1::<Sha384>(m, buf), (H::S512, true) => k.sign_asn1::<Sha512>(m, buf) }.map(|x| x.to_vec()).map_err(|e| format!("{e:?}")) }} }
    match c { C::P256 => go!(P256, ka::p256::StaticPrivateKey), C::P384 => go!(P384, ka::p384::StaticPrivateKey) }
}

/// a scalar in [1, n-1], biased to extremes and to window boundaries
pub fn scalar(s: &mut Src, c: C) -> Nat {
    let n = &c.sp().n; let bits = c.len() * 8;
    loop {
        let k = match s.below(9) {
            0 => Nat::from_u64(1 + s.below(200)),
            1 => n.sub(&Nat::from_u64(1 + s.below(200))),
            2 => Nat::from_u64(1 + s.below(130)).shl(s.range(0, bits - 1)),
            3 => n.sub(&Nat::from_u64(1 + s.below(130)).shl(s.range(0, bits - 1)).rem(n)),
            4 => n.shr(s.range(1, 10)).add(&Nat::from_u64(s.below(4))),
            5 => Nat::from_limbs(&s.words(bits / 64)),
            6 => { let i = s.range(1, bits); Nat::one().shl(i).sub(&Nat::one()) }
            _ => { let mut b = vec![0; c.len()]; s.fill(&mut b); Nat::from_be(&b) }
        };
        if c.sp().scalar_ok(&k) { return k }
    }
}
pub fn point(s: &mut Src, c: C) -> (Nat, Nat) {
    let sp = c.sp();
    loop {
        match s.below(6) {
            0 => return sp.g.clone(),
            1 => return sp.neg(&sp.base()).unwrap(),
            2 => { let k = Nat::from_u64(1 + s.below(70)); return sp.mul(&k, &sp.base()).unwrap() }
            3 => { // small or large x
                let x = if s.chance(1, 2) { Nat::from_u64(s.below(64)) } else { sp.p.sub(&Nat::from_u64(1 + s.below(64))) };
                if let Some(p) = sp.lift_x(&x) { return if s.chance(1, 2) { sp.neg(&Some(p)).unwrap() } else { p } }
            }
            4 => { let x = Nat::from_limbs(&s.words(c.len() / 8)); if x.lt(&sp.p) { if let Some(p) = sp.lift_x(&x) { return p } } }
            _ => { let mut b = vec![0; c.len()]; s.fill(&mut b); let x = Nat::from_be(&b).rem(&sp.p); if let Some(p) = sp.lift_x(&x) { return p } }
        }
    }
}

// ---- C10
fn pk_valid(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let sp = c.sp();
    let p = point(s, c);
    let e = sp.enc(&Some(p.clone()));
    s.note = format!("{c:?} point={}", hex(&e));
    match pub_accepts(c, &e) { None => return Err(format!("{c:?} rejected a valid point {}", hex(&e))), Some(b) => { eq!(b, e, "{c:?} re-encoding") } }
    ck!(match c { C::P256 => VerifyingKey::<P256>::from_x962_uncompressed(&e).is_ok(), C::P384 => VerifyingKey::<P384>::from_x962_uncompressed(&e).is_ok() }, "{c:?} verifying key rejected a valid point");
    // anything else derived from it
    for _ in 0..6 {
        let mut b = e.clone();
        let what = match s.below(10) {
            0 => { b[0] = s.u64() as u8; "prefix byte" }
            1 => { s.flip(&mut b); "bit flip" }
            2 => { let l = s.below(b.len() as u64) as usize; b.truncate(l); "truncation" }
            3 => { let n = s.range(1, 70); let x = s.bytes(n); b.extend(x); "extension" }
            4 => { let l = c.len(); let x = Nat::from_be(&b[1..1 + l]).add(&sp.p); if x.bits() > l * 8 { continue } b[1..1 + l].copy_from_slice(&x.to_be(l)); "x + p" }
            5 => { let l = c.len(); let y = Nat::from_be(&b[1 + l..]).add(&sp.p); if y.bits() > l * 8 { continue } b[1 + l..].copy_from_slice(&y.to_be(l)); "y + p" }
            6 => { let l = c.len(); let (x, y) = (b[1..1 + l].to_vec(), b[1 + l..].to_vec()); b[1..1 + l].copy_from_slice(&y); b[1 + l..].copy_from_slice(&x); "coordinates swapped" }
            7 => { b.drain(1 + s.below(b.len() as u64 - 1) as usize..).for_each(drop); b.insert(0, 0); "zero prefix" }
            8 => { let l = c.len(); b.truncate(1 + l); b[0] = 2 + s.below(2) as u8; "compressed form" }
            _ => { b.insert(1, 0); "leading zero in x" }
        };
        let want = sp.dec(&b).is_some();
        let got = pub_accepts(c, &b);
        ck!(got.is_some() == want, "{c:?} {what}: accepted={} want={} for {}", got.is_some(), want, hex(&b));
        if let Some(g) = got { eq!(g, b, "{c:?} re-encoding") }
    }
    Ok(())
}
/// points with tiny x (or y) whose +p alias fits in the field width; zero coordinates; twist/off-curve points
fn pk_edges(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let sp = c.sp(); let l = c.len();
    let i = Nat::from_u64(s.idx / 2);
    for x in [i.clone(), sp.p.sub(&i).rem(&sp.p), Nat::one().shl(l * 8).sub(&Nat::one()).sub(&i), sp.p.add(&i)] {
        let xr = x.rem(&sp.p);
        let ys: Vec<Nat> = match sp.lift_x(&xr) { Some((_, y)) => vec![y.clone(), sp.p.sub(&y).rem(&sp.p), y.add(&sp.p), sp.p.sub(&y).add(&sp.p)], None => vec![Nat::from_u64(1), Nat::zero(), sp.p.clone(), x.clone()] };
        for y in ys {
            if x.bits() > l * 8 || y.bits() > l * 8 { continue }
            let b = [vec![4], x.to_be(l), y.to_be(l)].concat();
            let want = sp.dec(&b).is_some();
            let got = pub_accepts(c, &b);
            ck!(got.is_some() == want, "{c:?} accepted={} want={} for {}", got.is_some(), want, hex(&b));
            if let Some(g) = got { eq!(g, b, "{c:?} re-encoding") }
            if sp.n.ge(&x) { /* covered also for ECDSA keys */ }
            let vk = match c { C::P256 => VerifyingKey::<P256>::from_x962_uncompressed(&b).is_ok(), C::P384 => VerifyingKey::<P384>::from_x962_uncompressed(&b).is_ok() };
            ck!(vk == want, "{c:?} verifying key accepted={} want={} for {}", vk, want, hex(&b));
        }
    }
    Ok(())
}
fn pk_lens(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let n = (s.idx / 2) as usize;
    for f in 0..6 {
        let mut b = s.bytes(n);
        if f < 4 && n > 0 { b[0] = 4 }
        if f == 4 { let e = c.sp().enc(&c.sp().base()); b = e.iter().cycle().take(n).cloned().collect(); }
        if f == 5 { let o = if c == C::P256 { C::P384 } else { C::P256 }; let e = o.sp().enc(&o.sp().base()); b = e.iter().cycle().take(n).cloned().collect(); }
        let want = c.sp().dec(&b).is_some();
        ck!(pub_accepts(c, &b).is_some() == want, "{c:?} {n}-byte public key: want accepted={want}: {}", hex(&b));
    }
    Ok(())
}
pub fn c10() -> Vec<Case> { vec![case("pk_lens", 2 * 220, 0, pk_lens), case("pk_edges", 1200, 1, pk_edges), case("pk_valid", 2000, 3, pk_valid)] }

// ---- C11
fn dh_one(s: &mut Src, c: C, k: &Nat, p: &(Nat, Nat)) -> R {
    let sp = c.sp(); let d = k.to_be(c.len()); let q = sp.enc(&Some(p.clone()));
    s.note = format!("{c:?} d={} Q={}", hex(&d), hex(&q));
    let want = sp.mul(k, &Some(p.clone())).expect("prime order").0.to_be(c.len());
    match real_dh(c, &d, &q) { Ok(z) => eq!(z, want, "{c:?} ECDH d={} Q={}", hex(&d), hex(&q)), Err(e) => return Err(format!("{c:?} ECDH failed ({e}) d={} Q={}", hex(&d), hex(&q))) }
    Ok(())
}
fn base_one(s: &mut Src, c: C, k: &Nat) -> R {
    let d = k.to_be(c.len());
    s.note = format!("{c:?} d={}", hex(&d));
    eq!(real_pub(c, &d), c.sp().enc(&c.sp().mul(k, &c.sp().base())), "{c:?} public key of {}", hex(&d));
    Ok(())
}
fn dh_rand(s: &mut Src) -> R { let c = s.pick(&C::ALL); let k = scalar(s, c); let p = point(s, c); dh_one(s, c, &k, &p) }
/// shared secrets with a chosen (tiny, sparse or extreme) x-coordinate: Q = k^-1 * lift(x)
fn dh_target(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let sp = c.sp(); let j = s.idx / 2;
    let mut x = match j { 0 | 1 => Nat::zero(), 2..=40 => Nat::from_u64(j - 2), 41..=80 => sp.p.sub(&Nat::from_u64(j - 40)), _ => Nat::from_limbs(&s.words(c.len() / 8)).rem(&sp.p) };
    let r = loop { match sp.lift_x(&x) { Some(r) => break r, None => x = x.add(&Nat::one()).rem(&sp.p) } };
    let k = scalar(s, c);
    let ki = k.invm(&sp.n).unwrap();
    let q = sp.mul(&ki, &Some(r)).unwrap();
    dh_one(s, c, &k, &q)
}
fn base_rand(s: &mut Src) -> R { let c = s.pick(&C::ALL); let k = scalar(s, c); base_one(s, c, &k) }
/// all 1..=160 and n-160..=n-1 against several points
fn dh_small(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let i = s.idx / 2; let n = &c.sp().n;
    let k = if i < 160 { Nat::from_u64(i + 1) } else { n.sub(&Nat::from_u64(i % 160 + 1)) };
    base_one(s, c, &k)?;
    let p = if i % 3 == 0 { c.sp().g.clone() } else { point(s, c) };
    dh_one(s, c, &k, &p)
}
/// each (digit, position): d*2^i and n - d*2^i exercise single table entries of any window width
fn base_windows(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let j = s.idx / 2; let bits = (c.len() * 8) as u64;
    // stride through (position, digit) pairs
    let pos = j % bits; let dig = 1 + (j * 37 + j / bits) % 128;
    let k = Nat::from_u64(dig).shl(pos as usize);
    if !c.sp().scalar_ok(&k) { s.trivial(); return Ok(()) }
    base_one(s, c, &k)?;
    base_one(s, c, &c.sp().n.sub(&k))
}
fn dh_windows(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let j = s.idx / 2; let bits = (c.len() * 8) as u64;
    let pos = j % bits; let dig = 1 + (j * 11 + j / bits) % 32;
    let mut k = Nat::from_u64(dig).shl(pos as usize);
    if s.chance(1, 3) { k = k.add(&Nat::from_u64(1 + s.below(64)).shl(s.range(0, bits as usize - 8))) }
    if !c.sp().scalar_ok(&k) { s.trivial(); return Ok(()) }
    let p = point(s, c);
    dh_one(s, c, &k, &p)?;
    dh_one(s, c, &c.sp().n.sub(&k), &p)
}
fn dh_agree(s: &mut Src) -> R {
    let c = s.pick(&C::ALL);
    macro_rules! go { ($m:ident) => {{
        let a = ka::$m::PrivateKey::new_random().map_err(|e| format!("{e:?}"))?; let b = ka::$m::StaticPrivateKey::new_random().map_err(|e| format!("{e:?}"))?;
        let (pa, pb) = (a.public_key_uncompressed(), b.public_key_uncompressed());
        let za = a.diffie_hellman(&ka::$m::PublicKey::from_x962_uncompressed(&pb).unwrap()).map_err(|e| format!("{e:?}"))?;
        let zb = b.diffie_hellman(&ka::$m::PublicKey::from_x962_uncompressed(&pa).unwrap()).map_err(|e| format!("{e:?}"))?;
        eq!(za.0, zb.0, "parties disagree; b={}", hex(&b.as_bytes()));
        let want = c.sp().mul(&Nat::from_be(&b.as_bytes()), &c.sp().dec(&pa)).unwrap().0.to_be(c.len());
        eq!(zb.0, want, "ECDH b={} A={}", hex(&b.as_bytes()), hex(&pa));
    }} }
    match c { C::P256 => go!(p256), C::P384 => go!(p384) }
    Ok(())
}
pub fn c11() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("dh_small", 640, 0, dh_small), case("dh_target", 300, 2, dh_target), case("base_windows", 2500, 2, base_windows), case("dh_windows", 800, 2, dh_windows), case("dh_rand", 1000, 3, dh_rand), case("base_rand", 1000, 2, base_rand), case("dh_agree", 100, 1, dh_agree)];
    #[cfg(feature = "h_ec")]
    v.extend(hooked::cases());
    v
}

// ---- C12
fn sigf(c: C, r: &Nat, s: &Nat) -> Vec<u8> { [r.to_be(c.len()), s.to_be(c.len())].concat() }
fn hashes(s: &mut Src) -> H { s.pick(&H::ALL) }
fn both(s: &mut Src, c: C, h: H, q: &Pt, m: &[u8], r: &Nat, sv: &Nat, what: &str) -> R {
    let sp = c.sp(); let qe = sp.enc(q);
    let want = sp.verify(q.as_ref().unwrap(), &h.hash(m), r, sv);
    s.note = format!("{c:?} SHA-{} Q={} m={} r={} s={} ({what})", h.len() * 8, hex(&qe), hex(m), hex(&r.to_be_min()), hex(&sv.to_be_min()));
    let parts = s.split(m, 16);
    if r.bits() <= c.len() * 8 && sv.bits() <= c.len() * 8 {
        let g = real_verify(c, h, &qe, &parts, &sigf(c, r, sv), false)?;
        ck!(g == want, "{c:?} fixed verify: got {g} want {want} ({what})");
    }
    let g = real_verify(c, h, &qe, &parts, &gspec::der::enc_ecdsa_sig(r, sv), true)?;
    ck!(g == want, "{c:?} asn1 verify: got {g} want {want} ({what})");
    Ok(())
}
fn spec_sig(s: &mut Src, c: C, h: H, m: &[u8]) -> (Nat, Pt, Nat, Nat) {
    let sp = c.sp();
    loop {
        let d = scalar(s, c); let k = scalar(s, c);
        let q = sp.mul(&d, &sp.base());
        if let Some((r, sv)) = sp.sign(&d, &h.hash(m), &k) { return (d, q, r, sv) }
    }
}
fn ver_valid(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let h = hashes(s); let n = s.len(200); let m = s.bytes(n); let nn = c.sp().n.clone();
    let (_, q, r, sv) = spec_sig(s, c, h, &m);
    both(s, c, h, &q, &m, &r, &sv, "valid")?;
    both(s, c, h, &q, &m, &r, &nn.sub(&sv), "negated s")?;
    for _ in 0..4 {
        let (mut r2, mut s2, mut m2) = (r.clone(), sv.clone(), m.clone());
        let what = match s.below(12) {
            0 => { r2 = Nat::zero(); "r=0" } 1 => { s2 = Nat::zero(); "s=0" }
            2 => { r2 = nn.clone(); "r=n" } 3 => { s2 = nn.clone(); "s=n" }
            4 => { r2 = r.add(&nn); "r+n" } 5 => { s2 = sv.add(&nn); "s+n" }
            6 => { let mut b = r.to_be(c.len()); s.flip(&mut b); r2 = Nat::from_be(&b); "r bit flipped" }
            7 => { let mut b = sv.to_be(c.len()); s.flip(&mut b); s2 = Nat::from_be(&b); "s bit flipped" }
            8 => { if m2.is_empty() { m2.push(0) } else { s.flip(&mut m2); } "message changed" }
            9 => { std::mem::swap(&mut r2, &mut s2); "swapped" }
            10 => { r2 = Nat::one(); s2 = Nat::one(); "r=s=1" }
            _ => { r2 = c.sp().n.sub(&r); "negated r" }
        };
        both(s, c, h, &q, &m2, &r2, &s2, what)?;
    }
    Ok(())
}
/// signatures whose R has x >= n, so r = x - n
fn ver_big_x(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let sp = c.sp(); let h = hashes(s); let n = s.len(40); let m = s.bytes(n);
    let gap = sp.p.sub(&sp.n);
    let x = loop { let x = match s.below(3) { 0 => sp.n.add(&Nat::from_u64(1 + s.below(50))), 1 => sp.p.sub(&Nat::from_u64(1 + s.below(50))), _ => { let mut b = vec![0; c.len()]; s.fill(&mut b); sp.n.add(&Nat::from_be(&b).rem(&gap)) } }; if sp.lift_x(&x).is_some() { break x } };
    let rp = sp.lift_x(&x); let r = x.rem(&sp.n); if r.is_zero() { s.trivial(); return Ok(()) }
    let sv = scalar(s, c); let e = sp.e(&h.hash(&m)).rem(&sp.n);
    let ri = r.invm(&sp.n).unwrap();
    // Q = r^-1 (s R - e G)
    let q = sp.mul(&ri, &sp.add(&sp.mul(&sv, &rp), &sp.neg(&sp.mul(&e, &sp.base()))));
    if q.is_none() { s.trivial(); return Ok(()) }
    ck!(sp.verify(q.as_ref().unwrap(), &h.hash(&m), &r, &sv), "oracle self-check");
    both(s, c, h, &q, &m, &r, &sv, "x(R) >= n")?;
    both(s, c, h, &q, &m, &x, &sv, "r given unreduced")
}
/// u1 G = u2 Q (needs doubling) and u1 G = -u2 Q (point at infinity)
fn ver_coincide(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let sp = c.sp(); let h = hashes(s); let n = s.len(40); let m = s.bytes(n);
    let e = sp.e(&h.hash(&m)).rem(&sp.n);
    let k = scalar(s, c);
    let r = sp.mul(&k, &sp.base()).unwrap().0.rem(&sp.n); if r.is_zero() { return Ok(()) }
    let d = e.mulm(&r.invm(&sp.n).unwrap(), &sp.n);
    let ki = k.invm(&sp.n).unwrap();
    let sv = e.add(&e).mulm(&ki, &sp.n);
    let q = sp.mul(&d, &sp.base());
    if sv.is_zero() || q.is_none() { return Ok(()) }
    ck!(sp.verify(q.as_ref().unwrap(), &h.hash(&m), &r, &sv), "oracle self-check");
    both(s, c, h, &q, &m, &r, &sv, "u1*G == u2*Q")?;
    // infinity
    let q = sp.neg(&q);
    let sv = scalar(s, c);
    both(s, c, h, &q, &m, &r, &sv, "u1*G == -u2*Q")?;
    // and u1*G = +-2^k multiples of u2*Q: table coincidences
    Ok(())
}
/// tiny and huge private keys/nonces: Q = +-dG for small d, s and r extreme
fn ver_small(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let sp = c.sp(); let h = hashes(s); let n = s.len(40); let m = s.bytes(n);
    let d = Nat::from_u64(1 + s.below(40)); let d = if s.chance(1, 2) { sp.n.sub(&d) } else { d };
    let k = Nat::from_u64(1 + s.below(40)); let k = if s.chance(1, 2) { sp.n.sub(&k) } else { k };
    let q = sp.mul(&d, &sp.base());
    if let Some((r, sv)) = sp.sign(&d, &h.hash(&m), &k) { both(s, c, h, &q, &m, &r, &sv, "small d,k")?; }
    // u2 small / u1 small: pick u1,u2, R = u1 G + u2 Q, r = x(R), s = r/u2; needs e = u1 s, so solve Q instead
    let u2 = scalar(s, c); let u1 = scalar(s, c);
    // choose Q = tG, R = (u1 + u2 t)G ; want e = u1*s, s = r/u2 -> e = u1 r / u2 ; with e fixed pick u1 = e u2 / r after R... iterate on R = wG
    let w = scalar(s, c); let r = sp.mul(&w, &sp.base()).unwrap().0.rem(&sp.n); if r.is_zero() { return Ok(()) }
    let _ = u1;
    let sv = r.mulm(&u2.invm(&sp.n).unwrap(), &sp.n);
    let e = sp.e(&h.hash(&m)).rem(&sp.n);
    let u1 = e.mulm(&sv.invm(&sp.n).unwrap(), &sp.n);
    let t = w.subm(&u1, &sp.n).mulm(&u2.invm(&sp.n).unwrap(), &sp.n);
    if let Some(q) = sp.mul(&t, &sp.base()) { both(s, c, h, &Some(q), &m, &r, &sv, "chosen u2")?; }
    Ok(())
}
/// encodings: DER variants and wrong lengths of a valid signature
fn ver_enc(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let h = hashes(s); let n = s.len(60); let m = s.bytes(n); let sp = c.sp();
    let (_, q, r, sv) = spec_sig(s, c, h, &m);
    let qe = sp.enc(&q); let f = sigf(c, &r, &sv); let der = gspec::der::enc_ecdsa_sig(&r, &sv);
    s.note = format!("{c:?} Q={} m={} sig={}", hex(&qe), hex(&m), hex(&f));
    for l in 0..f.len() { ck!(!real_verify(c, h, &qe, &[&m], &f[..l], false)?, "{c:?} accepted fixed signature truncated to {l}"); }
    for l in 1..4 { let mut g = f.clone(); g.extend(vec![0; l]); ck!(!real_verify(c, h, &qe, &[&m], &g, false)?, "{c:?} accepted fixed signature extended by {l}"); let mut g = vec![0; l]; g.extend_from_slice(&f); ck!(!real_verify(c, h, &qe, &[&m], &g, false)?, "{c:?} accepted fixed signature prefixed by {l}"); }
    let mut muts: Vec<(Vec<u8>, &str)> = vec![];
    for l in 0..der.len() { muts.push((der[..l].to_vec(), "DER truncated")); }
    muts.push(([der.clone(), vec![0]].concat(), "DER trailing byte"));
    use gspec::der as D;
    let ri = D::int(&r); let si = D::int(&sv);
    let padi = |n: &Nat| { let mut b = n.to_be_min(); if b.is_empty() || b[0] & 0x80 != 0 { b.insert(0, 0) } b.insert(0, 0); D::tlv(2, &b) };
    let nopad = |n: &Nat| D::tlv(2, &n.to_be_min());
    muts.push((D::seq(&[&padi(&r), &si]), "r padded")); muts.push((D::seq(&[&ri, &padi(&sv)]), "s padded"));
    muts.push((D::seq(&[&nopad(&r), &si]), "r raw")); muts.push((D::seq(&[&ri, &nopad(&sv)]), "s raw"));
    muts.push((D::seq(&[&ri, &si, &[5, 0]]), "extra NULL")); muts.push((D::seq(&[&ri, &si, &si]), "extra INTEGER")); muts.push((D::seq(&[&ri]), "missing s"));
    muts.push((D::tlv(0x31, &[ri.clone(), si.clone()].concat()), "SET")); muts.push((D::tlv(0x10, &[ri.clone(), si.clone()].concat()), "primitive SEQUENCE"));
    let body = [ri.clone(), si.clone()].concat();
    muts.push(([vec![0x30, 0x81, body.len() as u8], body.clone()].concat(), "long-form length")); muts.push(([vec![0x30, 0x82, 0, body.len() as u8], body.clone()].concat(), "two-byte length"));
    muts.push(([vec![0x30, 0x80], body.clone(), vec![0, 0]].concat(), "indefinite length"));
    { let rb = &ri[2..]; muts.push((D::seq(&[&[vec![2, 0x81, rb.len() as u8], rb.to_vec()].concat(), &si]), "r long-form length")); }
    muts.push((D::seq(&[&D::int(&r.add(&sp.n)), &si]), "r+n")); muts.push((D::seq(&[&ri, &D::int(&sv.add(&sp.n))]), "s+n"));
    muts.push((D::seq(&[&[2, 0], &si]), "empty r")); muts.push((D::seq(&[&ri, &[2, 0]]), "empty s"));
    muts.push((D::seq(&[&D::int(&r.add(&Nat::one().shl(c.len() * 8))), &si]), "r + 2^len")); muts.push((D::seq(&[&ri, &D::int(&sv.add(&Nat::one().shl(c.len() * 8 + 8)))]), "s + 2^(len+8)"));
    for _ in 0..20 { let mut g = der.clone(); s.flip(&mut g); muts.push((g, "DER bit flip")); }
    for (b, w) in muts {
        let want = match D::ecdsa_sig(&b) { None => false, Some((r, sv)) => sp.verify(q.as_ref().unwrap(), &h.hash(&m), &r, &sv) };
        let got = real_verify(c, h, &qe, &[&m], &b, true)?;
        ck!(got == want, "{c:?} asn1 {w}: got {got} want {want}: {}", hex(&b));
    }
    ck!(real_verify(c, h, &qe, &[&m], &der, true)?, "valid DER rejected");
    Ok(())
}
/// signatures with short r or s (leading zero bytes), in DER and fixed form
fn ver_short(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let sp = c.sp(); let h = hashes(s); let n = s.len(40); let m = s.bytes(n);
    // choose small x for R
    let x = loop { let x = Nat::from_u64(1 + s.below(5000)).shl(8 * s.below(3) as usize); if sp.lift_x(&x).is_some() { break x } };
    let rp = sp.lift_x(&x); let r = x.clone();
    let sv = match s.below(3) { 0 => Nat::from_u64(1 + s.below(300)), 1 => Nat::from_u64(128 + s.below(128)).shl(8 * s.range(0, c.len() - 2)), _ => scalar(s, c) };
    let e = sp.e(&h.hash(&m)).rem(&sp.n);
    let q = sp.mul(&r.invm(&sp.n).unwrap(), &sp.add(&sp.mul(&sv, &rp), &sp.neg(&sp.mul(&e, &sp.base()))));
    if q.is_none() { return Ok(()) }
    ck!(sp.verify(q.as_ref().unwrap(), &h.hash(&m), &r, &sv), "oracle self-check");
    both(s, c, h, &q, &m, &r, &sv, "short r/s")
}
fn ver_garbage(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let h = hashes(s); let q = point(s, c); let qe = c.sp().enc(&Some(q.clone()));
    let l = if s.chance(1, 2) { c.len() * 2 } else { s.range(0, 140) };
    let mut b = s.bytes(l);
    if s.chance(1, 3) && l > 4 { b[0] = 0x30; b[1] = (l - 2) as u8; b[2] = 2; b[3] = s.below(l as u64) as u8 }
    s.note = format!("{c:?} Q={} sig={}", hex(&qe), hex(&b));
    let want_f = b.len() == 2 * c.len() && c.sp().verify(&q, &h.hash(b"m"), &Nat::from_be(&b[..c.len()]), &Nat::from_be(&b[c.len()..]));
    ck!(real_verify(c, h, &qe, &[b"m"], &b, false)? == want_f, "fixed garbage");
    let want_a = gspec::der::ecdsa_sig(&b).map_or(false, |(r, sv)| c.sp().verify(&q, &h.hash(b"m"), &r, &sv));
    ck!(real_verify(c, h, &qe, &[b"m"], &b, true)? == want_a, "asn1 garbage");
    Ok(())
}
pub fn c12() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("ver_big_x", 60, 1, ver_big_x), case("ver_coincide", 80, 1, ver_coincide), case("ver_small", 100, 1, ver_small), case("ver_short", 200, 1, ver_short), case("ver_enc", 30, 1, ver_enc), case("ver_valid", 200, 3, ver_valid), case("ver_garbage", 300, 1, ver_garbage)];
    #[cfg(feature = "h_ec")]
    v.extend(hooked::vcases());
    v
}

// ---- C13
fn sign_valid(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let h = hashes(s); let n = s.len(300); let m = s.bytes(n); let sp = c.sp();
    let d = scalar(s, c); let db = d.to_be(c.len()); let q = sp.mul(&d, &sp.base()).unwrap();
    s.note = format!("{c:?} SHA-{} d={} m={}", h.len() * 8, hex(&db), hex(&m));
    let parts = s.split(&m, 64);
    let extra = s.range(0, 9);
    let mut buf = vec![0xa5u8; 2 * c.len() + extra];
    let sig = real_sign(c, h, &db, &parts, &mut buf, false)?;
    ck!(sig.len() == 2 * c.len(), "{c:?} signature length {}", sig.len());
    eq!(buf[..sig.len()], sig, "signature range"); ck!(buf[sig.len()..].iter().all(|x| *x == 0xa5), "sign wrote past the signature");
    let (r, sv) = (Nat::from_be(&sig[..c.len()]), Nat::from_be(&sig[c.len()..]));
    ck!(sp.verify(&q, &h.hash(&m), &r, &sv), "{c:?} produced an invalid signature {}", hex(&sig));
    // fresh randomness: a second signature has a different nonce
    let mut buf2 = vec![0u8; 2 * c.len()];
    let sig2 = real_sign(c, h, &db, &parts, &mut buf2, false)?;
    ck!(sig2[..c.len()] != sig[..c.len()], "{c:?} nonce repeated for the same message");
    let mut m3 = m.clone(); m3.push(1);
    let sig3 = real_sign(c, h, &db, &[&m3], &mut buf2, false)?;
    ck!(sig3[..c.len()] != sig[..c.len()] && sig3[..c.len()] != sig2[..c.len()], "{c:?} nonce repeated for different messages");
    // DER
    let mut buf = vec![0xa5u8; 120];
    let sig = real_sign(c, h, &db, &parts, &mut buf, true)?;
    eq!(buf[..sig.len()], sig, "DER signature range"); ck!(buf[sig.len()..].iter().all(|x| *x == 0xa5), "sign_asn1 wrote past the signature");
    match gspec::der::ecdsa_sig(&sig) { None => return Err(format!("{c:?} not strict DER: {}", hex(&sig))), Some((r, sv)) => ck!(sp.verify(&q, &h.hash(&m), &r, &sv), "{c:?} invalid DER signature {}", hex(&sig)) }
    ck!(real_verify(c, h, &sp.enc(&Some(q)), &[&m], &sig, true)?, "{c:?} own verifier rejects");
    Ok(())
}
/// every buffer size
fn sign_bufs(s: &mut Src) -> R {
    let c = C::ALL[(s.idx % 2) as usize]; let h = hashes(s); let sp = c.sp();
    let d = scalar(s, c); let db = d.to_be(c.len()); let q = sp.mul(&d, &sp.base()).unwrap();
    let m = s.rnd::<20>();
    for l in 0..2 * c.len() + 12 {
        let mut buf = vec![0xa5u8; l];
        match real_sign(c, h, &db, &[&m], &mut buf, false) {
            Ok(sig) => { ck!(l >= 2 * c.len() && sig.len() == 2 * c.len(), "{c:?} sign into {l} bytes returned {} bytes", sig.len()); ck!(sp.verify(&q, &h.hash(&m), &Nat::from_be(&sig[..c.len()]), &Nat::from_be(&sig[c.len()..])), "bad signature") }
            Err(_) => ck!(l < 2 * c.len(), "{c:?} sign into {l} bytes failed"),
        }
        let mut buf = vec![0xa5u8; l];
        match real_sign(c, h, &db, &[&m], &mut buf, true) {
            Ok(sig) => match gspec::der::ecdsa_sig(&sig) { None => return Err(format!("{c:?} sign_asn1 into {l} bytes: not DER: {}", hex(&sig))), Some((r, sv)) => ck!(sp.verify(&q, &h.hash(&m), &r, &sv), "{c:?} sign_asn1 into {l} bytes: invalid") },
            Err(_) => ck!(l < 2 * c.len() + 8, "{c:?} sign_asn1 into {l} bytes failed"),
        }
    }
    Ok(())
}
/// many signatures: short r/s and high-bit encodings
fn sign_many(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let h = hashes(s); let d = scalar(s, c); let db = d.to_be(c.len());
    let qe = real_pub(c, &db); let m = s.rnd::<8>();
    for _ in 0..100 {
        let mut buf = [0u8; 120];
        let sig = real_sign(c, h, &db, &[&m], &mut buf, true)?;
        ck!(gspec::der::ecdsa_sig(&sig).is_some(), "{c:?} not strict DER: {}", hex(&sig));
        ck!(real_verify(c, h, &qe, &[&m], &sig, true)?, "{c:?} signature rejected: d={} m={} sig={}", hex(&db), hex(&m), hex(&sig));
        let mut buf = [0u8; 96];
        let sig = real_sign(c, h, &db, &[&m], &mut buf, false)?;
        ck!(real_verify(c, h, &qe, &[&m], &sig, false)?, "{c:?} signature rejected: d={} m={} sig={}", hex(&db), hex(&m), hex(&sig));
    }
    Ok(())
}
pub fn c13() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("sign_bufs", 12, 0, sign_bufs), case("sign_many", 60, 2, sign_many), case("sign_valid", 200, 3, sign_valid)];
    #[cfg(feature = "h_ec")]
    v.extend(hooked::scases());
    v
}

#[cfg(feature = "h_ec")]
mod hooked {
    use super::*;
    extern "Rust" {
        fn gvd_p256_raw_verify(q: &[u8], r: &[u8; 32], s: &[u8; 32], e: &[u8; 32]) -> bool;
        fn gvd_p384_raw_verify(q: &[u8], r: &[u8; 48], s: &[u8; 48], e: &[u8; 48]) -> bool;
        fn gvd_p256_raw_sign(d: &[u8; 32], k: &[u8; 32], e: &[u8; 32]) -> ([u8; 32], [u8; 32]);
        fn gvd_p384_raw_sign(d: &[u8; 48], k: &[u8; 48], e: &[u8; 48]) -> ([u8; 48], [u8; 48]);
        fn gvd_p256_generate(rng: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<[u8; 32]>;
        fn gvd_p384_generate(rng: &mut dyn FnMut(&mut [u8]) -> bool) -> Option<[u8; 48]>;
        fn gvd_p256_scalar_reduced(b: &[u8]) -> Option<[u8; 32]>;
        fn gvd_p384_scalar_reduced(b: &[u8]) -> Option<[u8; 48]>;
        fn gvd_p256_public_base(k: &[u8; 32]) -> Vec<u8>;
        fn gvd_p384_public_base(k: &[u8; 48]) -> Vec<u8>;
        fn gvd_p256_public_mul(k: &[u8; 32], q: &[u8]) -> Vec<u8>;
        fn gvd_p384_public_mul(k: &[u8; 48], q: &[u8]) -> Vec<u8>;
        fn gvd_ecdsa_rfc6979(curve: u8, hash: u8, d: &[u8], m: &[&[u8]], random: &[u8], out: &mut [u8]) -> usize;
        fn gvd_hmac_drbg(hash: u8, a: &[u8], b: &[u8], c: &[u8], outs: &mut [&mut [u8]]);
    }
    fn a<const N: usize>(n: &Nat) -> [u8; N] { n.to_be(N).try_into().unwrap() }
    fn raw_v(c: C, q: &[u8], r: &Nat, s: &Nat, e: &Nat) -> bool { unsafe { match c { C::P256 => gvd_p256_raw_verify(q, &a(r), &a(s), &a(e)), C::P384 => gvd_p384_raw_verify(q, &a(r), &a(s), &a(e)) } } }
    fn spec_raw(c: C, q: &(Nat, Nat), r: &Nat, s: &Nat, e: &Nat) -> bool {
        let sp = c.sp(); let si = s.invm(&sp.n).unwrap();
        let (u1, u2) = (e.mulm(&si, &sp.n), r.mulm(&si, &sp.n));
        match sp.add(&sp.mul(&u1, &sp.base()), &sp.mul(&u2, &Some(q.clone()))) { None => false, Some((x, _)) => x.rem(&sp.n) == *r }
    }
    /// arbitrary e including zero; R known
    fn raw_verify(s: &mut Src) -> R {
        let c = s.pick(&C::ALL); let sp = c.sp();
        let e = match s.below(4) { 0 => Nat::zero(), 1 => Nat::from_u64(s.below(40)), 2 => sp.n.sub(&Nat::from_u64(1 + s.below(40))), _ => scalar(s, c) };
        let d = scalar(s, c); let k = scalar(s, c);
        let q = sp.mul(&d, &sp.base()).unwrap();
        let r = sp.mul(&k, &sp.base()).unwrap().0.rem(&sp.n);
        let sv = k.invm(&sp.n).unwrap().mulm(&e.add(&r.mul(&d)), &sp.n);
        if r.is_zero() || sv.is_zero() { return Ok(()) }
        let qe = sp.enc(&Some(q.clone()));
        s.note = format!("{c:?} Q={} r={} s={} e={}", hex(&qe), hex(&r.to_be_min()), hex(&sv.to_be_min()), hex(&e.to_be_min()));
        ck!(raw_v(c, &qe, &r, &sv, &e), "{c:?} raw verify rejected a valid signature: {}", s.note);
        let (r2, s2, e2) = (scalar(s, c), scalar(s, c), scalar(s, c));
        for (r, sv, e) in [(&r2, &sv, &e), (&r, &s2, &e), (&r, &sv, &e2)] { let w = spec_raw(c, &q, r, sv, e); ck!(raw_v(c, &qe, r, sv, e) == w, "{c:?} raw verify want {w}: {}", s.note); }
        // u1 = small multiples so that windowed accumulators meet
        let u1 = Nat::from_u64(s.below(70)); let u2 = Nat::from_u64(1 + s.below(70)); let t = Nat::from_u64(1 + s.below(70));
        let q = sp.mul(&t, &sp.base()).unwrap(); let q = if s.chance(1, 2) { sp.neg(&Some(q)).unwrap() } else { q };
        if let Some(rp) = sp.add(&sp.mul(&u1, &sp.base()), &sp.mul(&u2, &Some(q.clone()))) {
            let r = rp.0.rem(&sp.n); let sv = r.mulm(&u2.invm(&sp.n).unwrap(), &sp.n); let e = u1.mulm(&sv, &sp.n);
            ck!(raw_v(c, &sp.enc(&Some(q)), &r, &sv, &e), "{c:?} raw verify rejected u1={:?} u2={:?} t={:?}", u1.0, u2.0, t.0);
        }
        Ok(())
    }
    /// variable-time multiplications used by verification
    fn pub_mul(s: &mut Src) -> R {
        let c = s.pick(&C::ALL); let sp = c.sp(); let k = if s.chance(1, 30) { Nat::zero() } else { scalar(s, c) }; let q = point(s, c); let qe = sp.enc(&Some(q.clone()));
        let e = |p: &Pt| match p { None => vec![0], Some(_) => sp.enc(p) };
        s.note = format!("{c:?} k={} Q={}", hex(&k.to_be_min()), hex(&qe));
        let (b, m) = unsafe { match c { C::P256 => (gvd_p256_public_base(&a(&k)), gvd_p256_public_mul(&a(&k), &qe)), C::P384 => (gvd_p384_public_base(&a(&k)), gvd_p384_public_mul(&a(&k), &qe)) } };
        eq!(b, e(&sp.mul(&k, &sp.base())), "{c:?} public base multiply by {}", hex(&k.to_be_min()));
        eq!(m, e(&sp.mul(&k, &Some(q))), "{c:?} public multiply by {}", hex(&k.to_be_min()));
        Ok(())
    }
    pub fn vcases() -> Vec<Case> { vec![case("h_raw_verify", 200, 2, raw_verify), case("h_pub_mul", 600, 2, pub_mul)] }
    pub fn cases() -> Vec<Case> { vec![case("h_scalar", 2000, 1, scalar_red)] }
    fn scalar_red(s: &mut Src) -> R {
        let c = s.pick(&C::ALL); let sp = c.sp();
        let l = if s.chance(1, 2) { c.len() } else { s.range(0, c.len()) };
        let mut b = s.bytes(l);
        if l == c.len() { match s.below(4) { 0 => b = sp.n.to_be(l), 1 => b = sp.n.sub(&Nat::from_u64(s.below(9))).to_be(l), 2 => b = sp.n.add(&Nat::from_u64(s.below(9))).to_be(l), _ => {} } }
        let want = Nat::from_be(&b).rem(&sp.n).to_be(c.len());
        let got = unsafe { match c { C::P256 => gvd_p256_scalar_reduced(&b).map(|x| x.to_vec()), C::P384 => gvd_p384_scalar_reduced(&b).map(|x| x.to_vec()) } };
        match got { None => return Err(format!("{c:?} from_bytes_reduced failed on {}", hex(&b))), Some(g) => eq!(g, want, "{c:?} reduce {}", hex(&b)) }
        Ok(())
    }
    fn raw_sign(s: &mut Src) -> R {
        let c = s.pick(&C::ALL); let sp = c.sp(); let d = scalar(s, c); let k = scalar(s, c);
        let e = match s.below(4) { 0 => Nat::zero(), 1 => sp.n.sub(&Nat::from_u64(1 + s.below(3))), _ => scalar(s, c) };
        s.note = format!("{c:?} d={} k={} e={}", hex(&d.to_be_min()), hex(&k.to_be_min()), hex(&e.to_be_min()));
        let (r, sv) = unsafe { match c { C::P256 => { let (r, s) = gvd_p256_raw_sign(&a(&d), &a(&k), &a(&e)); (r.to_vec(), s.to_vec()) } C::P384 => { let (r, s) = gvd_p384_raw_sign(&a(&d), &a(&k), &a(&e)); (r.to_vec(), s.to_vec()) } } };
        let wr = sp.mul(&k, &sp.base()).unwrap().0.rem(&sp.n);
        let ws = k.invm(&sp.n).unwrap().mulm(&e.add(&wr.mul(&d)), &sp.n);
        eq!(r, wr.to_be(c.len()), "r"); eq!(sv, ws.to_be(c.len()), "s: {}", s.note);
        Ok(())
    }
    /// key/nonce generation from a scripted random source: out-of-range candidates are skipped, never reduced
    fn generate(s: &mut Src) -> R {
        let c = s.pick(&C::ALL); let sp = c.sp(); let l = c.len();
        let bad = s.pick(&[0usize, 1, 2, 3, 62, 63, 64, 65]);
        let mut script: Vec<Vec<u8>> = vec![];
        for _ in 0..bad { let n = match s.below(5) { 0 => Nat::zero(), 1 => sp.n.clone(), 2 => sp.n.add(&Nat::from_u64(s.below(1000))), 3 => Nat::one().shl(l * 8).sub(&Nat::from_u64(1 + s.below(5))), _ => sp.p.clone() }; script.push(n.to_be(l)); }
        let good = scalar(s, c); script.push(good.to_be(l));
        let mut i = 0usize; let mut fed = vec![];
        let fail_at = if s.chance(1, 5) { s.range(0, bad) } else { usize::MAX };
        let mut f = |o: &mut [u8]| -> bool { if i == fail_at || i >= script.len() || o.len() != l { return false } o.copy_from_slice(&script[i]); fed.push(i); i += 1; true };
        let got = unsafe { match c { C::P256 => gvd_p256_generate(&mut f).map(|x| x.to_vec()), C::P384 => gvd_p384_generate(&mut f).map(|x| x.to_vec()) } };
        match got {
            Some(k) => { ck!(fail_at > bad, "{c:?} key generated although the random source failed"); eq!(k, good.to_be(l), "{c:?} generated key after {bad} bad candidates") }
            None => ck!(bad >= 64 || fail_at <= bad, "{c:?} generation failed after {bad} bad candidates"),
        }
        Ok(())
    }
    fn drbg(s: &mut Src) -> R {
        let hi = s.below(3) as usize; let h = H::ALL[hi];
        let (x, y, z) = (1 + s.len(100), s.len(100), s.len(40)); let (x, y, z) = (s.bytes(x), s.bytes(y), s.bytes(z));
        let mut d = gspec::hash::Drbg::new(h, &[x.clone(), y.clone(), z.clone()].concat());
        let n = s.range(1, 4); let ls: Vec<usize> = (0..n).map(|_| s.range(1, 200)).collect();
        let mut outs: Vec<Vec<u8>> = ls.iter().map(|l| vec![0; *l]).collect();
        { let mut o: Vec<&mut [u8]> = outs.iter_mut().map(|x| &mut x[..]).collect(); unsafe { gvd_hmac_drbg(hi as u8, &x, &y, &z, &mut o) } }
        s.note = format!("HMAC-DRBG SHA-{} {} {} {}", h.len() * 8, hex(&x), hex(&y), hex(&z));
        for (o, l) in outs.iter().zip(&ls) { eq!(o, d.gen(*l), "DRBG output: {}", s.note) }
        Ok(())
    }
    /// nonce = HMAC-DRBG(key, e mod n, randomness) with rejection; whole signature reproduced
    fn rfc6979(s: &mut Src) -> R {
        let ci = s.below(2) as usize; let c = C::ALL[ci]; let hi = s.below(3) as usize; let h = H::ALL[hi]; let sp = c.sp(); let l = c.len();
        let d = scalar(s, c); let n = s.len(100); let m = s.bytes(n); let rl = s.pick(&[0usize, 16, 16, 32]); let rnd = s.bytes(rl);
        let mut out = vec![0u8; 2 * l];
        s.note = format!("{c:?} SHA-{} d={} m={} rnd={}", h.len() * 8, hex(&d.to_be(l)), hex(&m), hex(&rnd));
        let got = unsafe { gvd_ecdsa_rfc6979(ci as u8, hi as u8, &d.to_be(l), &[&m], &rnd, &mut out) };
        ck!(got == 2 * l, "sign failed");
        let e = sp.e(&h.hash(&m)).rem(&sp.n);
        let mut g = gspec::hash::Drbg::new(h, &[d.to_be(l), e.to_be(l), rnd].concat());
        let k = loop { let k = Nat::from_be(&g.gen(l)); if sp.scalar_ok(&k) { break k } };
        let (r, sv) = sp.sign(&d, &h.hash(&m), &k).unwrap();
        eq!(out, sigf(c, &r, &sv), "RFC 6979 signature: {}", s.note);
        Ok(())
    }
    pub fn scases() -> Vec<Case> { vec![case("h_raw_sign", 400, 2, raw_sign), case("h_generate", 1000, 1, generate), case("h_drbg", 1000, 1, drbg), case("h_rfc6979", 300, 2, rfc6979)] }
}
