use crate::core::*;
use graviola::key_agreement::x25519::{PrivateKey, PublicKey, StaticPrivateKey};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use gspec::ed25519::Ed;
use gspec::nat::Nat;
use gspec::x25519;

/// a field element encoding: canonical, non-canonical, near 0 and p, low order (on the curve or twist), top bit set or not
fn felt(s: &mut Src) -> [u8; 32] {
    let p = x25519::p();
    let low = ["0", "1", "325606250916557431795983626356110631294008115727848805560023387167927233504", "39382357235489614581723060781553021112529911719440698176882885853963445705823"];
    let mut b: [u8; 32] = match s.below(9) {
        0 => { let mut n = Nat::zero(); for c in s.pick(&low).bytes() { n = n.mul(&Nat::from_u64(10)).add(&Nat::from_u64((c - b'0') as u64)) } n.to_le(32).try_into().unwrap() }
        1 => { let k = s.below(40); p.sub(&Nat::from_u64(20)).add(&Nat::from_u64(k)).to_le(32).try_into().unwrap() }
        2 => Nat::from_u64(s.below(40)).to_le(32).try_into().unwrap(),
        3 => Nat::from_limbs(&s.words(4)).to_le(32).try_into().unwrap(),
        4 => { let i = s.range(1, 255); Nat::one().shl(i).sub(&Nat::from_u64(s.below(2))).to_le(32).try_into().unwrap() }
        5 => s.arr(),
        _ => s.rnd(),
    };
    if s.chance(1, 3) { b[31] |= 0x80 }
    b
}
fn scal(s: &mut Src) -> [u8; 32] {
    match s.below(6) {
        0 => Nat::from_u64(s.below(64)).to_le(32).try_into().unwrap(),
        1 => [0xff; 32],
        2 => Nat::from_limbs(&s.words(4)).to_le(32).try_into().unwrap(),
        3 => { let l = Ed::get().l.clone(); let k = Nat::from_u64(8 * (1 + s.below(7))); l.mul(&k).add(&Nat::from_u64(s.below(17))).sub(&Nat::from_u64(8)).rem(&Nat::one().shl(256)).to_le(32).try_into().unwrap() }
        _ => s.rnd(),
    }
}
fn c14_dh(s: &mut Src) -> R {
    let k = scal(s); let u = felt(s);
    s.note = format!("k={} u={}", hex(&k), hex(&u));
    let want = x25519::x25519(&k, &u);
    let sk = if s.chance(1, 2) { StaticPrivateKey::from_array(&k) } else { StaticPrivateKey::try_from_slice(&k).map_err(|e| format!("{e:?}"))? };
    let pk = if s.chance(1, 2) { PublicKey::from_array(&u) } else { PublicKey::try_from_slice(&u).map_err(|e| format!("{e:?}"))? };
    eq!(sk.as_bytes(), k, "private key bytes"); eq!(pk.as_bytes(), u, "public key bytes");
    for _ in 0..2 {
        match sk.diffie_hellman(&pk) {
            Ok(x) => { ck!(want != [0; 32], "all-zero shared secret returned {}", s.note); eq!(x.0, want, "shared secret {}", s.note); eq!(x.as_bytes(), want, "as_bytes") }
            Err(e) => ck!(want == [0; 32], "{e:?} but the shared secret is {} {}", hex(&want), s.note),
        }
    }
    Ok(())
}
fn c14_base(s: &mut Src) -> R {
    let k = scal(s); s.note = hex(&k);
    eq!(StaticPrivateKey::from_array(&k).public_key().as_bytes(), x25519::base(&k), "public key of {}", s.note);
    Ok(())
}
fn c14_random(s: &mut Src) -> R {
    let a = PrivateKey::new_random().unwrap(); let b = StaticPrivateKey::new_random().unwrap();
    let (pa, pb) = (a.public_key(), b.public_key());
    let want = x25519::x25519(&b.as_bytes(), &pa.as_bytes());
    eq!(pb.as_bytes(), x25519::base(&b.as_bytes()), "generated public key");
    eq!(a.diffie_hellman(&pb).map_err(|e| format!("{e:?}"))?.0, want, "ephemeral side");
    eq!(b.diffie_hellman(&pa).map_err(|e| format!("{e:?}"))?.0, want, "static side");
    let n = s.range(0, 66); let v = vec![9u8; n];
    ck!(PublicKey::try_from_slice(&v).is_ok() == (n == 32), "public key of {n} bytes");
    ck!(StaticPrivateKey::try_from_slice(&v).is_ok() == (n == 32), "private key of {n} bytes");
    Ok(())
}
/// shared secrets with zero words are still valid secrets: search for inputs giving a chosen u
fn c14_sparse(s: &mut Src) -> R {
    // choose the wanted result w (sparse), then u = x25519-inverse: multiply w by k^-1 mod (8l): only for points on the curve/twist of prime order
    let l = if s.chance(1, 2) { Ed::get().l.clone() } else {
        Nat::one().shl(253).sub(&Nat::from_hex("29bdf3bd45ef39acb024c634b9eba7e3").mul(&Nat::from_u64(2))).add(&Nat::zero()) };
    let w: [u8; 32] = match s.below(4) { 0 => Nat::one().shl(s.range(0, 254)).to_le(32).try_into().unwrap(), 1 => { let mut b = [0u8; 32]; b[s.range(0, 31)] = s.u64() as u8; b[31] &= 0x7f; b }, 2 => { let mut b = [0u8; 32]; let i = s.range(0, 3) * 8; let w = s.word().to_le_bytes(); b[i..i + 8].copy_from_slice(&w); b[31] &= 0x7f; b } _ => { let mut b = [0u8; 32]; b[0] = s.below(250) as u8; b } };
    // k = 8t: u := [t'] w with 8t * t' = 1 mod l
    let mut k = scal(s); k[0] &= 248; k[31] &= 63; k[31] |= 64;
    let Some(inv) = Nat::from_le(&k).rem(&l).invm(&l) else { s.trivial(); return Ok(()) };
    let u = ladder(&inv, &w);
    s.note = format!("k={} u={} w={}", hex(&k), hex(&u), hex(&w));
    let want = x25519::x25519(&k, &u);
    if want != w { s.trivial() }
    match StaticPrivateKey::from_array(&k).diffie_hellman(&PublicKey::from_array(&u)) {
        Ok(x) => { ck!(want != [0; 32], "all-zero result returned {}", s.note); eq!(x.0, want, "{}", s.note) }
        Err(e) => ck!(want == [0; 32], "{e:?} though the result is not zero {}", s.note),
    }
    Ok(())
}
/// unclamped Montgomery ladder
fn ladder(k: &Nat, u: &[u8; 32]) -> [u8; 32] {
    let p = x25519::p(); let m = gspec::nat::Mont::new(&p);
    let x1 = m.enter(&Nat::from_le(u).rem(&p)); let a24 = m.enter(&Nat::from_u64(121665));
    let (mut x2, mut z2, mut x3, mut z3) = (m.one(), m.zero(), x1.clone(), m.one());
    for t in (0..256).rev() {
        let b = k.bit(t);
        if b { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3) }
        let a = m.add(&x2, &z2); let aa = m.mul(&a, &a); let bb = m.sub(&x2, &z2); let b2 = m.mul(&bb, &bb); let e = m.sub(&aa, &b2);
        let c = m.add(&x3, &z3); let d = m.sub(&x3, &z3); let da = m.mul(&d, &a); let cb = m.mul(&c, &bb);
        let t1 = m.add(&da, &cb); x3 = m.mul(&t1, &t1); let t2 = m.sub(&da, &cb); z3 = m.mul(&x1, &m.mul(&t2, &t2));
        x2 = m.mul(&aa, &b2); z2 = m.mul(&e, &m.add(&aa, &m.mul(&a24, &e)));
        if b { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3) }
    }
    if m.is_zero(&z2) { return [0; 32] }
    m.leave(&m.mul(&x2, &m.inv(&z2))).to_le(32).try_into().unwrap()
}

pub fn c14() -> Vec<Case> { vec![case("dh", 400, 6, c14_dh), case("base", 150, 2, c14_base), case("generated", 30, 1, c14_random), case("sparse-result", 200, 2, c14_sparse)] }

// ---------------------------------------------------------------- Ed25519
fn msg(s: &mut Src) -> Vec<u8> { let n = s.len(400); s.bytes(n) }
fn c15_sign(s: &mut Src) -> R {
    let seed: [u8; 32] = s.arr(); let m = msg(s); s.note = format!("seed={} m={}", hex(&seed), hex(&m));
    let e = Ed::get(); let k = Ed25519SigningKey::from_bytes(&seed).map_err(|e| format!("{e:?}"))?;
    eq!(k.as_seed(), seed, "seed"); let pk = e.public(&seed);
    eq!(k.public_key().as_bytes(), pk, "public key {}", s.note);
    let sig = k.sign(&m); eq!(sig, e.sign(&seed, &m), "signature {}", s.note); eq!(k.sign(&m), sig, "second signature differs {}", s.note);
    ck!(k.public_key().verify(&sig, &m).is_ok(), "own signature {}", s.note);
    ck!(Ed25519VerifyingKey::from_bytes(&pk).map_err(|e| format!("{e:?}"))?.verify(&sig, &m).is_ok(), "signature under the encoded key {}", s.note);
    Ok(())
}
/// candidate signatures around valid ones
fn c15_verify(s: &mut Src) -> R {
    let e = Ed::get(); let seed: [u8; 32] = s.arr(); let m = msg(s);
    let k = Ed25519SigningKey::from_bytes(&seed).unwrap(); let mut pk = e.public(&seed); let mut sig = e.sign(&seed, &m).to_vec(); let mut m2 = m.clone();
    let sv = Nat::from_le(&sig[32..]);
    match s.below(13) {
        0 => {}
        1 => { let i = s.flip(&mut sig); let _ = i; }
        2 => { let j = 1 + s.below(15); let v = sv.add(&e.l.mul(&Nat::from_u64(j))); if v.bits() > 256 { s.trivial(); return Ok(()) } sig[32..].copy_from_slice(&v.to_le(32)) }
        3 => { let v = e.l.sub(&sv); sig[32..].copy_from_slice(&v.to_le(32)) }
        4 => { sig[31] ^= 0x80 }
        5 => { let n = s.range(0, 130); sig.resize(n, 0) }
        6 => { if m2.is_empty() { m2.push(0) } else { s.flip(&mut m2); } }
        7 => { m2.push(s.u64() as u8) }
        8 => { s.flip(&mut pk); }
        9 => { let v = s.pick(&[Nat::zero(), e.l.clone(), e.l.sub(&Nat::one()), e.l.add(&Nat::one()), Nat::one().shl(252), Nat::one().shl(253), Nat::one().shl(255)]); sig[32..].copy_from_slice(&v.to_le(32)) }
        10 => { let r = sig[..32].to_vec(); let sx = sig[32..].to_vec(); sig = [sx, r].concat() }
        11 => { sig[63] |= s.pick(&[0x10, 0x20, 0x40, 0x80, 0xe0]) }
        _ => { pk = e.public(&s.rnd()) }
    }
    s.note = format!("pk={} m={} sig={}", hex(&pk), hex(&m2), hex(&sig));
    let want = e.verify(&pk, &m2, &sig);
    let got = Ed25519VerifyingKey::from_bytes(&pk).ok().map(|v| v.verify(&sig, &m2).is_ok());
    ck!(got == want, "got {got:?} want {want:?}: {}", s.note);
    if pk == e.public(&seed) { ck!(Some(k.public_key().verify(&sig, &m2).is_ok()) == want, "through the signing key's public key: {}", s.note) }
    Ok(())
}
/// signatures valid for chosen (possibly small or mixed order) keys and R: cofactorless equation decided exactly
fn c15_torsion(s: &mut Src) -> R {
    let e = Ed::get();
    let t8 = [
        "0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000080", "0000000000000000000000000000000000000000000000000000000000000000",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
    ];
    let tor = |h: &str| -> (Nat, Nat) { e.decode(&Nat::from_hex(h).to_be(32).try_into().unwrap()).unwrap() };
    let (h1, h2) = (s.pick(&t8), s.pick(&t8)); let ta = tor(h1); let tr = tor(h2);
    let a = if s.chance(1, 3) { Nat::zero() } else { Nat::from_le(&s.rnd::<32>()).rem(&e.l) };
    let r = match s.below(4) { 0 => Nat::zero(), _ => Nat::from_le(&s.rnd::<32>()).rem(&e.l) };
    let apt = e.add(&e.mul(&a, &e.b), &ta); let rpt = e.add(&e.mul(&r, &e.b), &tr);
    let pk = e.encode(&apt); let rb = e.encode(&rpt); let m = s.bytes(8);
    let sv = r.add(&e.hram(&rb, &pk, &m).mul(&a)).rem(&e.l);
    let sig = [&rb[..], &sv.to_le(32)[..]].concat();
    s.note = format!("pk={} m={} sig={}", hex(&pk), hex(&m), hex(&sig));
    let want = e.verify(&pk, &m, &sig);
    let got = Ed25519VerifyingKey::from_bytes(&pk).ok().map(|v| v.verify(&sig, &m).is_ok());
    ck!(got == want, "got {got:?} want {want:?}: {}", s.note);
    Ok(())
}
/// non-canonical R whose value still satisfies the equation, and non-canonical keys
fn c15_noncanon(s: &mut Src) -> R {
    let e = Ed::get(); let p = x25519::p();
    let y = s.below(19); let mut b: [u8; 32] = p.add(&Nat::from_u64(y)).to_le(32).try_into().unwrap(); if s.chance(1, 2) { b[31] |= 0x80 }
    ck!(Ed25519VerifyingKey::from_bytes(&b).is_err(), "non-canonical key {} accepted", hex(&b));
    for v in [1u64, 0] { let mut b = [0u8; 32]; b[0] = v as u8; b[31] |= 0x80; let w = e.decode(&b).is_some(); ck!(Ed25519VerifyingKey::from_bytes(&b).is_ok() == w, "key {} want {w}", hex(&b)); }
    let pk: [u8; 32] = Nat::one().to_le(32).try_into().unwrap(); // identity
    let m = s.bytes(5);
    for rb in [Nat::one(), p.add(&Nat::one()), Nat::one().add(&Nat::one().shl(255))] {
        let sig = [&rb.to_le(32)[..], &[0u8; 32][..]].concat();
        let want = e.verify(&pk, &m, &sig); let got = Ed25519VerifyingKey::from_bytes(&pk).ok().map(|v| v.verify(&sig, &m).is_ok());
        ck!(got == want, "R={} got {got:?} want {want:?}", hex(&sig));
    }
    let n = s.range(0, 70); let v = vec![1u8; n]; if n != 32 { ck!(Ed25519VerifyingKey::from_bytes(&v).is_err(), "key of {n} bytes accepted"); }
    Ok(())
}
fn c15_keys(s: &mut Src) -> R {
    let e = Ed::get(); let b = felt(s); s.note = hex(&b);
    let want = e.decode(&b).is_some();
    let got = Ed25519VerifyingKey::from_bytes(&b);
    ck!(got.is_ok() == want, "key {} accepted={} want {want}", s.note, got.is_ok());
    if let Ok(k) = got { eq!(k.as_bytes(), b, "bytes") }
    Ok(())
}
#[cfg(feature = "h_cv")]
extern "Rust" {
    fn gvd_ed_reduce(x: &[u8; 64]) -> [u8; 32];
    fn gvd_ed_madd(x: &[u64; 4], y: &[u64; 4], c: &[u64; 4]) -> [u8; 32];
    fn gvd_ed_canonical(x: &[u8; 32]) -> Option<[u8; 32]>;
    fn gvd_ed_decompress(x: &[u8; 32]) -> Option<([u64; 8], [u8; 32], [u64; 8])>;
    fn gvd_ed_double(k: &[u64; 4], p: &[u64; 8], b: &[u64; 4]) -> [u8; 32];
    fn gvd_ed_basemul(k: &[u64; 4]) -> [u8; 32];
    fn gvd_ed_clamp(k: &[u8; 32]) -> [u64; 4];
}
#[cfg(feature = "h_cv")]
fn wide(s: &mut Src, bits: usize) -> Nat {
    let l = Ed::get().l.clone(); let top = Nat::one().shl(bits);
    match s.below(5) {
        0 => Nat::from_limbs(&s.words(bits / 64)),
        1 => { let q = Nat::from_limbs(&s.words(bits / 64)).divrem(&l).0; let d = Nat::from_u64(s.below(5)); let v = q.mul(&l).add(&d); if v.bits() > 2 { v.sub(&Nat::from_u64(2)) } else { v } }
        2 => top.sub(&Nat::from_u64(1 + s.below(9))),
        3 => { let mut b = vec![0; bits / 8]; s.fill(&mut b); let q = Nat::from_le(&b).divrem(&l).0; let v = q.mul(&l); if s.chance(1, 2) && !v.is_zero() { v.sub(&Nat::one()) } else { v } }
        _ => { let mut b = vec![0; bits / 8]; s.fill(&mut b); Nat::from_le(&b) }
    }.rem(&top)
}
#[cfg(feature = "h_cv")]
fn a4(n: &Nat) -> [u64; 4] { n.limbs(4).try_into().unwrap() }
#[cfg(feature = "h_cv")]
fn h_scalar(s: &mut Src) -> R {
    let l = &Ed::get().l;
    let x = wide(s, 512); s.note = hex(&x.to_be_min());
    eq!(unsafe { gvd_ed_reduce(&x.to_le(64).try_into().unwrap()) }, x.rem(l).to_le(32), "reduce {}", s.note);
    let (a, b, c) = (wide(s, 256), wide(s, 256), wide(s, 256)); s.note = format!("{} {} {}", hex(&a.to_be_min()), hex(&b.to_be_min()), hex(&c.to_be_min()));
    eq!(unsafe { gvd_ed_madd(&a4(&a), &a4(&b), &a4(&c)) }, a.mul(&b).add(&c).rem(l).to_le(32), "madd {}", s.note);
    let r = unsafe { gvd_ed_canonical(&a.to_le(32).try_into().unwrap()) };
    ck!(r.is_some() == a.lt(l), "canonical {} -> {}", hex(&a.to_be_min()), r.is_some());
    if let Some(r) = r { eq!(r, a.to_le(32), "canonical scalar value") }
    let mut cb: [u8; 32] = a.to_le(32).try_into().unwrap(); let w = unsafe { gvd_ed_clamp(&cb) }; cb[0] &= 248; cb[31] &= 63; cb[31] |= 64;
    ck!(Nat::from_limbs(&w) == Nat::from_le(&cb), "clamp");
    Ok(())
}
#[cfg(feature = "h_cv")]
fn h_point(s: &mut Src) -> R {
    let e = Ed::get(); let b = felt(s); s.note = hex(&b);
    match (unsafe { gvd_ed_decompress(&b) }, e.decode(&b)) {
        (None, None) => {}
        (Some((xy, enc, neg)), Some((x, y))) => {
            ck!(Nat::from_limbs(&xy[..4]) == x && Nat::from_limbs(&xy[4..]) == y, "decompressed {}", s.note);
            eq!(enc, b, "compress(decompress)");
            ck!(Nat::from_limbs(&neg[..4]) == e.p.sub(&x).rem(&e.p) && Nat::from_limbs(&neg[4..]) == y, "negate {}", s.note);
            let (k, m) = (wide(s, 256).rem(&e.l), wide(s, 256).rem(&e.l)); s.note = format!("P={} k={} m={}", hex(&b), hex(&k.to_be_min()), hex(&m.to_be_min()));
            let want = e.encode(&e.add(&e.mul(&k, &(x, y)), &e.mul(&m, &e.b)));
            eq!(unsafe { gvd_ed_double(&a4(&k), &xy, &a4(&m)) }, want, "kP+mB {}", s.note);
        }
        (a, b) => return Err(format!("decompress accepted={} want {} {}", a.is_some(), b.is_some(), s.note)),
    }
    Ok(())
}
#[cfg(feature = "h_cv")]
fn h_base(s: &mut Src) -> R {
    let e = Ed::get(); let k = wide(s, 256); s.note = hex(&k.to_be_min());
    eq!(unsafe { gvd_ed_basemul(&a4(&k)) }, e.encode(&e.mul(&k, &e.b)), "kB {}", s.note);
    Ok(())
}
pub fn c15() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("sign", 150, 3, c15_sign), case("verify", 400, 5, c15_verify), case("torsion", 128, 2, c15_torsion), case("noncanonical", 60, 1, c15_noncanon), case("keys", 200, 2, c15_keys)];
    #[cfg(feature = "h_cv")]
    v.extend([case("h_scalar", 500, 2, h_scalar), case("h_point", 150, 2, h_point), case("h_base", 80, 1, h_base)]);
    v
}
