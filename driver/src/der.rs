use crate::core::*;
use crate::ec::{self, C};
use graviola::signing::ecdsa::{SigningKey as EcKey, P256, P384};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use gspec::der::{self, int, read, read_tag, read_uint, seq, tlv};
use gspec::ed25519::Ed;
use gspec::nat::Nat;
use gspec::rsa::Priv;

pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7];
pub const OID_P384: &[u8] = &[0x2b, 0x81, 4, 0, 0x22];
pub const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];
pub const OID_ED: &[u8] = &[0x2b, 0x65, 0x70];
pub fn curve_oid(c: C) -> &'static [u8] { match c { C::P256 => OID_P256, C::P384 => OID_P384 } }

// ---------------------------------------------------------------- RSA keys from known primes
static PRIMES: &[&str] = &include!("primes.in");
pub fn primes() -> &'static [Nat] { static P: std::sync::OnceLock<Vec<Nat>> = std::sync::OnceLock::new(); P.get_or_init(|| PRIMES.iter().map(|s| Nat::from_hex(s)).collect()) }
/// a consistent key; `max` bits for the modulus
pub fn rsa_key(s: &mut Src, max: usize) -> Priv {
    let ps = primes();
    loop {
        let p = s.pick(ps); let q = s.pick(ps);
        if p == q || p.bits() * 2 > max + 64 || q.bits() * 2 > max + 64 { continue }
        if (p.bits() + 63) / 64 != (q.bits() + 63) / 64 { continue }
        let n = p.mul(&q);
        if n.bits() <= 2040 || n.bits() > max { continue }
        let e = match s.below(6) { 0 => Nat::from_u64(3), 1 => Nat::from_u64(17), 2 => Nat::from_u64(0xffff_fffb), 3 => Nat::from_u64(0x8000_0001), _ => Nat::from_u64(65537) };
        if let Some(k) = Priv::from_pq(&p, &q, &e) { return k }
    }
}

// ---------------------------------------------------------------- strict oracle parsers
fn whole<'a>(b: &'a [u8], tag: u8) -> Option<&'a [u8]> { let (v, r) = read_tag(b, tag)?; if r.is_empty() { Some(v) } else { None } }
fn bits(v: &[u8]) -> Option<&[u8]> { if *v.first()? == 0 { Some(&v[1..]) } else { None } }
/// (private key octets, public key)
pub fn o_pkcs8<'a>(b: &'a [u8], alg: &[u8]) -> Option<(&'a [u8], Option<&'a [u8]>)> {
    let v = whole(b, 0x30)?;
    let (ver, v) = read_uint(v)?;
    let (a, v) = read_tag(v, 0x30)?;
    if a != alg { return None }
    let (k, v) = read_tag(v, 4)?;
    let p = if v.is_empty() { None } else { Some(bits(whole(v, 0x81)?)?) };
    if ver != Nat::from_u64(p.is_some() as u64) { return None }
    Some((k, p))
}
fn alg_ec(c: C) -> Vec<u8> { [tlv(6, OID_EC), tlv(6, curve_oid(c))].concat() }
fn alg_rsa() -> Vec<u8> { [tlv(6, OID_RSA), vec![5, 0]].concat() }
fn alg_ed() -> Vec<u8> { tlv(6, OID_ED) }
/// (scalar, octet count, parameters present, public key)
pub fn o_sec1(b: &[u8], c: C) -> Option<(Nat, usize, bool, Option<Vec<u8>>)> {
    let v = whole(b, 0x30)?;
    let (ver, v) = read_uint(v)?;
    if ver != Nat::one() { return None }
    let (d, mut v) = read_tag(v, 4)?;
    let mut par = false;
    if v.first() == Some(&0xa0) { let (p, r) = read_tag(v, 0xa0)?; if whole(p, 6)? != curve_oid(c) { return None } par = true; v = r; }
    let mut pk = None;
    if v.first() == Some(&0xa1) { let (p, r) = read_tag(v, 0xa1)?; pk = Some(bits(whole(p, 3)?)?.to_vec()); v = r; }
    if !v.is_empty() { return None }
    let dn = Nat::from_be(d);
    if !c.sp().scalar_ok(&dn) { return None }
    if let Some(pk) = &pk { if *pk != c.sp().enc(&c.sp().mul(&dn, &c.sp().base())) { return None } }
    Some((dn, d.len(), par, pk))
}
pub fn o_ec_pkcs8(b: &[u8], c: C) -> Option<(Nat, usize, bool, Option<Vec<u8>>)> {
    let (k, p) = o_pkcs8(b, &alg_ec(c))?;
    let r = o_sec1(k, c)?;
    if let Some(p) = p { if p != c.sp().enc(&c.sp().mul(&r.0, &c.sp().base())) { return None } }
    Some(r)
}
fn o_ed_pkcs8(b: &[u8]) -> Option<[u8; 32]> {
    let (k, p) = o_pkcs8(b, &alg_ed())?;
    let seed: [u8; 32] = whole(k, 4)?.try_into().ok()?;
    if let Some(p) = p { if p != Ed::get().public(&seed) { return None } }
    Some(seed)
}
fn o_ed_spki(b: &[u8]) -> Option<[u8; 32]> {
    let v = whole(b, 0x30)?;
    let (a, v) = read_tag(v, 0x30)?;
    if a != alg_ed() { return None }
    let k: [u8; 32] = bits(whole(v, 3)?)?.try_into().ok()?;
    Ed::get().decode(&k).map(|_| k)
}
fn uints(b: &[u8]) -> Option<Vec<Nat>> { let mut v = whole(b, 0x30)?; let mut o = vec![]; while !v.is_empty() { let (n, r) = read_uint(v)?; o.push(n); v = r; } Some(o) }
fn pub_ok(n: &Nat, e: &Nat) -> bool { !n.is_even() && n.bits() > 2040 && n.bits() <= 8192 && !e.is_zero() && e.bits() <= 32 }
fn o_rsa_pub(b: &[u8]) -> Option<(Nat, Nat)> { let v = uints(b)?; if v.len() == 2 && pub_ok(&v[0], &v[1]) { Some((v[0].clone(), v[1].clone())) } else { None } }
/// strict DER RSAPrivateKey with a supported public part
fn o_rsa_priv(b: &[u8]) -> Option<Vec<Nat>> { let v = uints(b)?; if v.len() == 9 && v[0].is_zero() && pub_ok(&v[1], &v[2]) { Some(v) } else { None } }

// ---------------------------------------------------------------- encoders for well-formed inputs
pub fn e_sec1(c: C, d: &[u8], par: bool, pk: Option<&[u8]>) -> Vec<u8> {
    let mut parts = vec![int(&Nat::one()), tlv(4, d)];
    if par { parts.push(tlv(0xa0, &tlv(6, curve_oid(c)))) }
    if let Some(p) = pk { parts.push(tlv(0xa1, &tlv(3, &[&[0], p].concat()))) }
    seq(&parts.iter().map(|x| &x[..]).collect::<Vec<_>>())
}
pub fn e_pkcs8(alg: &[u8], k: &[u8], pk: Option<&[u8]>) -> Vec<u8> {
    let mut parts = vec![int(&Nat::from_u64(pk.is_some() as u64)), tlv(0x30, alg), tlv(4, k)];
    if let Some(p) = pk { parts.push(tlv(0x81, &[&[0], p].concat())) }
    seq(&parts.iter().map(|x| &x[..]).collect::<Vec<_>>())
}
fn e_rsa_pub(k: &Priv) -> Vec<u8> { seq(&[&int(&k.n), &int(&k.e)]) }
pub fn e_rsa_pkcs8(k: &Priv, pk: bool) -> Vec<u8> { let p = e_rsa_pub(k); e_pkcs8(&alg_rsa(), &k.der(), if pk { Some(&p) } else { None }) }
pub fn e_ec_pkcs8(c: C, sec1: &[u8], pk: Option<&[u8]>) -> Vec<u8> { e_pkcs8(&alg_ec(c), sec1, pk) }
pub fn e_ed_pkcs8(seed: &[u8; 32], pk: bool) -> Vec<u8> { let p = Ed::get().public(seed); e_pkcs8(&alg_ed(), &tlv(4, seed), if pk { Some(&p) } else { None }) }
pub fn e_ed_spki(pk: &[u8]) -> Vec<u8> { seq(&[&tlv(0x30, &alg_ed()), &tlv(3, &[&[0], pk].concat())]) }

// ---------------------------------------------------------------- structure-aware mutation
#[derive(Clone)]
enum Body { Raw(Vec<u8>), Kids(Vec<Node>) }
#[derive(Clone)]
struct Node { tag: u8, style: u8, body: Body }
fn tree(b: &[u8], depth: usize) -> Option<Vec<Node>> {
    let mut v = b; let mut o = vec![];
    while !v.is_empty() {
        let (t, body, r) = read(v)?;
        let kids = if depth < 6 && (t & 0x20 != 0 || t == 4) && !body.is_empty() { tree(body, depth + 1) } else { None };
        o.push(Node { tag: t, style: 0, body: match kids { Some(k) => Body::Kids(k), None => Body::Raw(body.to_vec()) } });
        v = r;
    }
    Some(o)
}
fn emit(ns: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in ns {
        let b = match &n.body { Body::Raw(b) => b.clone(), Body::Kids(k) => emit(k) };
        let l = b.len();
        o.push(n.tag);
        match n.style {
            1 => o.extend([0x81, l as u8]),
            2 => o.extend([0x82, (l >> 8) as u8, l as u8]),
            3 => o.extend([0x83, 0, (l >> 8) as u8, l as u8]),
            4 => o.extend([0x84, 0, 0, (l >> 8) as u8, l as u8]),
            5 => o.push(0x80),
            6 => o.extend(der::len(l + 1)),
            7 => o.extend(der::len(l.saturating_sub(1))),
            8 => o.extend([0x88, 0, 0, 0, 0, 0, 0, (l >> 8) as u8, l as u8]),
            9 => o.extend([0x82, 0xff, 0xff]),
            10 => o.push(0xff),
            _ => o.extend(der::len(l)),
        }
        o.extend(b);
        if n.style == 5 { o.extend([0, 0]) }
    }
    o
}
fn count(ns: &[Node]) -> usize { ns.iter().map(|n| 1 + match &n.body { Body::Kids(k) => count(k), _ => 0 }).sum() }
fn at<'a>(ns: &'a mut Vec<Node>, i: &mut usize) -> Option<(&'a mut Vec<Node>, usize)> {
    for j in 0..ns.len() {
        if *i == 0 { return Some((ns, j)) }
        *i -= 1;
        // two-step borrow
        let c = match &ns[j].body { Body::Kids(k) => count(k), _ => 0 };
        if *i < c { match &mut ns[j].body { Body::Kids(k) => return at(k, i), _ => unreachable!() } }
        *i -= c;
    }
    None
}
pub fn mutate(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut out = b.to_vec();
    if s.chance(1, 3) {
        // byte level
        for _ in 0..s.range(1, 3) {
            if out.is_empty() { break }
            match s.below(6) {
                0 => { s.flip(&mut out); }
                1 => { let i = s.range(0, out.len() - 1); out[i] = s.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0x81, 0x82, 0xff, 0x30, 4, 5, 6, 0xa0, 0xa1]); }
                2 => { let i = s.range(0, out.len()); out.insert(i, s.u64() as u8); }
                3 => { let i = s.range(0, out.len() - 1); out.remove(i); }
                4 => { let n = s.range(0, out.len()); out.truncate(n); }
                _ => { let n = s.range(1, 4); let e = s.bytes(n); out.extend(e); }
            }
        }
        return out;
    }
    let Some(mut t) = tree(b, 0) else { return out };
    for _ in 0..s.pick(&[1, 1, 1, 2]) {
        let n = count(&t); if n == 0 { break }
        let mut i = s.below(n as u64) as usize;
        let Some((v, j)) = at(&mut t, &mut i) else { break };
        match s.below(12) {
            0 | 1 => v[j].style = s.range(1, 10) as u8,
            2 => { if let Body::Raw(r) = &mut v[j].body { r.insert(0, s.pick(&[0, 0, 0xff])); } }
            3 => { if let Body::Raw(r) = &mut v[j].body { if !r.is_empty() { r.remove(0); } } }
            4 => { if let Body::Raw(r) = &mut v[j].body { if !r.is_empty() { s.flip(r); } } }
            5 => { match &mut v[j].body { Body::Raw(r) => r.push(s.u64() as u8), Body::Kids(k) => { let e = Node { tag: s.pick(&[5, 2, 4, 0x30, 0x81, 0xa0, 0xa1]), style: 0, body: Body::Raw(vec![]) }; k.push(e) } } }
            6 => { let x = v[j].clone(); v.insert(j, x); }
            7 => { v.remove(j); }
            8 => v[j].tag = s.pick(&[2, 3, 4, 5, 6, 0x30, 0x31, 0xa0, 0xa1, 0x80, 0x81, 0x24, 0x23, 0x22, 0xa2]),
            9 => { if j + 1 < v.len() { v.swap(j, j + 1) } }
            10 => { if let Body::Raw(r) = &mut v[j].body { if let Some(x) = r.first_mut() { *x = s.pick(&[0, 1, 2, 7, 0x80, 0xff]); } } }
            _ => { let e = Node { tag: s.pick(&[5, 2, 4, 0xa0, 0xa1, 0x81]), style: 0, body: Body::Raw(s.pick(&[vec![], vec![0], vec![1]])) }; v.insert(j, e) }
        }
    }
    emit(&t)
}

// ---------------------------------------------------------------- the real library
pub fn ec_import(c: C, pkcs8: bool, b: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let mut o = [0u8; 1024]; let mut p = [0u8; 1024];
    macro_rules! go { ($c:ty) => {{
        let k = if pkcs8 { EcKey::<$c>::from_pkcs8_der(b) } else { EcKey::<$c>::from_sec1_der(b) }.ok()?;
        Some((k.private_key.as_bytes().to_vec(), k.to_sec1_der(&mut o).unwrap().to_vec(), k.to_pkcs8_der(&mut p).unwrap().to_vec()))
    }} }
    match c { C::P256 => go!(P256), C::P384 => go!(P384) }
}

// ---------------------------------------------------------------- C07: strictness, no panic
fn base_ec(s: &mut Src, c: C) -> (Nat, Vec<u8>, Vec<u8>) {
    let d = ec::scalar(s, c); let pk = ec::real_pub(c, &d.to_be(c.len()));
    let db = match s.below(8) { 0 => d.to_be_min(), 1 => [vec![0], d.to_be(c.len())].concat(), _ => d.to_be(c.len()) };
    let sec1 = { let par = s.chance(2, 3); let p = s.chance(2, 3); e_sec1(c, &db, par, if p { Some(&pk) } else { None }) };
    (d, sec1, pk)
}
fn c07_ec(s: &mut Src) -> R {
    let c = s.pick(&C::ALL);
    let (_, sec1, pk) = base_ec(s, c);
    let (b, p8) = if s.chance(1, 2) { (sec1, false) } else { let v2 = s.chance(1, 3); (e_pkcs8(&alg_ec(c), &sec1, if v2 { Some(&pk) } else { None }), true) };
    let b = if s.chance(1, 12) { b } else { mutate(s, &b) };
    s.note = format!("{c:?} {} {}", if p8 { "pkcs8" } else { "sec1" }, hex(&b));
    let want = if p8 { o_ec_pkcs8(&b, c) } else { o_sec1(&b, c) };
    let got = ec_import(c, p8, &b);
    ck!(got.is_some() == want.is_some(), "accepted={} but strict decoding says {}: {}", got.is_some(), want.is_some(), s.note);
    if let (Some((d, sec, pk8)), Some((wd, wl, par, pk))) = (got, want) {
        eq!(d, wd.to_be(c.len()), "decoded scalar");
        if wl == c.len() && par && pk.is_some() && !p8 { eq!(sec, b, "re-encoding"); }
        if wl == c.len() && !par && pk.is_some() && p8 && o_pkcs8(&b, &alg_ec(c)).unwrap().1.is_none() { eq!(pk8, b, "re-encoding"); }
    }
    // the other curve must refuse it
    if let Some(_) = o_ec_pkcs8(&b, c) { let o = if c == C::P256 { C::P384 } else { C::P256 }; ck!(ec_import(o, true, &b).is_none(), "imported on the wrong curve") }
    Ok(())
}
fn c07_ed(s: &mut Src) -> R {
    let seed: [u8; 32] = s.arr(); let pk = Ed25519SigningKey::from_bytes(&seed).unwrap().public_key().as_bytes();
    let mut buf = [0u8; 256];
    if s.chance(1, 2) {
        let v2 = s.chance(1, 2);
        let b = e_pkcs8(&alg_ed(), &tlv(4, &seed), if v2 { Some(&pk) } else { None });
        let b = if s.chance(1, 12) { b } else { mutate(s, &b) };
        s.note = format!("ed25519 pkcs8 {}", hex(&b));
        let got = Ed25519SigningKey::from_pkcs8_der(&b).ok(); let want = o_ed_pkcs8(&b);
        ck!(got.is_some() == want.is_some(), "accepted={} but strict decoding says {}: {}", got.is_some(), want.is_some(), s.note);
        if let (Some(g), Some(w)) = (got, want) {
            eq!(g.as_seed(), w, "seed");
            if o_pkcs8(&b, &alg_ed()).unwrap().1.is_some() { eq!(g.to_pkcs8_der(&mut buf).unwrap(), b, "re-encoding") }
        }
    } else {
        let b = e_ed_spki(&pk);
        let b = if s.chance(1, 12) { b } else { mutate(s, &b) };
        s.note = format!("ed25519 spki {}", hex(&b));
        let got = Ed25519VerifyingKey::from_spki_der(&b).ok(); let want = o_ed_spki(&b);
        ck!(got.is_some() == want.is_some(), "accepted={} but strict decoding says {}: {}", got.is_some(), want.is_some(), s.note);
        if let Some(g) = got { eq!(g.to_spki_der(&mut buf).unwrap(), b, "re-encoding") }
    }
    Ok(())
}
fn c07_rsa_pub(s: &mut Src) -> R {
    let k = rsa_key(s, 8192);
    let b = e_rsa_pub(&k);
    let b = if s.chance(1, 12) { b } else { mutate(s, &b) };
    s.note = format!("rsa public {}", hex(&b));
    let got = rsa::VerifyingKey::from_pkcs1_der(&b).ok(); let want = o_rsa_pub(&b);
    ck!(got.is_some() == want.is_some(), "accepted={} but strict decoding says {}: {}", got.is_some(), want.is_some(), s.note);
    let mut buf = [0u8; 2048];
    if let Some(g) = got { eq!(g.to_pkcs1_der(&mut buf).unwrap(), b, "re-encoding"); ck!(o_rsa_pub(&b).is_some(), "x"); }
    Ok(())
}
fn c07_rsa_priv(s: &mut Src) -> R {
    let k = rsa_key(s, 4096);
    let mut buf = vec![0u8; 8192];
    let intact = s.chance(1, 12);
    if s.chance(2, 3) {
        let b = if intact { k.der() } else { mutate(s, &k.der()) };
        s.note = format!("rsa pkcs1 {}", hex(&b));
        let got = rsa::SigningKey::from_pkcs1_der(&b).ok();
        if b == k.der() { ck!(got.is_some(), "consistent key refused: {}", s.note) }
        if let Some(g) = got { ck!(o_rsa_priv(&b).is_some(), "accepted though not strict DER: {}", s.note); eq!(g.to_pkcs1_der(&mut buf).unwrap(), b, "re-encoding") }
    } else {
        let v2 = s.chance(1, 3);
        let b = e_rsa_pkcs8(&k, v2);
        let m = if intact { b.clone() } else { mutate(s, &b) };
        s.note = format!("rsa pkcs8 {}", hex(&m));
        let got = rsa::SigningKey::from_pkcs8_der(&m).ok();
        if m == b { ck!(got.is_some(), "consistent key refused: {}", s.note) }
        if let Some(g) = got {
            let w = o_pkcs8(&m, &alg_rsa()).and_then(|(k, p)| { let v = o_rsa_priv(k)?; if p.map_or(true, |p| o_rsa_pub(p).map_or(false, |(n, e)| n == v[1] && e == v[2])) { Some(p.is_some()) } else { None } });
            ck!(w.is_some(), "accepted though not strict DER: {}", s.note);
            if w == Some(false) { eq!(g.to_pkcs8_der(&mut buf).unwrap(), m, "re-encoding") }
        }
    }
    Ok(())
}
/// every decoder on unstructured bytes
fn c07_garbage(s: &mut Src) -> R {
    let n = s.len(300);
    let mut b = s.bytes(n);
    if s.chance(2, 3) && n > 4 { b[0] = 0x30; match s.below(3) { 0 => b[1] = (n - 2).min(127) as u8, 1 => { b[1] = 0x81; b[2] = (n - 3) as u8 } _ => { b[1] = 0x82; b[2] = ((n - 4) >> 8) as u8; b[3] = (n - 4) as u8 } } if n > 9 && s.chance(1, 2) { b[4] = s.pick(&[2, 4, 0x30]); b[5] = s.pick(&[0, 1, 0x81, 0x82, 0x7f]); } }
    s.note = hex(&b);
    for c in C::ALL {
        ck!(ec_import(c, true, &b).is_some() == o_ec_pkcs8(&b, c).is_some(), "{c:?} pkcs8 {}", s.note);
        ck!(ec_import(c, false, &b).is_some() == o_sec1(&b, c).is_some(), "{c:?} sec1 {}", s.note);
        ck!(ec::pub_accepts(c, &b).is_some() == c.sp().dec(&b).is_some(), "{c:?} public {}", s.note);
    }
    ck!(Ed25519SigningKey::from_pkcs8_der(&b).is_ok() == o_ed_pkcs8(&b).is_some(), "ed pkcs8 {}", s.note);
    ck!(Ed25519VerifyingKey::from_spki_der(&b).is_ok() == o_ed_spki(&b).is_some(), "ed spki {}", s.note);
    ck!(rsa::VerifyingKey::from_pkcs1_der(&b).is_ok() == o_rsa_pub(&b).is_some(), "rsa public {}", s.note);
    ck!(!rsa::SigningKey::from_pkcs1_der(&b).is_ok() && !rsa::SigningKey::from_pkcs8_der(&b).is_ok(), "rsa private {}", s.note);
    Ok(())
}
/// long inputs: two-byte lengths around the format's limits
fn c07_long(s: &mut Src) -> R {
    let l = s.pick(&[0xff00usize, 0xffff, 0x10000, 0x10001, 0x7fff, 0x8000, 0x0100, 0x00ff]);
    let l = (l + s.range(0, 40)).saturating_sub(20);
    let body = vec![0u8; l];
    let inner = match s.below(3) { 0 => tlv(4, &body), 1 => [int(&Nat::zero()), tlv(0x30, &alg_ed()), tlv(4, &body)].concat(), _ => [tlv(2, &[&[1u8][..], &body].concat()), int(&Nat::from_u64(65537))].concat() };
    let mut b = tlv(0x30, &inner);
    if s.chance(1, 3) { let n = s.range(0, b.len()); b.truncate(n) }
    s.note = format!("length {l}");
    ck!(Ed25519SigningKey::from_pkcs8_der(&b).is_err(), "ed");
    ck!(rsa::VerifyingKey::from_pkcs1_der(&b).is_ok() == o_rsa_pub(&b).is_some(), "rsa pub {l}");
    ck!(rsa::SigningKey::from_pkcs1_der(&b).is_err() && rsa::SigningKey::from_pkcs8_der(&b).is_err(), "rsa");
    for c in C::ALL { ck!(ec_import(c, true, &b).is_none() && ec_import(c, false, &b).is_none(), "ec") }
    Ok(())
}
/// every single-byte prefix/edit of one valid encoding of each kind
fn c07_every_byte(s: &mut Src) -> R {
    let (c, i) = (C::ALL[(s.idx % 2) as usize], s.idx / 2);
    let mut z = Src::new(99, "every_byte", s.idx % 2);
    let d = ec::scalar(&mut z, c); let pk = ec::real_pub(c, &d.to_be(c.len()));
    let full = e_pkcs8(&alg_ec(c), &e_sec1(c, &d.to_be(c.len()), true, Some(&pk)), None);
    let pos = (i as usize) % full.len();
    s.note = format!("{c:?} byte {pos}");
    for x in [0x01u8, 0x02, 0x04, 0x80, 0xff, 0x20] { let mut b = full.clone(); b[pos] ^= x; ck!(ec_import(c, true, &b).is_some() == o_ec_pkcs8(&b, c).is_some(), "{c:?} byte {pos} ^ {x:02x}") }
    ck!(ec_import(c, true, &full[..pos]).is_none(), "{c:?} truncated to {pos}");
    let mut b = full.clone(); b.insert(pos, 0); ck!(ec_import(c, true, &b).is_some() == o_ec_pkcs8(&b, c).is_some(), "{c:?} zero inserted at {pos}");
    Ok(())
}
pub fn c07() -> Vec<Case> { vec![once("every_byte", 500, c07_every_byte), case("ec", 4000, 4, c07_ec), case("ed", 6000, 3, c07_ed), case("rsa_pub", 3000, 3, c07_rsa_pub), case("rsa_priv", 1500, 4, c07_rsa_priv), case("garbage", 5000, 2, c07_garbage), case("long", 300, 1, c07_long)] }

// ---------------------------------------------------------------- C08: export
/// `f(buf)` exports; checks all the buffer-size behaviour and returns the encoding
pub fn export(s: &mut Src, what: &str, f: &mut dyn FnMut(&mut [u8]) -> Option<(usize, usize)>) -> Result<Vec<u8>, String> {
    let mut big = vec![0u8; 9000];
    let Some((off, l)) = f(&mut big) else { return Err(format!("{what}: export into 9000 bytes failed")) };
    if off != 0 { return Err(format!("{what}: not at the start of the buffer")) }
    let full = big[..l].to_vec();
    for _ in 0..3 {
        let n = match s.below(5) { 0 => l, 1 => l - 1, 2 => l + s.range(0, 9), 3 => s.range(0, 9.min(l)), _ => s.range(0, l + 40) };
        let fillb = s.pick(&[0u8, 0xa5, 0xff]);
        let mut b = vec![fillb; n];
        match f(&mut b) {
            Some((o, m)) => { if n < l || o != 0 || m != l || b[..l] != full[..] { return Err(format!("{what}: wrong result for a buffer of {n} bytes (encoding has {l}): offset {o} length {m} {}", hex(&b))) } }
            None => if n >= l { return Err(format!("{what}: a buffer of {n} bytes was refused, encoding has {l}")) },
        }
    }
    Ok(full)
}
pub fn rel(buf: *const u8, r: &[u8]) -> (usize, usize) { (r.as_ptr() as usize - buf as usize, r.len()) }
macro_rules! ex { ($s:expr, $w:expr, |$b:ident| $e:expr) => { export($s, $w, &mut |$b: &mut [u8]| { let p = $b.as_ptr(); $e.ok().map(|r| rel(p, r)) })? } }
fn c08_ec(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let d = ec::scalar(s, c); let l = c.len();
    s.note = format!("{c:?} d={}", hex(&d.to_be(l)));
    macro_rules! go { ($c:ty, $k:ty) => {{
        let k = EcKey::<$c> { private_key: <$k>::from_bytes(&d.to_be(l)).unwrap() };
        (ex!(s, "sec1", |b| k.to_sec1_der(b)), ex!(s, "pkcs8", |b| k.to_pkcs8_der(b)), ex!(s, "spki", |b| k.to_spki_der(b)))
    }} }
    let (sec1, p8, spki) = match c { C::P256 => go!(P256, graviola::key_agreement::p256::StaticPrivateKey), C::P384 => go!(P384, graviola::key_agreement::p384::StaticPrivateKey) };
    let pk = c.sp().enc(&c.sp().mul(&d, &c.sp().base()));
    let w = o_sec1(&sec1, c); ck!(w.as_ref().map_or(false, |w| w.0 == d && w.1 == l), "SEC1 export is not a standard encoding of the key: {}", hex(&sec1));
    let w = o_ec_pkcs8(&p8, c); ck!(w.as_ref().map_or(false, |w| w.0 == d && w.1 == l), "PKCS#8 export is not a standard encoding of the key: {}", hex(&p8));
    eq!(spki, seq(&[&tlv(0x30, &alg_ec(c)), &tlv(3, &[&[0], &pk[..]].concat())]), "SPKI");
    for (b, is8) in [(sec1, false), (p8, true)] { let r = ec_import(c, is8, &b); ck!(r.is_some(), "re-import failed: {}", hex(&b)); eq!(r.unwrap().0, d.to_be(l), "re-imported key") }
    Ok(())
}
fn c08_ed(s: &mut Src) -> R {
    let seed: [u8; 32] = s.arr(); let k = Ed25519SigningKey::from_bytes(&seed).unwrap(); let pk = k.public_key();
    s.note = format!("ed25519 {}", hex(&seed));
    let p8 = ex!(s, "pkcs8", |b| k.to_pkcs8_der(b)); let sp = ex!(s, "spki", |b| pk.to_spki_der(b));
    ck!(o_ed_pkcs8(&p8) == Some(seed), "PKCS#8: {}", hex(&p8)); ck!(o_ed_spki(&sp) == Some(Ed::get().public(&seed)), "SPKI: {}", hex(&sp));
    eq!(Ed25519SigningKey::from_pkcs8_der(&p8).map_err(|e| format!("{e:?}"))?.as_seed(), seed, "re-import");
    eq!(Ed25519VerifyingKey::from_spki_der(&sp).map_err(|e| format!("{e:?}"))?.as_bytes(), pk.as_bytes(), "re-import");
    Ok(())
}
fn c08_rsa(s: &mut Src) -> R {
    let mx = s.pick(&[2600, 4096, 8192]); let k = rsa_key(s, mx);
    s.note = format!("rsa {} bits e={}", k.n.bits(), hex(&k.e.to_be_min()));
    let g = rsa::SigningKey::from_pkcs1_der(&k.der()).map_err(|e| format!("consistent key refused: {e:?} {}", hex(&k.der())))?;
    let v = g.public_key();
    let p1 = ex!(s, "pkcs1", |b| g.to_pkcs1_der(b)); let p8 = ex!(s, "pkcs8", |b| g.to_pkcs8_der(b));
    let v1 = ex!(s, "public pkcs1", |b| v.to_pkcs1_der(b)); let sp = ex!(s, "public spki", |b| v.to_spki_der(b));
    eq!(p1, k.der(), "PKCS#1"); eq!(p8, e_rsa_pkcs8(&k, false), "PKCS#8"); eq!(v1, e_rsa_pub(&k), "public PKCS#1");
    eq!(sp, seq(&[&tlv(0x30, &alg_rsa()), &tlv(3, &[&[0], &e_rsa_pub(&k)[..]].concat())]), "SPKI");
    let mut buf = vec![0; 8192];
    eq!(rsa::SigningKey::from_pkcs8_der(&p8).map_err(|e| format!("{e:?}"))?.to_pkcs1_der(&mut buf).unwrap(), p1, "re-import");
    eq!(rsa::VerifyingKey::from_pkcs1_der(&v1).map_err(|e| format!("{e:?}"))?.to_pkcs1_der(&mut buf).unwrap(), v1, "re-import");
    ck!(g.modulus_len_bytes() == (k.n.bits() + 7) / 8, "modulus length");
    Ok(())
}
/// keys whose components have unusual sizes: short d, short dp, tiny coefficient
fn c08_rsa_odd(s: &mut Src) -> R {
    let mut k = rsa_key(s, 2600);
    let small = |s: &mut Src| { let n = s.range(1, 20); Nat::from_be(&s.bytes(n)).add(&Nat::one()) };
    match s.below(4) { 0 => k.d = small(s), 1 => k.dp = small(s), 2 => k.dq = small(s), _ => k.qi = small(s) }
    s.note = hex(&k.der());
    let Ok(g) = rsa::SigningKey::from_pkcs1_der(&k.der()) else { s.trivial(); return Ok(()) };
    let p1 = ex!(s, "pkcs1", |b| g.to_pkcs1_der(b));
    eq!(p1, k.der(), "PKCS#1");
    Ok(())
}
fn c08_generated(s: &mut Src) -> R {
    let g = EcKey::<P256>::generate().unwrap(); let h = EcKey::<P384>::generate().unwrap(); let e = Ed25519SigningKey::generate().unwrap();
    let a = ex!(s, "p256 pkcs8", |b| g.to_pkcs8_der(b)); eq!(ec_import(C::P256, true, &a).ok_or("re-import")?.0, g.private_key.as_bytes(), "P-256");
    let a = ex!(s, "p384 pkcs8", |b| h.to_pkcs8_der(b)); eq!(ec_import(C::P384, true, &a).ok_or("re-import")?.0, h.private_key.as_bytes(), "P-384");
    let a = ex!(s, "ed pkcs8", |b| e.to_pkcs8_der(b)); eq!(Ed25519SigningKey::from_pkcs8_der(&a).map_err(|e| format!("{e:?}"))?.as_seed(), e.as_seed(), "Ed25519");
    Ok(())
}
pub fn c08() -> Vec<Case> { vec![case("ec", 600, 3, c08_ec), case("ed", 1000, 2, c08_ed), case("rsa", 150, 3, c08_rsa), case("rsa_odd", 200, 1, c08_rsa_odd), case("generated", 100, 1, c08_generated)] }

// ---------------------------------------------------------------- C09: import of private keys
fn c09_scalar(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let sp = c.sp(); let l = c.len();
    let d = match s.below(12) {
        0 => Nat::zero(), 1 => sp.n.clone(), 2 => sp.n.sub(&Nat::one()), 3 => sp.n.add(&Nat::one()), 4 => Nat::one(), 5 => sp.p.clone(),
        6 => Nat::from_be(&vec![0xff; l]), 7 => sp.n.add(&Nat::from_u64(s.word())), 8 => sp.n.sub(&Nat::from_u64(s.word()).rem(&sp.n)), 9 => { let k = s.range(0, l); Nat::from_be(&s.bytes(k)) }
        10 => { let k = s.range(0, l * 8); sp.n.add(&Nat::one().shl(k)) } _ => { let mut w = sp.n.to_be(l); let i = s.range(0, l - 1); w[i] = w[i].wrapping_add(s.pick(&[1, 255])); Nat::from_be(&w) }
    };
    let b = match s.below(5) { 0 => d.to_be_min(), 1 => [vec![0; s.range(1, 20)], d.to_be_min()].concat(), 2 if d.bits() <= l * 8 => [s.bytes(1), d.to_be(l)].concat(), _ => { let n = l.max((d.bits() + 7) / 8); d.to_be(n) } };
    let dn = Nat::from_be(&b); let want = sp.scalar_ok(&dn);
    s.note = format!("{c:?} {}", hex(&b));
    let got = ec::priv_accepts(c, &b);
    ck!(got.is_some() == want, "raw scalar {} accepted={} want {want}", s.note, got.is_some());
    if let Some(g) = got { eq!(g, dn.to_be(l), "value") }
    let sec = { let par = s.chance(1, 2); e_sec1(c, &b, par, None) };
    ck!(ec_import(c, false, &sec).is_some() == want, "SEC1 scalar {} want {want}", s.note);
    ck!(ec_import(c, true, &e_ec_pkcs8(c, &sec, None)).is_some() == want, "PKCS#8 scalar {} want {want}", s.note);
    Ok(())
}
fn c09_pub_mismatch(s: &mut Src) -> R {
    let c = s.pick(&C::ALL); let d = ec::scalar(s, c); let l = c.len(); let pk = ec::real_pub(c, &d.to_be(l));
    let mut bad = pk.clone();
    match s.below(7) {
        0 => { s.flip(&mut bad); } 1 => { let n = s.range(0, 2 * l); bad.truncate(n) } 2 => bad.push(s.u64() as u8), 3 => bad = ec::real_pub(c, &ec::scalar(s, c).to_be(l)),
        4 => { let p = c.sp().dec(&pk).unwrap(); bad = c.sp().enc(&c.sp().neg(&Some(p))) } 5 => { bad.truncate(1 + l); bad[0] = 2 + (pk[2 * l] & 1) } _ => bad = [&pk[1..], &[][..]].concat(),
    }
    s.note = format!("{c:?} d={} pk={}", hex(&d.to_be(l)), hex(&bad));
    for (which, pk) in [("right", pk.clone()), ("wrong", bad)] {
        let want = which == "right" || pk == ec::real_pub(c, &d.to_be(l));
        let par = s.chance(1, 2);
        let sec = e_sec1(c, &d.to_be(l), par, Some(&pk)); let sec0 = e_sec1(c, &d.to_be(l), par, None);
        ck!(ec_import(c, false, &sec).is_some() == want, "{which} public key in SEC1: {}", s.note);
        ck!(ec_import(c, true, &e_ec_pkcs8(c, &sec, None)).is_some() == want, "{which} public key in SEC1 in PKCS#8: {}", s.note);
        ck!(ec_import(c, true, &e_ec_pkcs8(c, &sec0, Some(&pk))).is_some() == want, "{which} public key in PKCS#8: {}", s.note);
    }
    Ok(())
}
fn c09_ed(s: &mut Src) -> R {
    let n = s.pick(&[32usize, 32, 31, 33, 0, 64, 1]); let seed = s.bytes(n);
    let k = Ed25519SigningKey::from_bytes(&seed); ck!(k.is_ok() == (n == 32), "seed of {n} bytes");
    ck!(Ed25519SigningKey::from_pkcs8_der(&e_pkcs8(&alg_ed(), &tlv(4, &seed), None)).is_ok() == (n == 32), "PKCS#8 seed of {n} bytes");
    if let Ok(k) = k {
        let mut pk = k.public_key().as_bytes().to_vec();
        ck!(Ed25519SigningKey::from_pkcs8_der(&e_pkcs8(&alg_ed(), &tlv(4, &seed), Some(&pk))).is_ok(), "matching public key refused");
        match s.below(3) { 0 => { s.flip(&mut pk); } 1 => { pk.pop(); } _ => pk.push(0) }
        ck!(Ed25519SigningKey::from_pkcs8_der(&e_pkcs8(&alg_ed(), &tlv(4, &seed), Some(&pk))).is_err(), "wrong public key accepted");
    }
    Ok(())
}
/// wrong algorithm identifiers, curves and versions
fn c09_alg(s: &mut Src) -> R {
    let algs = [alg_ec(C::P256), alg_ec(C::P384), alg_rsa(), alg_ed(), tlv(6, OID_EC), tlv(6, OID_RSA), [tlv(6, OID_ED), vec![5, 0]].concat(), [tlv(6, OID_EC), vec![5, 0]].concat(), [tlv(6, OID_RSA), tlv(6, OID_P256)].concat(), [tlv(6, OID_P256), tlv(6, OID_EC)].concat(), [tlv(6, &OID_EC[..6]), tlv(6, OID_P256)].concat(), [tlv(6, OID_EC), tlv(6, &OID_P256[..7])].concat(), [tlv(6, OID_EC), tlv(6, &[OID_P256, &[0]].concat())].concat(), [tlv(6, OID_RSA), vec![5, 1, 0]].concat(), [tlv(6, OID_RSA), vec![4, 0]].concat()];
    let i = s.below(algs.len() as u64) as usize;
    let ver = s.pick(&[0u64, 0, 0, 1, 2, 255, 256]);
    let d: Vec<Nat> = C::ALL.iter().map(|c| ec::scalar(s, *c)).collect();
    let seed: [u8; 32] = s.arr();
    let rk = rsa_key(s, 2600);
    let wrap = |k: &[u8]| seq(&[&int(&Nat::from_u64(ver)), &tlv(0x30, &algs[i]), &tlv(4, k)]);
    s.note = format!("alg {} version {ver}", hex(&algs[i]));
    for (j, c) in C::ALL.iter().enumerate() {
        for k in 0..2 { let par = C::ALL[k];
            let sec = { let mut p = e_sec1(par, &d[j].to_be(c.len()), true, None); if k != j { p = e_sec1(par, &d[j].to_be(c.len()), true, None) } p };
            ck!(ec_import(*c, true, &wrap(&sec)).is_some() == (ver == 0 && i == j && k == j), "{c:?} with {} and SEC1 curve {par:?}", s.note);
            ck!(ec_import(*c, false, &sec).is_some() == (k == j), "{c:?} SEC1 curve {par:?}"); }
    }
    ck!(rsa::SigningKey::from_pkcs8_der(&wrap(&rk.der())).is_ok() == (ver == 0 && i == 2), "RSA with {}", s.note);
    ck!(Ed25519SigningKey::from_pkcs8_der(&wrap(&tlv(4, &seed))).is_ok() == (ver == 0 && i == 3), "Ed25519 with {}", s.note);
    // SEC1 / PKCS#1 versions
    let sv = s.pick(&[0u64, 1, 2, 3, 257]);
    for (j, c) in C::ALL.iter().enumerate() { ck!(ec_import(*c, false, &seq(&[&int(&Nat::from_u64(sv)), &tlv(4, &d[j].to_be(c.len()))])).is_some() == (sv == 1), "{c:?} SEC1 version {sv}") }
    let mut p1 = rk.der(); let at = p1.iter().position(|x| *x == 2).unwrap() + 2; p1[at] = sv as u8; ck!(rsa::SigningKey::from_pkcs1_der(&p1).is_ok() == (sv as u8 == 0), "PKCS#1 version {sv}");
    Ok(())
}
/// whatever RSA key is imported, every later operation returns (value or error), and never a wrong signature
fn c09_rsa_use(s: &mut Src) -> R {
    let mut k = rsa_key(s, 2600);
    let ps = primes();
    let val = |s: &mut Src, max: usize| -> Nat { match s.below(6) { 0 => Nat::zero(), 1 => Nat::one(), 2 => Nat::from_be(&vec![0xff; max]), 3 => { let n = s.range(1, max); Nat::from_be(&s.bytes(n)) } 4 => s.pick(ps), _ => Nat::from_u64(s.word()) } };
    for _ in 0..s.pick(&[1, 1, 2, 3]) {
        match s.below(9) {
            0 => k.n = { let n = s.pick(&[256usize, 257, 264, 320, 512, 1024]); let mut b = s.bytes(n); b[0] |= s.pick(&[1, 0x80]); b[n - 1] |= 1; Nat::from_be(&b) },
            1 => k.e = Nat::from_u64(s.pick(&[1, 2, 3, 4, 65536, 0xffff_ffff, 0x8000_0000])),
            2 => k.d = val(s, 1024), 3 => k.p = s.pick(ps), 4 => k.q = s.pick(ps), 5 => k.dp = val(s, 512), 6 => k.dq = val(s, 512), 7 => k.qi = val(s, 512),
            _ => { let t = k.p.clone(); k.p = k.q.clone(); k.q = t; }
        }
    }
    if s.chance(1, 5) { let n = s.range(120, 520); let mut b = s.bytes(n); b[0] |= 0x80; b[n - 1] |= 1; if s.chance(1, 2) { k.p = Nat::from_be(&b) } else { k.q = Nat::from_be(&b) } }
    s.note = hex(&k.der());
    let g = match rsa::SigningKey::from_pkcs1_der(&k.der()) { Ok(g) => g, Err(_) => { s.trivial(); return Ok(()) } };
    let ln = s.pick(&[0usize, 255, 256, 257, 1024]); let mut sig = vec![0u8; ln];
    let m = s.bytes(20);
    let mut full = vec![0u8; 2048];
    let _ = g.to_pkcs1_der(&mut full); let _ = g.to_pkcs8_der(&mut full); let _ = g.public_key().to_spki_der(&mut full);
    let h = gspec::hash::H::S256;
    if let Ok(x) = g.sign_pkcs1_sha256(&mut sig, &m) { ck!(gspec::rsa::verify_pkcs1(&k.n, &k.e, h, &m, x), "inconsistent key produced a wrong signature: {}", hex(&k.der())) }
    let mut sig = vec![0u8; 1024];
    if let Ok(x) = g.sign_pss_sha256(&mut sig, &m) { if k.n.bits() % 8 == 0 { ck!(gspec::rsa::verify_pss(&k.n, &k.e, h, &m, x), "inconsistent key produced a wrong PSS signature: {}", hex(&k.der())) } }
    let _ = g.sign_pkcs1_sha512(&mut sig, &m); let _ = g.sign_pss_sha512(&mut sig, &m);
    Ok(())
}
fn c09_rsa_pub8(s: &mut Src) -> R {
    let k = rsa_key(s, 2600); let mut pk = e_rsa_pub(&k);
    ck!(rsa::SigningKey::from_pkcs8_der(&e_pkcs8(&alg_rsa(), &k.der(), Some(&pk))).is_ok(), "matching RSA public key refused");
    match s.below(3) { 0 => { s.flip(&mut pk); } 1 => pk = seq(&[&int(&k.n), &int(&k.e.add(&Nat::from_u64(2)))]), _ => { pk.push(0) } }
    ck!(rsa::SigningKey::from_pkcs8_der(&e_pkcs8(&alg_rsa(), &k.der(), Some(&pk))).is_err(), "wrong RSA public key accepted: {}", hex(&pk));
    Ok(())
}
pub fn c09() -> Vec<Case> { vec![case("scalar", 4000, 3, c09_scalar), case("pub_mismatch", 1500, 3, c09_pub_mismatch), case("ed", 1000, 1, c09_ed), case("alg", 1000, 2, c09_alg), case("rsa_pub8", 100, 1, c09_rsa_pub8), case("rsa_use", 1200, 5, c09_rsa_use)] }
