//! C25 key exchange, C26 signatures
use crate::core::*;
use gspec::ec::Curve;
use gspec::ed25519::Ed;
use gspec::hash::H;
use gspec::mlkem;
use gspec::nat::Nat;
use gspec::rsa as grsa;
use gspec::x25519::{base, x25519};
use rustls::crypto::SupportedKxGroup;
use rustls::pki_types::{alg_id, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer, SignatureVerificationAlgorithm};
use rustls::{NamedGroup, ProtocolVersion, SignatureAlgorithm, SignatureScheme};

fn groups() -> Vec<&'static dyn SupportedKxGroup> { rustls_graviola::default_provider().kx_groups }
fn scalar(s: &mut Src, c: &Curve) -> Nat { loop { let k = Nat::from_be(&s.bytes(c.len)).rem(&c.n); if c.scalar_ok(&k) { return k } } }

/// our (peer) side of an exchange, from the standards
enum Peer { X([u8; 32]), Ec(&'static Curve, Nat), Hy { x: [u8; 32], dk: Vec<u8>, ek: Vec<u8> } }
impl Peer {
    fn new(s: &mut Src, g: NamedGroup) -> Option<Peer> {
        Some(match g {
            NamedGroup::X25519 => Peer::X(s.arr()),
            NamedGroup::secp256r1 => { let c = Curve::p256(); Peer::Ec(c, scalar(s, c)) }
            NamedGroup::secp384r1 => { let c = Curve::p384(); Peer::Ec(c, scalar(s, c)) }
            NamedGroup::X25519MLKEM768 => { let (ek, dk) = mlkem::keygen(&s.arr(), &s.arr()); Peer::Hy { x: s.arr(), dk, ek } }
            _ => return None,
        })
    }
    fn client_share(&self) -> Vec<u8> { match self { Peer::X(k) => base(k).to_vec(), Peer::Ec(c, k) => c.enc(&c.mul(k, &c.base())), Peer::Hy { x, ek, .. } => [&ek[..], &base(x)].concat() } }
    /// the secret from the other side's server share; None if the share is unusable
    fn client_secret(&self, share: &[u8]) -> Option<Vec<u8>> {
        match self {
            Peer::X(k) => { let o = x25519(k, share.try_into().ok()?); if o == [0; 32] { None } else { Some(o.to_vec()) } }
            Peer::Ec(c, k) => { let q = c.dec(share)?; Some(c.mul(k, &Some(q))?.0.to_be(c.len)) }
            Peer::Hy { x, dk, .. } => { if share.len() != 1120 { return None } let o = x25519(x, share[1088..].try_into().unwrap()); Some([mlkem::decaps(dk, &share[..1088]), o.to_vec()].concat()) }
        }
    }
    /// answer to the other side's client share: (server share, secret)
    fn serve(&self, s: &mut Src, share: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
        match self {
            Peer::Hy { x, .. } => {
                if share.len() != 1216 || !mlkem::ek_ok(&share[..1184]) { return None }
                let (k, c) = mlkem::encaps(&share[..1184], &s.arr());
                Some(([c, base(x).to_vec()].concat(), [k, x25519(x, share[1184..].try_into().unwrap()).to_vec()].concat()))
            }
            _ => Some((self.client_share(), self.client_secret(share)?)),
        }
    }
}
fn exchange(s: &mut Src) -> R {
    for g in groups() {
        let name = g.name();
        let p = Peer::new(s, name).ok_or(format!("unknown group {name:?}"))?;
        s.note = format!("{name:?} peer client share={}", hex(&p.client_share()));
        ck!(g.ffdhe_group().is_none(), "ffdhe");
        let hy = matches!(p, Peer::Hy { .. });
        ck!(g.usable_for_version(ProtocolVersion::TLSv1_3), "not usable for TLS1.3");
        ck!(!hy || !g.usable_for_version(ProtocolVersion::TLSv1_2), "hybrid group usable for TLS1.2");
        // graviola as client
        let a = g.start().map_err(|e| format!("start: {e:?}"))?;
        ck!(a.group() == name, "active group {:?}", a.group());
        let share = a.pub_key().to_vec();
        let (ss, sec) = p.serve(s, &share).ok_or(format!("{name:?} offered a bad share {}", hex(&share)))?;
        if hy {
            let (n, c) = a.hybrid_component().ok_or("no hybrid component")?;
            ck!(n == NamedGroup::X25519, "component {n:?}");
            eq!(c, &share[1184..], "classical component share");
        } else { ck!(a.hybrid_component().is_none(), "unexpected hybrid component"); }
        let r = a.complete(&ss).map_err(|e| format!("complete failed on a valid share: {e:?}"))?;
        eq!(r.secret_bytes(), sec, "{name:?} client secret");
        if hy {
            let a = g.start().map_err(|e| format!("start: {e:?}"))?;
            let k: [u8; 32] = s.arr();
            let cs: [u8; 32] = a.hybrid_component().unwrap().1.try_into().unwrap();
            let r = a.complete_hybrid_component(&base(&k)).map_err(|e| format!("component: {e:?}"))?;
            eq!(r.secret_bytes(), x25519(&k, &cs), "classical component secret");
        }
        // graviola as server
        let d = g.start_and_complete(&p.client_share()).map_err(|e| format!("start_and_complete failed on a valid share: {e:?}"))?;
        ck!(d.group == name, "completed group {:?}", d.group);
        let sec = p.client_secret(&d.pub_key).ok_or(format!("{name:?} answered with a bad share {}", hex(&d.pub_key)))?;
        eq!(d.secret.secret_bytes(), sec, "{name:?} server secret");
        // both sides graviola
        let a = g.start().map_err(|e| format!("start: {e:?}"))?;
        let d = g.start_and_complete(a.pub_key()).map_err(|e| format!("{e:?}"))?;
        let r = a.complete(&d.pub_key).map_err(|e| format!("{e:?}"))?;
        eq!(r.secret_bytes(), d.secret.secret_bytes(), "{name:?} agreement");
    }
    Ok(())
}
const LOW: &[&str] = &["00", "01", "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"];
fn low(s: &mut Src) -> [u8; 32] { let mut o = [0; 32]; let h = s.pick(LOW); for i in 0..h.len() / 2 { o[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap(); } if s.chance(1, 2) { o[31] |= 0x80 } o }
fn bad_share(s: &mut Src, name: NamedGroup, server: bool) -> Vec<u8> {
    let good = { let p = Peer::new(s, name).unwrap(); let c = p.client_share(); if server && c.len() == 1216 { p.serve(s, &c).unwrap().0 } else { c } };
    let mut b = good.clone();
    let n = b.len();
    match s.below(6) {
        0 => { let k = s.range(0, n - 1); b.truncate(k) }
        1 => { let k = s.range(1, 70); b.extend(s.bytes(k)) }
        2 => { b.remove(s.range(0, n - 1)); }
        _ => match name {
            NamedGroup::X25519 => b = low(s).to_vec(),
            NamedGroup::X25519MLKEM768 => match s.below(if server { 1 } else { 2 }) {
                0 => { let l = low(s); b[n - 32..].copy_from_slice(&l) }
                _ => { // a coefficient >= q
                    let i = s.range(0, 767); let v = s.pick(&[3329u32, 3330, 4095, 3329 + s.idx as u32 % 767]); let o = i / 2 * 3;
                    if i % 2 == 0 { b[o] = v as u8; b[o + 1] = b[o + 1] & 0xf0 | (v >> 8) as u8 } else { b[o + 1] = b[o + 1] & 15 | (v << 4) as u8; b[o + 2] = (v >> 4) as u8 } }
            },
            _ => { let c = if n == 65 { Curve::p256() } else { Curve::p384() };
                match s.below(6) {
                    0 => b[0] = s.pick(&[0u8, 1, 2, 3, 5, 6, 7, 0x84]),
                    1 => { s.flip(&mut b[1..]); }
                    2 => { b[1..].fill(0) }
                    3 => { let x = Nat::from_be(&b[1..1 + c.len]).add(&c.p); if x.bits() <= c.len * 8 { b[1..1 + c.len].copy_from_slice(&x.to_be(c.len)) } else { b[1..1 + c.len].copy_from_slice(&c.p.to_be(c.len)) } }
                    4 => { b = [vec![2 + (b[n - 1] & 1)], b[1..1 + c.len].to_vec()].concat() }
                    _ => { b = vec![0] }
                } }
        },
    }
    b
}
fn reject(s: &mut Src) -> R {
    for g in groups() {
        let name = g.name();
        for server in [false, true] {
            let b = bad_share(s, name, server);
            // the oracle decides; an alteration may leave the share valid
            let p = Peer::new(s, name).unwrap();
            let bad = match &p { Peer::Hy { .. } if server => b.len() != 1120 || x25519(&s.arr(), b[1088..].try_into().unwrap()) == [0; 32],
                Peer::Hy { .. } => b.len() != 1216 || !mlkem::ek_ok(&b[..1184]) || x25519(&s.arr(), b[1184..].try_into().unwrap()) == [0; 32],
                p => p.client_secret(&b).is_none() };
            s.note = format!("{name:?} {} share={}", if server { "server" } else { "client" }, hex(&b));
            let ok = if server { let a = g.start().map_err(|e| format!("{e:?}"))?; a.complete(&b).is_ok() } else { g.start_and_complete(&b).is_ok() };
            ck!(ok != bad, "share {}", if bad { "must be rejected but was accepted" } else { "is valid but was rejected" });
        }
    }
    Ok(())
}
fn lengths(s: &mut Src) -> R {
    let l = s.idx as usize;
    for g in groups() {
        let b = s.bytes(l);
        let want: &[usize] = match g.name() { NamedGroup::X25519 => &[32], NamedGroup::secp256r1 => &[65], NamedGroup::secp384r1 => &[97], _ => &[1120, 1216] };
        if want.contains(&l) { continue }
        s.note = format!("{:?} length {l}", g.name());
        ck!(g.start_and_complete(&b).is_err(), "client share of {l} bytes accepted");
        let a = g.start().map_err(|e| format!("{e:?}"))?;
        ck!(a.complete(&b).is_err(), "server share of {l} bytes accepted");
        if g.name() == NamedGroup::X25519MLKEM768 && l != 32 { let a = g.start().map_err(|e| format!("{e:?}"))?; ck!(a.complete_hybrid_component(&b).is_err(), "component share of {l} bytes accepted"); }
    }
    Ok(())
}
pub fn c25() -> Vec<Case> { vec![case("exchange", 60, 4, exchange), case("reject", 150, 4, reject), once("lengths", 1300, lengths)] }

// ---------------------------------------------------------------- signatures
use crate::der::{self as kd, rsa_key};
use gspec::der::{enc_ecdsa_sig, ecdsa_sig, int, seq, tlv};
#[derive(Clone)]
enum Key { Rsa(grsa::Priv), Ec(&'static Curve, Nat), Ed([u8; 32]) }
fn oid(c: &Curve) -> &'static [u8] { if c.len == 32 { kd::OID_P256 } else { kd::OID_P384 } }
fn null() -> Vec<u8> { vec![5, 0] }
impl Key {
    fn gen(s: &mut Src) -> Key { match s.below(4) { 0 => Key::Rsa(loop { let k = rsa_key(s, 2048); if k.n.bits() % 8 == 0 { break k } }), 1 => Key::Ec(Curve::p256(), scalar(s, Curve::p256())), 2 => Key::Ec(Curve::p384(), scalar(s, Curve::p384())), _ => Key::Ed(s.arr()) } }
    fn der(&self, s: &mut Src) -> PrivateKeyDer<'static> {
        let p8 = |alg: Vec<u8>, k: Vec<u8>| PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(seq(&[&int(&Nat::zero()), &alg, &tlv(4, &k)])));
        match self {
            Key::Rsa(k) => { if s.chance(1, 2) { PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(k.der())) } else { p8(seq(&[&tlv(6, kd::OID_RSA), &null()]), k.der()) } }
            Key::Ec(c, d) => {
                let pk = tlv(0xa1, &tlv(3, &[vec![0], c.enc(&c.mul(d, &c.base()))].concat()));
                if s.chance(1, 2) { PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(seq(&[&int(&Nat::one()), &tlv(4, &d.to_be(c.len)), &tlv(0xa0, &tlv(6, oid(c))), &pk]))) }
                else { p8(seq(&[&tlv(6, kd::OID_EC), &tlv(6, oid(c))]), seq(&[&int(&Nat::one()), &tlv(4, &d.to_be(c.len)), &pk])) }
            }
            Key::Ed(k) => p8(seq(&[&tlv(6, kd::OID_ED)]), tlv(4, k)),
        }
    }
    fn spki(&self) -> Vec<u8> {
        let (a, k) = match self { Key::Rsa(_) => (seq(&[&tlv(6, kd::OID_RSA), &null()]), self.public()), Key::Ec(c, _) => (seq(&[&tlv(6, kd::OID_EC), &tlv(6, oid(c))]), self.public()), Key::Ed(_) => (seq(&[&tlv(6, kd::OID_ED)]), self.public()) };
        seq(&[&a, &tlv(3, &[vec![0], k].concat())])
    }
    fn public(&self) -> Vec<u8> { match self { Key::Rsa(k) => seq(&[&int(&k.n), &int(&k.e)]), Key::Ec(c, d) => c.enc(&c.mul(d, &c.base())), Key::Ed(k) => Ed::get().public(k).to_vec() } }
    fn schemes(&self) -> Vec<SignatureScheme> {
        use SignatureScheme as S;
        match self { Key::Rsa(_) => vec![S::RSA_PSS_SHA512, S::RSA_PSS_SHA384, S::RSA_PSS_SHA256, S::RSA_PKCS1_SHA512, S::RSA_PKCS1_SHA384, S::RSA_PKCS1_SHA256], Key::Ec(c, _) => vec![if c.len == 32 { S::ECDSA_NISTP256_SHA256 } else { S::ECDSA_NISTP384_SHA384 }], Key::Ed(_) => vec![S::ED25519] }
    }
    fn alg(&self) -> SignatureAlgorithm { match self { Key::Rsa(_) => SignatureAlgorithm::RSA, Key::Ec(..) => SignatureAlgorithm::ECDSA, Key::Ed(_) => SignatureAlgorithm::ED25519 } }
}
/// what a signature is made with, independent of names
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Pkcs1(H), Pss(H), EcAsn1(H), EcFixed(H), Ed }
fn meaning(s: SignatureScheme) -> Option<K> {
    use SignatureScheme as S;
    Some(match s { S::RSA_PSS_SHA512 => K::Pss(H::S512), S::RSA_PSS_SHA384 => K::Pss(H::S384), S::RSA_PSS_SHA256 => K::Pss(H::S256), S::RSA_PKCS1_SHA512 => K::Pkcs1(H::S512), S::RSA_PKCS1_SHA384 => K::Pkcs1(H::S384), S::RSA_PKCS1_SHA256 => K::Pkcs1(H::S256), S::ECDSA_NISTP256_SHA256 => K::EcAsn1(H::S256), S::ECDSA_NISTP384_SHA384 => K::EcAsn1(H::S384), S::ED25519 => K::Ed, _ => return None })
}
fn verify(k: &Key, how: K, m: &[u8], sig: &[u8]) -> bool {
    match (k, how) {
        (Key::Rsa(k), K::Pkcs1(h)) => grsa::verify_pkcs1(&k.n, &k.e, h, m, sig),
        (Key::Rsa(k), K::Pss(h)) => grsa::verify_pss(&k.n, &k.e, h, m, sig),
        (Key::Ec(c, d), K::EcAsn1(h)) => ecdsa_sig(sig).is_some_and(|(r, s)| c.verify(&c.mul(d, &c.base()).unwrap(), &h.hash(m), &r, &s)),
        (Key::Ed(k), K::Ed) => Ed::get().verify(&Ed::get().public(k), m, sig) == Some(true),
        _ => false,
    }
}
fn make(s: &mut Src, k: &Key, how: K, m: &[u8]) -> Option<Vec<u8>> {
    Some(match (k, how) {
        (Key::Rsa(k), K::Pkcs1(h)) => { let l = (k.n.bits() + 7) / 8; k.sign_raw(&Nat::from_be(&grsa::emsa_pkcs1(h, m, l))).to_be(l) }
        (Key::Rsa(k), K::Pss(h)) => { let l = (k.n.bits() + 7) / 8; let salt = s.bytes(h.len()); k.sign_raw(&Nat::from_be(&grsa::emsa_pss(h, m, &salt, k.n.bits() - 1))).to_be(l) }
        (Key::Ec(c, d), K::EcAsn1(h)) => { let n = scalar(s, c); let (r, t) = c.sign(d, &h.hash(m), &n)?; enc_ecdsa_sig(&r, &t) }
        (Key::Ec(c, d), K::EcFixed(h)) => { let n = scalar(s, c); let (r, t) = c.sign(d, &h.hash(m), &n)?; [r.to_be(c.len), t.to_be(c.len)].concat() }
        (Key::Ed(k), K::Ed) => Ed::get().sign(k, m).to_vec(),
        _ => return None,
    })
}
const OFFER: &[SignatureScheme] = &[SignatureScheme::RSA_PSS_SHA512, SignatureScheme::RSA_PSS_SHA384, SignatureScheme::RSA_PSS_SHA256, SignatureScheme::RSA_PKCS1_SHA512, SignatureScheme::RSA_PKCS1_SHA384, SignatureScheme::RSA_PKCS1_SHA256, SignatureScheme::ECDSA_NISTP256_SHA256, SignatureScheme::ECDSA_NISTP384_SHA384, SignatureScheme::ECDSA_NISTP521_SHA512, SignatureScheme::ED25519, SignatureScheme::ED448, SignatureScheme::RSA_PKCS1_SHA1, SignatureScheme::ECDSA_SHA1_Legacy];
fn sign(s: &mut Src) -> R {
    let kp = rustls_graviola::default_provider().key_provider;
    let k = Key::gen(s);
    let d = k.der(s);
    s.note = format!("private key {}", hex(d.secret_der()));
    let sk = kp.load_private_key(d).map_err(|e| format!("valid key rejected: {e:?}"))?;
    ck!(sk.algorithm() == k.alg(), "algorithm {:?}", sk.algorithm());
    match sk.public_key() { Some(p) => eq!(p.as_ref(), k.spki(), "public key"), None => return Err("no public key".into()) }
    let mine = k.schemes();
    for i in 0..10 {
        let mut offer: Vec<SignatureScheme> = OFFER.iter().copied().filter(|_| s.chance(1, 3)).collect();
        if i < 3 { offer.push(s.pick(&mine)); }
        if i == 3 { offer.retain(|x| !mine.contains(x)); }
        for j in (1..offer.len()).rev() { let q = s.range(0, j); offer.swap(j, q) }
        let possible: Vec<_> = offer.iter().filter(|x| mine.contains(x)).collect();
        let note = format!("{} offer={offer:?}", s.note);
        match sk.choose_scheme(&offer) {
            None => ck!(possible.is_empty(), "no scheme chosen from {offer:?} ({note})"),
            Some(sg) => {
                let sch = sg.scheme();
                ck!(possible.contains(&&sch), "chose {sch:?} from {offer:?} ({note})");
                let l = s.len(300);
                let m = s.bytes(l);
                let sig = sg.sign(&m).map_err(|e| format!("signing failed: {e:?}"))?;
                ck!(verify(&k, meaning(sch).unwrap(), &m, &sig), "signature for {sch:?} is not valid for it: message={} signature={} ({note})", hex(&m), hex(&sig));
            }
        }
    }
    Ok(())
}
fn bad_keys(s: &mut Src) -> R {
    let kp = rustls_graviola::default_provider().key_provider;
    let k = Key::gen(s);
    let d = k.der(s);
    let mut b = d.secret_der().to_vec();
    let n = b.len();
    match s.below(4) { 0 => { b.truncate(s.range(0, n - 1)) } 1 => b.push(0), 2 => { b[s.range(0, 8)] ^= 1 << s.below(8) } _ => { s.flip(&mut b); } }
    s.note = format!("private key {}", hex(&b));
    let d2 = match &d { PrivateKeyDer::Pkcs1(_) => PrivateKeyDer::Pkcs1(b.clone().into()), PrivateKeyDer::Sec1(_) => PrivateKeyDer::Sec1(b.clone().into()), _ => PrivateKeyDer::Pkcs8(b.clone().into()) };
    // must not panic; truncation and trailing data are never accepted
    let r = kp.load_private_key(d2);
    ck!(b.len() == n || r.is_err(), "truncated or extended private key accepted");
    if let Ok(k) = r { if let Some(sg) = k.choose_scheme(OFFER) { let _ = sg.sign(b"x"); } let _ = k.public_key(); }
    // container confusion
    if !matches!(d, PrivateKeyDer::Pkcs8(_)) {
        ck!(kp.load_private_key(PrivateKeyDer::Pkcs8(d.secret_der().to_vec().into())).is_err(), "non-PKCS#8 key loaded as PKCS#8");
        let o = if matches!(d, PrivateKeyDer::Pkcs1(_)) { PrivateKeyDer::Sec1(d.secret_der().to_vec().into()) } else { PrivateKeyDer::Pkcs1(d.secret_der().to_vec().into()) };
        ck!(kp.load_private_key(o).is_err(), "key loaded as the wrong container");
    }
    Ok(())
}
fn alg_meaning(a: &dyn SignatureVerificationAlgorithm) -> Option<(u8, K)> {
    let (p, g) = (a.public_key_alg_id(), a.signature_alg_id());
    let kt = if p == alg_id::ECDSA_P256 { 1 } else if p == alg_id::ECDSA_P384 { 2 } else if p == alg_id::ED25519 { 3 } else if p == alg_id::RSA_ENCRYPTION { 0 } else { return None };
    let k = if g == alg_id::ECDSA_SHA256 { K::EcAsn1(H::S256) } else if g == alg_id::ECDSA_SHA384 { K::EcAsn1(H::S384) } else if g == alg_id::ECDSA_SHA512 { K::EcAsn1(H::S512) } else if g == alg_id::ED25519 { K::Ed }
        else if g == alg_id::RSA_PKCS1_SHA256 { K::Pkcs1(H::S256) } else if g == alg_id::RSA_PKCS1_SHA384 { K::Pkcs1(H::S384) } else if g == alg_id::RSA_PKCS1_SHA512 { K::Pkcs1(H::S512) }
        else if g == alg_id::RSA_PSS_SHA256 { K::Pss(H::S256) } else if g == alg_id::RSA_PSS_SHA384 { K::Pss(H::S384) } else if g == alg_id::RSA_PSS_SHA512 { K::Pss(H::S512) } else { return None };
    if match k { K::Ed => kt != 3, K::EcAsn1(_) => kt != 1 && kt != 2, _ => kt != 0 } { return None }
    Some((kt, k))
}
fn kt(k: &Key) -> u8 { match k { Key::Rsa(_) => 0, Key::Ec(c, _) => if c.len == 32 { 1 } else { 2 }, Key::Ed(_) => 3 } }
fn verify_algs(s: &mut Src) -> R {
    let algs = rustls_graviola::default_provider().signature_verification_algorithms;
    let k = Key::gen(s);
    let pk = k.public();
    let l = s.len(200);
    let m = s.bytes(l);
    const HS: [H; 3] = [H::S256, H::S384, H::S512];
    let kinds: Vec<K> = match &k { Key::Rsa(_) => HS.iter().flat_map(|h| [K::Pkcs1(*h), K::Pss(*h)]).collect(), Key::Ec(..) => HS.iter().flat_map(|h| [K::EcAsn1(*h), K::EcFixed(*h)]).collect(), Key::Ed(_) => vec![K::Ed] };
    for how in kinds {
        let Some(sig) = make(s, &k, how, &m) else { continue };
        let mut sig2 = sig.clone();
        s.flip(&mut sig2);
        let mut pk2 = pk.clone();
        if s.chance(1, 2) { s.flip(&mut pk2); } else { pk2.push(0) }
        let m2 = if m.is_empty() { vec![0] } else { let mut x = m.clone(); s.flip(&mut x); x };
        for a in algs.all {
            let (t, ak) = alg_meaning(*a).ok_or(format!("inconsistent algorithm {a:?}"))?;
            s.note = format!("{a:?} key={} message={} signature({how:?})={}", hex(&pk), hex(&m), hex(&sig));
            let want = t == kt(&k) && ak == how;
            ck!(a.verify_signature(&pk, &m, &sig).is_ok() == want, "algorithm {ak:?} for key type {t} {} a {how:?} signature by key type {}", if want { "rejected" } else { "accepted" }, kt(&k));
            if want {
                ck!(a.verify_signature(&pk, &m2, &sig).is_err(), "accepted for another message");
                ck!(a.verify_signature(&pk, &m, &sig2).is_ok() == verify(&k, how, &m, &sig2), "altered signature {}", hex(&sig2));
                ck!(a.verify_signature(&pk2, &m, &sig).is_err(), "accepted with altered key {}", hex(&pk2));
                ck!(a.verify_signature(&pk, &m, &[]).is_err() && a.verify_signature(&[], &m, &sig).is_err() && a.verify_signature(&pk, &m, &sig[1..]).is_err(), "empty or truncated input accepted");
            }
        }
    }
    Ok(())
}
fn mapping(_: &mut Src) -> R {
    let algs = rustls_graviola::default_provider().signature_verification_algorithms;
    let mut seen = vec![];
    for a in algs.all { let m = alg_meaning(*a).ok_or(format!("inconsistent algorithm {a:?}"))?; ck!(!seen.contains(&m), "{m:?} listed twice"); seen.push(m); }
    let mut done = vec![];
    for (sch, v) in algs.mapping {
        ck!(!done.contains(sch), "{sch:?} mapped twice"); done.push(*sch);
        let want = meaning(*sch).ok_or(format!("unexpected scheme {sch:?}"))?;
        ck!(!v.is_empty(), "{sch:?} maps to nothing");
        for (i, a) in v.iter().enumerate() {
            let (t, k) = alg_meaning(*a).ok_or(format!("inconsistent algorithm {a:?}"))?;
            ck!(k == want, "{sch:?} maps to {k:?}");
            // TLS1.3 uses the first entry and binds the curve
            if i == 0 { let c = match sch { SignatureScheme::ECDSA_NISTP256_SHA256 => 1, SignatureScheme::ECDSA_NISTP384_SHA384 => 2, SignatureScheme::ED25519 => 3, _ => 0 }; ck!(t == c, "{sch:?} first maps to key type {t}"); }
        }
    }
    for sch in OFFER { if meaning(*sch).is_some() { ck!(done.contains(sch), "{sch:?} is not verifiable"); } }
    Ok(())
}
pub fn c26() -> Vec<Case> { vec![case("sign", 40, 3, sign), case("bad_keys", 200, 1, bad_keys), case("verify_algs", 60, 3, verify_algs), once("mapping", 1, mapping)] }
