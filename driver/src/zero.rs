use crate::core::*;
use gspec::nat::Nat;
use std::mem::MaybeUninit;

/// Place `v` in memory of our own, drop it there and return that memory before and after.
fn dropped<T>(v: T) -> (Vec<u8>, Vec<u8>) {
    let n = std::mem::size_of::<T>();
    let mut b: Box<MaybeUninit<T>> = Box::new(MaybeUninit::zeroed());
    unsafe {
        let p = b.as_mut_ptr(); let q = p as *const u8;
        std::ptr::copy_nonoverlapping(&v as *const T as *const u8, p as *mut u8, n); std::mem::forget(v);
        let before = (0..n).map(|i| std::ptr::read_volatile(q.add(i))).collect();
        std::ptr::drop_in_place(p);
        let after = (0..n).map(|i| std::ptr::read_volatile(q.add(i))).collect();
        (before, after)
    }
}
/// no 8-byte piece of a secret (either byte order) is left in the memory
fn no_secret<T>(what: &str, v: T, secrets: &[Vec<u8>]) -> R { no_secret_but(what, v, secrets, &[]) }
fn no_secret_but<T>(what: &str, v: T, secrets: &[Vec<u8>], public: &[Vec<u8>]) -> R {
    let public: Vec<Vec<u8>> = public.iter().flat_map(|p| { let mut r = p.clone(); r.reverse(); [p.clone(), r] }).collect(); let pubset: std::collections::HashSet<&[u8]> = public.iter().flat_map(|p| p.windows(8)).collect();
    let (before, after) = dropped(v); let mut seen = 0;
    let set: std::collections::HashSet<&[u8]> = after.windows(8).collect(); let setb: std::collections::HashSet<&[u8]> = before.windows(8).collect();
    for (k, s) in secrets.iter().enumerate() { for rev in [false, true] { let mut s = s.clone(); if rev { s.reverse() }
        for (o, w) in s.windows(8).enumerate() { if w.iter().filter(|x| **x == 0).count() > 1 || w.iter().collect::<std::collections::HashSet<_>>().len() < 5 { continue } if pubset.contains(w) { continue } if setb.contains(w) { seen += 1 } ck!(!set.contains(w), "{what}: bytes {o}.. of secret {k} remain after drop: {}", hex(w)) } } }
    ck!(seen > 0 || secrets.is_empty(), "{what}: the secret was not found in the object before drop (check lost its subject)");
    Ok(())
}
/// nothing of the former content is left, except at most `slack` bytes (discriminants, padding)
fn all_gone<T>(what: &str, v: T, slack: usize) -> R {
    let (before, after) = dropped(v); let left = after.iter().filter(|x| **x != 0).count();
    ck!(left <= slack, "{what}: {left} non-zero bytes of {} remain after drop: {}", before.len(), hex(&after)); Ok(())
}
fn nz(s: &mut Src, n: usize) -> Vec<u8> { (0..n).map(|_| s.range(1, 255) as u8).collect() }

fn aead(s: &mut Src) -> R {
    use graviola::aead::*;
    for n in [16usize, 32] { let k = nz(s, n); s.note = hex(&k); let a = AesGcm::new(&k); let mut t = [0; 16]; let mut b = vec![1; s.range(0, 300)]; a.encrypt(&[3; 12], b"x", &mut b, &mut t); no_secret("AesGcm", a, &[k.clone()])?; all_gone("AesGcm", AesGcm::new(&k), 0)? }
    let k: [u8; 32] = nz(s, 32).try_into().unwrap(); s.note = hex(&k);
    no_secret("ChaCha20Poly1305", ChaCha20Poly1305::new(k), &[k.to_vec()])?; all_gone("ChaCha20Poly1305", ChaCha20Poly1305::new(k), 0)?;
    no_secret("XChaCha20Poly1305", XChaCha20Poly1305::new(k), &[k.to_vec()])?; all_gone("XChaCha20Poly1305", XChaCha20Poly1305::new(k), 0)
}
fn agree(s: &mut Src) -> R {
    use graviola::key_agreement::{p256, p384, x25519};
    let k: [u8; 32] = nz(s, 32).try_into().unwrap(); s.note = hex(&k);
    no_secret("x25519::StaticPrivateKey", x25519::StaticPrivateKey::from_array(&k), &[k.to_vec()])?; all_gone("x25519::StaticPrivateKey", x25519::StaticPrivateKey::from_array(&k), 0)?;
    all_gone("x25519::PrivateKey", x25519::PrivateKey::new_random().unwrap(), 0)?;
    let x = x25519::StaticPrivateKey::from_array(&k).diffie_hellman(&x25519::PublicKey::from_array(&[9; 32])).unwrap(); let b = x.0.to_vec(); no_secret("x25519::SharedSecret", x, &[b])?; let x = x25519::StaticPrivateKey::from_array(&k).diffie_hellman(&x25519::PublicKey::from_array(&[9; 32])).unwrap(); all_gone("x25519::SharedSecret", x, 0)?;
    let mut k = nz(s, 32); k[0] = 1; s.note = hex(&k);
    no_secret("p256::StaticPrivateKey", p256::StaticPrivateKey::from_bytes(&k).unwrap(), &[k.clone()])?; all_gone("p256::StaticPrivateKey", p256::StaticPrivateKey::from_bytes(&k).unwrap(), 0)?;
    all_gone("p256::PrivateKey", p256::PrivateKey::new_random().unwrap(), 0)?;
    let sk = p256::StaticPrivateKey::from_bytes(&k).unwrap(); let pk = p256::PublicKey::from_x962_uncompressed(&sk.public_key_uncompressed()).unwrap(); all_gone("p256::SharedSecret", sk.diffie_hellman(&pk).unwrap(), 0)?;
    let mut k = nz(s, 48); k[0] = 1; s.note = hex(&k);
    no_secret("p384::StaticPrivateKey", p384::StaticPrivateKey::from_bytes(&k).unwrap(), &[k.clone()])?; all_gone("p384::StaticPrivateKey", p384::StaticPrivateKey::from_bytes(&k).unwrap(), 0)?;
    all_gone("p384::PrivateKey", p384::PrivateKey::new_random().unwrap(), 0)?;
    let sk = p384::StaticPrivateKey::from_bytes(&k).unwrap(); let pk = p384::PublicKey::from_x962_uncompressed(&sk.public_key_uncompressed()).unwrap(); all_gone("p384::SharedSecret", sk.diffie_hellman(&pk).unwrap(), 0)
}
fn sign(s: &mut Src) -> R {
    use graviola::signing::{ecdsa, eddsa::Ed25519SigningKey};
    let seed = nz(s, 32); s.note = hex(&seed); let h = gspec::hash::H::S512.hash(&seed); let mut sc = h[..32].to_vec(); sc[0] &= 248; sc[31] &= 127; sc[31] |= 64;
    let k = Ed25519SigningKey::from_bytes(&seed).unwrap(); if s.chance(1, 2) { k.sign(b"m"); } no_secret("Ed25519SigningKey", k, &[seed.clone(), sc, h[32..].to_vec()])?;
    let k = ecdsa::SigningKey::<ecdsa::P256> { private_key: graviola::key_agreement::p256::StaticPrivateKey::from_bytes(&{ let mut k = nz(s, 32); k[0] = 1; k }).unwrap() }; all_gone("ecdsa::SigningKey<P256>", k, 0)?;
    let k = ecdsa::SigningKey::<ecdsa::P384> { private_key: graviola::key_agreement::p384::StaticPrivateKey::from_bytes(&{ let mut k = nz(s, 48); k[0] = 1; k }).unwrap() }; all_gone("ecdsa::SigningKey<P384>", k, 0)
}
fn rsa(s: &mut Src) -> R {
    let mx = s.pick(&[2100, 2200, 3200, 4200]); let k = crate::der::rsa_key(s, mx); s.note = hex(&k.der());
    let g = graviola::signing::rsa::SigningKey::from_pkcs1_der(&k.der()).map_err(|e| format!("{e:?}"))?;
    if s.chance(1, 3) { let mut b = vec![0; 1024]; g.sign_pkcs1_sha256(&mut b, b"m").map_err(|e| format!("{e:?}"))?; }
    let w = (k.p.bits() + 63) / 64; let r = Nat::one().shl(64 * w); let mont = |p: &Nat| r.mul(&r).rem(p);
    let neginv = |p: &Nat| { let m = Nat::one().shl(64); m.sub(&p.rem(&m).invm(&m).unwrap()) };
    let sec: Vec<Nat> = vec![k.p.clone(), k.q.clone(), k.d.clone(), k.dp.clone(), k.dq.clone(), k.qi.clone(), mont(&k.p), mont(&k.q), k.qi.mul(&r).rem(&k.p)];
    let mut sec: Vec<Vec<u8>> = sec.iter().map(|x| x.to_be_min()).collect(); for p in [&k.p, &k.q] { sec.push(neginv(p).to_be(8)) }
    let rn = Nat::one().shl(64 * ((k.n.bits() + 63) / 64)); no_secret_but("rsa::SigningKey", g, &sec, &[k.n.to_be_min(), rn.mul(&rn).rem(&k.n).to_be_min(), rn.rem(&k.n).to_be_min(), neginv(&k.n).to_be(8)])
}
fn kem(s: &mut Src) -> R {
    use graviola::key_agreement::mlkem768::*;
    let seed: [u8; 64] = nz(s, 64).try_into().unwrap(); s.note = hex(&seed); let k = DecapKey::keygen_internal(&seed); let dk = k.as_bytes(); let m: [u8; 32] = nz(s, 32).try_into().unwrap();
    let (x, c) = k.encapsulation_key().encaps_internal(Message(m)); let b = x.as_ref().to_vec(); no_secret("mlkem768::SharedSecret", x, &[b])?;
    all_gone("mlkem768::SharedSecret", k.decaps_internal(&c), 0)?; all_gone("mlkem768::Message", Message(m), 0)?;
    no_secret("mlkem768::DecapKey", k, &[dk[..1152].to_vec(), dk[2368..].to_vec()])
}
#[cfg(feature = "h_zero")]
extern "Rust" {
    fn gvd_zero(kind: u32, buf: &mut [u64], a: usize, b: usize);
    fn gvd_zero8(buf: &mut [u8]);
    fn gvd_rsa_buffer(fill: u8) -> Vec<u8>;
}
#[cfg(feature = "h_zero")]
fn prim(s: &mut Src) -> R {
    let n = s.range(0, 700); let a = s.range(0, 70); let z = s.range(0, 70); let v = nz(s, a + n + z); let mut w = v.clone();
    unsafe { gvd_zero8(&mut w[a..a + n]) }
    ck!(w[a..a + n].iter().all(|x| *x == 0), "{n} bytes not all zeroed"); ck!(w[..a] == v[..a] && w[a + n..] == v[a + n..], "zeroing {n} bytes touched its neighbours");
    let kind = s.below(7) as u32; let l = 40; let v: Vec<u64> = (0..l).map(|_| s.u64() | 1).collect(); let mut w = v.clone(); let a = s.range(0, 8); let b = a + s.range(0, 16);
    unsafe { gvd_zero(kind, &mut w, a, b) }
    let span = match kind { 0 | 1 => a..b, 2 => a..a + 1, 3 => 8..8 + 2, 4 => 8..12, 5 => 8..16, _ => 8..8 + 2 * (b - a).min(6) };
    for i in 0..l { if span.contains(&i) { ck!(w[i] == 0, "kind {kind}: word {i} of {span:?} not zeroed") } else { ck!(w[i] == v[i], "kind {kind}: word {i} outside {span:?} changed") } }
    Ok(())
}
#[cfg(feature = "h_zero")]
fn buffer(s: &mut Src) -> R { let f = s.range(1, 255) as u8; let b = unsafe { gvd_rsa_buffer(f) }; ck!(b.iter().all(|x| *x == 0) && !b.is_empty(), "RSA component buffer not erased"); Ok(()) }
pub fn c21() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("aead", 300, 1, aead), case("agree", 200, 1, agree), case("sign", 200, 1, sign), case("rsa", 40, 2, rsa), case("kem", 100, 1, kem)];
    #[cfg(feature = "h_zero")]
    v.extend([case("prim", 3000, 1, prim), case("buffer", 10, 0, buffer)]);
    #[cfg(feature = "h_pi")]
    v.push(case("posint", 300, 1, crate::pi::secret));
    v
}
