//! C28: the operating system generator is replaced by a recording stand-in on the calling thread.
use crate::core::*;
use crate::der::rsa_key;
use graviola::hashing::{Sha256, Sha384};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa, rsa};
use gspec::ec::Curve;
use gspec::ed25519::Ed;
use gspec::hash::H;
use gspec::mlkem;
use gspec::nat::Nat;
use gspec::rsa as grsa;
use std::cell::RefCell;

#[derive(Default)]
struct Fake { on: bool, seed: u64, out: Vec<u8>, calls: usize, fail_at: usize, prefix: Vec<u8>, short: bool }
thread_local! { static F: RefCell<Fake> = RefCell::new(Fake::default()); }
static USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let r = F.try_with(|f| {
        let Ok(mut f) = f.try_borrow_mut() else { return None };
        if !f.on || len == 0 { return None }
        USED.store(true, std::sync::atomic::Ordering::Relaxed);
        f.calls += 1;
        if f.calls > f.fail_at { return Some(-1) }
        // a stand-in kernel may return fewer bytes than asked for
        let n = if f.short && len > 1 { len - 1 - (f.calls % (len - 1).max(1)).min(len - 2) } else { len };
        for i in 0..n {
            let b = if !f.prefix.is_empty() { f.prefix.remove(0) } else { f.seed = f.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (f.seed >> 56) as u8 };
            unsafe { *buf.add(i) = b };
            f.out.push(b);
        }
        Some(n as isize)
    });
    match r {
        Ok(Some(-1)) => { unsafe { *libc::__errno_location() = libc::EIO }; -1 }
        Ok(Some(n)) => n,
        _ => unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize },
    }
}
#[used]
static KEEP: unsafe extern "C" fn(*mut u8, usize, u32) -> isize = getrandom;

/// runs `f` with the stand-in; returns its result, the bytes handed out and the number of calls
fn with<T>(s: &mut Src, fail_at: usize, prefix: Vec<u8>, f: impl FnOnce() -> T) -> (T, Vec<u8>, usize) {
    let (seed, short) = (s.u64(), fail_at == usize::MAX && s.chance(1, 3));
    F.with(|x| *x.borrow_mut() = Fake { on: true, seed, out: vec![], calls: 0, fail_at, prefix, short });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let x = F.with(|x| std::mem::take(&mut *x.borrow_mut()));
    match r { Ok(r) => (r, x.out, x.calls), Err(e) => std::panic::resume_unwind(e) }
}
const ALL: usize = usize::MAX;
fn arr<const N: usize>(b: &[u8]) -> Result<[u8; N], String> { b.try_into().map_err(|_| format!("took {} bytes from the generator, want {N}", b.len())) }

fn fill(s: &mut Src) -> R {
    let l = s.len(5000);
    let mut b = s.bytes(l);
    let (r, o, _) = with(s, ALL, vec![], || graviola::random::fill(&mut b));
    s.note = format!("random::fill of {l} bytes, generator output {}", hex(&o));
    ck!(r.is_ok(), "fill failed");
    eq!(b, o, "filled bytes");
    let p = rustls_graviola::default_provider().secure_random;
    let mut b = s.bytes(l);
    let (r, o, _) = with(s, ALL, vec![], || p.fill(&mut b));
    ck!(r.is_ok(), "provider fill failed");
    eq!(b, o, "provider filled bytes");
    if l > 0 { let (r, _, _) = with(s, 0, vec![], || graviola::random::fill(&mut b)); ck!(r.is_err(), "failure of the generator not reported"); let (r, _, _) = with(s, 0, vec![], || p.fill(&mut b)); ck!(r.is_err(), "failure of the generator not reported by the provider"); }
    ck!(l == 0 || USED.load(std::sync::atomic::Ordering::Relaxed), "the operating system generator was not used");
    Ok(())
}
fn ec_prefix(s: &mut Src, c: &Curve) -> Vec<u8> { match s.below(6) { 0 => c.n.to_be(c.len), 1 => vec![0; c.len], 2 => vec![0xff; 2 * c.len], 3 => c.n.sub(&Nat::one()).to_be(c.len), 4 => Nat::one().to_be(c.len), _ => vec![] } }
/// first in-range scalar of the stream, as rejection sampling takes it
fn ec_first(c: &Curve, o: &[u8]) -> Result<Nat, String> {
    let n = o.len() / c.len;
    ck!(n >= 1 && o.len() == n * c.len, "took {} bytes from the generator", o.len());
    for (i, b) in o.chunks(c.len).enumerate() { let k = Nat::from_be(b); if c.scalar_ok(&k) { ck!(i == n - 1, "rejected an in-range scalar"); return Ok(k) } }
    Err("no scalar in the stream is in range".into())
}
fn keys(s: &mut Src) -> R {
    s.note = "x25519".into();
    let (k, o, _) = with(s, ALL, vec![], x25519::PrivateKey::new_random);
    eq!(k.map_err(|e| format!("{e:?}"))?.public_key().as_bytes(), gspec::x25519::base(&arr(&o)?), "X25519 key from generator output {}", hex(&o));
    ck!(with(s, 0, vec![], x25519::PrivateKey::new_random).0.is_err(), "x25519 key despite generator failure");

    s.note = "Ed25519".into();
    let (k, o, _) = with(s, ALL, vec![], eddsa::Ed25519SigningKey::generate);
    eq!(k.map_err(|e| format!("{e:?}"))?.public_key().as_bytes(), Ed::get().public(&arr(&o)?), "Ed25519 key from generator output {}", hex(&o));
    ck!(with(s, 0, vec![], eddsa::Ed25519SigningKey::generate).0.is_err(), "Ed25519 key despite generator failure");

    s.note = "ML-KEM-768".into();
    let (k, o, _) = with(s, ALL, vec![], mlkem768::DecapKey::generate);
    let k = k.map_err(|e| format!("{e:?}"))?;
    let seed: [u8; 64] = arr(&o)?;
    let (ek, dk) = mlkem::keygen(seed[..32].try_into().unwrap(), seed[32..].try_into().unwrap());
    eq!(k.encapsulation_key().as_bytes(), ek, "ML-KEM key from generator output {}", hex(&o));
    ck!(with(s, 0, vec![], mlkem768::DecapKey::generate).0.is_err(), "ML-KEM key despite generator failure");
    let e = mlkem768::EncapKey::from_bytes(&ek[..].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
    let (r, o, _) = with(s, ALL, vec![], || e.encaps());
    let (ss, ct) = r.map_err(|e| format!("{e:?}"))?;
    let (wk, wc) = mlkem::encaps(&ek, &arr(&o)?);
    eq!(ct.as_ref(), wc, "ML-KEM ciphertext from generator output {}", hex(&o));
    eq!(ss.as_ref(), wk, "ML-KEM secret");
    let e = mlkem768::EncapKey::from_bytes(&ek[..].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
    ck!(with(s, 0, vec![], || e.encaps()).0.is_err(), "encapsulation despite generator failure");
    // the implicit rejection key comes from the generator too
    let bad: [u8; 1088] = s.arr();
    eq!(k.decaps(&mlkem768::Ciphertext::from(bad)).as_ref(), mlkem::decaps(&dk, &bad), "ML-KEM rejection secret");

    macro_rules! ec { ($m:ident, $c:expr, $t:ty, $name:expr) => {
        let c = $c;
        s.note = $name.into();
        let p = ec_prefix(s, c);
        let (k, o, n) = with(s, ALL - 1, p.clone(), $m::PrivateKey::new_random);
        let k = k.map_err(|e| format!("{e:?}"))?;
        let d = ec_first(c, &o)?;
        eq!(k.public_key_uncompressed(), c.enc(&c.mul(&d, &c.base())), "{} key from generator output {}", $name, hex(&o));
        let f = s.range(0, n - 1);
        ck!(with(s, f, p.clone(), $m::PrivateKey::new_random).0.is_err(), "{} key despite generator failure", $name);
        let (k, o, _) = with(s, ALL, p.clone(), ecdsa::SigningKey::<$t>::generate);
        let k = k.map_err(|e| format!("{e:?}"))?;
        let d = ec_first(c, &o)?;
        let mut b = [0; 256];
        let sp = k.to_spki_der(&mut b).map_err(|e| format!("{e:?}"))?;
        eq!(sp[sp.len() - 1 - 2 * c.len..], c.enc(&c.mul(&d, &c.base())), "{} ECDSA key from generator output {}", $name, hex(&o));
        ck!(with(s, 0, vec![], ecdsa::SigningKey::<$t>::generate).0.is_err(), "{} ECDSA key despite generator failure", $name);
        // signing reads the generator and reports its failure
        let mut b = [0; 256];
        ck!(with(s, 0, vec![], || k.sign::<Sha256>(&[b"m"], &mut b).is_ok()).0 == false, "{} signature despite generator failure", $name);
        let mut b = [0; 256];
        ck!(with(s, 0, vec![], || k.sign_asn1::<Sha384>(&[b"m"], &mut b).is_ok()).0 == false, "{} ASN.1 signature despite generator failure", $name);
        let (mut b1, mut b2) = ([0; 256], [0; 256]);
        let (_, o, _) = with(s, ALL, vec![], || k.sign::<Sha256>(&[b"m"], &mut b1).map(|x| x.len()));
        with(s, ALL, vec![], || k.sign::<Sha256>(&[b"m"], &mut b2).map(|x| x.len())).0.map_err(|e| format!("{e:?}"))?;
        ck!(o.len() >= 16 && b1 != b2, "{} signature does not depend on the generator ({} bytes read)", $name, o.len());
    } }
    ec!(p256, Curve::p256(), ecdsa::P256, "P-256");
    ec!(p384, Curve::p384(), ecdsa::P384, "P-384");
    Ok(())
}
fn pss(s: &mut Src) -> R {
    let g = loop { let k = rsa_key(s, 2048); if k.n.bits() % 8 == 0 { break k } };
    let k = rsa::SigningKey::from_pkcs1_der(&g.der()).map_err(|e| format!("{e:?}"))?;
    let l = (g.n.bits() + 7) / 8;
    for h in [H::S256, H::S384, H::S512] {
        let m = s.bytes(20);
        let mut b = vec![0; l];
        let go = |b: &mut [u8]| match h { H::S256 => k.sign_pss_sha256(b, &m).map(|x| x.to_vec()), H::S384 => k.sign_pss_sha384(b, &m).map(|x| x.to_vec()), _ => k.sign_pss_sha512(b, &m).map(|x| x.to_vec()) };
        let (r, o, _) = with(s, ALL, vec![], || go(&mut b));
        s.note = format!("PSS {h:?} key {} generator output {}", hex(&g.n.to_be(l)), hex(&o));
        let sig = r.map_err(|e| format!("{e:?}"))?;
        ck!(o.len() == h.len(), "salt is not {} bytes from the generator", h.len());
        let want = g.sign_raw(&Nat::from_be(&grsa::emsa_pss(h, &m, &o, g.n.bits() - 1))).to_be(l);
        eq!(sig, want, "PSS signature with the generator's salt");
        ck!(with(s, 0, vec![], || go(&mut b)).0.is_err(), "PSS signature despite generator failure");
    }
    Ok(())
}
fn rsa_fail(s: &mut Src) -> R {
    // prime candidates: a failure at any point of generation is reported
    let at = s.range(0, 6);
    let (r, _, n) = with(s, at, vec![], || rsa::SigningKey::generate(rsa::KeySize::Rsa2048));
    s.note = format!("RSA generation, generator fails after {at} calls");
    ck!(n > at, "generation made only {n} generator calls");
    ck!(r.is_err(), "RSA key despite generator failure");
    Ok(())
}
fn tickets(s: &mut Src) -> R {
    let (t, o, _) = with(s, ALL, vec![], rustls_graviola::Ticketer::new);
    let t = t.map_err(|e| format!("{e:?}"))?;
    s.note = format!("ticketer from generator output {}", hex(&o));
    ck!(o.len() >= 48, "ticketer made from {} random bytes", o.len());
    let (_, _, n) = with(s, ALL - 1, vec![], rustls_graviola::Ticketer::new);
    for i in 0..n { ck!(with(s, i, vec![], rustls_graviola::Ticketer::new).0.is_err(), "ticketer despite generator failure"); }
    let l = s.range(1, 200);
    let m = s.bytes(l);
    let (e, o2, _) = with(s, ALL, vec![], || t.encrypt(&m));
    let e = e.ok_or("no ticket")?;
    ck!(o2.len() == 24, "ticket nonce from {} random bytes", o2.len());
    eq!(e[16..40], o2, "ticket nonce");
    // some window of the generator's output is the key, another the name
    let name = &e[..16];
    ck!(o.windows(16).any(|w| w == name), "key name does not come from the generator");
    let n24: [u8; 24] = o2[..].try_into().unwrap();
    ck!((0..=o.len() - 32).any(|i| { let (c, tag) = gspec::aead::xchacha_seal(o[i..i + 32].try_into().unwrap(), &n24, name, &m); e[40..] == [&c[..], &tag].concat() }), "ticket key is not 32 bytes of generator output");
    ck!(with(s, 0, vec![], || t.encrypt(&m)).0.is_none(), "ticket despite generator failure");
    // key exchange start
    for g in rustls_graviola::default_provider().kx_groups { ck!(with(s, 0, vec![], || g.start().is_ok()).0 == false, "{:?} started despite generator failure", g.name()); }
    Ok(())
}
pub fn c28() -> Vec<Case> { vec![case("fill", 200, 1, fill), case("keys", 40, 3, keys), case("pss", 12, 1, pss), case("rsa_fail", 6, 1, rsa_fail), case("tickets", 50, 1, tickets)] }
