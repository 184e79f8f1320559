//! C23 records, C24 tickets
use crate::core::*;
use gspec::aead::{chacha_seal, gcm_seal};
use gspec::hash::{hmac, H};
use rustls::crypto::cipher::{AeadKey, InboundOpaqueMessage, Iv, MessageDecrypter, MessageEncrypter, OutboundChunks, OutboundPlainMessage};
use rustls::{CipherSuite, ConnectionTrafficSecrets, ContentType, ProtocolVersion, SupportedCipherSuite};

#[derive(Clone, Copy, PartialEq, Debug)]
enum A { Gcm128, Gcm256, Cha }
impl A {
    fn key_len(self) -> usize { if self == A::Gcm128 { 16 } else { 32 } }
    fn seal(self, key: &[u8], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let (mut c, t) = match self { A::Cha => chacha_seal(key.try_into().unwrap(), nonce, aad, pt), _ => gcm_seal(key, nonce, aad, pt) };
        c.extend(t);
        c
    }
}
/// the standard's meaning of each suite name: (AEAD, hash, TLS1.3?, ECDSA?)
fn std_suite(s: CipherSuite) -> Option<(A, H, bool, bool)> {
    use CipherSuite as C;
    Some(match s {
        C::TLS13_AES_128_GCM_SHA256 => (A::Gcm128, H::S256, true, false),
        C::TLS13_AES_256_GCM_SHA384 => (A::Gcm256, H::S384, true, false),
        C::TLS13_CHACHA20_POLY1305_SHA256 => (A::Cha, H::S256, true, false),
        C::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 => (A::Gcm128, H::S256, false, true),
        C::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 => (A::Gcm256, H::S384, false, true),
        C::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 => (A::Cha, H::S256, false, true),
        C::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 => (A::Gcm128, H::S256, false, false),
        C::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 => (A::Gcm256, H::S384, false, false),
        C::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 => (A::Cha, H::S256, false, false),
        _ => return None,
    })
}
/// an AeadKey of 16 bytes can only be made inside rustls: shorten a 32-byte one in place
fn akey(k: &[u8]) -> AeadKey {
    let mut b = [0u8; 32];
    b[..k.len()].copy_from_slice(k);
    if k.len() == 16 { b[16..].fill(0x5a); }
    let mut a = AeadKey::from(b);
    if k.len() == 16 {
        assert_eq!(size_of::<AeadKey>(), 40);
        let p = &mut a as *mut AeadKey as *mut u8;
        let mut done = false;
        for off in [32, 0] {
            let w = unsafe { (p.add(off) as *mut u64).read_unaligned() };
            if w == 32 && !done { unsafe { (p.add(off) as *mut u64).write_unaligned(16) }; done = a.as_ref() == k; if !done { unsafe { (p.add(off) as *mut u64).write_unaligned(32) } } }
        }
        assert!(done);
    }
    assert_eq!(a.as_ref(), k);
    a
}
fn suites() -> Vec<SupportedCipherSuite> { rustls_graviola::default_provider().cipher_suites }
fn typ(s: &mut Src) -> ContentType { match s.below(6) { 0 => ContentType::Handshake, 1 => ContentType::Alert, 2 => ContentType::ChangeCipherSpec, 3 => ContentType::Heartbeat, 4 => ContentType::from((s.u64() as u8).max(1)), _ => ContentType::ApplicationData } }
fn ver(s: &mut Src) -> ProtocolVersion { match s.below(5) { 0 => ProtocolVersion::TLSv1_0, 1 => ProtocolVersion::TLSv1_3, 2 => ProtocolVersion::from(s.u64() as u16), _ => ProtocolVersion::TLSv1_2 } }
fn plen(s: &mut Src) -> usize { match s.below(8) { 0 => s.pick(&[0usize, 1, 2, 15, 16, 17, 16383, 16384]), 1 => s.range(0, 16384), _ => s.len(1200) } }
fn seqn(s: &mut Src) -> u64 { match s.below(4) { 0 => s.below(4), 1 => s.word(), 2 => 1u64 << s.below(64), _ => s.u64() } }

struct Sess { a: A, t13: bool, key: Vec<u8>, iv: [u8; 12], enc: Box<dyn MessageEncrypter>, dec: Box<dyn MessageDecrypter> }
fn sess(s: &mut Src, cs: SupportedCipherSuite) -> Result<Sess, String> {
    let (a, _, t13, _) = std_suite(cs.suite()).ok_or("unknown suite offered")?;
    let key = s.bytes(a.key_len());
    let iv: [u8; 12] = s.arr();
    Ok(match cs {
        SupportedCipherSuite::Tls13(c) => {
            ck!(t13, "{:?} is not a TLS1.3 suite", cs.suite());
            ck!(c.aead_alg.key_len() == a.key_len(), "{:?} key length {}", cs.suite(), c.aead_alg.key_len());
            let x = c.aead_alg.extract_keys(akey(&key), Iv::new(iv));
            secrets(a, x.map_err(|_| "extract_keys failed")?, &key, &iv)?;
            Sess { a, t13, enc: c.aead_alg.encrypter(akey(&key), Iv::new(iv)), dec: c.aead_alg.decrypter(akey(&key), Iv::new(iv)), key, iv }
        }
        SupportedCipherSuite::Tls12(c) => {
            ck!(!t13, "{:?} is not a TLS1.2 suite", cs.suite());
            let sh = c.aead_alg.key_block_shape();
            let (f, e) = if a == A::Cha { (12, 0) } else { (4, 8) };
            ck!(sh.enc_key_len == a.key_len() && sh.fixed_iv_len == f && sh.explicit_nonce_len == e, "{:?} key block shape {} {} {}", cs.suite(), sh.enc_key_len, sh.fixed_iv_len, sh.explicit_nonce_len);
            let x = c.aead_alg.extract_keys(akey(&key), &iv[..f], &iv[f..]);
            secrets(a, x.map_err(|_| "extract_keys failed")?, &key, &iv)?;
            Sess { a, t13, enc: c.aead_alg.encrypter(akey(&key), &iv[..f], &iv[f..]), dec: c.aead_alg.decrypter(akey(&key), &iv[..f]), key, iv }
        }
    })
}
fn secrets(a: A, x: ConnectionTrafficSecrets, key: &[u8], iv: &[u8]) -> R {
    let (k, i) = match (a, &x) {
        (A::Gcm128, ConnectionTrafficSecrets::Aes128Gcm { key, iv }) | (A::Gcm256, ConnectionTrafficSecrets::Aes256Gcm { key, iv }) | (A::Cha, ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv }) => (key, iv),
        _ => return Err(format!("{a:?}: extracted secrets name another cipher")),
    };
    eq!(k.as_ref(), key, "extracted key");
    eq!(i.as_ref(), iv, "extracted iv");
    Ok(())
}
impl Sess {
    fn nonce(&self, seq: u64) -> [u8; 12] { let mut n = self.iv; for (x, y) in n[4..].iter_mut().zip(seq.to_be_bytes()) { *x ^= y; } n }
    /// protected fragment for an inner plaintext (TLS1.3: already with its type and padding)
    fn frag(&self, seq: u64, t: u8, v: u16, inner: &[u8], nonce: [u8; 12]) -> Vec<u8> {
        if self.t13 {
            let l = (inner.len() + 16) as u16;
            self.a.seal(&self.key, &nonce, &[23, 3, 3, (l >> 8) as u8, l as u8], inner)
        } else {
            let aad = [&seq.to_be_bytes()[..], &[t], &v.to_be_bytes(), &(inner.len() as u16).to_be_bytes()].concat();
            let c = self.a.seal(&self.key, &nonce, &aad, inner);
            if self.a == A::Cha { c } else { [&nonce[4..], &c].concat() }
        }
    }
    fn open(&mut self, seq: u64, t: ContentType, v: ProtocolVersion, frag: &[u8]) -> Result<(u8, u16, Vec<u8>), rustls::Error> {
        let mut b = frag.to_vec();
        let m = self.dec.decrypt(InboundOpaqueMessage::new(t, v, &mut b), seq)?;
        Ok((u8::from(m.typ), u16::from(m.version), m.payload.to_vec()))
    }
}
fn pick_sess(s: &mut Src) -> Result<(Sess, CipherSuite), String> { let cs = s.pick(&suites()); let x = sess(s, cs)?; Ok((x, cs.suite())) }

fn seal(s: &mut Src) -> R {
    let (mut x, cs) = pick_sess(s)?;
    for _ in 0..3 {
        let n = plen(s);
        let p = s.bytes(n);
        let (seq, t, v) = (seqn(s), typ(s), ver(s));
        s.note = format!("{cs:?} key={} iv={} seq={seq:#x} type={} version={v:?} len={n}", hex(&x.key), hex(&x.iv), u8::from(t));
        let chunks: Vec<&[u8]>;
        let payload = if s.chance(1, 2) { OutboundChunks::Single(&p) } else { chunks = s.split(&p, 64); OutboundChunks::new(&chunks) };
        let pl = payload.len();
        let m = x.enc.encrypt(OutboundPlainMessage { typ: t, version: v, payload }, seq).map_err(|e| format!("encrypt: {e:?}"))?;
        let (ot, ov) = (m.typ, m.version);
        let w = m.encode();
        let inner = if x.t13 { [&p[..], &[u8::from(t)]].concat() } else { p.clone() };
        let f = x.frag(seq, u8::from(t), u16::from(v), &inner, x.nonce(seq));
        let (wt, wv) = if x.t13 { (ContentType::ApplicationData, ProtocolVersion::TLSv1_2) } else { (t, v) };
        ck!(ot == wt && ov == wv, "outer header {ot:?} {ov:?}, want {wt:?} {wv:?}");
        eq!(w, [&[u8::from(wt)][..], &u16::from(wv).to_be_bytes(), &(f.len() as u16).to_be_bytes(), &f].concat(), "protected record");
        ck!(x.enc.encrypted_payload_len(pl) == f.len(), "encrypted_payload_len({pl}) != {}", f.len());
        let r = x.open(seq, wt, wv, &f).map_err(|e| format!("own record rejected: {e:?}"))?;
        ck!(r.0 == u8::from(t) && (r.1 == u16::from(v) || x.t13), "unprotected header {r:?}");
        eq!(r.2, p, "unprotected payload");
    }
    Ok(())
}
/// records made by a peer, valid and altered: accepted exactly as the standard says
fn open(s: &mut Src) -> R {
    let (mut x, cs) = pick_sess(s)?;
    for _ in 0..4 {
        let (seq, t, v) = (seqn(s), typ(s), ver(s));
        let n = match s.below(12) { 0 => s.pick(&[16383usize, 16384, 16385, 16386, 16387, 16640, 17000]), 1 => 0, _ => plen(s) };
        let p = s.bytes(n);
        let (mut inner, pad) = (p.clone(), if s.chance(1, 2) { 0 } else { s.range(0, 300) });
        let raw = x.t13 && s.chance(1, 8);
        if x.t13 && !raw { inner.push(u8::from(t)); inner.resize(inner.len() + pad, 0); }
        let nonce = if !x.t13 && x.a != A::Cha && s.chance(1, 2) { let mut n = x.nonce(seq); n[4..].copy_from_slice(&s.rnd::<8>()); n } else { x.nonce(seq) };
        let f = x.frag(seq, u8::from(t), u16::from(v), &inner, nonce);
        let (ot, ov) = if x.t13 { (ContentType::ApplicationData, ProtocolVersion::TLSv1_2) } else { (t, v) };
        s.note = format!("{cs:?} key={} iv={} seq={seq:#x} type={} version={v:?} inner_len={} raw={raw}", hex(&x.key), hex(&x.iv), u8::from(t), inner.len());
        let want = if x.t13 {
            if inner.len() > 16385 { None } else {
                match inner.iter().rposition(|b| *b != 0) { None => None, Some(i) => Some((inner[i], inner[..i].to_vec())) }
            }
        } else if inner.len() > 16384 { None } else { Some((u8::from(t), inner.clone())) };
        let got = x.open(seq, ot, ov, &f);
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(g)) => { ck!(w.0 == g.0, "content type {} want {}", g.0, w.0); eq!(g.2, w.1, "payload"); ck!(x.t13 || g.1 == u16::from(v), "version"); }
            _ => return Err(format!("record {}: {:?}", if want.is_some() { "valid but rejected" } else { "must be rejected" }, got.map(|g| g.2.len()))),
        }
        // alterations
        for _ in 0..3 {
            let mut g = f.clone();
            let (mut seq2, mut t2, mut v2) = (seq, ot, ov);
            match s.below(8) {
                0 => { seq2 ^= 1 << s.below(64); }
                1 => { let k = s.range(0, g.len()); g.truncate(k); if k == f.len() { g.push(0) } }
                2 => g.extend({ let n = s.range(1, 40); s.bytes(n) }),
                3 => g = g[1 + s.range(0, 20).min(g.len() - 1)..].to_vec(),
                4 if !x.t13 => t2 = ContentType::from(u8::from(t) ^ (1 << s.below(8))),
                5 if !x.t13 => v2 = ProtocolVersion::from(u16::from(v) ^ (1 << s.below(16))),
                6 => { let k = s.range(0, 41); g = s.bytes(k) }
                _ => { s.flip(&mut g); }
            }
            if x.open(seq2, t2, v2, &g).is_ok() { return Err(format!("altered record accepted: seq={seq2:#x} type={t2:?} version={v2:?} fragment={} original={}", hex(&g), hex(&f))); }
        }
    }
    Ok(())
}
fn short(s: &mut Src) -> R {
    for cs in suites() {
        let mut x = sess(s, cs)?;
        for l in 0..48 { let b = s.bytes(l); let seq = seqn(s); s.note = format!("{:?} fragment={} seq={seq}", cs.suite(), hex(&b));
            ck!(x.open(seq, ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &b).is_err(), "short garbage accepted"); }
    }
    Ok(())
}
fn hkdf_expand(h: H, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> { let (mut o, mut t, mut c) = (vec![], vec![], 1u8); while o.len() < n { t = hmac(h, prk, &[&t[..], info, &[c]].concat()); o.extend(&t); c += 1; } o.truncate(n); o }
fn prf12(h: H, sec: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> { let ls = [label, seed].concat(); let mut a = hmac(h, sec, &ls); let mut o = vec![]; while o.len() < n { o.extend(hmac(h, sec, &[&a[..], &ls].concat())); a = hmac(h, sec, &a); } o.truncate(n); o }
/// each suite's hash, HKDF and PRF are the ones its name says
fn suite_kdf(s: &mut Src) -> R {
    let all = suites();
    ck!(all.len() >= 9 || !all.is_empty(), "no suites");
    for cs in all {
        let (_, h, _, ecdsa) = std_suite(cs.suite()).ok_or("unknown suite offered")?;
        s.note = format!("{:?}", cs.suite());
        let (l1, l2, l3) = (s.len(300), s.len(300), s.range(1, 200));
        let (a, b) = (s.bytes(l1), s.bytes(l2));
        let common = match cs { SupportedCipherSuite::Tls13(c) => &c.common, SupportedCipherSuite::Tls12(c) => &c.common };
        eq!(common.hash_provider.hash(&a).as_ref(), h.hash(&a), "suite hash");
        let mut c = common.hash_provider.start();
        for x in s.split(&a, h.block()) { c.update(x) }
        let mut f = c.fork();
        eq!(c.fork_finish().as_ref(), h.hash(&a), "suite hash, streaming");
        f.update(&b);
        eq!(f.finish().as_ref(), h.hash(&[&a[..], &b].concat()), "forked suite hash");
        c.update(&a);
        eq!(c.finish().as_ref(), h.hash(&[&a[..], &a].concat()), "suite hash after fork");
        ck!(common.hash_provider.output_len() == h.len(), "suite hash length");
        match cs {
            SupportedCipherSuite::Tls13(c) => {
                let salt = if s.chance(1, 3) { None } else { Some(&b[..]) };
                let prk = hmac(h, salt.unwrap_or(&vec![0; h.len()]), &a);
                let e = c.hkdf_provider.extract_from_secret(salt, &a);
                let mut o = vec![0; l3];
                let parts = s.split(&b, 16);
                e.expand_slice(&parts, &mut o).map_err(|_| "expand failed")?;
                eq!(o, hkdf_expand(h, &prk, &b, l3), "HKDF");
                ck!(e.hash_len() == h.len(), "HKDF length");
            }
            SupportedCipherSuite::Tls12(c) => {
                let mut o = vec![0; l3];
                c.prf_provider.for_secret(&mut o, &a, b"key expansion", &b);
                eq!(o, prf12(h, &a, b"key expansion", &b, l3), "PRF");
                for sch in c.sign { let is_ec = format!("{sch:?}").starts_with("ECDSA") || format!("{sch:?}").starts_with("ED"); ck!(is_ec == ecdsa, "{:?} offers {sch:?}", cs.suite()); }
            }
        }
    }
    Ok(())
}
pub fn c23() -> Vec<Case> { vec![case("seal", 400, 4, seal), case("open", 400, 4, open), case("short", 4, 1, short), case("suite_kdf", 20, 1, suite_kdf)] }

// ---------------------------------------------------------------- tickets
fn tick_rt(s: &mut Src) -> R {
    let t = rustls_graviola::Ticketer::new().map_err(|e| format!("{e:?}"))?;
    let o = rustls_graviola::Ticketer::new().map_err(|e| format!("{e:?}"))?;
    ck!(t.enabled(), "not enabled");
    let n = s.range(1, 8);
    let mut v = vec![];
    for _ in 0..n { let l = s.len(3000).max(1); let m = s.bytes(l); let e = t.encrypt(&m).ok_or("encrypt failed")?; v.push((m, e)); }
    let own = o.encrypt(&vec![7; 4000]).ok_or("encrypt failed")?;
    while !v.is_empty() {
        let i = s.range(0, v.len() - 1);
        let (m, e) = &v[i];
        s.note = format!("plaintext={}", hex(m));
        match t.decrypt(e) { Some(x) => eq!(x, m, "ticket plaintext"), None => return Err("own ticket rejected".into()) }
        ck!(!e.windows(m.len()).any(|w| w == &m[..]) || m.len() < 12, "ticket contains its plaintext");
        ck!(o.decrypt(e).is_none(), "ticket accepted by another ticketer");
        ck!(t.decrypt(&own).is_none(), "another ticketer's ticket accepted");
        let e2 = t.encrypt(m).ok_or("encrypt failed")?;
        ck!(&e2 != e, "two tickets for one plaintext are identical");
        if s.chance(1, 2) { v.swap_remove(i); } else { v.remove(i); }
    }
    Ok(())
}
fn tick_mod(s: &mut Src) -> R {
    let t = rustls_graviola::Ticketer::new().map_err(|e| format!("{e:?}"))?;
    let l = if s.chance(1, 2) { s.range(1, 40) } else { s.len(600).max(1) };
    let m = s.bytes(l);
    let e = t.encrypt(&m).ok_or("encrypt failed")?;
    let long = t.encrypt(&vec![1; 2000]).ok_or("encrypt failed")?;
    for i in 0..e.len() {
        let mut x = e.clone();
        x[i] ^= 1 << s.below(8);
        s.note = format!("plaintext={} flipped byte {i}", hex(&m));
        ck!(t.decrypt(&x).is_none(), "altered ticket accepted (byte {i} of {})", e.len());
        let k = i;
        s.note = format!("plaintext={} truncated to {k}", hex(&m));
        ck!(t.decrypt(&e[..k]).is_none(), "truncated ticket accepted ({k} of {})", e.len());
        if i > 0 { ck!(t.decrypt(&e[i..]).is_none(), "ticket without its first {i} bytes accepted"); }
    }
    for _ in 0..20 {
        let mut x = e.clone();
        match s.below(5) {
            0 => { let n = s.range(1, 60); x.extend(s.bytes(n)) }
            1 => { let n = s.range(0, 100); x = s.bytes(n) }
            2 => { let n = s.range(0, 100); let g = s.bytes(n); x = [&e[..16], &g].concat(); if x == e { continue } }
            3 => { x = [&e[..40], &long[40..]].concat() }
            _ => { let p = s.range(0, x.len()); let n = s.range(1, 20); let g = s.bytes(n); x.splice(p..p, g); }
        }
        s.note = format!("ticket={}", hex(&x));
        ck!(t.decrypt(&x).is_none(), "foreign byte string accepted as a ticket");
    }
    for n in [2001usize, 4000, 70000] { ck!(t.decrypt(&vec![0; n + 56]).is_none(), "oversized ticket accepted"); }
    ck!(t.decrypt(&[]).is_none(), "empty ticket accepted");
    Ok(())
}
fn tick_threads(s: &mut Src) -> R {
    let t = rustls_graviola::Ticketer::new().map_err(|e| format!("{e:?}"))?;
    let ls: Vec<usize> = (0..4).map(|_| s.range(1, 1500)).collect();
    let r: Vec<bool> = std::thread::scope(|sc| { let hs: Vec<_> = ls.iter().map(|l| { let t = &t; let l = *l; sc.spawn(move || (0..20).all(|i| { let m = vec![i as u8; l + i]; t.encrypt(&m).and_then(|e| t.decrypt(&e)) == Some(m) })) }).collect(); hs.into_iter().map(|h| h.join().unwrap_or(false)).collect() });
    s.note = format!("lengths {ls:?}");
    ck!(r.iter().all(|x| *x), "ticket issued while others are issued concurrently did not open");
    Ok(())
}
pub fn c24() -> Vec<Case> { vec![case("tick_roundtrip", 300, 2, tick_rt), case("tick_altered", 60, 3, tick_mod), case("tick_threads", 20, 1, tick_threads)] }
