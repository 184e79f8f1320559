use crate::core::*;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use gspec::aead as sp;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alg { Gcm128, Gcm256, ChaCha, XChaCha }
impl Alg {
    pub const ALL: [Alg; 4] = [Alg::Gcm128, Alg::Gcm256, Alg::ChaCha, Alg::XChaCha];
    pub fn klen(self) -> usize { if self == Alg::Gcm128 { 16 } else { 32 } }
    pub fn nlen(self) -> usize { if self == Alg::XChaCha { 24 } else { 12 } }
    pub fn spec(self, k: &[u8], n: &[u8], a: &[u8], p: &[u8]) -> (Vec<u8>, [u8; 16]) {
        match self {
            Alg::Gcm128 | Alg::Gcm256 => sp::gcm_seal(k, n.try_into().unwrap(), a, p),
            Alg::ChaCha => sp::chacha_seal(k.try_into().unwrap(), n.try_into().unwrap(), a, p),
            Alg::XChaCha => sp::xchacha_seal(k.try_into().unwrap(), n.try_into().unwrap(), a, p),
        }
    }
    pub fn key(self, k: &[u8]) -> Key {
        match self {
            Alg::Gcm128 | Alg::Gcm256 => Key::G(AesGcm::new(k)),
            Alg::ChaCha => Key::C(ChaCha20Poly1305::new(k.try_into().unwrap())),
            Alg::XChaCha => Key::X(XChaCha20Poly1305::new(k.try_into().unwrap())),
        }
    }
}
pub enum Key { G(AesGcm), C(ChaCha20Poly1305), X(XChaCha20Poly1305) }
impl Key {
    pub fn seal(&self, n: &[u8], a: &[u8], b: &mut [u8], t: &mut [u8; 16]) {
        match self { Key::G(k) => k.encrypt(n.try_into().unwrap(), a, b, t), Key::C(k) => k.encrypt(n.try_into().unwrap(), a, b, t), Key::X(k) => k.encrypt(n.try_into().unwrap(), a, b, t) }
    }
    pub fn open(&self, n: &[u8], a: &[u8], b: &mut [u8], t: &[u8]) -> Result<(), graviola::Error> {
        match self { Key::G(k) => k.decrypt(n.try_into().unwrap(), a, b, t), Key::C(k) => k.decrypt(n.try_into().unwrap(), a, b, t), Key::X(k) => k.decrypt(n.try_into().unwrap(), a, b, t) }
    }
}
const CAN: usize = 96;
/// buffer embedded between canaries, at a chosen misalignment
pub struct Buf { v: Vec<u8>, off: usize, n: usize }
impl Buf {
    pub fn new(s: &mut Src, d: &[u8]) -> Buf {
        let off = CAN + s.below(32) as usize;
        let mut v = vec![0xa5; off + d.len() + CAN];
        v[off..off + d.len()].copy_from_slice(d);
        Buf { v, off, n: d.len() }
    }
    pub fn m(&mut self) -> &mut [u8] { let o = self.off; let n = self.n; &mut self.v[o..o + n] }
    pub fn ok(&self) -> bool { self.v[..self.off].iter().all(|x| *x == 0xa5) && self.v[self.off + self.n..].iter().all(|x| *x == 0xa5) }
}

fn seal_open(s: &mut Src, alg: Alg, alen: usize, plen: usize) -> R {
    let k = s.bytes(alg.klen());
    let n = s.bytes(alg.nlen());
    let a = s.bytes(alen);
    let p = s.bytes(plen);
    s.note = format!("{alg:?} key={} nonce={} aad={} pt={}", hex(&k), hex(&n), hex(&a), hex(&p));
    let key = alg.key(&k);
    let (ct, tag) = alg.spec(&k, &n, &a, &p);
    let mut b = Buf::new(s, &p);
    let mut t = [0x5au8; 16];
    key.seal(&n, &a, b.m(), &mut t);
    eq!(b.m(), ct, "{alg:?} ciphertext (aad {alen}, pt {plen})");
    eq!(t, tag, "{alg:?} tag (aad {alen}, pt {plen})");
    ck!(b.ok(), "{alg:?} encryption wrote outside its buffer (pt {plen})");
    let mut b = Buf::new(s, &ct);
    ck!(key.open(&n, &a, b.m(), &tag).is_ok(), "{alg:?} rejected its own message (aad {alen}, pt {plen})");
    eq!(b.m(), p, "{alg:?} decrypted plaintext (aad {alen}, pt {plen})");
    ck!(b.ok(), "{alg:?} decryption wrote outside its buffer (pt {plen})");
    // a second message with the same key object behaves identically (no hidden state)
    let mut b2 = p.clone();
    let mut t2 = [0u8; 16];
    key.seal(&n, &a, &mut b2, &mut t2);
    eq!(b2, ct, "{alg:?} repeat ciphertext");
    eq!(t2, tag, "{alg:?} repeat tag");
    Ok(())
}
fn gcm(s: &mut Src) -> Alg { s.pick(&[Alg::Gcm128, Alg::Gcm256]) }
fn cc(s: &mut Src) -> Alg { s.pick(&[Alg::ChaCha, Alg::XChaCha]) }
// every plaintext length 0..=1100, every AAD length 0..=300
fn gcm_lens(s: &mut Src) -> R { let i = s.idx as usize; let al = s.range(0, 40); let g = if i % 2 == 0 { Alg::Gcm128 } else { Alg::Gcm256 }; seal_open(s, g, al, i / 2) }
fn gcm_aads(s: &mut Src) -> R { let i = s.idx as usize; let pl = s.range(0, 40); let g = gcm(s); seal_open(s, g, i, pl) }
fn gcm_rand(s: &mut Src) -> R { let (a, p) = (s.len(2200), s.len(4400)); let g = gcm(s); seal_open(s, g, a, p) }
fn gcm_long(s: &mut Src) -> R { let (a, p) = (s.len(40), (1 << 20) + (1 << 14) + s.range(0, 600)); let g = gcm(s); seal_open(s, g, a, p) }
fn gcm_tiny(s: &mut Src) -> R { let (a, p) = (s.len(33), s.len(33)); let g = gcm(s); seal_open(s, g, a, p) }
/// AAD past 2^32 bits (and 2^32 bytes), zero except at its end: GHASH of leading zeros is zero
fn gcm_huge_aad(s: &mut Src) -> R {
    let n = if s.idx == 0 { (1usize << 29) + 16 * s.range(0, 9) + 5 } else { (1usize << 32) + 16 * s.range(0, 9) + 7 };
    let k = s.rnd::<16>();
    let nonce = s.rnd::<12>();
    s.note = format!("key={} nonce={} aad={} zero bytes ending in aa", hex(&k), hex(&nonce), n);
    let mut aad = vec![0u8; n];
    aad[n - 1] = 0xaa;
    let mut t = [0; 16];
    AesGcm::new(&k).encrypt(&nonce, &aad, &mut [], &mut t);
    let aes = sp::Aes::new(&k);
    let h = sp::GhashKey::new(u128::from_be_bytes(aes.enc(&[0; 16])));
    let mut lb = [0u8; 16]; let r = n % 16; lb[r - 1] = 0xaa;
    let y = h.mul(u128::from_be_bytes(lb));
    let y = h.mul(y ^ ((n as u128 * 8) << 64));
    let mut y0 = [0u8; 16]; y0[..12].copy_from_slice(&nonce); y0[15] = 1;
    eq!(t, (y ^ u128::from_be_bytes(aes.enc(&y0))).to_be_bytes(), "GCM tag over {n}-byte AAD");
    Ok(())
}
fn gcm_huge_pt(s: &mut Src) -> R {
    let n = (1usize << 29) + 16 * s.range(0, 40) + 9;
    let k = s.rnd::<32>();
    let nonce = s.rnd::<12>();
    s.note = format!("key={} nonce={} pt={} zero bytes", hex(&k), hex(&nonce), n);
    let mut b = vec![0u8; n];
    let mut t = [0; 16];
    AesGcm::new(&k).encrypt(&nonce, &[], &mut b, &mut t);
    let aes = sp::Aes::new(&k);
    let h = sp::GhashKey::new(u128::from_be_bytes(aes.enc(&[0; 16])));
    let ctr = |i: u32| { let mut y = [0u8; 16]; y[..12].copy_from_slice(&nonce); y[12..].copy_from_slice(&i.to_be_bytes()); aes.enc(&y) };
    let blocks = n.div_ceil(16);
    let mut check = vec![0usize, blocks - 1, blocks - 2, 65534, 65535, 65533, 0xffffff];
    for _ in 0..20000 { check.push(s.below(blocks as u64) as usize); }
    for i in check { let e = (16 * i + 16).min(n); eq!(b[16 * i..e], ctr(2 + i as u32)[..e - 16 * i], "GCM keystream block {i} of {blocks}"); }
    let mut y = 0u128;
    for c in b.chunks(16) { let mut z = [0u8; 16]; z[..c.len()].copy_from_slice(c); y = h.mul(y ^ u128::from_be_bytes(z)); }
    y = h.mul(y ^ (n as u128 * 8));
    eq!(t, (y ^ u128::from_be_bytes(ctr(1))).to_be_bytes(), "GCM tag over {n}-byte message");
    Ok(())
}
pub fn c01() -> Vec<Case> {
    vec![once("gcm_huge_pt", 1, gcm_huge_pt), once("gcm_huge_aad", 2, gcm_huge_aad), case("gcm_lens", 2400, 1, gcm_lens), case("gcm_aads", 700, 1, gcm_aads), case("gcm_rand", 400, 4, gcm_rand), case("gcm_tiny", 400, 1, gcm_tiny), case("gcm_long", 6, 1, gcm_long)]
}

fn cc_lens(s: &mut Src) -> R { let i = s.idx as usize; let al = s.range(0, 40); let g = if i % 2 == 0 { Alg::ChaCha } else { Alg::XChaCha }; seal_open(s, g, al, i / 2) }
fn cc_aads(s: &mut Src) -> R { let i = s.idx as usize; let pl = s.range(0, 40); let g = cc(s); seal_open(s, g, i, pl) }
fn cc_rand(s: &mut Src) -> R { let (a, p) = (s.len(2200), s.len(4400)); let g = cc(s); seal_open(s, g, a, p) }
fn cc_tiny(s: &mut Src) -> R { let (a, p) = (s.len(33), s.len(33)); let g = cc(s); seal_open(s, g, a, p) }
fn cc_long(s: &mut Src) -> R { let (a, p) = (s.len(40), (4 << 20) + (1 << 14) + s.range(0, 600)); let g = cc(s); seal_open(s, g, a, p) }

#[cfg(feature = "h_poly")]
extern "Rust" { fn gvd_poly1305(key: &[u8; 32], chunks: &[&[u8]]) -> [u8; 16]; fn gvd_chacha20(key: &[u8; 32], nonce: &[u8; 16], chunks: &mut [&mut [u8]]); fn gvd_hchacha(key: &[u8; 32], nonce: &[u8; 16]) -> [u8; 32]; }

/// Poly1305 with chosen keys and messages: blocks and keys near the modulus and carry boundaries
#[cfg(feature = "h_poly")]
fn poly_edge(s: &mut Src) -> R {
    let mut k: [u8; 32] = s.arr();
    match s.below(4) { 0 => { k[..16].fill(0); k[0] = s.pick(&[0, 1, 2, 3, 4, 5]); } 1 => k[..16].fill(0xff), _ => {} }
    if s.chance(1, 4) { k[16..].fill(0xff) }
    let nb = s.range(0, 6);
    let mut m = vec![];
    for _ in 0..nb {
        let mut b = [0xffu8; 16];
        match s.below(6) { 0 => b[0] = 0xfb - s.below(4) as u8 + 2, 1 => b = [0; 16], 2 => { b = s.rnd() } 3 => { b[s.below(16) as usize] = s.u64() as u8 } 4 => { b = [0; 16]; b[0] = s.below(8) as u8 } _ => {} }
        m.extend_from_slice(&b);
    }
    let extra = s.range(0, 16); let e = s.bytes(extra); m.extend_from_slice(&e);
    s.note = format!("poly1305 key={} msg={}", hex(&k), hex(&m));
    let want = sp::poly1305(&k, &m);
    let parts = s.split(&m, 16);
    eq!(unsafe { gvd_poly1305(&k, &parts) }, want, "poly1305 (chunks {:?})", parts.iter().map(|x| x.len()).collect::<Vec<_>>());
    Ok(())
}
/// solve for a block that makes the accumulator hit a chosen residue (p-1, p, 0, 2^128.. edges)
#[cfg(feature = "h_poly")]
fn poly_target(s: &mut Src) -> R {
    use gspec::nat::Nat;
    let p = Nat::one().shl(130).sub(&Nat::from_u64(5));
    let mut k: [u8; 32] = s.arr();
    if s.chance(1, 2) { k[16..].fill(0) }
    let mut rb = k[..16].to_vec();
    for i in [3, 7, 11, 15] { rb[i] &= 15 } for i in [4, 8, 12] { rb[i] &= 252 }
    let r = Nat::from_le(&rb).rem(&p);
    let ri = match r.invm(&p) { Some(x) => x, None => { s.trivial(); return Ok(()) } };
    let nb = s.range(0, 4);
    let mut m: Vec<u8> = vec![]; let mut h = Nat::zero();
    for _ in 0..nb { let b: [u8; 16] = s.arr(); h = h.add(&Nat::from_le(&b)).add(&Nat::one().shl(128)).mulm(&r, &p); m.extend_from_slice(&b); }
    // want (h + b + 2^128) * r = t mod p
    let t = match s.below(5) { 0 => Nat::from_u64(s.below(6)), 1 => p.sub(&Nat::from_u64(1 + s.below(6))), 2 => Nat::one().shl(128).sub(&Nat::from_u64(3)).add(&Nat::from_u64(s.below(6))), 3 => Nat::one().shl(129).sub(&Nat::from_u64(s.below(6))), _ => Nat::one().shl(s.range(20, 129)).sub(&Nat::from_u64(s.below(3))) };
    let b = t.mulm(&ri, &p).subm(&h.add(&Nat::one().shl(128)), &p);
    if b.bits() > 128 { s.trivial(); return Ok(()) }
    m.extend_from_slice(&b.to_le(16));
    s.note = format!("poly1305 key={} msg={}", hex(&k), hex(&m));
    let want = sp::poly1305(&k, &m);
    let parts = s.split(&m, 16);
    eq!(unsafe { gvd_poly1305(&k, &parts) }, want, "poly1305 with accumulator {:?}", t.0);
    Ok(())
}
/// the keystream object itself, split calls, counter wrapping in the low word
#[cfg(feature = "h_poly")]
fn chacha_stream(s: &mut Src) -> R {
    let k: [u8; 32] = s.arr(); let n: [u8; 16] = s.arr();
    eq!(unsafe { gvd_hchacha(&k, &n) }, sp::hchacha(&k, &n), "hchacha key={} nonce={}", hex(&k), hex(&n));
    Ok(())
}
pub fn c02() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("cc_long", 6, 1, cc_long), case("cc_lens", 2400, 1, cc_lens), case("cc_aads", 700, 1, cc_aads), case("cc_rand", 400, 3, cc_rand), case("cc_tiny", 2000, 2, cc_tiny)];
    #[cfg(feature = "h_poly")]
    v.extend([case("poly_edge", 5000, 4, poly_edge), case("poly_target", 5000, 4, poly_target), case("chacha_stream", 500, 1, chacha_stream)]);
    v
}

/// every single-bit change of tag, ciphertext, AAD, nonce and key for one message, every tag length
fn tamper_all(s: &mut Src) -> R {
    let alg = Alg::ALL[(s.idx % 4) as usize];
    let (al, pl) = (s.range(0, 20), if s.idx < 80 { (s.idx / 4) as usize * 3 } else { s.len(300) });
    let k = s.rnd::<32>()[..alg.klen()].to_vec();
    let n = s.rnd::<24>()[..alg.nlen()].to_vec();
    let (a, p) = (s.bytes(al), s.bytes(pl));
    s.note = format!("{alg:?} key={} nonce={} aad={} pt={}", hex(&k), hex(&n), hex(&a), hex(&p));
    let key = alg.key(&k);
    let (ct, tag) = alg.spec(&k, &n, &a, &p);
    let bad = |s: &mut Src, key: &Key, n: &[u8], a: &[u8], c: &[u8], t: &[u8], what: &str| -> R {
        let mut b = Buf::new(s, c);
        ck!(key.open(n, a, b.m(), t).is_err(), "{alg:?} accepted a message with {what}");
        ck!(b.m().iter().all(|x| *x == 0), "{alg:?} left data in the buffer after failing on {what}: {}", hex(b.m()));
        ck!(b.ok(), "{alg:?} wrote outside the buffer on {what}");
        Ok(())
    };
    for i in 0..128 { let mut t = tag; t[i / 8] ^= 1 << (i % 8); bad(s, &key, &n, &a, &ct, &t, &format!("tag bit {i} flipped"))?; }
    for l in 0..16 { bad(s, &key, &n, &a, &ct, &tag[..l], &format!("tag truncated to {l} bytes"))?; }
    for l in 17..40 { let mut t = tag.to_vec(); t.resize(l, 0); bad(s, &key, &n, &a, &ct, &t, &format!("tag zero-extended to {l} bytes"))?; let mut t = tag.to_vec(); t.extend_from_slice(&tag); t.extend_from_slice(&tag); bad(s, &key, &n, &a, &ct, &t[..l], &format!("tag extended to {l} bytes"))?; }
    for i in 0..ct.len() * 8 { if ct.len() > 64 && !s.chance(200, ct.len() as u64 * 8) { continue } let mut c = ct.clone(); c[i / 8] ^= 1 << (i % 8); bad(s, &key, &n, &a, &c, &tag, &format!("ciphertext bit {i} flipped"))?; }
    for i in 0..a.len() * 8 { let mut c = a.clone(); c[i / 8] ^= 1 << (i % 8); bad(s, &key, &n, &c, &ct, &tag, &format!("aad bit {i} flipped"))?; }
    for i in 0..n.len() * 8 { let mut c = n.clone(); c[i / 8] ^= 1 << (i % 8); bad(s, &key, &c, &a, &ct, &tag, &format!("nonce bit {i} flipped"))?; }
    for i in 0..k.len() * 8 { let mut c = k.clone(); c[i / 8] ^= 1 << (i % 8); let kk = alg.key(&c); bad(s, &kk, &n, &a, &ct, &tag, &format!("key bit {i} flipped"))?; }
    if !ct.is_empty() { bad(s, &key, &n, &a, &ct[..ct.len() - 1], &tag, "ciphertext truncated by a byte")?; }
    let mut c = ct.clone(); c.push(0); bad(s, &key, &n, &a, &c, &tag, "ciphertext extended by a zero byte")?;
    let mut c = a.clone(); c.push(0); bad(s, &key, &n, &c, &ct, &tag, "aad extended by a zero byte")?;
    if !a.is_empty() { bad(s, &key, &n, &a[..a.len() - 1], &ct, &tag, "aad truncated by a byte")?; }
    // moving bytes between AAD and ciphertext
    if !ct.is_empty() { let mut c = a.clone(); c.push(ct[0]); bad(s, &key, &n, &c, &ct[1..], &tag, "first ciphertext byte moved to the aad")?; }
    if ct.len() >= 16 { let mut c = a.clone(); c.extend_from_slice(&ct[..16]); bad(s, &key, &n, &c, &ct[16..], &tag, "first ciphertext block moved to the aad")?; }
    let mut b = Buf::new(s, &ct);
    ck!(key.open(&n, &a, b.m(), &tag).is_ok(), "{alg:?} rejected the genuine message");
    eq!(b.m(), p, "{alg:?} plaintext");
    Ok(())
}
/// difference confined to a chosen pattern of tag bytes (e.g. two differences that cancel under xor or sum)
fn tamper_rand(s: &mut Src) -> R {
    let alg = s.pick(&Alg::ALL);
    let (al, pl) = (s.len(300), s.len(5000));
    let k = s.rnd::<32>()[..alg.klen()].to_vec();
    let n = s.rnd::<24>()[..alg.nlen()].to_vec();
    let (a, p) = (s.bytes(al), s.bytes(pl));
    let key = alg.key(&k);
    let (mut c, mut tag) = (p.clone(), [0u8; 16]);
    key.seal(&n, &a, &mut c, &mut tag);
    for _ in 0..8 {
        let (mut c2, mut t2, mut a2, mut n2) = (c.clone(), tag.to_vec(), a.clone(), n.clone());
        let what = match s.below(8) {
            0 => { let d = s.u64() as u8 | 1; let i = s.below(16) as usize; let j = (i + 1 + s.below(15) as usize) % 16; t2[i] ^= d; t2[j] ^= d; "tag: equal differences in two bytes" }
            1 => { let i = s.below(16) as usize; let j = (i + 1 + s.below(15) as usize) % 16; if t2[i] == t2[j] { continue } t2.swap(i, j); "tag: bytes swapped" }
            2 => { let x = t2[0]; if t2.iter().all(|y| *y == x) { continue } t2.rotate_left(1); if t2 == tag { continue } "tag: rotated" }
            3 => { for x in &mut t2 { *x = !*x } "tag: inverted" }
            4 => { if t2.iter().all(|x| *x == 0) { continue } t2.fill(0); "tag: zero" }
            5 => { if c2.is_empty() { continue } let i = s.below(c2.len() as u64) as usize; c2[i] ^= 1 << s.below(8); "ciphertext bit" }
            6 => { if a2.is_empty() { continue } let i = s.below(a2.len() as u64) as usize; a2[i] ^= 1 << s.below(8); "aad bit" }
            _ => { s.flip(&mut n2); "nonce bit" }
        };
        s.note = format!("{alg:?} key={} nonce={} aad={} pt={} change={what}", hex(&k), hex(&n), hex(&a), hex(&p));
        ck!(key.open(&n2, &a2, &mut c2, &t2).is_err(), "{alg:?} accepted a modified message ({what}; pt {pl}, aad {al})");
        ck!(c2.iter().all(|x| *x == 0), "{alg:?} left data in the buffer after failure ({what}; pt {pl}, aad {al})");
    }
    // failure does not disturb the key object
    let mut b = c.clone();
    ck!(key.open(&n, &a, &mut b, &tag).is_ok() && b == p, "{alg:?} genuine message rejected after failures");
    Ok(())
}
pub fn c03() -> Vec<Case> { vec![case("tamper_all", 160, 1, tamper_all), case("tamper_rand", 800, 2, tamper_rand)] }
