use crate::core::*;
use graviola::hashing::{self as gh, hmac::Hmac, Hash, HashContext};
use gspec::hash::{self as sp, H};

fn real_split<X: Hash>(parts: &[&[u8]], clone_at: Option<usize>, junk: &[u8]) -> (Vec<u8>, Option<Vec<u8>>) {
    let mut c = X::new();
    let mut other = None;
    for (i, p) in parts.iter().enumerate() {
        if Some(i) == clone_at { let mut d = c.clone(); d.update(junk); other = Some(d.finish().as_ref().to_vec()); }
        c.update(p);
    }
    (c.finish().as_ref().to_vec(), other)
}
fn split(h: H, parts: &[&[u8]], cl: Option<usize>, junk: &[u8]) -> (Vec<u8>, Option<Vec<u8>>) {
    match h { H::S256 => real_split::<gh::Sha256>(parts, cl, junk), H::S384 => real_split::<gh::Sha384>(parts, cl, junk), H::S512 => real_split::<gh::Sha512>(parts, cl, junk) }
}
pub fn one(h: H, m: &[u8]) -> Vec<u8> {
    match h { H::S256 => gh::Sha256::hash(m).as_ref().to_vec(), H::S384 => gh::Sha384::hash(m).as_ref().to_vec(), H::S512 => gh::Sha512::hash(m).as_ref().to_vec() }
}
fn lens(parts: &[&[u8]]) -> String { format!("{:?}", parts.iter().map(|x| x.len()).take(60).collect::<Vec<_>>()) }
fn sha2_rand(s: &mut Src) -> R {
    let h = s.pick(&H::ALL);
    let n = s.len(3000);
    let m = s.bytes(n);
    let parts = s.split(&m, h.block());
    let cl = if s.chance(1, 2) { Some(s.below(parts.len() as u64 + 1) as usize) } else { None };
    let jn = s.len(300);
    let junk = s.bytes(jn);
    s.note = format!("{} msg={} chunks={}", h.len() * 8, hex(&m), lens(&parts));
    let (d, o) = split(h, &parts, cl, &junk);
    eq!(d, h.hash(&m), "SHA-{} of {} bytes split {} (clone at {:?})", h.len() * 8, n, lens(&parts), cl);
    if let Some(o) = o {
        let mut pre: Vec<u8> = parts[..cl.unwrap()].concat(); pre.extend_from_slice(&junk);
        eq!(o, h.hash(&pre), "SHA-{} cloned context", h.len() * 8);
    }
    Ok(())
}
/// every length 0..=520 in one call, and every two-chunk split position
fn sha2_lens(s: &mut Src) -> R {
    let n = (s.idx / 3) as usize; let h = H::ALL[(s.idx % 3) as usize];
    let m = s.bytes(n);
    let want = h.hash(&m);
    eq!(one(h, &m), want, "SHA-{} of {} bytes: {}", h.len() * 8, n, hex(&m));
    for i in 0..=n { let (d, _) = split(h, &[&m[..i], &m[i..]], None, &[]); eq!(d, want, "SHA-{} of {} bytes split at {}", h.len() * 8, n, i); }
    Ok(())
}
/// buffered prefix length x chunk length, exhaustively to 3 blocks, followed by one more byte
fn sha2_state(s: &mut Src) -> R {
    let h = H::ALL[(s.idx % 3) as usize]; let b = h.block();
    let pre = (s.idx / 3) as usize % b;
    let m = s.rnd::<2048>();
    for l in (0..=3 * b + 2).step_by(if s.thorough { 1 } else { 3 }) {
        let l = l + s.below(3) as usize;
        let (d, _) = split(h, &[&m[..pre], &m[pre..pre + l], &m[pre + l..pre + l + 1]], None, &[]);
        eq!(d, h.hash(&m[..pre + l + 1]), "SHA-{} chunks [{},{},1]", h.len() * 8, pre, l);
    }
    Ok(())
}
// digests of 2^29+77 and 2^32+123 zero bytes, from coreutils sha*sum
const BIG: [(usize, [&str; 3]); 2] = include!("big.in");
fn sha2_big(s: &mut Src) -> R {
    let (n, w) = BIG[(s.idx / 3) as usize]; let i = (s.idx % 3) as usize; let h = H::ALL[i];
    let z = vec![0u8; 1 << 20];
    fn go<X: Hash>(z: &[u8], n: usize) -> Vec<u8> { let mut c = X::new(); let mut r = n; while r > 0 { let k = r.min(z.len()); c.update(&z[..k]); r -= k; } c.finish().as_ref().to_vec() }
    let d = match h { H::S256 => go::<gh::Sha256>(&z, n), H::S384 => go::<gh::Sha384>(&z, n), H::S512 => go::<gh::Sha512>(&z, n) };
    s.note = format!("SHA-{} of {} zero bytes", h.len() * 8, n);
    ck!(hex(&d) == w[i], "SHA-{} of {} zero bytes: got {} want {}", h.len() * 8, n, hex(&d), w[i]);
    // the same as a single update
    let z = vec![0u8; n];
    let d = one(h, &z);
    ck!(hex(&d) == w[i], "SHA-{} of {} zero bytes in one update: got {} want {}", h.len() * 8, n, hex(&d), w[i]);
    Ok(())
}
pub fn c04() -> Vec<Case> { vec![once("sha2_big", 6, sha2_big), case("sha2_lens", 3 * 300, 1, sha2_lens), case("sha2_state", 3 * 128, 1, sha2_state), case("sha2_rand", 3000, 4, sha2_rand)] }

fn sha3_parts(k: usize, parts: &[&[u8]], out: &mut [&mut [u8]]) {
    use gh::sha3::*;
    match k {
        0 => { let mut c = Sha3_256Context::new(); for p in parts { c.update(p) } out[0].copy_from_slice(&c.finish()) }
        1 => { let mut c = Sha3_512Context::new(); for p in parts { c.update(p) } out[0].copy_from_slice(&c.finish()) }
        2 => { let mut c = Shake128::new(parts); for o in out { c.read(o) } }
        _ => { let mut c = Shake256::new(parts); for o in out { c.read(o) } }
    }
}
fn sha3_spec(k: usize, m: &[u8], n: usize) -> Vec<u8> { match k { 0 => sp::sha3_256(m), 1 => sp::sha3_512(m), 2 => sp::shake128(m, n), _ => sp::shake256(m, n) } }
const RATE: [usize; 4] = [136, 72, 168, 136];
const NM: [&str; 4] = ["SHA3-256", "SHA3-512", "SHAKE128", "SHAKE256"];
fn olen(k: usize, n: usize) -> usize { match k { 0 => 32, 1 => 64, _ => n } }
fn sha3_rand(s: &mut Src) -> R {
    let k = s.below(4) as usize;
    let n = s.len(1400);
    let m = s.bytes(n);
    let parts = s.split(&m, RATE[k]);
    let on = s.len(1400);
    let n = olen(k, on);
    let want = sha3_spec(k, &m, n);
    let mut out = vec![0xeeu8; n];
    let cuts: Vec<usize> = { let t = out.clone(); if k < 2 { vec![n] } else { s.split(&t, RATE[k]).iter().map(|x| x.len()).collect() } };
    s.note = format!("{} msg={} chunks={} reads={:?}", NM[k], hex(&m), lens(&parts), cuts);
    { let mut rest = &mut out[..]; let mut os = vec![]; for c in &cuts { let (a, b) = rest.split_at_mut(*c); os.push(a); rest = b; } sha3_parts(k, &parts, &mut os); }
    eq!(out, want, "{} of {} bytes chunks {} reads {:?}", NM[k], m.len(), lens(&parts), cuts);
    Ok(())
}
fn sha3_lens(s: &mut Src) -> R {
    let k = (s.idx % 4) as usize; let n = (s.idx / 4) as usize;
    let m = s.bytes(n);
    let on = s.range(0, 500);
    let o = olen(k, on);
    let want = sha3_spec(k, &m, o);
    for i in 0..=n { if n > 180 && !s.chance(1, 3) { continue } let mut out = vec![0u8; o]; sha3_parts(k, &[&m[..i], &m[i..]], &mut [&mut out]); eq!(out, want, "{} of {} bytes split at {}", NM[k], n, i); }
    Ok(())
}
/// every first-read length, second-read length (3 reads)
fn shake_reads(s: &mut Src) -> R {
    let k = 2 + (s.idx % 2) as usize; let a = (s.idx / 2) as usize % (2 * RATE[k] + 3);
    let mn = s.range(0, 200);
    let m = s.bytes(mn);
    let want = sha3_spec(k, &m, 1200);
    for _ in 0..40 {
        let b = s.pick(&[0, 1, RATE[k] - 1, RATE[k], RATE[k] + 1, (2 * RATE[k]).saturating_sub(a % RATE[k]), RATE[k] - a % RATE[k], s_rng(a, 7)]) + 0;
        let b = if s.chance(1, 2) { s.range(0, 400) } else { b };
        let c = s.range(0, 300);
        let mut out = vec![0u8; a + b + c];
        { let (x, r) = out.split_at_mut(a); let (y, z) = r.split_at_mut(b); sha3_parts(k, &[&m], &mut [x, y, z]); }
        eq!(out, want[..a + b + c], "{} reads [{a},{b},{c}]", NM[k]);
    }
    Ok(())
}
fn s_rng(a: usize, b: usize) -> usize { (a * 31 + b) % 350 }
pub fn c05() -> Vec<Case> { vec![case("sha3_lens", 4 * 300, 1, sha3_lens), case("shake_reads", 680, 1, shake_reads), case("sha3_rand", 2000, 3, sha3_rand)] }

fn hm<X: Hash + Clone>(k: &[u8], parts: &[&[u8]], cl: bool) -> Vec<u8> {
    let mut h = Hmac::<X>::new(k);
    for (i, p) in parts.iter().enumerate() { if cl && i == parts.len() / 2 { h = { let c = h.clone(); let mut junk = h; junk.update(b"junk"); let _ = junk.finish(); c }; } h.update(p) }
    h.finish().as_ref().to_vec()
}
fn hv<X: Hash>(k: &[u8], m: &[u8], t: &[u8]) -> bool { let mut h = Hmac::<X>::new(k); h.update(m); h.verify(t).is_ok() }
fn hmac_v(h: H, k: &[u8], m: &[u8], t: &[u8]) -> bool { match h { H::S256 => hv::<gh::Sha256>(k, m, t), H::S384 => hv::<gh::Sha384>(k, m, t), H::S512 => hv::<gh::Sha512>(k, m, t) } }
fn hmac_one(s: &mut Src, h: H, kl: usize, ml: usize) -> R {
    let k = s.bytes(kl); let m = s.bytes(ml);
    let parts = s.split(&m, h.block());
    s.note = format!("HMAC-SHA{} key={} msg={}", h.len() * 8, hex(&k), hex(&m));
    let want = sp::hmac(h, &k, &m);
    let cl = s.chance(1, 3);
    let got = match h { H::S256 => hm::<gh::Sha256>(&k, &parts, cl), H::S384 => hm::<gh::Sha384>(&k, &parts, cl), H::S512 => hm::<gh::Sha512>(&k, &parts, cl) };
    eq!(got, want, "HMAC-SHA{} key {} bytes, message chunks {}", h.len() * 8, kl, lens(&parts));
    ck!(hmac_v(h, &k, &m, &want), "HMAC-SHA{} rejected the right tag", h.len() * 8);
    let mut t = want.clone(); let b = s.flip(&mut t);
    ck!(!hmac_v(h, &k, &m, &t), "HMAC-SHA{} accepted tag with bit {} flipped", h.len() * 8, b);
    Ok(())
}
fn hmac_rand(s: &mut Src) -> R { let h = s.pick(&H::ALL); let (k, m) = (s.len(700), s.len(800)); hmac_one(s, h, k, m) }
fn hmac_keys(s: &mut Src) -> R { let h = H::ALL[(s.idx % 3) as usize]; let k = (s.idx / 3) as usize; let m = s.len(200); hmac_one(s, h, k, m) }
fn hmac_verify(s: &mut Src) -> R {
    let h = H::ALL[(s.idx % 3) as usize];
    let (kl, ml) = (s.len(200), s.len(100));
    let k = s.bytes(kl); let m = s.bytes(ml);
    let want = sp::hmac(h, &k, &m);
    s.note = format!("HMAC-SHA{} key={} msg={}", h.len() * 8, hex(&k), hex(&m));
    for i in 0..want.len() * 8 { let mut t = want.clone(); t[i / 8] ^= 1 << (i % 8); ck!(!hmac_v(h, &k, &m, &t), "HMAC-SHA{} accepted tag with bit {i} flipped", h.len() * 8); }
    for l in 0..want.len() { ck!(!hmac_v(h, &k, &m, &want[..l]), "HMAC-SHA{} accepted tag truncated to {l} bytes", h.len() * 8); }
    for l in 1..80 { let mut t = want.clone(); t.extend(vec![0; l]); ck!(!hmac_v(h, &k, &m, &t), "HMAC-SHA{} accepted tag extended by {l} zero bytes", h.len() * 8);
        let mut t = want.clone(); t.extend_from_slice(&want); t.extend_from_slice(&want); ck!(!hmac_v(h, &k, &m, &t[..want.len() + l.min(want.len())]), "HMAC-SHA{} accepted extended tag", h.len() * 8); }
    for _ in 0..20 { let (i, j) = (s.below(want.len() as u64) as usize, s.below(want.len() as u64) as usize); let mut t = want.clone(); let d = s.u64() as u8 | 1; t[i] ^= d; if i != j { t[j] ^= d } ck!(!hmac_v(h, &k, &m, &t), "HMAC accepted tag with bytes {i},{j} changed"); }
    // HashOutput comparisons
    let o = match h { H::S256 => gh::Sha256::hash(&m), H::S384 => gh::Sha384::hash(&m), H::S512 => gh::Sha512::hash(&m) };
    let d = h.hash(&m);
    ck!(o.ct_equal(&d), "ct_equal");
    for l in 0..d.len() { ck!(!o.ct_equal(&d[..l]), "HashOutput::ct_equal accepted a prefix of {l} bytes"); }
    let mut e = d.clone(); e.push(0); ck!(!o.ct_equal(&e), "HashOutput::ct_equal accepted longer input");
    ck!(o.truncated_ct_equal::<16>(&d[..16]) && !o.truncated_ct_equal::<16>(&d[..15]) && !o.truncated_ct_equal::<16>(&d[..17]) && !o.truncated_ct_equal::<16>(&d), "truncated_ct_equal length");
    let mut x = d[..16].to_vec(); s.flip(&mut x); ck!(!o.truncated_ct_equal::<16>(&x), "truncated_ct_equal accepted a flipped bit");
    ck!(o == o.clone(), "HashOutput equality");
    let mut o2 = o.clone(); { let b = o2.as_mut(); s.flip(b); } ck!(o != o2, "HashOutput inequality");
    ck!(gh::Sha256::hash(&m) != gh::Sha512::hash(&m), "HashOutput of different hashes compare equal");
    Ok(())
}
pub fn c06() -> Vec<Case> { vec![case("hmac_keys", 3 * 300, 1, hmac_keys), case("hmac_verify", 60, 1, hmac_verify), case("hmac_rand", 3000, 3, hmac_rand)] }
