use crate::core::*;
use graviola::key_agreement::mlkem768::{Ciphertext, DecapKey, EncapKey, Message};
use gspec::mlkem as sp;

fn key(s: &mut Src) -> (DecapKey, Vec<u8>, Vec<u8>) {
    let d: [u8; 32] = s.arr(); let z: [u8; 32] = s.arr();
    let mut seed = [0; 64]; seed[..32].copy_from_slice(&d); seed[32..].copy_from_slice(&z);
    s.note = format!("d={} z={}", hex(&d), hex(&z));
    let (ek, dk) = sp::keygen(&d, &z);
    (DecapKey::keygen_internal(&seed), ek, dk)
}
fn ct(v: &[u8]) -> Ciphertext { let a: [u8; 1088] = v.try_into().unwrap(); a.into() }
fn kem(s: &mut Src) -> R {
    let (g, ek, dk) = key(s);
    eq!(g.as_bytes(), dk, "decapsulation key {}", s.note); eq!(g.encapsulation_key().as_bytes(), ek, "encapsulation key {}", s.note);
    let m: [u8; 32] = s.arr(); let (k, c) = sp::encaps(&ek, &m); s.note = format!("{} m={}", s.note, hex(&m));
    let e = if s.chance(1, 2) { g.encapsulation_key() } else { EncapKey::from_bytes(&ek.clone().try_into().unwrap()).map_err(|e| format!("own key refused {e:?}"))? };
    let (gk, gc) = e.encaps_internal(Message(m));
    eq!(gc.as_ref(), c, "ciphertext {}", s.note); eq!(gk.as_ref(), k, "shared secret {}", s.note);
    eq!(g.decaps_internal(&gc).as_ref(), k, "decapsulated secret {}", s.note);
    for _ in 0..3 {
        let mut c2 = c.clone();
        match s.below(8) {
            0 => { let b = s.bytes(1088); c2 = b }
            1 => { let a = s.range(0, 1087); let b = s.bytes(1088 - a); c2[a..].copy_from_slice(&b) }
            2 => { let i = s.range(0, 1087); c2[i] = c2[i].wrapping_add(s.range(1, 255) as u8) }
            3 => { let i = s.range(0, 127); c2[960 + i] ^= s.pick(&[1, 0x10, 8, 0x80]) }
            4 => { let b = s.u64() as u8; c2.fill(b) }
            5 => { let (i, j) = (s.range(0, 1087), s.range(0, 1087)); c2.swap(i, j) }
            6 => { let i = s.range(0, 1087); let j = s.range(0, 1087); let x = 1 << s.below(8); c2[i] ^= x; c2[j] ^= x }
            _ => { s.flip(&mut c2); }
        }
        eq!(g.decaps_internal(&ct(&c2)).as_ref(), sp::decaps(&dk, &c2), "decapsulation of c={} {}", c2.iter().map(|x| format!("{x:02x}")).collect::<String>(), s.note);
    }
    eq!(g.decaps(&gc).as_ref(), k, "decaps");
    Ok(())
}
/// every single-byte alteration of a ciphertext is rejected implicitly
fn flips(s: &mut Src) -> R {
    let seed = s.rnd::<64>(); let g = DecapKey::keygen_internal(&seed); let m = s.rnd(); let (k, c) = g.encapsulation_key().encaps_internal(Message(m));
    let i = (s.idx % 1088) as usize; let x = s.pick(&[1u8, 0x80, 0xff, 0x10, 2]); let mut c2 = c.as_ref().to_vec(); c2[i] ^= x;
    let r = g.decaps_internal(&ct(&c2)); s.note = format!("seed={} m={} byte {i} ^ {x:#x}", hex(&seed), hex(&m));
    ck!(r.as_ref() != k.as_ref(), "altered ciphertext gives the honest secret {}", s.note);
    eq!(r.as_ref(), gspec::hash::shake256(&[&seed[32..], &c2[..]].concat(), 32), "rejection secret {}", s.note);
    Ok(())
}
fn rand(s: &mut Src) -> R {
    let a = DecapKey::generate().unwrap(); let b = DecapKey::generate().unwrap(); let _ = s;
    ck!(a.as_bytes() != b.as_bytes() && a.as_bytes()[2368..] != b.as_bytes()[2368..], "repeated generated keys");
    let dk = a.as_bytes(); eq!(dk[2336..2368], gspec::hash::sha3_256(&dk[1152..2336]), "H(ek)");
    let (k1, c1) = a.encapsulation_key().encaps().unwrap(); let (k2, c2) = a.encapsulation_key().encaps().unwrap();
    ck!(c1.as_ref() != c2.as_ref() && k1.as_ref() != k2.as_ref(), "repeated encapsulation randomness");
    eq!(sp::decaps(&dk, c1.as_ref()), k1.as_ref(), "encaps"); eq!(a.decaps(&c2).as_ref(), k2.as_ref(), "decaps");
    Ok(())
}
/// encapsulation to arbitrary acceptable keys, including extreme coefficient vectors
fn ek_extreme(s: &mut Src) -> R {
    let mut t = vec![0i64; 768];
    match s.below(4) { 0 => t.fill(s.pick(&[0, 1, 3328, 1664, 1665])), 1 => for x in t.iter_mut() { *x = s.pick(&[0, 3328]) }, _ => for x in t.iter_mut() { *x = s.below(3329) as i64 } }
    let mut ek: Vec<u8> = t.chunks(256).flat_map(|c| sp::byte_encode(12, c.try_into().unwrap())).collect(); ek.extend(s.bytes(32));
    let m = s.arr(); s.note = format!("ek={} m={}", hex(&ek), hex(&m));
    let g = EncapKey::from_bytes(&ek.clone().try_into().unwrap()).map_err(|e| format!("refused {e:?} {}", s.note))?; eq!(g.as_bytes(), ek, "as_bytes");
    let (k, c) = sp::encaps(&ek, &m); let (gk, gc) = g.encaps_internal(Message(m)); eq!(gc.as_ref(), c, "ciphertext {}", s.note); eq!(gk.as_ref(), k, "secret {}", s.note);
    Ok(())
}

#[cfg(feature = "h_mlkem")]
extern "Rust" {
    fn gvd_mk_ntt(f: &[i16; 768]) -> Vec<u8>;
    fn gvd_mk_dot(a: &[u8; 1152], s: &[u8; 1152]) -> Vec<i16>;
    fn gvd_mk_matrix(rho: &[u8; 32], t: bool) -> Vec<Vec<u8>>;
    fn gvd_mk_matvec(rho: &[u8; 32], s: &[u8; 1152], e: &[u8; 1152]) -> (Vec<u8>, Vec<i16>);
    fn gvd_mk_cbd(b: &[u8; 128]) -> Vec<i16>;
    fn gvd_mk_tail(msg: &[u8], n: usize) -> Vec<i16>;
    fn gvd_mk_sample(msg: &[u8]) -> Vec<i16>;
    fn gvd_mk_rej(b: &[u8; 504]) -> (Vec<i16>, u64);
    fn gvd_mk_scalar(op: u32, x: i16) -> i32;
    fn gvd_mk_du(u: &[i16; 768]) -> (Vec<u8>, Vec<i16>);
    fn gvd_mk_dv(v: &[i16; 256]) -> (Vec<u8>, Vec<i16>);
    fn gvd_mk_msg(m: [u8; 32]) -> (Vec<i16>, [u8; 32]);
    fn gvd_mk_tomsg(v: &[i16; 256]) -> [u8; 32];
    fn gvd_mk_addsub(a: &[i16; 256], b: &[i16; 256], sub: bool) -> Vec<i16>;
}
#[cfg(feature = "h_mlkem")]
mod h {
    use super::*;
    type P = sp::Poly;
    fn poly(s: &mut Src) -> P {
        let mut p = [0; 256];
        match s.below(7) { 0 => p.fill(s.pick(&[0, 1, 3328, 1664, 1665])), 1 => for x in p.iter_mut() { *x = s.pick(&[0, 3328]) }, 2 => { p[s.range(0, 255)] = s.below(3329) as i64 } 3 => for x in p.iter_mut() { *x = s.pick(&[1664, 1665, 1663]) }, _ => for x in p.iter_mut() { *x = s.below(3329) as i64 } }
        p
    }
    fn polys(s: &mut Src) -> Vec<P> { (0..3).map(|_| poly(s)).collect() }
    fn enc(p: &[P]) -> Vec<u8> { p.iter().flat_map(|x| sp::byte_encode(12, x)).collect() }
    fn i16s(p: &[P]) -> Vec<i16> { p.iter().flatten().map(|x| *x as i16).collect() }
    fn same(g: &[i16], w: &[P], canon: bool, what: &str) -> R {
        for (i, (a, b)) in g.iter().zip(w.iter().flatten()).enumerate() { ck!(if canon { *a as i64 == *b } else { (*a as i64 - b).rem_euclid(sp::Q) == 0 }, "{what}: coefficient {i} is {a}, want {b}") }
        ck!(g.len() == w.len() * 256, "{what}: length"); Ok(())
    }
    pub fn ntt(s: &mut Src) -> R {
        let small = s.chance(1, 2); let mut p = polys(s); if small { for x in p.iter_mut().flatten() { *x = *x % 5 - 2 } } s.note = format!("{:?}", p);
        let f: [i16; 768] = i16s(&p).try_into().unwrap(); let w: Vec<P> = p.iter().map(|x| { let mut y = *x; for v in y.iter_mut() { *v = v.rem_euclid(sp::Q) } sp::ntt(&y) }).collect();
        eq!(unsafe { gvd_mk_ntt(&f) }, enc(&w), "NTT"); Ok(())
    }
    pub fn dot(s: &mut Src) -> R {
        let (a, b) = (polys(s), polys(s)); s.note = format!("{:?} {:?}", a, b);
        let mut acc = [0; 256]; for i in 0..3 { acc = sp::addp(&acc, &sp::mulntt(&a[i], &b[i])) }
        let g = unsafe { gvd_mk_dot(enc(&a).as_slice().try_into().unwrap(), enc(&b).as_slice().try_into().unwrap()) };
        same(&g, &[sp::intt(&acc)], true, "NTT-1(a.b)")
    }
    pub fn matvec(s: &mut Src) -> R {
        let rho: [u8; 32] = s.arr(); let (v, e) = (polys(s), polys(s)); s.note = format!("rho={} {:?} {:?}", hex(&rho), v, e);
        let a: Vec<Vec<P>> = (0..3).map(|i| (0..3).map(|j| sp::sample_ntt(&[&rho[..], &[j as u8, i as u8]].concat())).collect()).collect();
        for t in [false, true] { let g = unsafe { gvd_mk_matrix(&rho, t) }; for i in 0..3 { let w: Vec<P> = (0..3).map(|j| if t { a[j][i] } else { a[i][j] }).collect(); eq!(g[i], enc(&w), "matrix row {i} transposed={t} rho={}", hex(&rho)) } }
        let (g1, g2) = unsafe { gvd_mk_matvec(&rho, enc(&v).as_slice().try_into().unwrap(), enc(&e).as_slice().try_into().unwrap()) };
        let mut w1 = vec![]; let mut w2 = vec![];
        for i in 0..3 { let mut x = e[i]; let mut y = [0; 256]; for j in 0..3 { x = sp::addp(&x, &sp::mulntt(&a[i][j], &v[j])); y = sp::addp(&y, &sp::mulntt(&a[j][i], &v[j])) } w1.push(x); w2.push(sp::intt(&y)) }
        eq!(g1, enc(&w1), "A s + e"); same(&g2, &w2, true, "NTT-1(A^T y)")
    }
    pub fn cbd(s: &mut Src) -> R {
        let b: [u8; 128] = s.arr(); s.note = hex(&b); let g = unsafe { gvd_mk_cbd(&b) };
        for x in &g { ck!((-2..=2).contains(x), "CBD coefficient {x}") } same(&g, &[sp::cbd2(&b)], false, "CBD2")
    }
    pub fn sample(s: &mut Src) -> R {
        let m = s.bytes(34); s.note = hex(&m); let w = sp::sample_ntt(&m);
        same(&unsafe { gvd_mk_sample(&m) }, &[w], true, "SampleNTT")?;
        let n = s.range(0, 256); let g = unsafe { gvd_mk_tail(&m, n) }; for i in 0..n { ck!(g[i] as i64 == w[i], "tail sampling coefficient {i}: {} want {}", g[i], w[i]) } ck!(g.len() == n, "len");
        let mut b = [0u8; 504]; s.fill(&mut b); let style = s.below(5);
        for c in b.chunks_mut(3) { let (x, y): (u16, u16) = match style { 0 => continue, 1 => (s.pick(&[3328, 3329, 0, 4095]), s.pick(&[3328, 3329, 0, 4095])), 2 => (3329 + s.below(767) as u16, s.pick(&[3329, 5])), 3 => (3328, 3328), _ => (s.below(4096) as u16, 3329) }; c[0] = x as u8; c[1] = (x >> 8) as u8 | (y << 4) as u8; c[2] = (y >> 4) as u8; }
        s.note = hex(&b); let all: Vec<i16> = b.chunks(3).flat_map(|c| [(c[0] as i16) | (c[1] as i16 & 15) << 8, (c[1] >> 4) as i16 | (c[2] as i16) << 4]).filter(|x| *x < 3329).take(256).collect();
        let (g, n) = unsafe { gvd_mk_rej(&b) }; ck!(n as usize == all.len() && g[..all.len()] == all[..], "rejection sampling: {} values {:?} want {} {:?} {}", n, &g[..n as usize], all.len(), all, s.note);
        Ok(())
    }
    /// every scalar of the finite domain
    pub fn scalars(_: &mut Src) -> R {
        for x in 0..3329i16 { for (op, d) in [(0, 4), (1, 10), (2, 1)] { let g = unsafe { gvd_mk_scalar(op, x) } as i64; ck!(g == sp::compress1(d, x as i64), "Compress_{d}({x}) = {g}, want {}", sp::compress1(d, x as i64)) } }
        for (op, d) in [(3, 4usize), (4, 10)] { for y in 0..1i16 << d { let g = unsafe { gvd_mk_scalar(op, y) } as i64; ck!(g == sp::decompress1(d, y as i64), "Decompress_{d}({y}) = {g}") } }
        Ok(())
    }
    pub fn pack(s: &mut Src) -> R {
        let u = polys(s); let v = poly(s); s.note = format!("{u:?} {v:?}");
        let (b, x) = unsafe { gvd_mk_du(i16s(&u).as_slice().try_into().unwrap()) };
        let cu: Vec<P> = u.iter().map(|p| p.map(|x| sp::compress1(10, x))).collect(); eq!(b, cu.iter().flat_map(|p| sp::byte_encode(10, p)).collect::<Vec<_>>(), "ByteEncode_10"); let du: Vec<P> = cu.iter().map(|p| p.map(|y| sp::decompress1(10, y))).collect(); same(&x, &du, true, "Decompress_10")?;
        let (b, x) = unsafe { gvd_mk_dv(i16s(&[v]).as_slice().try_into().unwrap()) }; let cv = v.map(|x| sp::compress1(4, x)); eq!(b, sp::byte_encode(4, &cv), "ByteEncode_4"); same(&x, &[cv.map(|y| sp::decompress1(4, y))], true, "Decompress_4")?;
        let m: [u8; 32] = s.arr(); let (x, m2) = unsafe { gvd_mk_msg(m) }; eq!(m2, m, "message"); same(&x, &[sp::byte_decode(1, &m).map(|b| sp::decompress1(1, b))], true, "Decompress_1")?;
        eq!(unsafe { gvd_mk_tomsg(i16s(&[v]).as_slice().try_into().unwrap()) }, sp::byte_encode(1, &v.map(|x| sp::compress1(1, x))), "Compress_1");
        let w = poly(s); for sub in [false, true] { let g = unsafe { gvd_mk_addsub(i16s(&[v]).as_slice().try_into().unwrap(), i16s(&[w]).as_slice().try_into().unwrap(), sub) }; same(&g, &[if sub { sp::subp(&v, &w) } else { sp::addp(&v, &w) }], true, "addition")? }
        Ok(())
    }
}
pub fn c19() -> Vec<Case> {
    #[allow(unused_mut)]
    let mut v = vec![case("kem", 400, 6, kem), case("flips", 1088, 2, flips), case("ek_extreme", 200, 2, ek_extreme), case("rand", 10, 1, rand)];
    #[cfg(feature = "h_mlkem")]
    v.extend([case("ntt", 300, 2, h::ntt), case("dot", 300, 2, h::dot), case("matvec", 100, 2, h::matvec), case("cbd", 300, 1, h::cbd), case("sample", 300, 1, h::sample), once("scalars", 1, h::scalars), case("pack", 300, 1, h::pack)]);
    v
}

// ---------------------------------------------------------------- C20
fn set(b: &mut [u8], i: usize, v: u16) { let c = &mut b[i / 2 * 3..i / 2 * 3 + 3]; if i % 2 == 0 { c[0] = v as u8; c[1] = c[1] & 0xf0 | (v >> 8) as u8 } else { c[1] = c[1] & 15 | (v << 4) as u8; c[2] = (v >> 4) as u8 } }
fn ek_check(ek: &[u8], note: &str) -> R {
    let a: [u8; 1184] = ek.try_into().unwrap();
    match EncapKey::from_bytes(&a) { Ok(k) => { ck!(sp::ek_ok(ek), "non-canonical key accepted {note}"); eq!(k.as_bytes(), a, "re-encoded {note}"); eq!(k.clone().as_bytes(), a, "clone") } Err(e) => ck!(!sp::ek_ok(ek), "canonical key refused {e:?} {note}") }
    Ok(())
}
/// each coefficient position with the values around the modulus
fn c20_pos(s: &mut Src) -> R {
    let i = (s.idx % 768) as usize; let k = s.idx / 768; let mut ek = vec![0u8; 1184]; for j in 0..768 { let v = s.below(3329) as u16; set(&mut ek, j, v) } let r = s.bytes(32); ek[1152..].copy_from_slice(&r);
    let v = match k % 3 { 0 => s.pick(&[3329u16, 3330, 4095, 3392, 3584]), 1 => 3328, _ => s.below(4096) as u16 }; set(&mut ek, i, v); s.note = format!("coefficient {i} = {v}");
    ek_check(&ek, &s.note.clone())
}
fn c20_any(s: &mut Src) -> R { let mut ek = s.bytes(1184); if s.chance(1, 2) { for j in 0..768 { let v = s.pick(&[0u16, 3328, 3328, 1]); set(&mut ek, j, v) } for _ in 0..s.range(0, 2) { let j = s.range(0, 767); let v = s.below(4096) as u16; set(&mut ek, j, v) } } s.note = hex(&ek); ek_check(&ek, &s.note.clone()) }
/// every 12-bit value
fn c20_all(s: &mut Src) -> R { for v in 0..4096u16 { let mut ek = vec![0u8; 1184]; let j = (s.idx as usize * 131 + v as usize * 7) % 768; set(&mut ek, j, v); ek_check(&ek, &format!("coefficient {j} = {v}"))? } Ok(()) }
pub fn c20() -> Vec<Case> { vec![case("pos", 2304, 3, c20_pos), case("any", 300, 2, c20_any), once("all", 4, c20_all)] }
