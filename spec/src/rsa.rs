//! RFC 8017 primitives and encodings
use crate::hash::H;
use crate::nat::Nat;
pub fn digest_info(h: H) -> Vec<u8> {
    // DER DigestInfo { AlgorithmIdentifier { 2.16.840.1.101.3.4.2.x, NULL }, OCTET STRING }
    let x = match h { H::S256 => 1, H::S384 => 2, H::S512 => 3 };
    crate::der::seq(&[&crate::der::seq(&[&crate::der::tlv(6, &[0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, x]), &[5, 0]]), &[4, h.len() as u8]])
        .iter().copied().collect::<Vec<u8>>()
}
fn fix_len(mut di: Vec<u8>, h: H) -> Vec<u8> { di[1] += h.len() as u8; di }
pub fn emsa_pkcs1(h: H, m: &[u8], k: usize) -> Vec<u8> {
    let t = [fix_len(digest_info(h), h), h.hash(m)].concat();
    [vec![0, 1], vec![0xff; k - t.len() - 3], vec![0], t].concat()
}
pub fn mgf1(h: H, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0u32;
    while o.len() < n { o.extend(h.hash(&[seed, &c.to_be_bytes()].concat())); c += 1; }
    o.truncate(n);
    o
}
pub fn emsa_pss(h: H, m: &[u8], salt: &[u8], em_bits: usize) -> Vec<u8> {
    let em_len = (em_bits + 7) / 8;
    let hh = h.hash(&[&[0u8; 8][..], &h.hash(m), salt].concat());
    let mut db = [vec![0; em_len - salt.len() - h.len() - 2], vec![1], salt.to_vec()].concat();
    for (d, k) in db.iter_mut().zip(mgf1(h, &hh, em_len - h.len() - 1)) { *d ^= k; }
    db[0] &= 0xff >> (8 * em_len - em_bits);
    [db, hh, vec![0xbc]].concat()
}
pub fn pss_check(h: H, m: &[u8], em: &[u8], em_bits: usize) -> bool {
    let em_len = (em_bits + 7) / 8;
    let s_len = h.len();
    if em.len() != em_len || em_len < h.len() + s_len + 2 || em[em_len - 1] != 0xbc { return false; }
    let (mdb, hh) = (&em[..em_len - h.len() - 1], &em[em_len - h.len() - 1..em_len - 1]);
    let mask = 0xffu8.checked_shr((8 * em_len - em_bits) as u32).unwrap_or(0);
    if mdb[0] & !mask != 0 { return false; }
    let mut db: Vec<u8> = mdb.iter().zip(mgf1(h, hh, mdb.len())).map(|(a, b)| a ^ b).collect();
    db[0] &= mask;
    let ps = em_len - h.len() - s_len - 2;
    if db[..ps].iter().any(|x| *x != 0) || db[ps] != 1 { return false; }
    h.hash(&[&[0u8; 8][..], &h.hash(m), &db[ps + 1..]].concat()) == hh
}
pub fn verify_pkcs1(n: &Nat, e: &Nat, h: H, m: &[u8], sig: &[u8]) -> bool {
    let k = (n.bits() + 7) / 8;
    let s = Nat::from_be(sig);
    sig.len() == k && s.lt(n) && s.powm(e, n).to_be(k) == emsa_pkcs1(h, m, k)
}
pub fn verify_pss(n: &Nat, e: &Nat, h: H, m: &[u8], sig: &[u8]) -> bool {
    let k = (n.bits() + 7) / 8;
    let s = Nat::from_be(sig);
    if sig.len() != k || s.ge(n) { return false; }
    let em_bits = n.bits() - 1;
    let em_len = (em_bits + 7) / 8;
    let v = s.powm(e, n);
    if v.bits() > em_len * 8 { return false; }
    pss_check(h, m, &v.to_be(em_len), em_bits)
}
#[derive(Clone, Debug)]
pub struct Priv { pub n: Nat, pub e: Nat, pub d: Nat, pub p: Nat, pub q: Nat, pub dp: Nat, pub dq: Nat, pub qi: Nat }
impl Priv {
    pub fn from_pq(p: &Nat, q: &Nat, e: &Nat) -> Option<Priv> {
        let one = Nat::one();
        let (p1, q1) = (p.sub(&one), q.sub(&one));
        let lcm = p1.mul(&q1).divrem(&p1.gcd(&q1)).0;
        let d = e.invm(&lcm)?;
        Some(Priv { n: p.mul(q), e: e.clone(), dp: d.rem(&p1), dq: d.rem(&q1), qi: q.invm(p)?, d, p: p.clone(), q: q.clone() })
    }
    pub fn der(&self) -> Vec<u8> {
        let z = Nat::zero();
        let v: Vec<Vec<u8>> = [&z, &self.n, &self.e, &self.d, &self.p, &self.q, &self.dp, &self.dq, &self.qi].iter().map(|x| crate::der::int(x)).collect();
        crate::der::seq(&v.iter().map(|x| &x[..]).collect::<Vec<_>>())
    }
    pub fn sign_raw(&self, em: &Nat) -> Nat { em.powm(&self.d, &self.n) }
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn di() {
        assert_eq!(fix_len(digest_info(H::S256), H::S256), [0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20]);
        let em = emsa_pss(H::S256, b"hello", &[3; 32], 2047);
        assert!(pss_check(H::S256, b"hello", &em, 2047));
        assert!(!pss_check(H::S256, b"hellp", &em, 2047));
        let em = emsa_pss(H::S256, b"hello", &[3; 32], 2045);
        assert!(pss_check(H::S256, b"hello", &em, 2045));
    }
}
