//! X.690 DER, definite short lengths only as needed here.
use crate::nat::Nat;
pub fn len(l: usize) -> Vec<u8> {
    if l < 0x80 { return vec![l as u8]; }
    let b: Vec<u8> = l.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    [vec![0x80 | b.len() as u8], b].concat()
}
pub fn tlv(t: u8, b: &[u8]) -> Vec<u8> { [vec![t], len(b.len()), b.to_vec()].concat() }
pub fn seq(parts: &[&[u8]]) -> Vec<u8> { tlv(0x30, &parts.concat()) }
pub fn int(n: &Nat) -> Vec<u8> {
    let mut b = n.to_be_min();
    if b.is_empty() || b[0] & 0x80 != 0 { b.insert(0, 0); }
    tlv(2, &b)
}
/// strict TLV reader: (tag, body, rest)
pub fn read(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let t = *b.first()?;
    if t & 0x1f == 0x1f { return None; }
    let l0 = *b.get(1)?;
    let (l, h) = if l0 < 0x80 { (l0 as usize, 2) } else {
        let n = (l0 & 0x7f) as usize;
        if n == 0 || n > 4 { return None; }
        let lb = b.get(2..2 + n)?;
        let l = lb.iter().fold(0usize, |a, x| a << 8 | *x as usize);
        if l < 0x80 || lb[0] == 0 { return None; }
        (l, 2 + n)
    };
    Some((t, b.get(h..h.checked_add(l)?)?, &b[h + l..]))
}
pub fn read_tag(b: &[u8], tag: u8) -> Option<(&[u8], &[u8])> { let (t, v, r) = read(b)?; if t == tag { Some((v, r)) } else { None } }
/// minimal non-negative INTEGER
pub fn read_uint(b: &[u8]) -> Option<(Nat, &[u8])> {
    let (v, r) = read_tag(b, 2)?;
    if v.is_empty() || v[0] & 0x80 != 0 || (v.len() > 1 && v[0] == 0 && v[1] & 0x80 == 0) { return None; }
    Some((Nat::from_be(v), r))
}
/// SEQUENCE { r INTEGER, s INTEGER }, nothing else
pub fn ecdsa_sig(b: &[u8]) -> Option<(Nat, Nat)> {
    let (s, rest) = read_tag(b, 0x30)?;
    if !rest.is_empty() { return None; }
    let (r, s) = read_uint(s)?;
    let (s, e) = read_uint(s)?;
    if e.is_empty() { Some((r, s)) } else { None }
}
pub fn enc_ecdsa_sig(r: &Nat, s: &Nat) -> Vec<u8> { seq(&[&int(r), &int(s)]) }
