// RFC 8439 section 2.1-2.4 and the HChaCha20 of draft-irtf-cfrg-xchacha. State: eight key words, the block counter, three nonce words.
pub open spec fn wadd(a: u32, b: u32) -> u32 { ((a + b) % 0x1_0000_0000) as u32 }
pub open spec fn rotl(a: u32, n: u32) -> u32 { (a << n) | (a >> ((32 - n) as u32)) }
pub open spec fn quarter(a: u32, b: u32, c: u32, d: u32) -> (u32, u32, u32, u32) {
    let a1 = wadd(a, b); let d1 = rotl(d ^ a1, 16); let c1 = wadd(c, d1); let b1 = rotl(b ^ c1, 12);
    let a2 = wadd(a1, b1); let d2 = rotl(d1 ^ a2, 8); let c2 = wadd(c1, d2); let b2 = rotl(b1 ^ c2, 7);
    (a2, b2, c2, d2)
}
pub open spec fn qr(s: Seq<u32>, i: int, j: int, k: int, l: int) -> Seq<u32> {
    let (a, b, c, d) = quarter(s[i], s[j], s[k], s[l]);
    s.update(i, a).update(j, b).update(k, c).update(l, d)
}
pub open spec fn double_round(s: Seq<u32>) -> Seq<u32> {
    qr(qr(qr(qr(qr(qr(qr(qr(s, 0, 4, 8, 12), 1, 5, 9, 13), 2, 6, 10, 14), 3, 7, 11, 15), 0, 5, 10, 15), 1, 6, 11, 12), 2, 7, 8, 13), 3, 4, 9, 14)
}
pub open spec fn rounds(s: Seq<u32>, n: nat) -> Seq<u32> decreases n { if n == 0 { s } else { double_round(rounds(s, (n - 1) as nat)) } }
pub open spec fn sigma() -> Seq<u32> { seq![0x61707865u32, 0x3320646e, 0x79622d32, 0x6b206574] }
pub open spec fn words_le(b: Seq<u8>) -> Seq<u32> { Seq::new(b.len() / 4, |i: int| le_val(b.subrange(4 * i, 4 * i + 4)) as u32) }
pub open spec fn bytes_le(w: Seq<u32>) -> Seq<u8> { Seq::new(4 * w.len(), |i: int| le(w[i / 4] as nat, 4)[i % 4]) }
pub open spec fn cblock(st: Seq<u32>) -> Seq<u8> {
    let s = sigma() + st; let z = rounds(s, 10);
    bytes_le(Seq::new(16, |i: int| wadd(s[i], z[i])))
}
pub open spec fn hchacha_spec(key: Seq<u8>, nonce16: Seq<u8>) -> Seq<u32> {
    let z = rounds(sigma() + words_le(key) + words_le(nonce16), 10);
    z.subrange(0, 4) + z.subrange(12, 16)
}
pub open spec fn cstate(key: Seq<u8>, nonce16: Seq<u8>) -> Seq<u32> { words_le(key) + words_le(nonce16) }
pub open spec fn xstate(key: Seq<u8>, nonce: Seq<u8>) -> Seq<u32> { hchacha_spec(key, nonce.take(16)) + seq![0u32, 0u32] + words_le(nonce.skip(16)) }
pub open spec fn ctr_add(st: Seq<u32>, n: int) -> Seq<u32> { st.update(8, ((st[8] + n) % 0x1_0000_0000) as u32) }
pub open spec fn stream(st: Seq<u32>, len: nat) -> Seq<u8> { Seq::new(len, |i: int| cblock(ctr_add(st, i / 64))[i % 64]) }
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
