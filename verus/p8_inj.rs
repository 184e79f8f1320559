pub proof fn lemma_inj(t: u8, a: Seq<u8>, b: Seq<u8>) requires der::tlv(t, a) == der::tlv(t, b), a.len() < 0x1_0000, b.len() < 0x1_0000 ensures a == b
{ let e = Seq::<u8>::empty(); der::lemma_tlv_hdr(t, a, e); der::lemma_tlv_hdr(t, b, e); }
// the encoding determines the key
pub proof fn lemma_p8_inj(k: pkcs8::Key<'_>, o: pkcs8::Key<'_>, b: Seq<u8>) requires k.encodes(b), o.encodes(b), b.len() < 0x1_0000
    ensures k.alg() == o.alg(), k.par() == o.par(), k.priv_b() == o.priv_b(), k.pub_b() == o.pub_b(), k.priv_b().len() < b.len()
{
    der::lemma_oak_inj(&k.0, &o.0);
    let kk = k.0; let oo = o.0;
    let kp = kk.publicKey.enc(0x81); let op = oo.publicKey.enc(0x81);
    der::lemma_ctx(1); assert(der::ctx_tag(1, false) == 0x81) by { assert((0x80u8 | 0u8) | 1u8 == 0x81) by (bit_vector); }
    let k3 = kk.privateKey.enc(4); let o3 = oo.privateKey.enc(4); let k2 = kk.privateKeyAlgorithm.enc(0x30); let o2 = oo.privateKeyAlgorithm.enc(0x30); let k1 = kk.version.enc(2); let o1 = oo.version.enc(2);
    assert(kk.body() == k1 + (k2 + (k3 + kp))); assert(oo.body() == o1 + (o2 + (o3 + op)));
    lemma_inj(0x30, kk.body(), oo.body());
    assert(kk.privateKeyAlgorithm.body() == oo.privateKeyAlgorithm.body());
    assert(k1 == o1 && k2 == o2 && k3 == o3);
    let pre = k1 + (k2 + k3);
    assert(kk.body() =~= pre + kp); assert(oo.body() =~= pre + op); assert(kp =~= (pre + kp).skip(pre.len() as int)); assert(op =~= (pre + op).skip(pre.len() as int));
    match (kk.publicKey.0, oo.publicKey.0) {
        (Some(x), Some(y)) => { let a = seq![0u8] + x.octets@; let c = seq![0u8] + y.octets@; assert(kp == der::tlv(0x81, a)); assert(op == der::tlv(0x81, c)); lemma_inj(0x81, a, c); assert(a.skip(1) =~= x.octets@); assert(c.skip(1) =~= y.octets@); },
        _ => {},
    }
}
pub fn v_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{ if a.len() != b.len() { return false; } for i in 0..a.len() invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] { if a[i] != b[i] { return false; } } assert(a@ =~= b@); true }
