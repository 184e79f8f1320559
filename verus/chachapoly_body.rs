//@item graviola/src/mid/@FILE@.rs :: struct @NM@
impl @NM@ {
    pub open spec fn state(self, nonce: Seq<u8>) -> Seq<u32> { @STATE@ }
//@fn graviola/src/mid/@FILE@.rs :: impl @NM@ :: new
//@ ret r
//@ spec
    ensures r.key@ == key@
//@end
//@fn graviola/src/mid/@FILE@.rs :: impl @NM@ :: encrypt
//@ spec
    ensures final(cipher_inout)@ == aead_ct(self.state(nonce@), old(cipher_inout)@), final(tag_out)@ == aead_tag(self.state(nonce@), aad@, final(cipher_inout)@)
//@end
//@fn graviola/src/mid/@FILE@.rs :: impl @NM@ :: decrypt
//@ ret r
//@ spec
    ensures r.is_ok() == (tag@ == aead_tag(self.state(nonce@), aad@, old(cipher_inout)@)),
        r.is_ok() ==> final(cipher_inout)@ == aead_ct(self.state(nonce@), old(cipher_inout)@),
        // nothing of a rejected message is released
        r.is_err() ==> final(cipher_inout)@ == Seq::new(old(cipher_inout)@.len(), |i: int| 0u8) && r == Err::<(), Error>(Error::DecryptFailed),
//@ begin
    let ghost n0 = cipher_inout@.len();
//@ after cipher_inout\.fill
    proof { assert(cipher_inout@ =~= Seq::new(n0, |i: int| 0u8)); }
//@end
//@fn graviola/src/mid/@FILE@.rs :: impl @NM@ :: cipher
//@ spec
    ensures final(cipher_inout)@ == aead_ct(self.state(nonce@), old(cipher_inout)@),
        final(tag_out)@ == aead_tag(self.state(nonce@), aad@, if encrypt { final(cipher_inout)@ } else { old(cipher_inout)@ }),
//@ sub fn pad\(poly: &mut Poly1305, len: usize\) \{ => fn pad(poly: &mut Poly1305, len: usize)
    requires old(poly).wf() ensures final(poly).wf(), forall|k: Seq<u8>, m: Seq<u8>| #[trigger] old(poly).models(k, m) ==> final(poly).models(k, m + zeros((16 - len % 16) % 16))
{
    let ghost p0 = *poly;
    proof { assert(len & 0xf == len % 16) by (bit_vector); 
        if len % 16 == 0 { assert forall|k: Seq<u8>, m: Seq<u8>| #[trigger] p0.models(k, m) implies p0.models(k, m + zeros(0)) by { assert(m + zeros(0) =~= m); } }
    }
//@ after let pad_buf
    proof { if len % 16 != 0 { assert(pad_buf@.subrange(0, 16 - len % 16) =~= zeros(16 - len % 16)); } }
//@ begin
    hide(poly1305); hide(cblock); hide(le); hide(cstate); hide(xstate);
    let ghost st = self.state(nonce@); let ghost old_c = cipher_inout@;
//@ after let mut poly = 
    let ghost k = polykey@;
    proof { @NONCE@ assert(k =~= stream(st, 32)) by { assert forall|i: int| 0 <= i < 32 implies k[i] == stream(st, 32)[i] by { lemma_xor0(stream(st, 32)[i]); } } }
    assert(poly.models(k, Seq::empty()));
    proof { assert(Seq::<u8>::empty() + aad@ =~= aad@); }
//@ before #2 pad\(
    let ghost ct = if encrypt { cipher_inout@ } else { old_c };
    proof { assert(cipher_inout@ =~= aead_ct(st, old_c)); }
    assert(poly.models(k, aad@ + zeros((16 - aad@.len() % 16) % 16) + ct));
//@ after #2 pad\(
    assert(poly.models(k, pad16(aad@) + ct + zeros((16 - ct.len() % 16) % 16)));
    proof { assert(pad16(aad@) + ct + zeros((16 - ct.len() % 16) % 16) =~= pad16(aad@) + pad16(ct)); }
//@end
//@fn graviola/src/mid/@FILE@.rs :: impl Drop for @NM@ :: drop
//@ spec
    ensures forall|i: int| 0 <= i < 32 ==> final(self).key@[i] == 0
//@end
}
