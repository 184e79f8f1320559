pub struct @NM@ { pub key: Seq<u8> }
impl @NM@ {
    pub open spec fn k(self) -> Aead { Aead::@KIND@(self.key) }
    #[verifier::external_body] pub fn new(key: @KT@) -> (r: Self) requires @REQ@ ensures r.key == key@ { unimplemented!() }
    #[verifier::external_body] pub fn encrypt(&self, nonce: &[u8; 12], aad: &[u8], inout: &mut [u8], tag_out: &mut [u8; 16])
        ensures final(inout)@.len() == old(inout)@.len(), final(inout)@ == seal_ct(self.k(), nonce@, aad@, old(inout)@), final(tag_out)@ == seal_tag(self.k(), nonce@, aad@, old(inout)@) { unimplemented!() }
    #[verifier::external_body] pub fn decrypt(&self, nonce: &[u8; 12], aad: &[u8], inout: &mut [u8], tag: &[u8]) -> (r: Result<(), GErr>)
        ensures final(inout)@.len() == old(inout)@.len(), r.is_ok() ==> opens(self.k(), nonce@, aad@, old(inout)@, tag@, final(inout)@),
            r.is_err() ==> forall|p: Seq<u8>| !opens(self.k(), nonce@, aad@, old(inout)@, tag@, p) { unimplemented!() }
}
