pub mod @M@ { use super::super::*;
    pub struct PrivateKey { pub d: nat }
    pub struct PublicKey { pub b: Seq<u8> }
    pub struct SharedSecret(pub [u8; @S@]);
    #[derive(Debug)] pub struct Error;
    pub uninterp spec fn point_ok(b: Seq<u8>) -> bool;
    pub uninterp spec fn base(d: nat) -> Seq<u8>;
    pub uninterp spec fn dh(d: nat, b: Seq<u8>) -> Seq<u8>;
    // contracts proved in unit @M@
    impl PrivateKey {
        #[verifier::external_body] pub fn new_random() -> (r: Result<PrivateKey, Error>) { unimplemented!() }
        #[verifier::external_body] pub fn public_key_uncompressed(&self) -> (r: [u8; @L@]) ensures r@ == base(self.d) { unimplemented!() }
        #[verifier::external_body] pub fn diffie_hellman(&self, p: &PublicKey) -> (r: Result<SharedSecret, Error>) ensures r.is_ok(), r.unwrap().0@ == dh(self.d, p.b) { unimplemented!() }
    }
    impl PublicKey {
        #[verifier::external_body] pub fn from_x962_uncompressed(b: &[u8]) -> (r: Result<PublicKey, Error>) ensures r.is_ok() == point_ok(b@), r.is_ok() ==> r.unwrap().b == b@ { unimplemented!() }
    }
}
