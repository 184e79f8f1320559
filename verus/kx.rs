// C25: TLS key exchange groups. `dyn SupportedKxGroup` / `dyn ActiveKeyExchange` become type parameters with the traits' contracts:
// the hybrid group is verified against any classical and post-quantum component satisfying them, and each component is verified to.
use vstd::prelude::*;
//@use std.rs
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum PeerMisbehaved { InvalidKeyShare, Other }
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum Error { PeerMisbehaved(PeerMisbehaved), FailedToGetRandomBytes, GetRandomFailed, Other }
pub struct GetRandomFailed;
pub struct FfdheGroup;
#[allow(non_camel_case_types)]
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum NamedGroup { X25519, secp256r1, secp384r1, MLKEM768, X25519MLKEM768, secp256r1MLKEM768, Other }
// Error::from(..) of rustls
#[verifier::external_body] pub fn v_rng_err() -> (r: Error) { unimplemented!() }
#[verifier::external_body] pub fn v_peer_err(e: PeerMisbehaved) -> (r: Error) ensures r == Error::PeerMisbehaved(e) { unimplemented!() }
// rustls::crypto::SharedSecret: the bytes it was made from
pub struct SharedSecret { pub buf: Vec<u8> }
impl SharedSecret {
    pub fn from_slice(b: &[u8]) -> (r: SharedSecret) ensures r.buf@ == b@ { SharedSecret { buf: b.v_to_vec() } }
    pub fn from_vec(b: Vec<u8>) -> (r: SharedSecret) ensures r.buf@ == b@ { SharedSecret { buf: b } }
    pub fn secret_bytes(&self) -> (r: &[u8]) ensures r@ == self.buf@ { self.buf.as_slice() }
}
pub struct CompletedKeyExchange { pub group: NamedGroup, pub pub_key: Vec<u8>, pub secret: SharedSecret }
pub trait VToVec { spec fn vb(&self) -> Seq<u8>; fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.vb(); }
impl VToVec for [u8] { open spec fn vb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() } }
#[verifier::external_body] pub fn v_concat(a: &[u8], b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }

// one side's state: what it sends, and what it derives from the other side's share (None: the share is not valid)
pub trait ActiveKeyExchange: Sized {
    spec fn wf(self) -> bool;
    spec fn share(self) -> Seq<u8>;
    spec fn derive(self, peer: Seq<u8>) -> Option<Seq<u8>>;
    spec fn gname(self) -> NamedGroup;
    fn complete(self, peer: &[u8]) -> (r: Result<SharedSecret, Error>) requires self.wf()
        ensures r.is_ok() == self.derive(peer@).is_some(), r.is_ok() ==> r.unwrap().buf@ == self.derive(peer@).unwrap();
    fn pub_key(&self) -> (r: &[u8]) requires self.wf() ensures r@ == self.share();
    fn group(&self) -> (r: NamedGroup) ensures r == self.gname();
}
pub trait SupportedKxGroup: Sized {
    type A: ActiveKeyExchange;
    spec fn gname(&self) -> NamedGroup;
    // the standard's relation between the initiator's share, the responder's share and the secret
    spec fn valid_client(&self, share: Seq<u8>) -> bool;
    spec fn agreed(&self, client: Seq<u8>, server: Seq<u8>, secret: Seq<u8>) -> bool;
    fn start(&self) -> (r: Result<Self::A, Error>) ensures r.is_ok() ==> r.unwrap().wf() && r.unwrap().gname() == self.gname();
    fn start_and_complete(&self, client_share: &[u8]) -> (r: Result<CompletedKeyExchange, Error>)
        ensures !self.valid_client(client_share@) ==> r.is_err(),
            r.is_ok() ==> self.agreed(client_share@, r.unwrap().pub_key@, r.unwrap().secret.buf@) && r.unwrap().group == self.gname();
    fn name(&self) -> (r: NamedGroup) ensures r == self.gname();
}
} // verus!
pub mod key_agreement { use super::*; verus! {
//@use kx_ec.rs M=p256 L=65 S=32
//@use kx_ec.rs M=p384 L=97 S=48
pub mod x25519 { use super::super::*;
    pub struct PrivateKey { pub k: Seq<u8> }
    pub struct PublicKey { pub u: Seq<u8> }
    pub struct SharedSecret(pub [u8; 32]);
    #[derive(Debug)] pub struct Error;
    pub uninterp spec fn x25519(k: Seq<u8>, u: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn base(k: Seq<u8>) -> Seq<u8>;
    pub open spec fn zero32() -> Seq<u8> { Seq::new(32, |i: int| 0u8) }
    pub open spec fn dh(k: Seq<u8>, peer: Seq<u8>) -> Option<Seq<u8>> { if peer.len() == 32 && x25519(k, peer) != zero32() { Some(x25519(k, peer)) } else { None } }
    // contracts proved in unit x25519
    impl PrivateKey {
        #[verifier::external_body] pub fn new_random() -> (r: Result<PrivateKey, Error>) { unimplemented!() }
        #[verifier::external_body] pub fn public_key(&self) -> (r: PublicKey) ensures r.u == base(self.k) { unimplemented!() }
        #[verifier::external_body] pub fn diffie_hellman(&self, p: &PublicKey) -> (r: Result<SharedSecret, Error>) ensures r.is_ok() == (x25519(self.k, p.u) != zero32()), r.is_ok() ==> r.unwrap().0@ == x25519(self.k, p.u) { unimplemented!() }
    }
    impl PublicKey {
        #[verifier::external_body] pub fn try_from_slice(b: &[u8]) -> (r: Result<PublicKey, Error>) ensures r.is_ok() == (b@.len() == 32), r.is_ok() ==> r.unwrap().u == b@ { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.u { unimplemented!() }
    }
    // try_from_slice(..).and_then(|their_pub| key.diffie_hellman(&their_pub))
    pub fn v_and_dh(p: Result<PublicKey, Error>, k: &PrivateKey) -> (r: Result<SharedSecret, Error>)
        ensures r.is_ok() == (p.is_ok() && x25519(k.k, p.unwrap().u) != zero32()), r.is_ok() ==> r.unwrap().0@ == x25519(k.k, p.unwrap().u)
    { match p { Ok(u) => k.diffie_hellman(&u), Err(e) => Err(e) } }
}
pub mod mlkem768 { use super::super::*;
    pub struct DecapKey { pub d: Seq<u8> }
    pub struct EncapKey { pub e: Seq<u8> }
    pub struct Ciphertext { pub c: [u8; 1088] }
    pub struct SharedSecret(pub [u8; 32]);
    #[derive(Debug)] pub struct Error;
    pub uninterp spec fn ek_of(d: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn ek_ok(e: Seq<u8>) -> bool;
    pub uninterp spec fn decaps(d: Seq<u8>, c: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn encapsulates(e: Seq<u8>, c: Seq<u8>, k: Seq<u8>) -> bool;
    // contracts proved in unit mlkem768
    impl DecapKey {
        #[verifier::external_body] pub fn generate() -> (r: Result<DecapKey, Error>) { unimplemented!() }
        #[verifier::external_body] pub fn encapsulation_key(&self) -> (r: EncapKey) ensures r.e == ek_of(self.d) { unimplemented!() }
        #[verifier::external_body] pub fn decaps(&self, c: &Ciphertext) -> (r: SharedSecret) ensures r.0@ == decaps(self.d, c.c@) { unimplemented!() }
    }
    impl EncapKey {
        #[verifier::external_body] pub fn from_bytes(b: &[u8; 1184]) -> (r: Result<EncapKey, Error>) ensures r.is_ok() == ek_ok(b@), r.is_ok() ==> r.unwrap().e == b@ { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: [u8; 1184]) ensures r@ == self.e { unimplemented!() }
        #[verifier::external_body] pub fn encaps(&self) -> (r: Result<(SharedSecret, Ciphertext), Error>) ensures r.is_ok() ==> encapsulates(self.e, r.unwrap().1.c@, r.unwrap().0.0@) { unimplemented!() }
    }
    impl Ciphertext { pub fn from(c: [u8; 1088]) -> (r: Ciphertext) ensures r.c@ == c@ { Ciphertext { c } }
        pub fn as_ref(&self) -> (r: &[u8; 1088]) ensures r@ == self.c@ { &self.c } }
    impl SharedSecret { pub fn as_ref(&self) -> (r: &[u8; 32]) ensures r@ == self.0@ { &self.0 } }
}
} }
pub mod groups { use super::*; use super::key_agreement::{p256, p384, x25519, mlkem768}; verus! {
//@item rustls-graviola/src/kx.rs :: struct X25519
//@item rustls-graviola/src/kx.rs :: struct ActiveX25519
impl ActiveKeyExchange for ActiveX25519 {
    open spec fn wf(self) -> bool { self.pub_key_bytes@ == x25519::base(self.priv_key.k) }
    open spec fn share(self) -> Seq<u8> { x25519::base(self.priv_key.k) }
    open spec fn derive(self, peer: Seq<u8>) -> Option<Seq<u8>> { x25519::dh(self.priv_key.k, peer) }
    open spec fn gname(self) -> NamedGroup { NamedGroup::X25519 }
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for ActiveX25519 :: complete
//@ vis none
//@ sub sig self: Box<Self> => self
//@ sub sig crypto::SharedSecret => SharedSecret
//@ sub sig rustls::Error => Error
//@ sub x25519::PublicKey::try_from_slice\(peer\)\s*\.and_then\(\|their_pub\| self\.priv_key\.diffie_hellman\(&their_pub\)\) => x25519::v_and_dh(x25519::PublicKey::try_from_slice(peer), &self.priv_key)
//@ sub rustls::Error::from\(rustls::PeerMisbehaved::InvalidKeyShare\) => v_peer_err(PeerMisbehaved::InvalidKeyShare)
//@ sub crypto::SharedSecret::from\(&shared_secret\.0\[\.\.\]\) => SharedSecret::from_slice(&shared_secret.0[..])
//@end
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for ActiveX25519 :: pub_key
//@ vis none
//@end
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for ActiveX25519 :: group
//@ vis none
//@ sub sig rustls::NamedGroup => NamedGroup
//@ sub X25519\.name\(\) => v_name_x25519()
//@end
}
// SupportedKxGroup for X25519 (start, name); start_and_complete is rustls's default
impl X25519 {
//@fn rustls-graviola/src/kx.rs :: impl SupportedKxGroup for X25519 :: start
//@ ret r
//@ sub sig Box<dyn crypto::ActiveKeyExchange> => ActiveX25519
//@ sub sig rustls::Error => Error
//@ sub rustls::Error::from\(crypto::GetRandomFailed\) => v_rng_err()
//@ sub Box::new\(ActiveX25519 \{(.*?)\}\) => ActiveX25519 {\1}
//@ spec
    ensures r.is_ok() ==> r.unwrap().wf()
//@end
//@fn rustls-graviola/src/kx.rs :: impl SupportedKxGroup for X25519 :: name
//@ ret r
//@ sub sig rustls::NamedGroup => NamedGroup
//@ sub rustls::NamedGroup => NamedGroup
//@ spec
    ensures r == NamedGroup::X25519
//@end
}
pub fn v_name_x25519() -> (r: NamedGroup) ensures r == NamedGroup::X25519 { X25519.name() }
//@use kx_nist.rs C=P256 M=p256 N=secp256r1 L=65
//@use kx_nist.rs C=P384 M=p384 N=secp384r1 L=97
} }
pub mod mlkem { use super::*; use super::key_agreement::mlkem768; verus! {
pub const INVALID_KEY_SHARE: Error = Error::PeerMisbehaved(PeerMisbehaved::InvalidKeyShare);
#[verifier::external_body] pub fn v_arr_ref1184(s: &[u8]) -> (r: Result<&[u8; 1184], ()>) ensures r.is_ok() == (s@.len() == 1184), r.is_ok() ==> r.unwrap()@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn v_arr1088(s: &[u8]) -> (r: Result<[u8; 1088], ()>) ensures r.is_ok() == (s@.len() == 1088), r.is_ok() ==> r.unwrap()@ == s@ { unimplemented!() }
//@item rustls-graviola/src/kx/mlkem.rs :: struct MlKem768
//@item rustls-graviola/src/kx/mlkem.rs :: struct Active
impl ActiveKeyExchange for Active {
    open spec fn wf(self) -> bool { self.encaps_key_bytes@ == mlkem768::ek_of(self.decaps_key.d) }
    open spec fn share(self) -> Seq<u8> { mlkem768::ek_of(self.decaps_key.d) }
    open spec fn derive(self, peer: Seq<u8>) -> Option<Seq<u8>> { if peer.len() == 1088 { Some(mlkem768::decaps(self.decaps_key.d, peer)) } else { None } }
    open spec fn gname(self) -> NamedGroup { NamedGroup::MLKEM768 }
//@fn rustls-graviola/src/kx/mlkem.rs :: impl ActiveKeyExchange for Active :: complete
//@ vis none
//@ sub sig self: Box<Self> => self
//@ sub peer_pub_key\.try_into\(\) => v_arr1088(peer_pub_key)
//@ sub SharedSecret::from\(shared_secret\.as_ref\(\)\.as_slice\(\)\) => SharedSecret::from_slice(shared_secret.as_ref().as_slice())
//@end
//@fn rustls-graviola/src/kx/mlkem.rs :: impl ActiveKeyExchange for Active :: pub_key
//@ vis none
//@end
//@fn rustls-graviola/src/kx/mlkem.rs :: impl ActiveKeyExchange for Active :: group
//@ vis none
//@end
}
impl MlKem768 {
//@const rustls-graviola/src/kx/mlkem.rs :: impl MlKem768 :: ENCAPS_LEN
//@const rustls-graviola/src/kx/mlkem.rs :: impl MlKem768 :: CIPHERTEXT_LEN
}
impl SupportedKxGroup for MlKem768 {
    type A = Active;
    open spec fn gname(&self) -> NamedGroup { NamedGroup::MLKEM768 }
    open spec fn valid_client(&self, share: Seq<u8>) -> bool { share.len() == 1184 && mlkem768::ek_ok(share) }
    open spec fn agreed(&self, client: Seq<u8>, server: Seq<u8>, secret: Seq<u8>) -> bool { mlkem768::encapsulates(client, server, secret) && server.len() == 1088 && secret.len() == 32 }
//@fn rustls-graviola/src/kx/mlkem.rs :: impl SupportedKxGroup for MlKem768 :: start
//@ vis none
//@ sub sig Box<dyn ActiveKeyExchange> => Active
//@ sub Box::new\(Active \{(.*?)\}\) => Active {\1}
//@end
//@fn rustls-graviola/src/kx/mlkem.rs :: impl SupportedKxGroup for MlKem768 :: start_and_complete
//@ vis none
//@ sub client_share\.try_into\(\) => v_arr_ref1184(client_share)
//@ sub Vec::from\(ciphertext\.as_ref\(\)\) => ciphertext.as_ref().as_slice().v_to_vec()
//@ sub SharedSecret::from\(shared_secret\.as_ref\(\)\.as_slice\(\)\) => SharedSecret::from_slice(shared_secret.as_ref().as_slice())
//@end
//@fn rustls-graviola/src/kx/mlkem.rs :: impl SupportedKxGroup for MlKem768 :: name
//@ vis none
//@end
}
} }
pub mod hybrid { use super::*; verus! {
pub const INVALID_KEY_SHARE: Error = Error::PeerMisbehaved(PeerMisbehaved::InvalidKeyShare);
//@item rustls-graviola/src/kx/hybrid.rs :: struct Layout
//@ attr #[derive(Clone, Copy)]
//@end
//@item rustls-graviola/src/kx/hybrid.rs :: struct Hybrid
//@ sub struct Hybrid => struct Hybrid<C, Q>
//@ sub (classical: )&'static dyn SupportedKxGroup => \1C
//@ sub (post_quantum: )&'static dyn SupportedKxGroup => \1Q
//@end
//@item rustls-graviola/src/kx/hybrid.rs :: struct ActiveHybrid
//@ sub struct ActiveHybrid => struct ActiveHybrid<C, Q>
//@ sub (classical: )Box<dyn ActiveKeyExchange> => \1C
//@ sub (post_quantum: )Box<dyn ActiveKeyExchange> => \1Q
//@end
impl Layout {
    pub open spec fn join(self, q: Seq<u8>, c: Seq<u8>) -> Seq<u8> { if self.post_quantum_first { q + c } else { c + q } }
    // (post-quantum part, classical part)
    pub open spec fn parts(self, share: Seq<u8>, ql: int) -> (Seq<u8>, Seq<u8>) { if self.post_quantum_first { (share.take(ql), share.skip(ql)) } else { (share.skip(self.classical_share_len as int), share.take(self.classical_share_len as int)) } }
    pub open spec fn small(self) -> bool { self.classical_share_len <= 0x10_0000 && self.post_quantum_client_share_len <= 0x10_0000 && self.post_quantum_server_share_len <= 0x10_0000 }
    pub proof fn lemma_parts(self, share: Seq<u8>, ql: int) requires share.len() == self.classical_share_len + ql, ql >= 0
        ensures self.join(self.parts(share, ql).0, self.parts(share, ql).1) == share, self.parts(share, ql).0.len() == ql
    { let p = self.parts(share, ql); assert(self.join(p.0, p.1) =~= share); }
//@fn rustls-graviola/src/kx/hybrid.rs :: impl Layout :: split
//@ ret r
//@ spec
    requires self.small(), post_quantum_share_len <= 0x10_0000
    ensures r.is_some() == (share@.len() == self.classical_share_len + post_quantum_share_len),
        r.is_some() ==> (r.unwrap().0@, r.unwrap().1@) == self.parts(share@, post_quantum_share_len as int)
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl Layout :: split_received_client_share
//@ ret r
//@ spec
    requires self.small()
    ensures r.is_some() == (share@.len() == self.classical_share_len + self.post_quantum_client_share_len),
        r.is_some() ==> (r.unwrap().0@, r.unwrap().1@) == self.parts(share@, self.post_quantum_client_share_len as int)
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl Layout :: split_received_server_share
//@ ret r
//@ spec
    requires self.small()
    ensures r.is_some() == (share@.len() == self.classical_share_len + self.post_quantum_server_share_len),
        r.is_some() ==> (r.unwrap().0@, r.unwrap().1@) == self.parts(share@, self.post_quantum_server_share_len as int)
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl Layout :: concat
//@ ret r
//@ sub \[(\w+), (\w+)\]\.concat\(\) => v_concat(\1, \2)
//@ spec
    ensures r@ == self.join(post_quantum@, classical@)
//@end
}
impl<C: ActiveKeyExchange, Q: ActiveKeyExchange> ActiveKeyExchange for ActiveHybrid<C, Q> {
    open spec fn wf(self) -> bool { self.layout.small() && self.classical.wf() && self.post_quantum.wf() && self.combined_pub_key@ == self.layout.join(self.post_quantum.share(), self.classical.share()) }
    open spec fn share(self) -> Seq<u8> { self.layout.join(self.post_quantum.share(), self.classical.share()) }
    open spec fn derive(self, peer: Seq<u8>) -> Option<Seq<u8>> {
        let ql = self.layout.post_quantum_server_share_len as int; let p = self.layout.parts(peer, ql);
        if peer.len() == self.layout.classical_share_len + ql && self.post_quantum.derive(p.0).is_some() && self.classical.derive(p.1).is_some()
            { Some(self.layout.join(self.post_quantum.derive(p.0).unwrap(), self.classical.derive(p.1).unwrap())) } else { None }
    }
    open spec fn gname(self) -> NamedGroup { self.name }
//@fn rustls-graviola/src/kx/hybrid.rs :: impl ActiveKeyExchange for ActiveHybrid :: complete
//@ vis none
//@ sub sig self: Box<Self> => self
//@ sub SharedSecret::from\(secret\) => SharedSecret::from_vec(secret)
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl ActiveKeyExchange for ActiveHybrid :: pub_key
//@ vis none
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl ActiveKeyExchange for ActiveHybrid :: group
//@ vis none
//@end
}
impl<C: ActiveKeyExchange, Q: ActiveKeyExchange> ActiveHybrid<C, Q> {
//@fn rustls-graviola/src/kx/hybrid.rs :: impl ActiveKeyExchange for ActiveHybrid :: complete_hybrid_component
//@ ret r
//@ sub sig self: Box<Self> => self
//@ spec
    requires self.wf()
    ensures r.is_ok() == self.classical.derive(peer_pub_key@).is_some(), r.is_ok() ==> r.unwrap().buf@ == self.classical.derive(peer_pub_key@).unwrap()
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl ActiveKeyExchange for ActiveHybrid :: hybrid_component
//@ ret r
//@ spec
    requires self.wf()
    ensures r.is_some() ==> r.unwrap().0 == self.classical.gname() && r.unwrap().1@ == self.classical.share()
//@end
}
impl<C: SupportedKxGroup, Q: SupportedKxGroup> Hybrid<C, Q> {
    pub open spec fn wf(self) -> bool { self.layout.small() }
    pub open spec fn agreed(self, client: Seq<u8>, server: Seq<u8>, secret: Seq<u8>) -> bool {
        let p = self.layout.parts(client, self.layout.post_quantum_client_share_len as int);
        exists|qs: Seq<u8>, cs: Seq<u8>, qk: Seq<u8>, ck: Seq<u8>| #[trigger] self.post_quantum.agreed(p.0, qs, qk) && #[trigger] self.classical.agreed(p.1, cs, ck)
            && server == self.layout.join(qs, cs) && secret == self.layout.join(qk, ck)
    }
//@fn rustls-graviola/src/kx/hybrid.rs :: impl SupportedKxGroup for Hybrid :: start
//@ ret r
//@ sub sig Box<dyn ActiveKeyExchange> => ActiveHybrid<C::A, Q::A>
//@ sub Box::new\(ActiveHybrid \{(.*?)\}\) => ActiveHybrid {\1}
//@ spec
    requires self.wf()
    ensures r.is_ok() ==> r.unwrap().wf() && r.unwrap().gname() == self.name && r.unwrap().layout == self.layout && r.unwrap().classical.gname() == self.classical.gname() && r.unwrap().post_quantum.gname() == self.post_quantum.gname()
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl SupportedKxGroup for Hybrid :: start_and_complete
//@ ret r
//@ sub SharedSecret::from\(secret\) => SharedSecret::from_vec(secret)
//@ sub &pq\.pub_key, &cl\.pub_key => pq.pub_key.as_slice(), cl.pub_key.as_slice()
//@ spec
    requires self.wf()
    ensures client_share@.len() != self.layout.classical_share_len + self.layout.post_quantum_client_share_len ==> r.is_err(),
        !self.post_quantum.valid_client(self.layout.parts(client_share@, self.layout.post_quantum_client_share_len as int).0) ==> r.is_err(),
        !self.classical.valid_client(self.layout.parts(client_share@, self.layout.post_quantum_client_share_len as int).1) ==> r.is_err(),
        r.is_ok() ==> self.agreed(client_share@, r.unwrap().pub_key@, r.unwrap().secret.buf@) && r.unwrap().group == self.name
//@end
//@fn rustls-graviola/src/kx/hybrid.rs :: impl SupportedKxGroup for Hybrid :: name
//@ ret r
//@ spec
    ensures r == self.name
//@end
}
} }
verus! {
use groups::X25519;
//@constfn rustls-graviola/src/kx.rs :: - :: static X25519MLKEM768
//@ sub sig &dyn SupportedKxGroup => hybrid::Hybrid<X25519, mlkem::MlKem768>
//@ sub &hybrid::Hybrid => hybrid::Hybrid
//@ sub &X25519 => X25519
//@ sub &mlkem::MlKem768 => mlkem::MlKem768
//@ sub rustls::NamedGroup => NamedGroup
//@ spec
    ensures r.name == NamedGroup::X25519MLKEM768, r.layout.post_quantum_first, r.layout.small(), r.layout.classical_share_len == 32,
        r.layout.post_quantum_client_share_len == 1184, r.layout.post_quantum_server_share_len == 1088
//@end
}
fn main() {}
