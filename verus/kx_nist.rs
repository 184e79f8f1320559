//@item rustls-graviola/src/kx.rs :: struct @C@
//@item rustls-graviola/src/kx.rs :: struct Active@C@
impl ActiveKeyExchange for Active@C@ {
    open spec fn wf(self) -> bool { self.pub_key_bytes@ == @M@::base(self.priv_key.d) }
    open spec fn share(self) -> Seq<u8> { @M@::base(self.priv_key.d) }
    open spec fn derive(self, peer: Seq<u8>) -> Option<Seq<u8>> { if @M@::point_ok(peer) { Some(@M@::dh(self.priv_key.d, peer)) } else { None } }
    open spec fn gname(self) -> NamedGroup { NamedGroup::@N@ }
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for Active@C@ :: complete
//@ vis none
//@ sub sig self: Box<Self> => self
//@ sub sig crypto::SharedSecret => SharedSecret
//@ sub sig rustls::Error => Error
//@ sub rustls::Error::from\(rustls::PeerMisbehaved::InvalidKeyShare\) => v_peer_err(PeerMisbehaved::InvalidKeyShare)
//@ sub crypto::SharedSecret::from\(&shared_secret\.0\[\.\.\]\) => SharedSecret::from_slice(&shared_secret.0[..])
//@end
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for Active@C@ :: pub_key
//@ vis none
//@end
//@fn rustls-graviola/src/kx.rs :: impl crypto::ActiveKeyExchange for Active@C@ :: group
//@ vis none
//@ sub sig rustls::NamedGroup => NamedGroup
//@ sub @C@\.name\(\) => v_name_@M@()
//@end
}
impl @C@ {
//@fn rustls-graviola/src/kx.rs :: impl SupportedKxGroup for @C@ :: start
//@ ret r
//@ sub sig Box<dyn crypto::ActiveKeyExchange> => Active@C@
//@ sub sig rustls::Error => Error
//@ sub rustls::Error::from\(crypto::GetRandomFailed\) => v_rng_err()
//@ sub Box::new\(Active@C@ \{(.*?)\}\) => Active@C@ {\1}
//@ spec
    ensures r.is_ok() ==> r.unwrap().wf()
//@end
//@fn rustls-graviola/src/kx.rs :: impl SupportedKxGroup for @C@ :: name
//@ ret r
//@ sub sig rustls::NamedGroup => NamedGroup
//@ sub rustls::NamedGroup => NamedGroup
//@ spec
    ensures r == NamedGroup::@N@
//@end
}
pub fn v_name_@M@() -> (r: NamedGroup) ensures r == NamedGroup::@N@ { @C@.name() }
