//@item rustls-graviola/src/sign.rs :: struct Ecdsa@C@
impl Ecdsa@C@ {
    pub open spec fn pubk(self) -> Pub { self.0.pubk() }
//@fn rustls-graviola/src/sign.rs :: impl sign::SigningKey for Ecdsa@C@ :: choose_scheme
//@ ret r
//@ sub sig Option<Box<dyn sign::Signer \+ 'static>> => Option<Self>
//@ sub Some\(Box::new\(Self\(self\.0\.clone\(\)\)\)\) => Some(Self(self.0.clone()))
//@ sub schemes\.contains\( => v_contains(schemes, 
//@ spec
    ensures r.is_some() == schemes@.contains(SignatureScheme::@S@), r.is_some() ==> r.unwrap().pubk() == self.pubk()
//@end
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for Ecdsa@C@ :: sign
//@ ret r
//@ sub sig rustls::Error => TErr
//@ sub \.sign_asn1::<([\w:]*)>\(&\[message\], => .sign_asn1_1::<\1>(message,
//@ sub \|err\| rustls::Error::General\(format!\(.*?\)\) => |_e: GErr| v_general()
//@ sub sig\.to_vec\(\) => v_to_vec(sig)
//@ spec
    ensures r.is_ok() ==> sig_ok(self.pubk(), alg_of(SignatureScheme::@S@), message@, r.unwrap()@)
//@end
//@fn rustls-graviola/src/sign.rs :: impl sign::Signer for Ecdsa@C@ :: scheme
//@ ret r
//@ spec
    ensures r == SignatureScheme::@S@
//@end
}
