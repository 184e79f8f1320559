// @OUT@: the encrypter or decrypter of this key and IV
//@fn rustls-graviola/src/aead.rs :: impl Tls13AeadAlgorithm for @SELF@ :: @FN@
//@ ret r
//@ sub sig Box<dyn Message\w+> => Box<@OUT@>
//@ spec
    requires @REQ@ ensures r.0.key == key.b@, r.1 == iv
//@end
