//@item rustls-graviola/src/aead.rs :: const CHACHAPOLY1305_OVERHEAD
//@item rustls-graviola/src/aead.rs :: const AESGCM_TAG
//@item rustls-graviola/src/aead.rs :: const MAX_FRAGMENT_LEN
//@item rustls-graviola/src/aead.rs :: const AESGCM_EXPLICIT_NONCE_LEN
//@item rustls-graviola/src/aead.rs :: const AESGCM_OVERHEAD
//@item rustls-graviola/src/aead.rs :: struct ChaChaTls13Cipher
//@ sub , => , pub 
//@end
//@item rustls-graviola/src/aead.rs :: struct ChaChaTls12Cipher
//@ sub , => , pub 
//@end
//@item rustls-graviola/src/aead.rs :: struct GcmTls13Cipher
//@ sub , => , pub 
//@end
//@item rustls-graviola/src/aead.rs :: struct GcmTls12MessageDecrypter
//@ sub , => , pub 
//@end
//@item rustls-graviola/src/aead.rs :: struct GcmTls12MessageEncrypter
//@ sub , => , pub 
//@end
//@item rustls-graviola/src/aead.rs :: struct Chacha20Poly1305
//@item rustls-graviola/src/aead.rs :: struct TlsAesGcm
// TLS 1.3 inner plaintext without padding
pub open spec fn inner13(m: OutboundPlainMessage) -> Seq<u8> { m.payload.b@ + seq![typ_byte(m.typ)] }
pub open spec fn enc13(k: Aead, iv: Seq<u8>, m: OutboundPlainMessage, seq: u64, r: Result<OutboundOpaqueMessage, Error>) -> bool
    { r.is_ok() && r.unwrap().typ == ContentType::ApplicationData && r.unwrap().version == ProtocolVersion::TLSv1_2 && r.unwrap().payload.b@ == sealed(k, nonce_of(iv, seq), aad13(m.payload.b@.len() + 17), inner13(m)) }
pub open spec fn dec13(k: Aead, iv: Seq<u8>, m: InboundOpaqueMessage, seq: u64, r: Result<InboundPlainMessage, Error>) -> bool {
    let c = m.payload.b@; let (n, a) = (nonce_of(iv, seq), aad13(c.len()));
    (exists|p: Seq<u8>| #[trigger] opens_c(k, n, a, c, p) && r == unpadded(p)) || ((forall|p: Seq<u8>| !opens_c(k, n, a, c, p)) && r == Err::<InboundPlainMessage, Error>(Error::DecryptError)) }
// an opened TLS 1.2 fragment c (ciphertext and tag) of the message
pub open spec fn dec12(k: Aead, n: Seq<u8>, m: InboundOpaqueMessage, c: Seq<u8>, seq: u64, r: Result<InboundPlainMessage, Error>) -> bool {
    let a = aad12(seq, m.typ, m.version, (c.len() - 16) as nat);
    (exists|p: Seq<u8>| #[trigger] opens_c(k, n, a, c, p) && if p.len() > 16384 { r == Err::<InboundPlainMessage, Error>(Error::PeerSentOversizedRecord) } else { r.is_ok() && r.unwrap().typ == m.typ && r.unwrap().version == m.version && r.unwrap().payload@ == p })
    || ((forall|p: Seq<u8>| !opens_c(k, n, a, c, p)) && r == Err::<InboundPlainMessage, Error>(Error::DecryptError)) }
//@use tls_aead_13.rs TY=ChaChaTls13Cipher M=m AM=payload\.as_mut\(\) AV=payload
//@use tls_aead_13.rs TY=GcmTls13Cipher M=msg AM=cipher AV=cipher
// TLS 1.2: RFC 7905 (ChaCha20-Poly1305), RFC 5288 (AES-GCM with an explicit nonce)
impl ChaChaTls12Cipher {
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for ChaChaTls12Cipher :: encrypted_payload_len
//@ ret r
//@ spec
    requires payload_len <= 0x7fff_ffff ensures r == payload_len + 16
//@end
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for ChaChaTls12Cipher :: encrypt
//@ ret r
//@ sub sig OutboundPlainMessage<'_> => OutboundPlainMessage
//@ sub payload\.as_mut\(\) => payload.v_tail_mut(0)
//@ spec
    requires m.payload.b@.len() <= 0x7fff_ffff
    ensures *final(self) == *old(self), r.is_ok() && r.unwrap().typ == m.typ && r.unwrap().version == m.version
        && r.unwrap().payload.b@ == sealed(old(self).0.k(), nonce_of(old(self).1.0@, seq), aad12(seq, m.typ, m.version, m.payload.b@.len()), m.payload.b@)
//@ before self\.0
    proof { assert(payload.b@ =~= m.payload.b@); assert(payload.b@.skip(0) =~= m.payload.b@); }
//@ tail
    proof { assert(payload.b@ =~= sealed(self.0.k(), nonce_of(self.1.0@, seq), aad12(seq, m.typ, m.version, m.payload.b@.len()), m.payload.b@)); }
//@end
//@fn rustls-graviola/src/aead.rs :: impl MessageDecrypter for ChaChaTls12Cipher :: decrypt
//@ ret r
//@ sub sig decrypt<'a> => decrypt
//@ sub sig <'a> => 
//@ sub \|_e\| (rustls::Error::\w+) => |_e: GErr| -> (x: Error) ensures x == \1 { \1 }
//@ sub m\.payload\.split_at_mut => m.payload.v_split
//@ spec
    ensures *final(self) == *old(self), if m.payload.b@.len() < 16 { r == Err::<InboundPlainMessage, Error>(Error::DecryptError) } else { dec12(old(self).0.k(), nonce_of(old(self).1.0@, seq), m, m.payload.b@, seq, r) }
//@ begin
    let ghost c = m.payload.b@; let ghost k = self.0.k(); let ghost n = nonce_of(self.1.0@, seq); let ghost a = aad12(seq, m.typ, m.version, (c.len() - 16) as nat);
//@ before self\.0
    let ghost (x, t) = (payload@, tag@);
    proof { assert(x == c.take(c.len() - 16)); assert(t == c.skip(c.len() - 16)); assert(aad@ == a); assert(nonce.0@ == n); assert(forall|p: Seq<u8>| opens_c(k, n, a, c, p) ==> opens(k, n, a, x, t, p)); }
//@ after self\.0
    let ghost p = payload@;
    proof { assert(opens_c(k, n, a, c, p)); }
//@ tail
    proof { assert(m.payload.b@ =~= p); }
//@end
}
impl GcmTls12MessageEncrypter {
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for GcmTls12MessageEncrypter :: encrypted_payload_len
//@ ret r
//@ spec
    requires payload_len <= 0x7fff_ffff ensures r == payload_len + 24
//@end
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for GcmTls12MessageEncrypter :: encrypt
//@ ret r
//@ sub sig OutboundPlainMessage<'_> => OutboundPlainMessage
//@ sub &mut payload\.as_mut\(\)\[AESGCM_EXPLICIT_NONCE_LEN\.\.\] => payload.v_tail_mut(AESGCM_EXPLICIT_NONCE_LEN)
//@ spec
    requires msg.payload.b@.len() <= 0x7fff_ffff
    // the explicit nonce is in the clear before the ciphertext
    ensures *final(self) == *old(self), r.is_ok() && r.unwrap().typ == msg.typ && r.unwrap().version == msg.version
        && r.unwrap().payload.b@ == nonce_of(old(self).1.0@, seq).skip(4) + sealed(old(self).0.k(), nonce_of(old(self).1.0@, seq), aad12(seq, msg.typ, msg.version, msg.payload.b@.len()), msg.payload.b@)
//@ before self\.0
    let ghost x = nonce_of(self.1.0@, seq).skip(4);
    proof { assert(nonce.0@.subrange(4, 12) =~= x); assert(payload.b@ =~= x + msg.payload.b@); assert(payload.b@.skip(8) =~= msg.payload.b@); assert(payload.b@.take(8) =~= x); }
//@ tail
    proof { assert(payload.b@ =~= x + sealed(self.0.k(), nonce_of(self.1.0@, seq), aad12(seq, msg.typ, msg.version, msg.payload.b@.len()), msg.payload.b@)); }
//@end
}
impl GcmTls12MessageDecrypter {
//@fn rustls-graviola/src/aead.rs :: impl MessageDecrypter for GcmTls12MessageDecrypter :: decrypt
//@ ret r
//@ sub sig decrypt<'a> => decrypt
//@ sub sig <'a> => 
//@ sub \|_e\| (rustls::Error::\w+) => |_e: GErr| -> (x: Error) ensures x == \1 { \1 }
//@ sub payload\.split_at_mut => payload.v_split
//@ sub cipher\.split_at_mut\(cipher\.len\(\) - AESGCM_TAG\) => v_split_at_mut(cipher, vn)
//@ sub &payload\[\.\.8\] => payload.v_take(8)
//@ sub into_plain_message_range\(\s*AESGCM_EXPLICIT_NONCE_LEN\.\.AESGCM_EXPLICIT_NONCE_LEN \+ plain_len,?\s*\) => v_plain_range(AESGCM_EXPLICIT_NONCE_LEN, AESGCM_EXPLICIT_NONCE_LEN + plain_len)
//@ spec
    // the nonce is the salt and the explicit nonce of the record
    ensures *final(self) == *old(self), if msg.payload.b@.len() < 24 { r == Err::<InboundPlainMessage, Error>(Error::DecryptError) } else { dec12(old(self).0.k(), old(self).1@ + msg.payload.b@.take(8), msg, msg.payload.b@.skip(8), seq, r) }
//@ begin
    let ghost z = msg.payload.b@; let ghost c = z.skip(8); let ghost k = self.0.k(); let ghost n = self.1@ + z.take(8); let ghost a = aad12(seq, msg.typ, msg.version, (c.len() - 16) as nat);
//@ before let \(cipher, tag\)
    let vn = cipher.len() - AESGCM_TAG;
//@ before self\.0
    let ghost (x, t) = (cipher@, tag@);
    proof { assert(x =~= c.take(c.len() - 16)); assert(t =~= c.skip(c.len() - 16)); assert(aad@ == a); assert(nonce@ =~= n); assert(forall|p: Seq<u8>| opens_c(k, n, a, c, p) ==> opens(k, n, a, x, t, p)); }
//@ after self\.0
    let ghost p = cipher@;
    proof { assert(opens_c(k, n, a, c, p)); }
//@ tail
    proof { assert(msg.payload.b@.subrange(8, 8 + plain_len) =~= p); }
//@end
}
//@fn rustls-graviola/src/aead.rs :: - :: gcm_iv
//@ ret r
//@ spec
    requires write_iv@.len() == 4, explicit@.len() == 8 ensures r.0@ == write_iv@ + explicit@
//@ tail
    proof { assert(iv@ =~= write_iv@ + explicit@); }
//@end
impl Chacha20Poly1305 {
//@use tls_aead_new.rs SELF=Chacha20Poly1305 FN=encrypter OUT=ChaChaTls13Cipher REQ=key.b@.len()==32
//@use tls_aead_new.rs SELF=Chacha20Poly1305 FN=decrypter OUT=ChaChaTls13Cipher REQ=key.b@.len()==32
//@fn rustls-graviola/src/aead.rs :: impl Tls13AeadAlgorithm for Chacha20Poly1305 :: key_len
//@ ret r
//@ spec
    ensures r == 32
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls13AeadAlgorithm for Chacha20Poly1305 :: extract_keys
//@ ret r
//@ spec
    ensures r.is_ok(), r.unwrap() == (ConnectionTrafficSecrets::Chacha20Poly1305 { key, iv })
//@end
}
impl TlsAesGcm {
//@use tls_aead_new.rs SELF=TlsAesGcm FN=encrypter OUT=GcmTls13Cipher REQ=key.b@.len()==16||key.b@.len()==32
//@use tls_aead_new.rs SELF=TlsAesGcm FN=decrypter OUT=GcmTls13Cipher REQ=key.b@.len()==16||key.b@.len()==32
//@fn rustls-graviola/src/aead.rs :: impl Tls13AeadAlgorithm for TlsAesGcm :: key_len
//@ ret r
//@ spec
    ensures r == self.0
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls13AeadAlgorithm for TlsAesGcm :: extract_keys
//@ ret r
//@ spec
    requires self.0 == 16 || self.0 == 32
    ensures r.is_ok(), r.unwrap() == (if self.0 == 16 { ConnectionTrafficSecrets::Aes128Gcm { key, iv } } else { ConnectionTrafficSecrets::Aes256Gcm { key, iv } })
//@end
}
// the TLS 1.2 side of the same two types (one trait implementation each, here on separate types because the method names coincide)
pub struct Chacha20Poly1305As12;
impl Chacha20Poly1305As12 {
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for Chacha20Poly1305 :: encrypter
//@ ret r
//@ sub sig Box<dyn MessageEncrypter> => Box<ChaChaTls12Cipher>
//@ spec
    requires key.b@.len() == 32, iv@.len() == 12 ensures r.0.key == key.b@, r.1.0@ == iv@
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for Chacha20Poly1305 :: decrypter
//@ ret r
//@ sub sig Box<dyn MessageDecrypter> => Box<ChaChaTls12Cipher>
//@ spec
    requires key.b@.len() == 32, iv@.len() == 12 ensures r.0.key == key.b@, r.1.0@ == iv@
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for Chacha20Poly1305 :: key_block_shape
//@ ret r
//@ spec
    ensures r == (KeyBlockShape { enc_key_len: 32, fixed_iv_len: 12, explicit_nonce_len: 0 })
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for Chacha20Poly1305 :: extract_keys
//@ ret r
//@ spec
    requires iv@.len() == 12
    ensures r.is_ok(), r.unwrap() matches ConnectionTrafficSecrets::Chacha20Poly1305 { key: k, iv: i } && k == key && i.0@ == iv@
//@end
}
pub struct TlsAesGcmAs12(pub usize);
impl TlsAesGcmAs12 {
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for TlsAesGcm :: encrypter
//@ ret r
//@ sub sig Box<dyn MessageEncrypter> => Box<GcmTls12MessageEncrypter>
//@ spec
    requires key.b@.len() == 16 || key.b@.len() == 32, write_iv@.len() == 4, explicit@.len() == 8 ensures r.0.key == key.b@, r.1.0@ == write_iv@ + explicit@
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for TlsAesGcm :: decrypter
//@ ret r
//@ sub sig Box<dyn MessageDecrypter> => Box<GcmTls12MessageDecrypter>
//@ spec
    requires key.b@.len() == 16 || key.b@.len() == 32, iv@.len() == 4 ensures r.0.key == key.b@, r.1@ == iv@
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for TlsAesGcm :: key_block_shape
//@ ret r
//@ spec
    ensures r == (KeyBlockShape { enc_key_len: self.0, fixed_iv_len: 4, explicit_nonce_len: 8 })
//@end
//@fn rustls-graviola/src/aead.rs :: impl Tls12AeadAlgorithm for TlsAesGcm :: extract_keys
//@ ret r
//@ spec
    requires self.0 == 16 || self.0 == 32, iv@.len() == 4, explicit@.len() == 8
    ensures r.is_ok(), self.0 == 16 ==> (r.unwrap() matches ConnectionTrafficSecrets::Aes128Gcm { key: k, iv: i } && k == key && i.0@ == iv@ + explicit@),
        self.0 == 32 ==> (r.unwrap() matches ConnectionTrafficSecrets::Aes256Gcm { key: k, iv: i } && k == key && i.0@ == iv@ + explicit@)
//@end
}
