impl @TY@ {
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for @TY@ :: encrypted_payload_len
//@ ret r
//@ spec
    requires payload_len <= 0x7fff_ffff ensures r == payload_len + 17
//@end
//@fn rustls-graviola/src/aead.rs :: impl MessageEncrypter for @TY@ :: encrypt
//@ ret r
//@ sub sig OutboundPlainMessage<'_> => OutboundPlainMessage
//@ sub payload\.as_mut\(\) => payload.v_tail_mut(0)
//@ spec
    requires @M@.payload.b@.len() <= 0x7fff_ffff
    ensures enc13(old(self).0.k(), old(self).1.0@, @M@, seq, r), *final(self) == *old(self)
//@ tail
    proof { assert(payload.b@ =~= sealed(self.0.k(), nonce_of(self.1.0@, seq), aad13(@M@.payload.b@.len() + 17), inner13(@M@))); }
//@ before self\.0
    proof { assert(payload.b@ =~= inner13(@M@)); assert(payload.b@.skip(0) =~= inner13(@M@)); }
//@end
//@fn rustls-graviola/src/aead.rs :: impl MessageDecrypter for @TY@ :: decrypt
//@ ret r
//@ sub sig decrypt<'a> => decrypt
//@ sub sig <'a> => 
//@ sub \|_e\| (rustls::Error::\w+) => |_e: GErr| -> (x: Error) ensures x == \1 { \1 }
//@ sub payload\.split_at_mut => payload.v_split
//@ sub , @AM@, tag => , @AV@, tag
//@ spec
    ensures dec13(old(self).0.k(), old(self).1.0@, @M@, seq, r), *final(self) == *old(self)
//@ begin
    let ghost c = @M@.payload.b@; let ghost k = self.0.k(); let ghost n = nonce_of(self.1.0@, seq); let ghost a = aad13(c.len());
//@ before self\.0
    let ghost (x, t) = (@AV@@, tag@);
    proof { assert(x == c.take(c.len() - 16)); assert(t == c.skip(c.len() - 16)); assert(aad@ == a); assert(nonce.0@ == n); assert(forall|p: Seq<u8>| opens_c(k, n, a, c, p) ==> opens(k, n, a, x, t, p)); }
//@ after self\.0
    let ghost p = @AV@@;
    proof { assert(opens_c(k, n, a, c, p)); }
//@ tail
    proof { assert(@M@.payload.b@ =~= p); }
//@end
}
