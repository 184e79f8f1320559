//@item rustls-graviola/src/hmac.rs :: struct @N@Hmac
//@item rustls-graviola/src/hmac.rs :: struct @N@HmacKey
//@item rustls-graviola/src/hmac.rs :: const @A@_OUTPUT
impl @N@Hmac {
//@fn rustls-graviola/src/hmac.rs :: impl crypto::hmac::Hmac for @N@Hmac :: with_key
//@ ret r
//@ sub sig Box<dyn crypto::hmac::Key> => @N@HmacKey
//@ sub Box::new\((.*)\) => \1
//@ spec
    requires key@.len() < BOUND
    ensures r.0.key@ == key@, r.0.m@ == Seq::<u8>::empty()
//@end
//@fn rustls-graviola/src/hmac.rs :: impl crypto::hmac::Hmac for @N@Hmac :: hash_output_len
//@ ret r
//@ spec
    ensures r == @N@::olen()
//@end
}
impl @N@HmacKey {
//@fn rustls-graviola/src/hmac.rs :: impl crypto::hmac::Key for @N@HmacKey :: sign_concat
//@ ret r
//@ sub for m in middle \{ => for m in middle.iter() {
//@ spec
    // a key as with_key makes it, and sign_concat leaves it
    requires self.0.m@ == Seq::<u8>::empty(), first@.len() + concat(middle@).len() + last@.len() < BOUND
    ensures r.b@ == hmac_of::<@N@>(self.0.key@, first@ + concat(middle@) + last@)
//@ loop 1
    invariant vn1 == middle@.len(), first@.len() + concat(middle@).len() + last@.len() < BOUND, ctx.key@ == self.0.key@, ctx.m@ == first@ + concat(middle@.take(vi1 as int))
//@ lbegin 1
    proof { lemma_concat_take(middle@, vi1 as int); lemma_concat_len(middle@, vi1 + 1); assert((first@ + concat(middle@.take(vi1 as int))) + middle@[vi1 as int]@ =~= first@ + (concat(middle@.take(vi1 as int)) + middle@[vi1 as int]@)); }
//@ begin
    proof { assert(middle@.take(middle@.len() as int) =~= middle@); assert(concat(middle@.take(0)) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + first@ =~= first@); assert(first@ + Seq::<u8>::empty() =~= first@); }
//@end
//@fn rustls-graviola/src/hmac.rs :: impl crypto::hmac::Key for @N@HmacKey :: tag_len
//@ ret r
//@ spec
    ensures r == @N@::olen()
//@end
}
