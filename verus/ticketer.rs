// C24: the session ticketer over the contract of XChaCha20-Poly1305 (proved in unit chacha20poly1305)
use vstd::prelude::*;
//@use std.rs
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
#[derive(Debug)] pub struct GetRandomFailed;
// RFC 8439 / XChaCha sealing: ciphertext and tag
pub uninterp spec fn seal_ct(key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn seal_tag(key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
// Some(p): p seals to exactly this ciphertext and tag
pub open spec fn opens(key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>, tag: Seq<u8>, p: Seq<u8>) -> bool
    { p.len() == ct.len() && seal_ct(key, nonce, aad, p) == ct && seal_tag(key, nonce, aad, p) == tag }
pub mod aead { use super::*; verus! {
    #[derive(Debug)] pub struct Error;
    pub struct XChaCha20Poly1305 { pub key: [u8; 32] }
    impl XChaCha20Poly1305 {
        #[verifier::external_body] pub fn new(key: [u8; 32]) -> (r: Self) ensures r.key == key { unimplemented!() }
        #[verifier::external_body] pub fn encrypt(&self, nonce: &[u8; 24], aad: &[u8], inout: &mut [u8], tag_out: &mut [u8; 16])
            ensures final(inout)@.len() == old(inout)@.len(), final(inout)@ == seal_ct(self.key@, nonce@, aad@, old(inout)@), final(tag_out)@ == seal_tag(self.key@, nonce@, aad@, old(inout)@) { unimplemented!() }
        #[verifier::external_body] pub fn decrypt(&self, nonce: &[u8; 24], aad: &[u8], inout: &mut [u8], tag: &[u8]) -> (r: Result<(), Error>)
            ensures final(inout)@.len() == old(inout)@.len(), r.is_ok() ==> opens(self.key@, nonce@, aad@, old(inout)@, tag@, final(inout)@),
                r.is_err() ==> forall|p: Seq<u8>| !opens(self.key@, nonce@, aad@, old(inout)@, tag@, p) { unimplemented!() }
    }
} }
pub mod random { use super::*; verus! {
    #[derive(Debug)] pub struct Error;
    pub uninterp spec fn drawn(b: Seq<u8>) -> bool;      // b came from the operating system's generator
    #[verifier::external_body] pub fn fill(b: &mut [u8]) -> (r: Result<(), Error>) ensures final(b)@.len() == old(b)@.len(), r.is_ok() ==> drawn(final(b)@) { unimplemented!() }
} }
// the high-water mark: `raised(c, n)` a fetch_max(n) happened, `seen(c, n)` a load gave n. That a load after fetch_max(n) gives at least n is AtomicUsize's contract.
pub struct Ordering;
pub const SeqCst: Ordering = Ordering;
pub struct AtomicUsize { pub v: usize }
pub uninterp spec fn raised(c: AtomicUsize, n: int) -> bool;
pub uninterp spec fn seen(c: AtomicUsize, n: int) -> bool;
impl AtomicUsize {
    pub fn new(v: usize) -> (r: AtomicUsize) ensures r.v == v { AtomicUsize { v } }
    #[verifier::external_body] pub fn fetch_max(&self, n: usize, o: Ordering) -> (r: usize) ensures raised(*self, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn store(&self, n: usize, o: Ordering) { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> (r: usize) ensures seen(*self, r as int) { unimplemented!() }
}
#[verifier::external_body] pub fn v_vec(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { Vec::new() }
#[verifier::external_body] pub fn v_extend(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { v.extend(b) }
#[verifier::external_body] pub fn v_tail_mut(v: &mut Vec<u8>, n: usize) -> (r: &mut [u8]) requires n <= old(v)@.len()
    ensures r@ == old(v)@.skip(n as int), final(v)@ == old(v)@.take(n as int) + final(r)@ { &mut v[n..] }
#[verifier::external_body] pub fn v_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] pub fn v_ne16(a: &[u8], b: [u8; 16]) -> (r: bool) ensures r == (a@ != b@) { a != b }
#[verifier::external_body] pub fn v_arr24(s: &[u8]) -> (r: [u8; 24]) requires s@.len() == 24 ensures r@ == s@ { unimplemented!() }
//@item rustls-graviola/src/ticketer.rs :: const ONE_TICKET_LIFETIME_SECS
//@item rustls-graviola/src/ticketer.rs :: struct XChaCha20Ticketer
impl XChaCha20Ticketer {
    // key name, nonce, ciphertext, tag; the key name is the additional data
    pub open spec fn ticket(self, nonce: Seq<u8>, m: Seq<u8>) -> Seq<u8>
        { self.key_name@ + nonce + seal_ct(self.key.key@, nonce, self.key_name@, m) + seal_tag(self.key.key@, nonce, self.key_name@, m) }
    // t is the ticket of a non-empty p under some nonce
    pub open spec fn is_ticket(self, t: Seq<u8>, p: Seq<u8>) -> bool {
        t.len() > 56 && t.take(16) == self.key_name@ && opens(self.key.key@, t.subrange(16, 40), self.key_name@, t.subrange(40, t.len() - 16), t.skip(t.len() - 16), p)
    }
    // what encrypt returns is what decrypt opens, and nothing but p opens from it (deciphering is a function: XChaCha20-Poly1305 contract)
    pub proof fn lemma_round_trip(self, nonce: Seq<u8>, m: Seq<u8>)
        requires nonce.len() == 24, m.len() > 0, seal_ct(self.key.key@, nonce, self.key_name@, m).len() == m.len(), seal_tag(self.key.key@, nonce, self.key_name@, m).len() == 16
        ensures self.is_ticket(self.ticket(nonce, m), m)
    {
        let t = self.ticket(nonce, m); let c = seal_ct(self.key.key@, nonce, self.key_name@, m); let g = seal_tag(self.key.key@, nonce, self.key_name@, m);
        assert(t.take(16) =~= self.key_name@); assert(t.subrange(16, 40) =~= nonce); assert(t.subrange(40, t.len() - 16) =~= c); assert(t.skip(t.len() - 16) =~= g);
    }
    pub proof fn lemma_is_ticket(self, t: Seq<u8>, p: Seq<u8>) requires self.is_ticket(t, p) ensures t == self.ticket(t.subrange(16, 40), p)
    { assert(t =~= self.ticket(t.subrange(16, 40), p)); }
//@fn rustls-graviola/src/ticketer.rs :: impl XChaCha20Ticketer :: new
//@ ret r
//@ sub Self \{\s*key, => Self { key: key,
//@ spec
    ensures r.is_ok() ==> random::drawn(r.unwrap().key.key@) && random::drawn(r.unwrap().key_name@) && r.unwrap().maximum_ciphertext_len.v == 0
//@end
//@fn rustls-graviola/src/ticketer.rs :: impl ProducesTickets for XChaCha20Ticketer :: encrypt
//@ ret r
//@ sub Vec::with_capacity => v_vec
//@ sub res\.extend\(&self\.key_name\) => v_extend(&mut res, &self.key_name)
//@ sub res\.extend\(&nonce\) => v_extend(&mut res, &nonce)
//@ sub res\.extend\(message\) => v_extend(&mut res, message)
//@ sub res\.extend\(tag\) => v_extend(&mut res, &tag)
//@ sub &mut res\[self\.key_name\.len\(\) \+ nonce\.len\(\)\.\.\] => v_tail_mut(&mut res, self.key_name.len() + nonce.len())
//@ sub Ordering::SeqCst => SeqCst
//@ spec
    requires message@.len() <= 0x7fff_ffff
    ensures r.is_some() ==> exists|nonce: Seq<u8>| #![trigger random::drawn(nonce)] random::drawn(nonce) && nonce.len() == 24 && r.unwrap()@ == self.ticket(nonce, message@) && raised(self.maximum_ciphertext_len, r.unwrap()@.len() as int)
//@ after v_extend\(&mut res, message\)
    let ghost pre = self.key_name@ + nonce@;
    proof { assert(res@ =~= pre + message@); assert(res@.skip(40) =~= message@); assert(res@.take(40) =~= pre); }
//@end
//@fn rustls-graviola/src/ticketer.rs :: impl ProducesTickets for XChaCha20Ticketer :: decrypt
//@ ret r
//@ sub Ordering::SeqCst => SeqCst
//@ sub alleged_key_name != self\.key_name => v_ne16(alleged_key_name, self.key_name)
//@ sub plain\.to_vec\(\) => v_to_vec(plain)
//@ spec
    ensures r.is_some() ==> self.is_ticket(ciphertext@, r.unwrap()@) && r.unwrap()@.len() > 0,
        r.is_none() ==> (forall|p: Seq<u8>| !self.is_ticket(ciphertext@, p)) || (exists|n: int| #![trigger seen(self.maximum_ciphertext_len, n)] seen(self.maximum_ciphertext_len, n) && ciphertext@.len() > n)
//@ begin
    let ghost c = ciphertext@;
//@ before let mut plain
    proof { assert(nonce@ =~= c.subrange(16, 40)); assert(plain@ =~= c.subrange(40, c.len() - 16)); assert(alleged_tag@ =~= c.skip(c.len() - 16)); }
//@end
}
}
fn main() {}
