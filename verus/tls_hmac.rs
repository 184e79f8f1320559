// C06: the HMAC keys handed to rustls, over the contract of Hmac (unit hmac)
use vstd::prelude::*;
verus! {
pub spec const BOUND: nat = 0x1000_0000_0000_0000;
pub open spec fn concat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
pub proof fn lemma_concat_take(s: Seq<&[u8]>, i: int) requires 0 <= i < s.len() ensures concat(s.take(i + 1)) == concat(s.take(i)) + s[i]@ { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_concat_len(s: Seq<&[u8]>, i: int) requires 0 <= i <= s.len() ensures concat(s.take(i)).len() <= concat(s).len() decreases s.len() - i { if i < s.len() { lemma_concat_take(s, i); lemma_concat_len(s, i + 1); } else { assert(s.take(i) =~= s); } }
pub struct Digest { pub b: Vec<u8> }
impl Digest { #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { &self.b } }
pub trait Hash { spec fn id() -> int; spec fn olen() -> nat; }
pub struct Sha256; pub struct Sha384;
impl Hash for Sha256 { open spec fn id() -> int { 256 } open spec fn olen() -> nat { 32 } }
impl Hash for Sha384 { open spec fn id() -> int { 384 } open spec fn olen() -> nat { 48 } }
// RFC 2104 (unit hmac defines it)
pub uninterp spec fn hmac_raw(id: int, key: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
pub open spec fn hmac_of<H: Hash>(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> { hmac_raw(H::id(), key, m) }
pub struct Hmac<H: Hash> { pub key: Ghost<Seq<u8>>, pub m: Ghost<Seq<u8>>, pub h: Ghost<Option<H>> }
impl<H: Hash> Hmac<H> {
    #[verifier::external_body] pub fn new(key: &[u8]) -> (r: Self) requires key@.len() < BOUND ensures r.key@ == key@, r.m@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.key@ == self.key@, r.m@ == self.m@ { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) requires old(self).m@.len() + b@.len() < BOUND ensures final(self).m@ == old(self).m@ + b@, final(self).key@ == old(self).key@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Digest) requires self.m@.len() < BOUND ensures r.b@ == hmac_of::<H>(self.key@, self.m@) { unimplemented!() }
}
pub mod crypto { pub mod hmac { use super::super::*; verus! {
    pub struct Tag { pub b: Vec<u8> }
    impl Tag { #[verifier::external_body] pub fn new(x: &[u8]) -> (r: Tag) ensures r.b@ == x@ { unimplemented!() } }
} } }
//@use tls_hmac1.rs N=Sha256 A=SHA256
//@use tls_hmac1.rs N=Sha384 A=SHA384
}
fn main() {}
