// C13: SP 800-90A HMAC_DRBG as RFC 6979 uses it (K, V), over the contract of HMAC
verus! {
use core::marker::PhantomData;
pub open spec fn concat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
pub proof fn lemma_concat_take(s: Seq<&[u8]>, i: int) requires 0 <= i < s.len() ensures concat(s.take(i + 1)) == concat(s.take(i)) + s[i]@ { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_concat_len(s: Seq<&[u8]>, i: int) requires 0 <= i <= s.len() ensures concat(s.take(i)).len() <= concat(s).len() decreases s.len() - i { if i < s.len() { lemma_concat_take(s, i); lemma_concat_len(s, i + 1); } else { assert(s.take(i) =~= s); } }
pub struct KV { pub k: Seq<u8>, pub v: Seq<u8> }
// one half of HMAC_DRBG_Update: K = HMAC(K, V || x || data); V = HMAC(K, V)
pub open spec fn drbg_half<H: Hash>(s: KV, x: u8, data: Seq<u8>) -> KV { let k = hmac::<H>(s.k, s.v + seq![x] + data); KV { k, v: hmac::<H>(k, s.v) } }
pub open spec fn drbg_update<H: Hash>(s: KV, data: Option<Seq<u8>>) -> KV {
    match data { None => drbg_half::<H>(s, 0, Seq::empty()), Some(d) => drbg_half::<H>(drbg_half::<H>(s, 0, d), 1, d) } }
pub open spec fn drbg_init<H: Hash>(seed: Seq<u8>) -> KV { drbg_update::<H>(KV { k: Seq::new(H::spec_out_len(), |i: int| 0u8), v: Seq::new(H::spec_out_len(), |i: int| 1u8) }, Some(seed)) }
pub open spec fn drbg_v<H: Hash>(s: KV, n: nat) -> Seq<u8> decreases n { if n == 0 { s.v } else { hmac::<H>(s.k, drbg_v::<H>(s, (n - 1) as nat)) } }
// the n output bytes are the leading ones of V1 || V2 || ...
pub open spec fn drbg_out<H: Hash>(s: KV, n: nat) -> Seq<u8> { Seq::new(n, |i: int| drbg_v::<H>(s, (i / H::spec_out_len() as int + 1) as nat)[i % H::spec_out_len() as int]) }
pub open spec fn drbg_next<H: Hash>(s: KV, n: nat) -> KV { drbg_update::<H>(KV { k: s.k, v: drbg_v::<H>(s, div_up(n as int, H::spec_out_len() as int) as nat) }, None) }
#[verifier::external_body] pub fn v_check(b: bool) ensures b { assert!(b) }   // an assert! of the code: returns only when it holds
pub proof fn lemma_hmac_len<H: Hash>(k: Seq<u8>, m: Seq<u8>) ensures hmac::<H>(k, m).len() == H::spec_out_len(), 0 < H::spec_out_len() <= 64
{ H::lemma_sizes(xorpad(key0::<H>(k), 0x5c) + H::spec_hash(xorpad(key0::<H>(k), 0x36) + m)); }
pub proof fn lemma_v_len<H: Hash>(s: KV, n: nat) requires s.v.len() == H::spec_out_len() ensures drbg_v::<H>(s, n).len() == H::spec_out_len() { if n > 0 { lemma_hmac_len::<H>(s.k, drbg_v::<H>(s, (n - 1) as nat)); } }
//@item graviola/src/high/hmac_drbg.rs :: struct HmacDrbg
impl<H: Hash> HmacDrbg<H> {
    pub open spec fn kv(self) -> KV { KV { k: self.k.bytes(), v: self.v.bytes() } }
    pub open spec fn wf(self) -> bool { self.k.bytes().len() == H::spec_out_len() && self.v.bytes().len() == H::spec_out_len() }
//@fn graviola/src/high/hmac_drbg.rs :: impl<H: Hash> HmacDrbg<H> :: new
//@ ret r
//@ spec
    requires entropy_input@.len() + nonce@.len() + personalization_string@.len() < 0x1000_0000
    ensures r.wf(), r.kv() == drbg_init::<H>(entropy_input@ + nonce@ + personalization_string@)
//@ sub v\.as_mut\(\)\.fill\(1u8\); => v_fill1(v.as_mut());
//@ sub r\.update\(seed_material\); => proof { H::lemma_sizes(Seq::empty()); lemma_concat3(seed_material@, entropy_input@, nonce@, personalization_string@); assert(r.v.bytes() =~= Seq::new(H::spec_out_len(), |i: int| 1u8)); assert(r.k.bytes() =~= Seq::new(H::spec_out_len(), |i: int| 0u8)); } r.update(seed_material);
//@end
//@fn graviola/src/high/hmac_drbg.rs :: impl<H: Hash> HmacDrbg<H> :: update
//@ spec
    requires old(self).wf(), concat(additional_input@).len() < 0x1000_0000, old(self).reseed_counter < usize::MAX
    ensures final(self).wf(), final(self).kv() == drbg_update::<H>(old(self).kv(), if additional_input@.len() == 0 { None } else { Some(concat(additional_input@)) })
//@ sub for item in additional_input \{ => for item in additional_input.iter() {
//@ sub ctx\.update\(\[(\d)u8\]\); => let vb = [\1u8]; ctx.update(&vb); proof { assert(vb@ =~= seq![\1u8]); assert(ctx.models(key, Seq::<u8>::empty() + self.v.bytes() + vb@)); assert(concat(additional_input@.take(0)) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + self.v.bytes() + vb@ =~= self.v.bytes() + seq![\1u8] + Seq::<u8>::empty()); }
//@ sub let mut ctx = Hmac::<H>::new\(self\.k\.as_ref\(\)\); => let ghost key = self.k.bytes(); let mut ctx = Hmac::<H>::new(self.k.as_ref()); proof { assert(Seq::<u8>::empty() + self.v.bytes() =~= self.v.bytes()); assert(ctx.models(key, Seq::empty())); lemma_hmac_len::<H>(key, self.v.bytes()); }
//@ loop 1
    invariant vn1 == additional_input@.len(), self.wf(), self.v == old(self).v, concat(additional_input@).len() < 0x1000_0000, H::spec_out_len() <= 64, ctx.models(key, self.v.bytes() + seq![0u8] + concat(additional_input@.take(vi1 as int)))
//@ lbegin 1
    proof { lemma_concat_take(additional_input@, vi1 as int); lemma_concat_len(additional_input@, vi1 + 1); let t = self.v.bytes() + seq![0u8]; assert(t + concat(additional_input@.take(vi1 as int)) + additional_input@[vi1 as int]@ =~= t + concat(additional_input@.take(vi1 + 1))); }
//@ loop 2
    invariant vn2 == additional_input@.len(), self.wf(), self.v == v1, concat(additional_input@).len() < 0x1000_0000, H::spec_out_len() <= 64, ctx.models(key, self.v.bytes() + seq![1u8] + concat(additional_input@.take(vi2 as int)))
//@ lbegin 2
    proof { lemma_concat_take(additional_input@, vi2 as int); lemma_concat_len(additional_input@, vi2 + 1); let t = self.v.bytes() + seq![1u8]; assert(t + concat(additional_input@.take(vi2 as int)) + additional_input@[vi2 as int]@ =~= t + concat(additional_input@.take(vi2 + 1))); }
//@ before #1 self\.k = 
    proof { assert(additional_input@.take(additional_input@.len() as int) =~= additional_input@); lemma_hmac_len::<H>(key, self.v.bytes() + seq![0u8] + concat(additional_input@)); }
//@ before #2 self\.k = 
    proof { assert(additional_input@.take(additional_input@.len() as int) =~= additional_input@); lemma_hmac_len::<H>(key, self.v.bytes() + seq![1u8] + concat(additional_input@)); }
//@ before self\.reseed_counter
    let ghost v1 = self.v;
//@end
//@fn graviola/src/high/hmac_drbg.rs :: impl<H: Hash> HmacDrbg<H> :: generate_block
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).k == old(self).k, final(self).v.bytes() == hmac::<H>(old(self).k.bytes(), old(self).v.bytes()), final(self).reseed_counter == old(self).reseed_counter
//@ sub let mut ctx = Hmac::<H>::new\(self\.k\.as_ref\(\)\); => let ghost key = self.k.bytes(); let mut ctx = Hmac::<H>::new(self.k.as_ref()); proof { assert(Seq::<u8>::empty() + self.v.bytes() =~= self.v.bytes()); assert(ctx.models(key, Seq::empty())); lemma_hmac_len::<H>(key, self.v.bytes()); }
//@end
}
pub fn v_fill1(s: &mut [u8]) ensures final(s)@ =~= Seq::new(old(s)@.len(), |i: int| 1u8)
{ let n = s.len(); for i in 0..n invariant s@.len() == n, n == old(s)@.len(), forall|j: int| 0 <= j < i ==> s@[j] == 1 { s[i] = 1; } }
pub proof fn lemma_concat3(s: Seq<&[u8]>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires s.len() == 3, s[0]@ == a, s[1]@ == b, s[2]@ == c ensures concat(s) == a + b + c
{ assert(s.take(3) =~= s); assert(s.take(0) =~= Seq::empty()); lemma_concat_take(s, 0); lemma_concat_take(s, 1); lemma_concat_take(s, 2); assert(concat(s) =~= a + b + c); }
impl<H: Hash> RandomSource for HmacDrbg<H> {
    open spec fn gives(b: Seq<u8>) -> bool { true }
    open spec fn step(a: Self, b: Self, out: Seq<u8>) -> bool { out == drbg_out::<H>(a.kv(), out.len()) && b.kv() == drbg_next::<H>(a.kv(), out.len()) }
    open spec fn ready(self) -> bool { self.wf() }
//@fn graviola/src/high/hmac_drbg.rs :: impl<H: Hash> RandomSource for HmacDrbg<H> :: fill
//@ vis none
//@ sub assert!\((.*?)\); => v_check(\1);
//@ sub self\.update\(&\[\]\) => self.update(v_none())
//@ begin
    let ghost s = self.kv(); let ghost n = out@.len() as int; let ghost hl = H::spec_out_len() as int;
    proof { H::lemma_sizes(Seq::empty()); }
//@ before let vlen1_0
    proof { lemma_div_up(n, hl); }
//@ loop 1
    invariant hl == hashlen, hl == H::spec_out_len(), 0 < hl <= 64, vlen1_0 == n, vn1 == div_up(n, hl), out@.len() == n, self.wf(), self.k.bytes() == s.k, self.v.bytes() == drbg_v::<H>(s, vi1 as nat), s == old(self).kv(), self.reseed_counter < 0x1_0000_0000_0000,
        forall|i: int| 0 <= i < n && i < vi1 * hl ==> #[trigger] out@[i] == drbg_out::<H>(s, n as nat)[i]
//@ lbegin 1
    let ghost o1 = out@; let ghost c = vi1 as int; proof { lemma_chunk_up(c, hl, n); }
//@ lend 1
    proof {
        assert forall|i: int| 0 <= i < n && i < (c + 1) * hl implies #[trigger] out@[i] == drbg_out::<H>(s, n as nat)[i] by {
            assert((c + 1) * hl == c * hl + hl) by (nonlinear_arith);
            if c * hl <= i { lemma_fundamental_div_mod_converse(i, hl, c, i - c * hl); } else { assert(out@[i] == o1[i]); } }
    }
//@ tail
    proof { lemma_div_up(n, hl); assert(n <= div_up(n, hl) * hl); assert(out@ =~= drbg_out::<H>(s, n as nat)); }
//@end
}
#[verifier::external_body] pub fn v_none<'a>() -> (r: &'a [&'a [u8]]) ensures r@.len() == 0 { &[] }
}
