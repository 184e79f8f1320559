// C07, C08: strict DER. Every decoder is specified by `rest` (the grammar: what remains after the one strict encoding at the start, if there is one)
// and by `enc` (the encoding): a decoder accepts exactly what the grammar accepts, and re-encoding what it returns gives back the bytes it consumed.
verus! {
//@item graviola/src/high/asn1.rs :: enum Error
//@ attr #[derive(Debug)]
//@end
//@item graviola/src/high/asn1.rs :: struct Tag
//@ attr #[derive(Clone, Copy)]
//@end
//@item graviola/src/high/asn1.rs :: struct Parser
//@item graviola/src/high/asn1.rs :: struct Encoder

// X.690 8.1.3, 10.1: minimal definite lengths
pub open spec fn der_len(n: int) -> Seq<u8> {
    if n < 0x80 { seq![n as u8] }
    else if n < 0x100 { seq![0x81u8, n as u8] }
    else if n < 0x1_0000 { seq![0x82u8, (n / 0x100) as u8, (n % 0x100) as u8] }
    else if n < 0x100_0000 { seq![0x83u8, (n / 0x1_0000) as u8, (n / 0x100 % 0x100) as u8, (n % 0x100) as u8] }
    else { seq![0x84u8, (n / 0x100_0000) as u8, (n / 0x1_0000 % 0x100) as u8, (n / 0x100 % 0x100) as u8, (n % 0x100) as u8] }
}
pub open spec fn tlv(tag: u8, body: Seq<u8>) -> Seq<u8> { seq![tag] + der_len(body.len() as int) + body }
pub open spec fn tlv_len(n: int) -> int { 1 + der_len(n).len() + n }
// (header octets, body octets) of the strict DER object with this tag at the start of s; bodies of 64 KiB and more are not supported
pub open spec fn hdr(s: Seq<u8>, tag: u8) -> Option<(int, int)> {
    if s.len() < 2 || s[0] != tag { None }
    else if s[1] < 0x80 { hdr_fit(s, 2, s[1] as int) }
    else if s[1] == 0x81 && s.len() >= 3 && s[2] >= 0x80 { hdr_fit(s, 3, s[2] as int) }
    else if s[1] == 0x82 && s.len() >= 4 && s[2] * 0x100 + s[3] >= 0x100 { hdr_fit(s, 4, s[2] * 0x100 + s[3]) }
    else { None }
}
pub open spec fn hdr_fit(s: Seq<u8>, h: int, l: int) -> Option<(int, int)> { if s.len() >= h + l { Some((h, l)) } else { None } }
pub proof fn lemma_hdr(s: Seq<u8>, tag: u8)
    ensures hdr(s, tag) matches Some((h, l)) ==> s.take(h + l) == tlv(tag, s.subrange(h, h + l)) && s == tlv(tag, s.subrange(h, h + l)) + s.skip(h + l) && l < 0x1_0000 && h >= 2 && h + l <= s.len()
{
    if let Some((h, l)) = hdr(s, tag) {
        assert(s.take(h + l) =~= tlv(tag, s.subrange(h, h + l)));
        assert(s =~= tlv(tag, s.subrange(h, h + l)) + s.skip(h + l));
    }
}
// the converse: what the encoder writes is accepted
pub proof fn lemma_tlv_hdr(tag: u8, body: Seq<u8>, more: Seq<u8>) requires body.len() < 0x1_0000
    ensures hdr(tlv(tag, body) + more, tag) == Some((1 + der_len(body.len() as int).len() as int, body.len() as int)),
        (tlv(tag, body) + more).subrange(1 + der_len(body.len() as int).len() as int, 1 + der_len(body.len() as int).len() as int + body.len() as int) == body,
        (tlv(tag, body) + more).skip(1 + der_len(body.len() as int).len() as int + body.len() as int) == more
{
    let s = tlv(tag, body) + more; let h = 1 + der_len(body.len() as int).len() as int;
    assert(s.subrange(h, h + body.len()) =~= body); assert(s.skip(h + body.len()) =~= more);
}
pub open spec fn body_of(s: Seq<u8>, tag: u8) -> Seq<u8> { let (h, l) = hdr(s, tag).unwrap(); s.subrange(h, h + l) }
pub open spec fn after(s: Seq<u8>, tag: u8) -> Seq<u8> { let (h, l) = hdr(s, tag).unwrap(); s.skip(h + l) }

#[verifier::external_body] pub fn v_split_first(s: &[u8]) -> (r: Option<(&u8, &[u8])>)
    ensures r.is_some() == (s@.len() > 0), r.is_some() ==> *r.unwrap().0 == s@[0] && r.unwrap().1@ == s@.skip(1) { s.split_first() }
#[verifier::external_body] pub fn v_get_to<T>(s: &[T], n: usize) -> (r: Option<&[T]>)
    ensures r.is_some() == (n <= s@.len()), r.is_some() ==> r.unwrap()@ == s@.take(n as int) { s.get(..n) }
#[verifier::external_body] pub fn v_first(s: &[u8]) -> (r: Option<u8>) ensures r.is_some() == (s@.len() > 0), r.is_some() ==> r.unwrap() == s@[0] { s.first().cloned() }
#[verifier::external_body] pub fn v_mem_take<'a>(s: &mut &'a mut [u8]) -> (r: &'a mut [u8])
    ensures r@ == old(s)@, final(r)@ == final(*old(s))@, final(s)@.len() == 0 { core::mem::take(s) }
#[verifier::external_body] pub fn v_skip_mut1<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8]) requires n <= old(s)@.len()
    ensures r@ == old(s)@.skip(n as int), final(r)@.len() == r@.len() ==> final(s)@ == old(s)@.take(n as int) + final(r)@ { &mut s[n..] }
pub assume_specification [usize::ilog2] (a: usize) -> (r: u32) requires a > 0 ensures r < 64, pow2(r as nat) <= a < pow2((r + 1) as nat);
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32) requires b != 0 ensures r as int == div_up(a as int, b as int);

impl Tag {
//@const graviola/src/high/asn1.rs :: impl Tag :: INTEGER
//@const graviola/src/high/asn1.rs :: impl Tag :: BIT_STRING
//@const graviola/src/high/asn1.rs :: impl Tag :: OCTET_STRING
//@const graviola/src/high/asn1.rs :: impl Tag :: NULL
//@const graviola/src/high/asn1.rs :: impl Tag :: OBJECT_ID
//@const graviola/src/high/asn1.rs :: impl Tag :: SEQUENCE
//@const graviola/src/high/asn1.rs :: impl Tag :: CONSTRUCTED
//@const graviola/src/high/asn1.rs :: impl Tag :: CONTEXT_SPECIFIC
//@fn graviola/src/high/asn1.rs :: impl Tag :: acceptable
//@ ret r
//@ spec
    ensures r == (self.0 == offered)
//@end
//@fn graviola/src/high/asn1.rs :: impl Tag :: constructed
//@ ret r
//@ spec
    ensures r == is_cons(self.0)
//@ begin
    proof { let t = self.0; assert((t & 0x20 == 0x20) == ((t / 32) % 2 == 1)) by (bit_vector); assert(0x30u8 & 0x20u8 == 0x20u8) by (bit_vector); }
//@end
//@fn graviola/src/high/asn1.rs :: impl Tag :: context
//@ ret r
//@ spec
    ensures r.0 == (0x80u8 | (if constructed { 0x20u8 } else { 0u8 })) | id
//@end
}
pub open spec fn is_cons(t: u8) -> bool { (t / 32) % 2 == 1 }

impl<'a, 's> Parser<'a> {
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: new
//@ ret r
//@ spec
    ensures r.input@ == buf@
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: one_byte
//@ ret r
//@ spec
    ensures r.is_ok() == (old(self).input@.len() > 0), r.is_ok() ==> r.unwrap() == old(self).input@[0] && final(self).input@ == old(self).input@.skip(1)
//@ sub self\s*\.input\s*\.split_first\(\)\s*\.ok_or\(Error::UnexpectedEof\)\? => (match v_split_first(self.input) { Some(x) => x, None => return Err(Error::UnexpectedEof) })
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: take_len
//@ ret r
//@ spec
    ensures r.is_ok() ==> final(self).input@.len() <= old(self).input@.len(),
        forall|tag: u8| #![trigger seq![tag] + old(self).input@] {
            let s = seq![tag] + old(self).input@;
            &&& r.is_err() ==> hdr(s, tag).is_none()
            &&& r.is_ok() ==> r.unwrap() < 0x1_0000 && hdr(s, tag) == hdr_fit(s, s.len() - final(self).input@.len(), r.unwrap() as int) && final(self).input@ == s.skip(s.len() - final(self).input@.len())
        }
//@ sub \(\(self\.one_byte\(\)\? as usize\) << 8\) \| self\.one_byte\(\)\? as usize => { let hi = self.one_byte()? as usize; let lo = self.one_byte()? as usize; proof { assert(hi < 256 && lo < 256 ==> (hi << 8) | lo == hi * 256 + lo) by (bit_vector); assert forall|tag: u8| (#[trigger] (seq![tag] + old(self).input@)).skip(4) == old(self).input@.skip(3) by { assert((seq![tag] + old(self).input@).skip(4) =~= old(self).input@.skip(3)); } assert(old(self).input@.skip(1).skip(1).skip(1) =~= old(self).input@.skip(3)); } (hi << 8) | lo }
//@ begin
    proof {
        assert forall|tag: u8| (old(self).input@.len() >= 1 ==> (#[trigger] (seq![tag] + old(self).input@)).skip(2) == old(self).input@.skip(1)) && (old(self).input@.len() >= 2 ==> (seq![tag] + old(self).input@).skip(3) == old(self).input@.skip(2)) by {
            if old(self).input@.len() >= 1 { assert((seq![tag] + old(self).input@).skip(2) =~= old(self).input@.skip(1)); }
            if old(self).input@.len() >= 2 { assert((seq![tag] + old(self).input@).skip(3) =~= old(self).input@.skip(2)); }
        }
        if old(self).input@.len() >= 2 { assert(old(self).input@.skip(1).skip(1) =~= old(self).input@.skip(2)); }
    }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: take
//@ ret r
//@ spec
    ensures r.is_ok() == hdr(old(self).input@, want_tag.0).is_some(),
        r.is_ok() ==> r.unwrap().0.0 == want_tag.0 && r.unwrap().1@ == body_of(old(self).input@, want_tag.0) && final(self).input@ == after(old(self).input@, want_tag.0)
//@ sub self\.input\.get\(\.\.len\)\.ok_or\(Error::UnexpectedEof\)\? => (match v_get_to(self.input, len) { Some(x) => x, None => return Err(Error::UnexpectedEof) })
//@ sub let \(_, rest\) = self\.input\.split_at\(len\); => let rest = v_split_at(self.input, len).1;
//@ sub Tag::from\(tag\) => Tag(tag)
//@ before let len = self
    proof { assert(seq![tag] + self.input@ =~= old(self).input@); }
//@ before let body
    proof { let s = old(self).input@; let h = s.len() - self.input@.len(); assert(s == seq![tag] + old(self).input@.skip(1)); assert(self.input@ == s.skip(h)); if s.len() >= h + len { assert(s.skip(h).take(len as int) =~= s.subrange(h, h + len)); assert(s.skip(h).skip(len as int) =~= s.skip(h + len)); } }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: descend
//@ ret r
//@ spec
    ensures r.is_ok() == hdr(old(self).input@, want_tag.0).is_some(),
        r.is_ok() ==> r.unwrap().0.0 == want_tag.0 && r.unwrap().1.input@ == body_of(old(self).input@, want_tag.0) && final(self).input@ == after(old(self).input@, want_tag.0)
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: peek_tag
//@ ret r
//@ spec
    ensures *final(self) == *old(self), r.is_ok() == (old(self).input@.len() > 0), r.is_ok() ==> r.unwrap().0 == old(self).input@[0]
//@ sub self\s*\.input\s*\.first\(\)\s*\.cloned\(\)\s*\.map\(Tag\)\s*\.ok_or\(Error::UnexpectedEof\) => match v_first(self.input) { Some(x) => Ok(Tag(x)), None => Err(Error::UnexpectedEof) }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: left
//@ ret r
//@ spec
    ensures r == self.input@.len()
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Parser<'a> :: check_end
//@ ret r
//@ spec
    ensures r.is_ok() == (self.input@.len() == 0)
//@end
}
#[verifier::external_body] pub fn v_split_at<T>(s: &[T], n: usize) -> (r: (&[T], &[T])) requires n <= s@.len() ensures r.0@ == s@.take(n as int), r.1@ == s@.skip(n as int) { s.split_at(n) }
pub open spec fn enc_ok(e0: Encoder<'_>) -> bool { e0.written + e0.out@.len() <= usize::MAX }
impl<'a, 's> Encoder<'a> {
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: new
//@ ret r
//@ spec
    ensures r.out@ == old(out)@, final(r.out)@ == final(out)@, r.written == 0
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: push
//@ ret r
//@ spec
    requires enc_ok(*old(self))
    ensures r.is_ok() == (old(self).out@.len() > 0),
        r.is_ok() ==> final(self).out@.len() + 1 == old(self).out@.len() && final(self).written == old(self).written + 1 && (final(final(self).out)@.len() == final(self).out@.len() ==> final(old(self).out)@ == seq![byte] + final(final(self).out)@)
//@ sub mem::take\( => v_mem_take(
//@ sub &mut out\[1\.\.\] => v_skip_mut1(out, 1)
//@ before self\.out =
    proof { assert(out@.take(1) =~= seq![byte]); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: append_slice
//@ ret r
//@ spec
    requires enc_ok(*old(self))
    ensures r.is_ok() == (old(self).out@.len() >= bytes@.len()),
        r.is_ok() ==> final(self).out@.len() + bytes@.len() == old(self).out@.len() && final(self).written == old(self).written + bytes@.len() && (final(final(self).out)@.len() == final(self).out@.len() ==> final(old(self).out)@ == bytes@ + final(final(self).out)@)
//@ sub mem::take\( => v_mem_take(
//@ sub &mut out\[bytes\.len\(\)\.\.\] => v_skip_mut1(out, bytes.len())
//@ before self\.out =
    proof { assert(out@.take(bytes@.len() as int) =~= bytes@); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: split
//@ ret r
//@ spec
    requires enc_ok(*old(self))
    ensures r.is_ok() == (old(self).out@.len() >= len),
        r.is_ok() ==> r.unwrap().out@.len() == len && r.unwrap().written == old(self).written && final(self).out@.len() + len == old(self).out@.len() && final(self).written == old(self).written + len
            && (final(final(self).out)@.len() == final(self).out@.len() && final(r.unwrap().out)@.len() == len ==> final(old(self).out)@ == final(r.unwrap().out)@ + final(final(self).out)@)
//@ sub mem::take\( => v_mem_take(
//@ sub buffer\.split_at_mut\(len\) => v_split_at_mut(buffer, len)
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: begin
//@ ret r
//@ spec
    requires enc_ok(*old(self)), body_len <= 0xffff_ffff
    ensures r.is_ok() == (old(self).out@.len() >= tlv_len(body_len as int)),
        r.is_ok() ==> r.unwrap().out@.len() == body_len && r.unwrap().written == old(self).written + tlv_len(body_len as int) - body_len && final(self).out@.len() == old(self).out@.len() - tlv_len(body_len as int) && final(self).written == old(self).written + tlv_len(body_len as int)
            && (final(final(self).out)@.len() == final(self).out@.len() && final(r.unwrap().out)@.len() == body_len ==> final(old(self).out)@ == tlv(tag.0, final(r.unwrap().out)@) + final(final(self).out)@)
//@ before let bytes
    proof { lemma_len_bytes(body_len); }
//@ before #1 for
    let ghost k = bytes as int; let ghost dl = seq![tag.0] + der_len(body_len as int);
    proof { lemma_der_len(body_len); assert(dl.take(2) =~= seq![tag.0] + seq![(0x80 + k) as u8]); assert forall|x: Seq<u8>| seq![tag.0] + (seq![(0x80 + k) as u8] + x) == #[trigger] (dl.take(2) + x) by { assert(seq![tag.0] + (seq![(0x80 + k) as u8] + x) =~= dl.take(2) + x); } }
//@ loop 1
    invariant 1 <= bytes <= 4, k == bytes, len_encoded@ == be(body_len as nat, 8), dl == seq![tag.0] + der_len(body_len as int), dl.len() == 2 + k, dl == seq![tag.0] + seq![(0x80 + k) as u8] + be(body_len as nat, 8).skip(8 - k),
        enc_ok(*self), self.out@.len() + 2 + i == old(self).out@.len(), self.written == old(self).written + 2 + i, tlv_len(body_len as int) == 2 + k + body_len,
        final(self.out)@.len() == self.out@.len() ==> final(old(self).out)@ == dl.take(2 + i) + final(self.out)@
//@ lbegin 1
    let ghost w0 = *self;
    proof { lemma_be_len(body_len as nat, 8); assert(len_encoded@[8 - k + i] == dl[2 + i]); assert(dl.take(2 + i + 1) =~= dl.take(2 + i) + seq![dl[2 + i]]); assert forall|x: Seq<u8>| dl.take(2 + i) + (seq![dl[2 + i]] + x) == #[trigger] (dl.take(3 + i) + x) by { assert(dl.take(2 + i) + (seq![dl[2 + i]] + x) =~= dl.take(3 + i) + x); } }
//@ tail
    proof {
        let dl = seq![tag.0] + der_len(body_len as int);
        assert(body_len < 0x80 ==> der_len(body_len as int) == seq![body_len as u8]); assert(dl.take(dl.len() as int) =~= dl);
        assert forall|x: Seq<u8>, y: Seq<u8>| seq![tag.0] + (der_len(body_len as int) + (x + y)) == #[trigger] (dl + x + y) && dl + (x + y) == dl + x + y by { assert(seq![tag.0] + (der_len(body_len as int) + (x + y)) =~= dl + x + y); assert(dl + (x + y) =~= dl + x + y); }
    }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, 's> Encoder<'a> :: finish
//@ ret r
//@ spec
    ensures r == old(self).written, *final(self) == *old(self)
//@end
}
pub proof fn lemma_len_bytes(n: usize) requires 0x80 <= n <= 0xffff_ffff
    ensures forall|r: u32| pow2(r as nat) <= n < pow2((r + 1) as nat) ==> #[trigger] div_up((r + 1) as int, 8) == der_len(n as int).len() - 1
{
    lemma2_to64();
    assert forall|r: u32| pow2(r as nat) <= n < pow2((r + 1) as nat) implies #[trigger] div_up((r + 1) as int, 8) == der_len(n as int).len() - 1 by {
        if r < 7 { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, 8); }
        if r >= 8 { if r > 8 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(8, r as nat); } } else { if r + 1 < 8 { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, 8); } }
        if r >= 16 { if r > 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(16, r as nat); } } else { if r + 1 < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, 16); } }
        if r >= 24 { if r > 24 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(24, r as nat); } } else { if r + 1 < 24 { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, 24); } }
        if r >= 32 { if r > 32 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(32, r as nat); } }
        if r < 7 { if r + 1 < 7 { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, 7); } }
    }
}
pub proof fn lemma_der_len(n: usize) requires 0x80 <= n <= 0xffff_ffff
    ensures ({ let k = der_len(n as int).len() - 1; der_len(n as int) == seq![(0x80 + k) as u8] + be(n as nat, 8).skip(8 - k) })
{
    lemma_be_len(n as nat, 8);
    reveal_with_fuel(be, 9);
    let k = der_len(n as int).len() - 1;
    assert(der_len(n as int) =~= seq![(0x80 + k) as u8] + be(n as nat, 8).skip(8 - k));
}
//@fn graviola/src/high/asn1.rs :: - :: encoded_length_for
//@ ret r
//@ spec
    requires len <= 0xffff_ffff
    ensures r == tlv_len(len as int)
//@ sub unimplemented!\("extremely long asn1 object"\) => { assert(false); v_unreachable() }
//@end
#[verifier::external_body] pub fn v_unreachable() -> (r: usize) requires false { unimplemented!() }
}
