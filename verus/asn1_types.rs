verus! {
pub trait Type<'a>: Sized {
    spec fn tag() -> u8;
    // the encoding under a tag; what follows the encoding at the start of s
    spec fn enc(&self, tag: u8) -> Seq<u8>;
    spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>>;
    // representable: lengths fit, integers are minimal
    spec fn wf(&self) -> bool;
    proof fn law_len(&self, a: u8, b: u8) requires is_cons(a) == is_cons(b) ensures self.enc(a).len() == self.enc(b).len();
    // C08: what is encoded is accepted back (as long as the decoder supports the size); `fol` says what may follow an absent optional element
    spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool;
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) requires self.wf(), self.enc(tag).len() < 0x1_0000, self.fol(tag, more) ensures Self::rest(self.enc(tag) + more, tag) == Some(more);
    fn v_TAG() -> (r: Tag) ensures r.0 == Self::tag();
    fn parse_with_tag(p: &mut Parser<'a>, tag: Tag) -> (r: Result<Self, Error>)
        ensures r.is_ok() == Self::rest(old(p).input@, tag.0).is_some(),
            r.is_ok() ==> old(p).input@ == r.unwrap().enc(tag.0) + final(p).input@ && final(p).input@ == Self::rest(old(p).input@, tag.0).unwrap() && (is_cons(tag.0) == is_cons(Self::tag()) ==> r.unwrap().wf());
    fn encode_with_tag(&self, encoder: &mut Encoder<'_>, tag: Tag) -> (r: Result<usize, Error>)
        requires self.wf(), enc_ok(*old(encoder)), is_cons(tag.0) == is_cons(Self::tag())
        ensures r.is_ok() == (old(encoder).out@.len() >= self.enc(tag.0).len()),
            r.is_ok() ==> final(encoder).out@.len() == old(encoder).out@.len() - self.enc(tag.0).len() && final(encoder).written == old(encoder).written + self.enc(tag.0).len() && (self.enc(tag.0).len() > 0 ==> r.unwrap() == final(encoder).written)
                && (final(final(encoder).out)@.len() == final(encoder).out@.len() ==> final(old(encoder).out)@ == self.enc(tag.0) + final(final(encoder).out)@);
    fn encoded_len(&self) -> (r: usize) requires self.wf() ensures r == self.enc(Self::tag()).len(), r <= 0x1_0000_0005;
//@fn graviola/src/high/asn1.rs :: trait Type<'a> :: parse
//@ vis none
//@ ret r
//@ spec
        ensures r.is_ok() == Self::rest(old(p).input@, Self::tag()).is_some(),
            r.is_ok() ==> old(p).input@ == r.unwrap().enc(Self::tag()) + final(p).input@ && final(p).input@ == Self::rest(old(p).input@, Self::tag()).unwrap() && r.unwrap().wf()
//@ sub Self::TAG => Self::v_TAG()
//@end
//@fn graviola/src/high/asn1.rs :: trait Type<'a> :: encode
//@ vis none
//@ ret r
//@ spec
        requires self.wf(), enc_ok(*old(encoder))
        ensures r.is_ok() == (old(encoder).out@.len() >= self.enc(Self::tag()).len()),
            r.is_ok() ==> final(encoder).out@.len() == old(encoder).out@.len() - self.enc(Self::tag()).len() && final(encoder).written == old(encoder).written + self.enc(Self::tag()).len() && (self.enc(Self::tag()).len() > 0 ==> r.unwrap() == final(encoder).written)
                && (final(final(encoder).out)@.len() == final(encoder).out@.len() ==> final(old(encoder).out)@ == self.enc(Self::tag()) + final(final(encoder).out)@)
//@ sub Self::TAG => Self::v_TAG()
//@end
// C07: the whole input is the one strict encoding of the value returned
//@fn graviola/src/high/asn1.rs :: trait Type<'a> :: from_bytes
//@ vis none
//@ ret r
//@ spec
        ensures r.is_ok() == (Self::rest(b@, Self::tag()) == Some(Seq::<u8>::empty())), r.is_ok() ==> r.unwrap().enc(Self::tag()) == b@ && r.unwrap().wf()
//@ tail
    proof { assert(p.input@ =~= Seq::empty()); assert(b@ =~= t.enc(Self::tag())); }
//@ before p\.check_end
    proof { if p.input@.len() == 0 { assert(p.input@ =~= Seq::empty()); } }
//@end
}

//@item graviola/src/high/asn1.rs :: struct Null
//@end
impl Type<'_> for Null {
    open spec fn tag() -> u8 { 0x05 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, Seq::empty()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && body_of(s, tag).len() == 0 { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { true }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, Seq::<u8>::empty(), more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl Type<'_> for Null :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for Null :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(p).input@, tag.0); if hdr(old(p).input@, tag.0).is_some() && body_of(old(p).input@, tag.0).len() == 0 { assert(body_of(old(p).input@, tag.0) =~= Seq::empty()); } }
//@ sub !body\.is_empty\(\) => body.len() != 0
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for Null :: encode_with_tag
//@ vis none
//@ sub Ok\(encoder\.begin\(tag, 0\)\?\.finish\(\)\) => let mut body = encoder.begin(tag, 0)?; proof { assert(body.out@ =~= Seq::empty()); } Ok(body.finish())
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for Null :: encoded_len
//@ vis none
//@end
}

//@item graviola/src/high/asn1.rs :: struct ObjectId
impl ObjectId {
//@const graviola/src/high/asn1.rs :: impl ObjectId :: MAX_LEN
    pub open spec fn b(self) -> Seq<u8> { self.buf@.take(self.used as int) }
    pub open spec fn inv(self) -> bool { self.used <= 16 && forall|i: int| self.used <= i < 16 ==> self.buf@[i] == 0 }
//@fn graviola/src/high/asn1.rs :: impl AsRef<[u8]> for ObjectId :: as_ref
//@ ret r
//@ spec
    requires self.used <= 16
    ensures r@ == self.b()
//@end
}
impl Type<'_> for ObjectId {
    open spec fn tag() -> u8 { 0x06 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.b()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && body_of(s, tag).len() <= 16 { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, self.b(), more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl Type<'_> for ObjectId :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for ObjectId :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(p).input@, tag.0); }
//@ tail
    proof { assert(buf@.take(body@.len() as int) =~= body@); }
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for ObjectId :: encode_with_tag
//@ vis none
//@ tail
    proof { assert(self.b() + body.out@ =~= self.b()); }
//@end
//@fn graviola/src/high/asn1.rs :: impl Type<'_> for ObjectId :: encoded_len
//@ vis none
//@end
}

// X.690 8.3.2: the shortest two's complement form
pub open spec fn min_int(b: Seq<u8>) -> bool { b.len() > 0 && (b.len() >= 2 ==> !(b[0] == 0xff && b[1] >= 0x80) && !(b[0] == 0 && b[1] < 0x80)) }
//@item graviola/src/high/asn1.rs :: struct Integer
//@end
pub open spec fn twos_wf(i: Integer<'_>) -> bool { min_int(i.twos_complement@) && i.twos_complement@.len() <= 0xffff_ffff }
impl<'a> Integer<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.twos_complement@ }
    pub open spec fn nonneg(&self) -> bool { self.b()[0] < 0x80 }
//@fn graviola/src/high/asn1.rs :: impl<'a> Integer<'a> :: new
//@ ret r
//@ spec
    requires bytes@.len() <= 0xffff_ffff
    ensures twos_wf(r), bytes@.len() == 0 || bytes@[0] < 0x80 ==> r.nonneg() && be_val(r.b()) == be_val(bytes@), r.b().len() <= bytes@.len() || r.b() == seq![0u8]
//@ sub static ZERO: &\[u8\] = &\[0\]; => let ZERO: &'static [u8] = v_zero_slice();
//@ sub bytes\.is_empty\(\) \|\| bytes\.iter\(\)\.all\(\|b\| \*b == 0x00\) => bytes.len() == 0 || v_all_zero(bytes)
//@ begin
    let ghost b0 = bytes@;
    proof { if b0.len() == 0 || forall|i: int| 0 <= i < b0.len() ==> b0[i] == 0 { lemma_be_zeros(b0); lemma_be_zeros(seq![0u8]); } }
    proof { assert forall|x: u8| #[trigger] (x & 0x80) == 0x80 || (x & 0x80) == 0 by { assert((x & 0x80) == 0x80 || (x & 0x80) == 0) by (bit_vector); } assert forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 0x80) by { assert((x & 0x80 == 0x80) == (x >= 0x80)) by (bit_vector); } }
//@ loop 1
    invariant bytes@.len() > 0, bytes@.len() <= b0.len(), b0.len() > 0, b0[0] >= 0x80, bytes@[0] >= 0x80, forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 0x80)
    decreases bytes@.len()
//@ loop 2
    invariant bytes@.len() > 0, bytes@.len() <= b0.len(), be_val(bytes@) == be_val(b0), bytes@[0] < 0x80, forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 0x80), forall|x: u8| #[trigger] (x & 0x80) == 0x80 || (x & 0x80) == 0
    decreases bytes@.len()
//@ lbegin 2
    proof { lemma_be_trim(bytes@, 1); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Integer<'a> :: new_positive
//@ ret r
//@ spec
    requires old(buffer)@.len() > value@.len(), value@.len() < 0xffff_ffff
    ensures twos_wf(r), r.nonneg(), be_val(r.b()) == be_val(value@), r.b().len() <= value@.len() + 1
//@ sub !value\.is_empty\(\) => value.len() != 0
//@ sub value\.is_empty\(\) => value.len() == 0
//@ sub buffer\[1\.\.value\.len\(\) \+ 1\]\.copy_from_slice\(value\); => v_copy_at(buffer, 1, value);
//@ begin
    let ghost v0 = value@;
    proof { assert forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 0x80) by { assert((x & 0x80 == 0x80) == (x >= 0x80)) by (bit_vector); } }
//@ loop 1
    invariant value@.len() <= v0.len(), be_val(value@) == be_val(v0)
    decreases value@.len()
//@ lbegin 1
    proof { lemma_be_trim(value@, 1); }
//@ tail
    proof {
        let b = buffer@.take(buf_len as int);
        if value@.len() == 0 { lemma_be_zeros(b); } else if value@[0] >= 0x80 { lemma_be_trim(b, 1); assert(b.skip(1) =~= value@); } else { assert(b =~= value@); }
    }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Integer<'a> :: is_negative
//@ ret r
//@ spec
    requires self.b().len() > 0
    ensures r == !self.nonneg()
//@ sub self\.twos_complement\s*\.first\(\)\s*\.map\(\|b\| b & 0x80 == 0x80\)\s*\.unwrap_or_default\(\) => (match v_first(self.twos_complement) { Some(b) => { assert((b & 0x80 == 0x80) == (b >= 0x80)) by (bit_vector); b & 0x80 == 0x80 }, None => false })
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Integer<'a> :: as_usize
//@ ret r
//@ spec
    requires self.b().len() > 0
    ensures r.is_ok() == (self.nonneg() && self.b().len() <= 8), r.is_ok() ==> r.unwrap() == be_val(self.b())
//@ sub size_of::<usize>\(\) => 8
//@ sub bytes\[8 - self\.twos_complement\.len\(\)\.\.\]\.copy_from_slice\(self\.twos_complement\); => v_copy_at(&mut bytes, 8 - self.twos_complement.len(), self.twos_complement);
//@ sub usize::from_be_bytes => v_usize_from_be_bytes
//@ tail
    proof { let k = 8 - self.b().len(); lemma_be_trim(bytes@, k as int); assert(bytes@.skip(k as int) =~= self.b()); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Integer<'a> :: minimum_magnitude_check
//@ ret r
//@ spec
    requires twos_complement@.len() <= 0xffff_ffff
    ensures r.is_ok() == min_int(twos_complement@), r.is_ok() ==> r.unwrap().b() == twos_complement@
//@ sub twos_complement\.is_empty\(\) => twos_complement.len() == 0
//@ sub twos_complement\.get\(\.\.2\) => v_get_to(twos_complement, 2)
//@ begin
    proof { assert forall|x: u8| #[trigger] (x & 0x80) == 0x80 || (x & 0x80) == 0 by { assert((x & 0x80) == 0x80 || (x & 0x80) == 0) by (bit_vector); } assert forall|x: u8| (#[trigger] (x & 0x80) == 0x80) == (x >= 0x80) by { assert((x & 0x80 == 0x80) == (x >= 0x80)) by (bit_vector); } }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> AsRef<[u8]> for Integer<'a> :: as_ref
//@ ret r
//@ spec
    ensures r@ == self.b()
//@end
}
#[verifier::external_body] pub fn v_zero_slice() -> (r: &'static [u8]) ensures r@ == seq![0u8] { static Z: [u8; 1] = [0]; &Z }
#[verifier::external_body] pub fn v_all_zero(s: &[u8]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < s@.len() ==> s@[i] == 0) { s.iter().all(|b| *b == 0) }
#[verifier::external_body] pub fn v_usize_from_be_bytes(b: [u8; 8]) -> (r: usize) ensures r as nat == be_val(b@) { usize::from_be_bytes(b) }
#[verifier::external_body] pub fn v_copy_at(d: &mut [u8], at: usize, s: &[u8]) requires at + s@.len() <= old(d)@.len()
    ensures final(d)@ == old(d)@.take(at as int) + s@ + old(d)@.skip(at + s@.len()), final(d)@.len() == old(d)@.len() { d[at..at + s.len()].copy_from_slice(s) }
impl<'a> Type<'a> for Integer<'a> {
    open spec fn tag() -> u8 { 0x02 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.b()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && min_int(body_of(s, tag)) { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { twos_wf(*self) }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, self.b(), more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Integer<'a> :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Integer<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(p).input@, tag.0); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Integer<'a> :: encode_with_tag
//@ vis none
//@ tail
    proof { assert(self.b() + body.out@ =~= self.b()); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Integer<'a> :: encoded_len
//@ vis none
//@end
}

//@item graviola/src/high/asn1.rs :: struct OctetString
//@end
impl<'a> OctetString<'a> {
//@fn graviola/src/high/asn1.rs :: impl<'a> OctetString<'a> :: new
//@ ret r
//@ spec
    ensures r.octets@ == octets@
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> OctetString<'a> :: as_octets
//@ ret r
//@ spec
    ensures r@ == self.octets@
//@end
}
impl<'a> Type<'a> for OctetString<'a> {
    open spec fn tag() -> u8 { 0x04 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.octets@) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { self.octets@.len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, self.octets@, more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for OctetString<'a> :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for OctetString<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(p).input@, tag.0); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for OctetString<'a> :: encode_with_tag
//@ vis none
//@ tail
    proof { assert(self.octets@ + body.out@ =~= self.octets@); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for OctetString<'a> :: encoded_len
//@ vis none
//@end
}

//@item graviola/src/high/asn1.rs :: struct BitString
//@end
impl<'a> BitString<'a> {
//@fn graviola/src/high/asn1.rs :: impl<'a> BitString<'a> :: new
//@ ret r
//@ spec
    ensures r.octets@ == octets@
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> BitString<'a> :: as_octets
//@ ret r
//@ spec
    ensures r@ == self.octets@
//@end
}
impl<'a> Type<'a> for BitString<'a> {
    open spec fn tag() -> u8 { 0x03 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, seq![0u8] + self.octets@) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && body_of(s, tag).len() > 0 && body_of(s, tag)[0] == 0 { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { self.octets@.len() < 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, seq![0u8] + self.octets@, more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for BitString<'a> :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for BitString<'a> :: parse_with_tag
//@ vis none
//@ sub match octets\.split_first\(\) => match v_split_first(octets)
//@ sub Some\(\(&0, rest\)\) => Some((b, rest)) if *b == 0
//@ begin
    proof { lemma_hdr(old(p).input@, tag.0); }
//@ tail
    proof { assert(seq![0u8] + octets@ =~= body_of(old(p).input@, tag.0)); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for BitString<'a> :: encode_with_tag
//@ vis none
//@ tail
    proof { assert(seq![0u8] + (self.octets@ + body.out@) =~= seq![0u8] + self.octets@); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for BitString<'a> :: encoded_len
//@ vis none
//@end
}

//@item graviola/src/high/asn1.rs :: enum Any
//@end
impl<'a> Type<'a> for Any<'a> {
    open spec fn tag() -> u8 { 0x00 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> {
        match self { Any::Null(x) => x.enc(0x05), Any::Integer(x) => x.enc(0x02), Any::OctetString(x) => x.enc(0x04), Any::BitString(x) => x.enc(0x03), Any::ObjectId(x) => x.enc(0x06) }
    }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if s.len() == 0 { None } else if s[0] == 0x05 { Null::rest(s, 0x05) } else if s[0] == 0x02 { Integer::rest(s, 0x02) } else if s[0] == 0x04 { OctetString::rest(s, 0x04) }
        else if s[0] == 0x03 { BitString::rest(s, 0x03) } else if s[0] == 0x06 { ObjectId::rest(s, 0x06) } else { None }
    }
    open spec fn wf(&self) -> bool { match self { Any::Null(x) => x.wf(), Any::Integer(x) => x.wf(), Any::OctetString(x) => x.wf(), Any::BitString(x) => x.wf(), Any::ObjectId(x) => x.wf() } }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { match self { Any::Null(x) => x.law_rt(5, more), Any::Integer(x) => x.law_rt(2, more), Any::OctetString(x) => x.law_rt(4, more), Any::BitString(x) => x.law_rt(3, more), Any::ObjectId(x) => x.law_rt(6, more) } }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Any<'a> :: TAG
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Any<'a> :: parse_with_tag
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Any<'a> :: encode_with_tag
//@ vis none
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a> Type<'a> for Any<'a> :: encoded_len
//@ vis none
//@end
}

impl<'a, T: Type<'a>> Type<'a> for Option<T> {
    open spec fn tag() -> u8 { T::tag() }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { match self { None => Seq::empty(), Some(x) => x.enc(tag) } }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if s.len() == 0 { Some(s) } else { T::rest(s, tag) } }
    open spec fn wf(&self) -> bool { match self { None => true, Some(x) => x.wf() } }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { match self { None => more.len() == 0, Some(x) => x.fol(tag, more) && x.enc(tag).len() > 0 } }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { match self { None => { assert(Seq::<u8>::empty() + more =~= more); }, Some(x) => { x.law_rt(tag, more); } } }
    proof fn law_len(&self, a: u8, b: u8) { match self { None => {}, Some(x) => { x.law_len(a, b); } } }
//@constfn graviola/src/high/asn1.rs :: impl<'a, T: Type<'a>> Type<'a> for Option<T> :: TAG
//@ vis none
//@ sub T::TAG => T::v_TAG()
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, T: Type<'a>> Type<'a> for Option<T> :: parse_with_tag
//@ vis none
//@ sub T::parse_with_tag\(p, tag\)\.map\(Some\) => (match T::parse_with_tag(p, tag) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) })
//@ begin
    proof { assert(Seq::<u8>::empty() + old(p).input@ =~= old(p).input@); }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, T: Type<'a>> Type<'a> for Option<T> :: encode_with_tag
//@ vis none
//@ begin
    proof { assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, T: Type<'a>> Type<'a> for Option<T> :: encoded_len
//@ vis none
//@end
}

//@item graviola/src/high/asn1.rs :: struct Context
//@ sub PhantomData => pub core::marker::PhantomData
//@ sub \(\s*Option => (pub Option
//@ vis none
//@end
pub open spec fn ctx_tag(id: u8, cons: bool) -> u8 { (0x80u8 | (if cons { 0x20u8 } else { 0u8 })) | id }
pub proof fn lemma_ctx(id: u8) ensures is_cons(ctx_tag(id, true)), forall|c: bool| #[trigger] is_cons(ctx_tag(id, c)) || !c
{ assert((((0x80u8 | 0x20u8) | id) / 32) % 2 == 1) by (bit_vector); assert forall|c: bool| #[trigger] is_cons(ctx_tag(id, c)) || !c by { if c { assert(c == true); } } }
impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Context<'a, ID, EXPLICIT, T> {
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Context<'a, ID, EXPLICIT, T> :: absent
//@ sub PhantomData => core::marker::PhantomData
//@ ret r
//@ spec
    ensures r.0.is_none()
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Context<'a, ID, EXPLICIT, T> :: inner
//@ ret r
//@ spec
    ensures *r == self.0
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const CONSTRUCTED: bool, T: Type<'a>> From<T> for Context<'a, ID, CONSTRUCTED, T> :: from
//@ sub PhantomData => core::marker::PhantomData
//@ ret r
//@ spec
    ensures r.0 == Some(t)
//@end
}
impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Type<'a> for Context<'a, ID, EXPLICIT, T> {
    open spec fn tag() -> u8 { ctx_tag(ID, EXPLICIT || is_cons(T::tag())) }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { match self.0 { None => Seq::empty(), Some(x) => if EXPLICIT || is_cons(tag) { tlv(tag, x.enc(T::tag())) } else { x.enc(tag) } } }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if s.len() == 0 || s[0] != tag { Some(s) }
        else if EXPLICIT || is_cons(tag) { if hdr(s, tag).is_some() && T::rest(body_of(s, tag), T::tag()) == Some(Seq::<u8>::empty()) { Some(after(s, tag)) } else { None } }
        else { T::rest(s, tag) }
    }
    open spec fn wf(&self) -> bool { match self.0 { None => true, Some(x) => x.wf() && (EXPLICIT || is_cons(Self::tag()) ==> x.enc(T::tag()).len() <= 0xffff_ffff) } }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool {
        match self.0 { None => more.len() == 0 || more[0] != tag, Some(x) => if EXPLICIT || is_cons(tag) { x.fol(T::tag(), Seq::empty()) } else { x.fol(tag, more) && x.enc(tag).len() > 0 && x.enc(tag)[0] == tag } }
    }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        match self.0 { None => { assert(Seq::<u8>::empty() + more =~= more); },
            Some(x) => { if EXPLICIT || is_cons(tag) { lemma_tlv_hdr(tag, x.enc(T::tag()), more); x.law_rt(T::tag(), Seq::empty()); assert(x.enc(T::tag()) + Seq::<u8>::empty() =~= x.enc(T::tag())); } else { x.law_rt(tag, more); } } }
    }
    proof fn law_len(&self, a: u8, b: u8) { match self.0 { None => {}, Some(x) => { if !(EXPLICIT || is_cons(a)) { x.law_len(a, b); } } } }
//@constfn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Type<'a> for Context<'a, ID, EXPLICIT, T> :: TAG
//@ vis none
//@ sub T::TAG => T::v_TAG()
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Type<'a> for Context<'a, ID, EXPLICIT, T> :: parse_with_tag
//@ sub PhantomData => core::marker::PhantomData
//@ sub match p\.peek_tag\(\) \{\s*Ok\(tt\) if tag\.acceptable\(tt\.0\) =. \{\}\s*_ =. return Ok\(Self\(None, core::marker::PhantomData\)\),\s*\}; => let vacc = match p.peek_tag() { Ok(tt) => tag.acceptable(tt.0), _ => false }; if !vacc { return Ok(Self(None, core::marker::PhantomData)); }
//@ vis none
//@ begin
    proof { lemma_ctx(ID); lemma_hdr(old(p).input@, tag.0); assert(Seq::<u8>::empty() + old(p).input@ =~= old(p).input@); }
//@ before return Ok
    proof { assert(old(p).input@.len() == 0 || old(p).input@[0] != tag.0); assert(p.input@ == old(p).input@); assert(Self::rest(old(p).input@, tag.0) == Some(old(p).input@)); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(sub.input@ =~= Seq::empty()); assert(t.enc(T::tag()) + sub.input@ =~= t.enc(T::tag())); } }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Type<'a> for Context<'a, ID, EXPLICIT, T> :: encode_with_tag
//@ vis none
//@ begin
    proof { lemma_ctx(ID); assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
//@ before #1 item\.encode\(&mut body
    proof { assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (item.enc(T::tag()) + x) == item.enc(T::tag()) by { if x.len() == 0 { assert(item.enc(T::tag()) + x =~= item.enc(T::tag())); } } }
//@end
//@fn graviola/src/high/asn1.rs :: impl<'a, const ID: u8, const EXPLICIT: bool, T: Type<'a>> Type<'a> for Context<'a, ID, EXPLICIT, T> :: encoded_len
//@ sub Self::TAG => Self::v_TAG()
//@ vis none
//@ begin
    proof { lemma_ctx(ID); match &self.0 { Some(x) => { if !(EXPLICIT || is_cons(Self::tag())) { x.law_len(T::tag(), Self::tag()); } }, None => {} } }
//@end
}
}
