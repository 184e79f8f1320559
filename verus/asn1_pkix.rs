// Generated text (one impl per asn1_struct!/asn1_enum! of pkix.rs); the functions are rustc's expansion of the macros.
verus! {
pub proof fn lemma_small(b: Seq<u8>, v: nat) requires min_int(b), b[0] < 0x80, be_val(b) == v, v < 0x80 ensures b == seq![v as u8]
{
    if b.len() >= 2 {
        lemma_be_append(b.take(1), b.skip(1)); assert(b =~= b.take(1) + b.skip(1));
        assert(b.take(1).drop_last() =~= Seq::empty()); assert(be_val(b.take(1)) == b[0]) by { reveal_with_fuel(be_val, 2); }
        if b[0] != 0 { lemma_p256_mono(1, b.skip(1).len()); reveal_with_fuel(p256, 2); assert(b[0] * p256(b.skip(1).len()) >= 256) by (nonlinear_arith) requires b[0] >= 1, p256(b.skip(1).len()) >= 256; }
        else {
            let c = b.skip(1); lemma_be_append(c.take(1), c.skip(1)); assert(c =~= c.take(1) + c.skip(1)); assert(c.take(1).drop_last() =~= Seq::empty()); assert(be_val(c.take(1)) == c[0]) by { reveal_with_fuel(be_val, 2); }
            lemma_p256_pos(c.skip(1).len()); assert(c[0] * p256(c.skip(1).len()) >= 0x80) by (nonlinear_arith) requires c[0] >= 0x80, p256(c.skip(1).len()) >= 1;
            assert(b[0] * p256(b.skip(1).len()) == 0) by (nonlinear_arith) requires b[0] == 0;
        }
    } else { assert(b.drop_last() =~= Seq::empty()); assert(be_val(b) == b[0]) by { reveal_with_fuel(be_val, 2); } assert(b =~= seq![v as u8]); }
}
pub proof fn lemma_small_back(v: u8) requires v < 0x80 ensures be_val(seq![v]) == v, min_int(seq![v])
{ assert(seq![v].drop_last() =~= Seq::empty()); reveal_with_fuel(be_val, 2); }

//@item @expanded:graviola/high/asn1/pkix :: enum Version
//@ attr #[derive(Clone, Copy)]
//@end
impl Version { pub open spec fn num(self) -> u8 { match self { Version::two_prime => 0, Version::multi => 1 } } }
impl Type<'_> for Version {
    open spec fn tag() -> u8 { 0x02 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, seq![self.num()]) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && (body_of(s, tag) == seq![0u8] || body_of(s, tag) == seq![1u8]) { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { true }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, seq![self.num()], more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Version :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Version :: parse_with_tag
//@ vis none
//@ sub match Integer::parse_with_tag\(p,\s*tag\)\.and_then\(\|i\| i\.as_usize\(\)\)\? => let vi = Integer::parse_with_tag(p, tag)?; proof { if vi.nonneg() && be_val(vi.b()) < 0x80 { lemma_small(vi.b(), be_val(vi.b())); } assert(tlv(tag.0, vi.b()) + p.input@ == old(p).input@); assert(vi.b() == body_of(old(p).input@, tag.0)) by { lemma_tlv_hdr(tag.0, vi.b(), p.input@); } } match vi.as_usize()?
//@ begin
    proof { lemma_small_back(0); lemma_small_back(1); lemma_hdr(old(p).input@, tag.0); }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Version :: encode_with_tag
//@ vis none
//@ sub Integer::new\(&bytes\)\.encode_with_tag => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encode_with_tag
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Version :: encoded_len
//@ vis none
//@ sub Integer::new\(&bytes\)\.encoded_len => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encoded_len
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: enum Pkcs8Version
//@ attr #[derive(Clone, Copy)]
//@end
impl Pkcs8Version { pub open spec fn num(self) -> u8 { match self { Pkcs8Version::Pkcs8v1 => 0, Pkcs8Version::Pkcs8v2 => 1 } } }
impl Type<'_> for Pkcs8Version {
    open spec fn tag() -> u8 { 0x02 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, seq![self.num()]) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && (body_of(s, tag) == seq![0u8] || body_of(s, tag) == seq![1u8]) { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { true }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, seq![self.num()], more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Pkcs8Version :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Pkcs8Version :: parse_with_tag
//@ vis none
//@ sub match Integer::parse_with_tag\(p,\s*tag\)\.and_then\(\|i\| i\.as_usize\(\)\)\? => let vi = Integer::parse_with_tag(p, tag)?; proof { if vi.nonneg() && be_val(vi.b()) < 0x80 { lemma_small(vi.b(), be_val(vi.b())); } assert(tlv(tag.0, vi.b()) + p.input@ == old(p).input@); assert(vi.b() == body_of(old(p).input@, tag.0)) by { lemma_tlv_hdr(tag.0, vi.b(), p.input@); } } match vi.as_usize()?
//@ begin
    proof { lemma_small_back(0); lemma_small_back(1); lemma_hdr(old(p).input@, tag.0); }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Pkcs8Version :: encode_with_tag
//@ vis none
//@ sub Integer::new\(&bytes\)\.encode_with_tag => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encode_with_tag
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for Pkcs8Version :: encoded_len
//@ vis none
//@ sub Integer::new\(&bytes\)\.encoded_len => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encoded_len
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: enum EcPrivateKeyVer
//@ attr #[derive(Clone, Copy)]
//@end
impl EcPrivateKeyVer { pub open spec fn num(self) -> u8 { match self { EcPrivateKeyVer::ecPrivkeyVer1 => 1 } } }
impl Type<'_> for EcPrivateKeyVer {
    open spec fn tag() -> u8 { 0x02 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, seq![self.num()]) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> { if hdr(s, tag).is_some() && (body_of(s, tag) == seq![1u8]) { Some(after(s, tag)) } else { None } }
    open spec fn wf(&self) -> bool { true }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { true }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) { lemma_tlv_hdr(tag, seq![self.num()], more); }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for EcPrivateKeyVer :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for EcPrivateKeyVer :: parse_with_tag
//@ vis none
//@ sub match Integer::parse_with_tag\(p,\s*tag\)\.and_then\(\|i\| i\.as_usize\(\)\)\? => let vi = Integer::parse_with_tag(p, tag)?; proof { if vi.nonneg() && be_val(vi.b()) < 0x80 { lemma_small(vi.b(), be_val(vi.b())); } assert(tlv(tag.0, vi.b()) + p.input@ == old(p).input@); assert(vi.b() == body_of(old(p).input@, tag.0)) by { lemma_tlv_hdr(tag.0, vi.b(), p.input@); } } match vi.as_usize()?
//@ begin
    proof { lemma_small_back(1); lemma_hdr(old(p).input@, tag.0); }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for EcPrivateKeyVer :: encode_with_tag
//@ vis none
//@ sub Integer::new\(&bytes\)\.encode_with_tag => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encode_with_tag
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl Type<'_> for EcPrivateKeyVer :: encoded_len
//@ vis none
//@ sub Integer::new\(&bytes\)\.encoded_len => let vi = Integer::new(&bytes); proof { lemma_be8(value); lemma_small(vi.b(), value as nat); } vi.encoded_len
//@end
}
pub proof fn lemma_be8(v: usize) requires v < 0x80 ensures be_val(be(v as nat, 8)) == v, be(v as nat, 8).len() == 8, be(v as nat, 8)[0] == 0
{ lemma_be_of(v as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(v as nat, p256(8)); reveal_with_fuel(be, 9); }

//@item @expanded:graviola/high/asn1/pkix :: struct RSAPublicKey
impl<'a> RSAPublicKey<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.modulus.enc(Integer::tag()) + (self.publicExponent.enc(Integer::tag())) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> RSAPublicKey<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for RSAPublicKey<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match Integer::rest(b, Integer::tag()) { None => None, Some(s0) => match Integer::rest(s0, Integer::tag()) { None => None, Some(s1) => if s1.len() == 0 { Some(after(s, tag)) } else { None } } } }
    }
    open spec fn wf(&self) -> bool { self.modulus.wf() && self.publicExponent.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.modulus.fol(Integer::tag(), self.publicExponent.enc(Integer::tag())) && self.publicExponent.fol(Integer::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.publicExponent.enc(Integer::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.modulus.law_rt(Integer::tag(), self.publicExponent.enc(Integer::tag())); self.publicExponent.law_rt(Integer::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPublicKey<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPublicKey<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.publicExponent.enc(Integer::tag()) + sub.input@ =~= r.publicExponent.enc(Integer::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPublicKey<'a> :: encode_with_tag
//@ vis none
//@ before self\.modulus\.encode
    proof { let l = self.publicExponent.enc(Integer::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPublicKey<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct RSAPrivateKey
impl<'a> RSAPrivateKey<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.version.enc(Version::tag()) + (self.modulus.enc(Integer::tag()) + (self.publicExponent.enc(Integer::tag()) + (self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))))))) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> RSAPrivateKey<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for RSAPrivateKey<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match Version::rest(b, Version::tag()) { None => None, Some(s0) => match Integer::rest(s0, Integer::tag()) { None => None, Some(s1) => match Integer::rest(s1, Integer::tag()) { None => None, Some(s2) => match Integer::rest(s2, Integer::tag()) { None => None, Some(s3) => match Integer::rest(s3, Integer::tag()) { None => None, Some(s4) => match Integer::rest(s4, Integer::tag()) { None => None, Some(s5) => match Integer::rest(s5, Integer::tag()) { None => None, Some(s6) => match Integer::rest(s6, Integer::tag()) { None => None, Some(s7) => match Integer::rest(s7, Integer::tag()) { None => None, Some(s8) => if s8.len() == 0 { Some(after(s, tag)) } else { None } } } } } } } } } } }
    }
    open spec fn wf(&self) -> bool { self.version.wf() && self.modulus.wf() && self.publicExponent.wf() && self.privateExponent.wf() && self.prime1.wf() && self.prime2.wf() && self.exponent1.wf() && self.exponent2.wf() && self.coefficient.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.version.fol(Version::tag(), self.modulus.enc(Integer::tag()) + (self.publicExponent.enc(Integer::tag()) + (self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))))))) && self.modulus.fol(Integer::tag(), self.publicExponent.enc(Integer::tag()) + (self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))))))) && self.publicExponent.fol(Integer::tag(), self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))))) && self.privateExponent.fol(Integer::tag(), self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))))) && self.prime1.fol(Integer::tag(), self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))) && self.prime2.fol(Integer::tag(), self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))) && self.exponent1.fol(Integer::tag(), self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))) && self.exponent2.fol(Integer::tag(), self.coefficient.enc(Integer::tag())) && self.coefficient.fol(Integer::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.coefficient.enc(Integer::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.version.law_rt(Version::tag(), self.modulus.enc(Integer::tag()) + (self.publicExponent.enc(Integer::tag()) + (self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))))))); self.modulus.law_rt(Integer::tag(), self.publicExponent.enc(Integer::tag()) + (self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))))))); self.publicExponent.law_rt(Integer::tag(), self.privateExponent.enc(Integer::tag()) + (self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))))); self.privateExponent.law_rt(Integer::tag(), self.prime1.enc(Integer::tag()) + (self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))))); self.prime1.law_rt(Integer::tag(), self.prime2.enc(Integer::tag()) + (self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))))); self.prime2.law_rt(Integer::tag(), self.exponent1.enc(Integer::tag()) + (self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag())))); self.exponent1.law_rt(Integer::tag(), self.exponent2.enc(Integer::tag()) + (self.coefficient.enc(Integer::tag()))); self.exponent2.law_rt(Integer::tag(), self.coefficient.enc(Integer::tag())); self.coefficient.law_rt(Integer::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPrivateKey<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPrivateKey<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.coefficient.enc(Integer::tag()) + sub.input@ =~= r.coefficient.enc(Integer::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPrivateKey<'a> :: encode_with_tag
//@ vis none
//@ before self\.version\.encode
    proof { let l = self.coefficient.enc(Integer::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for RSAPrivateKey<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct AlgorithmIdentifier
impl<'a> AlgorithmIdentifier<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.algorithm.enc(ObjectId::tag()) + (self.parameters.enc(Option::<Any<'a>>::tag())) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> AlgorithmIdentifier<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for AlgorithmIdentifier<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match ObjectId::rest(b, ObjectId::tag()) { None => None, Some(s0) => match Option::<Any<'a>>::rest(s0, Option::<Any<'a>>::tag()) { None => None, Some(s1) => if s1.len() == 0 { Some(after(s, tag)) } else { None } } } }
    }
    open spec fn wf(&self) -> bool { self.algorithm.wf() && self.parameters.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.algorithm.fol(ObjectId::tag(), self.parameters.enc(Option::<Any<'a>>::tag())) && self.parameters.fol(Option::<Any<'a>>::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.parameters.enc(Option::<Any<'a>>::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.algorithm.law_rt(ObjectId::tag(), self.parameters.enc(Option::<Any<'a>>::tag())); self.parameters.law_rt(Option::<Any<'a>>::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for AlgorithmIdentifier<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for AlgorithmIdentifier<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.parameters.enc(Option::<Any<'a>>::tag()) + sub.input@ =~= r.parameters.enc(Option::<Any<'a>>::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for AlgorithmIdentifier<'a> :: encode_with_tag
//@ vis none
//@ before self\.algorithm\.encode
    proof { let l = self.parameters.enc(Option::<Any<'a>>::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for AlgorithmIdentifier<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct OneAsymmetricKey
impl<'a> OneAsymmetricKey<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.version.enc(Pkcs8Version::tag()) + (self.privateKeyAlgorithm.enc(AlgorithmIdentifier::tag()) + (self.privateKey.enc(OctetString::tag()) + (self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())))) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> OneAsymmetricKey<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for OneAsymmetricKey<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match Pkcs8Version::rest(b, Pkcs8Version::tag()) { None => None, Some(s0) => match AlgorithmIdentifier::rest(s0, AlgorithmIdentifier::tag()) { None => None, Some(s1) => match OctetString::rest(s1, OctetString::tag()) { None => None, Some(s2) => match Context::<'a, 1, false, BitString<'a>>::rest(s2, Context::<'a, 1, false, BitString<'a>>::tag()) { None => None, Some(s3) => if s3.len() == 0 { Some(after(s, tag)) } else { None } } } } } }
    }
    open spec fn wf(&self) -> bool { self.version.wf() && self.privateKeyAlgorithm.wf() && self.privateKey.wf() && self.publicKey.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.version.fol(Pkcs8Version::tag(), self.privateKeyAlgorithm.enc(AlgorithmIdentifier::tag()) + (self.privateKey.enc(OctetString::tag()) + (self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())))) && self.privateKeyAlgorithm.fol(AlgorithmIdentifier::tag(), self.privateKey.enc(OctetString::tag()) + (self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag()))) && self.privateKey.fol(OctetString::tag(), self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())) && self.publicKey.fol(Context::<'a, 1, false, BitString<'a>>::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.version.law_rt(Pkcs8Version::tag(), self.privateKeyAlgorithm.enc(AlgorithmIdentifier::tag()) + (self.privateKey.enc(OctetString::tag()) + (self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())))); self.privateKeyAlgorithm.law_rt(AlgorithmIdentifier::tag(), self.privateKey.enc(OctetString::tag()) + (self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag()))); self.privateKey.law_rt(OctetString::tag(), self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())); self.publicKey.law_rt(Context::<'a, 1, false, BitString<'a>>::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for OneAsymmetricKey<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for OneAsymmetricKey<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag()) + sub.input@ =~= r.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for OneAsymmetricKey<'a> :: encode_with_tag
//@ vis none
//@ before self\.version\.encode
    proof { let l = self.publicKey.enc(Context::<'a, 1, false, BitString<'a>>::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for OneAsymmetricKey<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct EcPrivateKey
impl<'a> EcPrivateKey<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.version.enc(EcPrivateKeyVer::tag()) + (self.privateKey.enc(OctetString::tag()) + (self.parameters.enc(Context::<'a, 0, true, ObjectId>::tag()) + (self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())))) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> EcPrivateKey<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for EcPrivateKey<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match EcPrivateKeyVer::rest(b, EcPrivateKeyVer::tag()) { None => None, Some(s0) => match OctetString::rest(s0, OctetString::tag()) { None => None, Some(s1) => match Context::<'a, 0, true, ObjectId>::rest(s1, Context::<'a, 0, true, ObjectId>::tag()) { None => None, Some(s2) => match Context::<'a, 1, true, BitString<'a>>::rest(s2, Context::<'a, 1, true, BitString<'a>>::tag()) { None => None, Some(s3) => if s3.len() == 0 { Some(after(s, tag)) } else { None } } } } } }
    }
    open spec fn wf(&self) -> bool { self.version.wf() && self.privateKey.wf() && self.parameters.wf() && self.publicKey.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.version.fol(EcPrivateKeyVer::tag(), self.privateKey.enc(OctetString::tag()) + (self.parameters.enc(Context::<'a, 0, true, ObjectId>::tag()) + (self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())))) && self.privateKey.fol(OctetString::tag(), self.parameters.enc(Context::<'a, 0, true, ObjectId>::tag()) + (self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag()))) && self.parameters.fol(Context::<'a, 0, true, ObjectId>::tag(), self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())) && self.publicKey.fol(Context::<'a, 1, true, BitString<'a>>::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.version.law_rt(EcPrivateKeyVer::tag(), self.privateKey.enc(OctetString::tag()) + (self.parameters.enc(Context::<'a, 0, true, ObjectId>::tag()) + (self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())))); self.privateKey.law_rt(OctetString::tag(), self.parameters.enc(Context::<'a, 0, true, ObjectId>::tag()) + (self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag()))); self.parameters.law_rt(Context::<'a, 0, true, ObjectId>::tag(), self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())); self.publicKey.law_rt(Context::<'a, 1, true, BitString<'a>>::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcPrivateKey<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcPrivateKey<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag()) + sub.input@ =~= r.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcPrivateKey<'a> :: encode_with_tag
//@ vis none
//@ before self\.version\.encode
    proof { let l = self.publicKey.enc(Context::<'a, 1, true, BitString<'a>>::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcPrivateKey<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct SubjectPublicKeyInfo
impl<'a> SubjectPublicKeyInfo<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.algorithm.enc(AlgorithmIdentifier::tag()) + (self.subjectPublicKey.enc(BitString::tag())) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> SubjectPublicKeyInfo<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for SubjectPublicKeyInfo<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match AlgorithmIdentifier::rest(b, AlgorithmIdentifier::tag()) { None => None, Some(s0) => match BitString::rest(s0, BitString::tag()) { None => None, Some(s1) => if s1.len() == 0 { Some(after(s, tag)) } else { None } } } }
    }
    open spec fn wf(&self) -> bool { self.algorithm.wf() && self.subjectPublicKey.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.algorithm.fol(AlgorithmIdentifier::tag(), self.subjectPublicKey.enc(BitString::tag())) && self.subjectPublicKey.fol(BitString::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.subjectPublicKey.enc(BitString::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.algorithm.law_rt(AlgorithmIdentifier::tag(), self.subjectPublicKey.enc(BitString::tag())); self.subjectPublicKey.law_rt(BitString::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for SubjectPublicKeyInfo<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for SubjectPublicKeyInfo<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.subjectPublicKey.enc(BitString::tag()) + sub.input@ =~= r.subjectPublicKey.enc(BitString::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for SubjectPublicKeyInfo<'a> :: encode_with_tag
//@ vis none
//@ before self\.algorithm\.encode
    proof { let l = self.subjectPublicKey.enc(BitString::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for SubjectPublicKeyInfo<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct DigestInfo
impl<'a> DigestInfo<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.digestAlgorithm.enc(AlgorithmIdentifier::tag()) + (self.digest.enc(OctetString::tag())) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> DigestInfo<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for DigestInfo<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match AlgorithmIdentifier::rest(b, AlgorithmIdentifier::tag()) { None => None, Some(s0) => match OctetString::rest(s0, OctetString::tag()) { None => None, Some(s1) => if s1.len() == 0 { Some(after(s, tag)) } else { None } } } }
    }
    open spec fn wf(&self) -> bool { self.digestAlgorithm.wf() && self.digest.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.digestAlgorithm.fol(AlgorithmIdentifier::tag(), self.digest.enc(OctetString::tag())) && self.digest.fol(OctetString::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.digest.enc(OctetString::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.digestAlgorithm.law_rt(AlgorithmIdentifier::tag(), self.digest.enc(OctetString::tag())); self.digest.law_rt(OctetString::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for DigestInfo<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for DigestInfo<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.digest.enc(OctetString::tag()) + sub.input@ =~= r.digest.enc(OctetString::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for DigestInfo<'a> :: encode_with_tag
//@ vis none
//@ before self\.digestAlgorithm\.encode
    proof { let l = self.digest.enc(OctetString::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for DigestInfo<'a> :: encoded_len
//@ vis none
//@end
}

//@item @expanded:graviola/high/asn1/pkix :: struct EcdsaSigValue
impl<'a> EcdsaSigValue<'a> {
    pub open spec fn body(&self) -> Seq<u8> { self.r.enc(Integer::tag()) + (self.s.enc(Integer::tag())) }
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> EcdsaSigValue<'a> :: body_len
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.body().len(), r <= 0xffff_ffff
//@ sub let mut result = 0; => let mut result: usize = 0;
//@end
}
impl<'a> Type<'a> for EcdsaSigValue<'a> {
    open spec fn tag() -> u8 { 0x30 }
    open spec fn enc(&self, tag: u8) -> Seq<u8> { tlv(tag, self.body()) }
    open spec fn rest(s: Seq<u8>, tag: u8) -> Option<Seq<u8>> {
        if hdr(s, tag).is_none() { None } else { let b = body_of(s, tag);
        match Integer::rest(b, Integer::tag()) { None => None, Some(s0) => match Integer::rest(s0, Integer::tag()) { None => None, Some(s1) => if s1.len() == 0 { Some(after(s, tag)) } else { None } } } }
    }
    open spec fn wf(&self) -> bool { self.r.wf() && self.s.wf() && self.body().len() <= 0xffff_ffff }
    open spec fn fol(&self, tag: u8, more: Seq<u8>) -> bool { self.r.fol(Integer::tag(), self.s.enc(Integer::tag())) && self.s.fol(Integer::tag(), Seq::<u8>::empty()) }
    proof fn law_rt(&self, tag: u8, more: Seq<u8>) {
        lemma_tlv_hdr(tag, self.body(), more); let l = self.s.enc(Integer::tag()); assert(l + Seq::<u8>::empty() =~= l);
        self.r.law_rt(Integer::tag(), self.s.enc(Integer::tag())); self.s.law_rt(Integer::tag(), Seq::<u8>::empty());
    }
    proof fn law_len(&self, a: u8, b: u8) {}
//@constfn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcdsaSigValue<'a> :: TAG
//@ vis none
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcdsaSigValue<'a> :: parse_with_tag
//@ vis none
//@ begin
    proof { lemma_hdr(old(parser).input@, tag.0); }
//@ before sub\.check_end
    proof { if sub.input@.len() == 0 { assert(r.s.enc(Integer::tag()) + sub.input@ =~= r.s.enc(Integer::tag())); assert(r.body() == body_of(old(parser).input@, tag.0)); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcdsaSigValue<'a> :: encode_with_tag
//@ vis none
//@ before self\.r\.encode
    proof { let l = self.s.enc(Integer::tag()); assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] (l + x) == l by { assert(l + x =~= l); } }
//@end
//@fn @expanded:graviola/high/asn1/pkix :: impl<'a> Type<'a> for EcdsaSigValue<'a> :: encoded_len
//@ vis none
//@end
}
}
