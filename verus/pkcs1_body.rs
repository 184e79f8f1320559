// C16 C17: RFC 8017 encodings
verus! {
pub open spec fn rep(n: nat, x: u8) -> Seq<u8> { Seq::new(n, |i: int| x) }
// EMSA-PKCS1-v1_5: 0x00 || 0x01 || PS || 0x00 || T
pub open spec fn pkcs1_em(di: Seq<u8>, h: Seq<u8>, n: nat) -> Seq<u8> { seq![0u8, 1u8] + rep((n - 3 - di.len() - h.len()) as nat, 0xff) + seq![0u8] + di + h }
//@fn graviola/src/high/pkcs1.rs :: - :: encode_pkcs1_sig
//@ spec
    requires old(out)@.len() >= digest_info@.len() + hash@.len() + 11, digest_info@.len() + hash@.len() + 11 <= usize::MAX
    ensures final(out)@ == pkcs1_em(digest_info@, hash@, old(out)@.len())
//@ sub assert!\(em_len >= t_len \+ 11\); => assert(em_len >= t_len + 11);
//@ sub (\w+)\.split_at_mut\( => v_split_at_mut(\1, 
//@ sub (\w+)\.split_first_mut\(\) => v_split_first_mut(\1)
//@ sub (\w+)\.split_last_mut\(\) => v_split_last_mut(\1)
//@ end
    proof { let e = pkcs1_em(digest_info@, hash@, em_len as nat); assert(out@ =~= e); }
//@end

// RFC 8017 B.2.1 MGF1
pub open spec fn mgf1<H: Hash>(seed: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| H::spec_hash(seed + be((i / (H::spec_out_len() as int)) as nat, 4))[i % (H::spec_out_len() as int)]) }
pub open spec fn xors(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn clear_top(a: Seq<u8>) -> Seq<u8> { a.update(0, a[0] & 0x7f) }
pub open spec fn pss_m(mh: Seq<u8>, salt: Seq<u8>) -> Seq<u8> { rep(8, 0) + mh + salt }
pub open spec fn pss_db(salt: Seq<u8>, n: nat) -> Seq<u8> { rep((n - 1 - salt.len()) as nat, 0) + seq![1u8] + salt }
// EMSA-PSS with sLen = hLen and emBits = 8 * emLen - 1 (9.1.1)
pub open spec fn pss_em<H: Hash>(mh: Seq<u8>, salt: Seq<u8>, n: nat) -> Seq<u8> {
    let h = H::spec_hash(pss_m(mh, salt)); let k = (n - H::spec_out_len() - 1) as nat;
    clear_top(xors(pss_db(salt, k), mgf1::<H>(h, k))) + h + seq![0xbcu8]
}
pub proof fn lemma_mask(a: u8, m: u8) ensures a & 0x80 == 0 ==> (((a ^ m) & 0x7f) ^ m) & 0x7f == a, a <= 1 ==> (((a ^ m) & 0x7f) ^ m) & 0x7f == a, (a ^ m) ^ m == a, ((a ^ m) & 0x7f) & 0x80 == 0
{ assert(a & 0x80 == 0 ==> (((a ^ m) & 0x7f) ^ m) & 0x7f == a) by (bit_vector); assert(a <= 1 ==> (((a ^ m) & 0x7f) ^ m) & 0x7f == a) by (bit_vector); assert((a ^ m) ^ m == a) by (bit_vector); assert(((a ^ m) & 0x7f) & 0x80 == 0) by (bit_vector); }
pub trait RandomSource { fn fill(&mut self, out: &mut [u8]) -> (r: Result<(), Error>) ensures final(out)@.len() == old(out)@.len(); }
//@fn graviola/src/high/pkcs1.rs :: - :: mgf1_xor
//@ spec
    requires h_len == H::spec_out_len(), old(out)@.len() <= 0x10_0000, seed@.len() <= 0x10_0000
    ensures final(out)@.len() == old(out)@.len(), final(out)@ == xors(old(out)@, mgf1::<H>(seed@, old(out)@.len()))
//@ sub for \(chunk, counter\) in out\.chunks_mut\(h_len\)\.zip\(0u32\.\.\) \{ => let mut counter: u32 = 0; for chunk in out.chunks_mut(h_len) {
//@ sub &counter\.v_to_be_bytes\(\) => &vc.v_to_be_bytes()
//@ sub let mut ctx => let vc = counter; counter = counter.wrapping_add(1); let mut ctx
//@ begin
    let ghost o = out@; let ghost n = out@.len() as int; let ghost hl = h_len as int;
    proof { H::lemma_sizes(seed@); }
//@ before let vlen1_0
    proof { lemma_div_up(n, hl); }
//@ loop 1
    invariant o.len() == n, n <= 0x10_0000, hl == h_len, hl == H::spec_out_len(), 0 < hl <= 64, vlen1_0 == n, vn1 == div_up(n, hl), out@.len() == n, counter == vi1,
        forall|i: int| 0 <= i < n ==> #[trigger] out@[i] == (if i < vi1 * hl { o[i] ^ mgf1::<H>(seed@, n as nat)[i] } else { o[i] })
//@ lbegin 1
    let ghost o1 = out@; let ghost c = vi1 as int;
    proof { lemma_chunk_up(c, hl, n); assert(vi1 < 0x10_0000) by { lemma_div_up(n, hl); } H::lemma_sizes(seed@ + be(c as nat, 4)); assert(Seq::<u8>::empty() + seed@ =~= seed@); }
//@ after let term
    proof { assert(term.bytes() == H::spec_hash(seed@ + be(c as nat, 4))); }
//@ before let vlen2_0
    let ghost ch = chunk@;
//@ loop 2
    invariant vlen2_0 == ch.len(), vn2 == ch.len(), chunk@.len() == ch.len(), forall|j: int| 0 <= j < ch.len() ==> #[trigger] chunk@[j] == (if j < vi2 { ch[j] ^ term.bytes()[j] } else { ch[j] })
//@ lend 1
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] out@[i] == (if i < (c + 1) * hl { o[i] ^ mgf1::<H>(seed@, n as nat)[i] } else { o[i] }) by {
            assert((c + 1) * hl == c * hl + hl) by (nonlinear_arith);
            if c * hl <= i < (c + 1) * hl { lemma_fundamental_div_mod_converse(i, hl, c, i - c * hl); assert(ch[i - c * hl] == o1[i]); }
        }
    }
//@ end
    proof { assert(out@ =~= xors(o, mgf1::<H>(seed@, n as nat))) by { lemma_div_up(n, hl); } }
//@end

pub fn v_any_nonzero(s: &[u8]) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && s@[i] != 0
{ for i in 0..s.len() invariant forall|j: int| 0 <= j < i ==> s@[j] == 0 { if s[i] != 0 { return true; } } false }
//@fn graviola/src/high/pkcs1.rs :: - :: encode_pss_sig
//@ ret r
//@ spec
    requires hash@.len() == H::spec_out_len(), 2 * hash@.len() + 2 <= old(out)@.len() <= 0x10_0000
    ensures final(out)@.len() == old(out)@.len(), r.is_ok() ==> exists|salt: Seq<u8>| salt.len() == H::spec_out_len() && final(out)@ == #[trigger] pss_em::<H>(hash@, salt, old(out)@.len())
//@ sub sig <H: Hash> => <H: Hash, R: RandomSource>
//@ sub sig &mut dyn RandomSource => &mut R
//@ sub assert!\(em_len >= h_len \+ s_len \+ 2\); => assert(em_len >= h_len + s_len + 2);
//@ sub assert_eq!\(salt\.as_ref\(\)\.len\(\), s_len\); => let vl = salt.as_ref().len(); assert(vl == s_len);
//@ sub assert_eq!\(h\.as_ref\(\)\.len\(\), h_len\); => let vl2 = h.as_ref().len(); assert(vl2 == h_len);
//@ sub let m_prime = \[&\[0u8; 8\], hash, salt\.as_ref\(\)\]; => let m_prime: [&[u8]; 3] = [&[0u8; 8], hash, salt.as_ref()];
//@ sub for d in m_prime \{ => for vi in 0..3 { let d = m_prime[vi];
//@ sub (\w+)\.split_at_mut\( => v_split_at_mut(\1, 
//@ sub (\w+)\.split_first_mut\(\) => v_split_first_mut(\1)
//@ sub (\w+)\.split_last_mut\(\) => v_split_last_mut(\1)
//@ begin
    proof { H::lemma_sizes(hash@); }
//@ after rng\.fill
    let ghost st = salt.bytes(); let ghost n = out@.len() as int; let ghost hl = hash@.len() as int;
//@ before for
    proof { assert(Seq::<u8>::empty() =~= part(hash@, st, 0)); }
//@ loop 1
    invariant m_prime@.len() == 3, m_prime@[0]@ == rep(8, 0), m_prime@[1]@ == hash@, m_prime@[2]@ == st, hash@.len() == hl, st.len() == hl, hl <= 64, ctx.models(part(hash@, st, vi as int))
//@ after ctx\.update
    proof { assert(part(hash@, st, vi as int) + d@ =~= part(hash@, st, vi + 1)); }
//@ before let h =
    proof { assert(part(hash@, st, 3) =~= pss_m(hash@, st)); H::lemma_sizes(pss_m(hash@, st)); }
//@ before mgf1_xor
    proof { assert(h.bytes() == H::spec_hash(pss_m(hash@, st))); assert(db@ =~= pss_db(st, (n - hl - 1) as nat)); }
//@ tail
    proof {
        let k = (n - hl - 1) as nat; assert(db@ =~= clear_top(xors(pss_db(st, k), mgf1::<H>(h.bytes(), k)))); assert(h_bc@ =~= h.bytes() + seq![0xbcu8]);
        assert(out@ =~= pss_em::<H>(hash@, st, n as nat));
    }
//@end
pub open spec fn part(mh: Seq<u8>, salt: Seq<u8>, i: int) -> Seq<u8> { if i <= 0 { Seq::empty() } else if i == 1 { rep(8, 0) } else if i == 2 { rep(8, 0) + mh } else { rep(8, 0) + mh + salt } }

//@fn graviola/src/high/pkcs1.rs :: - :: verify_pss_sig
//@ ret r
//@ spec
    requires m_hash@.len() == H::spec_out_len(), old(em)@.len() <= 0x10_0000
    ensures r.is_ok() == (old(em)@.len() >= 2 * m_hash@.len() + 2 && exists|salt: Seq<u8>| salt.len() == H::spec_out_len() && old(em)@ == #[trigger] pss_em::<H>(m_hash@, salt, old(em)@.len()))
//@ sub let m_prime = \[&\[0u8; 8\], m_hash, salt\]; => let m_prime: [&[u8]; 3] = [&[0u8; 8], m_hash, salt];
//@ sub for d in m_prime \{ => for vi in 0..3 { let d = m_prime[vi];
//@ sub (\w+)\.split_at_mut\( => v_split_at_mut(\1, 
//@ sub (\w+)\.split_last_mut\(\) => v_split_last_mut(\1)
//@ sub zeroes\.iter\(\)\.any\(\|z\| \*z != 0x00\) => v_any_nonzero(zeroes)
//@ begin
    let ghost e0 = em@; let ghost n = em@.len() as int; let ghost hl = m_hash@.len() as int; let ghost k = (n - hl - 1) as nat;
    let ghost hh = e0.subrange(n - hl - 1, n - 1); let ghost md = e0.take(n - hl - 1); let ghost ok = exists|salt: Seq<u8>| salt.len() == H::spec_out_len() && e0 == #[trigger] pss_em::<H>(m_hash@, salt, n as nat);
    proof { 
        H::lemma_sizes(m_hash@);
        if ok && n >= 2 * hl + 2 { let salt = choose|salt: Seq<u8>| salt.len() == H::spec_out_len() && e0 == #[trigger] pss_em::<H>(m_hash@, salt, n as nat); lemma_pss_back::<H>(e0, m_hash@, salt); }
    }
//@ after mgf1_xor
    let ghost db0 = masked_db@;
    proof { assert(h@ =~= hh); assert(db0 == xors(md, mgf1::<H>(hh, k))); }
//@ before let \(zeroes
    let ghost dbf = db@;
    proof { assert(dbf == clear_top(db0)); }
//@ before if v_any_nonzero
    proof { assert(zeroes@ =~= dbf.take(n - 2 * hl - 2)); assert(salt@ =~= dbf.skip(n - 2 * hl - 1)); assert(*one == dbf[n - 2 * hl - 2]); 
        if exists|i: int| 0 <= i < zeroes@.len() && zeroes@[i] != 0 { let i = choose|i: int| 0 <= i < zeroes@.len() && zeroes@[i] != 0; assert(dbf[i] != 0); } }
//@ before let m_prime
    proof { if n >= 2 * hl + 2 { assert forall|i: int| 0 <= i < n - 2 * hl - 2 implies dbf[i] == 0 by { assert(zeroes@[i] == 0); } } }
//@ before for
    proof { assert(Seq::<u8>::empty() =~= part(m_hash@, salt@, 0)); }
//@ loop 1
    invariant m_prime@.len() == 3, m_prime@[0]@ == rep(8, 0), m_prime@[1]@ == m_hash@, m_prime@[2]@ == salt@, m_hash@.len() == hl, salt@.len() == hl, hl <= 64, ctx.models(part(m_hash@, salt@, vi as int))
//@ after ctx\.update
    proof { assert(part(m_hash@, salt@, vi as int) + d@ =~= part(m_hash@, salt@, vi + 1)); }
//@ before let h_prime
    proof { assert(part(m_hash@, salt@, 3) =~= pss_m(m_hash@, salt@)); H::lemma_sizes(pss_m(m_hash@, salt@)); }
//@ tail
    proof { assert(h_prime.bytes() == H::spec_hash(pss_m(m_hash@, salt@)));
        if h_prime.bytes() == hh { lemma_pss_fwd::<H>(e0, m_hash@, salt@); } }
//@end
// what the encoding says about its parts, and the converse
pub proof fn lemma_pss_back<H: Hash>(e: Seq<u8>, mh: Seq<u8>, salt: Seq<u8>)
    requires mh.len() == H::spec_out_len(), salt.len() == mh.len(), e.len() >= 2 * mh.len() + 2, e == pss_em::<H>(mh, salt, e.len()), 0 < mh.len() <= 64
    ensures ({ let n = e.len() as int; let hl = mh.len() as int; let k = (n - hl - 1) as nat; let hh = e.subrange(n - hl - 1, n - 1); let md = e.take(n - hl - 1);
        e.last() == 0xbc && md[0] & 0x80 == 0 && hh == H::spec_hash(pss_m(mh, salt)) && clear_top(xors(md, mgf1::<H>(hh, k))) == pss_db(salt, k) && salt == pss_db(salt, k).skip(n - 2 * hl - 1) })
{
    let n = e.len() as int; let hl = mh.len() as int; let k = (n - hl - 1) as nat; let hh = e.subrange(n - hl - 1, n - 1); let md = e.take(n - hl - 1); H::lemma_sizes(pss_m(mh, salt));
    let h = H::spec_hash(pss_m(mh, salt)); let g = mgf1::<H>(h, k); let db = pss_db(salt, k);
    assert(hh =~= h); assert(md =~= clear_top(xors(db, g)));
    let r = clear_top(xors(md, g)); assert forall|i: int| 0 <= i < k implies r[i] == db[i] by { lemma_mask(db[i], g[i]); } assert(r =~= db); lemma_mask(db[0], g[0]); assert(salt =~= db.skip(n - 2 * hl - 1));
}
pub proof fn lemma_pss_fwd<H: Hash>(e: Seq<u8>, mh: Seq<u8>, salt: Seq<u8>)
    requires mh.len() == H::spec_out_len(), salt.len() == mh.len(), e.len() >= 2 * mh.len() + 2, 0 < mh.len() <= 64,
        ({ let n = e.len() as int; let hl = mh.len() as int; let k = (n - hl - 1) as nat; let hh = e.subrange(n - hl - 1, n - 1); let md = e.take(n - hl - 1);
        e.last() == 0xbc && md[0] & 0x80 == 0 && hh == H::spec_hash(pss_m(mh, salt)) && clear_top(xors(md, mgf1::<H>(hh, k))) =~= pss_db(salt, k) })
    ensures e == pss_em::<H>(mh, salt, e.len())
{
    let n = e.len() as int; let hl = mh.len() as int; let k = (n - hl - 1) as nat; let hh = e.subrange(n - hl - 1, n - 1); let md = e.take(n - hl - 1);
    let g = mgf1::<H>(hh, k); let db = pss_db(salt, k); let r = clear_top(xors(db, g)); let d = clear_top(xors(md, g));
    assert forall|i: int| 0 <= i < k implies r[i] == md[i] by { lemma_mask(md[i], g[i]); assert(db[i] == d[i]); } assert(r =~= md); assert(e =~= md + hh + seq![0xbcu8]);
}
}
