verus! {
pub proof fn lemma_map_pol(f: spec_fn(Seq<int>) -> Seq<int>, s: Seq<int>, i: int) requires 0 <= i, 256 * i + 256 <= s.len(), f(pol(s, i)).len() == 256 ensures pol(map_pol(f, s), i) == f(pol(s, i))
{ assert forall|k: int| 0 <= k < 256 implies #[trigger] pol(map_pol(f, s), i)[k] == f(pol(s, i))[k] by { assert((256 * i + k) / 256 == i && (256 * i + k) % 256 == k); } assert(pol(map_pol(f, s), i) =~= f(pol(s, i))); }
// two vectors of polynomials are equal when their polynomials are
pub proof fn lemma_pol_ext(a: Seq<int>, b: Seq<int>, n: int) requires a.len() == 256 * n, b.len() == 256 * n, forall|i: int| 0 <= i < n ==> #[trigger] pol(a, i) == pol(b, i) ensures a == b
{ assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { let i = k / 256; assert(pol(a, i)[k % 256] == a[k] && pol(b, i)[k % 256] == b[k]); assert(pol(a, i) == pol(b, i)); } assert(a =~= b); }
// replacing polynomial g
pub proof fn lemma_put(pre: Seq<i16>, post: Seq<i16>, g: int) requires 0 <= g, 256 * g + 256 <= pre.len(), post.len() == pre.len(), forall|k: int| 0 <= k < pre.len() && !(g * 256 <= k < g * 256 + 256) ==> #[trigger] post[k] == pre[k]
    ensures forall|i: int| 0 <= i && i != g && 256 * i + 256 <= pre.len() ==> #[trigger] pol(post, i) == pol(pre, i)
{ assert forall|i: int| 0 <= i && i != g && 256 * i + 256 <= pre.len() implies #[trigger] pol(post, i) == pol(pre, i) by { assert(pol(post, i) =~= pol(pre, i)); } }
pub proof fn lemma_pol_modq(s: Seq<i16>, i: int) requires 0 <= i, 256 * i + 256 <= s.len() ensures pol(modq(s), i) == modq(pol(s, i)), pol(ints(s), i) == ints(pol(s, i))
{ assert(pol(modq(s), i) =~= modq(pol(s, i))); assert(pol(ints(s), i) =~= ints(pol(s, i))); }
pub proof fn lemma_canon(s: Seq<i16>) ensures canon(s) ==> modq(s) == ints(s), ints(s) == modq(s) ==> canon(s), canon(s) == inrange(ints(s), 0, 3329)
{ if canon(s) { assert(modq(s) =~= ints(s)); } if ints(s) == modq(s) { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < 3329 by { assert(ints(s)[i] == modq(s)[i]); } }
  if inrange(ints(s), 0, 3329) { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < 3329 by { assert(ints(s)[i] == s[i]); } } }
impl<const C: usize, D: Domain> Coeffs<C, D> {
//@fn graviola/src/mid/mlkem768.rs :: impl<const C: usize, D: Domain> Coeffs<C, D> :: reduce_in_place
//@ spec
    requires C % 256 == 0
    ensures ints(final(self).0@) == modq(old(self).0@), canon(final(self).0@)
//@ sub as_chunks_mut\(\) => as_chunks_mut::<256>()
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 * 256 == C, s0.len() == C, forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(ints(self.0@), i) == pol(modq(s0), i), forall|i: int| vi1 <= i && 256 * i + 256 <= C ==> #[trigger] pol(self.0@, i) == pol(s0, i)
//@ lbegin 1
    let ghost pre = self.0@;
//@ lend 1
    proof { let g = vi1 as int; assert(pol(pre, g) == pol(s0, g)); assert(pol(self.0@, g) =~= self.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, self.0@, g); lemma_pol_modq(s0, g); lemma_pol_modq(self.0@, g);
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(ints(self.0@), i) == pol(modq(s0), i) by { if i < g { lemma_pol_modq(self.0@, i); lemma_pol_modq(pre, i); assert(pol(ints(pre), i) == pol(modq(s0), i)); } } }
//@ end
    proof { lemma_pol_ext(ints(self.0@), modq(s0), vn1 as int); lemma_canon(self.0@); assert(modq(self.0@) =~= modq(s0)) by { assert forall|i: int| 0 <= i < C implies modq(self.0@)[i] == modq(s0)[i] by { assert(ints(self.0@)[i] == modq(s0)[i]); } } }
//@end
}
pub open spec fn ntto(p: Seq<int>) -> Seq<int> { ord(fips_ntt(p)) }
pub open spec fn intto(p: Seq<int>) -> Seq<int> { fips_intt(unord(p)) }
impl Coeffs<{ K * N }, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Normal> :: ntt
//@ ret r
//@ spec
    requires small(self.0@, 8191)
    ensures modq(r.0@) == ord_vec(ntt_vec(modq(self.0@))), small(r.0@, 26632)
//@ sub as_chunks_mut\(\) => as_chunks_mut::<256>()
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 == 3, s0.len() == 768, small(s0, 8191), forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(modq(this.0@), i) == ntto(pol(modq(s0), i)) && small(pol(this.0@, i), 26632), forall|i: int| vi1 <= i < 3 ==> #[trigger] pol(this.0@, i) == pol(s0, i)
//@ lbegin 1
    let ghost pre = this.0@;
    proof { assert(pol(pre, vi1 as int) == pol(s0, vi1 as int)); assert(this.0@.subrange(vi1 * 256, vi1 * 256 + 256) == pol(s0, vi1 as int)); assert(small(pol(s0, vi1 as int), 8191)); }
//@ lend 1
    proof { let g = vi1 as int; assert(pol(this.0@, g) =~= this.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, this.0@, g); lemma_pol_modq(s0, g); lemma_pol_modq(this.0@, g);
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(modq(this.0@), i) == ntto(pol(modq(s0), i)) && small(pol(this.0@, i), 26632) by { if i < g { lemma_pol_modq(this.0@, i); lemma_pol_modq(pre, i); assert(pol(modq(pre), i) == ntto(pol(modq(s0), i))); assert(pol(this.0@, i) == pol(pre, i)); } } }
//@ tail
    proof {
        let m = modq(s0); let v = ord_vec(ntt_vec(m));
        assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(modq(this.0@), i) == pol(v, i) by { axiom_ntt_len(pol(m, i), m); axiom_ord(fips_ntt(pol(m, i))); lemma_map_pol(|p: Seq<int>| fips_ntt(p), m, i); lemma_map_pol(|p: Seq<int>| ord(p), ntt_vec(m), i); }
        lemma_pol_ext(modq(this.0@), v, 3);
        assert(small(this.0@, 26632)) by { assert forall|k: int| 0 <= k < 768 implies -26632 <= #[trigger] this.0@[k] <= 26632 by { let i = k / 256; assert(pol(modq(this.0@), i) == ntto(pol(m, i))); assert(pol(this.0@, i)[k % 256] == this.0@[k]); } }
    }
//@end
}

// row i of a 3x3 matrix; the scalar product of representations, in natural order
pub open spec fn row<A>(f: Seq<A>, i: int) -> Seq<A> { f.subrange(768 * i, 768 * i + 768) }
pub open spec fn dotn(a: Seq<int>, b: Seq<int>) -> Seq<int> { dot3(unord_vec(a), unord_vec(b)) }
pub proof fn lemma_mul_r_modz(f: Seq<int>) ensures mul_r(f) == modz(mul_r(f)), mul_r(modz(f)) == mul_r(f)
{ assert(mul_r(f) =~= modz(mul_r(f))); assert forall|i: int| 0 <= i < f.len() implies mul_r(modz(f))[i] == mul_r(f)[i] by { lemma_mul_mod_noop_right(65536, f[i], 3329); } assert(mul_r(modz(f)) =~= mul_r(f)); }
impl<const C: usize> Coeffs<C, Ntt> {
//@fn graviola/src/mid/mlkem768.rs :: impl<const C: usize> Coeffs<C, Ntt> :: inverse_ntt
//@ ret r
//@ spec
    requires C % 256 == 0
    ensures forall|i: int| 0 <= i && 256 * i + 256 <= C ==> #[trigger] pol(modq(r.0@), i) == intto(mul_r(pol(modq(self.0@), i))), small(r.0@, 26632)
//@ sub as_chunks_mut\(\) => as_chunks_mut::<256>()
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 * 256 == C, s0.len() == C, forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(modq(this.0@), i) == intto(mul_r(pol(modq(s0), i))) && small(pol(this.0@, i), 26632), forall|i: int| vi1 <= i && 256 * i + 256 <= C ==> #[trigger] pol(this.0@, i) == pol(s0, i)
//@ lbegin 1
    let ghost pre = this.0@;
    proof { assert(pol(pre, vi1 as int) == pol(s0, vi1 as int)); assert(this.0@.subrange(vi1 * 256, vi1 * 256 + 256) == pol(s0, vi1 as int)); }
//@ lend 1
    proof { let g = vi1 as int; assert(pol(this.0@, g) =~= this.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, this.0@, g); lemma_pol_modq(s0, g); lemma_pol_modq(this.0@, g);
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(modq(this.0@), i) == intto(mul_r(pol(modq(s0), i))) && small(pol(this.0@, i), 26632) by { if i < g { lemma_pol_modq(this.0@, i); lemma_pol_modq(pre, i); assert(pol(modq(pre), i) == intto(mul_r(pol(modq(s0), i)))); assert(pol(this.0@, i) == pol(pre, i)); } } }
//@ tail
    proof { assert(small(this.0@, 26632)) by { assert forall|k: int| 0 <= k < C implies -26632 <= #[trigger] this.0@[k] <= 26632 by { let i = k / 256; assert(pol(modq(this.0@), i) == intto(mul_r(pol(modq(s0), i)))); assert(pol(this.0@, i)[k % 256] == this.0@[k]); } } }
//@end
}
impl<const C: usize> Coeffs<C, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl<const C: usize> Coeffs<C, Normal> :: add
//@ ret r
//@ spec
    requires C % 256 == 0, forall|k: int| 0 <= k < C ==> -32768 <= #[trigger] self.0@[k] + term.0@[k] < 32768
    ensures canon(r.0@), ints(r.0@) == vadd(modq(self.0@), modq(term.0@))
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 == C, s0.len() == C, forall|k: int| 0 <= k < C ==> -32768 <= #[trigger] s0[k] + term.0@[k] < 32768, forall|k: int| 0 <= k < vi1 ==> #[trigger] this.0@[k] == s0[k] + term.0@[k], forall|k: int| vi1 <= k < C ==> #[trigger] this.0@[k] == s0[k]
//@ tail
    proof { assert forall|k: int| 0 <= k < C implies #[trigger] ints(this.0@)[k] == vadd(modq(s0), modq(term.0@))[k] by { lemma_add_mod_noop(s0[k] as int, term.0@[k] as int, 3329); } assert(ints(this.0@) =~= vadd(modq(s0), modq(term.0@))); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl<const C: usize> Coeffs<C, Normal> :: sub
//@ ret r
//@ spec
    requires C % 256 == 0, forall|k: int| 0 <= k < C ==> -32768 <= #[trigger] self.0@[k] - term.0@[k] < 32768
    ensures canon(r.0@), ints(r.0@) == vsub(modq(self.0@), modq(term.0@))
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 == C, s0.len() == C, forall|k: int| 0 <= k < C ==> -32768 <= #[trigger] s0[k] - term.0@[k] < 32768, forall|k: int| 0 <= k < vi1 ==> #[trigger] this.0@[k] == s0[k] - term.0@[k], forall|k: int| vi1 <= k < C ==> #[trigger] this.0@[k] == s0[k]
//@ tail
    proof { assert forall|k: int| 0 <= k < C implies #[trigger] ints(this.0@)[k] == vsub(modq(s0), modq(term.0@))[k] by { lemma_sub_mod_noop(s0[k] as int, term.0@[k] as int, 3329); } assert(ints(this.0@) =~= vsub(modq(s0), modq(term.0@))); }
//@end
}
pub open spec fn vadd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| (a[k] + b[k]) % 3329) }
pub open spec fn vsub(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| (a[k] - b[k]) % 3329) }
// ByteEncode_12 / ByteDecode_12 of vectors of polynomials
pub open spec fn dec12v(b: Seq<u8>) -> Seq<int> { dec12(b) }
impl Coeffs<{ K * N }, Ntt> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Ntt> :: from_bytes
//@ ret r
//@ spec
    ensures canon(r.0@), unord_vec(ints(r.0@)) == modz(dec12(bytes@))
//@ sub \br\.0\.as_chunks_mut\(\) => r.0.as_chunks_mut::<256>()
//@ sub bytes\.as_chunks\(\) => bytes.as_chunks::<384>()
//@ loop 1
    invariant vn1 == 3, r.0@.len() == 768, forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(ints(r.0@), i) == ord(pol(modz(dec12(bytes@)), i))
//@ lbegin 1
    let ghost pre = r.0@;
//@ lend 1
    proof { let g = vi1 as int; assert(pol(r.0@, g) =~= r.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, r.0@, g); lemma_pol_modq(r.0@, g);
        let d = dec12(bytes@); let b = bytes@.subrange(g * 384, g * 384 + 384); assert(pol(d, g) =~= dec12(b)); assert(pol(modz(d), g) =~= modz(pol(d, g))); axiom_ord(dec12(b));
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(ints(r.0@), i) == ord(pol(modz(d), i)) by { if i < g { lemma_pol_modq(r.0@, i); lemma_pol_modq(pre, i); assert(pol(ints(pre), i) == ord(pol(modz(d), i))); } } }
//@ tail
    proof { 
        let d = modz(dec12(bytes@)); 
        assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(unord_vec(ints(r.0@)), i) == pol(d, i) by { axiom_ord(pol(d, i)); assert(pol(ints(r.0@), i) == ord(pol(d, i))); lemma_map_pol(|p: Seq<int>| unord(p), ints(r.0@), i); }
        lemma_pol_ext(unord_vec(ints(r.0@)), d, 3);
        assert forall|k: int| 0 <= k < 768 implies 0 <= #[trigger] r.0@[k] < 3329 by { let i = k / 256; axiom_ord(pol(d, i)); assert(pol(ints(r.0@), i) == ord(pol(d, i))); assert(inrange(pol(d, i), 0, 3329)); assert(pol(ints(r.0@), i)[k % 256] == r.0@[k]); }
    }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Ntt> :: to_bytes
//@ ret r
//@ spec
    requires canon(self.0@)
    ensures r@ == enc12(unord_vec(ints(self.0@)))
//@ sub self\.0\.as_chunks\(\) => self.0.as_chunks::<256>()
//@ sub r\.as_chunks_mut\(\) => r.as_chunks_mut::<384>()
//@ begin
    let ghost u = unord_vec(ints(self.0@));
//@ loop 1
    invariant vn1 == 3, self.0@.len() == 768, canon(self.0@), u == unord_vec(ints(self.0@)), forall|k: int| 0 <= k < vi1 * 384 ==> #[trigger] r@[k] == enc12(u)[k]
//@ lbegin 1
    let ghost pre = r@;
//@ lend 1
    proof { let g = vi1 as int; axiom_ord(pol(ints(self.0@), g)); lemma_pol_modq(self.0@, g); lemma_map_pol(|p: Seq<int>| unord(p), ints(self.0@), g);
        assert(self.0@.subrange(g * 256, g * 256 + 256) == pol(self.0@, g)); let e = enc12(pol(u, g));
        assert(r@ =~= pre.take(g * 384) + e + pre.skip(g * 384 + 384));
        assert forall|k: int| 0 <= k < (g + 1) * 384 implies #[trigger] r@[k] == enc12(u)[k] by { if k >= g * 384 { let j = k - g * 384; assert(r@[k] == e[j]); assert(k / 3 * 2 == g * 256 + j / 3 * 2 && k % 3 == j % 3); assert(pol(u, g)[j / 3 * 2] == u[k / 3 * 2] && pol(u, g)[j / 3 * 2 + 1] == u[k / 3 * 2 + 1]); } else { assert(r@[k] == pre[k]); } } }
//@ tail
    proof { assert(r@ =~= enc12(u)); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Ntt> :: mul_cache
//@ ret r
//@ spec
    ensures forall|i: int| 0 <= i < 3 ==> is_cache(#[trigger] r.0@.subrange(128 * i, 128 * i + 128), pol(modq(self.0@), i))
//@ sub let \(m, _\) = self\.0\.as_chunks\(\); =>
//@ sub let \(rr, _\) = r\.0\.as_chunks_mut\(\); =>
//@ sub &mut rr\[(\d)\], &m\[(\d)\] => r.0.v_chunk_mut::<128>(\1), self.0.v_chunk::<256>(\2)
//@ after #1 low::mlkem_mulcache_compute
    let ghost c1 = r.0@; 
//@ after #2 low::mlkem_mulcache_compute
    let ghost c2 = r.0@; proof { assert(c2.subrange(0, 128) =~= c1.subrange(0, 128)); }
//@ tail
    proof { lemma_pol_modq(self.0@, 0); lemma_pol_modq(self.0@, 1); lemma_pol_modq(self.0@, 2); let c3 = r.0@; assert(c3.subrange(0, 128) =~= c1.subrange(0, 128)); assert(c3.subrange(128, 256) =~= c2.subrange(128, 256));
        assert(is_cache(c3.subrange(0, 128), pol(modq(self.0@), 0))); assert(is_cache(c3.subrange(128, 256), pol(modq(self.0@), 1))); assert(is_cache(c3.subrange(256, 384), pol(modq(self.0@), 2))); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Ntt> :: mul_and_inverse_ntt
//@ ret r
//@ spec
    requires small(self.0@, 4096)
    ensures modq(r.0@) == fips_intt(dotn(modq(self.0@), modq(s.0@))), small(r.0@, 26632)
//@ sub r\.inverse_ntt\(\)\s*\} => let ghost vr = r.0@; let vz = r.inverse_ntt(); proof { let d = dotn(modq(self.0@), modq(s.0@)); axiom_ntt_len(unord_vec(modq(self.0@)), unord_vec(modq(s.0@))); axiom_ord(d); assert(pol(modq(vz.0@), 0) =~= modq(vz.0@)); assert(pol(modq(vr), 0) =~= modq(vr)); } vz }
//@end
}

#[verifier::external_body] pub fn v_clone_coeffs<const C: usize, D: Domain>(e: &Coeffs<C, D>) -> (r: Coeffs<C, D>) ensures r.0@ == e.0@ { unimplemented!() }
// `<[[T; 256]]>::swap` on the chunks of an array
#[verifier::external_body] pub fn v_swap_pol(a: &mut [i16; 2304], i: usize, j: usize) requires i < 9, j < 9 ensures forall|x: int| 0 <= x < 9 ==> #[trigger] pol(final(a)@, x) == pol(old(a)@, if x == i { j as int } else if x == j { i as int } else { x }) { unimplemented!() }
pub proof fn lemma_row(f: Seq<i16>, i: int) requires f.len() == 2304, 0 <= i < 3 ensures modq(row(f, i)) == row(modq(f), i), ints(row(f, i)) == row(ints(f), i)
{ assert(modq(row(f, i)) =~= row(modq(f), i)); assert(ints(row(f, i)) =~= row(ints(f), i)); }
impl Coeffs<{ K * K * N }, Ntt> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: reorder
//@ spec
    ensures forall|i: int| 0 <= i < 9 ==> #[trigger] pol(ints(final(self).0@), i) == ord(pol(ints(old(self).0@), i))
//@ sub as_chunks_mut\(\) => as_chunks_mut::<256>()
//@ begin
    let ghost s0 = self.0@;
//@ loop 1
    invariant vn1 == 9, s0.len() == 2304, forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(ints(self.0@), i) == ord(pol(ints(s0), i)), forall|i: int| vi1 <= i < 9 ==> #[trigger] pol(self.0@, i) == pol(s0, i)
//@ lbegin 1
    let ghost pre = self.0@;
    proof { assert(pol(pre, vi1 as int) == pol(s0, vi1 as int)); assert(self.0@.subrange(vi1 * 256, vi1 * 256 + 256) == pol(s0, vi1 as int)); }
//@ lend 1
    proof { let g = vi1 as int; assert(pol(self.0@, g) =~= self.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, self.0@, g); lemma_pol_modq(s0, g); lemma_pol_modq(self.0@, g);
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(ints(self.0@), i) == ord(pol(ints(s0), i)) by { if i < g { lemma_pol_modq(self.0@, i); lemma_pol_modq(pre, i); assert(pol(ints(pre), i) == ord(pol(ints(s0), i))); } } }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: transpose
//@ ret r
//@ spec
    ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(r.0@, tr(i, j)) == pol(self.0@, tr(j, i))
//@ sub let \(chunks, _\) = this\.0\.as_chunks_mut::<N>\(\); => let ghost vt0 = this.0@;
//@ sub chunks\.swap\( => v_swap_pol(&mut this.0, 
//@ loop 1
    invariant vt0 == self.0@, forall|a: int, b: int| 0 <= a < 3 && 0 <= b < 3 ==> #[trigger] pol(this.0@, tr(a, b)) == (if a < i || b < i { pol(vt0, tr(b, a)) } else { pol(vt0, tr(a, b)) })
//@ loop 2
    invariant i < 3, vt0 == self.0@, forall|a: int, b: int| 0 <= a < 3 && 0 <= b < 3 ==> #[trigger] pol(this.0@, tr(a, b)) == (if a < i || b < i || (a == i && b < j) || (b == i && a < j) { pol(vt0, tr(b, a)) } else { pol(vt0, tr(a, b)) })
//@ lbegin 2
    proof { assert(i * K + j < 9 && j * K + i < 9); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: mul_add
//@ ret r
//@ spec
    requires small(self.0@, 4096), small(e.0@, 26632)
    ensures canon(r.0@), forall|i: int| 0 <= i < 3 ==> #[trigger] pol(ints(r.0@), i) == vadd(pol(modq(e.0@), i), ord(dotn(row(modq(self.0@), i), modq(s.0@))))
//@ sub e\.clone\(\) => v_clone_coeffs(e)
//@ sub \.as_chunks\(\) => .as_chunks::<768>()
//@ sub for \(r, t\) in rr\.iter_mut\(\)\.zip\(term\.0\) => for (r, &t) in rr.iter_mut().zip(term.0.iter())
//@ loop 1
    invariant vn1 == 3, small(self.0@, 4096), small(e.0@, 26632), forall|i: int| 0 <= i < 3 ==> is_cache(#[trigger] s_precomp.0@.subrange(128 * i, 128 * i + 128), pol(modq(s.0@), i)),
        forall|i: int| vi1 <= i < 3 ==> #[trigger] pol(r.0@, i) == pol(e.0@, i), forall|i: int| 0 <= i < vi1 ==> #[trigger] pol(modq(r.0@), i) == vadd(pol(modq(e.0@), i), ord(dotn(row(modq(self.0@), i), modq(s.0@))))
//@ lbegin 1
    let ghost pre = r.0@;
//@ loop 2
    invariant vn2 == 256, small(term.0@, 3328), small(rr0, 26632), rr0.len() == 256, forall|k: int| 0 <= k < vi2 ==> #[trigger] rr@[k] == rr0[k] + term.0@[k], forall|k: int| vi2 <= k < 256 ==> #[trigger] rr@[k] == rr0[k]
//@ before low::mlkem_basemul_k3
    let ghost rr0 = rr@; proof { assert(aa@ =~= row(self.0@, vi1 as int)); assert(pol(pre, vi1 as int) == pol(e.0@, vi1 as int)); assert(rr0 =~= pol(e.0@, vi1 as int)); assert(small(rr0, 26632)); assert(small(aa@, 4096)); }
//@ lend 1
    proof { let g = vi1 as int; assert(pol(r.0@, g) =~= r.0@.subrange(g * 256, g * 256 + 256)); lemma_put(pre, r.0@, g); lemma_pol_modq(e.0@, g); lemma_pol_modq(r.0@, g); lemma_row(self.0@, g);
        let d = dotn(row(modq(self.0@), g), modq(s.0@)); axiom_ntt_len(unord_vec(row(modq(self.0@), g)), unord_vec(modq(s.0@))); axiom_ord(d);
        assert(modq(term.0@) == ord(d));
        assert forall|k: int| 0 <= k < 256 implies #[trigger] pol(modq(r.0@), g)[k] == vadd(pol(modq(e.0@), g), ord(d))[k] by { lemma_add_mod_noop(rr0[k] as int, term.0@[k] as int, 3329); assert(modq(term.0@)[k] == term.0@[k] as int % 3329); assert(pol(r.0@, g)[k] == rr0[k] + term.0@[k]); }
        assert(pol(modq(r.0@), g) =~= vadd(pol(modq(e.0@), g), ord(d)));
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(modq(r.0@), i) == vadd(pol(modq(e.0@), i), ord(dotn(row(modq(self.0@), i), modq(s.0@)))) by { if i < g { lemma_pol_modq(r.0@, i); lemma_pol_modq(pre, i); assert(pol(modq(pre), i) == vadd(pol(modq(e.0@), i), ord(dotn(row(modq(self.0@), i), modq(s.0@))))); } } }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: mul_and_inverse_ntt
//@ ret r
//@ spec
    requires small(self.0@, 4096)
    ensures small(r.0@, 26632), forall|i: int| 0 <= i < 3 ==> #[trigger] pol(modq(r.0@), i) == fips_intt(dotn(row(modq(self.0@), i), modq(y.0@)))
//@ sub \.as_chunks\(\) => .as_chunks::<768>()
//@ sub for \(r, t\) in rr\.iter_mut\(\)\.zip\(term\.0\) => for (r, &t) in rr.iter_mut().zip(term.0.iter())
//@ sub r\.inverse_ntt\(\)\s*\} => let ghost vr = r.0@; let vz = r.inverse_ntt(); proof { lemma_canon(vr); assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(modq(vz.0@), i) == fips_intt(dotn(row(modq(self.0@), i), modq(y.0@))) by { let d = dotn(row(modq(self.0@), i), modq(y.0@)); axiom_ntt_len(unord_vec(row(modq(self.0@), i)), unord_vec(modq(y.0@))); axiom_ord(d); assert(mul_r(pol(modq(vr), i)) == ord(d)); } } vz }
//@ loop 1
    invariant vn1 == 3, small(self.0@, 4096), forall|i: int| 0 <= i < 3 ==> is_cache(#[trigger] y_precomp.0@.subrange(128 * i, 128 * i + 128), pol(modq(y.0@), i)),
        forall|k: int| vi1 * 256 <= k < 768 ==> #[trigger] r.0@[k] == 0, forall|i: int| 0 <= i < vi1 ==> mul_r(#[trigger] pol(modq(r.0@), i)) == ord(dotn(row(modq(self.0@), i), modq(y.0@)))
//@ lbegin 1
    let ghost pre = r.0@;
//@ loop 2
    invariant vn2 == 256, forall|k: int| 0 <= k < vi2 ==> #[trigger] rr@[k] == term.0@[k], forall|k: int| vi2 <= k < 256 ==> #[trigger] rr@[k] == 0
//@ before low::mlkem_basemul_k3
    proof { assert(aa@ =~= row(self.0@, vi1 as int)); assert(small(aa@, 4096)); }
//@ lend 1
    proof { let g = vi1 as int; assert(pol(r.0@, g) =~= r.0@.subrange(g * 256, g * 256 + 256)); assert(pol(r.0@, g) =~= term.0@); lemma_put(pre, r.0@, g); lemma_pol_modq(r.0@, g); lemma_row(self.0@, g);
        assert forall|i: int| 0 <= i < g + 1 implies mul_r(#[trigger] pol(modq(r.0@), i)) == ord(dotn(row(modq(self.0@), i), modq(y.0@))) by { if i < g { lemma_pol_modq(r.0@, i); lemma_pol_modq(pre, i); assert(mul_r(pol(modq(pre), i)) == ord(dotn(row(modq(self.0@), i), modq(y.0@)))); } } }
//@end
}
pub open spec fn tr(i: int, j: int) -> int { 3 * i + j }

// SampleNTT (FIPS 203 algorithm 7) of rho and two index bytes
pub uninterp spec fn sample_ntt(b: Seq<u8>) -> Seq<int>;
pub open spec fn sample2(rho: Seq<u8>, a: u8, b: u8) -> Seq<int> { sample_ntt(rho + seq![a, b]) }
#[verifier::external_body] pub proof fn axiom_sample(b: Seq<u8>) ensures sample_ntt(b).len() == 256, inrange(sample_ntt(b), 0, 3329) {}
pub struct Shake128ForMlKem { x: u8 }
impl Shake128ForMlKem {
    pub uninterp spec fn msg(self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(m: &[&[u8]]) -> (r: Self) ensures r.msg() == concat(m@) { unimplemented!() }
    #[verifier::external_body] pub fn sample_into(self, output: &mut [i16; 256]) ensures ints(final(output)@) == sample_ntt(self.msg()) { unimplemented!() }
}
//@item graviola/src/mid/mlkem768.rs :: const SAMPLE_POLY_WORK
//@ sub const SAMPLE_POLY_WORK: &\[\(u8, u8, usize\)\] = (.*); => exec const SAMPLE_POLY_WORK: &'static [(u8, u8, usize)] ensures wk(SAMPLE_POLY_WORK@) { \1 }
//@end
pub open spec fn wk(w: Seq<(u8, u8, usize)>) -> bool { w.len() == 9 && forall|x: int| 0 <= x < 9 ==> (#[trigger] w[x]).0 as int == x / 3 && w[x].1 as int == x % 3 && w[x].2 as int == 256 * x }
pub proof fn lemma_concat2(s: Seq<&[u8]>) requires s.len() == 2 ensures concat(s) == s[0]@ + s[1]@
{ let a = s.drop_last(); assert(a.drop_last() =~= Seq::empty()); assert(concat(a.drop_last()) =~= Seq::empty()); assert(concat(a) =~= s[0]@); }
pub proof fn lemma_matrix_canon(f: Seq<i16>, rho: Seq<u8>, t: bool) requires f.len() == 2304, forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(f), tr(i, j)) == ord(entry(rho, t, i, j)) ensures canon(f)
{
    assert forall|k: int| 0 <= k < 2304 implies 0 <= #[trigger] f[k] < 3329 by {
        let x = k / 256; let (i, j) = (x / 3, x % 3); assert(tr(i, j) == x); let e = entry(rho, t, i, j);
        axiom_sample(rho + seq![i as u8, j as u8]); axiom_sample(rho + seq![j as u8, i as u8]); axiom_ord(e); assert(inrange(e, 0, 3329));
        assert(pol(ints(f), tr(i, j))[k % 256] == f[k]);
    }
}
impl Coeffs<{ K * K * N }, Ntt> {
    #[verifier::external_body] pub fn _sample_poly_ntt_quad(rho: &[u8; 32], inputs: &[&[u8; 2]; 4], outputs: &mut [i16; 1024]) ensures forall|x: int| 0 <= x < 4 ==> #[trigger] pol(ints(final(outputs)@), x) == sample2(rho@, inputs@[x]@[0], inputs@[x]@[1]) { unimplemented!() }
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: _sample_poly_ntt
//@ ret r
//@ spec
    ensures canon(r.0@), forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(r.0@), tr(i, j)) == ord(entry(rho@, TRANSPOSED, i, j))
//@ sub let mut work_iter = SAMPLE_POLY_WORK\.chunks_exact\(4\); => let vwork = SAMPLE_POLY_WORK;
//@ sub in work_iter\.by_ref\(\) \{ => in vwork.chunks_exact(4) {
//@ sub for \(i, j, offs\) in work_iter\.remainder\(\) \{ => for vt in vwork[8..].iter() { let (i, j, offs) = (&vt.0, &vt.1, &vt.2);
//@ sub \(&mut r\.0\[(.*?)\.\.(.*?)\]\)\.v_try_into_unwrap\(\) => r.0.v_arr_range_mut(\1, \2)
//@ loop 1
    invariant vn1 == 2, r.0@.len() == 2304, vlen1_0 == 9, wk(vwork@), forall|x: int| 0 <= x < 4 * vi1 ==> #[trigger] pol(ints(r.0@), x) == entry(rho@, TRANSPOSED, x / 3, x % 3)
//@ lbegin 1
    let ghost pre = r.0@;
//@ lend 1
    proof { let g = vi1 as int; let w = r.0@.subrange(1024 * g, 1024 * g + 1024);
        assert forall|x: int| 0 <= x < 4 * (g + 1) implies #[trigger] pol(ints(r.0@), x) == entry(rho@, TRANSPOSED, x / 3, x % 3) by {
            if x >= 4 * g { let t = x - 4 * g; assert(c4@[t] == vwork@[x]); assert(pol(ints(r.0@), x) =~= pol(ints(w), t)); assert(pol(ints(w), t) == sample2(rho@, inputs@[t]@[0], inputs@[t]@[1])); }
            else { assert(pol(ints(r.0@), x) =~= pol(ints(pre), x)); } } }
//@ loop 2
    invariant vn2 == 1, r.0@.len() == 2304, wk(vwork@), forall|x: int| 0 <= x < 8 + vi2 ==> #[trigger] pol(ints(r.0@), x) == entry(rho@, TRANSPOSED, x / 3, x % 3)
//@ lbegin 2
    let ghost pre = r.0@; proof { assert forall|s: Seq<&[u8]>| s.len() == 2 implies #[trigger] concat(s) == s[0]@ + s[1]@ by { lemma_concat2(s); } }
//@ lend 2
    proof { assert(vt == vwork@[8]); assert(rho@ + input@ =~= rho@ + seq![input@[0], input@[1]]); assert(pol(r.0@, 8) =~= r.0@.subrange(2048, 2304)); lemma_pol_modq(r.0@, 8);
        assert forall|x: int| 0 <= x < 9 implies #[trigger] pol(ints(r.0@), x) == entry(rho@, TRANSPOSED, x / 3, x % 3) by { if x < 8 { assert(pol(ints(r.0@), x) =~= pol(ints(pre), x)); } } }
//@ before r\.reorder
    let ghost s9 = r.0@;
//@ tail
    proof { 
        assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] pol(ints(r.0@), tr(i, j)) == ord(entry(rho@, TRANSPOSED, i, j)) by { assert(tr(i, j) / 3 == i && tr(i, j) % 3 == j); assert(pol(ints(s9), tr(i, j)) == entry(rho@, TRANSPOSED, i, j)); }
        lemma_matrix_canon(r.0@, rho@, TRANSPOSED); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: sample_poly
//@ ret r
//@ spec
    ensures canon(r.0@), forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(r.0@), tr(i, j)) == ord(sample2(rho@, j as u8, i as u8))
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * K * N }, Ntt> :: sample_poly_transposed
//@ ret r
//@ spec
    ensures canon(r.0@), forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(r.0@), tr(i, j)) == ord(sample2(rho@, i as u8, j as u8))
//@end
}
pub open spec fn entry(rho: Seq<u8>, t: bool, i: int, j: int) -> Seq<int> { if t { sample2(rho, i as u8, j as u8) } else { sample2(rho, j as u8, i as u8) } }

// PRF_2 and SamplePolyCBD_2 for three consecutive indices
pub open spec fn prf_poly(seed: Seq<u8>, n: int) -> Seq<int> { cbd2(shake256(seed + seq![n as u8], 128)) }
pub open spec fn cbdv(seed: Seq<u8>, n0: int) -> Seq<int> { Seq::new(768, |k: int| prf_poly(seed, n0 + k / 256)[k % 256]) }
pub proof fn lemma_cbdv(seed: Seq<u8>, n0: int, i: int) requires 0 <= i < 3 ensures pol(cbdv(seed, n0), i) == prf_poly(seed, n0 + i)
{ assert(pol(cbdv(seed, n0), i) =~= prf_poly(seed, n0 + i)) by { assert forall|k: int| 0 <= k < 256 implies pol(cbdv(seed, n0), i)[k] == prf_poly(seed, n0 + i)[k] by { assert((256 * i + k) / 256 == i && (256 * i + k) % 256 == k); } } }
impl Coeffs<{ K * N }, Normal> {
//@fn graviola/src/mid/mlkem768.rs :: impl Coeffs<{ K * N }, Normal> :: sample_poly_cbd_dual
//@ ret r
//@ spec
    ensures ints(r.0.0@) == cbdv(sigma@, 0), ints(r.1.0@) == cbdv(sigma@, 3), small(r.0.0@, 2), small(r.1.0@, 2)
//@ sub \[\[0; 128\]; 6\] => [[0u8; 128]; 6]
//@ sub let mut buf = \[0; 40\] => let mut buf = [0u8; 40]
//@ sub for \(sample, poly\) in samples\.iter\(\)\.zip\(\s*a\.0\.as_chunks_mut\(\)\s*\.0\s*\.iter_mut\(\)\s*\.chain\(b\.0\.as_chunks_mut\(\)\.0\.iter_mut\(\)\),\s*\) \{(.*?)\} => for vj in 0..3usize { let sample = &samples[vj]; let poly = a.0.v_chunk_mut::<256>(vj); \1 } for vj in 0..3usize { let sample = &samples[3 + vj]; let poly = b.0.v_chunk_mut::<256>(vj); \1 }
//@ sub let mut a = Coeffs::zero\(\); => let ghost vs = samples@; proof { lemma_prf_in(sigma@, buf0@, 0); lemma_prf_in(sigma@, buf1@, 1); lemma_prf_in(sigma@, buf2@, 2); lemma_prf_in(sigma@, buf3@, 3); lemma_prf_in(sigma@, buf4@, 4); lemma_prf_in(sigma@, buf5@, 5); assert(forall|i: int| 0 <= i < 6 ==> cbd2((#[trigger] vs[i])@) == prf_poly(sigma@, i)); } let mut a: Coeffs<768, Normal> = Coeffs::zero();
//@ sub let mut b = Coeffs::zero\(\); => let mut b: Coeffs<768, Normal> = Coeffs::zero();
//@ loop 1
    invariant vs == samples@, forall|i: int| 0 <= i < 6 ==> cbd2((#[trigger] vs[i])@) == prf_poly(sigma@, i), a.0@.len() == 768, forall|i: int| 0 <= i < vj ==> #[trigger] pol(ints(a.0@), i) == prf_poly(sigma@, i), forall|k: int| 0 <= k < 768 ==> -2 <= #[trigger] a.0@[k] <= 2
//@ lbegin 1
    let ghost pre = a.0@;
//@ lend 1
    proof { let g = vj as int; lemma_put(pre, a.0@, g); assert(pol(a.0@, g) =~= a.0@.subrange(g * 256, g * 256 + 256)); lemma_pol_modq(a.0@, g); assert(pol(ints(a.0@), g) == cbd2(vs[g]@));
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(ints(a.0@), i) == prf_poly(sigma@, i) by { if i < g { lemma_pol_modq(a.0@, i); lemma_pol_modq(pre, i); assert(pol(ints(pre), i) == prf_poly(sigma@, i)); } } 
        assert forall|k: int| 0 <= k < 768 implies -2 <= #[trigger] a.0@[k] <= 2 by { if 256 * g <= k < 256 * g + 256 { assert(a.0@[k] == pol(a.0@, g)[k - 256 * g]); } else { assert(a.0@[k] == pre[k]); } } }
//@ loop 2
    invariant vs == samples@, forall|i: int| 0 <= i < 6 ==> cbd2((#[trigger] vs[i])@) == prf_poly(sigma@, i), b.0@.len() == 768, forall|i: int| 0 <= i < vj ==> #[trigger] pol(ints(b.0@), i) == prf_poly(sigma@, 3 + i), forall|k: int| 0 <= k < 768 ==> -2 <= #[trigger] b.0@[k] <= 2
//@ lbegin 2
    let ghost pre = b.0@;
//@ lend 2
    proof { let g = vj as int; lemma_put(pre, b.0@, g); assert(pol(b.0@, g) =~= b.0@.subrange(g * 256, g * 256 + 256)); lemma_pol_modq(b.0@, g); assert(pol(ints(b.0@), g) == cbd2(vs[3 + g]@));
        assert forall|i: int| 0 <= i < g + 1 implies #[trigger] pol(ints(b.0@), i) == prf_poly(sigma@, 3 + i) by { if i < g { lemma_pol_modq(b.0@, i); lemma_pol_modq(pre, i); assert(pol(ints(pre), i) == prf_poly(sigma@, 3 + i)); } } 
        assert forall|k: int| 0 <= k < 768 implies -2 <= #[trigger] b.0@[k] <= 2 by { if 256 * g <= k < 256 * g + 256 { assert(b.0@[k] == pol(b.0@, g)[k - 256 * g]); } else { assert(b.0@[k] == pre[k]); } } }
//@ tail
    proof { 
        assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(ints(a.0@), i) == pol(cbdv(sigma@, 0), i) && pol(ints(b.0@), i) == pol(cbdv(sigma@, 3), i) by { lemma_cbdv(sigma@, 0, i); lemma_cbdv(sigma@, 3, i); assert(pol(ints(b.0@), i) == prf_poly(sigma@, 3 + i)); }
        lemma_pol_ext(ints(a.0@), cbdv(sigma@, 0), 3); assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(ints(b.0@), i) == pol(cbdv(sigma@, 3), i) by { assert(pol(ints(a.0@), i) == pol(cbdv(sigma@, 0), i)); } lemma_pol_ext(ints(b.0@), cbdv(sigma@, 3), 3); }
//@end
}
pub proof fn lemma_prf_in(sigma: Seq<u8>, b: Seq<u8>, n: int) requires sigma.len() == 32, b.len() == 40, b.take(32) =~= sigma, b[32] == n as u8 ensures b.take(33) == sigma + seq![n as u8]
{ assert(b.take(33) =~= sigma + seq![n as u8]) by { assert forall|i: int| 0 <= i < 32 implies b[i] == sigma[i] by { assert(b.take(32)[i] == sigma[i]); } } }
pub proof fn lemma_unord_ord_vec(f: Seq<int>, n: int) requires f.len() == 256 * n, n >= 0 ensures unord_vec(ord_vec(f)) == f
{
    assert forall|i: int| 0 <= i < n implies #[trigger] pol(unord_vec(ord_vec(f)), i) == pol(f, i) by { axiom_ord(pol(f, i)); lemma_map_pol(|p: Seq<int>| ord(p), f, i); axiom_ord(pol(ord_vec(f), i)); lemma_map_pol(|p: Seq<int>| unord(p), ord_vec(f), i); }
    lemma_pol_ext(unord_vec(ord_vec(f)), f, n);
}
// row i of the matrix A (or its transpose)
pub open spec fn mat_row(rho: Seq<u8>, t: bool, i: int) -> Seq<int> { Seq::new(768, |k: int| entry(rho, t, i, k / 256)[k % 256]) }
pub proof fn lemma_mat_row(f: Seq<i16>, rho: Seq<u8>, t: bool, i: int) requires f.len() == 2304, 0 <= i < 3, forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(f), tr(i, j)) == ord(entry(rho, t, i, j)) ensures unord_vec(row(modq(f), i)) == mat_row(rho, t, i)
{
    lemma_matrix_canon(f, rho, t); lemma_canon(f); let r = row(ints(f), i);
    assert forall|j: int| 0 <= j < 3 implies #[trigger] pol(unord_vec(r), j) == pol(mat_row(rho, t, i), j) by {
        axiom_sample(rho + seq![i as u8, j as u8]); axiom_sample(rho + seq![j as u8, i as u8]); let e = entry(rho, t, i, j);
        assert(pol(r, j) =~= pol(ints(f), tr(i, j))); axiom_ord(e); lemma_map_pol(|p: Seq<int>| unord(p), r, j);
        assert(pol(mat_row(rho, t, i), j) =~= e) by { assert forall|k: int| 0 <= k < 256 implies pol(mat_row(rho, t, i), j)[k] == e[k] by { assert((256 * j + k) / 256 == j && (256 * j + k) % 256 == k); } }
    }
    lemma_pol_ext(unord_vec(r), mat_row(rho, t, i), 3);
}
//@item graviola/src/mid/mlkem768.rs :: struct DecapKey
//@item graviola/src/mid/mlkem768.rs :: struct EncapKey
//@item graviola/src/mid/mlkem768.rs :: struct Ciphertext
//@item graviola/src/mid/mlkem768.rs :: struct KpkeRandomness
//@item graviola/src/mid/mlkem768.rs :: struct SharedSecret
// K-PKE.Encrypt (FIPS 203 algorithm 14)
pub open spec fn enc_u(rho: Seq<u8>, r: Seq<u8>) -> Seq<int> { Seq::new(768, |k: int| enc_ui(rho, r, k / 256)[k % 256]) }
pub open spec fn yhat(r: Seq<u8>) -> Seq<int> { ntt_vec(modz(cbdv(r, 0))) }
pub open spec fn enc_ui(rho: Seq<u8>, r: Seq<u8>, i: int) -> Seq<int> { vadd(fips_intt(dot3(mat_row(rho, true, i), yhat(r))), modz(prf_poly(r, 3 + i))) }
pub open spec fn enc_v(t: Seq<u8>, m: Seq<u8>, r: Seq<u8>) -> Seq<int> { vadd(vadd(fips_intt(dot3(modz(dec12(t)), yhat(r))), modz(prf_poly(r, 6))), message_poly(m)) }
pub open spec fn kpke_enc(t: Seq<u8>, rho: Seq<u8>, m: Seq<u8>, r: Seq<u8>) -> Seq<u8> { enc10(compress_all(1024, enc_u(rho, r))) + enc4(compress_all(16, enc_v(t, m, r))) }
impl EncapKey {
    // the stored matrix is the one expanded from rho
    pub open spec fn wf(self) -> bool { canon(self.transpose_a_hat.0@) && forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] pol(ints(self.transpose_a_hat.0@), tr(i, j)) == ord(entry(self.rho@, true, i, j)) }
//@fn graviola/src/mid/mlkem768.rs :: impl EncapKey :: kpke_encrypt
//@ ret r
//@ spec
    requires self.wf()
    ensures r.0@ == kpke_enc(self.t_hat@, self.rho@, m.0@, r_in.0@)
//@ sub sig r: KpkeRandomness => r_in: KpkeRandomness
//@ sub \br\.0\b => r_in.0
//@ sub \[0; _\] => [0u8; 1088]
//@ sub let mut e_2 = Coeffs::zero\(\); => let mut e_2: Coeffs<256, Normal> = Coeffs::zero();
//@ sub c\.0\.split_at_mut\(32 \* DU \* K\) => v_split_at_mut(&mut c.0, 32 * DU * K)
//@ sub u\.compress_into_bytes_du_10\(c_1\.v_try_into_unwrap\(\)\) => let vl = c_1.len(); u.compress_into_bytes_du_10(c_1.v_arr_range_mut(0, vl))
//@ sub v\.compress_into_bytes_dv_4\(c_2\.v_try_into_unwrap\(\)\) => let vl = c_2.len(); v.compress_into_bytes_dv_4(c_2.v_arr_range_mut(0, vl))
//@ begin
    proof { assert forall|s: Seq<&[u8]>| s.len() == 2 implies #[trigger] concat(s) == s[0]@ + s[1]@ by { lemma_concat2(s); } assert forall|a: [u8; 1]| #[trigger] a@ == seq![a@[0]] by { assert(a@ =~= seq![a@[0]]); } }
//@ sub let u = (.*?)\.add\(&e_1\); => let vu = \1; let ghost vug = vu.0@; let u = vu.add(&e_1);
//@ after sample_cbd2
    proof { assert(r_in.0@ + seq![6u8] =~= r_in.0@ + seq![(K_BYTE * 2) as u8]); assert(ints(e_2.0@) == prf_poly(r_in.0@, 6)); }
//@ after let y_hat
    let ghost rr = r_in.0@; let ghost yv = ntt_vec(modz(cbdv(rr, 0)));
    proof { assert(modq(y_hat.0@) == ord_vec(yv)); lemma_unord_ord_vec(yv, 3); 
        lemma_mat_row(self.transpose_a_hat.0@, self.rho@, true, 0); lemma_mat_row(self.transpose_a_hat.0@, self.rho@, true, 1); lemma_mat_row(self.transpose_a_hat.0@, self.rho@, true, 2); }
//@ after let u =
    proof {
        let e = enc_u(self.rho@, rr); 
        assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(ints(u.0@), i) == pol(e, i) by {
            lemma_cbdv(rr, 3, i); lemma_mat_row(self.transpose_a_hat.0@, self.rho@, true, i); let d = fips_intt(dot3(mat_row(self.rho@, true, i), yv)); axiom_ntt_len(dot3(mat_row(self.rho@, true, i), yv), yv);
            assert(pol(e, i) =~= enc_ui(self.rho@, rr, i)) by { assert forall|k: int| 0 <= k < 256 implies pol(e, i)[k] == enc_ui(self.rho@, rr, i)[k] by { assert((256 * i + k) / 256 == i && (256 * i + k) % 256 == k); } }
            assert(pol(ints(u.0@), i) =~= enc_ui(self.rho@, rr, i)) by { let w = modq(e_1.0@); assert(pol(w, i) =~= modz(prf_poly(rr, 3 + i))) by { assert(pol(modz(cbdv(rr, 3)), i) =~= modz(pol(cbdv(rr, 3), i))); }
                assert forall|k: int| 0 <= k < 256 implies pol(ints(u.0@), i)[k] == enc_ui(self.rho@, rr, i)[k] by { assert(pol(w, i)[k] == w[256 * i + k]); assert(pol(modq(vug), i)[k] == modq(vug)[256 * i + k]); } }
        }
        lemma_pol_ext(ints(u.0@), e, 3);
    }
//@ after let v =
    proof { lemma_canon(mu.0@); lemma_canon(t_hat.0@); assert(ints(v.0@) == enc_v(self.t_hat@, m.0@, rr)); }
//@ tail
    proof { assert(c.0@ =~= kpke_enc(self.t_hat@, self.rho@, m.0@, rr)); }
//@end
}

// K-PKE.Decrypt (algorithm 15)
pub open spec fn dec_w(dk: Seq<u8>, c: Seq<u8>) -> Seq<int> { vsub(decompress_all(16, dec4(c.skip(960))), fips_intt(dot3(modz(dec12(dk)), ntt_vec(decompress_all(1024, dec10(c.take(960))))))) }
pub open spec fn kpke_dec(dk: Seq<u8>, c: Seq<u8>) -> Seq<u8> { choose|m: Seq<u8>| m.len() == 32 && #[trigger] bits_of(m) == message_bits(dec_w(dk, c)) }
pub proof fn lemma_bits_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), bits_of(a) == bits_of(b) ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let (x, y) = (a[i], b[i]);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] bitof(x, j) == bitof(y, j) by { assert((8 * i + j) / 8 == i && (8 * i + j) % 8 == j); assert(bits_of(a)[8 * i + j] == bitof(a[i], j)); assert(bits_of(b)[8 * i + j] == bitof(b[i], j)); }
        assert(bitof(x, 0) == bitof(y, 0)); assert(bitof(x, 1) == bitof(y, 1)); assert(bitof(x, 2) == bitof(y, 2)); assert(bitof(x, 3) == bitof(y, 3)); assert(bitof(x, 4) == bitof(y, 4)); assert(bitof(x, 5) == bitof(y, 5)); assert(bitof(x, 6) == bitof(y, 6)); assert(bitof(x, 7) == bitof(y, 7));
        assert(x == y) by (bit_vector) requires ((x >> 0u8) & 1 == 1) == ((y >> 0u8) & 1 == 1), ((x >> 1u8) & 1 == 1) == ((y >> 1u8) & 1 == 1), ((x >> 2u8) & 1 == 1) == ((y >> 2u8) & 1 == 1), ((x >> 3u8) & 1 == 1) == ((y >> 3u8) & 1 == 1), ((x >> 4u8) & 1 == 1) == ((y >> 4u8) & 1 == 1), ((x >> 5u8) & 1 == 1) == ((y >> 5u8) & 1 == 1), ((x >> 6u8) & 1 == 1) == ((y >> 6u8) & 1 == 1), ((x >> 7u8) & 1 == 1) == ((y >> 7u8) & 1 == 1);
    }
    assert(a =~= b);
}
// ML-KEM.KeyGen_internal, K-PKE.KeyGen (algorithms 13, 16)
pub open spec fn kg_g(d: Seq<u8>) -> Seq<u8> { sha3_512(d + seq![3u8]) }
pub open spec fn kg_shat(d: Seq<u8>) -> Seq<int> { ntt_vec(modz(cbdv(kg_g(d).skip(32), 0))) }
pub open spec fn kg_ti(d: Seq<u8>, i: int) -> Seq<int> { vadd(fips_ntt(modz(prf_poly(kg_g(d).skip(32), 3 + i))), dot3(mat_row(kg_g(d).take(32), false, i), kg_shat(d))) }
pub open spec fn kg_t(d: Seq<u8>) -> Seq<int> { Seq::new(768, |k: int| kg_ti(d, k / 256)[k % 256]) }
pub open spec fn kem_k(m: Seq<u8>, h: Seq<u8>) -> Seq<u8> { sha3_512(m + h).take(32) }
pub open spec fn kem_r(m: Seq<u8>, h: Seq<u8>) -> Seq<u8> { sha3_512(m + h).skip(32) }
// ML-KEM.Decaps_internal (algorithm 18)
pub open spec fn kem_decaps(dk: Seq<u8>, t: Seq<u8>, rho: Seq<u8>, h: Seq<u8>, z: Seq<u8>, c: Seq<u8>) -> Seq<u8> {
    let m = kpke_dec(dk, c);
    if c == kpke_enc(t, rho, m, kem_r(m, h)) { kem_k(m, h) } else { shake256(z + c, 32) }
}
pub open spec fn ek_bytes(t: Seq<u8>, rho: Seq<u8>) -> Seq<u8> { t + rho }
impl DecapKey {
    pub open spec fn wf(self) -> bool { self.ek_pke.wf() && self.h_ek@ == sha3_256(ek_bytes(self.ek_pke.t_hat@, self.ek_pke.rho@)) }
    pub open spec fn is_keygen(self, d: Seq<u8>, z: Seq<u8>) -> bool {
        self.wf() && self.ek_pke.t_hat@ == enc12(kg_t(d)) && self.ek_pke.rho@ == kg_g(d).take(32) && self.dk_pke@ == enc12(kg_shat(d)) && self.z@ == z
    }
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: kpke_decrypt
//@ ret r
//@ spec
    ensures r.0@ == kpke_dec(self.dk_pke@, c.0@)
//@ sub decompress_from_bytes_du_10\(c_1\.v_try_into_unwrap\(\)\) => decompress_from_bytes_du_10(&c_1.v_try_into_unwrap())
//@ sub decompress_from_bytes_dv_4\(c_2\.v_try_into_unwrap\(\)\) => decompress_from_bytes_dv_4(&c_2.v_try_into_unwrap())
//@ sub let w = v_prime\.sub\(&s_hat\.mul_and_inverse_ntt\(&u_prime\.ntt\(\)\)\); => let ghost vu = u_prime.0@; let vun = u_prime.ntt(); let vx = s_hat.mul_and_inverse_ntt(&vun); let ghost vxg = vx.0@; let ghost vv = v_prime.0@; let w = v_prime.sub(&vx);
//@ sub w\.to_message_bits\(\)\s*\} => let ghost wg = w.0@; let vm = w.to_message_bits(); 
    proof {
        lemma_canon(vu); lemma_canon(vv); lemma_canon(s_hat.0@); let uh = ntt_vec(ints(vu)); lemma_unord_ord_vec(uh, 3);
        assert(ints(wg) == dec_w(self.dk_pke@, c.0@)); let k = kpke_dec(self.dk_pke@, c.0@); assert(vm.0@.len() == 32 && bits_of(vm.0@) == message_bits(dec_w(self.dk_pke@, c.0@))); lemma_bits_inj(vm.0@, k);
    } vm }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: kpke_keygen
//@ ret r
//@ spec
    ensures r.0.wf(), r.0.t_hat@ == enc12(kg_t(d@)), r.0.rho@ == kg_g(d@).take(32), r.1@ == enc12(kg_shat(d@))
//@ sub let sigma = sigma\.v_try_into_unwrap\(\); => let vsig: [u8; 32] = sigma.v_try_into_unwrap(); let sigma = &vsig;
//@ begin
    proof { assert forall|a: [u8; 1]| #[trigger] a@ == seq![a@[0]] by { assert(a@ =~= seq![a@[0]]); } assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
//@ after let t_hat
    proof {
        assert(g@ == kg_g(d@)); assert(rho@ =~= kg_g(d@).take(32)); assert(sigma@ =~= kg_g(d@).skip(32)); let ss = sigma@;
        let sh = kg_shat(d@); lemma_unord_ord_vec(sh, 3); assert(modq(s_hat.0@) == ord_vec(sh)); let ev = modz(cbdv(ss, 3)); let eh = ntt_vec(ev);
        let tt = kg_t(d@); let u = unord_vec(ints(t_hat.0@));
        assert forall|i: int| 0 <= i < 3 implies #[trigger] pol(u, i) == pol(tt, i) by {
            lemma_mat_row(a_hat.0@, rho@, false, i); lemma_cbdv(ss, 3, i); assert(pol(ev, i) =~= modz(prf_poly(ss, 3 + i)));
            let x = fips_ntt(pol(ev, i)); let y = dot3(mat_row(rho@, false, i), sh); axiom_ntt_len(pol(ev, i), ev); axiom_ntt_len(mat_row(rho@, false, i), sh);
            lemma_map_pol(|p: Seq<int>| fips_ntt(p), ev, i); axiom_ord(x); axiom_ord(y); lemma_map_pol(|p: Seq<int>| ord(p), eh, i); assert(pol(ord_vec(eh), i) == ord(x)); assert(pol(modq(e_hat.0@), i) == ord(x));
            axiom_perm(); assert(vadd(ord(x), ord(y)) =~= ord(vadd(x, y))); axiom_ord(vadd(x, y)); assert(pol(ints(t_hat.0@), i) == ord(vadd(x, y)));
            lemma_map_pol(|p: Seq<int>| unord(p), ints(t_hat.0@), i); assert(pol(u, i) == vadd(x, y));
            assert(pol(tt, i) =~= kg_ti(d@, i)) by { assert forall|k: int| 0 <= k < 256 implies pol(tt, i)[k] == kg_ti(d@, i)[k] by { assert((256 * i + k) / 256 == i && (256 * i + k) % 256 == k); } }
        }
        lemma_pol_ext(u, tt, 3);
    }
    let ghost ah = a_hat.0@;
//@ after let encap
    proof {
        let at = encap.transpose_a_hat.0@;
        assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] pol(ints(at), tr(i, j)) == ord(entry(rho@, true, i, j)) by { lemma_pol_modq(at, tr(i, j)); lemma_pol_modq(ah, tr(j, i)); assert(pol(at, tr(i, j)) == pol(ah, tr(j, i))); assert(pol(ints(ah), tr(j, i)) == ord(entry(rho@, false, j, i))); }
        lemma_matrix_canon(at, rho@, true);
    }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: keygen_internal
//@ ret r
//@ spec
    ensures r.is_keygen(seed@.take(32), seed@.skip(32))
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: decaps_internal
//@ ret r
//@ spec
    requires self.wf()
    ensures r.0@ == kem_decaps(self.dk_pke@, self.ek_pke.t_hat@, self.ek_pke.rho@, self.h_ek@, self.z@, c.0@)
//@ begin
    proof { assert forall|s: Seq<&[u8]>| s.len() == 2 implies #[trigger] concat(s) == s[0]@ + s[1]@ by { lemma_concat2(s); } assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: generate
//@ ret r
//@ spec
    ensures r.is_ok() ==> exists|s: Seq<u8>| s.len() == 64 && #[trigger] os_random(s) && r.unwrap().is_keygen(s.take(32), s.skip(32))
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: decaps
//@ ret r
//@ spec
    requires self.wf()
    ensures r.0@ == kem_decaps(self.dk_pke@, self.ek_pke.t_hat@, self.ek_pke.rho@, self.h_ek@, self.z@, c.0@)
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: encapsulation_key
//@ ret r
//@ spec
    requires self.wf()
    ensures r == self.ek_pke
//@ sub self\.ek_pke\.clone\(\) => v_clone_ek(&self.ek_pke)
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl DecapKey :: as_bytes
//@ ret r
//@ spec
    ensures r@ == self.dk_pke@ + ek_bytes(self.ek_pke.t_hat@, self.ek_pke.rho@) + self.h_ek@ + self.z@
//@ tail
    proof { assert(out@ =~= self.dk_pke@ + ek_bytes(self.ek_pke.t_hat@, self.ek_pke.rho@) + self.h_ek@ + self.z@); }
//@end
}
#[verifier::external_body] pub fn v_clone_ek(e: &EncapKey) -> (r: EncapKey) ensures r == *e { unimplemented!() }
pub open spec fn all_reduced(t: Seq<u8>) -> bool { inrange(dec12(t), 0, 3329) }
pub proof fn lemma_enc_dec3(b0: int, b1: int, b2: int) requires 0 <= b0 < 256, 0 <= b1 < 256, 0 <= b2 < 256
    ensures ({ let d0 = b0 + 256 * (b1 % 16); let d1 = b1 / 16 + 16 * b2; let e0 = d0 % 3329; let e1 = d1 % 3329;
        &&& (0 <= d0 < 3329 && 0 <= d1 < 3329) == (e0 % 256 == b0 && e0 / 256 + 16 * (e1 % 16) == b1 && e1 / 16 == b2)
        &&& 0 <= e0 / 256 + 16 * (e1 % 16) < 256 && 0 <= e1 / 16 < 256 })
{
    let (h, l) = (b1 % 16, b1 / 16); assert(b1 == 16 * l + h && 0 <= h < 16 && 0 <= l < 16); let d0 = b0 + 256 * h; let d1 = l + 16 * b2; let e0 = d0 % 3329; let e1 = d1 % 3329;
    assert(e0 == (if d0 < 3329 { d0 } else { d0 - 3329 })); assert(e1 == (if d1 < 3329 { d1 } else { d1 - 3329 }));
    let (p0, p1, r0, r1) = (e0 / 256, e1 / 16, e0 % 256, e1 % 16); assert(e0 == 256 * p0 + r0 && 0 <= r0 < 256 && 0 <= p0 < 16); assert(e1 == 16 * p1 + r1 && 0 <= r1 < 16 && 0 <= p1 < 256);
    if d0 < 3329 { assert(p0 == h && r0 == b0); }
    if d1 < 3329 { assert(p1 == b2 && r1 == l); }
    if r0 == b0 && p0 + 16 * r1 == b1 && p1 == b2 { assert(p0 == h && r1 == l); }
}
pub proof fn lemma_enc_dec(t: Seq<u8>) requires t.len() == 1152 ensures (enc12(modz(dec12(t))) == t) == all_reduced(t)
{
    let d = dec12(t); let e = modz(d); let x = enc12(e);
    assert forall|g: int| 0 <= g < 384 implies (0 <= #[trigger] d[2 * g] < 3329 && 0 <= d[2 * g + 1] < 3329) == (x[3 * g] == t[3 * g] && x[3 * g + 1] == t[3 * g + 1] && x[3 * g + 2] == t[3 * g + 2]) by {
        assert((2 * g) % 2 == 0 && (2 * g) / 2 == g && (2 * g + 1) / 2 == g && (2 * g + 1) % 2 == 1); assert((3 * g) / 3 == g && (3 * g + 1) / 3 == g && (3 * g + 2) / 3 == g && (3 * g) % 3 == 0 && (3 * g + 1) % 3 == 1 && (3 * g + 2) % 3 == 2);
        lemma_enc_dec3(t[3 * g] as int, t[3 * g + 1] as int, t[3 * g + 2] as int);
    }
    if all_reduced(t) { assert forall|k: int| 0 <= k < 1152 implies x[k] == t[k] by { let g = k / 3; assert(0 <= d[2 * g] < 3329 && 0 <= d[2 * g + 1] < 3329); assert(k == 3 * g || k == 3 * g + 1 || k == 3 * g + 2); } assert(x =~= t); }
    if x == t { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < 3329 by { let g = i / 2; assert(0 <= d[2 * g] < 3329 && 0 <= d[2 * g + 1] < 3329); assert(i == 2 * g || i == 2 * g + 1); } }
}
impl EncapKey {
    // ML-KEM.Encaps_internal (algorithm 17)
    pub open spec fn is_encaps(self, m: Seq<u8>, k: Seq<u8>, c: Seq<u8>) -> bool {
        let h = sha3_256(ek_bytes(self.t_hat@, self.rho@)); k == kem_k(m, h) && c == kpke_enc(self.t_hat@, self.rho@, m, kem_r(m, h))
    }
//@fn graviola/src/mid/mlkem768.rs :: impl EncapKey :: from_bytes
//@ ret r
//@ spec
    ensures r.is_ok() == all_reduced(input@.take(1152)), r.is_ok() ==> r.unwrap().wf() && ek_bytes(r.unwrap().t_hat@, r.unwrap().rho@) == input@ && r.unwrap().t_hat@ == input@.take(1152)
//@ sub if t_hat != Coeffs::from_bytes\(&t_hat\)\.to_bytes\(\) => if !v_eq(&t_hat, &Coeffs::from_bytes(&t_hat).to_bytes())
//@ before if
    proof { lemma_enc_dec(input@.take(1152)); }
//@ tail
    proof { assert(ek_bytes(t_hat@, rho@) =~= input@); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl EncapKey :: encaps
//@ ret r
//@ spec
    requires self.wf()
    ensures r.is_ok() ==> exists|m: Seq<u8>| m.len() == 32 && #[trigger] os_random(m) && self.is_encaps(m, r.unwrap().0.0@, r.unwrap().1.0@)
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl EncapKey :: as_bytes
//@ ret r
//@ spec
    ensures r@ == ek_bytes(self.t_hat@, self.rho@)
//@ tail
    proof { assert(out@ =~= ek_bytes(self.t_hat@, self.rho@)); }
//@end
//@fn graviola/src/mid/mlkem768.rs :: impl EncapKey :: encaps_internal
//@ ret r
//@ spec
    requires self.wf()
    ensures self.is_encaps(m.0@, r.0.0@, r.1.0@)
//@ begin
    proof { assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); } }
//@end
}
#[verifier::external_body] pub fn v_eq(a: &[u8; 1152], b: &[u8; 1152]) -> (r: bool) ensures r == (a@ == b@) { a == b }
}
