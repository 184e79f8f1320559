// C08 C18: byte-string conversions of PosInt
verus! {
//@fn graviola/src/low/posint.rs :: - :: trim_leading_zeroes
//@ ret r
//@ spec
    ensures r@ == bytes@.skip(lz(bytes@) as int), be_val(r@) == be_val(bytes@), r@.len() == bytes@.len() - lz(bytes@), r@.len() > 0 ==> r@[0] != 0
//@ sub ^\{ => { let mut bytes = bytes; let ghost b0 = bytes@;
//@ sub sig mut bytes => bytes
//@ loop 1
    invariant bytes@.len() + (lz(b0) - lz(bytes@)) == b0.len(), bytes@ == b0.skip(lz(b0) - lz(bytes@)), lz(bytes@) <= lz(b0) <= b0.len()
    decreases bytes@.len()
//@ before while
    proof { lemma_lz(b0); lemma_be_trim(b0, lz(b0) as int); assert(b0.skip(0) =~= b0); }
//@ before if
    proof { lemma_lz(bytes@); assert(bytes@.skip(1) =~= b0.skip(lz(b0) - lz(bytes@) + 1)); }
//@ tail
    proof { lemma_lz(bytes@); }
//@end
impl<const N: usize> PosInt<N> {
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: from_bytes
//@ ret r
//@ spec
    requires 1 <= N <= 0x10_0000
    ensures r.is_ok() == (bytes@.len() - lz(bytes@) <= 8 * N),
        r.is_ok() ==> r.unwrap().wf() && r.unwrap().v() == be_val(bytes@) && r.unwrap().used == div_up((bytes@.len() - lz(bytes@)) as int, 8) && (r.unwrap().used > 0 ==> r.unwrap().words@[r.unwrap().used - 1] != 0)
//@ sub let mut words = bytes\.rchunks_exact\(8\);
//@ sub in words\.by_ref\(\) => in bytes.rchunks_exact(8)
//@ sub words\.remainder\(\) => &bytes[..bytes.len() % 8]
//@ sub let mut final_word = 0 => let mut final_word: u64 = 0
//@ before let vlen1_0
    let ghost b = bytes@;
    proof { assert(be_val(b.skip(b.len() as int)) == 0); }
//@ loop 1
    invariant b == bytes@, vlen1_0 == b.len(), vn1 == b.len() / 8, b.len() <= 8 * N, r.wf(), r.used == vi1, r.v() == be_val(b.skip(b.len() - 8 * vi1)), vi1 > 0 && b.len() == 8 * vi1 && b[0] != 0 ==> r.words@[vi1 - 1] != 0
//@ before r\.push_word\(v_u64
    let ghost r0 = r;
//@ after r\.push_word\(v_u64
    proof {
        let n = b.len() as int; let (hi, lo) = (b.skip(n - 8 * vi1 - 8), b.skip(n - 8 * vi1)); assert(word_bytes@ =~= b.subrange(n - 8 * vi1 - 8, n - 8 * vi1)); assert(hi =~= word_bytes@ + lo);
        lemma_be_append(word_bytes@, lo); lemma_p256_bp(vi1 as nat);
        if n == 8 * vi1 + 8 && b[0] != 0 { assert(word_bytes@[0] == b[0]); lemma_be_lead(word_bytes@); }
    }
//@ before let vlen2_0
    proof { assert(remainder@ =~= b.take(b.len() as int % 8)); lemma_p256_mono(0, 7); }
//@ loop 2
    invariant remainder@ == b.take(b.len() as int % 8), vlen2_0 == remainder@.len(), vn2 == vlen2_0, vn2 < 8, final_word as nat == be_val(remainder@.take(vi2 as int)), final_word < p256(vi2 as nat), p256(vi2 as nat) <= p256(7)
//@ before final_word =
    proof {
        let t = remainder@.take(vi2 + 1); assert(t.drop_last() =~= remainder@.take(vi2 as int)); lemma_be_bound(t); lemma_p256_mono((vi2 + 1) as nat, 7); lemma_p256_mono((vi2 + 1) as nat, 8); lemma_p256_mono((vi2) as nat, 6); reveal_with_fuel(p256, 9);
        let (f, x) = (final_word, *byte as u64); assert(f < 0x1_0000_0000_0000 && x < 256 ==> ((f << 8) | x) == f * 256 + x) by (bit_vector);
    }
//@ before if final_word
    proof {
        let k = (b.len() % 8) as int; let n = b.len() as int; assert(remainder@.take(k) =~= remainder@); assert(b =~= remainder@ + b.skip(k)); assert(n - 8 * (n / 8) == k);
        lemma_be_append(remainder@, b.skip(k)); lemma_p256_bp((n / 8) as nat); if k > 0 && b[0] != 0 { lemma_be_lead(remainder@); }
        lemma_div_up(n, 8); assert(0 * p256(b.skip(k).len()) == 0);
    }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: to_bytes
//@ ret r
//@ spec
    requires self.wf()
    ensures r.is_ok() == (8 * self.used <= old(out)@.len()), r.is_ok() ==> r.unwrap()@.len() == 8 * self.used && be_val(r.unwrap()@) == self.v()
//@ sub out\.get_mut\(\.\.required_bytes\) => v_get_mut_to(out, required_bytes)
//@ before let vlen1_0
    let ghost k = self.used as int; let ghost w = self.words@.take(k);
    proof { self.lemma_used(k); assert(be_val(out@.skip(8 * k)) == 0); assert(w.take(0) =~= Seq::empty()); assert(val(w.take(0)) == 0); }
//@ loop 1
    invariant self.wf(), k == self.used, w == self.words@.take(k), out@.len() == 8 * k, vlen1_0 == 8 * k, vn1 == k, vlen1_1 == k, be_val(out@.skip(8 * k - 8 * vi1)) == val(w.take(vi1 as int))
//@ lbegin 1
    let ghost o0 = out@;
//@ lend 1
    proof { lemma_step(o0, out@, w, vi1 as int); }
//@ tail
    proof { assert(out@.skip(0) =~= out@); assert(w.take(k) =~= w); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: to_bytes_asn1
//@ ret r
//@ spec
    requires self.wf()
    ensures r.is_ok() == (8 * self.used + 1 <= old(out)@.len()), r.is_ok() ==> r.unwrap()@.len() == 8 * self.used + 1 && r.unwrap()@[0] == 0 && be_val(r.unwrap()@) == self.v()
//@ sub out\.get_mut\(\.\.required_bytes\) => v_get_mut_to(out, required_bytes)
//@ sub let \(_, val\) = out\.split_at_mut\(1\); => let val = v_skip_mut(out, 1);
//@ before out\[0\]
    let ghost k = self.used as int; let ghost w = self.words@.take(k);
//@ before let vlen1_0
    proof { self.lemma_used(k); assert(be_val(val@.skip(8 * k)) == 0); assert(w.take(0) =~= Seq::empty()); assert(crate::val(w.take(0)) == 0); }
//@ loop 1
    invariant self.wf(), k == self.used, w == self.words@.take(k), val@.len() == 8 * k, vlen1_0 == 8 * k, vn1 == k, vlen1_1 == k, be_val(val@.skip(8 * k - 8 * vi1)) == crate::val(w.take(vi1 as int))
//@ lbegin 1
    let ghost o0 = val@;
//@ lend 1
    proof { lemma_step(o0, val@, w, vi1 as int); }
//@ tail
    proof { assert(w.take(k) =~= w); let v = out@.skip(1); assert(v.skip(0) =~= v); assert(out@[0] == out@.take(1)[0]); lemma_be_trim(out@, 1); assert(w.take(k) =~= w); }
//@end
//@fn graviola/src/low/posint.rs :: impl<const N: usize> PosInt<N> :: to_bytes_fixed
//@ ret r
//@ spec
    requires self.wf()
    ensures final(out)@.len() == old(out)@.len(), r.is_ok() == (self.v() < p256(old(out)@.len())), r.is_ok() ==> be_val(final(out)@) == self.v(), r.is_err() ==> final(out)@ == old(out)@
//@ begin
    let ghost n = out@.len() as int;
    proof { lemma_p256_pow2(n as nat); assert forall|a: nat, b: nat| a <= b implies #[trigger] pow2(8 * a) <= #[trigger] pow2(8 * b) by { if a < b { lemma_pow2_strictly_increases(8 * a, 8 * b); } } }
//@ before let vlen1_0
    let ghost k = self.used as int; let ghost w = self.words@.take(k);
    proof { self.lemma_used(k); assert(be_val(out@.skip(n)) == 0); assert(w.take(0) =~= Seq::empty()); assert(val(w.take(0)) == 0); lemma_div_up(n, 8); }
//@ loop 1
    invariant self.wf(), k == self.used, w == self.words@.take(k), val(w) == self.v(), self.v() < p256(n as nat), out@.len() == n, vlen1_0 == n, vlen1_1 == k, vn1 == (if div_up(n, 8) <= k { div_up(n, 8) } else { k }),
        forall|i: int| 0 <= i < n - 8 * vi1 ==> out@[i] == 0, be_val(out@.skip(if 8 * vi1 <= n { n - 8 * vi1 } else { 0 })) == val(w.take(vi1 as int)), 8 * vi1 > n ==> vi1 == vn1 && val(w.take(vi1 as int)) == val(w)
//@ lbegin 1
    let ghost o0 = out@;
//@ lend 1
    proof { let z = be(w[vi1 as int] as nat, 8); lemma_be_of(w[vi1 as int] as nat, 8); if n - 8 * vi1 >= 8 { assert(z.skip(0) =~= z); assert(o0.len() == n); assert(out@.subrange(n - 8 * vi1 - 8, n - 8 * vi1) =~= z); lemma_step(o0, out@, w, vi1 as int); } else { lemma_step_last(o0, out@, w, vi1 as int); } }
//@ tail
    proof {
        lemma_div_up(n, 8); 
        if 8 * vn1 <= n { lemma_be_trim(out@, n - 8 * vn1); } else { assert(out@.skip(0) =~= out@); }
        assert(w.take(k) =~= w); if vn1 < k && 8 * vn1 == n { lemma_p256_bp(vn1 as nat); lemma_val_fits(w, vn1 as int); }
    }
//@end
}
// one word written from the back
pub proof fn lemma_step(o0: Seq<u8>, o: Seq<u8>, w: Seq<u64>, i: int)
    requires 0 <= i < w.len(), o0.len() == o.len(), o.len() >= 8 * i + 8, o.subrange(o.len() - 8 * i - 8, o.len() - 8 * i) == be(w[i] as nat, 8), o.skip(o.len() - 8 * i) == o0.skip(o.len() - 8 * i), be_val(o0.skip(o.len() - 8 * i)) == val(w.take(i))
    ensures be_val(o.skip(o.len() - 8 * (i + 1))) == val(w.take(i + 1))
{
    let n = o.len() as int; let (a, b) = (o.subrange(n - 8 * i - 8, n - 8 * i), o.skip(n - 8 * i)); assert(o.skip(n - 8 * (i + 1)) =~= a + b); lemma_be_append(a, b);
    lemma_be_of(w[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(w[i] as nat, p256(8)); lemma_p256_bp(i as nat);
    let t = w.take(i + 1); assert(t =~= w.take(i) + seq![w[i]]); lemma_val_append(w.take(i), seq![w[i]]); lemma_val1(seq![w[i]]); 
    assert(bp(i as nat) * w[i] == w[i] * bp(i as nat)) by (nonlinear_arith);
}
pub proof fn lemma_step_last(o0: Seq<u8>, o: Seq<u8>, w: Seq<u64>, i: int)
    requires 0 <= i < w.len(), o0.len() == o.len(), 8 * i < o.len() < 8 * i + 8, o.take(o.len() - 8 * i) == be(w[i] as nat, 8).skip(8 - (o.len() - 8 * i)), o.skip(o.len() - 8 * i) == o0.skip(o.len() - 8 * i), be_val(o0.skip(o.len() - 8 * i)) == val(w.take(i)), val(w) < p256(o.len())
    ensures be_val(o.skip(0)) == val(w.take(i + 1)), val(w.take(i + 1)) == val(w)
{
    let n = o.len() as int; let c = n - 8 * i; let (a, b) = (o.take(c), o.skip(c)); assert(o.skip(0) =~= a + b); lemma_be_append(a, b);
    lemma_p256_bp(i as nat); lemma_p256_bp((i + 1) as nat); lemma_p256_mono(n as nat, (8 * (i + 1)) as nat); lemma_val_fits(w, i + 1);
    let t = w.take(i + 1); assert(t =~= w.take(i) + seq![w[i]]); lemma_val_append(w.take(i), seq![w[i]]); lemma_val1(seq![w[i]]);
    lemma_p256_add((8 * i) as nat, c as nat); let (p, q, x) = (bp(i as nat) as int, p256(c as nat) as int, w[i] as int); assert(n == 8 * i + c);
    assert(x < q) by (nonlinear_arith) requires p * x < p * q, p > 0;
    let z = be(w[i] as nat, 8); lemma_be_of(w[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(w[i] as nat, p256(8));
    let (z1, z2) = (z.take(8 - c), z.skip(8 - c)); assert(z =~= z1 + z2); lemma_be_append(z1, z2);
    let h = be_val(z1) as int; if h > 0 { assert(h * q >= q) by (nonlinear_arith) requires h >= 1, q > 0; } assert(0 * q == 0);
    assert(p * x == x * p) by (nonlinear_arith);
}
}
