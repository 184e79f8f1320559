// FIPS 202 table of round constants
pub open spec fn fips_rc() -> Seq<u64> { seq![
    0x0000000000000001u64, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
    0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008] }
pub uninterp spec fn keccak_raw(s: Seq<u64>) -> [u64; 25];
pub open spec fn keccak(s: Seq<u64>) -> Seq<u64> { keccak_raw(s)@ }
pub open spec fn keccak_n(s: Seq<u64>, n: nat) -> Seq<u64> decreases n { if n == 0 { s } else { keccak(keccak_n(s, (n - 1) as nat)) } }
// leaf (assembly / portable rounds): bounded driver checks
#[verifier::external_body]
pub fn sha3_keccak_f1600(s: &mut [u64; 25], rc: &[u64; 24]) requires rc@ == fips_rc() ensures final(s)@ == keccak(old(s)@) { unimplemented!() }

pub open spec fn xor_block(s: Seq<u64>, b: Seq<u8>) -> Seq<u64>
    { Seq::new(s.len(), |i: int| if 8 * i + 8 <= b.len() { s[i] ^ (le_val(b.subrange(8 * i, 8 * i + 8)) as u64) } else { s[i] }) }
pub open spec fn absorb(s: Seq<u64>, m: Seq<u8>, R: int) -> Seq<u64> decreases m.len()
    { if m.len() < R || R <= 0 { s } else { keccak(xor_block(absorb(s, m.take(m.len() - R), R), m.skip(m.len() - R))) } }
pub open spec fn zero_state() -> Seq<u64> { Seq::new(25, |i: int| 0u64) }
// domain bits, multi-rate padding
pub open spec fn fips_padded(m: Seq<u8>, R: int, pd: u8) -> Seq<u8> {
    let n = R - m.len() % R as nat;
    if n == 1 { m + seq![pd | 0x80] } else { m + seq![pd] + Seq::new((n - 2) as nat, |i: int| 0u8) + seq![0x80u8] }
}
pub open spec fn sponge_state(m: Seq<u8>, R: int, pd: u8) -> Seq<u64> { absorb(zero_state(), fips_padded(m, R, pd), R) }
pub open spec fn state_byte(s: Seq<u64>, i: int) -> u8 { le(s[i / 8] as nat, 8)[i % 8] }
// the i-th output byte from state s
pub open spec fn stream(s: Seq<u64>, R: int, i: int) -> u8 { state_byte(keccak_n(s, (i / R) as nat), i % R) }

pub proof fn lemma_absorb(s: Seq<u64>, a: Seq<u8>, b: Seq<u8>, R: int)
    requires R > 0, a.len() % R as nat == 0, b.len() % R as nat == 0
    ensures absorb(s, a + b, R) == absorb(absorb(s, a, R), b, R)
    decreases b.len()
{
    if b.len() < R { lemma_small_mod(b.len(), R as nat); assert(a + b =~= a); if a.len() < R {} }
    else {
        let m = a + b; let n = m.len() - R;
        assert(m.take(n) =~= a + b.take(b.len() - R));
        assert(m.skip(n) =~= b.skip(b.len() - R));
        assert((b.len() - R) as nat % R as nat == 0) by { lemma_mod_add_multiples_vanish((b.len() - R) as int, R); }
        lemma_absorb(s, a, b.take(b.len() - R), R);
    }
}
pub proof fn lemma_absorb_len(s: Seq<u64>, m: Seq<u8>, R: int) requires s.len() == 25 ensures absorb(s, m, R).len() == 25 decreases m.len()
    { }
pub proof fn lemma_keccak_n_add(s: Seq<u64>, a: nat, b: nat) ensures keccak_n(keccak_n(s, a), b) == keccak_n(s, a + b) decreases b
    { if b > 0 { lemma_keccak_n_add(s, a, (b - 1) as nat); } }
pub proof fn lemma_keccak_n_len(s: Seq<u64>, a: nat) requires s.len() == 25 ensures keccak_n(s, a).len() == 25 { }
pub proof fn lemma_stream_shift(s: Seq<u64>, R: int, k: nat, i: int) requires R > 0, i >= 0
    ensures stream(keccak_n(s, k), R, i) == stream(s, R, k * R + i)
{
    lemma_keccak_n_add(s, k, (i / R) as nat);
    lemma_div_multiples_vanish_fancy_(k as int, i, R);
    assert((k * R + i) / R == k + i / R); 
    lemma_mod_multiples_vanish(k as int, i, R);
    assert((k * R + i) % R == i % R) by { assert(k * R == R * k) by (nonlinear_arith); }
}
pub proof fn lemma_div_multiples_vanish_fancy_(k: int, i: int, R: int) requires R > 0, i >= 0, k >= 0 ensures (k * R + i) / R == k + i / R
    { lemma_fundamental_div_mod(i, R); lemma_mod_bound(i, R);
      assert(k * R + i == (k + i / R) * R + i % R) by (nonlinear_arith) requires i == R * (i / R) + i % R;
      lemma_fundamental_div_mod_converse(k * R + i, R, k + i / R, i % R); }

//@item graviola/src/mid/sha3.rs :: const RC
//@item graviola/src/mid/sha3.rs :: const R_ZEROES
//@ sub const R_ZEROES: \[u8; (.*?)\] = (\[.*?\]); => exec const R_ZEROES: [u8; \1] ensures R_ZEROES@ =~= Seq::new(168, |i: int| 0u8) { \2 }
//@end
//@item graviola/src/mid/sha3.rs :: const SHAKE_128_R_BYTES
//@item graviola/src/mid/sha3.rs :: const SHAKE_256_R_BYTES
//@item graviola/src/mid/sha3.rs :: const SHA3_256_R_BYTES
//@item graviola/src/mid/sha3.rs :: const SHA3_512_R_BYTES
//@item graviola/src/mid/sha3.rs :: const SHA_PAD_BYTE
//@item graviola/src/mid/sha3.rs :: const SHAKE_PAD_BYTE
#[verifier::external_body]
pub fn v_as_chunks<const N: usize>(s: &[u8]) -> (r: (&[[u8; N]], &[u8]))
    requires N > 0
    ensures r.0@.len() == s@.len() / N as nat, r.1@ == s@.skip(s@.len() / N as nat * N),
        forall|i: int| 0 <= i < r.0@.len() ==> #[trigger] r.0@[i]@ == s@.subrange(i * N, i * N + N)
{ s.as_chunks() }

//@item graviola/src/mid/sha3.rs :: struct SqueezingSponge
//@item graviola/src/mid/sha3.rs :: struct Sponge
// a reader at stream position pos, having started from state s0
pub open spec fn reading(s: Seq<u64>, buffer: Seq<u8>, off: int, R: int, s0: Seq<u64>, pos: int) -> bool {
    &&& pos >= 0 && 0 <= off <= R && buffer.len() == R
    &&& off == R ==> pos % R == 0 && s == keccak_n(s0, (pos / R) as nat)
    &&& off < R ==> pos % R == off && s == keccak_n(s0, (pos / R + 1) as nat) && forall|i: int| off <= i < R ==> #[trigger] buffer[i] == stream(s0, R, pos - off + i)
}
pub open spec fn read_ok(sa: Seq<u64>, buf0: Seq<u8>, off0: int, R: int, sb: Seq<u64>, buf1: Seq<u8>, off1: int, out: Seq<u8>, s0: Seq<u64>, pos: int) -> bool {
    &&& reading(sb, buf1, off1, R, s0, pos + out.len())
    &&& forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == stream(s0, R, pos + i)
}
pub proof fn lemma_unfold_read(sa: Seq<u64>, buf0: Seq<u8>, off0: int, R: int, sb: Seq<u64>, buf1: Seq<u8>, off1: int, out: Seq<u8>)
    requires forall|s0: Seq<u64>, pos: int| reading(sa, buf0, off0, R, s0, pos) ==> #[trigger] read_ok(sa, buf0, off0, R, sb, buf1, off1, out, s0, pos)
    ensures forall|s0: Seq<u64>, pos: int| #[trigger] reading(sa, buf0, off0, R, s0, pos) ==> reading(sb, buf1, off1, R, s0, pos + out.len()) && forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == stream(s0, R, pos + i)
{ assert forall|s0: Seq<u64>, pos: int| #[trigger] reading(sa, buf0, off0, R, s0, pos) implies reading(sb, buf1, off1, R, s0, pos + out.len()) && forall|i: int| 0 <= i < out.len() ==> #[trigger] out[i] == stream(s0, R, pos + i) by { 
    assert(read_ok(sa, buf0, off0, R, sb, buf1, off1, out, s0, pos)); } }
pub proof fn lemma_div_exact(k: int, R: int) requires R > 0, k >= 0 ensures (k * R + R - 1) / R == k
    { assert(k * R + R - 1 == k * R + (R - 1)); lemma_fundamental_div_mod_converse(k * R + R - 1, R, k, R - 1); }
pub open spec fn consumed(off0: int, R: int, L: int) -> int { if off0 == R { 0 } else if R - off0 < L { R - off0 } else { L } }
// what the body of shake_read does, in terms of its inputs
pub open spec fn read_body(sa: Seq<u64>, buf0: Seq<u8>, off0: int, R: int, L: int, sb: Seq<u64>, buf1: Seq<u8>, off1: int, out: Seq<u8>) -> bool {
    let c = consumed(off0, R, L);
    let rest = L - c; let w = rest / R; let t = rest - w * R; let s1 = keccak_n(sa, w as nat);
    &&& out.len() == L
    &&& forall|i: int| 0 <= i < c ==> #[trigger] out[i] == buf0[off0 + i]
    &&& rest == 0 ==> sb == sa && buf1 == buf0 && off1 == off0 + c
    &&& rest > 0 ==> forall|i: int| c <= i < c + w * R ==> #[trigger] out[i] == stream(sa, R, i - c)
    &&& rest > 0 && t == 0 ==> sb == s1 && buf1 == buf0 && off1 == R
    &&& rest > 0 && t > 0 ==> sb == keccak_n(s1, 1) && off1 == t && buf1.len() == R && (forall|i: int| 0 <= i < R ==> #[trigger] buf1[i] == stream(s1, R, i))
        && (forall|i: int| c + w * R <= i < L ==> #[trigger] out[i] == buf1[i - c - w * R])
}
pub proof fn lemma_read(sa: Seq<u64>, buf0: Seq<u8>, off0: int, R: int, L: int, sb: Seq<u64>, buf1: Seq<u8>, off1: int, out: Seq<u8>, s0: Seq<u64>, pos: int)
    requires R > 0, L >= 0, reading(sa, buf0, off0, R, s0, pos), read_body(sa, buf0, off0, R, L, sb, buf1, off1, out)
    ensures read_ok(sa, buf0, off0, R, sb, buf1, off1, out, s0, pos)
{
    let c = consumed(off0, R, L);
    let rest = L - c; let w = rest / R; let t = rest - w * R;
    lemma_fundamental_div_mod(rest, R); lemma_mod_bound(rest, R); lemma_fundamental_div_mod(pos, R); lemma_mod_bound(pos, R);
    let q = pos / R; assert(w * R == R * w) by (nonlinear_arith); assert(q * R == R * q) by (nonlinear_arith);
    assert(q >= 0 && w >= 0) by { lemma_div_pos_is_pos(pos, R); lemma_div_pos_is_pos(rest, R); }
    if rest == 0 {
        if off0 < R {
            if off0 + c == R {
                assert((q + 1) * R == q * R + R) by (nonlinear_arith);
                lemma_fundamental_div_mod_converse(pos + L, R, q + 1, 0);
            } else { lemma_fundamental_div_mod_converse(pos + L, R, q, off0 + c); 
                assert forall|i: int| off1 <= i < R implies #[trigger] buf1[i] == stream(s0, R, pos + L - off1 + i) by {} }
        }
    } else {
        let p1 = pos + c; let q1 = if off0 == R { q } else { q + 1 };
        assert((q + 1) * R == q * R + R) by (nonlinear_arith);
        assert(p1 == q1 * R && sa == keccak_n(s0, q1 as nat));
        assert((q1 + w) * R == q1 * R + w * R) by (nonlinear_arith);
        lemma_keccak_n_add(s0, q1 as nat, w as nat); lemma_keccak_n_add(s0, (q1 + w) as nat, 1);
        assert forall|i: int| 0 <= i < L implies #[trigger] out[i] == stream(s0, R, pos + i) by {
            if i < c {} else if i < c + w * R { let k = i - c; lemma_stream_shift(s0, R, q1 as nat, k); assert(0 <= k < w * R); }
            else { let k = i - c - w * R; lemma_stream_shift(s0, R, (q1 + w) as nat, k); }
        }
        if t == 0 { lemma_fundamental_div_mod_converse(pos + L, R, q1 + w, 0); }
        else { lemma_fundamental_div_mod_converse(pos + L, R, q1 + w, t);
            assert forall|i: int| off1 <= i < R implies #[trigger] buf1[i] == stream(s0, R, pos + L - off1 + i) by { lemma_stream_shift(s0, R, (q1 + w) as nat, i); } }
    }
}
pub open spec fn concat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
pub open spec fn rate_ok(R: int) -> bool { 8 <= R <= 168 && R % 8 == 0 }
impl<const R: usize> SqueezingSponge<R> {
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize> SqueezingSponge<R> :: squeeze_current
//@ spec
    requires old(output)@.len() <= R, rate_ok(R as int), 
    ensures final(self).s@ == old(self).s@, final(output)@.len() == old(output)@.len(),
        forall|i: int| 0 <= i < final(output)@.len() ==> #[trigger] final(output)@[i] == state_byte(old(self).s@, i)
//@ loop 1
    invariant output@.len() == old(output)@.len(), self.s@ == old(self).s@,
        forall|k: int| 0 <= k < 8 * i && k < output@.len() ==> output@[k] == #[trigger] state_byte(self.s@, k)
//@ lbegin 1
    proof { lemma_le_len(self.s@[i as int] as nat, 8); }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize> SqueezingSponge<R> :: squeeze
//@ spec
    requires rate_ok(R as int)
    ensures final(output)@.len() == old(output)@.len(),
        final(self).s@ == keccak_n(old(self).s@, ((old(output)@.len() + R - 1) / R as int) as nat),
        forall|i: int| 0 <= i < final(output)@.len() ==> #[trigger] final(output)@[i] == stream(old(self).s@, R as int, i)
//@ begin
    let ghost s0 = self.s@; let ghost ol = output@.len();
//@ loop 1
    invariant output@.len() == ol,
        self.s@ == keccak_n(s0, vi1 as nat),
        forall|i: int| 0 <= i < ol && i < vi1 * R ==> output@[i] == #[trigger] stream(s0, R as int, i)
//@ lbegin 1
    let ghost o0 = output@;
//@ lend 1
    proof { 
        assert forall|i: int| 0 <= i < ol && i < (vi1 + 1) * R implies output@[i] == #[trigger] stream(s0, R as int, i) by {
            if i < vi1 * R { assert(output@[i] == o0[i]); }
            else { let j = i - vi1 * R; lemma_stream_shift(s0, R as int, vi1 as nat, j); assert(j / R as int == 0 && j % R as int == j) by { lemma_small_mod(j as nat, R as nat); lemma_basic_div(j, R as int); } }
        }
    }
//@ end
    proof {
        lemma_div_up(ol as int, R as int);
    }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize> SqueezingSponge<R> :: into_single_squeeze
//@ spec
    requires old(output)@.len() < R, rate_ok(R as int)
    ensures final(output)@.len() == old(output)@.len(), forall|i: int| 0 <= i < final(output)@.len() ==> #[trigger] final(output)@[i] == state_byte(self.s@, i)
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize> SqueezingSponge<R> :: shake_read
//@ sub Ord::min => v_min
//@ spec
    requires rate_ok(R as int), *old(buffer_offset) <= R
    ensures final(output)@.len() == old(output)@.len(), *final(buffer_offset) <= R,
        forall|s0: Seq<u64>, pos: int| #[trigger] reading(old(self).s@, old(buffer)@, *old(buffer_offset) as int, R as int, s0, pos) ==> {
            &&& reading(final(self).s@, final(buffer)@, *final(buffer_offset) as int, R as int, s0, pos + old(output)@.len())
            &&& forall|i: int| 0 <= i < old(output)@.len() ==> #[trigger] final(output)@[i] == stream(s0, R as int, pos + i)
        }
//@ begin
    let ghost outf = final(output)@; let ghost L = output@.len() as int;
    let ghost sa = self.s@; let ghost buf0 = buffer@; let ghost off0 = *buffer_offset as int;
//@ after let output
    let ghost rest = output@.len() as int;
    proof { let c = consumed(off0, R as int, L); assert(rest == L - c); }
//@ before return
    proof { assert forall|s0: Seq<u64>, pos: int| reading(sa, buf0, off0, R as int, s0, pos) implies #[trigger] read_ok(sa, buf0, off0, R as int, self.s@, buffer@, *buffer_offset as int, outf, s0, pos)
        by { lemma_read(sa, buf0, off0, R as int, L, self.s@, buffer@, *buffer_offset as int, outf, s0, pos); }
        lemma_unfold_read(sa, buf0, off0, R as int, self.s@, buffer@, *buffer_offset as int, outf);
    }
//@ before let \(whole
    proof { lemma_fundamental_div_mod(rest, R as int); lemma_mod_bound(rest, R as int); assert(whole_chunks * R == R as int * (rest / R as int) && whole_chunks * R <= rest) by (nonlinear_arith) requires whole_chunks == rest / R as int, rest == R as int * (rest / R as int) + rest % R as int, rest % R as int >= 0;
        lemma_div_exact(whole_chunks as int, R as int); assert((1int * R + R - 1) / R as int == 1) by { lemma_div_exact(1, R as int); } }
//@ end
    proof { 
        assert forall|s0: Seq<u64>, pos: int| reading(sa, buf0, off0, R as int, s0, pos) implies #[trigger] read_ok(sa, buf0, off0, R as int, self.s@, buffer@, *buffer_offset as int, outf, s0, pos)
        by { lemma_read(sa, buf0, off0, R as int, L, self.s@, buffer@, *buffer_offset as int, outf, s0, pos); }
        lemma_unfold_read(sa, buf0, off0, R as int, self.s@, buffer@, *buffer_offset as int, outf);
    }
//@end
}
impl<const R: usize, const PAD: u8> Sponge<R, PAD> {
    pub open spec fn wf(self) -> bool { rate_ok(R as int) && self.buffer.wf() && self.buffer.used < R }
    pub open spec fn models(self, m: Seq<u8>) -> bool {
        let n = m.len() - m.len() % R as nat;
        self.wf() && self.sponge.s@ == absorb(zero_state(), m.take(n), R as int) && self.buffer.data() == m.skip(n)
    }
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize, const PAD: u8> Sponge<R, PAD> :: new
//@ ret r
//@ sub \[0; _\] => [0; 25]
//@ spec
    requires rate_ok(R as int)
    ensures r.models(Seq::empty())
//@ sub Self \{\s*(sponge.*)\}\s*\}$ => let vr = Self { \1 }; proof { assert(vr.sponge.s@ =~= zero_state()); assert(vr.buffer.data() =~= Seq::<u8>::empty().skip(0)); assert(Seq::<u8>::empty().take(0) =~= Seq::empty()); } vr }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize, const PAD: u8> Sponge<R, PAD> :: absorb_block
//@ spec
    requires rate_ok(R as int)
    ensures final(self).buffer == old(self).buffer, final(self).sponge.s@ == keccak(xor_block(old(self).sponge.s@, block@))
//@ begin
    let ghost s0 = self.sponge.s@; let ghost b = block@;
//@ loop 1
    invariant self.buffer == old(self).buffer, forall|k: int| 0 <= k < i ==> #[trigger] self.sponge.s@[k] == s0[k] ^ (le_val(b.subrange(8 * k, 8 * k + 8)) as u64),
        forall|k: int| i <= k < 25 ==> #[trigger] self.sponge.s@[k] == s0[k]
//@ before sha3_keccak_f1600
    proof { assert(self.sponge.s@ =~= xor_block(s0, b)); }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize, const PAD: u8> Sponge<R, PAD> :: new_for_message
//@ ret r
//@ sub in message => in message.iter()
//@ spec
    requires rate_ok(R as int)
    ensures r.s@ == sponge_state(concat(message@), R as int, PAD)
//@ loop 1
    invariant s.models(concat(message@.take(vi1 as int)))
//@ lbegin 1
    proof { let a = message@.take(vi1 + 1); assert(a.drop_last() =~= message@.take(vi1 as int)); assert(a.last() == message@[vi1 as int]); }
//@ before for
    proof { assert(message@.take(0) =~= Seq::empty()); assert(concat(message@.take(0)) =~= Seq::empty()); }
//@ tail
    proof { assert(message@.take(message@.len() as int) =~= message@); }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize, const PAD: u8> Sponge<R, PAD> :: absorb
//@ sub bytes\.as_chunks\(\) => v_as_chunks::<R>(bytes)
//@ sub in blocks => in blocks.iter()
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), forall|m: Seq<u8>| #[trigger] old(self).models(m) ==> final(self).models(m + bytes@)
//@ begin
    let ghost b0 = bytes@;
    let ghost all = self.buffer.data() + b0;
    let ghost n = all.len() - all.len() % R as nat;
    proof { if self.buffer.used == 0 { assert(all =~= b0); } lemma_fundamental_div_mod(all.len() as int, R as int); lemma_mod_bound(all.len() as int, R as int); }
//@ after let bytes
    let ghost rest = bytes@; let ghost dd = self.buffer.data();
    let ghost first = if self.buffer.used == R { self.buffer.data() } else { Seq::empty() };
    proof { 
        assert(first.len() > 0 ==> absorb(self.sponge.s@, first, R as int) == keccak(xor_block(self.sponge.s@, first))) by { if first.len() > 0 { assert(first.take(0) =~= Seq::empty()); assert(first.skip(0) =~= first); assert(absorb(self.sponge.s@, first.take(0), R as int) == self.sponge.s@); } }
        assert(first.len() % R as nat == 0) by { if first.len() > 0 { lemma_mod_self_0(R as int); } else { lemma_small_mod(0, R as nat); } }
    }
//@ before let \(blocks
    let ghost s1 = self.sponge.s@;
    proof { assert(s1 == absorb(old(self).sponge.s@, first, R as int)); assert(0 * R == 0); assert(rest.take(0int * R) =~= Seq::empty()); assert(absorb(s1, rest.take(0int * R), R as int) == s1); }
    let ghost nb = (rest.len() / R as nat) as int;
    proof { lemma_fundamental_div_mod(rest.len() as int, R as int); lemma_mod_bound(rest.len() as int, R as int); assert(nb * R == R * nb) by (nonlinear_arith); }
//@ loop 1
    invariant self.sponge.s@ == absorb(s1, rest.take(vi1 * R), R as int), self.buffer == pre_loop.buffer
//@ before for
    let ghost pre_loop = *self;
//@ lbegin 1
    proof { lemma_chunk(vi1 as int, R as int, rest.len() as int);
        let a = rest.take(vi1 * R); let b = rest.take((vi1 + 1) * R);
        assert(b.take(b.len() - R) =~= a); assert(b.skip(b.len() - R) =~= blocks@[vi1 as int]@); }
//@ end
    proof {
        let w = rest.take(nb * R);
        if old(self).buffer.used > 0 && first.len() == 0 { 
            assert(rest.len() == 0); lemma_small_mod(0, R as nat); lemma_small_mod(all.len(), R as nat); assert(n == 0);
            assert(nb * R == 0); 
        } else if first.len() > 0 { 
            assert(all =~= first + rest);
            assert(all.len() == R + rest.len()); lemma_mod_add_multiples_vanish(rest.len() as int, R as int); assert(n == R + nb * R);
        } else { assert(n == nb * R); }
        assert(all.take(n) =~= first + w);
        assert(w.len() % R as nat == 0) by { lemma_mod_multiples_basic(nb, R as int); }
        lemma_absorb(old(self).sponge.s@, first, w, R as int);
        assert(self.buffer.data() =~= all.skip(n));
        assert(self.sponge.s@ == absorb(old(self).sponge.s@, all.take(n), R as int));
        assert forall|m: Seq<u8>| #[trigger] old(self).models(m) implies final(self).models(m + b0) by { lemma_absorb_step(*old(self), *final(self), m, b0); }
    }
//@end
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize, const PAD: u8> Sponge<R, PAD> :: absorb_final
//@ ret r
//@ spec
    requires self.wf()
    ensures forall|m: Seq<u8>| #[trigger] self.models(m) ==> r.s@ == sponge_state(m, R as int, PAD)
//@ begin
    let ghost d = self.buffer.data(); let ghost u = self.buffer.used as int;
//@ before let padded
    let ghost pb = this.buffer.data(); let ghost s1 = this.sponge.s@;
    proof { 
        let k = R - u;
        let want = if k == 1 { d + seq![PAD | 0x80] } else { d + seq![PAD] + Seq::new((k - 2) as nat, |i: int| 0u8) + seq![0x80u8] };
        assert(pb =~= want);
    }
//@ tail
    proof { assert forall|m: Seq<u8>| #[trigger] self.models(m) implies this.sponge.s@ == sponge_state(m, R as int, PAD) by {
        let n = m.len() - m.len() % R as nat;
        lemma_mod_bound(m.len() as int, R as int); lemma_fundamental_div_mod(m.len() as int, R as int);
        assert(u == m.len() % R as nat) by { assert(self.buffer.data().len() == u); assert(m.skip(n).len() == m.len() % R as nat); }
        let pm = fips_padded(m, R as int, PAD);
        assert(pm =~= m.take(n) + pb);
        assert(pb.len() == R); assert(pm.len() == n + R);
        assert(pm.take(pm.len() - R) =~= m.take(n)); assert(pm.skip(pm.len() - R) =~= pb);
    } }
//@end
}
pub proof fn lemma_absorb_step<const R: usize, const PAD: u8>(a: Sponge<R, PAD>, b: Sponge<R, PAD>, m: Seq<u8>, bytes: Seq<u8>)
    requires a.models(m), b.wf(), ({ let all = a.buffer.data() + bytes; let n = all.len() - all.len() % R as nat;
        b.sponge.s@ == absorb(a.sponge.s@, all.take(n), R as int) && b.buffer.data() == all.skip(n) })
    ensures b.models(m + bytes)
{
    let all = a.buffer.data() + bytes; let n = all.len() - all.len() % R as nat;
    let k = m.len() - m.len() % R as nat; let mm = m + bytes; let kk = mm.len() - mm.len() % R as nat; let r = R as int;
    lemma_mod_bound(m.len() as int, r); lemma_fundamental_div_mod(m.len() as int, r);
    assert(m.skip(k).len() == m.len() % R as nat);
    let q = m.len() as int / r; assert(q * r == r * q) by (nonlinear_arith); assert(q >= 0) by { lemma_div_pos_is_pos(m.len() as int, r); }
    assert(mm.len() == all.len() + k && k == q * r);
    lemma_mod_multiples_vanish(q, all.len() as int, r); 
    assert(mm.len() as int % r == all.len() as int % r);
    assert(kk == k + n);
    lemma_mod_bound(all.len() as int, r); lemma_fundamental_div_mod(all.len() as int, r);
    assert(mm.take(kk) =~= m.take(k) + all.take(n)); assert(mm.skip(kk) =~= all.skip(n));
    let q2 = all.len() as int / r; assert(q2 * r == r * q2) by (nonlinear_arith);
    assert(k as nat % R as nat == 0) by { lemma_mod_multiples_basic(q, r); }
    assert(n as nat % R as nat == 0) by { lemma_mod_multiples_basic(q2, r); }
    lemma_absorb(zero_state(), m.take(k), all.take(n), r);
}

//@item graviola/src/mid/sha3.rs :: struct SqueezingSpongeObligation
impl<const R: usize> SqueezingSpongeObligation<R> {
//@fn graviola/src/mid/sha3.rs :: impl<const R: usize> SqueezingSpongeObligation<R> :: restitute
//@ ret r
//@ spec
    ensures r.s@ == keccak(self.0@)
//@end
}
