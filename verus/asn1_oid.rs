verus! {
// X.690 8.19: base 128, the continuation bit on all but the last octet
pub open spec fn b128_hi(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { b128_hi(n / 128).push((128 + n % 128) as u8) } }
pub open spec fn b128(n: nat) -> Seq<u8> { b128_hi(n / 128).push((n % 128) as u8) }
pub open spec fn arcs(p: Seq<usize>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { arcs(p.drop_last()) + b128(p.last() as nat) } }
pub open spec fn oid_enc(p: Seq<usize>) -> Seq<u8> { seq![(p[0] * 40 + p[1]) as u8] + arcs(p.skip(2)) }
pub proof fn lemma_b128_hi(n: nat, l: nat) requires (l == 0 ==> n == 0), l > 0 ==> pow2((7 * (l - 1)) as nat) <= n < pow2((7 * l) as nat)
    ensures b128_hi(n).len() == l, forall|k: int| 0 <= k < l ==> #[trigger] b128_hi(n)[k] == 128 + (n as int / pow2((7 * (l - 1 - k)) as nat) as int) % 128
    decreases l
{
    lemma2_to64();
    if l > 0 {
        let m = (l - 1) as nat; vstd::arithmetic::power2::lemma_pow2_pos((7 * m) as nat); 
        if m > 0 {
            vstd::arithmetic::power2::lemma_pow2_adds((7 * (m - 1)) as nat, 7); vstd::arithmetic::power2::lemma_pow2_adds((7 * m) as nat, 7);
            assert(7 * (m - 1) + 7 == 7 * m); assert(7 * m + 7 == 7 * l);
        }
        lemma_b128_hi(n / 128, m);
        assert forall|k: int| 0 <= k < l implies #[trigger] b128_hi(n)[k] == 128 + (n as int / pow2((7 * (l - 1 - k)) as nat) as int) % 128 by {
            if k < l - 1 {
                assert(b128_hi(n)[k] == b128_hi(n / 128)[k]); let e = (7 * (m - 1 - k)) as nat;
                vstd::arithmetic::power2::lemma_pow2_adds(7, e); vstd::arithmetic::power2::lemma_pow2_pos(e);
                vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 128, pow2(e) as int); assert(7 + e == 7 * (l - 1 - k));
            } else { assert(7 * (l - 1 - k) == 0); assert(pow2(0) == 1); assert(b128_hi(n)[k] == (128 + n % 128) as u8); assert(n as int / 1 == n); }
        }
    }
}
pub proof fn lemma_b128(n: usize, c: int) requires n >= 0x7f, c > 0, pow2((7 * (c - 1)) as nat) <= n < pow2((7 * c) as nat)
    ensures b128(n as nat).len() == c, forall|k: int| 0 <= k < c - 1 ==> #[trigger] b128(n as nat)[k] == 128 + (n as int / pow2((7 * (c - 1 - k)) as nat) as int) % 128, b128(n as nat)[c - 1] == n % 128
{
    lemma2_to64();
    let l = (c - 1) as nat;
    if l > 0 {
        vstd::arithmetic::power2::lemma_pow2_adds((7 * (l - 1)) as nat, 7); vstd::arithmetic::power2::lemma_pow2_adds((7 * l) as nat, 7);
        assert(7 * (l - 1) + 7 == 7 * l); assert(7 * l + 7 == 7 * c);
    }
    lemma_b128_hi(n as nat / 128, l);
    assert forall|k: int| 0 <= k < c - 1 implies #[trigger] b128(n as nat)[k] == 128 + (n as int / pow2((7 * (c - 1 - k)) as nat) as int) % 128 by {
        let e = (7 * (l - 1 - k)) as nat; assert(b128(n as nat)[k] == b128_hi(n as nat / 128)[k]);
        vstd::arithmetic::power2::lemma_pow2_adds(7, e); vstd::arithmetic::power2::lemma_pow2_pos(e);
        vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 128, pow2(e) as int); assert(7 + e == 7 * (c - 1 - k));
    }
}
pub proof fn lemma_ilog_b128(n: usize, r: u32) requires n >= 0x7f, pow2(r as nat) <= n < pow2((r + 1) as nat), r < 64
    ensures ({ let c = div_up((r + 1) as int, 7); c > 0 && pow2((7 * (c - 1)) as nat) <= n < pow2((7 * c) as nat) })
{
    let c = div_up((r + 1) as int, 7);
    if 7 * (c - 1) < r { vstd::arithmetic::power2::lemma_pow2_strictly_increases((7 * (c - 1)) as nat, r as nat); }
    if r + 1 < 7 * c { vstd::arithmetic::power2::lemma_pow2_strictly_increases((r + 1) as nat, (7 * c) as nat); }
}
pub proof fn lemma_shr7(n: usize, s: u32) requires s < 64 ensures ((n >> s) as u8 | 0x80u8) == 128 + (n as int / pow2(s as nat) as int) % 128
{
    vstd::bits::lemma_usize_shr_is_div(n, s as usize);
    assert(n >> s == n >> (s as usize)) by (bit_vector) requires s < 64;
    let x = n >> s; assert(((x as u8) | 0x80u8) == 128 + x % 128) by (bit_vector);
}
impl ObjectId {
//@fn graviola/src/high/asn1.rs :: impl ObjectId :: from_path
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ ret r
//@ spec
    requires path@.len() >= 2, path@[0] <= 2, path@[1] < 40, oid_enc(path@).len() <= 16
    ensures r.inv(), r.b() == oid_enc(path@)
//@ loop 1
    invariant 2 <= i <= path@.len(), r.used == 1 + arcs(path@.subrange(2, i as int)).len(), r.b() == seq![(path@[0] * 40 + path@[1]) as u8] + arcs(path@.subrange(2, i as int)), r.inv(), path@.len() >= 2, oid_enc(path@).len() <= 16
    ensures i == path@.len()
    decreases path@.len() - i
//@ lbegin 1
    let ghost i0 = i as int; let ghost pre = r.b(); let ghost u0 = r.used as int;
    proof { if i < path@.len() { lemma_arcs(path@, i as int); } }
//@ loop 2
    invariant 1 <= chunks <= c0, c0 == b128(item as nat).len(), pow2((7 * (c0 - 1)) as nat) <= item < pow2((7 * c0) as nat), u0 + c0 <= 16, c0 <= 10, item >= 0x7f, i == i0 + 1, 
        r.used == u0 + (c0 - chunks), r.inv(), r.b() == pre + b128(item as nat).take(c0 - chunks)
    decreases chunks
//@ before while chunks > 1
    let ghost c0 = chunks as int;
    proof { lemma_b128(item, c0); assert(b128(item as nat).take(0) =~= Seq::empty()); assert(r.b() =~= pre + b128(item as nat).take(0)); }
//@ lbegin 2
    let ghost rb = r.b();
    proof { lemma_b128(item, c0); let k = c0 - chunks; lemma_shr7(item, ((chunks - 1) * 7) as u32); assert(b128(item as nat).take(k + 1) =~= b128(item as nat).take(k).push(b128(item as nat)[k])); }
//@ lend 2
    proof { assert(r.b() =~= rb.push(b128(item as nat)[c0 - chunks - 1])); assert(r.b() =~= pre + b128(item as nat).take(c0 - chunks)); }
//@ before let mut chunks
    proof { assert forall|lg: u32| lg < 64 && pow2(lg as nat) <= item < pow2((lg + 1) as nat) implies #[trigger] div_up((lg + 1) as int, 7) > 0 && pow2((7 * (div_up((lg + 1) as int, 7) - 1)) as nat) <= item < pow2((7 * div_up((lg + 1) as int, 7)) as nat) by { lemma_ilog_b128(item, lg); } }
//@ after #3 r\.used \+= 1
    proof { assert(b128(item as nat) =~= seq![item as u8]) by { reveal_with_fuel(b128_hi, 2); } assert(r.b() =~= pre + b128(item as nat)); }
//@ before #1 r\.buf\[r\.used\] = \(item & 0x7f
    let ghost rb = r.b();
    proof { assert(item & 0x7f == item % 128) by (bit_vector); assert(item & 0x7f < 128) by (bit_vector); assert(chunks == 1); assert(r.b() == pre + b128(item as nat).take(c0 - 1)); }
//@ after #5 r\.used \+= 1
    proof {
        let b = b128(item as nat); lemma_b128(item, b.len() as int); assert(b =~= b.take(b.len() - 1).push(b[b.len() - 1]));
        assert(r.b() =~= rb.push(b[c0 - 1])); assert(r.b() =~= pre + b128(item as nat));
    }
//@ lend 1
    proof { assert(pre + b128(item as nat) =~= seq![(path@[0] * 40 + path@[1]) as u8] + (arcs(path@.subrange(2, i0)) + b128(item as nat))); }
//@ tail
    proof { assert(path@.subrange(2, path@.len() as int) =~= path@.skip(2)); }
//@end
}
pub proof fn lemma_arcs(p: Seq<usize>, i: int) requires 2 <= i < p.len()
    ensures arcs(p.subrange(2, i + 1)) == arcs(p.subrange(2, i)) + b128(p[i] as nat), arcs(p.subrange(2, i + 1)).len() <= arcs(p.skip(2)).len()
    decreases p.len() - i
{
    let a = p.subrange(2, i + 1); assert(a.drop_last() =~= p.subrange(2, i));
    if i + 1 < p.len() { lemma_arcs(p, i + 1); } else { assert(a =~= p.skip(2)); }
}
}
