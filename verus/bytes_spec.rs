// byte strings as numbers
verus! {
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn lemma_p256_add(a: nat, b: nat) ensures p256(a + b) == p256(a) * p256(b) decreases a
{ if a > 0 { lemma_p256_add((a - 1) as nat, b); assert((a + b - 1) as nat == (a - 1) as nat + b); let (x, y) = (p256((a - 1) as nat), p256(b)); assert(256 * (x * y) == (256 * x) * y) by (nonlinear_arith); } else { assert(p256(0) == 1); assert(1 * p256(b) == p256(b)); assert(a + b == b); } }
pub proof fn lemma_p256_pos(n: nat) ensures p256(n) > 0 decreases n { if n > 0 { lemma_p256_pos((n - 1) as nat); } }
pub proof fn lemma_p256_bp(k: nat) ensures p256(8 * k) == bp(k) decreases k
{ if k > 0 { lemma_p256_bp((k - 1) as nat); assert(8 * k == 8 + 8 * (k - 1)); lemma_p256_add(8, (8 * (k - 1)) as nat); reveal_with_fuel(p256, 9); } }
pub proof fn lemma_p256_pow2(k: nat) ensures p256(k) == pow2(8 * k) decreases k
{ lemma2_to64(); if k > 0 { lemma_p256_pow2((k - 1) as nat); assert(8 * k == 8 + 8 * (k - 1)); lemma_pow2_adds(8, (8 * (k - 1)) as nat); } }
pub proof fn lemma_p256_mono(a: nat, b: nat) requires a <= b ensures p256(a) <= p256(b)
{ lemma_p256_add(a, (b - a) as nat); lemma_p256_pos((b - a) as nat); lemma_p256_pos(a); let (x, y) = (p256(a), p256((b - a) as nat)); assert(x * y >= x) by (nonlinear_arith) requires x > 0, y >= 1; }
pub proof fn lemma_be_append(a: Seq<u8>, b: Seq<u8>) ensures be_val(a + b) == be_val(a) * p256(b.len()) + be_val(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(be_val(a) * 1 == be_val(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last()); lemma_be_append(a, b.drop_last());
        let (x, y, z) = (be_val(a), p256((b.len() - 1) as nat), be_val(b.drop_last()));
        assert((x * y + z) * 256 == x * (256 * y) + z * 256) by (nonlinear_arith);
    }
}
pub proof fn lemma_be_bound(s: Seq<u8>) ensures be_val(s) < p256(s.len()) decreases s.len() { if s.len() > 0 { lemma_be_bound(s.drop_last()); } }
pub proof fn lemma_be_of(x: nat, n: nat) ensures be_val(be(x, n)) == x % p256(n), be(x, n).len() == n decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; lemma_be_of(x / 256, m); let s = be(x, n); assert(s.drop_last() =~= be(x / 256, m)); let p = p256(m) as int; lemma_p256_pos(m);
        lemma_breakdown(x as int, 256, p);
    } else { assert(x as int % 1 == 0); }
}
pub proof fn lemma_be_zeros(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures be_val(s) == 0 decreases s.len() { if s.len() > 0 { lemma_be_zeros(s.drop_last()); } }
pub proof fn lemma_be_trim(s: Seq<u8>, i: int) requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] == 0 ensures be_val(s.skip(i)) == be_val(s)
{ assert(s =~= s.take(i) + s.skip(i)); lemma_be_append(s.take(i), s.skip(i)); lemma_be_zeros(s.take(i)); assert(0 * p256(s.skip(i).len()) == 0); }
// leading zero bytes
pub open spec fn lz(s: Seq<u8>) -> nat decreases s.len() { if s.len() > 0 && s[0] == 0 { 1 + lz(s.skip(1)) } else { 0 } }
pub proof fn lemma_lz(s: Seq<u8>) ensures lz(s) <= s.len(), forall|i: int| 0 <= i < lz(s) ==> s[i] == 0, lz(s) < s.len() ==> s[lz(s) as int] != 0 decreases s.len()
{ if s.len() > 0 && s[0] == 0 { lemma_lz(s.skip(1)); let t = s.skip(1); assert forall|i: int| 0 <= i < lz(s) implies s[i] == 0 by { if i > 0 { assert(s[i] == t[i - 1]); } } if lz(s) < s.len() { assert(s[lz(s) as int] == t[lz(t) as int]); } } }
pub proof fn lemma_be_lead(s: Seq<u8>) requires s.len() > 0, s[0] != 0 ensures be_val(s) != 0
{ assert(s =~= s.take(1) + s.skip(1)); lemma_be_append(s.take(1), s.skip(1)); let t = s.take(1); assert(t.drop_last() =~= Seq::empty()); assert(be_val(t.drop_last()) == 0); assert(be_val(t) == s[0]); lemma_p256_pos(s.skip(1).len()); let (x, y) = (be_val(t), p256(s.skip(1).len())); assert(x * y > 0) by (nonlinear_arith) requires x > 0, y > 0; }
pub proof fn lemma_be_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), be_val(a) == be_val(b) ensures a == b decreases a.len()
{ if a.len() > 0 { lemma_be_inj(a.drop_last(), b.drop_last()); assert(a =~= a.drop_last() + seq![a.last()]); assert(b =~= b.drop_last() + seq![b.last()]); } else { assert(a =~= b); } }
pub proof fn lemma_le_append(a: Seq<u8>, b: Seq<u8>) ensures le_val(a + b) == le_val(a) + p256(a.len()) * le_val(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(1 * le_val(b) == le_val(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b); lemma_le_append(a.skip(1), b);
        let (x, y, z) = (le_val(a.skip(1)), p256((a.len() - 1) as nat), le_val(b));
        assert(256 * (x + y * z) == 256 * x + (256 * y) * z) by (nonlinear_arith);
    }
}
pub proof fn lemma_le_bound(s: Seq<u8>) ensures le_val(s) < p256(s.len()) decreases s.len() { if s.len() > 0 { lemma_le_bound(s.skip(1)); } }
pub proof fn lemma_le_of(x: nat, n: nat) ensures le_val(le(x, n)) == x % p256(n), le(x, n).len() == n decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; lemma_le_of(x / 256, m); let s = le(x, n); assert(s.skip(1) =~= le(x / 256, m)); lemma_p256_pos(m);
        lemma_breakdown(x as int, 256, p256(m) as int);
    } else { assert(x as int % 1 == 0); }
}
pub proof fn lemma_le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), le_val(a) == le_val(b) ensures a == b decreases a.len()
{ if a.len() > 0 { lemma_le_inj(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a =~= b); } }
}
