// Trusted contracts of standard-library functions (shared by the units).
#[allow(unused_imports)] use vstd::std_specs::cmp::*;
#[allow(unused_imports)] use vstd::arithmetic::power2::*;
#[allow(unused_imports)] use vstd::arithmetic::div_mod::*;
#[allow(unused_imports)] use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;

pub assume_specification<T: core::clone::Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> #[trigger] final(s)@[i] == v;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [core::cmp::min] (a: T, b: T) -> (r: T) where T: core::cmp::Ord + core::marker::Destruct
    ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == core::cmp::Ordering::Greater { b } else { a });

pub assume_specification [u32::rotate_left] (a: u32, n: u32) -> (r: u32)
    ensures 0 < n < 32 ==> r == ((a << n) | (a >> ((32 - n) as u32)));
pub assume_specification [u32::rotate_right] (a: u32, n: u32) -> (r: u32)
    ensures 0 < n < 32 ==> r == ((a >> n) | (a << ((32 - n) as u32)));
pub assume_specification [u64::rotate_left] (a: u64, n: u32) -> (r: u64)
    ensures 0 < n < 64 ==> r == ((a << n) | (a >> ((64 - n) as u32)));
pub assume_specification [u64::rotate_right] (a: u64, n: u32) -> (r: u64)
    ensures 0 < n < 64 ==> r == ((a >> n) | (a << ((64 - n) as u32)));

pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// second half of split_at_mut
#[verifier::external_body] pub fn v_skip_mut(s: &mut [u8], n: usize) -> (r: &mut [u8]) requires n <= old(s)@.len()
    ensures r@ == old(s)@.skip(n as int), final(r)@.len() == r@.len() ==> final(s)@.len() == old(s)@.len() && final(s)@.take(n as int) == old(s)@.take(n as int) && final(s)@.skip(n as int) == final(r)@ { s.split_at_mut(n).1 }
// split_at_mut, split_first_mut, split_last_mut (results as values of the two parts)
#[verifier::external_body] pub fn v_split_at_mut<T>(s: &mut [T], n: usize) -> (r: (&mut [T], &mut [T])) requires n <= old(s)@.len()
    ensures r.0@ == old(s)@.take(n as int), r.1@ == old(s)@.skip(n as int), final(r.0)@.len() == n && final(r.1)@.len() == old(s)@.len() - n ==> final(s)@.len() == old(s)@.len() && final(s)@.take(n as int) == final(r.0)@ && final(s)@.skip(n as int) == final(r.1)@ && final(s)@ == final(r.0)@ + final(r.1)@ { s.split_at_mut(n) }
#[verifier::external_body] pub fn v_split_first_mut<T>(s: &mut [T]) -> (r: Option<(&mut T, &mut [T])>)
    ensures r.is_some() == (old(s)@.len() > 0), r.is_none() ==> final(s)@ == old(s)@, r.is_some() ==> *r.unwrap().0 == old(s)@[0] && r.unwrap().1@ == old(s)@.skip(1) && (final(r.unwrap().1)@.len() == old(s)@.len() - 1 ==> final(s)@.len() == old(s)@.len() && final(s)@[0] == *final(r.unwrap().0) && final(s)@.skip(1) == final(r.unwrap().1)@ && final(s)@ == seq![*final(r.unwrap().0)] + final(r.unwrap().1)@) { s.split_first_mut() }
#[verifier::external_body] pub fn v_split_last_mut<T>(s: &mut [T]) -> (r: Option<(&mut T, &mut [T])>)
    ensures r.is_some() == (old(s)@.len() > 0), r.is_none() ==> final(s)@ == old(s)@, r.is_some() ==> *r.unwrap().0 == old(s)@.last() && r.unwrap().1@ == old(s)@.drop_last() && (final(r.unwrap().1)@.len() == old(s)@.len() - 1 ==> final(s)@.len() == old(s)@.len() && final(s)@.last() == *final(r.unwrap().0) && final(s)@.drop_last() == final(r.unwrap().1)@ && final(s)@ == final(r.unwrap().1)@.push(*final(r.unwrap().0))) { s.split_last_mut() }
pub fn v_get_mut_to<T>(s: &mut [T], n: usize) -> (r: Option<&mut [T]>)
    ensures r.is_some() == (n <= old(s)@.len()), r.is_none() ==> final(s)@ == old(s)@, r.is_some() ==> r.unwrap()@ == old(s)@.take(n as int) && final(s)@ == final(r.unwrap())@ + old(s)@.skip(n as int)
{ if n <= s.len() { Some(&mut s[..n]) } else { None } }
pub open spec fn div_up(a: int, n: int) -> int { a / n + (if a % n == 0 { 0int } else { 1 }) }
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == div_up(a as int, b as int);
pub open spec fn v_div_spec(a: int, n: int) -> int { a / n }
pub fn v_div(a: usize, n: usize) -> (r: usize) requires n > 0 ensures r == a as int / n as int, r <= a
{ proof { assert(a as int / n as int <= a) by (nonlinear_arith) requires n > 0, a >= 0; } a / n }
pub fn v_div_up(a: usize, n: usize) -> (r: usize) requires n > 0 ensures r == div_up(a as int, n as int), r <= a, r * n >= a
{
    proof { lemma_div_up(a as int, n as int); lemma_fundamental_div_mod(a as int, n as int); 
        assert(a as int / n as int <= a && (a as int % n as int != 0 ==> a as int / n as int + 1 <= a)) by (nonlinear_arith) requires n > 0, a >= 0, a as int == n as int * (a as int / n as int) + (a as int % n as int); }
    a / n + (if a % n == 0 { 0 } else { 1 })
}
pub proof fn lemma_div_up(a: int, n: int) requires a >= 0, n > 0
    ensures div_up(a, n) * n >= a, (div_up(a, n) - 1) * n < a, div_up(a, n) >= 0, div_up(a, n) == (a + n - 1) / n, a > 0 ==> div_up(a, n) > 0
{
    lemma_fundamental_div_mod(a, n); lemma_mod_bound(a, n);
    let q = a / n; let r = a % n;
    assert(q >= 0) by (nonlinear_arith) requires q == a / n, a >= 0, n > 0;
    assert((q + 1) * n == n * q + n) by (nonlinear_arith); assert(q * n == n * q) by (nonlinear_arith); assert((q - 1) * n == n * q - n) by (nonlinear_arith);
    if r == 0 { lemma_fundamental_div_mod_converse(a + n - 1, n, q, n - 1); } else { lemma_fundamental_div_mod_converse(a + n - 1, n, q + 1, r - 1); }
}
pub proof fn lemma_chunk(i: int, n: int, len: int) requires n > 0, len >= 0, 0 <= i < len / n
    ensures 0 <= i * n, i * n + n <= len, (i + 1) * n == i * n + n
{
    lemma_fundamental_div_mod(len, n); lemma_mod_bound(len, n);
    assert(0 <= i * n && i * n + n <= len && (i + 1) * n == i * n + n) by (nonlinear_arith) requires 0 <= i < len / n, n > 0, len == n * (len / n) + len % n, len % n >= 0;
}
pub proof fn lemma_chunk_up(i: int, n: int, len: int) requires n > 0, len >= 0, 0 <= i < div_up(len, n)
    ensures 0 <= i * n < len, (i + 1) * n == i * n + n, i + 1 < div_up(len, n) ==> i * n + n <= len, i + 1 == div_up(len, n) ==> i * n + n >= len
{
    lemma_div_up(len, n); let d = div_up(len, n);
    assert(0 <= i * n) by (nonlinear_arith) requires i >= 0, n > 0;
    assert(i * n <= (d - 1) * n) by (nonlinear_arith) requires i <= d - 1, n > 0;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    if i + 1 < d { assert((i + 1) * n <= (d - 1) * n) by (nonlinear_arith) requires i + 1 <= d - 1, n > 0; }
}
// big-endian / little-endian byte strings of a natural number
pub open spec fn be(x: nat, n: nat) -> Seq<u8> decreases n
    { if n == 0 { Seq::empty() } else { be(x / 256, (n - 1) as nat).push((x % 256) as u8) } }
pub open spec fn le(x: nat, n: nat) -> Seq<u8> decreases n
    { if n == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le(x / 256, (n - 1) as nat) } }
pub open spec fn be_val(s: Seq<u8>) -> nat decreases s.len()
    { if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len()
    { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) } }

pub proof fn lemma_be_len(x: nat, n: nat) ensures be(x, n).len() == n decreases n
    { if n > 0 { lemma_be_len(x / 256, (n - 1) as nat); } }
pub proof fn lemma_le_len(x: nat, n: nat) ensures le(x, n).len() == n decreases n
    { if n > 0 { lemma_le_len(x / 256, (n - 1) as nat); } }

// `T::to_be_bytes` etc. return an array type this verifier cannot name; the call goes through these shims, whose bodies are the call.
pub trait VBytes<const K: usize>: Sized {
    spec fn nat_of(self) -> nat;
    fn v_to_be_bytes(self) -> (r: [u8; K]) ensures r@ == be(self.nat_of(), K as nat);
    fn v_to_le_bytes(self) -> (r: [u8; K]) ensures r@ == le(self.nat_of(), K as nat);
}
impl VBytes<2> for u16 { open spec fn nat_of(self) -> nat { self as nat }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() } }
impl VBytes<4> for u32 { open spec fn nat_of(self) -> nat { self as nat }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() } }
impl VBytes<8> for u64 { open spec fn nat_of(self) -> nat { self as nat }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() } }
impl VBytes<8> for usize { open spec fn nat_of(self) -> nat { self as nat }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() } }
impl VBytes<16> for u128 { open spec fn nat_of(self) -> nat { self as nat }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 16]) { self.to_be_bytes() }
    #[verifier::external_body] fn v_to_le_bytes(self) -> (r: [u8; 16]) { self.to_le_bytes() } }
#[verifier::external_body] pub fn v_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == be_val(b@) { u16::from_be_bytes(b) }
#[verifier::external_body] pub fn v_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == le_val(b@) { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == be_val(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn v_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == le_val(b@) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == be_val(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn v_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r as nat == le_val(b@) { u64::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u128_from_be_bytes(b: [u8; 16]) -> (r: u128) ensures r as nat == be_val(b@) { u128::from_be_bytes(b) }
#[verifier::external_body] pub fn v_u128_from_le_bytes(b: [u8; 16]) -> (r: u128) ensures r as nat == le_val(b@) { u128::from_le_bytes(b) }
// `slice.try_into().unwrap()` to an array
pub trait VArr<T> {
    spec fn elems(&self) -> Seq<T>;
    fn v_try_into_unwrap<const K: usize>(&self) -> (r: [T; K]) requires self.elems().len() == K ensures r@ == self.elems();
}
impl<T: Copy> VArr<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_try_into_unwrap<const K: usize>(&self) -> (r: [T; K]) { <[T; K]>::try_from(self).ok().unwrap() }
}
// element i of `as_chunks` / `as_chunks_mut`
pub trait VChunk<T> {
    spec fn celems(&self) -> Seq<T>;
    fn v_chunk<const K: usize>(&self, i: usize) -> (r: &[T; K]) requires i * K + K <= self.celems().len() ensures r@ == self.celems().subrange(i * K, i * K + K);
    fn v_chunk_mut<const K: usize>(&mut self, i: usize) -> (r: &mut [T; K]) requires i * K + K <= old(self).celems().len() ensures r@ == old(self).celems().subrange(i * K, i * K + K), final(self).celems() == old(self).celems().take(i * K) + final(r)@ + old(self).celems().skip(i * K + K), final(self).celems().subrange(i * K, i * K + K) == final(r)@;
    fn v_arr_mut<const K: usize>(&mut self, lo: usize) -> (r: &mut [T; K]) requires lo + K <= old(self).celems().len() ensures r@ == old(self).celems().subrange(lo as int, lo + K), final(self).celems() == old(self).celems().take(lo as int) + final(r)@ + old(self).celems().skip(lo + K), final(self).celems().subrange(lo as int, lo + K) == final(r)@;
    fn v_arr_range_mut<const K: usize>(&mut self, lo: usize, hi: usize) -> (r: &mut [T; K]) requires lo <= hi <= old(self).celems().len(), hi - lo == K ensures r@ == old(self).celems().subrange(lo as int, lo + K), final(self).celems() == old(self).celems().take(lo as int) + final(r)@ + old(self).celems().skip(lo + K), final(self).celems().subrange(lo as int, lo + K) == final(r)@;
}
impl<T> VChunk<T> for [T] {
    #[verifier::external_body] fn v_arr_range_mut<const K: usize>(&mut self, lo: usize, hi: usize) -> (r: &mut [T; K]) { (&mut self[lo..hi]).try_into().ok().unwrap() }
    open spec fn celems(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_chunk<const K: usize>(&self, i: usize) -> (r: &[T; K]) { self[i * K..i * K + K].try_into().ok().unwrap() }
    #[verifier::external_body] fn v_chunk_mut<const K: usize>(&mut self, i: usize) -> (r: &mut [T; K]) { (&mut self[i * K..i * K + K]).try_into().ok().unwrap() }
    #[verifier::external_body] fn v_arr_mut<const K: usize>(&mut self, lo: usize) -> (r: &mut [T; K]) { (&mut self[lo..lo + K]).try_into().ok().unwrap() }
}
#[verifier::external_body] pub fn v_try_array<const K: usize>(s: &[u8]) -> (r: Option<[u8; K]>) ensures r.is_some() == (s@.len() == K), r.is_some() ==> r.unwrap()@ == s@ { s.try_into().ok() }
#[verifier::external_body] pub fn v_try_array_ref<const K: usize>(s: &[u8]) -> (r: Option<&[u8; K]>) ensures r.is_some() == (s@.len() == K), r.is_some() ==> r.unwrap()@ == s@ { s.try_into().ok() }
} // verus!
