fn mk<const N: usize>(w: &[u64]) -> PosInt<N> { let mut r = PosInt::<N>::zero(); r.words[..w.len()].copy_from_slice(w); r.used = w.len(); r }
fn out<const N: usize>(p: PosInt<N>) -> Vec<u64> {
    // representation invariant: words above `used` are zero (relied on by expand() and as_words_with_len_of())
    assert!(p.used <= N && p.words[p.used..].iter().all(|w| *w == 0), "words above `used` are not zero");
    p.as_words().to_vec()
}
fn bytes(b: &[u8]) -> Vec<u64> { b.iter().map(|x| *x as u64).collect() }
fn go<const N: usize, const M: usize>(op: &str, a: &[&[u64]], k: u64) -> Option<Vec<u64>> {
    if op == "from_bytes" { let b: Vec<u8> = a[0].iter().map(|x| *x as u8).collect(); return PosInt::<N>::from_bytes(&b).ok().map(out) }
    let x: PosInt<N> = if a.is_empty() || a[0].len() > N { PosInt::zero() } else { mk(a[0]) };
    let y: PosInt<N> = if a.len() > 1 { mk(a[1]) } else { PosInt::zero() };
    Some(match op {
        "to_bytes" => { let mut b = vec![0xa5u8; k as usize]; let (o, l) = { let r = x.to_bytes(&mut b).ok()?; (r.as_ptr() as usize, r.len()) }; let _ = o; bytes(&b[..l]) }
        "to_bytes_asn1" => { let mut b = vec![0xa5u8; k as usize]; let l = x.to_bytes_asn1(&mut b).ok()?.len(); bytes(&b[..l]) }
        "to_bytes_fixed" => { let mut b = vec![0xa5u8; k as usize]; x.to_bytes_fixed(&mut b).ok()?; bytes(&b) }
        "len_bits" => vec![x.len_bits() as u64], "len_bytes" => vec![x.len_bytes() as u64], "ctz" => vec![x.count_trailing_zeroes() as u64],
        "is_even" => vec![x.is_even() as u64], "is_zero" => vec![x.is_zero() as u64],
        "coprime" => vec![x.is_coprime(&y) as u64],
        "invert" => return x.invert_vartime(&y).map(out),
        "shr" => out(x.shift_right_vartime(k as usize)), "shr1" => out(x.shift_right_1()),
        "equals" => vec![x.equals(&y) as u64], "less_than" => vec![x.less_than(&y) as u64],
        "montifier" => out(x.montifier()), "mont_neg_inverse" => vec![x.mont_neg_inverse()],
        "to_mont" => out(x.to_montgomery(&mk::<N>(a[1]).montifier(), &y)),
        "from_mont" => out(x.from_montgomery(&y)),
        "mont_sqr" => out(x.mont_sqr(&y, y.mont_neg_inverse())),
        "mont_sqr_in_place" => { let mut x = x; x.mont_sqr_in_place(&y, y.mont_neg_inverse()); out(x) }
        "mont_mul" => { let n = mk::<N>(a[2]); out(x.mont_mul(&y, &n, n.mont_neg_inverse())) }
        "mod_exp" => { let n = mk::<N>(a[2]); out(x.mod_exp(&y, &n, &n.montifier(), n.mont_neg_inverse())) }
        "mod_inverse" => out(x.mod_inverse(&y)),
        "add" => out(x.add(&y)), "add_shr1" => out(x.add_shift_right_1(&y)), "add_mod" => out(x.add_mod(&y, &mk(a[2]))),
        "sub" => out(x.sub(&y)), "sub_mod" => out(x.sub_mod(&y, &mk(a[2]))),
        "mul" => out(PosInt::<N>::mul::<M>(&x, &y)),
        "reduce" => { let n = mk::<N>(a[1]); out(mk::<M>(a[0]).reduce(&n, &n.montifier())) }
        "reduce_even" => out(mk::<M>(a[0]).reduce_even(&mk::<N>(a[1]))),
        "widen" => out(x.widen::<M>()),
        "expand" => { let mut x = x; x.expand(&y); out(x) }
        "fixed_one" => out(x.fixed_one()), "one" => out(PosInt::<N>::one()), "word" => out(PosInt::<N>::word(k)), "zero" => out(PosInt::<N>::zero()),
        _ => panic!("op"),
    })
}
#[unsafe(no_mangle)]
pub fn gvd_pi(op: &str, n: usize, a: &[&[u64]], k: u64) -> Option<Vec<u64>> {
    match n { 4 => go::<4, 8>(op, a, k), 32 => go::<32, 64>(op, a, k), 64 => go::<64, 128>(op, a, k), _ => panic!("width") }
}
#[unsafe(no_mangle)]
pub fn gvd_copy_row(z: &mut [u64], table: &[u64], h: u64, w: u64, i: u64) { low::bignum_copy_row_from_table(z, table, h, w, i) }
#[unsafe(no_mangle)]
pub fn gvd_secret_zeroed(w: &[u64]) -> Vec<u64> {
    let mut s = core::mem::ManuallyDrop::new(SecretPosInt::<64>::from(mk::<64>(w)));
    // SAFETY: verification only; the object is plain words
    unsafe { core::ptr::drop_in_place(&mut *s as *mut SecretPosInt<64>); let p = &*s as *const SecretPosInt<64> as *const u64; (0..65).map(|i| core::ptr::read_volatile(p.add(i))).collect() }
}
