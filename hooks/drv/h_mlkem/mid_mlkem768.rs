type C768 = Coeffs<{ K * N }, Ntt>;
type M768 = Coeffs<{ K * N }, Normal>;
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_ntt(f: &[i16; 768]) -> Vec<u8> { let mut x = Coeffs::<{ K * N }, Normal>(*f, PhantomData).ntt(); x.reduce_in_place(); x.to_bytes().to_vec() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_dot(a: &[u8; 1152], s: &[u8; 1152]) -> Vec<i16> { C768::from_bytes(a).mul_and_inverse_ntt(&C768::from_bytes(s)).add(&Coeffs::zero()).0.to_vec() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_matrix(rho: &[u8; 32], t: bool) -> Vec<Vec<u8>> {
    let a = if t { Coeffs::sample_poly_transposed(rho) } else { Coeffs::sample_poly(rho) };
    a.0.chunks(768).map(|c| Coeffs::<{ K * N }, Ntt>(c.try_into().unwrap(), PhantomData).to_bytes().to_vec()).collect()
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_matvec(rho: &[u8; 32], s: &[u8; 1152], e: &[u8; 1152]) -> (Vec<u8>, Vec<i16>) {
    let s = C768::from_bytes(s);
    let a = Coeffs::sample_poly(rho);
    let r = a.mul_add(&s, &C768::from_bytes(e)).to_bytes().to_vec();
    (r, a.transpose().mul_and_inverse_ntt(&s).add(&Coeffs::zero()).0.to_vec())
}
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_cbd(b: &[u8; 128]) -> Vec<i16> { let mut o = [77i16; 256]; sample_cbd2(b, &mut o); o.to_vec() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_tail(msg: &[u8], n: usize) -> Vec<i16> { let mut o = vec![-1i16; n]; Shake128ForMlKem::new(&[msg]).tail_case(&mut o); o }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_sample(msg: &[u8]) -> Vec<i16> { let mut o = [-1i16; 256]; Shake128ForMlKem::new(&[msg]).sample_into(&mut o); o.to_vec() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_rej(b: &[u8; 504]) -> (Vec<i16>, u64) { let mut o = [-1i16; 256]; let n = low::mlkem_rej_uniform_vartime(&mut o, b); (o.to_vec(), n) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_scalar(op: u32, x: i16) -> i32 { match op { 0 => compress_4(x) as i32, 1 => compress_10(x) as i32, 2 => { let mut c = [0; 8]; c[3] = x; ((compress_1_x8(&c) >> 3) & 1) as i32 } 3 => decompress_4(x as u16) as i32, _ => decompress_10(x as u16) as i32 } }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_du(u: &[i16; 768]) -> (Vec<u8>, Vec<i16>) { let mut o = [0u8; 960]; Coeffs::<{ K * N }, Normal>(*u, PhantomData).compress_into_bytes_du_10(&mut o); (o.to_vec(), M768::decompress_from_bytes_du_10(&o).0.to_vec()) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_dv(v: &[i16; 256]) -> (Vec<u8>, Vec<i16>) { let mut o = [0u8; 128]; Coeffs::<N, Normal>(*v, PhantomData).compress_into_bytes_dv_4(&mut o); (o.to_vec(), Coeffs::<N, Normal>::decompress_from_bytes_dv_4(&o).0.to_vec()) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_msg(m: [u8; 32]) -> (Vec<i16>, [u8; 32]) { let c = Coeffs::<N, Normal>::from_message_bits(Message(m)); (c.0.to_vec(), c.to_message_bits().0) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_tomsg(v: &[i16; 256]) -> [u8; 32] { Coeffs::<N, Normal>(*v, PhantomData).to_message_bits().0 }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_mk_addsub(a: &[i16; 256], b: &[i16; 256], sub: bool) -> Vec<i16> { let x = Coeffs::<N, Normal>(*a, PhantomData); let y = Coeffs::<N, Normal>(*b, PhantomData); if sub { x.sub(&y) } else { x.add(&y) }.0.to_vec() }
