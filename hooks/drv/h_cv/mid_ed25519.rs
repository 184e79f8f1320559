#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_reduce(x: &[u8; 64]) -> [u8; 32] { Scalar::reduce_from_le_bytes(x).to_le_bytes() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_madd(x: &[u64; 4], y: &[u64; 4], c: &[u64; 4]) -> [u8; 32] { Scalar::madd_n25519(x, y, c).to_le_bytes() }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_canonical(x: &[u8; 32]) -> Option<[u8; 32]> { Scalar::try_from_le_bytes(x).map(|s| s.to_le_bytes()) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_decompress(x: &[u8; 32]) -> Option<([u64; 8], [u8; 32], [u64; 8])> { EdwardsPoint::decompress_from(x).ok().map(|p| (p.0, p.compress().0, p.negate().0)) }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_double(k: &[u64; 4], p: &[u64; 8], b: &[u64; 4]) -> [u8; 32] { EdwardsPoint::scalarmuldouble(&Scalar(*k), &EdwardsPoint(*p), &Scalar(*b)).compress().0 }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_basemul(k: &[u64; 4]) -> [u8; 32] { Scalar(*k).base_mul().compress().0 }
#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_ed_clamp(k: &[u8; 32]) -> [u64; 4] { UnreducedScalar::clamp_from_le_bytes(k).0 }
