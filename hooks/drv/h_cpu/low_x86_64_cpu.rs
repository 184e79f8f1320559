#[unsafe(no_mangle)]
pub fn gvd_cpu_tokens() -> (bool, bool, bool) { (HaveAvx512ForAesGcm::check().is_some(), HaveSha256::check().is_some(), HaveBmi2::check().is_some()) }
#[unsafe(no_mangle)]
pub fn gvd_cpu_verify() { super::verify_cpu_features() }
