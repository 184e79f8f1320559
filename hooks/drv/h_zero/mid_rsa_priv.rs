#[allow(unsafe_code)]
#[unsafe(no_mangle)]
pub fn gvd_rsa_buffer(fill: u8) -> Vec<u8> {
    let mut b = core::mem::ManuallyDrop::new(RsaComponentsBuffer([fill; RsaComponentsBuffer::LEN]));
    // SAFETY: verification only; the object is plain bytes
    unsafe { core::ptr::drop_in_place(&mut *b as *mut RsaComponentsBuffer); let p = &*b as *const RsaComponentsBuffer as *const u8; (0..RsaComponentsBuffer::LEN).map(|i| core::ptr::read_volatile(p.add(i))).collect() }
}
