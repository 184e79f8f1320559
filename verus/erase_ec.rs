//@item @F@ :: struct SharedSecret
impl SharedSecret {
//@fn @F@ :: impl Drop for SharedSecret :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
//@item @F@ :: struct Scalar
impl Scalar {
//@fn @F@ :: impl Drop for Scalar :: drop
//@ spec
    ensures final(self).0.is_zero()
//@end
}
