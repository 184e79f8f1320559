// multiplication of the base point of P-384 with a stored 5-bit window table (trusted: the table holds the multiples 1..16 of G; the driver compares every entry)
verus! {
pub mod precomp { use super::*;
    #[verifier::external_body] pub exec const CURVE_GENERATOR_PRECOMP_W5: JacobianMontPointTableW5 ensures tab5(CURVE_GENERATOR_PRECOMP_W5@, G()) { [0u64; 288] }
}
pub proof fn lemma_gtab() ensures forall|t: Seq<u64>| #[trigger] tab5(t, G()) ==> wf5(t) && t5p(t) == G()
{ lemma_g_on(); assert forall|t: Seq<u64>| #[trigger] tab5(t, G()) implies wf5(t) && t5p(t) == G() by { lemma_t5p(t, G()); } }
impl JacobianMontPoint {
//@fn @F@ :: impl JacobianMontPoint :: base_multiply
//@ ret r
//@ spec
    requires scalar.ok() ensures r.ok(), r.pt() == smul(scalar.v(), G())
//@ begin
    proof { lemma_gtab(); }
//@end
//@fn @F@ :: impl JacobianMontPoint :: public_base_multiply
//@ ret r
//@ spec
    requires scalar.ok() ensures r.ok(), r.pt() == smul(scalar.v(), G())
//@ begin
    proof { lemma_gtab(); }
//@end
}
}
