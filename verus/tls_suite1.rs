//@constfn rustls-graviola/src/suites.rs :: - :: static @S@
//@ spec
    ensures r.ok(), r.id() == CipherSuite::@S@
//@ begin
    proof { assert(1u64 << 24 == 16777216u64) by (bit_vector); }
//@end
