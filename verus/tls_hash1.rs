//@item rustls-graviola/src/hash.rs :: struct @N@
//@item rustls-graviola/src/hash.rs :: struct @N@Context
impl @N@ {
//@fn rustls-graviola/src/hash.rs :: impl hash::Hash for @N@ :: start
//@ ret r
//@ sub sig Box<dyn hash::Context> => @N@Context
//@ sub Box::new\((.*)\) => \1
//@ spec
    ensures r.0.m@ == Seq::<u8>::empty()
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Hash for @N@ :: hash
//@ ret r
//@ spec
    requires data@.len() < BOUND
    ensures r.b@ == sha2::digest@n@(data@)
//@ before hash::Output
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Hash for @N@ :: algorithm
//@ ret r
//@ spec
    ensures r == hash::HashAlgorithm::@A@
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Hash for @N@ :: output_len
//@ ret r
//@ sub OUTPUT_SZ => v_output_sz()
//@ spec
    ensures r == @L@, forall|m: Seq<u8>| #[trigger] sha2::digest@n@(m).len() == r
//@ begin
    proof { assert forall|m: Seq<u8>| #[trigger] sha2::digest@n@(m).len() == @L@ by { sha2::lemma_len@n@(m); } }
//@end
}
impl @N@Context {
//@fn rustls-graviola/src/hash.rs :: impl hash::Context for @N@Context :: fork_finish
//@ ret r
//@ spec
    requires self.0.m@.len() < BOUND
    ensures r.b@ == sha2::digest@n@(self.0.m@)
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Context for @N@Context :: fork
//@ ret r
//@ sub sig Box<dyn hash::Context> => Self
//@ sub Box::new\((.*)\) => \1
//@ spec
    ensures r.0.m@ == self.0.m@
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Context for @N@Context :: finish
//@ ret r
//@ sub sig self: Box<Self> => self
//@ spec
    requires self.0.m@.len() < BOUND
    ensures r.b@ == sha2::digest@n@(self.0.m@)
//@end
//@fn rustls-graviola/src/hash.rs :: impl hash::Context for @N@Context :: update
//@ spec
    requires old(self).0.m@.len() + data@.len() < BOUND
    ensures final(self).0.m@ == old(self).0.m@ + data@
//@end
}
