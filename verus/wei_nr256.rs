verus! {
impl StaticPrivateKey {
//@fn @F@ :: impl StaticPrivateKey :: new_random
//@ ret o
//@ spec
    ensures o.is_ok() ==> o.unwrap().wf() && exists|b: Seq<u8>| #[trigger] os_random(b) && b.len() == @BB@ && be_val(b) == o.unwrap().d()
//@ sub \.map\(Self\) => .map(|k: PrivateKey| -> (z: Self) ensures z.0 == k { Self(k) })
//@ begin
    proof { assert(forall|b: Seq<u8>| #[trigger] SystemRandom::gives(b) == os_random(b)); }
//@end
}
}
