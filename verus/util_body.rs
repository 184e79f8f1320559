// C09..C15: conversions between byte strings and words
verus! {
pub mod util { use super::*;
//@fn graviola/src/mid/util.rs :: - :: little_endian_to_u64x4
//@ ret r
//@ spec
    ensures val(r@) == le_val(b@)
//@ sub = \[0; 4\] => = [0u64; 4]
//@ before let vlen1_0
    let ghost b0 = b@;
    proof { assert(b0.take(0) =~= Seq::empty()); assert(r@.take(0) =~= Seq::empty()); assert(val(r@.take(0)) == 0 && le_val(b0.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 32, vn1 == 4, b@ == b0, b0.len() == 32, val(r@.take(ir as int)) == le_val(b0.take(8 * ir))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let (i, w) = (ir as int, b0.subrange(8 * ir, 8 * ir + 8)); assert(b0.take(8 * i + 8) =~= b0.take(8 * i) + w); lemma_le_append(b0.take(8 * i), w);
        assert(r@.take(i + 1) =~= r0.take(i) + seq![r@[i]]); lemma_val_append(r0.take(i), seq![r@[i]]); lemma_val1(seq![r@[i]]); lemma_p256_bp(i as nat);
    }
//@ tail
    proof { assert(r@.take(4) =~= r@); assert(b0.take(32) =~= b0); }
//@end
//@fn graviola/src/mid/util.rs :: - :: little_endian_slice_to_u64x4
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() == 32), r.is_some() ==> val(r.unwrap()@) == le_val(bytes@)
//@ sub bytes\.try_into\(\)\.ok\(\)\? => v_try_array(bytes)?
//@end
//@fn graviola/src/mid/util.rs :: - :: u64x4_to_little_endian
//@ ret o
//@ spec
    ensures le_val(o@) == val(v@)
//@ before let vlen1_0
    proof { assert(r@.take(0) =~= Seq::empty()); assert(v@.take(0) =~= Seq::empty()); assert(le_val(r@.take(0)) == 0 && val(v@.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 32, vn1 == 4, r@.len() == 32, le_val(r@.take(8 * iv)) == val(v@.take(iv as int))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = iv as int; let w = r@.subrange(8 * i, 8 * i + 8); assert(w =~= le(v@[i] as nat, 8)); assert(r@.take(8 * i + 8) =~= r0.take(8 * i) + w); lemma_le_append(r0.take(8 * i), w);
        lemma_le_of(v@[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(v@[i] as nat, p256(8)); 
        assert(v@.take(i + 1) =~= v@.take(i) + seq![v@[i]]); lemma_val_append(v@.take(i), seq![v@[i]]); lemma_val1(seq![v@[i]]); lemma_p256_bp(i as nat);
    }
//@ tail
    proof { assert(r@.take(32) =~= r@); assert(v@.take(4) =~= v@); }
//@end
//@fn graviola/src/mid/util.rs :: - :: little_endian_to_u64x8
//@ ret r
//@ spec
    ensures val(r@) == le_val(b@)
//@ sub = \[0; 8\] => = [0u64; 8]
//@ before let vlen1_0
    let ghost b0 = b@;
    proof { assert(b0.take(0) =~= Seq::empty()); assert(r@.take(0) =~= Seq::empty()); assert(val(r@.take(0)) == 0 && le_val(b0.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 64, vn1 == 8, b@ == b0, b0.len() == 64, val(r@.take(ir as int)) == le_val(b0.take(8 * ir))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let (i, w) = (ir as int, b0.subrange(8 * ir, 8 * ir + 8)); assert(b0.take(8 * i + 8) =~= b0.take(8 * i) + w); lemma_le_append(b0.take(8 * i), w);
        assert(r@.take(i + 1) =~= r0.take(i) + seq![r@[i]]); lemma_val_append(r0.take(i), seq![r@[i]]); lemma_val1(seq![r@[i]]); lemma_p256_bp(i as nat);
    }
//@ tail
    proof { assert(r@.take(8) =~= r@); assert(b0.take(64) =~= b0); }
//@end
//@fn graviola/src/mid/util.rs :: - :: little_endian_slice_to_u64x8
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() == 64), r.is_some() ==> val(r.unwrap()@) == le_val(bytes@)
//@ sub bytes\.try_into\(\)\.ok\(\)\? => v_try_array(bytes)?
//@end
//@fn graviola/src/mid/util.rs :: - :: u64x8_to_little_endian
//@ ret o
//@ spec
    ensures le_val(o@) == val(v@)
//@ before let vlen1_0
    proof { assert(r@.take(0) =~= Seq::empty()); assert(v@.take(0) =~= Seq::empty()); assert(le_val(r@.take(0)) == 0 && val(v@.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 64, vn1 == 8, r@.len() == 64, le_val(r@.take(8 * iv)) == val(v@.take(iv as int))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = iv as int; let w = r@.subrange(8 * i, 8 * i + 8); assert(w =~= le(v@[i] as nat, 8)); assert(r@.take(8 * i + 8) =~= r0.take(8 * i) + w); lemma_le_append(r0.take(8 * i), w);
        lemma_le_of(v@[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(v@[i] as nat, p256(8)); 
        assert(v@.take(i + 1) =~= v@.take(i) + seq![v@[i]]); lemma_val_append(v@.take(i), seq![v@[i]]); lemma_val1(seq![v@[i]]); lemma_p256_bp(i as nat);
    }
//@ tail
    proof { assert(r@.take(64) =~= r@); assert(v@.take(8) =~= v@); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_to_u64x4
//@ ret r
//@ spec
    ensures val(r@) == be_val(b@)
//@ sub = \[0; 4\] => = [0u64; 4]
//@ before let vlen1_0
    let ghost b0 = b@;
    proof { assert(b0.skip(32) =~= Seq::empty()); assert(r@.take(0) =~= Seq::empty()); assert(val(r@.take(0)) == 0 && be_val(b0.skip(32)) == 0); }
//@ loop 1
    invariant vlen1_0 == 32, vn1 == 4, b@ == b0, b0.len() == 32, val(r@.take(ir as int)) == be_val(b0.skip(32 - 8 * ir))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = ir as int; let w = b0.subrange(32 - 8 * i - 8, 32 - 8 * i); assert(b0.skip(32 - 8 * (i + 1)) =~= w + b0.skip(32 - 8 * i)); lemma_be_append(w, b0.skip(32 - 8 * i));
        assert(r@.take(i + 1) =~= r0.take(i) + seq![r@[i]]); lemma_val_append(r0.take(i), seq![r@[i]]); lemma_val1(seq![r@[i]]); lemma_p256_bp(i as nat);
        assert(bp(i as nat) * r@[i] == r@[i] * bp(i as nat)) by (nonlinear_arith);
    }
//@ tail
    proof { assert(r@.take(4) =~= r@); assert(b0.skip(0) =~= b0); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_to_u64x4
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() == 32), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub bytes\.try_into\(\)\.ok\(\)\? => v_try_array(bytes)?
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x4/add_leading_zeroes
//@ ret r
//@ spec
    requires bytes@.len() < 32
    ensures val(r@) == be_val(bytes@)
//@ sub sig add_leading_zeroes => add_leading_zeroes4
//@ tail
    proof { let k = 32 - bytes@.len(); assert(tmp@.skip(k) =~= bytes@); lemma_be_trim(tmp@, k); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x4/remove_leading_zeroes
//@ ret r
//@ spec
    requires bytes@.len() > 32
    ensures r.is_some() == (bytes@.len() - lz(bytes@) <= 32), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub sig remove_leading_zeroes => remove_leading_zeroes4
//@ sub sig mut bytes: => bytes:
//@ sub ^\{ => { let mut bytes = bytes; let ghost b0 = bytes@;
//@ sub if let Ok\(array\) = remain\.try_into\(\) => if let Some(array) = v_try_array_ref(remain)
//@ before loop
    proof { assert(b0.skip(0) =~= b0); lemma_lz(b0); }
//@ loop 1
    invariant bytes@.len() > 32, bytes@.len() <= b0.len(), bytes@ == b0.skip(b0.len() - bytes@.len()), b0.len() - lz(b0) == bytes@.len() - lz(bytes@), forall|j: int| 0 <= j < b0.len() - bytes@.len() ==> b0[j] == 0
    decreases bytes@.len()
//@ lbegin 1
    proof { 
        lemma_lz(bytes@); let k = b0.len() - bytes@.len(); assert(bytes@.skip(1) =~= b0.skip(k + 1)); lemma_lz(bytes@.skip(1));
        if bytes@[0] == 0 { lemma_be_trim(b0, k + 1); assert(b0[k] == bytes@[0]); } else { assert(lz(bytes@) == 0); }
    }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x4
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() - lz(bytes@) <= 32), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub if let Ok\(array\) = bytes\.try_into\(\) => if let Some(array) = v_try_array_ref(bytes)
//@ sub (add|remove)_leading_zeroes => \1_leading_zeroes4
//@ begin
    proof { lemma_lz(bytes@); }
//@end
//@fn graviola/src/mid/util.rs :: - :: u64x4_to_big_endian
//@ ret o
//@ spec
    ensures be_val(o@) == val(v@)
//@ before let vlen1_0
    proof { assert(r@.skip(32) =~= Seq::empty()); assert(v@.take(0) =~= Seq::empty()); assert(be_val(r@.skip(32)) == 0 && val(v@.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 32, vn1 == 4, r@.len() == 32, be_val(r@.skip(32 - 8 * iv)) == val(v@.take(iv as int))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = iv as int; let w = r@.subrange(32 - 8 * i - 8, 32 - 8 * i); assert(w =~= be(v@[i] as nat, 8)); let t = r0.skip(32 - 8 * i); assert(r@.skip(32 - 8 * (i + 1)) =~= w + t); lemma_be_append(w, t);
        lemma_be_of(v@[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(v@[i] as nat, p256(8)); 
        assert(v@.take(i + 1) =~= v@.take(i) + seq![v@[i]]); lemma_val_append(v@.take(i), seq![v@[i]]); lemma_val1(seq![v@[i]]); lemma_p256_bp(i as nat);
        assert(bp(i as nat) * v@[i] == v@[i] * bp(i as nat)) by (nonlinear_arith);
    }
//@ tail
    proof { assert(r@.skip(0) =~= r@); assert(v@.take(4) =~= v@); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_to_u64x6
//@ ret r
//@ spec
    ensures val(r@) == be_val(b@)
//@ sub = \[0; 6\] => = [0u64; 6]
//@ before let vlen1_0
    let ghost b0 = b@;
    proof { assert(b0.skip(48) =~= Seq::empty()); assert(r@.take(0) =~= Seq::empty()); assert(val(r@.take(0)) == 0 && be_val(b0.skip(48)) == 0); }
//@ loop 1
    invariant vlen1_0 == 48, vn1 == 6, b@ == b0, b0.len() == 48, val(r@.take(ir as int)) == be_val(b0.skip(48 - 8 * ir))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = ir as int; let w = b0.subrange(48 - 8 * i - 8, 48 - 8 * i); assert(b0.skip(48 - 8 * (i + 1)) =~= w + b0.skip(48 - 8 * i)); lemma_be_append(w, b0.skip(48 - 8 * i));
        assert(r@.take(i + 1) =~= r0.take(i) + seq![r@[i]]); lemma_val_append(r0.take(i), seq![r@[i]]); lemma_val1(seq![r@[i]]); lemma_p256_bp(i as nat);
        assert(bp(i as nat) * r@[i] == r@[i] * bp(i as nat)) by (nonlinear_arith);
    }
//@ tail
    proof { assert(r@.take(6) =~= r@); assert(b0.skip(0) =~= b0); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_to_u64x6
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() == 48), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub bytes\.try_into\(\)\.ok\(\)\? => v_try_array(bytes)?
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x6/add_leading_zeroes
//@ ret r
//@ spec
    requires bytes@.len() < 48
    ensures val(r@) == be_val(bytes@)
//@ sub sig add_leading_zeroes => add_leading_zeroes6
//@ tail
    proof { let k = 48 - bytes@.len(); assert(tmp@.skip(k) =~= bytes@); lemma_be_trim(tmp@, k); }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x6/remove_leading_zeroes
//@ ret r
//@ spec
    requires bytes@.len() > 48
    ensures r.is_some() == (bytes@.len() - lz(bytes@) <= 48), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub sig remove_leading_zeroes => remove_leading_zeroes6
//@ sub sig mut bytes: => bytes:
//@ sub ^\{ => { let mut bytes = bytes; let ghost b0 = bytes@;
//@ sub if let Ok\(array\) = remain\.try_into\(\) => if let Some(array) = v_try_array_ref(remain)
//@ before loop
    proof { assert(b0.skip(0) =~= b0); lemma_lz(b0); }
//@ loop 1
    invariant bytes@.len() > 48, bytes@.len() <= b0.len(), bytes@ == b0.skip(b0.len() - bytes@.len()), b0.len() - lz(b0) == bytes@.len() - lz(bytes@), forall|j: int| 0 <= j < b0.len() - bytes@.len() ==> b0[j] == 0
    decreases bytes@.len()
//@ lbegin 1
    proof { 
        lemma_lz(bytes@); let k = b0.len() - bytes@.len(); assert(bytes@.skip(1) =~= b0.skip(k + 1)); lemma_lz(bytes@.skip(1));
        if bytes@[0] == 0 { lemma_be_trim(b0, k + 1); assert(b0[k] == bytes@[0]); } else { assert(lz(bytes@) == 0); }
    }
//@end
//@fn graviola/src/mid/util.rs :: - :: big_endian_slice_any_size_to_u64x6
//@ ret r
//@ spec
    ensures r.is_some() == (bytes@.len() - lz(bytes@) <= 48), r.is_some() ==> val(r.unwrap()@) == be_val(bytes@)
//@ sub if let Ok\(array\) = bytes\.try_into\(\) => if let Some(array) = v_try_array_ref(bytes)
//@ sub (add|remove)_leading_zeroes => \1_leading_zeroes6
//@ begin
    proof { lemma_lz(bytes@); }
//@end
//@fn graviola/src/mid/util.rs :: - :: u64x6_to_big_endian
//@ ret o
//@ spec
    ensures be_val(o@) == val(v@)
//@ before let vlen1_0
    proof { assert(r@.skip(48) =~= Seq::empty()); assert(v@.take(0) =~= Seq::empty()); assert(be_val(r@.skip(48)) == 0 && val(v@.take(0)) == 0); }
//@ loop 1
    invariant vlen1_0 == 48, vn1 == 6, r@.len() == 48, be_val(r@.skip(48 - 8 * iv)) == val(v@.take(iv as int))
//@ lbegin 1
    let ghost r0 = r@;
//@ lend 1
    proof {
        let i = iv as int; let w = r@.subrange(48 - 8 * i - 8, 48 - 8 * i); assert(w =~= be(v@[i] as nat, 8)); let t = r0.skip(48 - 8 * i); assert(r@.skip(48 - 8 * (i + 1)) =~= w + t); lemma_be_append(w, t);
        lemma_be_of(v@[i] as nat, 8); reveal_with_fuel(p256, 9); lemma_small_mod(v@[i] as nat, p256(8)); 
        assert(v@.take(i + 1) =~= v@.take(i) + seq![v@[i]]); lemma_val_append(v@.take(i), seq![v@[i]]); lemma_val1(seq![v@[i]]); lemma_p256_bp(i as nat);
        assert(bp(i as nat) * v@[i] == v@[i] * bp(i as nat)) by (nonlinear_arith);
    }
//@ tail
    proof { assert(r@.skip(0) =~= r@); assert(v@.take(6) =~= v@); }
//@end
}
}
