//@use props
verus! {
pub open spec fn ok_weight_inv(i: int) -> bool { flag(i) && i != B_WEIGHTED && i != B_UNWEIGHTED && i != B_WEIGHTED_CYCLES && i != B_UNWEIGHTED_CYCLES }
pub open spec fn ok_statesort(i: int) -> bool { flag(i) && i != B_TOP_SORTED && i != B_NOT_TOP_SORTED && i != B_STRING && i != B_NOT_STRING }
pub open spec fn ok_arcsort(i: int) -> bool { flag(i) && i != B_I_LABEL_SORTED && i != B_NOT_I_LABEL_SORTED && i != B_O_LABEL_SORTED && i != B_NOT_O_LABEL_SORTED }
impl FstProperties {
//@fn fst_properties/properties.rs :: FstProperties :: null_properties
    ensures r_null(r),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: copy_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> flag(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: binary_properties
    ensures forall|i: int| ! #[trigger] r.has(i),
@start
broadcast use group_bits; proof { assert(0x0000_0000_0000_0007u64 & 0x0000_ffff_ffff_0000u64 == 0) by (bit_vector); }
//@end
//@fn fst_properties/properties.rs :: FstProperties :: trinary_properties
    ensures forall|i: int| #[trigger] r.has(i) <==> flag(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: all_properties
    ensures forall|i: int| #[trigger] r.has(i) <==> flag(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: weight_invariant_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_weight_inv(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: statesort_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_statesort(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: arcsort_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_arcsort(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: set_start_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_set_start(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: set_final_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_set_final(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: add_state_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_add_state(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: add_arc_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_add_arc(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: delete_arcs_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_del_trs(i),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/properties.rs :: FstProperties :: delete_states_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> ok_del_states(i),
@start
broadcast use group_bits;
//@end
}
//@fn fst_properties/mutate_properties.rs :: set_start_properties
    ensures r_set_start(inprops, r),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/mutate_properties.rs :: set_final_properties
    ensures r_set_final(inprops, r, old_weight is Some && nontriv(*old_weight->0), new_weight is Some && nontriv(*new_weight->0)),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/mutate_properties.rs :: add_state_properties
    ensures r_mask(inprops, r, |i: int| ok_add_state(i)),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/mutate_properties.rs :: add_tr_properties rlimit=40 spinoff
    ensures r_add_tr(inprops, r, state, *tr, (if prev_tr is Some { Some(*prev_tr->0) } else { None })),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/mutate_properties.rs :: delete_states_properties
    ensures r_mask(inprops, r, |i: int| ok_del_states(i)),
@start
broadcast use group_bits;
//@end
//@fn fst_properties/mutate_properties.rs :: delete_all_states_properties
    ensures r_null(r),
//@end
//@fn fst_properties/mutate_properties.rs :: delete_trs_properties
    ensures r_mask(inprops, r, |i: int| ok_del_trs(i)),
@start
broadcast use group_bits;
//@end
}
