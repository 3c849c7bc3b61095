//@use fst
verus! {
//@type trs.rs :: struct TrsVec
impl<W: Semiring> Clone for TrsVec<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
//@type fst_impls/vector_fst/data_structure.rs :: struct VectorFstState
#[verifier::external_body] pub struct SymbolTable { x: u8 }
//@type fst_impls/vector_fst/data_structure.rs :: struct VectorFst

impl<W: Semiring> Trs<W> for TrsVec<W> {
    open spec fn tv(&self) -> Seq<Tr<W>> { self.0@ }
//@fn trs.rs :: Trs for TrsVec :: trs
//@end
//@fn trs.rs :: Trs for TrsVec :: shallow_clone
//@end
}
impl<W: Semiring> TrsVec<W> {
    // Deref for TrsVec is the slice of trs()
    pub fn len(&self) -> (r: usize) ensures r == self.tv().len() { self.trs().len() }
//@fn trs.rs :: TrsVec :: remove
    requires index < old(self).tv().len(),
    ensures r == old(self).tv()[index as int], final(self).tv() == old(self).tv().remove(index as int),
//@end
//@fn trs.rs :: TrsVec :: push
    requires old(self).tv().len() < usize::MAX,
    ensures final(self).tv() == old(self).tv().push(tr),
//@end
//@fn trs.rs :: TrsVec :: clear
    ensures final(self).tv() == Seq::<Tr<W>>::empty(),
//@end
//@fn trs.rs :: Default for TrsVec :: default
    ensures r.tv() == Seq::<Tr<W>>::empty(),
//@end
}
impl<W: Semiring> VectorFstState<W> {
    pub open spec fn inv(&self) -> bool { self.niepsilons == cnt_i(self.trs.tv()) && self.noepsilons == cnt_o(self.trs.tv()) }
//@fn fst_impls/vector_fst/data_structure.rs :: VectorFstState :: new
    ensures r.inv(), r.final_weight is None, r.trs.tv() == Seq::<Tr<W>>::empty(),
//@end
//@fn fst_impls/vector_fst/data_structure.rs :: VectorFstState :: increment_num_epsilons
    requires old(self).niepsilons < usize::MAX, old(self).noepsilons < usize::MAX,
    ensures final(self).trs == old(self).trs, final(self).final_weight == old(self).final_weight,
        final(self).niepsilons == old(self).niepsilons + (if tr.ilabel == EPS_LABEL { 1int } else { 0int }),
        final(self).noepsilons == old(self).noepsilons + (if tr.olabel == EPS_LABEL { 1int } else { 0int }),
//@end
}
}

verus! {
pub open spec fn sv<W: Semiring>(s: Seq<VectorFstState<W>>, st: Option<StateId>) -> FstV<W> {
    FstV { start: st, fin: Seq::new(s.len(), |i: int| s[i].final_weight), trs: Seq::new(s.len(), |i: int| s[i].trs.tv()) }
}
pub open spec fn sinv<W: Semiring>(s: Seq<VectorFstState<W>>) -> bool { s.len() <= u32::MAX && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inv() }
impl<W: Semiring> VectorFst<W> {
//@fn fst_impls/vector_fst/data_structure.rs :: VectorFst :: update_properties_after_add_tr
    requires sinv(old(self).states@), state < old(self).states@.len(), old(self).states@[state as int].trs.tv().len() > 0,
    ensures final(self).states == old(self).states, final(self).start_state == old(self).start_state, final(self).isymt == old(self).isymt, final(self).osymt == old(self).osymt,
        /*C02*/ r_add_tr(old(self).properties, final(self).properties, state, old(self).states@[state as int].trs.tv().last(), last_tr(old(self).states@[state as int].trs.tv().drop_last())),
@sub `trs . last ( )` => `trs . trs ( ) . last ( )`
//@end
}
impl<W: Semiring> CoreFst<W> for VectorFst<W> {
    type TRS = TrsVec<W>;
    open spec fn v(&self) -> FstV<W> { sv(self.states@, self.start_state) }
    open spec fn p(&self) -> FstProperties { self.properties }
    open spec fn inv(&self) -> bool { sinv(self.states@) }
    proof fn inv_len(&self) { }
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: start
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: final_weight
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: final_weight_unchecked
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: num_trs
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: num_trs_unchecked
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: get_trs
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: get_trs_unchecked
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: properties
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: num_input_epsilons
//@end
//@fn fst_impls/vector_fst/fst.rs :: CoreFst for VectorFst :: num_output_epsilons
//@end
}
impl<W: Semiring> ExpandedFst<W> for VectorFst<W> {
//@fn fst_impls/vector_fst/expanded_fst.rs :: ExpandedFst for VectorFst :: num_states
//@end
}

pub open spec fn only<T>(a: Seq<T>, b: Seq<T>, s: int) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() && j != s ==> (#[trigger] b[j]) == a[j] }
pub proof fn upd<W: Semiring>(a: Seq<VectorFstState<W>>, b: Seq<VectorFstState<W>>, st: Option<StateId>, s: int)
    ensures sinv(a) && 0 <= s < a.len() && only(a, b, s) && b[s].inv() ==> sinv(b),
        0 <= s < a.len() && only(a, b, s) ==> {
        &&& sv(b, st).fin == sv(a, st).fin.update(s, b[s].final_weight) &&& sv(b, st).trs == sv(a, st).trs.update(s, b[s].trs.tv())
        &&& (b[s].final_weight == a[s].final_weight ==> sv(b, st).fin == sv(a, st).fin)
        &&& (b[s].trs.tv() == a[s].trs.tv() ==> sv(b, st).trs == sv(a, st).trs) },
{
    if 0 <= s < a.len() && only(a, b, s) {
        assert(sv(b, st).fin =~= sv(a, st).fin.update(s, b[s].final_weight)); assert(sv(b, st).trs =~= sv(a, st).trs.update(s, b[s].trs.tv()));
        if b[s].final_weight == a[s].final_weight { assert(sv(b, st).fin =~= sv(a, st).fin); }
        if b[s].trs.tv() == a[s].trs.tv() { assert(sv(b, st).trs =~= sv(a, st).trs); }
    }
    if sinv(a) && 0 <= s < a.len() && only(a, b, s) && b[s].inv() {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).inv() by { if i != s { assert(b[i] == a[i]); } }
    }
}
// every state vector that differs from a only in the transitions and counts of state s
pub proof fn upd_all<W: Semiring>(a: Seq<VectorFstState<W>>, st: Option<StateId>, s: int) requires sinv(a), 0 <= s < a.len()
    ensures forall|b: Seq<VectorFstState<W>>| #![trigger sv(b, st)] only(a, b, s) && b[s].final_weight == a[s].final_weight ==> sv(b, st) == (FstV { trs: sv(a, st).trs.update(s, b[s].trs.tv()), ..sv(a, st) }),
        forall|b: Seq<VectorFstState<W>>| #![trigger sinv(b)] only(a, b, s) && b[s].inv() ==> sinv(b),
{
    assert forall|b: Seq<VectorFstState<W>>| #![trigger sv(b, st)] only(a, b, s) && b[s].final_weight == a[s].final_weight implies sv(b, st) == (FstV { trs: sv(a, st).trs.update(s, b[s].trs.tv()), ..sv(a, st) }) by { upd(a, b, st, s); }
    assert forall|b: Seq<VectorFstState<W>>| #![trigger sinv(b)] only(a, b, s) && b[s].inv() implies sinv(b) by { upd(a, b, st, s); }
}
pub proof fn same<W: Semiring>(a: VectorFst<W>, b: VectorFst<W>) ensures a.states@ == b.states@ ==> b.v().fin == a.v().fin && b.v().trs == a.v().trs && (a.inv() ==> b.inv()) { }
pub proof fn fin_upd<W: Semiring>(a: VectorFst<W>, b: VectorFst<W>, s: StateId, w: Option<W>) requires a.inv() ensures s < a.states@.len() && only(a.states@, b.states@, s as int) && b.start_state == a.start_state
    && b.states@[s as int].inv() && b.states@[s as int].trs == a.states@[s as int].trs && b.states@[s as int].final_weight == w ==> b.inv() && b.v() == v_set_final(a.v(), s, w),
    sound(a.properties, a.v()) && s < a.states@.len() && r_set_final(a.properties, b.properties, onontriv(a.states@[s as int].final_weight), onontriv(w)) ==> sound(b.properties, v_set_final(a.v(), s, w))
{ upd(a.states@, b.states@, b.start_state, s as int); if s < a.states@.len() { m_set_final(a.properties, b.properties, a.v(), s, w); } }
pub proof fn trs_upd<W: Semiring>(a: VectorFst<W>, b: VectorFst<W>, s: StateId, t: Seq<Tr<W>>) requires a.inv() ensures s < a.states@.len() && only(a.states@, b.states@, s as int) && b.start_state == a.start_state
    && b.states@[s as int].inv() && b.states@[s as int].final_weight == a.states@[s as int].final_weight && b.states@[s as int].trs.tv() == t ==> b.inv() && b.v() == v_set_trs(a.v(), s, t)
{ upd(a.states@, b.states@, b.start_state, s as int); }
pub proof fn trs_clear<W: Semiring>(a: VectorFst<W>, b: VectorFst<W>, s: StateId) requires a.inv() ensures s < a.states@.len() && only(a.states@, b.states@, s as int) && b.start_state == a.start_state
    && b.states@[s as int].inv() && b.states@[s as int].final_weight == a.states@[s as int].final_weight && b.states@[s as int].trs.tv() == Seq::<Tr<W>>::empty() ==> b.inv() && b.v() == v_set_trs(a.v(), s, Seq::<Tr<W>>::empty()),
    sound(a.properties, a.v()) && s < a.states@.len() && r_mask(a.properties, b.properties, |i: int| ok_del_trs(i)) ==> sound(b.properties, v_set_trs(a.v(), s, Seq::<Tr<W>>::empty()))
{ trs_upd(a, b, s, Seq::<Tr<W>>::empty()); if s < a.states@.len() { m_del_trs(a.properties, b.properties, a.v(), s, Seq::<Tr<W>>::empty(), Seq::<int>::empty()); } }
pub proof fn tr_push<W: Semiring>(a: VectorFst<W>, b: VectorFst<W>, s: StateId, x: Tr<W>) requires a.inv() ensures s < a.states@.len() && only(a.states@, b.states@, s as int) && b.start_state == a.start_state
    && b.states@[s as int].inv() && b.states@[s as int].final_weight == a.states@[s as int].final_weight && b.states@[s as int].trs.tv() == a.states@[s as int].trs.tv().push(x) ==> b.inv() && b.v() == v_add_tr(a.v(), s, x),
    sound(a.properties, a.v()) && s < a.states@.len() && r_add_tr(a.properties, b.properties, s, x, last_tr(a.states@[s as int].trs.tv())) ==> sound(b.properties, v_add_tr(a.v(), s, x)),
    s < a.states@.len() ==> { let t = a.states@[s as int].trs.tv(); t.push(x).last() == x && t.push(x).drop_last() == t && cnt_i(t) <= t.len() && cnt_o(t) <= t.len()
      && cnt_i(t.push(x)) == cnt_i(t) + (if x.ilabel == EPS_LABEL { 1int } else { 0int }) && cnt_o(t.push(x)) == cnt_o(t) + (if x.olabel == EPS_LABEL { 1int } else { 0int }) }
{ if s < a.states@.len() { let t = a.states@[s as int].trs.tv(); trs_upd(a, b, s, t.push(x)); m_add_tr(a.properties, b.properties, a.v(), s, x); assert(t.push(x).drop_last() =~= t); cnt_le(t); cnt_push(t, x); } }
impl<W: Semiring> MutableFst<W> for VectorFst<W> {
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: new
@tail
proof { m_null(r__.properties, r__.v()); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_start
@tail
proof { same(*old(self), *self); m_set_start(old(self).properties, self.properties, old(self).v(), state_id); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_start_unchecked
@tail
proof { same(*old(self), *self); m_set_start(old(self).properties, self.properties, old(self).v(), state_id); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_final
@sub `< S : Into < W > >` => ``
@sub `final_weight : S` => `final_weight : W`
@sub `final_weight . into ( )` => `final_weight`
@start
let ghost sid = state_id;
@tail
proof { fin_upd(*old(self), *self, sid, Some(final_weight)); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_final_unchecked
@sub `< S : Into < W > >` => ``
@sub `final_weight : S` => `final_weight : W`
@sub `final_weight . into ( )` => `final_weight`
@start
let ghost sid = state_id;
@tail
proof { fin_upd(*old(self), *self, sid, Some(final_weight)); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: add_state
@tail
proof { assert(self.v().fin =~= v_add_state(old(self).v()).fin); assert(self.v().trs =~= v_add_state(old(self).v()).trs); m_add_states(old(self).properties, self.properties, old(self).v(), 1); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: add_states
@sub `VectorFstState :: new )` => `|| -> (r: VectorFstState<W>) ensures r.inv(), r.final_weight is None, r.trs.tv() == Seq::<Tr<W>>::empty() { VectorFstState :: new ( ) } )`
@tail
proof { assert(self.v().fin =~= v_add_states(old(self).v(), n as nat).fin); assert(self.v().trs =~= v_add_states(old(self).v(), n as nat).trs); m_add_states(old(self).properties, self.properties, old(self).v(), n as nat); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: del_all_states
@tail
proof { m_null(self.properties, self.v()); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: add_tr
@start
proof { tr_push(*old(self), *self, source, tr); }
@tail
proof { tr_push(*old(self), *self, source, tr); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: add_tr_unchecked
@start
proof { tr_push(*old(self), *self, source, tr); }
@tail
proof { tr_push(*old(self), *self, source, tr); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: delete_final_weight
@tail
proof { fin_upd(*old(self), *self, source, None); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: delete_final_weight_unchecked
@tail
proof { fin_upd(*old(self), *self, source, None); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: delete_trs
@tail
proof { trs_clear(*old(self), *self, source); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: pop_trs
@tail
proof { trs_clear(*old(self), *self, source); }
@sub `. drain ( .. ) . collect ( )` => `. drain_all ( )`
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: pop_trs_unchecked
@tail
proof { trs_clear(*old(self), *self, source); }
@sub `. drain ( .. ) . collect ( )` => `. drain_all ( )`
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: take_final_weight
@tail
proof { fin_upd(*old(self), *self, state_id, None); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: take_final_weight_unchecked
@tail
proof { fin_upd(*old(self), *self, state_id, None); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_trs_unchecked
@start
let ghost src = source; let ghost tt = trs@; let ghost v0 = old(self).v(); let ghost p0 = old(self).p();
@loop 0
    invariant source == src, src < v0.n(), v0.n() == v0.trs.len(), trs_slice@ == tt, state.trs.tv() == tt,
        niepsilons == cnt_i(tt.take(i as int)), noepsilons == cnt_o(tt.take(i as int)), niepsilons <= i, noepsilons <= i,
        /*C02*/ sound(p0, v0) && v0.trs[src as int].len() == 0 ==> sound(properties, v_set_trs(v0, src, tt.take(i as int))),
@before_loop 0
proof { assert(tt.take(0) =~= Seq::<Tr<W>>::empty()); assert(v0.trs[src as int].len() == 0 ==> v0.trs[src as int] =~= tt.take(0)); assert(v0.trs[src as int].len() == 0 ==> v_set_trs(v0, src, tt.take(0)).trs =~= v0.trs); }
@loop_start 0
let ghost q0 = properties;
@loop_end 0
proof {
    let t0 = tt.take(i as int); let x = tt[i as int]; let w = v_set_trs(v0, src, t0);
    assert(tt.take(i + 1) =~= t0.push(x)); cnt_push(t0, x); cnt_le(t0.push(x));
    assert(v_add_tr(w, src, x).trs =~= v_set_trs(v0, src, tt.take(i + 1)).trs);
    m_add_tr(q0, properties, w, src, x);
}
@before `self . set_properties`
proof { assert(tt.take(tt.len() as int) =~= tt); upd(old(self).states@, self.states@, self.start_state, src as int); }
@tail
proof { assert(tt.take(tt.len() as int) =~= tt); trs_upd(*old(self), *self, src, tt); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: tr_iter_mut
@start
proof { if state_id < self.states@.len() { upd_all(self.states@, self.start_state, state_id as int); } }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: tr_iter_unchecked_mut
@start
proof { upd_all(self.states@, self.start_state, state_id as int); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_properties
@tail
proof { same(*old(self), *self); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: set_properties_with_mask
@start
broadcast use group_bits;
@tail
proof { same(*old(self), *self); }
//@end
}
}
