//@use itermut
verus! {
pub trait Trs<W: Semiring>: Sized {
    spec fn tv(&self) -> Seq<Tr<W>>;
    fn trs(&self) -> (r: &[Tr<W>]) ensures r@ == self.tv();
    fn shallow_clone(&self) -> (r: Self) ensures r.tv() == self.tv();
}

// inv: what the representation must satisfy for the view to be meaningful (private to the implementation)
pub trait CoreFst<W: Semiring>: Sized {
    type TRS: Trs<W>;
    spec fn v(&self) -> FstV<W>;
    spec fn p(&self) -> FstProperties;
    spec fn inv(&self) -> bool;
    proof fn inv_len(&self) requires self.inv() ensures self.v().fin.len() == self.v().trs.len(), self.v().n() <= u32::MAX;
    fn start(&self) -> (r: Option<StateId>) requires self.inv() ensures r == self.v().start;
    fn final_weight(&self, state_id: StateId) -> (r: Result<Option<W>>) requires self.inv()
        ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0 == self.v().fin[state_id as int];
    fn final_weight_unchecked(&self, state_id: StateId) -> (r: Option<W>) requires self.inv(), state_id < self.v().n() ensures r == self.v().fin[state_id as int];
    fn num_trs(&self, s: StateId) -> (r: Result<usize>) requires self.inv()
        ensures r is Ok <==> s < self.v().n(), r is Ok ==> r->Ok_0 == self.v().trs[s as int].len();
    fn num_trs_unchecked(&self, s: StateId) -> (r: usize) requires self.inv(), s < self.v().n() ensures r == self.v().trs[s as int].len();
    fn get_trs(&self, state_id: StateId) -> (r: Result<Self::TRS>) requires self.inv()
        ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0.tv() == self.v().trs[state_id as int];
    fn get_trs_unchecked(&self, state_id: StateId) -> (r: Self::TRS) requires self.inv(), state_id < self.v().n() ensures r.tv() == self.v().trs[state_id as int];
    fn properties(&self) -> (r: FstProperties) requires self.inv() ensures r == self.p();
//@fn fst_traits/fst.rs :: trait CoreFst :: properties_with_mask nopub
    requires self.inv(),
    ensures r.bits == self.p().bits & mask.bits,
//@end
    fn num_input_epsilons(&self, state: StateId) -> (r: Result<usize>) requires self.inv()
        ensures r is Ok <==> state < self.v().n(), r is Ok ==> r->Ok_0 == cnt_i(self.v().trs[state as int]);
    fn num_output_epsilons(&self, state: StateId) -> (r: Result<usize>) requires self.inv()
        ensures r is Ok <==> state < self.v().n(), r is Ok ==> r->Ok_0 == cnt_o(self.v().trs[state as int]);
}
pub trait ExpandedFst<W: Semiring>: CoreFst<W> {
    fn num_states(&self) -> (r: usize) requires self.inv() ensures r == self.v().n();
//@fn fst_traits/expanded_fst.rs :: trait ExpandedFst :: states_range nopub
    requires self.inv(),
    ensures r.start == 0, r.end == self.v().n(),
@start
proof { self.inv_len(); }
//@end
}
pub trait MutableFst<W: Semiring>: ExpandedFst<W> {
    fn new() -> (r: Self) ensures
            /*C02*/ sound(r.p(), r.v()),
            r.inv(), r.v().start is None, r.v().n() == 0;
    fn set_start(&mut self, state_id: StateId) -> (r: Result<()>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> state_id < old(self).v().n(),
            final(self).v() == (if r is Ok { v_set_start(old(self).v(), state_id) } else { old(self).v() });
    fn set_start_unchecked(&mut self, state_id: StateId) requires old(self).inv(), state_id < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_set_start(old(self).v(), state_id);
    fn set_final(&mut self, state_id: StateId, final_weight: W) -> (r: Result<()>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> state_id < old(self).v().n(),
            final(self).v() == (if r is Ok { v_set_final(old(self).v(), state_id, Some(final_weight)) } else { old(self).v() });
    fn set_final_unchecked(&mut self, state_id: StateId, final_weight: W) requires old(self).inv(), state_id < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_set_final(old(self).v(), state_id, Some(final_weight));
    fn add_state(&mut self) -> (r: StateId) requires old(self).inv(), old(self).v().n() < u32::MAX
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r == old(self).v().n(), final(self).v() == v_add_state(old(self).v());
    fn add_states(&mut self, n: usize) requires old(self).inv(), old(self).v().n() + n < u32::MAX
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_add_states(old(self).v(), n as nat);
    fn del_all_states(&mut self) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v().start is None, final(self).v().n() == 0;
    fn add_tr(&mut self, source: StateId, tr: Tr<W>) -> (r: Result<()>) requires old(self).inv(), source < old(self).v().n() ==> old(self).v().trs[source as int].len() < usize::MAX
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> source < old(self).v().n(),
            final(self).v() == (if r is Ok { v_add_tr(old(self).v(), source, tr) } else { old(self).v() });
    fn add_tr_unchecked(&mut self, source: StateId, tr: Tr<W>) requires old(self).inv(), source < old(self).v().n(), old(self).v().trs[source as int].len() < usize::MAX
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_add_tr(old(self).v(), source, tr);
    fn delete_final_weight(&mut self, source: StateId) -> (r: Result<()>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> source < old(self).v().n(),
            final(self).v() == (if r is Ok { v_set_final(old(self).v(), source, None) } else { old(self).v() });
    fn delete_final_weight_unchecked(&mut self, source: StateId) requires old(self).inv(), source < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_set_final(old(self).v(), source, None);
    fn delete_trs(&mut self, source: StateId) -> (r: Result<()>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> source < old(self).v().n(),
            final(self).v() == (if r is Ok { v_set_trs(old(self).v(), source, Seq::empty()) } else { old(self).v() });
    fn take_final_weight(&mut self, state_id: StateId) -> (r: Result<Option<W>>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> state_id < old(self).v().n(),
            r is Ok ==> r->Ok_0 == old(self).v().fin[state_id as int],
            final(self).v() == (if r is Ok { v_set_final(old(self).v(), state_id, None) } else { old(self).v() });
    fn take_final_weight_unchecked(&mut self, state_id: StateId) -> (r: Option<W>) requires old(self).inv(), state_id < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r == old(self).v().fin[state_id as int], final(self).v() == v_set_final(old(self).v(), state_id, None);
    fn pop_trs(&mut self, source: StateId) -> (r: Result<Vec<Tr<W>>>) requires old(self).inv()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r is Ok <==> source < old(self).v().n(),
            r is Ok ==> r->Ok_0@ == old(self).v().trs[source as int],
            final(self).v() == (if r is Ok { v_set_trs(old(self).v(), source, Seq::empty()) } else { old(self).v() });
    fn pop_trs_unchecked(&mut self, source: StateId) -> (r: Vec<Tr<W>>) requires old(self).inv(), source < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), r@ == old(self).v().trs[source as int], final(self).v() == v_set_trs(old(self).v(), source, Seq::empty());
    fn set_trs_unchecked(&mut self, source: StateId, trs: Vec<Tr<W>>) requires old(self).inv(), source < old(self).v().n()
        ensures
            /*C02*/ sound(old(self).p(), old(self).v()) && old(self).v().trs[source as int].len() == 0 ==> sound(final(self).p(), final(self).v()),
            final(self).inv(), final(self).v() == v_set_trs(old(self).v(), source, trs@);
    fn tr_iter_mut(&mut self, state_id: StateId) -> (r: Result<TrsIterMut<'_, W>>) requires old(self).inv()
        ensures r is Ok <==> state_id < old(self).v().n(),
            r is Err ==> final(self).v() == old(self).v() && final(self).p() == old(self).p() && final(self).inv(),
            r is Ok ==> r->Ok_0.ok() && r->Ok_0.tv() == old(self).v().trs[state_id as int] && r->Ok_0.pv() == old(self).p() && final(self).v() == v_set_trs(old(self).v(), state_id, (*final(r->Ok_0.trs))@) && final(self).p() == *final(r->Ok_0.properties),
            r is Ok && r->Ok_0.okf() ==> final(self).inv();
    fn tr_iter_unchecked_mut(&mut self, state_id: StateId) -> (r: TrsIterMut<'_, W>) requires old(self).inv(), state_id < old(self).v().n()
        ensures r.ok(), r.tv() == old(self).v().trs[state_id as int], r.pv() == old(self).p(),
            final(self).v() == v_set_trs(old(self).v(), state_id, (*final(r.trs))@), final(self).p() == *final(r.properties),
            r.okf() ==> final(self).inv();
    fn set_properties(&mut self, props: FstProperties) requires old(self).inv() ensures final(self).inv(), final(self).v() == old(self).v(), final(self).p() == props;
    fn set_properties_with_mask(&mut self, props: FstProperties, mask: FstProperties) requires old(self).inv()
        ensures final(self).inv(), final(self).v() == old(self).v(),
            forall|i: int| 16 <= i < 48 ==> (#[trigger] final(self).p().has(i) <==> (if mask.has(i) { props.has(i) } else { old(self).p().has(i) }));
}
pub trait AllocableFst<W: Semiring>: MutableFst<W> {
    fn reserve_trs_unchecked(&mut self, source: StateId, additional: usize) requires old(self).inv(), source < old(self).v().n() ensures final(self).inv(), final(self).v() == old(self).v(), final(self).p() == old(self).p();
    fn reserve_states(&mut self, additional: usize) requires old(self).inv() ensures final(self).inv(), final(self).v() == old(self).v(), final(self).p() == old(self).p();
}
}
