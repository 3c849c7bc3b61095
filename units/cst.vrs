//@use vector
verus! {
// ---- C16: ConstFst has the same observable machine as the VectorFst it was made from, and back
//@type trs.rs :: struct TrsConst
//@type fst_impls/const_fst/data_structure.rs :: struct ConstState
//@type fst_impls/const_fst/data_structure.rs :: struct ConstFst
#[verifier::external_body]
pub fn slice_range<T>(v: &Arc<Vec<T>>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { &v[a..b] }
#[verifier::external_body]
pub fn slice_to_vec<T: Clone>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { v.to_vec() }
impl<W: Semiring> TrsConst<W> {
    pub open spec fn ok(&self) -> bool { self.pos + self.n <= self.trs@.len() }
    pub open spec fn tv(&self) -> Seq<Tr<W>> { self.trs@.subrange(self.pos as int, self.pos + self.n) }
//@fn trs.rs :: Trs for TrsConst :: trs
    requires self.ok(), ensures r@ == self.tv(),
@sub `& self . trs [ self . pos .. self . pos + self . n ]` => `slice_range ( & self . trs , self . pos , self . pos + self . n )`
@start
let ghost n_ = self.trs.len(); 
//@end
//@fn trs.rs :: Trs for TrsConst :: to_trs_vec
    requires self.ok(), ensures r.tv() == self.tv(),
//@end
//@fn trs.rs :: Trs for TrsConst :: shallow_clone
    ensures r == *self,
//@end
}
// the transitions of state s are a window of the one array
pub open spec fn cwin<W: Semiring>(c: ConstFst<W>, s: int) -> Seq<Tr<W>> { c.trs@.subrange(c.states@[s].pos as int, c.states@[s].pos + c.states@[s].ntrs) }
impl<W: Semiring> ConstFst<W> {
    pub open spec fn inv(&self) -> bool { forall|s: int| 0 <= s < self.states@.len() ==> (#[trigger] self.states@[s]).pos + self.states@[s].ntrs <= self.trs@.len() && self.states@[s].niepsilons == cnt_i(cwin(*self, s)) && self.states@[s].noepsilons == cnt_o(cwin(*self, s)) }
    pub open spec fn v(&self) -> FstV<W> { FstV { start: self.start, fin: Seq::new(self.states@.len(), |s: int| self.states@[s].final_weight), trs: Seq::new(self.states@.len(), |s: int| cwin(*self, s)) } }
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: start
    ensures r == self.v().start,
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: final_weight
    ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0 == self.v().fin[state_id as int],
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: final_weight_unchecked
    requires state_id < self.v().n() ensures r == self.v().fin[state_id as int],
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: num_trs
    requires self.inv() ensures r is Ok <==> s < self.v().n(), r is Ok ==> r->Ok_0 == self.v().trs[s as int].len(),
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: num_trs_unchecked
    requires self.inv(), s < self.v().n() ensures r == self.v().trs[s as int].len(),
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: get_trs
    requires self.inv() ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0.ok() && r->Ok_0.tv() == self.v().trs[state_id as int],
@sub `Self :: TRS` => `TrsConst < W >`
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: get_trs_unchecked
    requires self.inv(), state_id < self.v().n() ensures r.ok() && r.tv() == self.v().trs[state_id as int],
@sub `Self :: TRS` => `TrsConst < W >`
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: properties
    ensures r == self.properties,
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: num_input_epsilons
    requires self.inv() ensures r is Ok <==> state < self.v().n(), r is Ok ==> r->Ok_0 == cnt_i(self.v().trs[state as int]),
//@end
//@fn fst_impls/const_fst/fst.rs :: CoreFst for ConstFst :: num_output_epsilons
    requires self.inv() ensures r is Ok <==> state < self.v().n(), r is Ok ==> r->Ok_0 == cnt_o(self.v().trs[state as int]),
//@end
//@fn fst_impls/const_fst/expanded_fst.rs :: ExpandedFst for ConstFst :: num_states
    ensures r == self.v().n(),
@sub `fn num_states` => `pub fn num_states`
//@end
}
impl<W: Semiring> VectorFst<W> {
    // ExpandedFst::compute_and_update_properties_all: the computed flags, all decided and true (C02)
    #[verifier::external_body]
    pub fn compute_and_update_properties_all(&mut self) -> (r: Result<FstProperties>) ensures r is Ok, final(self).states == old(self).states, final(self).start_state == old(self).start_state, final(self).isymt == old(self).isymt, final(self).osymt == old(self).osymt, sound(r->Ok_0, old(self).v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn total_trs(&self) -> (r: usize) { unimplemented!() }
}
pub open spec fn cat<W: Semiring>(s: Seq<VectorFstState<W>>, n: int) -> Seq<Tr<W>> decreases n { if n <= 0 { Seq::empty() } else { cat(s, n - 1) + s[n - 1].trs.tv() } }
pub proof fn cat_mono<W: Semiring>(s: Seq<VectorFstState<W>>, a: int, b: int) requires 0 <= a <= b ensures cat(s, a).len() <= cat(s, b).len(), cat(s, b).take(cat(s, a).len() as int) == cat(s, a) decreases b
{ if a < b { cat_mono(s, a, b - 1); assert(cat(s, b).take(cat(s, a).len() as int) =~= cat(s, b - 1).take(cat(s, a).len() as int)); } else { assert(cat(s, b).take(cat(s, a).len() as int) =~= cat(s, a)); } }
pub proof fn cat_win<W: Semiring>(s: Seq<VectorFstState<W>>, i: int, n: int) requires 0 <= i < n ensures cat(s, i).len() + s[i].trs.tv().len() <= cat(s, n).len(), cat(s, n).subrange(cat(s, i).len() as int, cat(s, i).len() as int + s[i].trs.tv().len()) == s[i].trs.tv()
{ cat_mono(s, i + 1, n); let c = cat(s, i + 1); assert(cat(s, n).subrange(cat(s, i).len() as int, c.len() as int) =~= c.subrange(cat(s, i).len() as int, c.len() as int)) by { assert(cat(s, n).take(c.len() as int) == c); assert forall|k: int| 0 <= k < c.len() implies cat(s, n)[k] == c[k] by { assert(cat(s, n).take(c.len() as int)[k] == c[k]); } } assert(c.subrange(cat(s, i).len() as int, c.len() as int) =~= s[i].trs.tv()); }
//@fn fst_impls/const_fst/converters.rs :: From for ConstFst :: from rename=const_from_vector
    requires ifst.inv(), cat(ifst.states@, ifst.states@.len() as int).len() <= usize::MAX,
    ensures r.inv(), r.v() == ifst.v(), /*C02,C16*/ sound(r.properties, r.v()),
@sub `ifst . states . iter ( ) . map ( | s | s . trs . len ( ) ) . sum ( )` => `ifst . total_trs ( )`
@sub `from ( mut ifst : VectorFst < W > ) -> Self` => `from < W : Semiring > ( mut ifst : VectorFst < W > ) -> ConstFst < W >`
@sub `for mut s in ifst . states . into_iter ( )` => `for s0 in ifst . states . into_iter ( )`
@sub `let mut const_states =` => `let mut const_states : Vec < ConstState < W > > =`
@sub `let mut const_trs =` => `let mut const_trs : Vec < Tr < W > > =`
@loop 0 it=jt
    invariant jt.seq() == g0, sinv(g0), cat(g0, g0.len() as int).len() <= usize::MAX, pos == const_trs@.len(), const_trs@ == cat(g0, jt.index@ as int), const_states@.len() == jt.index@,
        forall|i: int| 0 <= i < const_states@.len() ==> (#[trigger] const_states@[i]).final_weight == g0[i].final_weight && const_states@[i].pos == cat(g0, i).len() && const_states@[i].ntrs == g0[i].trs.tv().len() && const_states@[i].niepsilons == g0[i].niepsilons && const_states@[i].noepsilons == g0[i].noepsilons,
@loop_start 0
let mut s = s0; let ghost i0 = jt.index@ as int;
proof { assert(s0 == g0[i0]); cat_mono(g0, i0 + 1, g0.len() as int); }
@start
let ghost g0 = ifst.states@;
@tail
proof { let n = g0.len() as int; assert forall|i: int| 0 <= i < n implies cwin(r__, i) == (#[trigger] g0[i]).trs.tv() && r__.states@[i].pos + r__.states@[i].ntrs <= r__.trs@.len() && g0[i].inv() && r__.states@[i].niepsilons == g0[i].niepsilons && r__.states@[i].noepsilons == g0[i].noepsilons && r__.states@[i].final_weight == g0[i].final_weight by { cat_win(g0, i, n); assert(r__.states@[i].final_weight == g0[i].final_weight); }
  assert(r__.v().fin =~= sv(g0, r__.start).fin); assert(r__.v().trs =~= sv(g0, r__.start).trs); 
  assert forall|s: int| 0 <= s < r__.states@.len() implies (#[trigger] r__.states@[s]).pos + r__.states@[s].ntrs <= r__.trs@.len() && r__.states@[s].niepsilons == cnt_i(cwin(r__, s)) && r__.states@[s].noepsilons == cnt_o(cwin(r__, s)) by { assert(cwin(r__, s) == g0[s].trs.tv()); } }
//@end
}
