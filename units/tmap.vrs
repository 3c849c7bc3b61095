//@use fst
//@use hmap
verus! {
// ---- C14: mapping transitions, converting weights, encoding and relabelling
//@type algorithms/tr_map.rs :: struct FinalTr
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type algorithms/tr_map.rs :: enum MapFinalAction
// A mapper relates what it is given to what it returns (rt: transitions, rf: final weights as transitions).
pub trait TrMapper<W: Semiring>: Sized {
    spec fn rt(&self, a: Tr<W>, b: Tr<W>) -> bool;
    spec fn rf(&self, a: FinalTr<W>, b: FinalTr<W>) -> bool;
    spec fn act(&self) -> MapFinalAction;
    fn tr_map(&self, tr: &mut Tr<W>) -> (r: Result<()>) ensures r is Ok ==> self.rt(*old(tr), *final(tr));
    fn final_tr_map(&self, final_tr: &mut FinalTr<W>) -> (r: Result<()>) ensures r is Ok ==> self.rf(*old(final_tr), *final(final_tr));
    fn final_action(&self) -> (r: MapFinalAction) ensures r == self.act();
    fn properties(&self, inprops: FstProperties) -> FstProperties;
}
pub trait WeightConverter<W1: Semiring, W2: Semiring>: Sized {
    spec fn rt(&self, a: Tr<W1>, b: Tr<W2>) -> bool;
    spec fn rf(&self, a: FinalTr<W1>, b: FinalTr<W2>) -> bool;
    spec fn act(&self) -> MapFinalAction;
    fn tr_map(&mut self, tr: &Tr<W1>) -> (r: Result<Tr<W2>>)
        ensures r is Ok ==> old(self).rt(*tr, r->Ok_0), forall|a: Tr<W1>, b: Tr<W2>| old(self).rt(a, b) == #[trigger] final(self).rt(a, b), forall|a: FinalTr<W1>, b: FinalTr<W2>| old(self).rf(a, b) == #[trigger] final(self).rf(a, b), old(self).act() == final(self).act();
    fn final_tr_map(&mut self, final_tr: &FinalTr<W1>) -> (r: Result<FinalTr<W2>>)
        ensures r is Ok ==> old(self).rf(*final_tr, r->Ok_0), forall|a: Tr<W1>, b: Tr<W2>| old(self).rt(a, b) == #[trigger] final(self).rt(a, b), forall|a: FinalTr<W1>, b: FinalTr<W2>| old(self).rf(a, b) == #[trigger] final(self).rf(a, b), old(self).act() == final(self).act();
    fn final_action(&self) -> (r: MapFinalAction) ensures r == self.act();
    fn properties(&self, inprops: FstProperties) -> FstProperties;
}
pub open spec fn ftr<W: Semiring>(w: W) -> FinalTr<W> { FinalTr { ilabel: 0, olabel: 0, weight: w } }
pub open spec fn rt_all<W1, W2>(rt: spec_fn(Tr<W1>, Tr<W2>) -> bool, t: Seq<Tr<W1>>, u: Seq<Tr<W2>>, n: int) -> bool { u.len() >= n && t.len() >= n && forall|k: int| 0 <= k < n ==> rt(#[trigger] t[k], u[k]) }
// the mapped final weight f of a state: a final weight, or a transition to the superfinal state sf
pub open spec fn fin_ok<W: Semiring>(act: MapFinalAction, f: FinalTr<W>, n: int, ts: Seq<Tr<W>>, fin: Option<W>, sf: Option<StateId>) -> bool {
    let lab = f.ilabel != 0 || f.olabel != 0;
    let via = (act is MapAllowSuperfinal && lab) || (act is MapRequireSuperfinal && (lab || f.weight != W::szero()));
    &&& act is MapNoSuperfinal ==> !lab
    &&& via ==> sf is Some && ts.len() == n + 1 && ts[n] == (Tr { ilabel: f.ilabel, olabel: f.olabel, weight: f.weight, nextstate: sf->0 }) && fin is None
    &&& !via ==> ts.len() == n && fin == (if act is MapRequireSuperfinal { None } else { Some(f.weight) })
}
pub open spec fn st_ok<W1: Semiring, W2: Semiring>(rt: spec_fn(Tr<W1>, Tr<W2>) -> bool, rf: spec_fn(FinalTr<W1>, FinalTr<W2>) -> bool, act: MapFinalAction, t: Seq<Tr<W1>>, f: Option<W1>, tu: Seq<Tr<W2>>, fu: Option<W2>, sf: Option<StateId>) -> bool {
    &&& rt_all(rt, t, tu, t.len() as int)
    &&& f is None ==> tu.len() == t.len() && fu is None
    &&& f is Some ==> exists|g: FinalTr<W2>| rf(ftr(f->0), g) && #[trigger] fin_ok(act, g, t.len() as int, tu, fu, sf)
}
// v mapped into u
pub open spec fn mapped<W1: Semiring, W2: Semiring>(rt: spec_fn(Tr<W1>, Tr<W2>) -> bool, rf: spec_fn(FinalTr<W1>, FinalTr<W2>) -> bool, act: MapFinalAction, v: FstV<W1>, u: FstV<W2>, sf: Option<StateId>) -> bool {
    &&& u.start == v.start
    &&& act is MapNoSuperfinal ==> sf is None
    &&& act is MapRequireSuperfinal ==> sf is Some
    &&& sf is Some ==> sf->0 == v.n() && u.n() == v.n() + 1 && u.trs.len() == u.n() && u.trs[v.n() as int].len() == 0 && u.fin[v.n() as int] == Some(W2::sone())
    &&& sf is None ==> u.n() == v.n() && u.trs.len() == u.n()
    &&& forall|s: int| 0 <= s < v.n() ==> st_ok(rt, rf, act, #[trigger] v.trs[s], v.fin[s], u.trs[s], u.fin[s], sf)
}
// half way: the states below k are done, those from k on are as before
pub open spec fn half<W: Semiring>(rt: spec_fn(Tr<W>, Tr<W>) -> bool, rf: spec_fn(FinalTr<W>, FinalTr<W>) -> bool, act: MapFinalAction, v: FstV<W>, u: FstV<W>, sf: Option<StateId>, k: int) -> bool {
    &&& u.start == v.start
    &&& act is MapNoSuperfinal ==> sf is None
    &&& act is MapRequireSuperfinal ==> sf is Some
    &&& sf is Some ==> sf->0 == v.n() && u.n() == v.n() + 1 && u.trs.len() == u.n() && u.trs[v.n() as int].len() == 0 && u.fin[v.n() as int] == Some(W::sone())
    &&& sf is None ==> u.n() == v.n() && u.trs.len() == u.n()
    &&& forall|s: int| 0 <= s < v.n() && s < k ==> st_ok(rt, rf, act, #[trigger] v.trs[s], v.fin[s], u.trs[s], u.fin[s], sf)
    &&& forall|s: int| 0 <= s < v.n() && s >= k ==> (#[trigger] u.trs[s]) == v.trs[s]
    &&& forall|s: int| 0 <= s < v.n() && s >= k ==> (#[trigger] u.fin[s]) == v.fin[s]
}
pub open spec fn mrt<W: Semiring, M: TrMapper<W>>(m: M) -> spec_fn(Tr<W>, Tr<W>) -> bool { |a: Tr<W>, b: Tr<W>| m.rt(a, b) }
pub open spec fn mrf<W: Semiring, M: TrMapper<W>>(m: M) -> spec_fn(FinalTr<W>, FinalTr<W>) -> bool { |a: FinalTr<W>, b: FinalTr<W>| m.rf(a, b) }
#[verifier::external_body]
pub fn is_sf(state: StateId, sf: &Option<StateId>) -> (r: bool) ensures r == (*sf == Some(state)) { Some(state) == *sf }
pub proof fn sf_mono<W1: Semiring, W2: Semiring>(rt: spec_fn(Tr<W1>, Tr<W2>) -> bool, rf: spec_fn(FinalTr<W1>, FinalTr<W2>) -> bool, act: MapFinalAction, t: Seq<Tr<W1>>, f: Option<W1>, tu: Seq<Tr<W2>>, fu: Option<W2>, sf: Option<StateId>)
    requires st_ok(rt, rf, act, t, f, tu, fu, None) ensures st_ok(rt, rf, act, t, f, tu, fu, sf)
{ if f is Some { let g = choose|g: FinalTr<W2>| rf(ftr(f->0), g) && #[trigger] fin_ok(act, g, t.len() as int, tu, fu, None); assert(fin_ok(act, g, t.len() as int, tu, fu, sf)); } }
//@fn algorithms/tr_map.rs :: tr_map rlimit=80
    requires old(ifst).inv(), old(ifst).v().n() < u32::MAX - 1, forall|s: int| 0 <= s < old(ifst).v().n() ==> (#[trigger] old(ifst).v().trs[s]).len() < usize::MAX,
    ensures r is Ok ==> final(ifst).inv(), old(ifst).v().start is None ==> r is Ok && final(ifst).v() == old(ifst).v(),
        r is Ok && old(ifst).v().start is Some ==> exists|sf: Option<StateId>| mapped(mrt(*mapper), mrf(*mapper), mapper.act(), old(ifst).v(), final(ifst).v(), sf),
@start
proof { ifst.inv_len(); }
let ghost v0 = ifst.v();
@sub `Some ( state ) != superfinal` => `! is_sf ( state , & superfinal )` #all
@loop 0 it=kt
    invariant ifst.inv(), v0 == old(ifst).v(), v0.start is Some, v0.n() == v0.trs.len(), v0.n() < u32::MAX - 1, final_action == mapper.act(), forall|s: int| 0 <= s < v0.n() ==> (#[trigger] v0.trs[s]).len() < usize::MAX,
        half(mrt(*mapper), mrf(*mapper), final_action, v0, ifst.v(), superfinal, state as int), kt.snapshot@.end == v0.n() + (if final_action is MapRequireSuperfinal { 1int } else { 0int }),
@loop_start 0
let ghost v1 = ifst.v(); let ghost sf0 = superfinal; proof { ifst.inv_len(); assert(v1.trs[state as int].len() < usize::MAX); }
@before_loop 1
let ghost it0 = it_tr;
@loop 1 it=jt
    invariant old(ifst).v().start is Some, jt.snapshot@.end == v1.trs[state as int].len(), it_tr.ok(), same_target(it0, it_tr), it_tr.tv().len() == v1.trs[state as int].len(), rt_all(mrt(*mapper), v1.trs[state as int], it_tr.tv(), idx_tr as int),
        forall|k: int| idx_tr <= k < v1.trs[state as int].len() ==> (#[trigger] it_tr.tv()[k]) == v1.trs[state as int][k],
@before `if let Some ( w ) =`
let ghost mut g: FinalTr<W> = arbitrary(); let ghost v2 = ifst.v(); proof { assert(v2.fin == v1.fin && v2.start == v1.start); }
@before `match final_action {`
proof { g = final_tr; }
@loop_end 0
proof {
    let u = ifst.v(); let s0 = state as int;
    if s0 < v0.n() {
        if v0.fin[s0] is Some { assert(mrf(*mapper)(ftr(v0.fin[s0]->0), g)); assert(fin_ok(final_action, g, v0.trs[s0].len() as int, u.trs[s0], u.fin[s0], superfinal)); }
        assert(st_ok(mrt(*mapper), mrf(*mapper), final_action, v0.trs[s0], v0.fin[s0], u.trs[s0], u.fin[s0], superfinal));
    }
    assert forall|s: int| 0 <= s < v0.n() && s < s0 implies st_ok(mrt(*mapper), mrf(*mapper), final_action, #[trigger] v0.trs[s], v0.fin[s], u.trs[s], u.fin[s], superfinal) by {
        assert(st_ok(mrt(*mapper), mrf(*mapper), final_action, v0.trs[s], v0.fin[s], v1.trs[s], v1.fin[s], sf0));
        assert(u.trs[s] == v1.trs[s] && u.fin[s] == v1.fin[s]);
        if sf0 is None { sf_mono(mrt(*mapper), mrf(*mapper), final_action, v0.trs[s], v0.fin[s], u.trs[s], u.fin[s], superfinal); }
    }
    assert forall|s: int| 0 <= s < v0.n() && s >= s0 + 1 implies (#[trigger] u.trs[s]) == v0.trs[s] && u.fin[s] == v0.fin[s] by { assert(v1.trs[s] == v0.trs[s] && v1.fin[s] == v0.fin[s]); assert(u.trs[s] == v1.trs[s] && u.fin[s] == v1.fin[s]); }
    assert(u.start == v0.start);
    assert(superfinal is Some ==> superfinal->0 == v0.n()); assert(superfinal is Some ==> u.n() == v0.n() + 1 && u.trs.len() == u.n());
    assert(superfinal is Some ==> u.trs[v0.n() as int].len() == 0); assert(superfinal is Some ==> u.fin[v0.n() as int] == Some(W::sone()));
    assert(superfinal is None ==> u.n() == v0.n() && u.trs.len() == u.n());
}
@after_loop 0
proof { assert(mapped(mrt(*mapper), mrf(*mapper), mapper.act(), v0, ifst.v(), superfinal)); }
//@end

// ---- the mappers themselves
//@type algorithms/tr_mappers/identity_tr_mapper.rs :: struct IdentityTrMapper
impl<S: Semiring> TrMapper<S> for IdentityTrMapper {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == a }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == a }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/identity_tr_mapper.rs :: TrMapper for IdentityTrMapper :: tr_map nopub
//@end
//@fn algorithms/tr_mappers/identity_tr_mapper.rs :: TrMapper for IdentityTrMapper :: final_tr_map nopub
//@end
//@fn algorithms/tr_mappers/identity_tr_mapper.rs :: TrMapper for IdentityTrMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/identity_tr_mapper.rs :: TrMapper for IdentityTrMapper :: properties nopub
//@end
}
//@type algorithms/tr_mappers/input_epsilon_mapper.rs :: struct InputEpsilonMapper
impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == (Tr { ilabel: EPS_LABEL, ..a }) }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == a }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/input_epsilon_mapper.rs :: TrMapper for InputEpsilonMapper :: tr_map nopub
//@end
//@fn algorithms/tr_mappers/input_epsilon_mapper.rs :: TrMapper for InputEpsilonMapper :: final_tr_map nopub
//@end
//@fn algorithms/tr_mappers/input_epsilon_mapper.rs :: TrMapper for InputEpsilonMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/input_epsilon_mapper.rs :: TrMapper for InputEpsilonMapper :: properties nopub
//@end
}
//@type algorithms/tr_mappers/output_epsilon_mapper.rs :: struct OutputEpsilonMapper
impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == (Tr { olabel: EPS_LABEL, ..a }) }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == a }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/output_epsilon_mapper.rs :: TrMapper for OutputEpsilonMapper :: tr_map nopub
//@end
//@fn algorithms/tr_mappers/output_epsilon_mapper.rs :: TrMapper for OutputEpsilonMapper :: final_tr_map nopub
//@end
//@fn algorithms/tr_mappers/output_epsilon_mapper.rs :: TrMapper for OutputEpsilonMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/output_epsilon_mapper.rs :: TrMapper for OutputEpsilonMapper :: properties nopub
//@end
}
//@type algorithms/tr_mappers/plus_mapper.rs :: struct PlusMapper
impl<W: Semiring> PlusMapper<W> {
//@fn algorithms/tr_mappers/plus_mapper.rs :: PlusMapper :: from_weight
    ensures r.to_add == value,
//@end
//@fn algorithms/tr_mappers/plus_mapper.rs :: PlusMapper :: map_weight
    ensures r is Ok, *final(weight) == old(weight).splus(self.to_add),
//@end
}
impl<S: Semiring> TrMapper<S> for PlusMapper<S> {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == (Tr { weight: a.weight.splus(self.to_add), ..a }) }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == (FinalTr { weight: a.weight.splus(self.to_add), ..a }) }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/plus_mapper.rs :: TrMapper for PlusMapper :: tr_map nopub
//@end
//@fn algorithms/tr_mappers/plus_mapper.rs :: TrMapper for PlusMapper :: final_tr_map nopub
//@end
//@fn algorithms/tr_mappers/plus_mapper.rs :: TrMapper for PlusMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/plus_mapper.rs :: TrMapper for PlusMapper :: properties nopub
//@end
}
//@type algorithms/tr_mappers/times_mapper.rs :: struct TimesMapper
impl<W: Semiring> TimesMapper<W> {
//@fn algorithms/tr_mappers/times_mapper.rs :: TimesMapper :: from_weight
    ensures r.to_multiply == value,
//@end
//@fn algorithms/tr_mappers/times_mapper.rs :: TimesMapper :: map_weight
    ensures r is Ok, *final(weight) == old(weight).stimes(self.to_multiply),
//@end
}
impl<S: Semiring> TrMapper<S> for TimesMapper<S> {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == (Tr { weight: a.weight.stimes(self.to_multiply), ..a }) }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == (FinalTr { weight: a.weight.stimes(self.to_multiply), ..a }) }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/times_mapper.rs :: TrMapper for TimesMapper :: tr_map nopub
//@end
//@fn algorithms/tr_mappers/times_mapper.rs :: TrMapper for TimesMapper :: final_tr_map nopub
//@end
//@fn algorithms/tr_mappers/times_mapper.rs :: TrMapper for TimesMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/times_mapper.rs :: TrMapper for TimesMapper :: properties nopub
//@end
}
pub open spec fn unw<W: Semiring>(w: W) -> W { if w == W::szero() { w } else { W::sone() } }
//@fn algorithms/tr_mappers/rm_weight_mapper.rs :: map_weight rename=map_weight_rm
    ensures *final(weight) == unw(*old(weight)),
@sub `weight . set_value ( W :: one ( ) . take_value ( ) )` => `* weight = W :: one ( )`
//@end
//@type algorithms/tr_mappers/rm_weight_mapper.rs :: struct RmWeightMapper
impl<S: Semiring> TrMapper<S> for RmWeightMapper {
    open spec fn rt(&self, a: Tr<S>, b: Tr<S>) -> bool { b == (Tr { weight: unw(a.weight), ..a }) }
    open spec fn rf(&self, a: FinalTr<S>, b: FinalTr<S>) -> bool { b == (FinalTr { weight: unw(a.weight), ..a }) }
    open spec fn act(&self) -> MapFinalAction { MapFinalAction::MapNoSuperfinal }
//@fn algorithms/tr_mappers/rm_weight_mapper.rs :: TrMapper for RmWeightMapper :: tr_map nopub
@sub `map_weight` => `map_weight_rm`
//@end
//@fn algorithms/tr_mappers/rm_weight_mapper.rs :: TrMapper for RmWeightMapper :: final_tr_map nopub
@sub `map_weight` => `map_weight_rm`
//@end
//@fn algorithms/tr_mappers/rm_weight_mapper.rs :: TrMapper for RmWeightMapper :: final_action nopub
//@end
//@fn algorithms/tr_mappers/rm_weight_mapper.rs :: TrMapper for RmWeightMapper :: properties nopub
//@end
}
// ---- changing the semiring
pub open spec fn crt<W1: Semiring, W2: Semiring, M: WeightConverter<W1, W2>>(m: M) -> spec_fn(Tr<W1>, Tr<W2>) -> bool { |a: Tr<W1>, b: Tr<W2>| m.rt(a, b) }
pub open spec fn crf<W1: Semiring, W2: Semiring, M: WeightConverter<W1, W2>>(m: M) -> spec_fn(FinalTr<W1>, FinalTr<W2>) -> bool { |a: FinalTr<W1>, b: FinalTr<W2>| m.rf(a, b) }
pub open spec fn same_conv<W1: Semiring, W2: Semiring, M: WeightConverter<W1, W2>>(m: M, o: M) -> bool { (forall|a: Tr<W1>, b: Tr<W2>| o.rt(a, b) == #[trigger] m.rt(a, b)) && (forall|a: FinalTr<W1>, b: FinalTr<W2>| o.rf(a, b) == #[trigger] m.rf(a, b)) && o.act() == m.act() }
pub open spec fn chalf<W1: Semiring, W2: Semiring>(rt: spec_fn(Tr<W1>, Tr<W2>) -> bool, rf: spec_fn(FinalTr<W1>, FinalTr<W2>) -> bool, act: MapFinalAction, v: FstV<W1>, u: FstV<W2>, sf: Option<StateId>, k: int) -> bool {
    &&& u.start == v.start
    &&& act is MapNoSuperfinal ==> sf is None
    &&& act is MapRequireSuperfinal ==> sf is Some
    &&& sf is Some ==> sf->0 == v.n() && u.n() == v.n() + 1 && u.trs.len() == u.n() && u.trs[v.n() as int].len() == 0 && u.fin[v.n() as int] == Some(W2::sone())
    &&& sf is None ==> u.n() == v.n() && u.trs.len() == u.n()
    &&& forall|s: int| 0 <= s < v.n() && s < k ==> st_ok(rt, rf, act, #[trigger] v.trs[s], v.fin[s], u.trs[s], u.fin[s], sf)
    &&& forall|s: int| 0 <= s < v.n() && s >= k ==> (#[trigger] u.trs[s]).len() == 0
    &&& forall|s: int| 0 <= s < v.n() && s >= k ==> (#[trigger] u.fin[s]) == None::<W2>
}
pub open spec fn nothing<W>(u: FstV<W>) -> bool { u.trs.len() == u.n() && u.start is None && (forall|s: int| 0 <= s < u.n() ==> (#[trigger] u.trs[s]).len() == 0) && (forall|s: int| 0 <= s < u.n() ==> (#[trigger] u.fin[s]) == None::<W>) }
//@fn algorithms/weight_convert.rs :: weight_convert rlimit=80
    requires fst_in.inv(), fst_in.v().start is Some ==> fst_in.v().start->0 < fst_in.v().n(), fst_in.v().n() < u32::MAX - 1, forall|s: int| 0 <= s < fst_in.v().n() ==> (#[trigger] fst_in.v().trs[s]).len() < usize::MAX,
    ensures r is Ok ==> r->Ok_0.inv(), fst_in.v().start is None ==> r is Ok && r->Ok_0.v().n() == 0,
        r is Ok && fst_in.v().start is Some ==> exists|sf: Option<StateId>| mapped(crt(*old(mapper)), crf(*old(mapper)), old(mapper).act(), fst_in.v(), r->Ok_0.v(), sf),
@start
proof { fst_in.inv_len(); }
let ghost v0 = fst_in.v(); let ghost m0 = *mapper;
@sub `for _ in fst_in . states_iter ( )` => `for q in fst_in . states_range ( )`
@sub `let states : Vec < _ > = fst_in . states_iter ( ) . collect ( ) ;` => ``
@sub `for state in states` => `for state in fst_in . states_range ( )`
@sub `fst_out . reserve_trs ( state , fst_in . num_trs ( state ) ? ) ? ;` => `fst_in . num_trs ( state ) ? ;`
@sub `fst_out . set_symts_from_fst ( fst_in ) ;` => ``
@before_loop 0
proof { fst_out.inv_len(); }
@loop 0 it=kt
    invariant fst_in.inv(), fst_out.inv(), v0 == fst_in.v(), kt.snapshot@.end == v0.n(), v0.n() < u32::MAX - 1, nothing(fst_out.v()), fst_out.v().n() == q, v0.start is Some,
@loop 1 it=kt
    invariant fst_in.inv(), fst_out.inv(), v0 == fst_in.v(), kt.snapshot@.end == v0.n(), v0.n() < u32::MAX - 1, v0.n() == v0.trs.len(), v0.start is Some, forall|s: int| 0 <= s < v0.n() ==> (#[trigger] v0.trs[s]).len() < usize::MAX,
        m0 == *old(mapper), same_conv(*mapper, m0), final_action == m0.act(), chalf(crt(m0), crf(m0), final_action, v0, fst_out.v(), superfinal, state as int),
@loop_start 1
let ghost u1 = fst_out.v(); let ghost sf0 = superfinal; let ghost mut g: FinalTr<W2> = arbitrary(); let ghost mut u2 = u1; proof { fst_out.inv_len(); assert(v0.trs[state as int].len() < usize::MAX); }
@loop 2 it=jt
    invariant fst_in.inv(), fst_out.inv(), v0 == fst_in.v(), 0 <= state < v0.n(), v0.n() == v0.trs.len(), v0.start is Some, v0.trs[state as int].len() < usize::MAX, m0 == *old(mapper), same_conv(*mapper, m0), jt.seq().len() == v0.trs[state as int].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == v0.trs[state as int][k],
        u1.trs.len() == u1.n(), u1.n() >= v0.n(), u1.trs[state as int].len() == 0,
        fst_out.v().start == u1.start, fst_out.v().fin == u1.fin, fst_out.v().trs.len() == u1.trs.len(), forall|s: int| 0 <= s < u1.n() && s != state ==> #[trigger] fst_out.v().trs[s] == u1.trs[s], fst_out.v().trs[state as int].len() == jt.index@, rt_all(crt(m0), v0.trs[state as int], fst_out.v().trs[state as int], jt.index@ as int),
@before `match final_action {`
proof { g = mapped_final_tr; u2 = fst_out.v(); }
@loop_end 1
proof {
    let u = fst_out.v(); let s0 = state as int;
    if v0.fin[s0] is Some { assert(crf(m0)(ftr(v0.fin[s0]->0), g)); assert(fin_ok(final_action, g, v0.trs[s0].len() as int, u.trs[s0], u.fin[s0], superfinal)); }
    assert(st_ok(crt(m0), crf(m0), final_action, v0.trs[s0], v0.fin[s0], u.trs[s0], u.fin[s0], superfinal));
    assert forall|s: int| 0 <= s < v0.n() && s < s0 implies st_ok(crt(m0), crf(m0), final_action, #[trigger] v0.trs[s], v0.fin[s], u.trs[s], u.fin[s], superfinal) by {
        assert(st_ok(crt(m0), crf(m0), final_action, v0.trs[s], v0.fin[s], u1.trs[s], u1.fin[s], sf0));
        assert(u.trs[s] == u1.trs[s] && u.fin[s] == u1.fin[s]);
        if sf0 is None { sf_mono(crt(m0), crf(m0), final_action, v0.trs[s], v0.fin[s], u.trs[s], u.fin[s], superfinal); }
    }
    assert forall|s: int| 0 <= s < v0.n() && s >= s0 + 1 implies (#[trigger] u.trs[s]).len() == 0 && (u.fin[s] is None) by { assert(u1.trs[s].len() == 0); assert(u1.fin[s] is None); assert(u.trs[s] == u1.trs[s]); assert(u.fin[s] == u1.fin[s]); }
    assert(u.start == v0.start);
    assert(superfinal is Some ==> superfinal->0 == v0.n()); assert(superfinal is Some ==> u.n() == v0.n() + 1 && u.trs.len() == u.n());
    assert(superfinal is Some ==> u.trs[v0.n() as int].len() == 0); assert(superfinal is Some ==> u.fin[v0.n() as int] == Some(W2::sone()));
    assert(superfinal is None ==> u.n() == v0.n() && u.trs.len() == u.n());
}
@before_loop 1
proof { fst_out.inv_len(); let u = fst_out.v(); assert(u.start == v0.start); assert(superfinal is None ==> u.n() == v0.n()); assert(superfinal is Some ==> u.n() == v0.n() + 1); assert(superfinal is Some ==> u.fin[v0.n() as int] == Some(W2::sone()));
  assert forall|s: int| 0 <= s < v0.n() && s >= 0 implies (#[trigger] u.trs[s]).len() == 0 && (u.fin[s] is None) by { assert(u0.trs[s].len() == 0); assert(u0.fin[s] is None); assert(u.fin[s] == u0.fin[s]); assert(u.trs[s] == u0.trs[s]); } }
@after_loop 0
let ghost u0 = fst_out.v(); assert(nothing(u0));
@after_loop 1
proof { assert(mapped(crt(m0), crf(m0), m0.act(), v0, fst_out.v(), superfinal)); }
@tail
proof { assert(mapped(crt(m0), crf(m0), m0.act(), v0, r__->Ok_0.v(), superfinal)); }
//@end

// ---- the encoding table: a one-to-one correspondence between tuples and the labels 1..=n
//@type algorithms/encode/table.rs :: struct EncodeTuple
impl<W: Semiring> Clone for EncodeTuple<W> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type algorithms/encode/encode_type.rs :: enum EncodeType
#[verifier::reject_recursive_types(W)]
//@type algorithms/encode/table.rs :: struct EncodeTableMut
//@tsub `HashMap < EncodeTuple < W > , usize >` => `HMap < EncodeTuple < W > , usize >`
impl EncodeType {
    pub open spec fn ew(self) -> bool { self is EncodeWeights || self is EncodeWeightsAndLabels }
    pub open spec fn el(self) -> bool { self is EncodeLabels || self is EncodeWeightsAndLabels }
//@fn algorithms/encode/encode_type.rs :: EncodeType :: from_bools
    ensures r is Ok <==> encode_weights || encode_labels, r is Ok ==> r->Ok_0.ew() == encode_weights && r->Ok_0.el() == encode_labels,
//@end
//@fn algorithms/encode/encode_type.rs :: EncodeType :: encode_weights
    ensures r == self.ew(),
//@end
//@fn algorithms/encode/encode_type.rs :: EncodeType :: encode_labels
    ensures r == self.el(),
//@end
}
impl<W: Semiring> EncodeTableMut<W> {
    pub open spec fn inv(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.id_to_tuple@.len() ==> self.tuple_to_id.m().dom().contains(#[trigger] self.id_to_tuple@[i]) && self.tuple_to_id.m()[self.id_to_tuple@[i]] == i
        &&& forall|t: EncodeTuple<W>| #[trigger] self.tuple_to_id.m().dom().contains(t) ==> self.tuple_to_id.m()[t] < self.id_to_tuple@.len() && self.id_to_tuple@[self.tuple_to_id.m()[t] as int] == t
    }
//@fn algorithms/encode/table.rs :: EncodeTableMut :: new
    ensures r.inv(), r.encode_type == encode_type, r.id_to_tuple@.len() == 0,
@sub `HashMap :: new` => `HMap :: new`
//@end
//@fn algorithms/encode/table.rs :: EncodeTableMut :: tr_to_tuple
    ensures r == etuple(self.encode_type, tr.ilabel, tr.olabel, tr.weight),
//@end
//@fn algorithms/encode/table.rs :: EncodeTableMut :: final_tr_to_tuple
    ensures r == etuple(self.encode_type, tr.ilabel, tr.olabel, tr.weight),
//@end
//@fn algorithms/encode/table.rs :: EncodeTableMut :: encode
    requires old(self).inv(), old(self).id_to_tuple@.len() < usize::MAX - 1,
    ensures final(self).inv(), final(self).encode_type == old(self).encode_type, 1 <= r <= final(self).id_to_tuple@.len(), final(self).id_to_tuple@[r - 1] == tuple,
        old(self).id_to_tuple@.is_prefix_of(final(self).id_to_tuple@), final(self).id_to_tuple@.len() <= old(self).id_to_tuple@.len() + 1,
@sub `Entry ::` => `HEntry ::` #all
@sub `* e . insert ( new_id )` => `e . insert ( new_id )`
@sub `a + 1` => `a + 1`
@tail
proof { assert(old(self).id_to_tuple@.is_prefix_of(self.id_to_tuple@)); }
//@end
//@fn algorithms/encode/table.rs :: EncodeTableMut :: decode
    requires tuple_id >= 1,
    ensures *final(self) == *old(self), r is Some <==> tuple_id <= old(self).id_to_tuple@.len(), r is Some ==> *(r->0) == old(self).id_to_tuple@[tuple_id - 1],
//@end
}
pub open spec fn etuple<W: Semiring>(t: EncodeType, i: Label, o: Label, w: W) -> EncodeTuple<W> { EncodeTuple { ilabel: i, olabel: if t.el() { o } else { 0 }, weight: if t.ew() { w } else { W::sone() } } }
// two tuples never share a label
pub proof fn enc_inj<W: Semiring>(t: EncodeTableMut<W>, i: int, j: int) requires t.inv(), 0 <= i < t.id_to_tuple@.len(), 0 <= j < t.id_to_tuple@.len(), t.id_to_tuple@[i] == t.id_to_tuple@[j] ensures i == j { }
}
