//@use lazy
verus! {
// ---- C19: replacement. A state of the result is a configuration: the stack of calls, the machine being walked and its state.
// Vec values with the same elements are the same value (assumed: what a Vec holds is all that Eq and Hash see)
#[verifier::external_body]
pub proof fn vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ == b@ ensures a == b { }
//@type algorithms/replace/config.rs :: enum ReplaceLabelType
impl Copy for ReplaceLabelType { }
impl Clone for ReplaceLabelType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::external_body]
pub fn rlt_eq(a: ReplaceLabelType, b: ReplaceLabelType) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub open spec fn eps_i(t: ReplaceLabelType) -> bool { t is Neither || t is Output }
pub open spec fn eps_o(t: ReplaceLabelType) -> bool { t is Neither || t is Input }
//@fn algorithms/replace/utils.rs :: epsilon_on_input
    ensures r == eps_i(label_type),
@sub `label_type == ReplaceLabelType :: Neither` => `rlt_eq ( label_type , ReplaceLabelType :: Neither )`
@sub `label_type == ReplaceLabelType :: Output` => `rlt_eq ( label_type , ReplaceLabelType :: Output )`
//@end
//@fn algorithms/replace/utils.rs :: epsilon_on_output
    ensures r == eps_o(label_type),
@sub `label_type == ReplaceLabelType :: Neither` => `rlt_eq ( label_type , ReplaceLabelType :: Neither )`
@sub `label_type == ReplaceLabelType :: Input` => `rlt_eq ( label_type , ReplaceLabelType :: Input )`
//@end
//@type algorithms/replace/state_table.rs :: struct PrefixTuple
//@type algorithms/replace/state_table.rs :: struct ReplaceStackPrefix
//@type algorithms/replace/state_table.rs :: struct ReplaceStateTuple
//@type algorithms/replace/state_table.rs :: struct ReplaceStateTable
impl Clone for PrefixTuple { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Clone for ReplaceStackPrefix { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Clone for ReplaceStateTuple { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl ReplaceStackPrefix {
//@fn algorithms/replace/state_table.rs :: ReplaceStackPrefix :: new
    ensures r.prefix@ == Seq::<PrefixTuple>::empty(),
//@end
//@fn algorithms/replace/state_table.rs :: ReplaceStackPrefix :: push
    ensures final(self).prefix@ == old(self).prefix@.push(PrefixTuple { fst_id, nextstate }),
//@end
//@fn algorithms/replace/state_table.rs :: ReplaceStackPrefix :: pop
    requires old(self).prefix@.len() > 0,
    ensures final(self).prefix@ == old(self).prefix@.drop_last(),
//@end
//@fn algorithms/replace/state_table.rs :: ReplaceStackPrefix :: top
    requires self.prefix@.len() > 0,
    ensures *r == self.prefix@.last(),
@sub `. as_ref ( )` => `` #opt
//@end
}
impl ReplaceStateTuple {
//@fn algorithms/replace/state_table.rs :: ReplaceStateTuple :: new
    ensures r == (ReplaceStateTuple { prefix_id, fst_id, fst_state }),
//@end
}
impl ReplaceStateTable {
//@fn algorithms/replace/state_table.rs :: ReplaceStateTable :: new
    ensures r.prefix_table.inv(), r.tuple_table.inv(), r.prefix_table.t().len() == 0, r.tuple_table.t().len() == 0,
//@end
}
// BTreeSet<Label>, assumed to be a set whose iterator starts at the least and ends at the greatest label
#[verifier::external_body]
pub struct LSet { k: Vec<Label> }
impl LSet {
    pub uninterp spec fn s(&self) -> Set<Label>;
    #[verifier::external_body] pub fn first(&self) -> (r: Label) requires exists|l: Label| self.s().contains(l) ensures self.s().contains(r), forall|l: Label| #[trigger] self.s().contains(l) ==> r <= l { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Label) requires exists|l: Label| self.s().contains(l) ensures self.s().contains(r), forall|l: Label| #[trigger] self.s().contains(l) ==> l <= r { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F)]
//@type algorithms/replace/replace_fst_op.rs :: struct ReplaceFstOp
//@tsub `< W : Semiring , F : Fst < W > , B : Borrow < F > >` => `< W , F >`
//@tsub `Vec < B >` => `Vec < F >`
//@tsub `BTreeSet < Label >` => `LSet`
//@tsub `HashMap < Label , Label >` => `HMap < Label , Label >`
pub struct Conf { pub stack: Seq<PrefixTuple>, pub fst: Option<Label>, pub st: Option<StateId> }
pub struct RTr<W> { pub i: Label, pub o: Label, pub w: W, pub to: Conf }
pub trait IsFinal<W: Semiring>: CoreFst<W> {
//@fn fst_traits/fst.rs :: trait CoreFst :: is_final nopub
    requires self.inv(),
    ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0 == isfin(self.v().fin[state_id as int]),
@sub `| final_weight | final_weight != W :: zero ( )` => `| final_weight : W | -> ( r : bool ) ensures r == ( final_weight != W :: szero ( ) ) { ! final_weight . is_zero ( ) }`
//@end
}
impl<W: Semiring, F: IsFinal<W>> ReplaceFstOp<W, F> {
    pub open spec fn pt(&self) -> Seq<ReplaceStackPrefix> { self.state_table.prefix_table.t() }
    pub open spec fn tt(&self) -> Seq<ReplaceStateTuple> { self.state_table.tuple_table.t() }
    pub open spec fn cf(&self, id: StateId) -> Conf { let t = self.tt()[id as int]; Conf { stack: self.pt()[t.prefix_id as int].prefix@, fst: t.fst_id, st: t.fst_state } }
    pub open spec fn at(&self, f: Option<Label>, s: Option<StateId>) -> bool { f is Some && f->0 < self.fst_array@.len() && s is Some && s->0 < self.fst_array@[f->0 as int].v().n() }
    pub open spec fn ts_ok(&self) -> bool { forall|i: int| 0 <= i < self.tt().len() ==> (#[trigger] self.tt()[i]).prefix_id < self.pt().len() && self.at(self.tt()[i].fst_id, self.tt()[i].fst_state) }
    pub open spec fn ps_ok(&self) -> bool { forall|i: int, k: int| 0 <= i < self.pt().len() && 0 <= k < self.pt()[i].prefix@.len() ==> self.at((#[trigger] self.pt()[i].prefix@[k]).fst_id, self.pt()[i].prefix@[k].nextstate) }
    pub open spec fn inv(&self) -> bool {
        &&& self.state_table.prefix_table.inv() && self.state_table.tuple_table.inv()
        &&& self.ts_ok() && self.ps_ok()
        &&& self.pt().len() > 0 ==> self.pt()[0].prefix@.len() == 0
        &&& self.root < self.fst_array@.len()
        &&& forall|i: int| 0 <= i < self.fst_array@.len() ==> (#[trigger] self.fst_array@[i]).inv() && self.fst_array@[i].v().wf()
        &&& forall|l: Label| #[trigger] self.nonterminal_hash.m().dom().contains(l) ==> self.nonterminal_hash.m()[l] < self.fst_array@.len()
        &&& forall|l: Label| #[trigger] self.nonterminal_hash.m().dom().contains(l) <==> self.nonterminal_set.s().contains(l)
        &&& exists|l: Label| self.nonterminal_set.s().contains(l)
    }
    pub open spec fn room(&self, k: int) -> bool { self.pt().len() + k < u32::MAX && self.tt().len() + k < u32::MAX }
    // configurations keep their numbers; nothing else changes
    pub open spec fn ext(&self, o: &Self) -> bool {
        &&& self.call_label_type_ == o.call_label_type_ && self.return_label_type_ == o.return_label_type_ && self.call_output_label_ == o.call_output_label_ && self.return_label_ == o.return_label_ && self.fst_array == o.fst_array && self.nonterminal_set == o.nonterminal_set && self.nonterminal_hash == o.nonterminal_hash && self.root == o.root && self.properties == o.properties
        &&& self.pt().len() >= o.pt().len() && forall|i: int| 0 <= i < o.pt().len() ==> (#[trigger] self.pt()[i]) == o.pt()[i]
        &&& self.tt().len() >= o.tt().len() && forall|i: int| 0 <= i < o.tt().len() ==> (#[trigger] self.tt()[i]) == o.tt()[i]
    }
    pub open spec fn grown(&self, o: &Self, k: int) -> bool { self.pt().len() <= o.pt().len() + k && self.tt().len() <= o.tt().len() + k }
    // what a transition of the machine fst becomes under the calls on the stack
    pub open spec fn walk(&self, stack: Seq<PrefixTuple>, fst: Option<Label>, t: Tr<W>) -> Option<RTr<W>> {
        if t.olabel != EPS_LABEL && self.nonterminal_hash.m().dom().contains(t.olabel) {
            let nt = self.nonterminal_hash.m()[t.olabel];
            if self.fst_array@[nt as int].v().start is Some {
                Some(RTr { i: if eps_i(self.call_label_type_) { 0 } else { t.ilabel }, o: if eps_o(self.call_label_type_) { 0 } else if self.call_output_label_ is Some { self.call_output_label_->0 } else { t.olabel }, w: t.weight,
                    to: Conf { stack: stack.push(PrefixTuple { fst_id: fst, nextstate: Some(t.nextstate) }), fst: Some(nt), st: self.fst_array@[nt as int].v().start } })
            } else { None }
        } else { Some(RTr { i: t.ilabel, o: t.olabel, w: t.weight, to: Conf { stack, fst, st: Some(t.nextstate) } }) }
    }
    // the return from a final state under a call
    pub open spec fn ret(&self, c: Conf) -> Option<RTr<W>> {
        let f = self.fst_array@[c.fst->0 as int].v().fin[c.st->0 as int];
        if isfin(f) && c.stack.len() > 0 { Some(RTr { i: if eps_i(self.return_label_type_) { 0 } else { self.return_label_ }, o: if eps_o(self.return_label_type_) { 0 } else { self.return_label_ }, w: f->0,
            to: Conf { stack: c.stack.drop_last(), fst: c.stack.last().fst_id, st: c.stack.last().nextstate } }) } else { None }
    }
    pub open spec fn outs(&self, c: Conf, n: int) -> Seq<RTr<W>> decreases n {
        if n <= 0 { if self.ret(c) is Some { seq![self.ret(c)->0] } else { Seq::empty() } } else {
            let t = self.fst_array@[c.fst->0 as int].v().trs[c.st->0 as int][n - 1];
            if self.walk(c.stack, c.fst, t) is Some { self.outs(c, n - 1).push(self.walk(c.stack, c.fst, t)->0) } else { self.outs(c, n - 1) } }
    }
    pub open spec fn is_tr(&self, t: Tr<W>, x: RTr<W>) -> bool { t.ilabel == x.i && t.olabel == x.o && t.weight == x.w && t.nextstate < self.tt().len() && self.cf(t.nextstate) == x.to }
    pub proof fn empty_is_0(&self, i: int) requires self.inv(), 0 <= i < self.pt().len() ensures (i == 0) <==> self.pt()[i].prefix@.len() == 0 {
        if self.pt()[i].prefix@.len() == 0 { assert(self.pt()[i].prefix@ =~= self.pt()[0].prefix@); vec_ext(self.pt()[i].prefix, self.pt()[0].prefix); assert(self.pt()[i] == self.pt()[0]); let m = self.state_table.prefix_table.table.tuple_to_id.m(); assert(m[self.state_table.prefix_table.table.id_to_tuple@[i]] == i); assert(m[self.state_table.prefix_table.table.id_to_tuple@[0]] == 0); }
    }
    pub proof fn keep(&self, o: &Self)
        requires o.inv(), self.ext(o), self.state_table.prefix_table.inv(), self.state_table.tuple_table.inv(), self.pt().len() > 0 ==> self.pt()[0].prefix@.len() == 0,
            forall|i: int| o.tt().len() <= i < self.tt().len() ==> (#[trigger] self.tt()[i]).prefix_id < self.pt().len() && o.at(self.tt()[i].fst_id, self.tt()[i].fst_state),
            forall|i: int, k: int| o.pt().len() <= i < self.pt().len() && 0 <= k < self.pt()[i].prefix@.len() ==> o.at((#[trigger] self.pt()[i].prefix@[k]).fst_id, self.pt()[i].prefix@[k].nextstate),
        ensures self.inv(),
    {
        assert(self.ts_ok()) by { assert forall|i: int| 0 <= i < self.tt().len() implies (#[trigger] self.tt()[i]).prefix_id < self.pt().len() && self.at(self.tt()[i].fst_id, self.tt()[i].fst_state) by { if i < o.tt().len() { assert(self.tt()[i] == o.tt()[i]); assert(o.at(o.tt()[i].fst_id, o.tt()[i].fst_state)); } } }
        assert(self.ps_ok()) by { assert forall|i: int, k: int| 0 <= i < self.pt().len() && 0 <= k < self.pt()[i].prefix@.len() implies self.at((#[trigger] self.pt()[i].prefix@[k]).fst_id, self.pt()[i].prefix@[k].nextstate) by { if i < o.pt().len() { assert(self.pt()[i] == o.pt()[i]); assert(o.at(o.pt()[i].prefix@[k].fst_id, o.pt()[i].prefix@[k].nextstate)); } } }
        let l = choose|l: Label| o.nonterminal_set.s().contains(l); assert(self.nonterminal_set.s().contains(l));
    }
//@fn algorithms/replace/replace_fst_op.rs :: ReplaceFstOp :: get_prefix_id
    requires old(self).inv(), old(self).room(1), forall|k: int| 0 <= k < prefix.prefix@.len() ==> old(self).at((#[trigger] prefix.prefix@[k]).fst_id, prefix.prefix@[k].nextstate), old(self).pt().len() == 0 ==> prefix.prefix@.len() == 0,
    ensures final(self).inv(), final(self).ext(old(self)), final(self).grown(old(self), 1), final(self).tt() == old(self).tt(), r < final(self).pt().len(), final(self).pt()[r as int].prefix@ == prefix.prefix@,
@sub `( & self` => `( & mut self`
@tail
proof { self.keep(old(self)); }
//@end
//@fn algorithms/replace/replace_fst_op.rs :: ReplaceFstOp :: pop_prefix
    requires old(self).inv(), old(self).room(1), prefix.prefix@.len() > 0, old(self).pt().len() > 0, forall|k: int| 0 <= k < prefix.prefix@.len() ==> old(self).at((#[trigger] prefix.prefix@[k]).fst_id, prefix.prefix@[k].nextstate),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).grown(old(self), 1), final(self).tt() == old(self).tt(), r < final(self).pt().len(), final(self).pt()[r as int].prefix@ == prefix.prefix@.drop_last(),
@sub `( & self , mut prefix : ReplaceStackPrefix )` => `( & mut self , prefix : ReplaceStackPrefix )`
@start
let mut prefix = prefix;
//@end
//@fn algorithms/replace/replace_fst_op.rs :: ReplaceFstOp :: push_prefix
    requires old(self).inv(), old(self).room(1), old(self).pt().len() > 0, forall|k: int| 0 <= k < prefix.prefix@.len() ==> old(self).at((#[trigger] prefix.prefix@[k]).fst_id, prefix.prefix@[k].nextstate), old(self).at(fst_id, nextstate),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).grown(old(self), 1), final(self).tt() == old(self).tt(), r < final(self).pt().len(), final(self).pt()[r as int].prefix@ == prefix.prefix@.push(PrefixTuple { fst_id, nextstate }),
@sub `( & self , mut prefix : ReplaceStackPrefix` => `( & mut self , prefix : ReplaceStackPrefix`
@start
let mut prefix = prefix;
//@end
//@fn algorithms/replace/replace_fst_op.rs :: FstOp for ReplaceFstOp :: compute_start
    requires old(self).inv(), old(self).room(1), old(self).tt().len() > 0 ==> old(self).pt().len() > 0,
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok,
        old(self).fst_array@[old(self).root as int].v().start is None ==> r->Ok_0 is None,
        old(self).fst_array@[old(self).root as int].v().start is Some ==> r->Ok_0 is Some && r->Ok_0->0 < final(self).tt().len() && final(self).cf(r->Ok_0->0) == (Conf { stack: Seq::empty(), fst: Some(old(self).root), st: old(self).fst_array@[old(self).root as int].v().start }),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@start
proof { assert(self.fst_array@[self.root as int].inv()); }
@before `Ok ( Some ( start ) )`
proof { assert(self.fst_array@[self.root as int].v().wf()); self.keep(old(self)); assert(self.cf(start).stack =~= Seq::empty()); }
//@end
//@fn algorithms/replace/replace_fst_op.rs :: FstOp for ReplaceFstOp :: compute_final_weight
    requires self.inv(), state < self.tt().len(),
    ensures r is Ok, r->Ok_0 == (if self.cf(state).stack.len() == 0 { self.fst_array@[self.cf(state).fst->0 as int].v().fin[self.cf(state).st->0 as int] } else { None }),
@sub `. borrow ( )` => ``
@start
proof { assert(self.tt()[state as int].prefix_id < self.pt().len()); self.empty_is_0(self.tt()[state as int].prefix_id as int); assert(self.fst_array@[self.tt()[state as int].fst_id->0 as int].inv()); }
//@end
//@fn algorithms/replace/replace_fst_op.rs :: ReplaceFstOp :: compute_tr
    requires old(self).inv(), old(self).room(1), tuple.prefix_id < old(self).pt().len(), old(self).at(tuple.fst_id, Some(tr.nextstate)),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).grown(old(self), 1),
        r is Some <==> old(self).walk(old(self).pt()[tuple.prefix_id as int].prefix@, tuple.fst_id, *tr) is Some,
        r is Some ==> final(self).is_tr(r->0, old(self).walk(old(self).pt()[tuple.prefix_id as int].prefix@, tuple.fst_id, *tr)->0),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@sub `self . nonterminal_hash . get ( & tr . olabel )` => `self . nonterminal_hash . get ( & tr . olabel ) . vcloned ( )`
@sub `* nonterminal` => `nonterminal`
@sub `* self . nonterminal_set . iter ( ) . next ( ) . unwrap ( )` => `self . nonterminal_set . first ( )`
@sub `* self . nonterminal_set . iter ( ) . next_back ( ) . unwrap ( )` => `self . nonterminal_set . last ( )`
@tail
proof { if r__ is Some { self.keep(old(self)); } }
//@end
//@fn algorithms/replace/replace_fst_op.rs :: ReplaceFstOp :: compute_final_tr
    requires old(self).inv(), old(self).room(1), state < old(self).tt().len(),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).grown(old(self), 1),
        r is Some <==> old(self).ret(old(self).cf(state)) is Some,
        r is Some ==> final(self).is_tr(r->0, old(self).ret(old(self).cf(state))->0),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@before `if let Some ( weight )`
proof { self.keep(old(self)); }
@sub `let fst_state = tuple . fst_state ?` => `let fst_state = match tuple . fst_state { Some ( x ) => x , None => return None }`
@start
proof { assert(self.tt()[state as int].prefix_id < self.pt().len()); self.empty_is_0(self.tt()[state as int].prefix_id as int); assert(self.fst_array@[self.tt()[state as int].fst_id->0 as int].inv()); }
//@end
//@fn algorithms/replace/replace_fst_op.rs :: FstOp for ReplaceFstOp :: compute_trs
    requires old(self).inv(), state < old(self).tt().len(), old(self).room(old(self).fst_array@[old(self).cf(state).fst->0 as int].v().trs[old(self).cf(state).st->0 as int].len() as int + 2),
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok,
        ({ let c = old(self).cf(state); let x = old(self).outs(c, old(self).fst_array@[c.fst->0 as int].v().trs[c.st->0 as int].len() as int); r->Ok_0.tv().len() == x.len() && forall|k: int| 0 <= k < x.len() ==> final(self).is_tr(#[trigger] r->Ok_0.tv()[k], x[k]) }),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@start
let ghost c = self.cf(state); let ghost ot = old(self).fst_array@[c.fst->0 as int].v().trs[c.st->0 as int];
proof { assert(self.tt()[state as int].prefix_id < self.pt().len()); assert(self.fst_array@[c.fst->0 as int].inv()); self.fst_array@[c.fst->0 as int].inv_len(); }
@loop 0 it=jt
    invariant old(self).inv(), self.inv(), self.ext(old(self)), self.grown(old(self), jt.index@ + 1), old(self).room(ot.len() as int + 2),
        c == old(self).cf(state), state < old(self).tt().len(), tuple == old(self).tt()[state as int], tuple.fst_state == Some(fst_state), ot == old(self).fst_array@[c.fst->0 as int].v().trs[c.st->0 as int],
        jt.seq().len() == ot.len(), forall|k: int| 0 <= k < ot.len() ==> *(#[trigger] jt.seq()[k]) == ot[k],
        trs@.len() == old(self).outs(c, jt.index@).len(),
        forall|k: int| 0 <= k < trs@.len() ==> self.is_tr(#[trigger] trs@[k], old(self).outs(c, jt.index@)[k]),
@loop_start 0
let ghost kk = jt.index@; let ghost s1 = *self; let ghost t1 = trs@;
proof { assert(*tr == ot[kk]); assert(old(self).fst_array@[c.fst->0 as int].v().wf()); assert(old(self).tt()[state as int].prefix_id < old(self).pt().len()); assert(old(self).at(c.fst, c.st)); assert(self.pt()[tuple.prefix_id as int] == old(self).pt()[tuple.prefix_id as int]); assert(self.walk(c.stack, c.fst, ot[kk]) == old(self).walk(c.stack, c.fst, ot[kk])); }
@loop_end 0
proof {
    assert forall|k: int| 0 <= k < trs@.len() implies self.is_tr(#[trigger] trs@[k], old(self).outs(c, kk + 1)[k]) by {
        if k < t1.len() { assert(trs@[k] == t1[k]); let id = t1[k].nextstate; assert(s1.is_tr(t1[k], old(self).outs(c, kk)[k])); assert(self.tt()[id as int] == s1.tt()[id as int]); assert(s1.tt()[id as int].prefix_id < s1.pt().len()); assert(self.cf(id) == s1.cf(id)); }
    }
}
//@end
}
}
