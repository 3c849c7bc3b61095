//@use core
verus! {
// ---- abstract machines
#[verifier::reject_recursive_types(W)]
pub struct FstV<W> { pub start: Option<StateId>, pub fin: Seq<Option<W>>, pub trs: Seq<Seq<Tr<W>>> }
impl<W> FstV<W> {
    pub open spec fn n(self) -> nat { self.fin.len() }
    pub open spec fn wf(self) -> bool {
        &&& self.fin.len() == self.trs.len()
        &&& self.start is Some ==> self.start->0 < self.n()
        &&& forall|s: int, k: int| 0 <= s < self.n() && 0 <= k < self.trs[s].len() ==> (#[trigger] self.trs[s][k]).nextstate < self.n()
    }
}
pub open spec fn cnt_i<W>(t: Seq<Tr<W>>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { cnt_i(t.drop_last()) + (if t.last().ilabel == EPS_LABEL { 1nat } else { 0nat }) } }
pub open spec fn cnt_o<W>(t: Seq<Tr<W>>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { cnt_o(t.drop_last()) + (if t.last().olabel == EPS_LABEL { 1nat } else { 0nat }) } }

// the effect of each mutation on the abstract machine
pub open spec fn v_set_start<W>(v: FstV<W>, s: StateId) -> FstV<W> { FstV { start: Some(s), ..v } }
pub open spec fn v_set_final<W>(v: FstV<W>, s: StateId, w: Option<W>) -> FstV<W> { FstV { fin: v.fin.update(s as int, w), ..v } }
pub open spec fn v_add_state<W>(v: FstV<W>) -> FstV<W> { FstV { fin: v.fin.push(None), trs: v.trs.push(Seq::empty()), ..v } }
pub open spec fn v_add_states<W>(v: FstV<W>, k: nat) -> FstV<W> { FstV { fin: v.fin + Seq::new(k, |i: int| None), trs: v.trs + Seq::new(k, |i: int| Seq::empty()), ..v } }
pub open spec fn v_set_trs<W>(v: FstV<W>, s: StateId, t: Seq<Tr<W>>) -> FstV<W> { FstV { trs: v.trs.update(s as int, t), ..v } }
pub open spec fn v_add_tr<W>(v: FstV<W>, s: StateId, t: Tr<W>) -> FstV<W> { v_set_trs(v, s, v.trs[s as int].push(t)) }

}
