//@use pfns
verus! {
//@macro trs_iter_mut.rs :: updt_nieps
//@macro trs_iter_mut.rs :: updt_noeps
// number of epsilons of a transition list under a change of one element
pub proof fn cnt_le<W>(t: Seq<Tr<W>>) ensures cnt_i(t) <= t.len(), cnt_o(t) <= t.len() decreases t.len() { if t.len() > 0 { cnt_le(t.drop_last()); } }
pub proof fn cnt_push<W>(t: Seq<Tr<W>>, x: Tr<W>) ensures cnt_i(t.push(x)) == cnt_i(t) + (if x.ilabel == EPS_LABEL { 1int } else { 0int }), cnt_o(t.push(x)) == cnt_o(t) + (if x.olabel == EPS_LABEL { 1int } else { 0int })
{ assert(t.push(x).drop_last() =~= t); }
pub proof fn cnt_remove<W>(t: Seq<Tr<W>>, k: int) requires 0 <= k < t.len()
    ensures cnt_i(t.remove(k)) == cnt_i(t) - (if t[k].ilabel == EPS_LABEL { 1int } else { 0int }), cnt_o(t.remove(k)) == cnt_o(t) - (if t[k].olabel == EPS_LABEL { 1int } else { 0int })
    decreases t.len()
{
    if k == t.len() - 1 { assert(t.remove(k) =~= t.drop_last()); }
    else { cnt_remove(t.drop_last(), k); assert(t.remove(k).drop_last() =~= t.drop_last().remove(k)); assert(t.remove(k).last() == t.last()); }
}
pub proof fn cnt_update<W>(t: Seq<Tr<W>>, k: int, x: Tr<W>) requires 0 <= k < t.len()
    ensures cnt_i(t.update(k, x)) == cnt_i(t) - (if t[k].ilabel == EPS_LABEL { 1int } else { 0int }) + (if x.ilabel == EPS_LABEL { 1int } else { 0int }),
        cnt_o(t.update(k, x)) == cnt_o(t) - (if t[k].olabel == EPS_LABEL { 1int } else { 0int }) + (if x.olabel == EPS_LABEL { 1int } else { 0int }),
        t[k].ilabel == EPS_LABEL ==> cnt_i(t) > 0, t[k].olabel == EPS_LABEL ==> cnt_o(t) > 0,
    decreases t.len()
{
    if k == t.len() - 1 { assert(t.update(k, x).drop_last() =~= t.drop_last()); }
    else { cnt_update(t.drop_last(), k, x); assert(t.update(k, x).drop_last() =~= t.drop_last().update(k, x)); assert(t.update(k, x).last() == t.last()); }
}
impl FstProperties {
//@fn fst_properties/properties.rs :: FstProperties :: set_arc_properties
    ensures forall|i: int| ! #[trigger] r.has(i),
@start
broadcast use group_bits;
//@end
}
pub open spec fn label_bit(i: int) -> bool { i == B_NOT_ACCEPTOR || i == B_ACCEPTOR || i == B_I_EPSILONS || i == B_NO_I_EPSILONS || i == B_O_EPSILONS || i == B_NO_O_EPSILONS || i == B_EPSILONS || i == B_NO_EPSILONS }
pub open spec fn weight_bit(i: int) -> bool { i == B_WEIGHTED || i == B_UNWEIGHTED }
pub open spec fn r_lab(a: FstProperties, b: FstProperties, xi: Label, xo: Label, yi: Label, yo: Label) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> (
        if i == B_NOT_ACCEPTOR { yi != yo || (a.has(i) && xi == xo) }
        else if i == B_ACCEPTOR { a.has(i) && yi == yo }
        else if i == B_I_EPSILONS { yi == EPS_LABEL || (a.has(i) && xi != EPS_LABEL) }
        else if i == B_NO_I_EPSILONS { a.has(i) && yi != EPS_LABEL }
        else if i == B_O_EPSILONS { yo == EPS_LABEL || (a.has(i) && xo != EPS_LABEL) }
        else if i == B_NO_O_EPSILONS { a.has(i) && yo != EPS_LABEL }
        else if i == B_EPSILONS { (yi == EPS_LABEL && yo == EPS_LABEL) || (a.has(i) && !(xi == EPS_LABEL && xo == EPS_LABEL)) }
        else if i == B_NO_EPSILONS { a.has(i) && !(yi == EPS_LABEL && yo == EPS_LABEL) }
        else { a.has(i) })
}
pub open spec fn r_wei(a: FstProperties, b: FstProperties, xw: bool, yw: bool) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> (
        if i == B_WEIGHTED { yw || (a.has(i) && !xw) }
        else if i == B_UNWEIGHTED { a.has(i) && !yw }
        else { a.has(i) })
}
//@fn trs_iter_mut.rs :: update_properties_labels rlimit=40
    ensures r_lab(*old(properties), *final(properties), old_ilabel, old_olabel, new_ilabel, new_olabel),
@start
broadcast use group_bits;
//@end
//@fn trs_iter_mut.rs :: update_properties_weights
    ensures r_wei(*old(properties), *final(properties), nontriv(*old_weight), nontriv(*new_weight)),
@start
broadcast use group_bits;
//@end
//@fn trs_iter_mut.rs :: keep_only_relevant_properties
    ensures r_keep(*old(properties), *final(properties)),
@start
broadcast use group_bits;
//@end
//@fn trs_iter_mut.rs :: compute_new_properties_all
    ensures r_set_tr(properties, r, *old_tr, *new_tr),
//@end
//@fn trs_iter_mut.rs :: compute_new_properties_labels
    ensures r_lab(properties, r, old_ilabel, old_olabel, new_ilabel, new_olabel), r_only(r),
//@end
//@fn trs_iter_mut.rs :: compute_new_properties_weights
    ensures r_wei(properties, r, nontriv(*old_weight), nontriv(*new_weight)), r_only(r),
//@end
pub proof fn vlen<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { let n = v.len(); assert(n as int == v@.len()); }
pub open spec fn r_keep(a: FstProperties, b: FstProperties) -> bool { forall|i: int| #[trigger] b.has(i) ==> a.has(i) && (label_bit(i) || weight_bit(i)) }
pub open spec fn r_only(b: FstProperties) -> bool { forall|i: int| #[trigger] b.has(i) ==> label_bit(i) || weight_bit(i) }
pub proof fn l_tr<W: Semiring>(a: FstProperties, b: FstProperties, x: Tr<W>, y: Tr<W>)
    ensures r_lab(a, b, x.ilabel, x.olabel, y.ilabel, y.olabel) && r_only(b) && x.weight == y.weight ==> r_set_tr(a, b, x, y),
        r_wei(a, b, nontriv(x.weight), nontriv(y.weight)) && r_only(b) && x.ilabel == y.ilabel && x.olabel == y.olabel ==> r_set_tr(a, b, x, y),
        r_keep(a, b) && x.ilabel == y.ilabel && x.olabel == y.olabel && x.weight == y.weight ==> r_set_tr(a, b, x, y),
{ }
// slice::get_mut
#[verifier::external_body]
pub fn vget_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: Option<&'a mut T>)
    ensures r is Some <==> i < old(v)@.len(), r is Some ==> *r->0 == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(r->0)), r is None ==> final(v)@ == old(v)@,
{ v.get_mut(i) }
//@type trs_iter_mut.rs :: struct TrsIterMut
// both iterators write back to the same place
#[verifier::prophetic]
pub open spec fn same_target<'a, 'b, W: Semiring>(a: TrsIterMut<'a, W>, b: TrsIterMut<'b, W>) -> bool {
    &&& *final(a.trs) == *final(b.trs) &&& *final(a.properties) == *final(b.properties) &&& *final(a.niepsilons) == *final(b.niepsilons) &&& *final(a.noepsilons) == *final(b.noepsilons)
}
impl<'a, W: Semiring> TrsIterMut<'a, W> {
    pub open spec fn tv(&self) -> Seq<Tr<W>> { self.trs@ }
    pub open spec fn pv(&self) -> FstProperties { *self.properties }
    pub open spec fn ok(&self) -> bool { *self.niepsilons == cnt_i(self.trs@) && *self.noepsilons == cnt_o(self.trs@) }
    // what will have been written back when the iterator is dropped keeps the counts right
    #[verifier::prophetic]
    pub open spec fn okf(&self) -> bool { *final(self.niepsilons) == cnt_i((*final(self.trs))@) && *final(self.noepsilons) == cnt_o((*final(self.trs))@) }
//@fn trs_iter_mut.rs :: TrsIterMut :: new
    ensures *r.trs == *old(trs), *r.properties == *old(properties), *r.niepsilons == *old(niepsilons), *r.noepsilons == *old(noepsilons),
        *final(r.trs) == *final(trs), *final(r.properties) == *final(properties), *final(r.niepsilons) == *final(niepsilons), *final(r.noepsilons) == *final(noepsilons),
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: get
    ensures r is Some <==> idx < self.tv().len(), r is Some ==> *r->0 == self.tv()[idx as int],
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: get_unchecked
    requires idx < self.tv().len(),
    ensures *r == self.tv()[idx as int],
//@end
    pub fn vget_unchecked(&self, idx: usize) -> (r: &Tr<W>) requires idx < self.tv().len(), ensures *r == self.tv()[idx as int] { self.get_unchecked(idx) }
//@fn trs_iter_mut.rs :: TrsIterMut :: len
    ensures r == self.tv().len(),
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: is_empty
    ensures r == (self.tv().len() == 0),
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_ilabel
    requires old(self).ok(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), r is Ok <==> idx < old(self).trs@.len(),
        r is Ok ==> final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        r is Err ==> final(self).trs@ == old(self).trs@,
        /*C02*/ r is Ok ==> r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r is Err ==> r_mask(*old(self).properties, *final(self).properties, |i: int| true),
@sub `self . trs . get_mut ( idx )` => `vget_mut ( self . trs , idx )`
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_ilabel_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_olabel
    requires old(self).ok(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), r is Ok <==> idx < old(self).trs@.len(),
        r is Ok ==> final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        r is Err ==> final(self).trs@ == old(self).trs@,
        /*C02*/ r is Ok ==> r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r is Err ==> r_mask(*old(self).properties, *final(self).properties, |i: int| true),
@sub `self . trs . get_mut ( idx )` => `vget_mut ( self . trs , idx )`
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_olabel_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_weight
    requires old(self).ok(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), r is Ok <==> idx < old(self).trs@.len(),
        r is Ok ==> final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })),
        r is Err ==> final(self).trs@ == old(self).trs@,
        /*C02*/ r is Ok ==> r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r is Err ==> r_mask(*old(self).properties, *final(self).properties, |i: int| true),
@sub `self . trs . get_mut ( idx )` => `vget_mut ( self . trs , idx )`
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_weight_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_nextstate
    requires old(self).ok(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), r is Ok <==> idx < old(self).trs@.len(),
        r is Ok ==> final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })),
        r is Err ==> final(self).trs@ == old(self).trs@,
        /*C02*/ r is Ok ==> r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })),
        /*C02*/ r is Err ==> r_mask(*old(self).properties, *final(self).properties, |i: int| true),
@sub `self . trs . get_mut ( idx )` => `vget_mut ( self . trs , idx )`
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_nextstate_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: old(self).trs@[idx as int].ilabel, olabel: old(self).trs@[idx as int].olabel, weight: old(self).trs@[idx as int].weight, nextstate: nextstate })); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_tr
    requires old(self).ok(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), r is Ok <==> idx < old(self).trs@.len(),
        r is Ok ==> final(self).trs@ == old(self).trs@.update(idx as int, tr),
        r is Err ==> final(self).trs@ == old(self).trs@,
        /*C02*/ r is Ok ==> r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], tr),
        /*C02*/ r is Err ==> r_mask(*old(self).properties, *final(self).properties, |i: int| true),
@sub `self . trs . get_mut ( idx )` => `vget_mut ( self . trs , idx )`
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, tr); cnt_le(old(self).trs@.update(idx as int, tr)); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_tr_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, tr),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], tr),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, tr); cnt_le(old(self).trs@.update(idx as int, tr)); } }
//@end
//@fn trs_iter_mut.rs :: TrsIterMut :: set_labels_unchecked
    requires old(self).ok(), idx < old(self).trs@.len(),
    ensures final(self).ok(), same_target(*old(self), *final(self)), final(self).trs@ == old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
        /*C02*/ r_set_tr(*old(self).properties, *final(self).properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })),
@start
let ghost nn = old(self).trs@.len() as int; let ghost ii = idx as int;
proof { vlen(*old(self).trs); cnt_le(old(self).trs@); if idx < nn { cnt_update(old(self).trs@, idx as int, (Tr { ilabel: ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); cnt_le(old(self).trs@.update(idx as int, (Tr { ilabel: ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate }))); } }
@tail
proof { if ii < nn { l_tr(*old(self).properties, *self.properties, old(self).trs@[idx as int], (Tr { ilabel: ilabel, olabel: olabel, weight: old(self).trs@[idx as int].weight, nextstate: old(self).trs@[idx as int].nextstate })); } }
//@end
}
}
