//@use ssort
verus! {
// ---- C06: depth first visit, topological order
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type algorithms/dfs_visit.rs :: enum DfsStateColor
pub trait TrFilter<S: Semiring>: Sized {
    spec fn skeep(&self, tr: Tr<S>) -> bool;
    fn keep(&self, tr: &Tr<S>) -> (r: bool) ensures r == self.skeep(*tr);
}
//@type algorithms/tr_filters.rs :: struct AnyTrFilter
impl<S: Semiring> TrFilter<S> for AnyTrFilter {
    open spec fn skeep(&self, tr: Tr<S>) -> bool { true }
//@fn algorithms/tr_filters.rs :: TrFilter for AnyTrFilter :: keep
//@end
}
// what a visitor has been told: the states finished so far in order, whether a back transition was reported, and whether it asked to stop
pub trait VisV: Sized { spec fn fin(&self) -> Seq<StateId>; spec fn bk(&self) -> bool; spec fn stopped(&self) -> bool; spec fn vok(&self, done: bool) -> bool; /* finish_visit may be called when not every state was visited */ spec fn partial() -> bool; }
pub open spec fn vis_same<V: VisV>(a: V, b: V) -> bool { b.fin() == a.fin() && b.bk() == a.bk() && (a.stopped() ==> b.stopped()) && b.vok(false) }
pub trait Visitor<'a, W: Semiring, F: CoreFst<W>>: VisV {
    fn init_visit(&mut self, fst: &'a F) requires old(self).vok(false), ensures final(self).fin() == Seq::<StateId>::empty() || final(self).fin() == old(self).fin(), final(self).bk() == old(self).bk(), old(self).stopped() == final(self).stopped(), final(self).vok(false);
    fn init_state(&mut self, s: StateId, root: StateId) -> (r: bool) requires old(self).vok(false), !old(self).stopped(), ensures vis_same(*old(self), *final(self)), r <==> !final(self).stopped();
    fn tree_tr(&mut self, s: StateId, tr: &Tr<W>) -> (r: bool) requires old(self).vok(false), !old(self).stopped(), ensures vis_same(*old(self), *final(self)), r <==> !final(self).stopped();
    fn back_tr(&mut self, s: StateId, tr: &Tr<W>) -> (r: bool) requires old(self).vok(false), !old(self).stopped(), ensures final(self).fin() == old(self).fin(), final(self).bk(), old(self).stopped() ==> final(self).stopped(), final(self).vok(false), r <==> !final(self).stopped();
    fn forward_or_cross_tr(&mut self, s: StateId, tr: &Tr<W>) -> (r: bool) requires old(self).vok(false), !old(self).stopped(), ensures vis_same(*old(self), *final(self)), r <==> !final(self).stopped();
    fn finish_state(&mut self, s: StateId, parent: Option<StateId>, tr: Option<&Tr<W>>) requires old(self).vok(false), ensures final(self).fin() == old(self).fin().push(s), final(self).bk() == old(self).bk(), old(self).stopped() == final(self).stopped(), final(self).vok(false);
    fn finish_visit(&mut self) requires old(self).vok(false), !old(self).stopped() ==> once(old(self).fin()) || Self::partial(), ensures final(self).fin() == old(self).fin(), final(self).bk() == old(self).bk(), old(self).stopped() == final(self).stopped(), final(self).vok(true);
}
// every state of 0 .. len - 1 exactly once
pub open spec fn once(f: Seq<StateId>) -> bool { f.len() <= u32::MAX && v_perm(f) }
pub trait VLastMut<T>: Sized { spec fn lseq(&self) -> Seq<T>; fn vlast_mut(&mut self) -> (r: Option<&mut T>) ensures r is None <==> old(self).lseq().len() == 0, r is None ==> *final(self) == *old(self), r is Some ==> *(r->0) == old(self).lseq().last() && final(self).lseq() == old(self).lseq().update(old(self).lseq().len() - 1, *final(r->0)); }
impl<T> VLastMut<T> for Vec<T> { open spec fn lseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vlast_mut(&mut self) -> (r: Option<&mut T>) { self.last_mut() } }
//@type algorithms/dfs_visit.rs :: struct DfsState
//@type algorithms/dfs_visit.rs :: struct OpenFstIterator
impl<W: Semiring, TRS: Trs<W>> OpenFstIterator<W, TRS> {
//@fn algorithms/dfs_visit.rs :: OpenFstIterator :: new
    ensures r.trs == trs, r.pos == 0,
//@end
//@fn algorithms/dfs_visit.rs :: OpenFstIterator :: value
    requires self.pos < self.trs.tv().len(),
    ensures *r == self.trs.tv()[self.pos as int],
@sub `self . trs . trs ( ) . vget_unchecked ( self . pos )` => `& self . trs . trs ( ) [ self . pos ]`
//@end
//@fn algorithms/dfs_visit.rs :: OpenFstIterator :: done
    ensures r == (self.pos >= self.trs.tv().len()), self.trs.tv().len() <= usize::MAX,
//@end
//@fn algorithms/dfs_visit.rs :: OpenFstIterator :: next
    requires old(self).pos < usize::MAX,
    ensures final(self).pos == old(self).pos + 1, final(self).trs == old(self).trs,
//@end
}
impl<W: Semiring, TRS: Trs<W>> DfsState<W, TRS> {
//@fn algorithms/dfs_visit.rs :: DfsState :: new
    requires fst.inv(), s < fst.v().n(),
    ensures r.state_id == s, r.tr_iter.pos == 0, r.tr_iter.trs.tv() == fst.v().trs[s as int],
@sub `F : Fst <` => `F : CoreFst <`
//@end
}

pub open spec fn before(f: Seq<StateId>, i: int, t: StateId) -> bool { exists|j: int| 0 <= j < i && j < f.len() && #[trigger] f[j] == t }
// the target of x was finished among the first i, or x is filtered out, or a back transition was seen
pub open spec fn handled<W: Semiring, A: TrFilter<W>>(a: A, f: Seq<StateId>, i: int, bk: bool, x: Tr<W>) -> bool { !a.skeep(x) || bk || before(f, i, x.nextstate) }
pub open spec fn ordered<W: Semiring, A: TrFilter<W>>(a: A, v: FstV<W>, f: Seq<StateId>, bk: bool) -> bool { forall|i: int, k: int| 0 <= i < f.len() && 0 <= k < v.trs[f[i] as int].len() ==> handled(a, f, i, bk, #[trigger] v.trs[f[i] as int][k]) }
#[verifier::opaque]
pub open spec fn on_stack<W: Semiring, T: Trs<W>>(st: Seq<DfsState<W, T>>, s: int) -> bool { exists|i: int| 0 <= i < st.len() && #[trigger] st[i].state_id == s }
pub open spec fn stack_ok<W: Semiring, T: Trs<W>>(v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>) -> bool {
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).state_id < v.n() && c[st[i].state_id as int] == DfsStateColor::Grey && st[i].tr_iter.trs.tv() == v.trs[st[i].state_id as int] && st[i].tr_iter.pos <= v.trs[st[i].state_id as int].len()
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < st.len() ==> (#[trigger] st[i]).tr_iter.pos < v.trs[st[i].state_id as int].len() && v.trs[st[i].state_id as int].len() <= usize::MAX && v.trs[st[i].state_id as int][st[i].tr_iter.pos as int].nextstate == (#[trigger] st[j]).state_id
    &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> (#[trigger] st[i]).state_id != (#[trigger] st[j]).state_id
    &&& forall|s: int| 0 <= s < v.n() && #[trigger] c[s] == DfsStateColor::Grey ==> on_stack(st, s)
}
pub open spec fn fin_ok(n: nat, c: Seq<DfsStateColor>, f: Seq<StateId>) -> bool {
    &&& forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < n && c[f[i] as int] == DfsStateColor::Black
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] != #[trigger] f[j]
    &&& forall|s: int| 0 <= s < n && #[trigger] c[s] == DfsStateColor::Black ==> before(f, f.len() as int, s as StateId)
}
pub open spec fn stack_done<W: Semiring, T: Trs<W>, A: TrFilter<W>>(a: A, v: FstV<W>, st: Seq<DfsState<W, T>>, f: Seq<StateId>, bk: bool) -> bool {
    forall|i: int, k: int| 0 <= i < st.len() && 0 <= k < st[i].tr_iter.pos ==> handled(a, f, f.len() as int, bk, #[trigger] v.trs[st[i].state_id as int][k])
}
#[verifier::opaque]
pub open spec fn dfs_ok<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V) -> bool {
    &&& c.len() == v.n() &&& vis.vok(false)
    &&& stack_ok(v, c, st) &&& vis.bk() ==> cyclic(v.trs)
    &&& !vis.stopped() ==> fin_ok(v.n(), c, vis.fin()) && ordered(a, v, vis.fin(), vis.bk()) && stack_done(a, v, st, vis.fin(), vis.bk())
}
// what a complete visit tells: every state once, and no transition leads to a state that finishes later unless a back transition was reported
pub open spec fn visited<W: Semiring, A: TrFilter<W>>(a: A, v: FstV<W>, f: Seq<StateId>, bk: bool) -> bool { once(f) && f.len() == v.n() && ordered(a, v, f, bk) }
pub open spec fn nxt<W: Semiring, T: Trs<W>>(d: DfsState<W, T>, e: DfsState<W, T>) -> bool { e.state_id == d.state_id && e.tr_iter.trs == d.tr_iter.trs && e.tr_iter.pos == d.tr_iter.pos + 1 }
pub proof fn stack_at<W: Semiring, T: Trs<W>>(st: Seq<DfsState<W, T>>, s: int) -> (i: int) requires on_stack(st, s) ensures 0 <= i < st.len(), st[i].state_id == s { reveal(on_stack); choose|i: int| 0 <= i < st.len() && #[trigger] st[i].state_id == s }
pub proof fn put_stack<W: Semiring, T: Trs<W>>(st: Seq<DfsState<W, T>>, i: int) requires 0 <= i < st.len() ensures on_stack(st, st[i].state_id as int) { reveal(on_stack); }
pub proof fn before_push(f: Seq<StateId>, s: StateId) ensures forall|i: int, t: StateId| i <= f.len() ==> (#[trigger] before(f.push(s), i, t) <==> before(f, i, t)), forall|t: StateId| #[trigger] before(f.push(s), f.len() as int + 1, t) <==> before(f, f.len() as int, t) || t == s
{
    assert forall|i: int, t: StateId| i <= f.len() implies (#[trigger] before(f.push(s), i, t) <==> before(f, i, t)) by { if before(f, i, t) { let j = choose|j: int| 0 <= j < i && j < f.len() && #[trigger] f[j] == t; assert(f.push(s)[j] == t); } if before(f.push(s), i, t) { let j = choose|j: int| 0 <= j < i && j < f.push(s).len() && #[trigger] f.push(s)[j] == t; assert(f[j] == t); } }
    assert forall|t: StateId| #[trigger] before(f.push(s), f.len() as int + 1, t) <==> before(f, f.len() as int, t) || t == s by { if before(f, f.len() as int, t) { let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j] == t; assert(f.push(s)[j] == t); } if t == s { assert(f.push(s)[f.len() as int] == t); } if before(f.push(s), f.len() as int + 1, t) { let j = choose|j: int| 0 <= j < f.len() + 1 && j < f.push(s).len() && #[trigger] f.push(s)[j] == t; if j < f.len() { assert(f[j] == t); } } }
}
pub proof fn l_top<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V)
    requires dfs_ok(a, v, c, st, vis)
    ensures c.len() == v.n(), vis.vok(false), vis.bk() ==> cyclic(v.trs), st.len() > 0 ==> st.last().state_id < v.n() && c[st.last().state_id as int] == DfsStateColor::Grey && st.last().tr_iter.trs.tv() == v.trs[st.last().state_id as int],
        st.len() > 1 ==> st[st.len() - 2].state_id < v.n() && st[st.len() - 2].tr_iter.trs.tv() == v.trs[st[st.len() - 2].state_id as int] && st[st.len() - 2].tr_iter.pos < v.trs[st[st.len() - 2].state_id as int].len() <= usize::MAX,
        !vis.stopped() && st.len() == 0 ==> forall|s: int| 0 <= s < v.n() ==> #[trigger] c[s] == DfsStateColor::White || c[s] == DfsStateColor::Black
{ reveal(dfs_ok); if st.len() == 0 { assert forall|s: int| 0 <= s < v.n() implies #[trigger] c[s] == DfsStateColor::White || c[s] == DfsStateColor::Black by { if c[s] == DfsStateColor::Grey { let i = stack_at(st, s); } } } }
pub proof fn l_push<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V, t: StateId, d: DfsState<W, T>, vis1: V)
    requires dfs_ok(a, v, c, st, vis), t < v.n(), c[t as int] == DfsStateColor::White, d.state_id == t, d.tr_iter.pos == 0, d.tr_iter.trs.tv() == v.trs[t as int], vis_same(vis, vis1),
        st.len() > 0 ==> st.last().tr_iter.pos < v.trs[st.last().state_id as int].len() <= usize::MAX && v.trs[st.last().state_id as int][st.last().tr_iter.pos as int].nextstate == t,
    ensures dfs_ok(a, v, c.update(t as int, DfsStateColor::Grey), st.push(d), vis1)
{
    reveal(dfs_ok);
    let c1 = c.update(t as int, DfsStateColor::Grey); let s1 = st.push(d);
    assert forall|s: int| 0 <= s < v.n() && #[trigger] c1[s] == DfsStateColor::Grey implies on_stack(s1, s) by { if s == t { put_stack(s1, st.len() as int); } else { assert(on_stack(st, s)); let i = stack_at(st, s); put_stack(s1, i); assert(s1[i].state_id == s); } }
    assert(stack_ok(v, c1, s1));
}
pub proof fn l_next<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V, s1: Seq<DfsState<W, T>>, vis1: V)
    requires dfs_ok(a, v, c, st, vis), st.len() > 0, s1 == st.update(st.len() - 1, s1.last()), s1.len() == st.len(), nxt(st.last(), s1.last()), vis1.fin() == vis.fin(), vis.bk() ==> vis1.bk(), vis.stopped() ==> vis1.stopped(), vis1.vok(false),
        st.last().tr_iter.pos < v.trs[st.last().state_id as int].len(),
        !vis1.stopped() ==> { let x = v.trs[st.last().state_id as int][st.last().tr_iter.pos as int]; !a.skeep(x) || vis1.bk() || c[x.nextstate as int] == DfsStateColor::Black && x.nextstate < v.n() },
        vis1.bk() && !vis.bk() ==> { let x = v.trs[st.last().state_id as int][st.last().tr_iter.pos as int]; c[x.nextstate as int] == DfsStateColor::Grey && x.nextstate < v.n() }, v.wf(),
    ensures dfs_ok(a, v, c, s1, vis1)
{
    reveal(dfs_ok);
    if vis1.bk() && !vis.bk() { l_cyc(v, c, st); }
    l_next_st(v, c, st, s1);
    if !vis1.stopped() {
        assert forall|i: int, k: int| 0 <= i < vis1.fin().len() && 0 <= k < v.trs[vis1.fin()[i] as int].len() implies handled(a, vis1.fin(), i, vis1.bk(), #[trigger] v.trs[vis1.fin()[i] as int][k]) by { assert(handled(a, vis.fin(), i, vis.bk(), v.trs[vis.fin()[i] as int][k])); }
        assert forall|i: int, k: int| 0 <= i < s1.len() && 0 <= k < s1[i].tr_iter.pos implies handled(a, vis1.fin(), vis1.fin().len() as int, vis1.bk(), #[trigger] v.trs[s1[i].state_id as int][k]) by { if k < st[i].tr_iter.pos { assert(handled(a, vis.fin(), vis.fin().len() as int, vis.bk(), v.trs[st[i].state_id as int][k])); } }
    }
}
pub proof fn l_cyc<W: Semiring, T: Trs<W>>(v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>)
    requires stack_ok(v, c, st), st.len() > 0, v.wf(), st.last().tr_iter.pos < v.trs[st.last().state_id as int].len(), ({ let x = v.trs[st.last().state_id as int][st.last().tr_iter.pos as int]; c[x.nextstate as int] == DfsStateColor::Grey && x.nextstate < v.n() }),
    ensures cyclic(v.trs)
{
    let x = v.trs[st.last().state_id as int][st.last().tr_iter.pos as int]; let z = x.nextstate as int;
    assert(on_stack(st, z)); let i0 = stack_at(st, z);
    let m = (st.len() - i0) as nat;
    let p = Seq::new(m + 1, |j: int| if j < m { st[i0 + j].state_id as int } else { z });
    assert(walk(v.trs, p)) by { assert forall|i: int| 0 <= i < p.len() - 1 implies edge(v.trs, #[trigger] p[i], p[i + 1]) by {
        let e = st[i0 + i]; let y = v.trs[e.state_id as int][e.tr_iter.pos as int];
        if i + 1 < m { let e2 = st[i0 + i + 1]; assert(y.nextstate == e2.state_id); } else { assert(e == st.last()); assert(y.nextstate == z); }
    } }
    assert(on_cycle(v.trs, z)); assert(cyclic(v.trs));
}
pub proof fn l_next_st<W: Semiring, T: Trs<W>>(v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, s1: Seq<DfsState<W, T>>)
    requires stack_ok(v, c, st), st.len() > 0, s1 == st.update(st.len() - 1, s1.last()), s1.len() == st.len(), nxt(st.last(), s1.last()), st.last().tr_iter.pos < v.trs[st.last().state_id as int].len(),
    ensures stack_ok(v, c, s1)
{
    assert forall|s: int| 0 <= s < v.n() && #[trigger] c[s] == DfsStateColor::Grey implies on_stack(s1, s) by { assert(on_stack(st, s)); let i = stack_at(st, s); put_stack(s1, i); assert(s1[i].state_id == s); }
}
pub proof fn l_pop<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V, s1: Seq<DfsState<W, T>>, vis1: V)
    requires dfs_ok(a, v, c, st, vis), st.len() > 0, vis.stopped() || st.last().tr_iter.pos >= v.trs[st.last().state_id as int].len(), v.n() <= u32::MAX,
        s1.len() == st.len() - 1, st.len() > 1 ==> s1 == st.drop_last().update(st.len() - 2, s1.last()) && nxt(st[st.len() - 2], s1.last()),
        vis1.fin() == vis.fin().push(st.last().state_id), vis.bk() == vis1.bk(), vis.stopped() == vis1.stopped(), vis1.vok(false),
    ensures dfs_ok(a, v, c.update(st.last().state_id as int, DfsStateColor::Black), s1, vis1)
{
    reveal(dfs_ok);
    let q = st.last().state_id; let c1 = c.update(q as int, DfsStateColor::Black); let f = vis.fin(); let f1 = vis1.fin();
    l_pop_st(v, c, st, s1);
    if !vis.stopped() {
        l_pop_fin(v.n(), c, f, q);
        l_pop_ord(a, v, st, f, vis.bk());
        l_pop_done(a, v, c, st, f, vis.bk(), s1);
    }
}
pub proof fn l_pop_ord<W: Semiring, T: Trs<W>, A: TrFilter<W>>(a: A, v: FstV<W>, st: Seq<DfsState<W, T>>, f: Seq<StateId>, bk: bool)
    requires ordered(a, v, f, bk), stack_done(a, v, st, f, bk), st.len() > 0, st.last().tr_iter.pos >= v.trs[st.last().state_id as int].len(),
    ensures ordered(a, v, f.push(st.last().state_id), bk)
{
    let q = st.last().state_id; let f1 = f.push(q); before_push(f, q);
    assert forall|i: int, k: int| 0 <= i < f1.len() && 0 <= k < v.trs[f1[i] as int].len() implies handled(a, f1, i, bk, #[trigger] v.trs[f1[i] as int][k]) by {
        if i < f.len() { assert(handled(a, f, i, bk, v.trs[f[i] as int][k])); } else { assert(f1[i] == q); assert(handled(a, f, f.len() as int, bk, v.trs[st[st.len() - 1].state_id as int][k])); }
    }
}
pub proof fn l_pop_done<W: Semiring, T: Trs<W>, A: TrFilter<W>>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, f: Seq<StateId>, bk: bool, s1: Seq<DfsState<W, T>>)
    requires stack_ok(v, c, st), stack_done(a, v, st, f, bk), st.len() > 0, s1.len() == st.len() - 1, st.len() > 1 ==> s1 == st.drop_last().update(st.len() - 2, s1.last()) && nxt(st[st.len() - 2], s1.last()),
    ensures stack_done(a, v, s1, f.push(st.last().state_id), bk)
{
    let q = st.last().state_id; let f1 = f.push(q); before_push(f, q);
    assert forall|i: int, k: int| 0 <= i < s1.len() && 0 <= k < s1[i].tr_iter.pos implies handled(a, f1, f1.len() as int, bk, #[trigger] v.trs[s1[i].state_id as int][k]) by {
        let x = v.trs[s1[i].state_id as int][k];
        assert(s1[i].state_id == st[i].state_id);
        if k < st[i].tr_iter.pos { assert(handled(a, f, f.len() as int, bk, v.trs[st[i].state_id as int][k])); assert(before(f, f.len() as int, x.nextstate) ==> before(f.push(q), f.len() as int + 1, x.nextstate)); } else { assert(i == st.len() - 2); let z = st[i + 1]; assert(x.nextstate == q); assert(before(f.push(q), f.len() as int + 1, q)); }
    }
}
pub proof fn l_pop_fin(n: nat, c: Seq<DfsStateColor>, f: Seq<StateId>, q: StateId)
    requires fin_ok(n, c, f), q < n, c[q as int] == DfsStateColor::Grey, n == c.len(), n <= u32::MAX,
    ensures fin_ok(n, c.update(q as int, DfsStateColor::Black), f.push(q))
{
    let c1 = c.update(q as int, DfsStateColor::Black); let f1 = f.push(q); before_push(f, q);
    assert forall|i: int| 0 <= i < f1.len() implies (#[trigger] f1[i]) < n && c1[f1[i] as int] == DfsStateColor::Black by { if i < f.len() { assert(f[i] < n); } }
    assert forall|i: int, j: int| 0 <= i < j < f1.len() implies #[trigger] f1[i] != #[trigger] f1[j] by { assert(c[f[i] as int] == DfsStateColor::Black); if j < f.len() { assert(f[i] != f[j]); } }
    assert forall|s: int| 0 <= s < n && #[trigger] c1[s] == DfsStateColor::Black implies before(f1, f1.len() as int, s as StateId) by { if s != q { assert(c[s] == DfsStateColor::Black); assert(before(f, f.len() as int, s as StateId)); } assert(before(f.push(q), f.len() as int + 1, s as StateId)); }
}
pub proof fn l_pop_st<W: Semiring, T: Trs<W>>(v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, s1: Seq<DfsState<W, T>>)
    requires stack_ok(v, c, st), st.len() > 0, c.len() == v.n(), s1.len() == st.len() - 1, st.len() > 1 ==> s1 == st.drop_last().update(st.len() - 2, s1.last()) && nxt(st[st.len() - 2], s1.last()),
    ensures stack_ok(v, c.update(st.last().state_id as int, DfsStateColor::Black), s1)
{
    let q = st.last().state_id; let c1 = c.update(q as int, DfsStateColor::Black);
    assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).state_id == st[i].state_id && s1[i].tr_iter.trs == st[i].tr_iter.trs by { }
    assert forall|s: int| 0 <= s < v.n() && #[trigger] c1[s] == DfsStateColor::Grey implies on_stack(s1, s) by { assert(c[s] == DfsStateColor::Grey); assert(on_stack(st, s)); let i = stack_at(st, s); assert(i < st.len() - 1); put_stack(s1, i); assert(s1[i].state_id == s); }
    assert forall|i: int| 0 <= i < s1.len() - 1 implies #[trigger] s1[i] == st[i] by { }
    assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).state_id != (#[trigger] s1[j]).state_id by { assert(st[i].state_id != st[j].state_id); }
    assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).state_id < v.n() && c1[s1[i].state_id as int] == DfsStateColor::Grey && s1[i].tr_iter.trs.tv() == v.trs[s1[i].state_id as int] && s1[i].tr_iter.pos <= v.trs[s1[i].state_id as int].len() by { let z = st[i + 1]; let y = st[i]; assert(y.state_id != st[st.len() - 1].state_id); }
}
//@fn algorithms/dfs_visit.rs :: dfs_visit nodecreases rlimit=60
    requires fst.inv(), fst.v().wf(), old(visitor).vok(false), old(visitor).fin().len() == 0, !old(visitor).stopped(), !old(visitor).bk(), access_only ==> V::partial(),
    ensures final(visitor).vok(true), final(visitor).bk() ==> cyclic(fst.v().trs), !final(visitor).stopped() && !access_only ==> visited(*tr_filter, fst.v(), final(visitor).fin(), final(visitor).bk()),
@sub `state_stack . last_mut ( )` => `state_stack . vlast_mut ( )` #all
@sub `let mut state_stack = vec ! [ ] ;` => `let mut state_stack : Vec < DfsState < W , F :: TRS > > = Vec :: new ( ) ;`
@start
let ghost v = fst.v(); proof { fst.inv_len(); }
@before_loop 0
let ghost n = v.n();
proof { assert(visitor.fin() =~= Seq::<StateId>::empty()); reveal(dfs_ok); }
@loop 0
    invariant_except_break !visitor.stopped() ==> (root < n ==> state_color@[root as int] == DfsStateColor::White) && (root != start ==> state_color@[start as int] != DfsStateColor::White && forall|j: int| 0 <= j < root && j < n ==> #[trigger] state_color@[j] != DfsStateColor::White),
    invariant fst.inv(), v == fst.v(), v.wf(), n == v.n(), n == nstates, n <= u32::MAX, start < n || n == 0, dfs <==> !visitor.stopped(), state_color@.len() == n, visitor.vok(false), visitor.bk() ==> cyclic(v.trs),
        !visitor.stopped() ==> state_stack@.len() == 0 && dfs_ok(*tr_filter, v, state_color@, state_stack@, *visitor),
    ensures !visitor.stopped() && !access_only ==> forall|j: int| 0 <= j < n ==> #[trigger] state_color@[j] != DfsStateColor::White,
@loop_start 0
let ghost c0 = state_color@; let ghost vis0 = *visitor; let ghost st0 = state_stack@;
@before_loop 1
proof { l_push(*tr_filter, v, c0, st0, vis0, root, state_stack@.last(), *visitor); assert(state_stack@ =~= st0.push(state_stack@.last())); }
@loop 1
    invariant_except_break dfs_ok(*tr_filter, v, state_color@, state_stack@, *visitor),
    invariant state_color@.len() == n, visitor.vok(false), visitor.bk() ==> cyclic(v.trs), forall|j: int| 0 <= j < n && c0[j] != DfsStateColor::White ==> #[trigger] state_color@[j] != DfsStateColor::White, c0.len() == n, fst.inv(), v == fst.v(), v.wf(), n == v.n(), n == nstates, n <= u32::MAX, start < n, root < n, dfs <==> !visitor.stopped(), state_stack_next is None, state_color@[root as int] != DfsStateColor::White,
    ensures dfs ==> state_stack@.len() == 0 && dfs_ok(*tr_filter, v, state_color@, state_stack@, *visitor),
@loop_start 1
let ghost c1 = state_color@; let ghost vis1 = *visitor; let ghost st1 = state_stack@;
proof { l_top(*tr_filter, v, c1, st1, vis1); }
@before `continue` #0
proof { if st1.len() > 1 { assert(state_stack@ =~= st1.drop_last().update(st1.len() - 2, state_stack@.last())); } l_pop(*tr_filter, v, c1, st1, vis1, state_stack@, *visitor); }
@before `continue` #1
proof { l_next(*tr_filter, v, c1, st1, vis1, state_stack@, *visitor); }
@loop_end 1
proof {
    if state_stack@.len() > st1.len() { l_push(*tr_filter, v, c1, st1, vis1, st1.last().tr_iter.trs.tv()[st1.last().tr_iter.pos as int].nextstate, state_stack@.last(), *visitor); assert(state_stack@ =~= st1.push(state_stack@.last())); }
    else { l_next(*tr_filter, v, c1, st1, vis1, state_stack@, *visitor); }
    l_top(*tr_filter, v, state_color@, state_stack@, *visitor);
}
@after_loop 1
proof { if dfs { l_top(*tr_filter, v, state_color@, state_stack@, *visitor); } }
@loop 2
    invariant root <= n, n == nstates, n <= u32::MAX, state_color@.len() == n, forall|j: int| 0 <= j < root && j < n ==> #[trigger] state_color@[j] != DfsStateColor::White,
@after_loop 0
proof { if !visitor.stopped() { l_top(*tr_filter, v, state_color@, state_stack@, *visitor); if !access_only { l_all(*tr_filter, v, state_color@, state_stack@, *visitor); } } }
//@end
pub proof fn l_all<W: Semiring, T: Trs<W>, A: TrFilter<W>, V: VisV>(a: A, v: FstV<W>, c: Seq<DfsStateColor>, st: Seq<DfsState<W, T>>, vis: V)
    requires dfs_ok(a, v, c, st, vis), st.len() == 0, !vis.stopped(), v.n() <= u32::MAX, forall|j: int| 0 <= j < v.n() ==> #[trigger] c[j] != DfsStateColor::White,
    ensures visited(a, v, vis.fin(), vis.bk())
{
    l_top(a, v, c, st, vis); reveal(dfs_ok);
    let f = vis.fin(); let n = v.n();
    let m = Seq::new(f.len(), |i: int| f[i] as int);
    assert(m.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] != m[j] by { assert(f[i] != f[j]); } }
    let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    m.unique_seq_to_set();
    assert forall|t: int| full.contains(t) implies m.to_set().contains(t) by { assert(c[t] == DfsStateColor::Black); assert(before(f, f.len() as int, t as StateId)); let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j] == t; assert(m[j] == t); }
    assert forall|t: int| m.to_set().contains(t) implies full.contains(t) by { let j = choose|j: int| 0 <= j < m.len() && m[j] == t; assert(f[j] < n); }
    assert(full =~= m.to_set());
}

// ---- topological order
//@type algorithms/top_sort.rs :: struct TopOrderVisitor
// the order is the reverse of the order of finishing
pub open spec fn rev_order(o: Seq<StateId>, f: Seq<StateId>, m: int) -> bool { o.len() == f.len() && forall|j: int| f.len() - m <= j < f.len() ==> o[#[trigger] f[j] as int] == f.len() - 1 - j }
impl VisV for TopOrderVisitor {
    open spec fn fin(&self) -> Seq<StateId> { self.finish@ }
    open spec fn bk(&self) -> bool { !self.acyclic }
    open spec fn stopped(&self) -> bool { !self.acyclic }
    open spec fn vok(&self, done: bool) -> bool { done && self.acyclic ==> rev_order(self.order@, self.finish@, self.finish@.len() as int) }
    open spec fn partial() -> bool { false }
}
impl TopOrderVisitor {
//@fn algorithms/top_sort.rs :: TopOrderVisitor :: new
    ensures r.order@.len() == 0, r.acyclic, r.finish@.len() == 0,
//@end
}
impl<'a, W: Semiring, F: 'a + CoreFst<W>> Visitor<'a, W, F> for TopOrderVisitor {
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: init_visit
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: init_state
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: tree_tr
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: back_tr
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: forward_or_cross_tr
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: finish_state
//@end
//@fn algorithms/top_sort.rs :: Visitor for TopOrderVisitor :: finish_visit
@loop 0
    invariant once(self.finish@), self.order@.len() == self.finish@.len(), self.finish@ == old(self).finish@, self.acyclic, old(self).acyclic, s <= self.finish@.len(), rev_order(self.order@, self.finish@, s as int),
//@end
}
// every transition leads from a state to one with a higher number: what topologically sorted means
pub proof fn l_topo<W: Semiring>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>, f: Seq<StateId>)
    requires v.wf(), renamed(v, u, o), once(f), f.len() == v.n(), rev_order(o, f, f.len() as int), ordered(AnyTrFilter { }, v, f, false), v_perm(o), u.wf() || true,
    ensures topsorted(u.trs)
{
    assert forall|s: int, k: int| 0 <= s < u.trs.len() && 0 <= k < u.trs[s].len() implies s < (#[trigger] u.trs[s][k]).nextstate by {
        onto(o); onto(f); assert(hit(o, s)); let q = choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == s;
        assert(hit(f, q)); let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == q;
        let x = v.trs[f[i] as int][k];
        assert(u.trs[o[q] as int] == mv_trs(o, v.trs[q]));
        assert(handled(AnyTrFilter { }, f, i, false, x)); assert(before(f, i, x.nextstate));
        let j = choose|j: int| 0 <= j < i && j < f.len() && #[trigger] f[j] == x.nextstate;
        assert(o[f[j] as int] == f.len() - 1 - j && o[f[i] as int] == f.len() - 1 - i);
    }
}
pub proof fn l_perm(o: Seq<StateId>, f: Seq<StateId>) requires once(f), rev_order(o, f, f.len() as int) ensures v_perm(o)
{
    onto(f);
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]) < o.len() by { assert(hit(f, i)); let q = choose|q: int| 0 <= q < f.len() && #[trigger] f[q] == i; assert(o[f[q] as int] == f.len() - 1 - q); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] != #[trigger] o[j] by { assert(hit(f, i) && hit(f, j)); let q = choose|q: int| 0 <= q < f.len() && #[trigger] f[q] == i; let q2 = choose|q: int| 0 <= q < f.len() && #[trigger] f[q] == j; assert(o[f[q] as int] == f.len() - 1 - q && o[f[q2] as int] == f.len() - 1 - q2); }
}
//@fn algorithms/top_sort.rs :: top_sort
    requires old(fst).inv(), old(fst).v().wf(),
    ensures final(fst).inv(), r is Ok,
        cyclic(old(fst).v().trs) ==> final(fst).v() == old(fst).v(),
        !cyclic(old(fst).v().trs) ==> topsorted(final(fst).v().trs) && exists|o: Seq<StateId>| v_perm(o) && o.len() == old(fst).v().n() && #[trigger] renamed(old(fst).v(), final(fst).v(), o),
        /*C02*/ sound(old(fst).p(), old(fst).v()) ==> sound(final(fst).p(), final(fst).v()),
@start
let ghost v = fst.v(); let ghost p0 = fst.p();
@tail
proof { broadcast use group_bits; reveal(sound); if cyclic(v.trs) && topsorted(v.trs) { topsorted_acyclic(v.trs); } }
@before `state_sort ( fst , & visitor . order ) ?`
proof { l_perm(visitor.order@, visitor.finish@); }
@after `state_sort ( fst , & visitor . order ) ?`
proof { l_topo(v, fst.v(), visitor.order@, visitor.finish@); topsorted_acyclic(fst.v().trs); l_ren(v, fst.v(), visitor.order@); }
//@end
}
