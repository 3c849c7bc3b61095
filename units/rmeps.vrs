//@use fst
//@use hmap
verus! {
// ---- C08: what replaces the epsilon transitions of a state
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum MEntry<'a, K, V> { Occupied(MOcc<'a, K, V>), Vacant(HVac<'a, K, V>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MOcc<'a, K, V> { pub k: K, pub map: &'a mut HMap<K, V>, pub val: V }
impl<'a, K, A, B> MOcc<'a, K, (A, B)> {
    pub fn get(&self) -> (r: &(A, B)) ensures *r == self.val { &self.val }
}
#[verifier::external_body]
pub fn m_entry<K, V>(m: &mut HMap<K, V>, k: K) -> (r: MEntry<'_, K, V>)
    ensures old(m).m().dom().contains(k) ==> (r is Occupied && r->Occupied_0.val == old(m).m()[k] && r->Occupied_0.k == k && *(r->Occupied_0.map) == *old(m) && *final(m) == *final(r->Occupied_0.map)),
        !old(m).m().dom().contains(k) ==> (r is Vacant && r->Vacant_0.k == k && *(r->Vacant_0.map) == *old(m) && *final(m) == *final(r->Vacant_0.map)),
{ unimplemented!() }
impl<'a, K, A, B> MOcc<'a, K, (A, B)> {
    #[verifier::external_body]
    pub fn set(self, v: (A, B)) ensures (*final(self.map)).m() == (*old(self.map)).m().insert(self.k, v) { unimplemented!() }
}
//@type algorithms/rm_epsilon/element.rs :: struct Element
pub open spec fn elt<W>(t: Tr<W>) -> Element { Element { ilabel: t.ilabel, olabel: t.olabel, nextstate: t.nextstate } }
pub open spec fn is_eps<W>(t: Tr<W>) -> bool { t.ilabel == EPS_LABEL && t.olabel == EPS_LABEL }
//@type algorithms/tr_filters.rs :: struct EpsilonTrFilter
impl EpsilonTrFilter {
//@fn algorithms/tr_filters.rs :: TrFilter for EpsilonTrFilter :: keep
    ensures r == is_eps(*tr),
@sub `& self , tr : & Tr < S >` => `& self , tr : & Tr < S >`
@sub `fn keep (` => `fn keep < S : Semiring > (`
//@end
}
// the distances by epsilon transitions from a state, as the shortest distance algorithm computes them (C11)
pub uninterp spec fn edist<W>(v: FstV<W>, source: StateId) -> Seq<W>;
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
#[verifier::accept_recursive_types(Q)]
pub struct SdState<W, Q> { w: std::marker::PhantomData<(W, Q)> }
impl<W: Semiring, Q> SdState<W, Q> {
    #[verifier::external_body]
    pub fn shortest_distance<F: ExpandedFst<W>>(&mut self, s: Option<StateId>, fst: &F) -> (r: Result<Vec<W>>) requires s is Some, fst.inv() ensures r is Ok ==> r->Ok_0@ == edist(fst.v(), s->0) { unimplemented!() }
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(Q)]
//@type algorithms/rm_epsilon/rm_epsilon_state.rs :: struct RmEpsilonState
//@tsub `< W : Semiring , Q : Queue >` => `< W , Q >`
//@tsub `HashMap < Element , ( StateId , usize ) >` => `HMap < Element , ( StateId , usize ) >`
//@tsub `ShortestDistanceState < W , Q , EpsilonTrFilter >` => `SdState < W , Q >`
pub open spec fn dist_of<W: Semiring>(d: Seq<W>, s: StateId) -> W { if s < d.len() { d[s as int] } else { W::szero() } }
// transitions with the same labels and target are one transition with the sum of the weights
pub open spec fn has_elt<W>(acc: Seq<Tr<W>>, t: Tr<W>) -> bool { exists|k: int| 0 <= k < acc.len() && elt(#[trigger] acc[k]) == elt(t) }
pub open spec fn pos_elt<W>(acc: Seq<Tr<W>>, t: Tr<W>) -> int { choose|k: int| 0 <= k < acc.len() && elt(#[trigger] acc[k]) == elt(t) }
pub open spec fn grp<W: Semiring>(acc: Seq<Tr<W>>, t: Tr<W>) -> Seq<Tr<W>> {
    if has_elt(acc, t) { acc.update(pos_elt(acc, t), Tr { weight: acc[pos_elt(acc, t)].weight.splus(t.weight), ..acc[pos_elt(acc, t)] }) } else { acc.push(t) }
}
pub open spec fn once_elt<W>(acc: Seq<Tr<W>>) -> bool { forall|i: int, j: int| 0 <= i < j < acc.len() ==> elt(#[trigger] acc[i]) != elt(#[trigger] acc[j]) }
// the first n transitions of ts that are not epsilon, behind weight d
pub open spec fn add_trs<W: Semiring>(acc: Seq<Tr<W>>, d: W, ts: Seq<Tr<W>>, n: int) -> Seq<Tr<W>> decreases n {
    if n <= 0 { acc } else { let a = add_trs(acc, d, ts, n - 1); let t = ts[n - 1]; if is_eps(t) { a } else { grp(a, Tr { weight: d.stimes(t.weight), ..t }) } }
}
// the states vis in order
pub open spec fn all_trs<W: Semiring>(v: FstV<W>, d: Seq<W>, vis: Seq<StateId>) -> Seq<Tr<W>> decreases vis.len() {
    if vis.len() == 0 { Seq::empty() } else { add_trs(all_trs(v, d, vis.drop_last()), dist_of(d, vis.last()), v.trs[vis.last() as int], v.trs[vis.last() as int].len() as int) }
}
pub open spec fn fin_or_zero<W: Semiring>(f: Option<W>) -> W { if f is Some { f->0 } else { W::szero() } }
pub open spec fn all_fin<W: Semiring>(v: FstV<W>, d: Seq<W>, vis: Seq<StateId>) -> W decreases vis.len() {
    if vis.len() == 0 { W::szero() } else { all_fin(v, d, vis.drop_last()).splus(dist_of(d, vis.last()).stimes(fin_or_zero(v.fin[vis.last() as int]))) }
}
// an epsilon transition from a visited state to q
pub open spec fn eps_to<W>(v: FstV<W>, vis: Seq<StateId>, q: StateId) -> bool { exists|j: int, k: int| 0 <= j < vis.len() && 0 <= k < v.trs[vis[j] as int].len() && is_eps(#[trigger] v.trs[#[trigger] vis[j] as int][k]) && v.trs[vis[j] as int][k].nextstate == q }
pub open spec fn reached<W>(v: FstV<W>, source: StateId, vis: Seq<StateId>) -> bool {
    &&& vis.no_duplicates()
    &&& forall|i: int| 0 <= i < vis.len() ==> (#[trigger] vis[i]) < v.n() && (if i == 0 { vis[i] == source } else { eps_to(v, vis.take(i), vis[i]) })
}
// exactly the states reached from source by epsilon transitions, each once
pub open spec fn closure<W>(v: FstV<W>, source: StateId, vis: Seq<StateId>) -> bool {
    &&& reached(v, source, vis) && vis.len() > 0
    &&& forall|q: StateId| #[trigger] eps_to(v, vis, q) ==> vis.contains(q)
}
// ---- lemmas
pub proof fn l_eps_in<W>(v: FstV<W>, vis: Seq<StateId>, q: StateId, source: StateId) requires eps_to(v, vis, q), reached(v, source, vis), v.wf(), v.trs.len() == v.n() ensures q < v.n()
{ let (j, k) = choose|j: int, k: int| 0 <= j < vis.len() && 0 <= k < v.trs[vis[j] as int].len() && is_eps(#[trigger] v.trs[#[trigger] vis[j] as int][k]) && v.trs[vis[j] as int][k].nextstate == q; assert(vis[j] < v.n()); assert(v.trs[vis[j] as int][k].nextstate < v.n()); }
pub proof fn l_drop_last(s: Seq<StateId>, q: StateId) requires s.len() > 0 ensures s.contains(q) ==> s.drop_last().contains(q) || q == s.last()
{ if s.contains(q) { let i = choose|i: int| 0 <= i < s.len() && s[i] == q; if i < s.len() - 1 { assert(s.drop_last()[i] == q); } } }
pub proof fn l_eps_push<W>(v: FstV<W>, vis: Seq<StateId>, s: StateId, q: StateId) requires eps_to(v, vis, q) ensures eps_to(v, vis.push(s), q)
{ let (j, k) = choose|j: int, k: int| 0 <= j < vis.len() && 0 <= k < v.trs[vis[j] as int].len() && is_eps(#[trigger] v.trs[#[trigger] vis[j] as int][k]) && v.trs[vis[j] as int][k].nextstate == q; assert(vis.push(s)[j] == vis[j]); assert(is_eps(v.trs[vis.push(s)[j] as int][k])); }
pub proof fn l_eps_last<W>(v: FstV<W>, vis: Seq<StateId>, k: int) requires vis.len() > 0, 0 <= k < v.trs[vis[vis.len() - 1] as int].len(), is_eps(v.trs[vis[vis.len() - 1] as int][k]) ensures eps_to(v, vis, v.trs[vis[vis.len() - 1] as int][k].nextstate)
{ let j = vis.len() - 1; assert(is_eps(v.trs[vis[j] as int][k])); }
pub proof fn l_eps_split<W>(v: FstV<W>, vis: Seq<StateId>, s: StateId, q: StateId) requires eps_to(v, vis.push(s), q) ensures eps_to(v, vis, q) || exists|k: int| 0 <= k < v.trs[s as int].len() && is_eps(#[trigger] v.trs[s as int][k]) && v.trs[s as int][k].nextstate == q
{ let u = vis.push(s); let (j, k) = choose|j: int, k: int| 0 <= j < u.len() && 0 <= k < v.trs[u[j] as int].len() && is_eps(#[trigger] v.trs[#[trigger] u[j] as int][k]) && v.trs[u[j] as int][k].nextstate == q; if j < vis.len() { assert(u[j] == vis[j]); assert(is_eps(v.trs[vis[j] as int][k])); } else { assert(is_eps(v.trs[s as int][k])); } }
pub proof fn l_reached<W>(v: FstV<W>, source: StateId, vis: Seq<StateId>, s: StateId) requires reached(v, source, vis), !vis.contains(s), s < v.n(), if vis.len() == 0 { s == source } else { eps_to(v, vis, s) } ensures reached(v, source, vis.push(s))
{
    let u = vis.push(s);
    assert(u.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by { if i < vis.len() { assert(vis.contains(vis[i])); } if j < vis.len() { assert(vis.contains(vis[j])); } } }
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) < v.n() && (if i == 0 { u[i] == source } else { eps_to(v, u.take(i), u[i]) }) by {
        if i < vis.len() { assert(u[i] == vis[i]); assert(u.take(i) =~= vis.take(i)); } else { assert(u.take(i) =~= vis); }
    }
}
pub proof fn l_push_has(vis: Seq<StateId>, s: StateId, q: StateId) ensures vis.push(s).contains(q) <==> vis.contains(q) || q == s
{ let u = vis.push(s); assert(u[u.len() - 1] == s); if u.contains(q) { let i = choose|i: int| 0 <= i < u.len() && u[i] == q; if i < vis.len() { assert(vis[i] == q); } } if vis.contains(q) { let i = choose|i: int| 0 <= i < vis.len() && vis[i] == q; assert(u[i] == q); } }
impl<W: Semiring, Q> RmEpsilonState<W, Q> {
    pub open spec fn idle(&self) -> bool {
        &&& self.visited_states@.len() == 0
        &&& forall|i: int| 0 <= i < self.visited@.len() ==> ! #[trigger] self.visited@[i]
        &&& forall|e: Element| #[trigger] self.element_map.m().dom().contains(e) ==> self.element_map.m()[e].0 < self.expand_id
    }
    pub open spec fn em(&self, ts: Seq<Tr<W>>) -> bool {
        &&& forall|e: Element| #[trigger] self.element_map.m().dom().contains(e) ==> self.element_map.m()[e].0 <= self.expand_id && (self.element_map.m()[e].0 == self.expand_id ==> self.element_map.m()[e].1 < ts.len() && elt(ts[self.element_map.m()[e].1 as int]) == e)
        &&& forall|k: int| 0 <= k < ts.len() ==> self.element_map.m().dom().contains(elt(#[trigger] ts[k])) && self.element_map.m()[elt(ts[k])] == (self.expand_id, k as usize)
        &&& ts.len() <= usize::MAX
    }
    pub open spec fn marks(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.visited@.len() && #[trigger] self.visited@[i] ==> i <= u32::MAX && self.visited_states@.contains(i as StateId)
        &&& forall|k: int| 0 <= k < self.visited_states@.len() ==> (#[trigger] self.visited_states@[k]) < self.visited@.len() && self.visited@[self.visited_states@[k] as int]
    }
//@fn algorithms/rm_epsilon/rm_epsilon_state.rs :: RmEpsilonState :: expand rlimit=80 nodecreases
    requires old(self).idle(), old(self).expand_id < u32::MAX, fst.inv(), fst.v().wf(), source < fst.v().n(),
    ensures r is Ok ==> final(self).idle() && exists|vis: Seq<StateId>| #[trigger] closure(fst.v(), source, vis) && r->Ok_0.0@ == all_trs(fst.v(), edist(fst.v(), source), vis) && r->Ok_0.1 == all_fin(fst.v(), edist(fst.v(), source), vis),
@sub `< F : ExpandedFst < W > , B : Borrow < F > >` => `< F : ExpandedFst < W > >`
@sub `fst : B` => `fst : & F`
@sub `fst . borrow ( )` => `fst` #all
@sub `. shortest_distance :: < F , _ > (` => `. shortest_distance :: < F > (`
@sub `. unwrap_or_else ( W :: zero )` => `. unwrap_or ( W :: zero ( ) )` #all
@sub `self . element_map . entry ( elt )` => `m_entry ( & mut self . element_map , elt )`
@sub `Entry :: Vacant` => `MEntry :: Vacant`
@sub `Entry :: Occupied ( mut e )` => `MEntry :: Occupied ( e )`
@sub `e . get_mut ( ) . 0 = self . expand_id ; e . get_mut ( ) . 1 = trs . len ( ) ;` => `e . set ( ( self . expand_id , trs . len ( ) ) ) ;`
@sub `dist . times ( fst . final_weight ( state ) ? . unwrap_or ( W :: zero ( ) ) ) ? ,` => `& dist . times ( & fst . final_weight ( state ) ? . unwrap_or ( W :: zero ( ) ) ) ?`
@start
let ghost v = fst.v(); proof { fst.inv_len(); }
@before_loop 0
let ghost d = distance@; let ghost mut qg = eps_queue@;
proof { assert(eps_queue@ =~= seq![source]); assert(self.visited_states@ =~= Seq::<StateId>::empty()); }
@loop 0
    invariant fst.inv(), v == fst.v(), v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, d == distance@, d == edist(v, source), source < v.n(), self.expand_id == old(self).expand_id, old(self).expand_id < u32::MAX, qg == eps_queue@,
        reached(v, source, self.visited_states@), self.marks(), self.em(trs@), once_elt(trs@), trs@ == all_trs(v, d, self.visited_states@), final_weight == all_fin(v, d, self.visited_states@),
        self.visited_states@.len() == 0 ==> eps_queue@ == seq![source], self.visited_states@.len() > 0 ==> forall|i: int| 0 <= i < eps_queue@.len() ==> eps_to(v, self.visited_states@, #[trigger] eps_queue@[i]),
        forall|q: StateId| #[trigger] eps_to(v, self.visited_states@, q) ==> self.visited_states@.contains(q) || eps_queue@.contains(q),
    ensures closure(v, source, self.visited_states@),
@loop_start 0
let ghost q0 = qg; let ghost vis0 = self.visited_states@; let ghost t0 = trs@;
proof {
    assert(q0.last() == state && eps_queue@ =~= q0.drop_last()); assert(q0[q0.len() - 1] == state);
    if vis0.len() == 0 { assert(q0 =~= seq![source]); assert(state == source); } else { assert(eps_to(v, vis0, state)); l_eps_in(v, vis0, state, source); }
}
@loop 1
    invariant self.marks(), self.visited_states@ == vis0, self.expand_id == old(self).expand_id, self.em(trs@), state < v.n(), v.n() <= u32::MAX,
@after_loop 1
proof { assert(self.visited@.len() > state); }
@before `continue ;`
proof {
    assert(vis0.contains(state)); qg = eps_queue@;
    assert forall|q: StateId| #[trigger] eps_to(v, vis0, q) implies vis0.contains(q) || eps_queue@.contains(q) by { l_drop_last(q0, q); }
    assert forall|i: int| 0 <= i < eps_queue@.len() implies eps_to(v, vis0, #[trigger] eps_queue@[i]) by { assert(q0[i] == eps_queue@[i]); }
}
@after `self . visited_states . push ( state ) ;`
let ghost vis1 = self.visited_states@;
proof {
    assert(!vis0.contains(state));
    assert(vis1 == vis0.push(state));
    l_reached(v, source, vis0, state);
    assert forall|i: int| 0 <= i < self.visited@.len() && #[trigger] self.visited@[i] implies i <= u32::MAX && vis1.contains(i as StateId) by { l_push_has(vis0, state, i as StateId); }
    assert(self.marks());
    assert forall|i: int| 0 <= i < eps_queue@.len() implies eps_to(v, vis1, #[trigger] eps_queue@[i]) by { assert(q0[i] == eps_queue@[i]); l_eps_push(v, vis0, state, q0[i]); }
    assert forall|q: StateId| #[trigger] eps_to(v, vis0, q) implies vis1.contains(q) || eps_queue@.contains(q) by { l_drop_last(q0, q); if q == state { assert(vis1[vis1.len() - 1] == q); } else if vis0.contains(q) { let k = choose|k: int| 0 <= k < vis0.len() && vis0[k] == q; assert(vis1[k] == q); } }
}
@loop 2 it=kt
    invariant fst.inv(), v == fst.v(), v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, d == distance@, d == edist(v, source), source < v.n(), self.expand_id == old(self).expand_id, old(self).expand_id < u32::MAX, state < v.n(), vis1 == vis0.push(state), self.visited_states@ == vis1, vis1[vis1.len() - 1] == state, reached(v, source, vis1), self.marks(), dist == dist_of(d, state),
        kt.seq().len() == v.trs[state as int].len(), forall|k: int| 0 <= k < kt.seq().len() ==> *(#[trigger] kt.seq()[k]) == v.trs[state as int][k],
        self.em(trs@), once_elt(trs@), trs@ == add_trs(t0, dist, v.trs[state as int], kt.index@ as int),
        forall|i: int| 0 <= i < eps_queue@.len() ==> eps_to(v, vis1, #[trigger] eps_queue@[i]),
        forall|q: StateId| #[trigger] eps_to(v, vis0, q) ==> vis1.contains(q) || eps_queue@.contains(q),
        forall|k: int| 0 <= k < kt.index@ && is_eps(#[trigger] v.trs[state as int][k]) ==> vis1.contains(v.trs[state as int][k].nextstate) || eps_queue@.contains(v.trs[state as int][k].nextstate),
@loop_start 2
let ghost k0 = kt.index@; let ghost x = v.trs[state as int][k0 as int]; let ghost tb = trs@; let ghost qb = eps_queue@; let ghost mb = self.element_map.m();
proof { assert(x == v.trs[state as int][k0]); assert(*tr == x); assert(x.nextstate < v.n()); assert(add_trs(t0, dist, v.trs[state as int], k0 + 1) == (if is_eps(x) { tb } else { grp(tb, Tr { weight: dist.stimes(x.weight), ..x }) })); }
@loop 3
    invariant self.marks(), self.visited_states@ == vis1, self.expand_id == old(self).expand_id, self.em(trs@), tr.nextstate < v.n(), v.n() <= u32::MAX,
@loop_end 2
proof {
    assert(self.visited_states@ == vis1); vlen(trs);
    if is_eps(x) {
        l_eps_last(v, vis1, k0);
        assert(vis1.contains(x.nextstate) || eps_queue@.contains(x.nextstate)) by { if eps_queue@.len() > qb.len() { assert(eps_queue@[eps_queue@.len() - 1] == x.nextstate); } }
        assert forall|q: StateId| qb.contains(q) implies eps_queue@.contains(q) by { let i = choose|i: int| 0 <= i < qb.len() && qb[i] == q; assert(eps_queue@[i] == q); }
    } else {
        let t = Tr { weight: dist.stimes(x.weight), ..x };
        assert(tr == t);
        let m = self.element_map.m(); let e = elt(t); let id = self.expand_id;
        if mb.dom().contains(e) && mb[e].0 == id { assert(m == mb); assert(elt(tb[mb[e].1 as int]) == e); assert(has_elt(tb, t)); assert(trs@.len() == tb.len()); assert forall|k: int| 0 <= k < tb.len() implies elt(#[trigger] trs@[k]) == elt(tb[k]) by { } assert(self.em(trs@)); }
        else { assert(!has_elt(tb, t)); assert(m == mb.insert(e, (id, tb.len() as usize))); assert(trs@ == tb.push(t)); 
            assert forall|k: int| 0 <= k < trs@.len() implies m.dom().contains(elt(#[trigger] trs@[k])) && m[elt(trs@[k])] == (id, k as usize) by { if k < tb.len() { assert(trs@[k] == tb[k]); } }
            assert forall|f: Element| #[trigger] m.dom().contains(f) implies m[f].0 <= id && (m[f].0 == id ==> m[f].1 < trs@.len() && elt(trs@[m[f].1 as int]) == f) by { if f != e { assert(mb.dom().contains(f)); } }
        }
    }
}
@after_loop 2
proof { assert(add_trs(t0, dist, v.trs[state as int], v.trs[state as int].len() as int) == all_trs(v, d, vis1)) by { assert(vis1.drop_last() =~= vis0); } }
@loop_end 0
proof {
    qg = eps_queue@; assert(vis1.drop_last() =~= vis0);
    assert forall|q: StateId| #[trigger] eps_to(v, vis1, q) implies vis1.contains(q) || eps_queue@.contains(q) by { l_eps_split(v, vis0, state, q); }
}
@before_loop 4
let ghost vis = self.visited_states@; let ghost mut rest = vis;
@loop 4
    invariant rest == self.visited_states@, self.marks(), self.visited_states@.no_duplicates(), self.expand_id == old(self).expand_id, old(self).expand_id < u32::MAX, self.em(trs@),
    ensures self.visited_states@.len() == 0,
@loop_start 4
proof { assert(rest.last() == s && self.visited_states@ =~= rest.drop_last()); assert(rest[rest.len() - 1] == s); }
@loop_end 4
proof { assert forall|i: int| 0 <= i < self.visited@.len() && #[trigger] self.visited@[i] implies i <= u32::MAX && self.visited_states@.contains(i as StateId) by { l_drop_last(rest, i as StateId); } assert forall|k: int| 0 <= k < self.visited_states@.len() implies (#[trigger] self.visited_states@[k]) < self.visited@.len() && self.visited@[self.visited_states@[k] as int] by { assert(rest[k] == self.visited_states@[k]); assert(rest[k] != rest[rest.len() - 1]); } rest = self.visited_states@; }
@tail
proof { assert(closure(v, source, vis)); assert(self.idle()) by { assert forall|i: int| 0 <= i < self.visited@.len() implies ! #[trigger] self.visited@[i] by { } } }
//@end
}

// ---- the superfinal state
pub trait IsFinal<W: Semiring>: CoreFst<W> {
//@fn fst_traits/fst.rs :: trait CoreFst :: is_final_unchecked nopub
    requires self.inv(), state < self.v().n(),
    ensures r == nz_fin(self.v().fin[state as int]),
@sub `. map ( | final_weight | final_weight != W :: zero ( ) ) . unwrap_or ( false )` => `. vnonzero ( )`
//@end
}
impl<W: Semiring, F: MutableFst<W>> IsFinal<W> for F {}
pub open spec fn nz_fin<W: Semiring>(f: Option<W>) -> bool { f is Some && f->0 != W::szero() }
pub trait VNonZero<W: Semiring>: Sized { spec fn vnz(self) -> bool; fn vnonzero(self) -> (r: bool) ensures r == self.vnz(); }
impl<W: Semiring> VNonZero<W> for Option<W> { open spec fn vnz(self) -> bool { nz_fin(self) } fn vnonzero(self) -> (r: bool) { if let Some(w) = &self { let z = W::is_zero(w); proof { assert(self is Some); assert(z == (*w == W::szero())); assert(self->0 == *w); assert(nz_fin(self) == !z); assert(self.vnz() == nz_fin(self)); } !z } else { false } } }
// the states with a final weight, in order
pub open spec fn finals_of<W>(v: FstV<W>, l: Seq<StateId>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) < v.n() && v.fin[l[i] as int] is Some
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]) < (#[trigger] l[j])
    &&& forall|s: int| 0 <= s < v.n() && (#[trigger] v.fin[s]) is Some ==> l.contains(s as StateId)
}
#[verifier::external_body]
pub fn final_states_vec<W: Semiring, F: MutableFst<W>>(f: &F) -> (r: Vec<StateId>) requires f.inv() ensures finals_of(f.v(), r@) { unimplemented!() }
#[verifier::external_body]
pub fn opt_is_one<W: Semiring>(w: Option<W>) -> (r: bool) ensures r == (w == Some(W::sone())) { unimplemented!() }
pub open spec fn eps_tr<W>(w: W, n: StateId) -> Tr<W> { Tr { ilabel: EPS_LABEL, olabel: EPS_LABEL, weight: w, nextstate: n } }
pub open spec fn with_superfinal<W: Semiring>(v: FstV<W>, u: FstV<W>, f: StateId) -> bool {
    &&& f == v.n() && u.n() == v.n() + 1 && u.trs.len() == u.n() && u.start == v.start
    &&& u.fin[f as int] == Some(W::sone()) && u.trs[f as int].len() == 0
    &&& forall|s: int| 0 <= s < v.n() ==> (#[trigger] u.fin[s]) == None::<W>
    &&& forall|s: int| 0 <= s < v.n() ==> (#[trigger] u.trs[s]) == (if v.fin[s] is Some { v.trs[s].push(eps_tr(v.fin[s]->0, f)) } else { v.trs[s] })
}
//@fn algorithms/add_super_final_state.rs :: add_super_final_state rlimit=60
    requires old(ifst).inv(), old(ifst).v().n() < u32::MAX - 1, forall|s: int| 0 <= s < old(ifst).v().n() ==> (#[trigger] old(ifst).v().trs[s]).len() < usize::MAX,
    ensures final(ifst).inv(), final(ifst).v() == old(ifst).v() && r < old(ifst).v().n() && old(ifst).v().fin[r as int] == Some(W::sone()) && (forall|s: int| 0 <= s < old(ifst).v().n() && s != r ==> (#[trigger] old(ifst).v().fin[s]) == None::<W>) || with_superfinal(old(ifst).v(), final(ifst).v(), r),
@sub `ifst . final_states_iter ( ) . collect :: < Vec < _ >> ( )` => `final_states_vec ( ifst )`
@sub `{ ifst . final_weight_unchecked ( final_states [ 0 ] ) } == Some ( W :: one ( ) )` => `opt_is_one ( ifst . final_weight_unchecked ( final_states [ 0 ] ) )`
@start
let ghost v = ifst.v(); proof { ifst.inv_len(); }
@before `return final_states`
proof { assert forall|s: int| 0 <= s < v.n() && s != final_states@[0] implies (#[trigger] v.fin[s]) == None::<W> by { if v.fin[s] is Some { assert(final_states@.contains(s as StateId)); let i = choose|i: int| 0 <= i < final_states@.len() && final_states@[i] == s as StateId; assert(i == 0); } } }
@before_loop 0
let ghost fl = final_states@; let ghost sf = super_final_state as int;
proof { assert(sf == v.n()); ifst.inv_len(); let u = ifst.v(); assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.trs[s]) == v.trs[s] by { } }
@loop 0 it=kt
    invariant kt.seq() == fl, finals_of(v, fl), ifst.inv(), super_final_state == v.n(), v.n() < u32::MAX - 1, v.n() == v.trs.len(), forall|s: int| 0 <= s < v.n() ==> (#[trigger] v.trs[s]).len() < usize::MAX,
        ifst.v().n() == v.n() + 1, ifst.v().trs.len() == v.n() + 1, ifst.v().start == v.start, ifst.v().fin[v.n() as int] == Some(W::sone()), ifst.v().trs[v.n() as int].len() == 0,
        forall|s: int| 0 <= s < v.n() ==> (#[trigger] ifst.v().fin[s]) == (if fl.take(kt.index@).contains(s as StateId) { None } else { v.fin[s] }),
        forall|s: int| 0 <= s < v.n() ==> (#[trigger] ifst.v().trs[s]) == (if fl.take(kt.index@).contains(s as StateId) { v.trs[s].push(eps_tr(v.fin[s]->0, super_final_state)) } else { v.trs[s] }),
@loop_start 0
let ghost k = kt.index@; let ghost u1 = ifst.v();
proof { assert(final_state == fl[k]); assert(fl.take(k + 1) =~= fl.take(k).push(final_state)); assert(!fl.take(k).contains(final_state)) by { if fl.take(k).contains(final_state) { let i = choose|i: int| 0 <= i < k && fl.take(k)[i] == final_state; assert(fl[i] < fl[k]); } } assert(u1.fin[final_state as int] == v.fin[final_state as int]); assert(u1.trs[final_state as int] == v.trs[final_state as int]); }
@loop_end 0
proof { let u = ifst.v();     assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.fin[s]) == (if fl.take(k + 1).contains(s as StateId) { None } else { v.fin[s] }) by { l_push_has(fl.take(k), final_state, s as StateId); assert(s != final_state ==> u.fin[s] == u1.fin[s]); }
    assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.trs[s]) == (if fl.take(k + 1).contains(s as StateId) { v.trs[s].push(eps_tr(v.fin[s]->0, super_final_state)) } else { v.trs[s] }) by { l_push_has(fl.take(k), final_state, s as StateId); assert(s != final_state ==> u.trs[s] == u1.trs[s]); } }
@after_loop 0
proof { let u = ifst.v(); assert(fl.take(fl.len() as int) =~= fl);
    assert forall|s: int| 0 <= s < v.n() implies ((#[trigger] v.fin[s]) is Some <==> fl.contains(s as StateId)) by { if fl.contains(s as StateId) { let i = choose|i: int| 0 <= i < fl.len() && fl[i] == s as StateId; assert(v.fin[fl[i] as int] is Some); } }
    assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.fin[s]) == None::<W> by { assert(v.fin[s] is Some <==> fl.contains(s as StateId)); }
    assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.trs[s]) == (if v.fin[s] is Some { v.trs[s].push(eps_tr(v.fin[s]->0, super_final_state)) } else { v.trs[s] }) by { assert(v.fin[s] is Some <==> fl.contains(s as StateId)); }
    assert(with_superfinal(v, u, super_final_state)); }
//@end

// ---- removing final epsilons
// the states from which a final state can be reached, as the depth first visit with SccVisitor reports them (assumed; C06 bounded)
pub open spec fn sco<W: Semiring>(v: FstV<W>) -> Seq<bool> { Seq::new(v.n() as nat, |s: int| coacc(v.trs, v.fin, s)) }
#[verifier::external_body]
pub fn visit_coaccess<W: Semiring, F: MutableFst<W>>(f: &F) -> (r: Vec<bool>) requires f.inv() ensures r@ == sco(f.v()) { unimplemented!() }
pub proof fn l_fin_co<W: Semiring>(v: FstV<W>) requires v.trs.len() == v.n() ensures forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] sco(v)[s]
{ assert forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) implies #[trigger] sco(v)[s] by { let p = seq![s]; assert(walk(v.trs, p)); assert(p[0] == s && p.last() == s); assert(reach(v.trs, s, s)); assert(v.fin[s] is Some); } }
// connect (C06)
pub uninterp spec fn trimmed<W>(v: FstV<W>, u: FstV<W>) -> bool;
#[verifier::external_body]
pub fn connect_fst<W: Semiring, F: MutableFst<W>>(f: &mut F) -> (r: Result<()>) requires old(f).inv() ensures final(f).inv(), r is Ok ==> trimmed(old(f).v(), final(f).v()) { unimplemented!() }
pub open spec fn kept_idx<W>(ts: Seq<Tr<W>>, d: Seq<usize>, n: int) -> Seq<Tr<W>> decreases n { if n <= 0 { Seq::empty() } else if d.contains((n - 1) as usize) { kept_idx(ts, d, n - 1) } else { kept_idx(ts, d, n - 1).push(ts[n - 1]) } }
// del_trs_id_sorted_unchecked of MutableFst (C01, bounded): deletes the transitions at the given indices
#[verifier::external_body]
pub fn del_trs_ids<W: Semiring, F: MutableFst<W>>(f: &mut F, state: StateId, d: &Vec<usize>) requires old(f).inv(), state < old(f).v().n(), forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]) < old(f).v().trs[state as int].len(), forall|i: int, j: int| 0 <= i < j < d@.len() ==> (#[trigger] d@[i]) < (#[trigger] d@[j])
    ensures final(f).inv(), final(f).v() == v_set_trs(old(f).v(), state, kept_idx(old(f).v().trs[state as int], d@, old(f).v().trs[state as int].len() as int)) { unimplemented!() }
pub trait GetOrInsert<W>: Sized { spec fn gov(&self) -> Option<W>; fn get_or_put(&mut self, w: W) -> (r: &mut W) ensures *r == (if old(self).gov() is Some { old(self).gov()->0 } else { w }), final(self).gov() == Some(*final(r)); }
impl<W> GetOrInsert<W> for Option<W> { open spec fn gov(&self) -> Option<W> { *self } #[verifier::external_body] fn get_or_put(&mut self, w: W) -> (r: &mut W) { unimplemented!() } }
// the final states all of whose successors lead nowhere
pub open spec fn dead_end<W: Semiring>(v: FstV<W>, s: int) -> bool { 0 <= s < v.n() && nz_fin(v.fin[s]) && forall|k: int| 0 <= k < v.trs[s].len() ==> !sco(v)[(#[trigger] v.trs[s][k]).nextstate as int] }
pub open spec fn folds<W: Semiring>(v: FstV<W>, t: Tr<W>) -> bool { is_eps(t) && dead_end(v, t.nextstate as int) }
pub open spec fn some_fold<W: Semiring>(v: FstV<W>, ts: Seq<Tr<W>>, n: int) -> bool { exists|k: int| 0 <= k < n && folds(v, #[trigger] ts[k]) }
// the final weight a state gets: its own plus that of every folded transition
pub open spec fn fold_fin<W: Semiring>(v: FstV<W>, f: W, ts: Seq<Tr<W>>, n: int) -> W decreases n { if n <= 0 { f } else if folds(v, ts[n - 1]) { fold_fin(v, f, ts, n - 1).splus(ts[n - 1].weight.stimes(v.fin[ts[n - 1].nextstate as int]->0)) } else { fold_fin(v, f, ts, n - 1) } }
pub open spec fn fold_trs<W: Semiring>(v: FstV<W>, ts: Seq<Tr<W>>, n: int) -> Seq<Tr<W>> decreases n { if n <= 0 { Seq::empty() } else if folds(v, ts[n - 1]) { fold_trs(v, ts, n - 1) } else { fold_trs(v, ts, n - 1).push(ts[n - 1]) } }
pub open spec fn new_fin<W: Semiring>(v: FstV<W>, s: int) -> Option<W> { let n = v.trs[s].len() as int; let w = fold_fin(v, fin_or_zero(v.fin[s]), v.trs[s], n); if some_fold(v, v.trs[s], n) && w != W::szero() { Some(w) } else { v.fin[s] } }
pub open spec fn folded<W: Semiring>(v: FstV<W>, u: FstV<W>, m: int) -> bool {
    &&& u.start == v.start && u.n() == v.n() && u.trs.len() == v.n()
    &&& forall|s: int| 0 <= s < v.n() ==> (#[trigger] u.fin[s]) == (if s < m { new_fin(v, s) } else { v.fin[s] })
    &&& forall|s: int| 0 <= s < v.n() ==> (#[trigger] u.trs[s]) == (if s < m { fold_trs(v, v.trs[s], v.trs[s].len() as int) } else { v.trs[s] })
}
pub proof fn l_no_fold<W: Semiring>(v: FstV<W>, f: W, ts: Seq<Tr<W>>, n: int) requires 0 <= n <= ts.len(), !some_fold(v, ts, n) ensures fold_trs(v, ts, n) =~= ts.take(n), fold_fin(v, f, ts, n) == f decreases n
{ if n > 0 { if some_fold(v, ts, n - 1) { let k = choose|k: int| 0 <= k < n - 1 && folds(v, #[trigger] ts[k]); assert(folds(v, ts[k])); } l_no_fold(v, f, ts, n - 1); assert(!folds(v, ts[n - 1])); assert(ts.take(n) =~= ts.take(n - 1).push(ts[n - 1])); } }
pub proof fn l_kept<W: Semiring>(v: FstV<W>, ts: Seq<Tr<W>>, d: Seq<usize>, n: int) requires 0 <= n <= ts.len(), ts.len() <= usize::MAX, forall|k: int| 0 <= k < ts.len() ==> (folds(v, #[trigger] ts[k]) <==> d.contains(k as usize)) ensures kept_idx(ts, d, n) == fold_trs(v, ts, n) decreases n
{ if n > 0 { l_kept(v, ts, d, n - 1); assert(folds(v, ts[n - 1]) <==> d.contains((n - 1) as usize)); } }
// a dead end folds nothing into itself: its final weight is still the old one
pub proof fn l_still<W: Semiring>(v: FstV<W>, u: FstV<W>, m: int, s: int) requires folded(v, u, m), dead_end(v, s), v.wf(), v.trs.len() == v.n(), sco(v).len() == v.n(), forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] sco(v)[s] ensures u.fin[s] == v.fin[s]
{ let n = v.trs[s].len() as int; if some_fold(v, v.trs[s], n) { let k = choose|k: int| 0 <= k < n && folds(v, #[trigger] v.trs[s][k]); let t = v.trs[s][k]; assert(nz_fin(v.fin[t.nextstate as int])); assert(sco(v)[t.nextstate as int]); assert(false); } assert(new_fin(v, s) == v.fin[s]); }
//@fn algorithms/rm_final_epsilon.rs :: rm_final_epsilon rlimit=80
    requires old(ifst).inv(), old(ifst).v().wf(), forall|s: int| 0 <= s < old(ifst).v().n() ==> (#[trigger] old(ifst).v().trs[s]).len() < usize::MAX,
    ensures r is Ok ==> final(ifst).inv() && exists|u: FstV<W>| #[trigger] folded(old(ifst).v(), u, u.n() as int) && trimmed(u, final(ifst).v()),
@sub `let mut visitors = SccVisitor :: new ( ifst , false , true ) ; dfs_visit ( ifst , & mut visitors , & AnyTrFilter { } , false ) ;` => `let coaccess = visit_coaccess ( ifst ) ;`
@sub `visitors . coaccess` => `coaccess`
@sub `HashSet :: new ( )` => `HSet :: < StateId > :: new ( )`
@sub `weight . get_or_insert_with ( || { ifst . final_weight_unchecked ( state ) . unwrap_or_else ( W :: zero ) } )` => `weight . get_or_put ( ifst . final_weight_unchecked ( state ) . unwrap_or ( W :: zero ( ) ) )`
@sub `tr . weight . times ( ifst . final_weight_unchecked ( tr . nextstate ) . unwrap ( ) ) ? ,` => `& tr . weight . times ( & ifst . final_weight_unchecked ( tr . nextstate ) . unwrap ( ) ) ?`
@sub `ifst . del_trs_id_sorted_unchecked ( state , & trs_to_del )` => `del_trs_ids ( ifst , state , & trs_to_del )`
@sub `let mut trs_to_del = vec ! [ ]` => `let mut trs_to_del : Vec < usize > = vec ! [ ]`
@sub `let mut weight = None` => `let mut weight : Option < W > = None`
@sub `connect ( ifst ) ?` => `connect_fst ( ifst ) ?`
@start
let ghost v = ifst.v(); proof { ifst.inv_len(); l_fin_co(v); }
@loop 0 it=kt
    invariant v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, ifst.inv(), coaccess@ == sco(v), coaccess@.len() == v.n(), (forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] coaccess@[s]), (forall|s: int| 0 <= s < v.n() ==> (#[trigger] v.trs[s]).len() < usize::MAX), ifst.v() == v, kt.snapshot@.end == v.n(), forall|q: StateId| #[trigger] finals.s().contains(q) <==> q < s && dead_end(v, q as int),
@loop_start 0
proof { assert(v.trs[s as int].len() < usize::MAX); }
@loop 1 it=jt
    invariant_except_break !future_coaccess, forall|k: int| 0 <= k < jt.index@ ==> !sco(v)[(#[trigger] v.trs[s as int][k]).nextstate as int],
    invariant v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, ifst.inv(), coaccess@ == sco(v), coaccess@.len() == v.n(), (forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] coaccess@[s]), (forall|s: int| 0 <= s < v.n() ==> (#[trigger] v.trs[s]).len() < usize::MAX), ifst.v() == v, s < v.n(), jt.seq().len() == v.trs[s as int].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == v.trs[s as int][k],
    ensures future_coaccess <==> exists|k: int| 0 <= k < v.trs[s as int].len() && sco(v)[(#[trigger] v.trs[s as int][k]).nextstate as int],
@loop_start 1
proof { assert(*tr == v.trs[s as int][jt.index@ as int]); assert(v.trs[s as int][jt.index@ as int].nextstate < v.n()); }
@loop 2 it=kt
    invariant v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, ifst.inv(), coaccess@ == sco(v), coaccess@.len() == v.n(), (forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] coaccess@[s]), (forall|s: int| 0 <= s < v.n() ==> (#[trigger] v.trs[s]).len() < usize::MAX), kt.snapshot@.end == v.n(), forall|q: StateId| #[trigger] finals.s().contains(q) <==> q < v.n() && dead_end(v, q as int), folded(v, ifst.v(), state as int),
@loop_start 2
let ghost ts = v.trs[state as int]; let ghost u1 = ifst.v();
proof { assert(u1.trs[state as int] == ts && u1.fin[state as int] == v.fin[state as int]); assert(ts.len() < usize::MAX); }
@loop 3 it=jt
    invariant v.wf(), v.trs.len() == v.n(), v.n() <= u32::MAX, ifst.inv(), coaccess@ == sco(v), coaccess@.len() == v.n(), (forall|s: int| 0 <= s < v.n() && nz_fin(v.fin[s]) ==> #[trigger] coaccess@[s]), (forall|s: int| 0 <= s < v.n() ==> (#[trigger] v.trs[s]).len() < usize::MAX), ts == v.trs[state as int], state < v.n(), ifst.v() == u1, folded(v, u1, state as int), jt.snapshot@.end == ts.len(), g_trs.tv() == ts, forall|q: StateId| #[trigger] finals.s().contains(q) <==> q < v.n() && dead_end(v, q as int),
        weight is Some <==> some_fold(v, ts, idx as int), weight is Some ==> weight->0 == fold_fin(v, fin_or_zero(v.fin[state as int]), ts, idx as int), weight is Some <==> trs_to_del@.len() > 0,
        forall|i: int| 0 <= i < trs_to_del@.len() ==> (#[trigger] trs_to_del@[i]) < idx && folds(v, ts[trs_to_del@[i] as int]),
        forall|i: int, j: int| 0 <= i < j < trs_to_del@.len() ==> (#[trigger] trs_to_del@[i]) < (#[trigger] trs_to_del@[j]),
        forall|k: int| 0 <= k < idx && folds(v, #[trigger] ts[k]) ==> trs_to_del@.contains(k as usize),
@loop_start 3
let ghost w0 = weight; let ghost d0 = trs_to_del@; let ghost x = ts[idx as int];
proof { assert(x.nextstate < v.n()); if w0 is None { l_no_fold(v, fin_or_zero(v.fin[state as int]), ts, idx as int); } if dead_end(v, x.nextstate as int) { l_still(v, u1, state as int, x.nextstate as int); } assert(u1.fin[state as int] == v.fin[state as int]); }
@loop_end 3
proof {
    assert(folds(v, x) <==> (finals.s().contains(x.nextstate) && is_eps(x)));
    if folds(v, x) { assert(trs_to_del@ == d0.push(idx)); assert(some_fold(v, ts, idx + 1)); assert(trs_to_del@[d0.len() as int] == idx); } else { assert(trs_to_del@ == d0); if some_fold(v, ts, idx + 1) { let k = choose|k: int| 0 <= k < idx + 1 && folds(v, #[trigger] ts[k]); assert(k < idx); assert(some_fold(v, ts, idx as int)); } }
    if some_fold(v, ts, idx as int) { let k = choose|k: int| 0 <= k < idx && folds(v, #[trigger] ts[k]); assert(folds(v, ts[k])); assert(some_fold(v, ts, idx + 1)); }
    assert forall|k: int| 0 <= k < idx + 1 && folds(v, #[trigger] ts[k]) implies trs_to_del@.contains(k as usize) by { if k < idx { let i = choose|i: int| 0 <= i < d0.len() && d0[i] == k as usize; assert(trs_to_del@[i] == k as usize); } }
}
@after_loop 3
proof {
    let d = trs_to_del@;
    assert forall|k: int| 0 <= k < ts.len() implies (folds(v, #[trigger] ts[k]) <==> d.contains(k as usize)) by { if d.contains(k as usize) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k as usize; assert(folds(v, ts[d[i] as int])); } }
    l_kept(v, ts, d, ts.len() as int);
    if weight is None { l_no_fold(v, fin_or_zero(v.fin[state as int]), ts, ts.len() as int); assert(ts.take(ts.len() as int) =~= ts); }
}
@loop_end 2
proof {
    let u = ifst.v(); let s0 = state as int;
    assert(u.trs[s0] == fold_trs(v, ts, ts.len() as int)); assert(u.fin[s0] == new_fin(v, s0));
    assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.fin[s]) == (if s < s0 + 1 { new_fin(v, s) } else { v.fin[s] }) by { if s != s0 { assert(u.fin[s] == u1.fin[s]); } }
    assert forall|s: int| 0 <= s < v.n() implies (#[trigger] u.trs[s]) == (if s < s0 + 1 { fold_trs(v, v.trs[s], v.trs[s].len() as int) } else { v.trs[s] }) by { if s != s0 { assert(u.trs[s] == u1.trs[s]); } }
}
@after_loop 2
proof { assert(folded(v, ifst.v(), ifst.v().n() as int)); }
//@end
}
