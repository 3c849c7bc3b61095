//@use fst
verus! {
// ---- C06: renumbering of states
pub open spec fn v_perm(o: Seq<StateId>) -> bool { (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) < o.len()) && forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] != #[trigger] o[j] }
pub open spec fn mv_tr<W>(o: Seq<StateId>, t: Tr<W>) -> Tr<W> { Tr { nextstate: o[t.nextstate as int], ..t } }
pub open spec fn mv_trs<W>(o: Seq<StateId>, t: Seq<Tr<W>>) -> Seq<Tr<W>> { t.map_values(|x: Tr<W>| mv_tr(o, x)) }
// u is v with state s renamed o[s]: same labels, weights, final weights and order of transitions
pub open spec fn renamed<W>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>) -> bool {
    &&& u.n() == v.n() &&& u.trs.len() == v.trs.len()
    &&& u.start == (if v.start is Some { Some(o[v.start->0 as int]) } else { None })
    &&& forall|s: int| 0 <= s < v.n() ==> u.fin[(#[trigger] o[s]) as int] == v.fin[s] && u.trs[o[s] as int] == mv_trs(o, v.trs[s])
}
pub open spec fn part<W>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>, done: Seq<bool>) -> bool {
    &&& u.n() == v.n() &&& u.trs.len() == v.trs.len() &&& done.len() == v.n()
    &&& forall|s: int| 0 <= s < v.n() ==> u.fin[(#[trigger] o[s]) as int] == (if done[s] { v.fin[s] } else { v.fin[o[s] as int] }) && u.trs[o[s] as int] == (if done[s] { mv_trs(o, v.trs[s]) } else { v.trs[o[s] as int] })
}
//@fn algorithms/state_sort.rs :: state_sort nodecreases rlimit=100
    requires old(fst).inv(), old(fst).v().wf(), order@.len() == old(fst).v().n() ==> v_perm(order@),
    ensures final(fst).inv(), r is Ok <==> order@.len() == old(fst).v().n(), r is Ok ==> renamed(old(fst).v(), final(fst).v(), order@), r is Err ==> final(fst).v() == old(fst).v(),
        /*C02*/ sound(old(fst).p(), old(fst).v()) ==> sound(final(fst).p(), final(fst).v()),
@start
let ghost v = fst.v(); let ghost p0 = fst.p(); let ghost o = order@; proof { fst.inv_len(); }
@before_loop 0
proof { assert(part(v, fst.v(), o, done@)); }
@loop 0
    invariant v.wf(), v_perm(o), o == order@, o.len() == v.n(), v.n() <= u32::MAX, end_s1 == v.n(), nx_s1 <= end_s1, fst.inv(), fst.v().start == (if v.start is Some { Some(o[v.start->0 as int]) } else { None }), part(v, fst.v(), o, done@),
        forall|i: int| 0 <= i < nx_s1 ==> #[trigger] done@[i], forall|i: int| 0 <= i < v.n() && done@[i] ==> done@[(#[trigger] o[i]) as int],
@after `fst . set_properties_with_mask ( props , FstProperties :: all_properties ( ) )`
proof { reveal(sound); broadcast use group_bits; l_ren(v, fst.v(), o); }
@before_loop 1
proof { assert(final1 == v.fin[s1 as int] && trsa@ == v.trs[s1 as int]) by { onto(o); assert(hit(o, s1 as int)); let q = choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == s1; assert(!done@[q]); } }
@loop 1
    invariant v.wf(), v_perm(o), o == order@, o.len() == v.n(), v.n() <= u32::MAX, end_s1 == v.n(), nx_s1 <= end_s1, fst.inv(), fst.v().start == (if v.start is Some { Some(o[v.start->0 as int]) } else { None }), part(v, fst.v(), o, done@), s1 < v.n(),
        forall|i: int| 0 <= i < nx_s1 - 1 ==> #[trigger] done@[i], done@[nx_s1 - 1] || s1 == nx_s1 - 1, forall|i: int| 0 <= i < v.n() && done@[i] ==> done@[(#[trigger] o[i]) as int] || o[i] == s1,
        !done@[s1 as int] ==> final1 == v.fin[s1 as int] && trsa@ == v.trs[s1 as int],
@loop_start 1
let ghost d0 = done@; let ghost u0 = fst.v();
@before_loop 2
proof { assert(!done@[s2 as int] ==> final2 == v.fin[s2 as int] && trsb@ == v.trs[s2 as int]); }
let ghost u1 = fst.v();
proof { assert(mv_trs(o, v.trs[s1 as int].take(0)) =~= Seq::<Tr<W>>::empty()); assert(u1.trs =~= v_set_trs(u1, s2, mv_trs(o, v.trs[s1 as int].take(0))).trs); }
@loop 2 it=jt
    invariant v.wf(), v_perm(o), o == order@, o.len() == v.n(), s1 < v.n(), s2 == o[s1 as int], jt.seq().len() == trsa@.len(), forall|k: int| 0 <= k < trsa@.len() ==> *(#[trigger] jt.seq()[k]) == trsa@[k], trsa@ == v.trs[s1 as int], fst.inv(), u1.n() == v.n(), u1.trs.len() == v.n(),
        fst.v() == v_set_trs(u1, s2, mv_trs(o, v.trs[s1 as int].take(jt.index@ as int))),
@loop_start 2
proof { assert(*tr == v.trs[s1 as int][jt.index@ as int]); }
let ghost jj = jt.index@ as int; proof { assert(fst.v().trs[s2 as int].len() == jj); assert(trsa.len() == trsa@.len()); }
@loop_end 2
proof { assert(mv_trs(o, v.trs[s1 as int].take(jj + 1)) =~= mv_trs(o, v.trs[s1 as int].take(jj)).push(tr)); assert(fst.v().trs =~= v_set_trs(u1, s2, mv_trs(o, v.trs[s1 as int].take(jj + 1))).trs); }
@after_loop 2
proof { assert(v.trs[s1 as int].take(v.trs[s1 as int].len() as int) =~= v.trs[s1 as int]); }
//@end
pub open spec fn hit(o: Seq<StateId>, t: int) -> bool { exists|q: int| 0 <= q < o.len() && #[trigger] o[q] == t }
pub proof fn onto(o: Seq<StateId>) requires v_perm(o) ensures forall|t: int| 0 <= t < o.len() ==> #[trigger] hit(o, t)
{
    let m = Seq::new(o.len(), |i: int| o[i] as int);
    assert(m.no_duplicates());
    let full = vstd::set_lib::set_int_range(0, o.len() as int);
    vstd::set_lib::lemma_int_range(0, o.len() as int);
    m.unique_seq_to_set();
    assert(m.to_set().subset_of(full));
    vstd::set_lib::lemma_subset_equality(m.to_set(), full);
    assert forall|t: int| 0 <= t < o.len() implies #[trigger] hit(o, t) by { assert(full.contains(t)); assert(m.contains(t)); let q = choose|q: int| 0 <= q < m.len() && m[q] == t; assert(o[q] == t); }
}

// ---- renaming keeps what the flags say
pub open spec fn rn(o: Seq<StateId>, x: int) -> int { if 0 <= x < o.len() { o[x] as int } else { x } }
pub proof fn ren_walk<W>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>, p: Seq<int>)
    requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o), walk(v.trs, p)
    ensures walk(u.trs, p.map_values(|x: int| rn(o, x)))
{
    let q = p.map_values(|x: int| rn(o, x));
    assert forall|i: int| 0 <= i < q.len() - 1 implies edge(u.trs, #[trigger] q[i], q[i + 1]) by {
        assert(edge(v.trs, p[i], p[i + 1]));
        let k = choose|k: int| 0 <= k < v.trs[p[i]].len() && (#[trigger] v.trs[p[i]][k]).nextstate == p[i + 1];
        assert(o[p[i]] < o.len());
        assert(u.trs[o[p[i]] as int] == mv_trs(o, v.trs[p[i]]));
        assert(u.trs[q[i]][k].nextstate == q[i + 1]);
    }
}
pub proof fn ren_reach<W>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>)
    requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o)
    ensures forall|a: int, b: int| reach(v.trs, a, b) ==> #[trigger] reach(u.trs, rn(o, a), rn(o, b)), forall|a: int| on_cycle(v.trs, a) ==> #[trigger] on_cycle(u.trs, rn(o, a))
{
    assert forall|a: int, b: int| reach(v.trs, a, b) implies #[trigger] reach(u.trs, rn(o, a), rn(o, b)) by { let p = choose|p: Seq<int>| #[trigger] walk(v.trs, p) && p[0] == a && p.last() == b; ren_walk(v, u, o, p); let q = p.map_values(|x: int| rn(o, x)); assert(q[0] == rn(o, a) && q.last() == rn(o, b)); }
    assert forall|a: int| on_cycle(v.trs, a) implies #[trigger] on_cycle(u.trs, rn(o, a)) by { let p = choose|p: Seq<int>| #[trigger] walk(v.trs, p) && p.len() >= 2 && p[0] == a && p.last() == a; ren_walk(v, u, o, p); let q = p.map_values(|x: int| rn(o, x)); assert(q.len() >= 2 && q[0] == rn(o, a) && q.last() == rn(o, a)); }
}
pub proof fn ren_tr<W>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>, s: int) -> (q: int) requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o), 0 <= s < u.trs.len()
    ensures 0 <= q < v.n(), o[q] == s, u.trs[s] == mv_trs(o, v.trs[q]), u.fin[s] == v.fin[q]
{ onto(o); assert(hit(o, s)); let q = choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == s; q }
pub proof fn l_ren1<W: Semiring>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>)
    requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o)
    ensures acceptor(v.trs) ==> acceptor(u.trs), idet(v.trs) ==> idet(u.trs), odet(v.trs) ==> odet(u.trs), isorted(v.trs) ==> isorted(u.trs), osorted(v.trs) ==> osorted(u.trs),
        eps(v.trs) ==> eps(u.trs), ieps(v.trs) ==> ieps(u.trs), oeps(v.trs) ==> oeps(u.trs), wtr(v.trs) ==> wtr(u.trs), wfin(v.fin) ==> wfin(u.fin),
        cyclic(v.trs) ==> cyclic(u.trs), icyclic(v.start, v.trs) ==> icyclic(u.start, u.trs), wcycles(v.trs) ==> wcycles(u.trs), accessible(v.start, v.trs) ==> accessible(u.start, u.trs), coaccessible(v.trs, v.fin) ==> coaccessible(u.trs, u.fin),
{
    let t = u.trs;
    ren_reach(v, u, o);
    if acceptor(v.trs) { assert forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() implies (#[trigger] t[s][k]).ilabel == t[s][k].olabel by { let q = ren_tr(v, u, o, s); assert(v.trs[q][k].ilabel == v.trs[q][k].olabel); } }
    if idet(v.trs) { assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies (#[trigger] t[s][j]).ilabel != (#[trigger] t[s][k]).ilabel by { let q = ren_tr(v, u, o, s); assert(v.trs[q][j].ilabel != v.trs[q][k].ilabel); } }
    if odet(v.trs) { assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies (#[trigger] t[s][j]).olabel != (#[trigger] t[s][k]).olabel by { let q = ren_tr(v, u, o, s); assert(v.trs[q][j].olabel != v.trs[q][k].olabel); } }
    if isorted(v.trs) { assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies (#[trigger] t[s][j]).ilabel <= (#[trigger] t[s][k]).ilabel by { let q = ren_tr(v, u, o, s); assert(v.trs[q][j].ilabel <= v.trs[q][k].ilabel); } }
    if osorted(v.trs) { assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies (#[trigger] t[s][j]).olabel <= (#[trigger] t[s][k]).olabel by { let q = ren_tr(v, u, o, s); assert(v.trs[q][j].olabel <= v.trs[q][k].olabel); } }
    if eps(v.trs) { let (s, k) = choose|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() && (#[trigger] v.trs[s][k]).ilabel == EPS_LABEL && v.trs[s][k].olabel == EPS_LABEL; assert(o[s] < o.len()); assert(t[o[s] as int][k].ilabel == EPS_LABEL); }
    if ieps(v.trs) { let (s, k) = choose|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() && (#[trigger] v.trs[s][k]).ilabel == EPS_LABEL; assert(o[s] < o.len()); assert(t[o[s] as int][k].ilabel == EPS_LABEL); }
    if oeps(v.trs) { let (s, k) = choose|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() && (#[trigger] v.trs[s][k]).olabel == EPS_LABEL; assert(o[s] < o.len()); assert(t[o[s] as int][k].olabel == EPS_LABEL); }
    if wtr(v.trs) { let (s, k) = choose|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() && nontriv((#[trigger] v.trs[s][k]).weight); assert(o[s] < o.len()); assert(nontriv(t[o[s] as int][k].weight)); }
    if wfin(v.fin) { let s = choose|s: int| 0 <= s < v.fin.len() && (#[trigger] v.fin[s]) is Some && nontriv(v.fin[s]->0); assert(o[s] < o.len()); assert(u.fin[o[s] as int] == v.fin[s]); }
    if cyclic(v.trs) { let a = choose|a: int| #[trigger] on_cycle(v.trs, a); assert(on_cycle(t, rn(o, a))); }
    if icyclic(v.start, v.trs) { assert(on_cycle(t, rn(o, v.start->0 as int))); }
    if wcycles(v.trs) { let (s, k) = choose|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() && nontriv((#[trigger] v.trs[s][k]).weight) && reach(v.trs, v.trs[s][k].nextstate as int, s); assert(o[s] < o.len()); let x = v.trs[s][k]; assert(t[o[s] as int][k] == mv_tr(o, x)); assert(reach(t, rn(o, x.nextstate as int), rn(o, s))); assert(nontriv(t[o[s] as int][k].weight)); }
    if accessible(v.start, v.trs) { assert forall|s: int| 0 <= s < t.len() implies #[trigger] acc(u.start, t, s) by { let q = ren_tr(v, u, o, s); assert(acc(v.start, v.trs, q)); assert(reach(t, rn(o, v.start->0 as int), rn(o, q))); } }
    if coaccessible(v.trs, v.fin) { assert forall|s: int| 0 <= s < t.len() implies #[trigger] coacc(t, u.fin, s) by { let q = ren_tr(v, u, o, s); assert(coacc(v.trs, v.fin, q)); let z = choose|z: int| 0 <= z < v.fin.len() && (#[trigger] v.fin[z]) is Some && v.fin[z]->0 != W::szero() && reach(v.trs, q, z); assert(reach(t, rn(o, q), rn(o, z))); assert(o[z] < o.len()); assert(u.fin[o[z] as int] == v.fin[z]); } }
}
// the other direction: renaming back
pub proof fn ren_back<W: Semiring>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>) -> (b: Seq<StateId>)
    requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o), v.n() <= u32::MAX,
    ensures v_perm(b), b.len() == v.n(), u.wf(), renamed(u, v, b)
{
    onto(o);
    let b = Seq::new(o.len(), |t: int| (choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == t) as StateId);
    assert forall|t: int| 0 <= t < o.len() implies 0 <= #[trigger] b[t] < o.len() && o[b[t] as int] == t by { assert(hit(o, t)); let q = choose|q: int| 0 <= q < o.len() && #[trigger] o[q] == t; }
    assert(v_perm(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by { assert(o[b[i] as int] == i && o[b[j] as int] == j); } }
    assert forall|s: int, k: int| 0 <= s < u.n() && 0 <= k < u.trs[s].len() implies (#[trigger] u.trs[s][k]).nextstate < u.n() by { let q = ren_tr(v, u, o, s); let x = v.trs[q][k]; assert(x.nextstate < v.n()); assert(o[x.nextstate as int] < o.len()); }
    if v.start is Some { assert(o[v.start->0 as int] < o.len()); }
    assert forall|q: int| 0 <= q < o.len() implies b[#[trigger] o[q] as int] == q by { let t = o[q] as int; assert(o[b[t] as int] == t); if b[t] < q { assert(o[b[t] as int] != o[q]); } else if b[t] > q { assert(o[q] != o[b[t] as int]); } }
    assert forall|t: int| 0 <= t < u.n() implies v.fin[(#[trigger] b[t]) as int] == u.fin[t] && v.trs[b[t] as int] == mv_trs(b, u.trs[t]) by {
        let q = b[t] as int; assert(o[q] == t);
        assert(u.trs[o[q] as int] == mv_trs(o, v.trs[q]));
        assert(mv_trs(b, u.trs[t]) =~= v.trs[q]) by { assert forall|k: int| 0 <= k < v.trs[q].len() implies mv_trs(b, u.trs[t])[k] == v.trs[q][k] by { let x = v.trs[q][k]; assert(x.nextstate < v.n()); assert(b[o[x.nextstate as int] as int] == x.nextstate); } }
    }
    if v.start is Some { assert(b[o[v.start->0 as int] as int] == v.start->0); }
    b
}
pub proof fn l_ren<W: Semiring>(v: FstV<W>, u: FstV<W>, o: Seq<StateId>)
    requires v_perm(o), o.len() == v.n(), v.wf(), renamed(v, u, o), v.n() <= u32::MAX,
    ensures u.wf(), forall|i: int| ok_statesort(i) && holds(v, i) ==> #[trigger] holds(u, i), cyclic(u.trs) == cyclic(v.trs), icyclic(u.start, u.trs) == icyclic(v.start, v.trs),
{
    l_ren1(v, u, o); let b = ren_back(v, u, o); l_ren1(u, v, b);
}
}
