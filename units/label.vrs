//@use fst
verus! {
// ---- C05: swapping and copying labels, transition by transition
pub open spec fn t_inv<W>(t: Tr<W>) -> Tr<W> { Tr { ilabel: t.olabel, olabel: t.ilabel, weight: t.weight, nextstate: t.nextstate } }
pub open spec fn t_pin<W>(t: Tr<W>) -> Tr<W> { Tr { ilabel: t.ilabel, olabel: t.ilabel, weight: t.weight, nextstate: t.nextstate } }
pub open spec fn t_pout<W>(t: Tr<W>) -> Tr<W> { Tr { ilabel: t.olabel, olabel: t.olabel, weight: t.weight, nextstate: t.nextstate } }
// every transition t of v replaced by f(t), nothing else changed
pub open spec fn v_map<W>(v: FstV<W>, f: spec_fn(Tr<W>) -> Tr<W>) -> FstV<W> { FstV { trs: Seq::new(v.trs.len(), |s: int| Seq::new(v.trs[s].len(), |k: int| f(v.trs[s][k]))), ..v } }
// the first n states of u are mapped, the others are as in v
pub open spec fn part_map<W>(v: FstV<W>, u: FstV<W>, f: spec_fn(Tr<W>) -> Tr<W>, n: int) -> bool {
    &&& u.start == v.start &&& u.fin == v.fin &&& u.trs.len() == v.trs.len()
    &&& forall|s: int| 0 <= s < n && s < v.trs.len() ==> (#[trigger] u.trs[s]) == v_map(v, f).trs[s]
    &&& forall|s: int| n <= s < v.trs.len() ==> (#[trigger] u.trs[s]) == v.trs[s]
}
pub open spec fn part_seq<W>(t: Seq<Tr<W>>, u: Seq<Tr<W>>, f: spec_fn(Tr<W>) -> Tr<W>, n: int) -> bool {
    &&& u.len() == t.len()
    &&& forall|k: int| 0 <= k < n && k < t.len() ==> (#[trigger] u[k]) == f(t[k])
    &&& forall|k: int| n <= k < t.len() ==> (#[trigger] u[k]) == t[k]
}
pub proof fn part_done<W>(v: FstV<W>, u: FstV<W>, f: spec_fn(Tr<W>) -> Tr<W>) requires part_map(v, u, f, v.trs.len() as int) ensures u == v_map(v, f)
{ assert(u.trs =~= v_map(v, f).trs); }

// ---- flags under a change of labels that keeps weights and targets
pub open spec fn keeps<W>(v: FstV<W>, u: FstV<W>) -> bool {
    &&& u.start == v.start &&& u.fin == v.fin &&& u.trs.len() == v.trs.len()
    &&& forall|s: int| 0 <= s < v.trs.len() ==> (#[trigger] u.trs[s]).len() == v.trs[s].len()
    &&& forall|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() ==> (#[trigger] u.trs[s][k]).weight == v.trs[s][k].weight && u.trs[s][k].nextstate == v.trs[s][k].nextstate
}
pub open spec fn graph_bit(i: int) -> bool {
    i == B_WEIGHTED || i == B_UNWEIGHTED || i == B_WEIGHTED_CYCLES || i == B_UNWEIGHTED_CYCLES || i == B_CYCLIC || i == B_ACYCLIC || i == B_INITIAL_CYCLIC || i == B_INITIAL_ACYCLIC
    || i == B_TOP_SORTED || i == B_NOT_TOP_SORTED || i == B_ACCESSIBLE || i == B_NOT_ACCESSIBLE || i == B_COACCESSIBLE || i == B_NOT_COACCESSIBLE || i == B_STRING || i == B_NOT_STRING
}
pub proof fn keeps_sym<W>(v: FstV<W>, u: FstV<W>) requires keeps(v, u) ensures keeps(u, v)
{
    assert forall|s: int| 0 <= s < u.trs.len() implies (#[trigger] v.trs[s]).len() == u.trs[s].len() by { assert(u.trs[s].len() == v.trs[s].len()); }
    assert forall|s: int, k: int| 0 <= s < u.trs.len() && 0 <= k < u.trs[s].len() implies (#[trigger] v.trs[s][k]).weight == u.trs[s][k].weight && v.trs[s][k].nextstate == u.trs[s][k].nextstate by { assert(u.trs[s].len() == v.trs[s].len()); assert(u.trs[s][k].weight == v.trs[s][k].weight); }
}
pub proof fn keeps_one<W: Semiring>(v: FstV<W>, u: FstV<W>) requires keeps(v, u)
    ensures wtr(v.trs) ==> wtr(u.trs), wcycles(v.trs) ==> wcycles(u.trs), cyclic(v.trs) ==> cyclic(u.trs), forall|a: int| on_cycle(v.trs, a) ==> #[trigger] on_cycle(u.trs, a),
        forall|a: int, b: int| reach(v.trs, a, b) ==> #[trigger] reach(u.trs, a, b), topsorted(v.trs) ==> topsorted(u.trs), accessible(v.start, v.trs) ==> accessible(u.start, u.trs),
        v.n() == v.trs.len() && coaccessible(v.trs, v.fin) ==> coaccessible(u.trs, u.fin), v.n() == v.trs.len() && string(v) ==> string(u),
{
    let (t, w) = (v.trs, u.trs);
    assert forall|a: int, b: int| edge(t, a, b) implies #[trigger] edge(w, a, b) by { let k = choose|k: int| 0 <= k < t[a].len() && (#[trigger] t[a][k]).nextstate == b; assert(w[a].len() == t[a].len()); assert(w[a][k].nextstate == b); }
    reach_mono(t, w);
    if wtr(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight); assert(w[s].len() == t[s].len()); assert(w[s][k].weight == t[s][k].weight); }
    if wcycles(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight) && reach(t, t[s][k].nextstate as int, s); assert(w[s].len() == t[s].len()); assert(w[s][k].weight == t[s][k].weight); assert(reach(w, t[s][k].nextstate as int, s)); }
    if topsorted(t) { assert forall|s: int, k: int| 0 <= s < w.len() && 0 <= k < w[s].len() implies s < (#[trigger] w[s][k]).nextstate by { assert(w[s].len() == t[s].len()); assert(s < t[s][k].nextstate); } }
    if accessible(v.start, t) { assert forall|s: int| 0 <= s < w.len() implies #[trigger] acc(u.start, w, s) by { assert(acc(v.start, t, s)); } }
    if v.n() == t.len() && coaccessible(t, v.fin) { assert forall|s: int| 0 <= s < w.len() implies #[trigger] coacc(w, u.fin, s) by { assert(coacc(t, v.fin, s)); let q = choose|q: int| 0 <= q < v.fin.len() && (#[trigger] v.fin[q]) is Some && v.fin[q]->0 != W::szero() && reach(t, s, q); assert(reach(w, s, q)); } }
    if v.n() == t.len() && string(v) { keeps_string(v, u); }
}
pub proof fn keeps_string<W: Semiring>(v: FstV<W>, u: FstV<W>) requires keeps(v, u), v.n() == v.trs.len(), string(v) ensures string(u)
{
    if v.n() > 0 {
        let n = v.n() as int;
        assert(u.trs[n - 1].len() == v.trs[n - 1].len());
        assert forall|s: int| 0 <= s < u.n() - 1 implies !isfin(u.fin[s]) && (#[trigger] u.trs[s]).len() == 1 && u.trs[s][0].nextstate == s + 1 by {
            assert(v.trs[s].len() == 1); assert(u.trs[s].len() == v.trs[s].len()); assert(u.trs[s][0].nextstate == v.trs[s][0].nextstate); assert(!isfin(v.fin[s]));
        }
        assert(u.start == Some(0u32)); assert(isfin(u.fin[u.n() - 1])); assert(u.trs[u.n() - 1].len() == 0);
        assert(isfin(u.fin[u.n() - 1]) && u.trs[u.n() - 1].len() == 0);
        assert forall|s: int| 0 <= s < u.n() - 1 implies !isfin(u.fin[s]) by { assert(u.trs[s].len() == 1); }
        assert(forall|s: int| 0 <= s < u.n() - 1 ==> (#[trigger] u.trs[s]).len() == 1);
        assert(forall|s: int| 0 <= s < u.n() - 1 ==> (#[trigger] u.trs[s])[0].nextstate == s + 1);
        assert(forall|s: int| 0 <= s < u.n() - 1 ==> !isfin(u.fin[s]) && (#[trigger] u.trs[s]).len() == 1 && u.trs[s][0].nextstate == s + 1);
    }
}
pub proof fn keeps_graph<W: Semiring>(v: FstV<W>, u: FstV<W>, i: int) requires keeps(v, u), v.fin.len() == v.trs.len(), graph_bit(i), holds(v, i) ensures holds(u, i)
{ keeps_sym(v, u); keeps_one(v, u); keeps_one(u, v); }

// i-side flags of v as flags of the side on which u carries v's input labels
pub open spec fn lab(t: bool, i: int) -> int {
    if !t { i } else if i == B_I_DETERMINISTIC { B_O_DETERMINISTIC } else if i == B_NOT_I_DETERMINISTIC { B_NOT_O_DETERMINISTIC } else if i == B_I_EPSILONS { B_O_EPSILONS } else if i == B_NO_I_EPSILONS { B_NO_O_EPSILONS } else if i == B_I_LABEL_SORTED { B_O_LABEL_SORTED } else { B_NOT_O_LABEL_SORTED }
}
pub open spec fn ibit(i: int) -> bool { i == B_I_DETERMINISTIC || i == B_NOT_I_DETERMINISTIC || i == B_I_EPSILONS || i == B_NO_I_EPSILONS || i == B_I_LABEL_SORTED || i == B_NOT_I_LABEL_SORTED }
pub open spec fn obit(i: int) -> bool { i == B_O_DETERMINISTIC || i == B_NOT_O_DETERMINISTIC || i == B_O_EPSILONS || i == B_NO_O_EPSILONS || i == B_O_LABEL_SORTED || i == B_NOT_O_LABEL_SORTED }
pub open spec fn flip(i: int) -> int {
    if i == B_I_DETERMINISTIC { B_O_DETERMINISTIC } else if i == B_NOT_I_DETERMINISTIC { B_NOT_O_DETERMINISTIC } else if i == B_I_EPSILONS { B_O_EPSILONS } else if i == B_NO_I_EPSILONS { B_NO_O_EPSILONS } else if i == B_I_LABEL_SORTED { B_O_LABEL_SORTED } else if i == B_NOT_I_LABEL_SORTED { B_NOT_O_LABEL_SORTED }
    else if i == B_O_DETERMINISTIC { B_I_DETERMINISTIC } else if i == B_NOT_O_DETERMINISTIC { B_NOT_I_DETERMINISTIC } else if i == B_O_EPSILONS { B_I_EPSILONS } else if i == B_NO_O_EPSILONS { B_NO_I_EPSILONS } else if i == B_O_LABEL_SORTED { B_I_LABEL_SORTED } else { B_NOT_I_LABEL_SORTED }
}
pub open spec fn same_len<W>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>) -> bool { t.len() == u.len() && forall|s: int| 0 <= s < t.len() ==> (#[trigger] u[s]).len() == t[s].len() }
// u's side b (false: input, true: output) carries v's side a
pub open spec fn sidel<W>(x: Tr<W>, b: bool) -> Label { if b { x.olabel } else { x.ilabel } }
pub open spec fn carries<W>(t: Seq<Seq<Tr<W>>>, a: bool, u: Seq<Seq<Tr<W>>>, b: bool) -> bool { same_len(t, u) && forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() ==> sidel(#[trigger] u[s][k], b) == sidel(t[s][k], a) }
pub open spec fn sdet<W>(t: Seq<Seq<Tr<W>>>, a: bool) -> bool { if a { odet(t) } else { idet(t) } }
pub open spec fn seps<W>(t: Seq<Seq<Tr<W>>>, a: bool) -> bool { if a { oeps(t) } else { ieps(t) } }
pub open spec fn ssort<W>(t: Seq<Seq<Tr<W>>>, a: bool) -> bool { if a { osorted(t) } else { isorted(t) } }
pub proof fn carries_sym<W>(t: Seq<Seq<Tr<W>>>, a: bool, u: Seq<Seq<Tr<W>>>, b: bool) requires carries(t, a, u, b) ensures carries(u, b, t, a)
{
    assert forall|s: int| 0 <= s < u.len() implies (#[trigger] t[s]).len() == u[s].len() by { assert(u[s].len() == t[s].len()); }
    assert forall|s: int, k: int| 0 <= s < u.len() && 0 <= k < u[s].len() implies sidel(#[trigger] t[s][k], a) == sidel(u[s][k], b) by { assert(u[s].len() == t[s].len()); assert(sidel(u[s][k], b) == sidel(t[s][k], a)); }
}
pub proof fn carries_one<W>(t: Seq<Seq<Tr<W>>>, a: bool, u: Seq<Seq<Tr<W>>>, b: bool) requires carries(t, a, u, b)
    ensures sdet(t, a) ==> sdet(u, b), ssort(t, a) ==> ssort(u, b), seps(t, a) ==> seps(u, b),
{
    if sdet(t, a) { assert forall|s: int, j: int, k: int| 0 <= s < u.len() && 0 <= j < k < u[s].len() implies sidel(#[trigger] u[s][j], b) != sidel(#[trigger] u[s][k], b) by { assert(u[s].len() == t[s].len()); assert(sidel(u[s][j], b) == sidel(t[s][j], a)); assert(sidel(u[s][k], b) == sidel(t[s][k], a)); assert(sidel(t[s][j], a) != sidel(t[s][k], a)); } }
    if ssort(t, a) { assert forall|s: int, j: int, k: int| 0 <= s < u.len() && 0 <= j < k < u[s].len() implies sidel(#[trigger] u[s][j], b) <= sidel(#[trigger] u[s][k], b) by { assert(u[s].len() == t[s].len()); assert(sidel(u[s][j], b) == sidel(t[s][j], a)); assert(sidel(u[s][k], b) == sidel(t[s][k], a)); assert(sidel(t[s][j], a) <= sidel(t[s][k], a)); } }
    if seps(t, a) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && sidel(#[trigger] t[s][k], a) == EPS_LABEL; assert(u[s].len() == t[s].len()); assert(sidel(u[s][k], b) == EPS_LABEL); }
}
pub proof fn carries_iff<W>(t: Seq<Seq<Tr<W>>>, a: bool, u: Seq<Seq<Tr<W>>>, b: bool) requires carries(t, a, u, b)
    ensures sdet(t, a) == sdet(u, b), ssort(t, a) == ssort(u, b), seps(t, a) == seps(u, b)
{ carries_sym(t, a, u, b); carries_one(t, a, u, b); carries_one(u, b, t, a); }

pub open spec fn r_invert(a: FstProperties, b: FstProperties) -> bool {
    forall|i: int| #[trigger] b.has(i) && flag(i) ==> (if ibit(i) || obit(i) { a.has(flip(i)) } else { a.has(i) })
}
pub proof fn l_invert<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>)
    requires sound(a, v), v.fin.len() == v.trs.len(), r_invert(a, b) ensures sound(b, v_map(v, |t: Tr<W>| t_inv(t)))
{
    reveal(sound);
    let u = v_map(v, |t: Tr<W>| t_inv(t)); let (t, w) = (v.trs, u.trs);
    carries_iff(t, false, w, true); carries_iff(t, true, w, false);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if ibit(i) || obit(i) { assert(a.has(flip(i))); assert(holds(v, flip(i))); }
        else {
            assert(holds(v, i));
            if graph_bit(i) { keeps_graph(v, u, i); }
            else if i == B_ACCEPTOR { assert forall|s: int, k: int| 0 <= s < w.len() && 0 <= k < w[s].len() implies (#[trigger] w[s][k]).ilabel == w[s][k].olabel by { assert(t[s][k].ilabel == t[s][k].olabel); } }
            else if i == B_NOT_ACCEPTOR { if acceptor(w) { assert forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() implies (#[trigger] t[s][k]).ilabel == t[s][k].olabel by { assert(w[s][k].ilabel == w[s][k].olabel); } } }
            else if i == B_EPSILONS { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).ilabel == EPS_LABEL && t[s][k].olabel == EPS_LABEL; assert(w[s][k].ilabel == EPS_LABEL); }
            else if i == B_NO_EPSILONS { if eps(w) { let (s, k) = choose|s: int, k: int| 0 <= s < w.len() && 0 <= k < w[s].len() && (#[trigger] w[s][k]).ilabel == EPS_LABEL && w[s][k].olabel == EPS_LABEL; assert(t[s][k].ilabel == EPS_LABEL); } }
        }
    }
}
// projection on side o (false: input)
pub open spec fn r_project(a: FstProperties, b: FstProperties, o: bool) -> bool {
    forall|i: int| #[trigger] b.has(i) && flag(i) ==> i != B_NOT_ACCEPTOR && (i == B_ACCEPTOR
        || (i == B_EPSILONS && a.has(if o { B_O_EPSILONS } else { B_I_EPSILONS })) || (i == B_NO_EPSILONS && a.has(if o { B_NO_O_EPSILONS } else { B_NO_I_EPSILONS }))
        || (graph_bit(i) && a.has(i)) || (ibit(i) && a.has(if o { flip(i) } else { i })) || (obit(i) && a.has(if o { i } else { flip(i) })))
}
pub proof fn l_project<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, u: FstV<W>, o: bool)
    requires sound(a, v), v.fin.len() == v.trs.len(), r_project(a, b, o), u == (if o { v_map(v, |t: Tr<W>| t_pout(t)) } else { v_map(v, |t: Tr<W>| t_pin(t)) }) ensures sound(b, u)
{
    reveal(sound);
    let (t, w) = (v.trs, u.trs);
    carries_iff(t, o, w, true); carries_iff(t, o, w, false);
    assert(acceptor(w));
    assert(eps(w) == ieps(w)) by {
        if ieps(w) { let (s, k) = choose|s: int, k: int| 0 <= s < w.len() && 0 <= k < w[s].len() && (#[trigger] w[s][k]).ilabel == EPS_LABEL; assert(w[s][k].olabel == EPS_LABEL); }
    }
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if i == B_EPSILONS { assert(holds(v, if o { B_O_EPSILONS } else { B_I_EPSILONS })); }
        else if i == B_NO_EPSILONS { assert(holds(v, if o { B_NO_O_EPSILONS } else { B_NO_I_EPSILONS })); }
        else if graph_bit(i) { assert(holds(v, i)); keeps_graph(v, u, i); }
        else if ibit(i) { assert(holds(v, if o { flip(i) } else { i })); }
        else if obit(i) { assert(holds(v, if o { i } else { flip(i) })); }
    }
}
//@fn fst_properties/mutate_properties.rs :: invert_properties rlimit=60
    ensures r_invert(inprops, r),
@start
broadcast use group_bits;
//@end
//@type algorithms/projection.rs :: enum ProjectType
//@fn fst_properties/mutate_properties.rs :: project_properties rlimit=60
    ensures r_project(inprops, r, project_type is ProjectOutput),
@start
broadcast use group_bits;
//@end
//@fn algorithms/inversion.rs :: invert
    requires old(fst).inv(),
    ensures final(fst).inv(), final(fst).v() == v_map(old(fst).v(), |t: Tr<W>| t_inv(t)),
        /*C02*/ sound(old(fst).p(), old(fst).v()) ==> sound(final(fst).p(), final(fst).v()),
@loop 0
    invariant fst.inv(), part_map(old(fst).v(), fst.v(), |t: Tr<W>| t_inv(t), state as int), state <= old(fst).v().n(), old(fst).v().n() == old(fst).v().trs.len(), fst.v().n() == old(fst).v().n(),
@loop_start 0
let ghost v1 = fst.v();
@loop 1 it=jt
    invariant jt.snapshot@.end == v1.trs[state as int].len(), it_tr.ok(), part_seq(v1.trs[state as int], it_tr.tv(), |t: Tr<W>| t_inv(t), idx_tr as int), same_target(it0, it_tr),
@before_loop 1
let ghost it0 = it_tr;
@loop_end 0
proof { assert(fst.v().trs[state as int] =~= v_map(old(fst).v(), |t: Tr<W>| t_inv(t)).trs[state as int]); }
@after_loop 0
proof { part_done(old(fst).v(), fst.v(), |t: Tr<W>| t_inv(t)); assert forall|b: FstProperties| r_invert(old(fst).p(), b) && sound(old(fst).p(), old(fst).v()) implies #[trigger] sound(b, fst.v()) by { l_invert(old(fst).p(), b, old(fst).v()); } }
@start
proof { fst.inv_len(); }
//@end
//@fn algorithms/projection.rs :: project
    requires old(fst).inv(),
    ensures final(fst).inv(), final(fst).v() == (if project_type is ProjectInput { v_map(old(fst).v(), |t: Tr<W>| t_pin(t)) } else { v_map(old(fst).v(), |t: Tr<W>| t_pout(t)) }),
        /*C02*/ sound(old(fst).p(), old(fst).v()) ==> sound(final(fst).p(), final(fst).v()),
@loop 0
    invariant fst.inv(), part_map(old(fst).v(), fst.v(), |t: Tr<W>| t_pin(t), state as int), state <= old(fst).v().n(), old(fst).v().n() == old(fst).v().trs.len(), fst.v().n() == old(fst).v().n(),
@loop_start 0
let ghost v1 = fst.v();
@before_loop 1
let ghost it0 = it_trs;
@loop 1 it=jt
    invariant jt.snapshot@.end == v1.trs[state as int].len(), it_trs.ok(), part_seq(v1.trs[state as int], it_trs.tv(), |t: Tr<W>| t_pin(t), idx_tr as int), same_target(it0, it_trs),
@loop_end 0
proof { assert(fst.v().trs[state as int] =~= v_map(old(fst).v(), |t: Tr<W>| t_pin(t)).trs[state as int]); }
@after_loop 0
proof { part_done(old(fst).v(), fst.v(), |t: Tr<W>| t_pin(t)); assert forall|b: FstProperties| r_project(old(fst).p(), b, false) && sound(old(fst).p(), old(fst).v()) implies #[trigger] sound(b, fst.v()) by { l_project(old(fst).p(), b, old(fst).v(), fst.v(), false); } }
@loop 2
    invariant fst.inv(), part_map(old(fst).v(), fst.v(), |t: Tr<W>| t_pout(t), state as int), state <= old(fst).v().n(), old(fst).v().n() == old(fst).v().trs.len(), fst.v().n() == old(fst).v().n(),
@loop_start 2
let ghost v1 = fst.v();
@before_loop 3
let ghost it0 = it_trs;
@loop 3 it=jt
    invariant jt.snapshot@.end == v1.trs[state as int].len(), it_trs.ok(), part_seq(v1.trs[state as int], it_trs.tv(), |t: Tr<W>| t_pout(t), idx_tr as int), same_target(it0, it_trs),
@loop_end 2
proof { assert(fst.v().trs[state as int] =~= v_map(old(fst).v(), |t: Tr<W>| t_pout(t)).trs[state as int]); }
@after_loop 2
proof { part_done(old(fst).v(), fst.v(), |t: Tr<W>| t_pout(t)); assert forall|b: FstProperties| r_project(old(fst).p(), b, true) && sound(old(fst).p(), old(fst).v()) implies #[trigger] sound(b, fst.v()) by { l_project(old(fst).p(), b, old(fst).v(), fst.v(), true); } }
@start
proof { fst.inv_len(); }
//@end
}
