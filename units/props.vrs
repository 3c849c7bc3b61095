//@use view
verus! {
// ---- what each property flag says about a machine
pub open spec fn acceptor<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() ==> (#[trigger] t[s][k]).ilabel == t[s][k].olabel }
pub open spec fn idet<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() ==> (#[trigger] t[s][j]).ilabel != (#[trigger] t[s][k]).ilabel }
pub open spec fn odet<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() ==> (#[trigger] t[s][j]).olabel != (#[trigger] t[s][k]).olabel }
pub open spec fn eps<W>(t: Seq<Seq<Tr<W>>>) -> bool { exists|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).ilabel == EPS_LABEL && t[s][k].olabel == EPS_LABEL }
pub open spec fn ieps<W>(t: Seq<Seq<Tr<W>>>) -> bool { exists|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).ilabel == EPS_LABEL }
pub open spec fn oeps<W>(t: Seq<Seq<Tr<W>>>) -> bool { exists|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).olabel == EPS_LABEL }
pub open spec fn isorted<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() ==> (#[trigger] t[s][j]).ilabel <= (#[trigger] t[s][k]).ilabel }
pub open spec fn osorted<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() ==> (#[trigger] t[s][j]).olabel <= (#[trigger] t[s][k]).olabel }
pub open spec fn nontriv<W: Semiring>(w: W) -> bool { w != W::szero() && w != W::sone() }
pub open spec fn wtr<W: Semiring>(t: Seq<Seq<Tr<W>>>) -> bool { exists|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight) }
pub open spec fn wfin<W: Semiring>(f: Seq<Option<W>>) -> bool { exists|s: int| 0 <= s < f.len() && (#[trigger] f[s]) is Some && nontriv(f[s]->0) }
pub open spec fn edge<W>(t: Seq<Seq<Tr<W>>>, a: int, b: int) -> bool { 0 <= a < t.len() && exists|k: int| 0 <= k < t[a].len() && (#[trigger] t[a][k]).nextstate == b }
pub open spec fn walk<W>(t: Seq<Seq<Tr<W>>>, p: Seq<int>) -> bool { p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> edge(t, #[trigger] p[i], p[i + 1]) }
pub open spec fn reach<W>(t: Seq<Seq<Tr<W>>>, a: int, b: int) -> bool { exists|p: Seq<int>| #[trigger] walk(t, p) && p[0] == a && p.last() == b }
pub open spec fn on_cycle<W>(t: Seq<Seq<Tr<W>>>, a: int) -> bool { exists|p: Seq<int>| #[trigger] walk(t, p) && p.len() >= 2 && p[0] == a && p.last() == a }
pub open spec fn cyclic<W>(t: Seq<Seq<Tr<W>>>) -> bool { exists|a: int| #[trigger] on_cycle(t, a) }
pub open spec fn icyclic<W>(st: Option<StateId>, t: Seq<Seq<Tr<W>>>) -> bool { st is Some && on_cycle(t, st->0 as int) }
pub open spec fn topsorted<W>(t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() ==> s < (#[trigger] t[s][k]).nextstate }
pub open spec fn acc<W>(st: Option<StateId>, t: Seq<Seq<Tr<W>>>, s: int) -> bool { st is Some && reach(t, st->0 as int, s) }
pub open spec fn accessible<W>(st: Option<StateId>, t: Seq<Seq<Tr<W>>>) -> bool { forall|s: int| 0 <= s < t.len() ==> #[trigger] acc(st, t, s) }
pub open spec fn coacc<W: Semiring>(t: Seq<Seq<Tr<W>>>, f: Seq<Option<W>>, s: int) -> bool { exists|q: int| 0 <= q < f.len() && (#[trigger] f[q]) is Some && f[q]->0 != W::szero() && reach(t, s, q) }
pub open spec fn coaccessible<W: Semiring>(t: Seq<Seq<Tr<W>>>, f: Seq<Option<W>>) -> bool { forall|s: int| 0 <= s < t.len() ==> #[trigger] coacc(t, f, s) }
pub open spec fn isfin<W: Semiring>(f: Option<W>) -> bool { f is Some && f->0 != W::szero() }
pub open spec fn string<W: Semiring>(v: FstV<W>) -> bool {
    v.n() == 0 || (v.start == Some(0u32) && isfin(v.fin[v.n() - 1]) && v.trs[v.n() - 1].len() == 0
        && forall|s: int| 0 <= s < v.n() - 1 ==> !isfin(v.fin[s]) && (#[trigger] v.trs[s]).len() == 1 && v.trs[s][0].nextstate == s + 1)
}
pub open spec fn wcycles<W: Semiring>(t: Seq<Seq<Tr<W>>>) -> bool { exists|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight) && reach(t, t[s][k].nextstate as int, s) }

// flag i (its bit number) holds of v
pub open spec fn holds<W: Semiring>(v: FstV<W>, i: int) -> bool {
    if i == B_ACCEPTOR { acceptor(v.trs) } else if i == B_NOT_ACCEPTOR { !acceptor(v.trs) }
    else if i == B_I_DETERMINISTIC { idet(v.trs) } else if i == B_NOT_I_DETERMINISTIC { !idet(v.trs) }
    else if i == B_O_DETERMINISTIC { odet(v.trs) } else if i == B_NOT_O_DETERMINISTIC { !odet(v.trs) }
    else if i == B_EPSILONS { eps(v.trs) } else if i == B_NO_EPSILONS { !eps(v.trs) }
    else if i == B_I_EPSILONS { ieps(v.trs) } else if i == B_NO_I_EPSILONS { !ieps(v.trs) }
    else if i == B_O_EPSILONS { oeps(v.trs) } else if i == B_NO_O_EPSILONS { !oeps(v.trs) }
    else if i == B_I_LABEL_SORTED { isorted(v.trs) } else if i == B_NOT_I_LABEL_SORTED { !isorted(v.trs) }
    else if i == B_O_LABEL_SORTED { osorted(v.trs) } else if i == B_NOT_O_LABEL_SORTED { !osorted(v.trs) }
    else if i == B_WEIGHTED { wtr(v.trs) || wfin(v.fin) } else if i == B_UNWEIGHTED { !(wtr(v.trs) || wfin(v.fin)) }
    else if i == B_CYCLIC { cyclic(v.trs) } else if i == B_ACYCLIC { !cyclic(v.trs) }
    else if i == B_INITIAL_CYCLIC { icyclic(v.start, v.trs) } else if i == B_INITIAL_ACYCLIC { !icyclic(v.start, v.trs) }
    else if i == B_TOP_SORTED { topsorted(v.trs) } else if i == B_NOT_TOP_SORTED { !topsorted(v.trs) }
    else if i == B_ACCESSIBLE { accessible(v.start, v.trs) } else if i == B_NOT_ACCESSIBLE { !accessible(v.start, v.trs) }
    else if i == B_COACCESSIBLE { coaccessible(v.trs, v.fin) } else if i == B_NOT_COACCESSIBLE { !coaccessible(v.trs, v.fin) }
    else if i == B_STRING { string(v) } else if i == B_NOT_STRING { !string(v) }
    else if i == B_WEIGHTED_CYCLES { wcycles(v.trs) } else if i == B_UNWEIGHTED_CYCLES { !wcycles(v.trs) }
    else { true }
}
#[verifier::opaque]
pub open spec fn sound<W: Semiring>(p: FstProperties, v: FstV<W>) -> bool { forall|i: int| #[trigger] p.has(i) ==> holds(v, i) }

// ---- graph lemmas
pub proof fn walk_mono<W>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>, p: Seq<int>)
    requires walk(t, p), forall|a: int, b: int| edge(t, a, b) ==> #[trigger] edge(u, a, b) ensures walk(u, p) { }
pub proof fn reach_mono<W>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>)
    requires forall|a: int, b: int| edge(t, a, b) ==> #[trigger] edge(u, a, b)
    ensures forall|a: int, b: int| reach(t, a, b) ==> #[trigger] reach(u, a, b), forall|a: int| on_cycle(t, a) ==> #[trigger] on_cycle(u, a), cyclic(t) ==> cyclic(u)
{
    assert forall|a: int, b: int| reach(t, a, b) implies #[trigger] reach(u, a, b) by { let p = choose|p: Seq<int>| #[trigger] walk(t, p) && p[0] == a && p.last() == b; walk_mono(t, u, p); }
    assert forall|a: int| on_cycle(t, a) implies #[trigger] on_cycle(u, a) by { let p = choose|p: Seq<int>| #[trigger] walk(t, p) && p.len() >= 2 && p[0] == a && p.last() == a; walk_mono(t, u, p); }
    if cyclic(t) { let a = choose|a: int| #[trigger] on_cycle(t, a); assert(on_cycle(u, a)); }
}
pub proof fn topsorted_walk<W>(t: Seq<Seq<Tr<W>>>, p: Seq<int>) requires topsorted(t), walk(t, p), p.len() >= 2 ensures p[0] < p.last() decreases p.len()
{
    assert(edge(t, p[0], p[0int + 1]));
    let k = choose|k: int| 0 <= k < t[p[0]].len() && (#[trigger] t[p[0]][k]).nextstate == p[1];
    assert(p[0] < p[1]);
    if p.len() > 2 {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(t, #[trigger] q[i], q[i + 1]) by { assert(edge(t, p[i + 1], p[i + 1 + 1])); }
        topsorted_walk(t, q);
    }
}
pub proof fn topsorted_acyclic<W>(t: Seq<Seq<Tr<W>>>) requires topsorted(t) ensures !cyclic(t), forall|a: int| !on_cycle(t, a)
{
    assert forall|a: int| !on_cycle(t, a) by { if on_cycle(t, a) { let p = choose|p: Seq<int>| #[trigger] walk(t, p) && p.len() >= 2 && p[0] == a && p.last() == a; topsorted_walk(t, p); } }
}

// every transition of t is a transition of u, from the same state
pub open spec fn tin<W>(u: Seq<Seq<Tr<W>>>, s: int, x: Tr<W>) -> bool { 0 <= s < u.len() && exists|k: int| 0 <= k < u[s].len() && (#[trigger] u[s][k]) == x }
pub open spec fn subt<W>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>) -> bool { forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() ==> tin(u, s, #[trigger] t[s][k]) }
pub proof fn sub_mono<W: Semiring>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>)
    requires subt(t, u)
    ensures acceptor(u) ==> acceptor(t), topsorted(u) ==> topsorted(t), eps(t) ==> eps(u), ieps(t) ==> ieps(u), oeps(t) ==> oeps(u), wtr(t) ==> wtr(u), cyclic(t) ==> cyclic(u), wcycles(t) ==> wcycles(u),
        forall|a: int| on_cycle(t, a) ==> #[trigger] on_cycle(u, a), forall|a: int, b: int| reach(t, a, b) ==> #[trigger] reach(u, a, b)
{
    assert forall|a: int, b: int| edge(t, a, b) implies #[trigger] edge(u, a, b) by { let k = choose|k: int| 0 <= k < t[a].len() && (#[trigger] t[a][k]).nextstate == b; assert(tin(u, a, t[a][k])); }
    reach_mono(t, u);
    if acceptor(u) { assert forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() implies (#[trigger] t[s][k]).ilabel == t[s][k].olabel by { assert(tin(u, s, t[s][k])); } }
    if topsorted(u) { assert forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() implies s < (#[trigger] t[s][k]).nextstate by { assert(tin(u, s, t[s][k])); } }
    if eps(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).ilabel == EPS_LABEL && t[s][k].olabel == EPS_LABEL; assert(tin(u, s, t[s][k])); }
    if ieps(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).ilabel == EPS_LABEL; assert(tin(u, s, t[s][k])); }
    if oeps(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && (#[trigger] t[s][k]).olabel == EPS_LABEL; assert(tin(u, s, t[s][k])); }
    if wtr(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight); assert(tin(u, s, t[s][k])); }
    if wcycles(t) { let (s, k) = choose|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() && nontriv((#[trigger] t[s][k]).weight) && reach(t, t[s][k].nextstate as int, s); assert(tin(u, s, t[s][k])); assert(reach(u, t[s][k].nextstate as int, s)); }
}

// u has the transition lists of t on the first n states and no other transitions
pub proof fn same_by_state<W>(u: Seq<Seq<Tr<W>>>, t: Seq<Seq<Tr<W>>>, n: int)
    requires n == t.len(), n <= u.len(), forall|s: int| 0 <= s < n ==> (#[trigger] u[s]) == t[s], forall|s: int| n <= s < u.len() ==> (#[trigger] u[s]).len() == 0
    ensures idet(u) == idet(t), odet(u) == odet(t), isorted(u) == isorted(t), osorted(u) == osorted(t)
{
    assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies (#[trigger] t[s][j]) == u[s][j] && (#[trigger] t[s][k]) == u[s][k] by { }
    assert forall|s: int, j: int, k: int| 0 <= s < u.len() && 0 <= j < k < u[s].len() implies s < n && (#[trigger] u[s][j]) == t[s][j] && (#[trigger] u[s][k]) == t[s][k] by { if s >= n { assert(u[s].len() == 0); } }
}
// ---- which flags survive which mutation
pub open spec fn flag(i: int) -> bool { 16 <= i < 48 }
pub open spec fn ok_set_start(i: int) -> bool { flag(i) && i != B_INITIAL_CYCLIC && i != B_INITIAL_ACYCLIC && i != B_ACCESSIBLE && i != B_NOT_ACCESSIBLE && i != B_STRING && i != B_NOT_STRING }
pub open spec fn r_set_start(a: FstProperties, b: FstProperties) -> bool { forall|i: int| #[trigger] b.has(i) ==> (a.has(i) && ok_set_start(i)) || (i == B_INITIAL_ACYCLIC && a.has(B_ACYCLIC)) }
pub proof fn l_set_start<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId)
    requires sound(a, v), r_set_start(a, b) ensures sound(b, v_set_start(v, s))
{
    reveal(sound);
    let u = v_set_start(v, s);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if i == B_INITIAL_ACYCLIC { assert(holds(v, B_ACYCLIC)); if on_cycle(v.trs, s as int) { assert(cyclic(v.trs)); } }
        else { assert(a.has(i)); assert(holds(v, i)); }
    }
}
pub open spec fn ok_set_final(i: int) -> bool { flag(i) && i != B_COACCESSIBLE && i != B_NOT_COACCESSIBLE && i != B_STRING && i != B_NOT_STRING && i != B_WEIGHTED && i != B_UNWEIGHTED }
pub open spec fn onontriv<W: Semiring>(o: Option<W>) -> bool { o is Some && nontriv(o->0) }
pub open spec fn r_set_final(a: FstProperties, b: FstProperties, ow: bool, nw: bool) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> (a.has(i) && ok_set_final(i)) || (i == B_WEIGHTED && (nw || (a.has(i) && !ow))) || (i == B_UNWEIGHTED && a.has(i) && !nw)
}
pub proof fn l_set_final<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, w: Option<W>)
    requires sound(a, v), s < v.n(), r_set_final(a, b, onontriv(v.fin[s as int]), onontriv(w)) ensures sound(b, v_set_final(v, s, w))
{
    reveal(sound);
    let u = v_set_final(v, s, w);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if i == B_WEIGHTED {
            if onontriv(w) { assert(u.fin[s as int] == w); assert(wfin(u.fin)); }
            else { assert(holds(v, i)); if !wtr(v.trs) { let q = choose|q: int| 0 <= q < v.fin.len() && (#[trigger] v.fin[q]) is Some && nontriv(v.fin[q]->0); assert(u.fin[q] == v.fin[q]); } }
        } else if i == B_UNWEIGHTED {
            assert(holds(v, i)); if wfin(u.fin) { let q = choose|q: int| 0 <= q < u.fin.len() && (#[trigger] u.fin[q]) is Some && nontriv(u.fin[q]->0); if q != s { assert(u.fin[q] == v.fin[q]); } }
        } else { assert(holds(v, i)); }
    }
}
pub open spec fn ok_add_state(i: int) -> bool { flag(i) && i != B_ACCESSIBLE && i != B_COACCESSIBLE && i != B_STRING }
pub open spec fn r_mask(a: FstProperties, b: FstProperties, ok: spec_fn(int) -> bool) -> bool { forall|i: int| #[trigger] b.has(i) ==> a.has(i) && ok(i) }
pub proof fn l_add_states<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, n: nat)
    requires sound(a, v), v.fin.len() == v.trs.len(), r_mask(a, b, |i: int| ok_add_state(i)) ensures sound(b, v_add_states(v, n))
{
    reveal(sound);
    let u = v_add_states(v, n);
    assert(forall|s: int| 0 <= s < v.n() ==> (#[trigger] u.trs[s]) == v.trs[s] && u.fin[s] == v.fin[s]);
    assert(forall|s: int| v.n() <= s < u.n() ==> (#[trigger] u.trs[s]).len() == 0 && u.fin[s] is None);
    assert forall|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() implies tin(u.trs, s, #[trigger] v.trs[s][k]) by { assert(u.trs[s][k] == v.trs[s][k]); }
    assert forall|s: int, k: int| 0 <= s < u.trs.len() && 0 <= k < u.trs[s].len() implies tin(v.trs, s, #[trigger] u.trs[s][k]) by { if s >= v.n() { assert(u.trs[s].len() == 0); } assert(u.trs[s][k] == v.trs[s][k]); }
    sub_mono(v.trs, u.trs); sub_mono(u.trs, v.trs);
    same_by_state(u.trs, v.trs, v.n() as int);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        assert(holds(v, i)); assert(ok_add_state(i));
        assert forall|s: int, k: int| 0 <= s < v.n() && 0 <= k < v.trs[s].len() implies (#[trigger] v.trs[s][k]) == u.trs[s][k] by { }
        assert forall|s: int, k: int| 0 <= s < u.n() && 0 <= k < u.trs[s].len() implies s < v.n() && (#[trigger] u.trs[s][k]) == v.trs[s][k] by { if s >= v.n() { assert(u.trs[s].len() == 0); } }
        if i == B_NOT_STRING { if string(u) { if n == 0 { assert(u.fin =~= v.fin); assert(u.trs =~= v.trs); } else { assert(u.fin[u.n() - 1] is None); } } }
        if i == B_NOT_COACCESSIBLE && coaccessible(u.trs, u.fin) {
            assert forall|s: int| 0 <= s < v.trs.len() implies #[trigger] coacc(v.trs, v.fin, s) by { assert(u.trs[s] == v.trs[s]); assert(coacc(u.trs, u.fin, s)); let q = choose|q: int| 0 <= q < u.fin.len() && (#[trigger] u.fin[q]) is Some && u.fin[q]->0 != W::szero() && reach(u.trs, s, q); assert(q < v.n()) by { if q >= v.n() { assert(u.trs[q].len() == 0); assert(u.fin[q] is None); } } assert(v.fin[q] == u.fin[q]); }
        }
        if i == B_NOT_ACCESSIBLE && accessible(u.start, u.trs) {
            assert forall|s: int| 0 <= s < v.trs.len() implies #[trigger] acc(v.start, v.trs, s) by { assert(acc(u.start, u.trs, s)); }
        }
        if i == B_WEIGHTED || i == B_UNWEIGHTED {
            if wfin(v.fin) { let q = choose|q: int| 0 <= q < v.fin.len() && (#[trigger] v.fin[q]) is Some && nontriv(v.fin[q]->0); assert(u.fin[q] == v.fin[q]); assert(wfin(u.fin)); }
            if wfin(u.fin) { let q = choose|q: int| 0 <= q < u.fin.len() && (#[trigger] u.fin[q]) is Some && nontriv(u.fin[q]->0); assert(q < v.n()) by { if q >= v.n() { assert(u.fin[q] is None); } } assert(v.fin[q] == u.fin[q]); }
        }
    }
}
}
verus! {
// adding transition x at the end of state s
pub open spec fn last_tr<W>(t: Seq<Tr<W>>) -> Option<Tr<W>> { if t.len() > 0 { Some(t.last()) } else { None } }
pub open spec fn r_add_tr<W: Semiring>(a: FstProperties, b: FstProperties, s: StateId, x: Tr<W>, prev: Option<Tr<W>>) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> flag(i) && (
        if i == B_NOT_ACCEPTOR { a.has(i) || x.ilabel != x.olabel }
        else if i == B_ACCEPTOR { a.has(i) && x.ilabel == x.olabel }
        else if i == B_I_EPSILONS { a.has(i) || x.ilabel == EPS_LABEL }
        else if i == B_NO_I_EPSILONS { a.has(i) && x.ilabel != EPS_LABEL }
        else if i == B_O_EPSILONS { a.has(i) || x.olabel == EPS_LABEL }
        else if i == B_NO_O_EPSILONS { a.has(i) && x.olabel != EPS_LABEL }
        else if i == B_EPSILONS { a.has(i) || (x.ilabel == EPS_LABEL && x.olabel == EPS_LABEL) }
        else if i == B_NO_EPSILONS { a.has(i) && !(x.ilabel == EPS_LABEL && x.olabel == EPS_LABEL) }
        else if i == B_I_LABEL_SORTED { a.has(i) && (prev is Some ==> prev->0.ilabel <= x.ilabel) }
        else if i == B_NOT_I_LABEL_SORTED { a.has(i) || (prev is Some && prev->0.ilabel > x.ilabel) }
        else if i == B_O_LABEL_SORTED { a.has(i) && (prev is Some ==> prev->0.olabel <= x.olabel) }
        else if i == B_NOT_O_LABEL_SORTED { a.has(i) || (prev is Some && prev->0.olabel > x.olabel) }
        else if i == B_WEIGHTED { a.has(i) || nontriv(x.weight) }
        else if i == B_UNWEIGHTED { a.has(i) && !nontriv(x.weight) }
        else if i == B_TOP_SORTED { a.has(i) && s < x.nextstate }
        else if i == B_NOT_TOP_SORTED { a.has(i) || x.nextstate <= s }
        else if i == B_ACYCLIC || i == B_INITIAL_ACYCLIC { a.has(B_TOP_SORTED) && s < x.nextstate }
        else { a.has(i) && (i == B_NOT_I_DETERMINISTIC || i == B_NOT_O_DETERMINISTIC || i == B_CYCLIC || i == B_INITIAL_CYCLIC || i == B_ACCESSIBLE || i == B_COACCESSIBLE || i == B_WEIGHTED_CYCLES) })
}
#[verifier::rlimit(60)]
pub proof fn l_add_tr<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, x: Tr<W>)
    requires sound(a, v), v.fin.len() == v.trs.len(), s < v.n(), r_add_tr(a, b, s, x, last_tr(v.trs[s as int])) ensures sound(b, v_add_tr(v, s, x))
{
    reveal(sound);
    let u = v_add_tr(v, s, x);
    let m = v.trs[s as int].len() as int;
    assert(u.trs[s as int][m] == x);
    assert forall|q: int, k: int| 0 <= q < v.trs.len() && 0 <= k < v.trs[q].len() implies tin(u.trs, q, #[trigger] v.trs[q][k]) && u.trs[q][k] == v.trs[q][k] by { assert(u.trs[q][k] == v.trs[q][k]); }
    assert forall|q: int, k: int| 0 <= q < u.trs.len() && 0 <= k < u.trs[q].len() implies (#[trigger] u.trs[q][k]) == (if q == s && k == m { x } else { v.trs[q][k] }) by { }
    sub_mono(v.trs, u.trs);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if a.has(i) { assert(holds(v, i)); }
        if a.has(B_TOP_SORTED) { assert(holds(v, B_TOP_SORTED)); }
        if i == B_ACYCLIC || i == B_INITIAL_ACYCLIC || i == B_TOP_SORTED { assert(topsorted(u.trs)); topsorted_acyclic(u.trs); }
        if i == B_ACCESSIBLE { assert forall|q: int| 0 <= q < u.trs.len() implies #[trigger] acc(u.start, u.trs, q) by { assert(acc(v.start, v.trs, q)); } }
        if i == B_COACCESSIBLE { assert forall|q: int| 0 <= q < u.trs.len() implies #[trigger] coacc(u.trs, u.fin, q) by { assert(coacc(v.trs, v.fin, q)); let z = choose|z: int| 0 <= z < v.fin.len() && (#[trigger] v.fin[z]) is Some && v.fin[z]->0 != W::szero() && reach(v.trs, q, z); assert(reach(u.trs, q, z)); assert(u.fin[z] == v.fin[z]); } }
        if i == B_NOT_I_DETERMINISTIC && idet(u.trs) { assert forall|q: int, j: int, k: int| 0 <= q < v.trs.len() && 0 <= j < k < v.trs[q].len() implies (#[trigger] v.trs[q][j]).ilabel != (#[trigger] v.trs[q][k]).ilabel by { assert(u.trs[q][j].ilabel != u.trs[q][k].ilabel); } }
        if i == B_NOT_O_DETERMINISTIC && odet(u.trs) { assert forall|q: int, j: int, k: int| 0 <= q < v.trs.len() && 0 <= j < k < v.trs[q].len() implies (#[trigger] v.trs[q][j]).olabel != (#[trigger] v.trs[q][k]).olabel by { assert(u.trs[q][j].olabel != u.trs[q][k].olabel); } }
        if (i == B_NOT_I_LABEL_SORTED) && isorted(u.trs) {
            if m > 0 { assert(u.trs[s as int][m - 1].ilabel <= u.trs[s as int][m].ilabel); }
            assert(isorted(v.trs)) by { assert forall|q: int, j: int, k: int| 0 <= q < v.trs.len() && 0 <= j < k < v.trs[q].len() implies (#[trigger] v.trs[q][j]).ilabel <= (#[trigger] v.trs[q][k]).ilabel by { assert(u.trs[q][j].ilabel <= u.trs[q][k].ilabel); } }
        }
        if (i == B_NOT_O_LABEL_SORTED) && osorted(u.trs) {
            if m > 0 { assert(u.trs[s as int][m - 1].olabel <= u.trs[s as int][m].olabel); }
            assert(osorted(v.trs)) by { assert forall|q: int, j: int, k: int| 0 <= q < v.trs.len() && 0 <= j < k < v.trs[q].len() implies (#[trigger] v.trs[q][j]).olabel <= (#[trigger] v.trs[q][k]).olabel by { assert(u.trs[q][j].olabel <= u.trs[q][k].olabel); } }
        }
        if i == B_I_LABEL_SORTED {
            assert forall|q: int, j: int, k: int| 0 <= q < u.trs.len() && 0 <= j < k < u.trs[q].len() implies (#[trigger] u.trs[q][j]).ilabel <= (#[trigger] u.trs[q][k]).ilabel by {
                if q == s && k == m { assert(v.trs[q][m - 1].ilabel <= x.ilabel); assert(j < m - 1 ==> v.trs[q][j].ilabel <= v.trs[q][m - 1].ilabel); } else { assert(v.trs[q][j].ilabel <= v.trs[q][k].ilabel); } }
        }
        if i == B_O_LABEL_SORTED {
            assert forall|q: int, j: int, k: int| 0 <= q < u.trs.len() && 0 <= j < k < u.trs[q].len() implies (#[trigger] u.trs[q][j]).olabel <= (#[trigger] u.trs[q][k]).olabel by {
                if q == s && k == m { assert(v.trs[q][m - 1].olabel <= x.olabel); assert(j < m - 1 ==> v.trs[q][j].olabel <= v.trs[q][m - 1].olabel); } else { assert(v.trs[q][j].olabel <= v.trs[q][k].olabel); } }
        }
        if i == B_NOT_TOP_SORTED && topsorted(u.trs) { assert(s < u.trs[s as int][m].nextstate); }
        if i == B_NOT_ACCEPTOR && acceptor(u.trs) { assert(u.trs[s as int][m].ilabel == u.trs[s as int][m].olabel); }
    }
}
// removing transitions: the transitions of u are, state by state, a subsequence of those of v
pub open spec fn ok_del_trs(i: int) -> bool {
    i == B_ACCEPTOR || i == B_I_DETERMINISTIC || i == B_O_DETERMINISTIC || i == B_NO_EPSILONS || i == B_NO_I_EPSILONS || i == B_NO_O_EPSILONS || i == B_I_LABEL_SORTED || i == B_O_LABEL_SORTED
    || i == B_UNWEIGHTED || i == B_ACYCLIC || i == B_INITIAL_ACYCLIC || i == B_TOP_SORTED || i == B_NOT_ACCESSIBLE || i == B_NOT_COACCESSIBLE || i == B_UNWEIGHTED_CYCLES
}
pub open spec fn ok_add_arc(i: int) -> bool {
    i == B_NOT_ACCEPTOR || i == B_NOT_I_DETERMINISTIC || i == B_NOT_O_DETERMINISTIC || i == B_EPSILONS || i == B_I_EPSILONS || i == B_O_EPSILONS || i == B_NOT_I_LABEL_SORTED || i == B_NOT_O_LABEL_SORTED
    || i == B_WEIGHTED || i == B_CYCLIC || i == B_INITIAL_CYCLIC || i == B_NOT_TOP_SORTED || i == B_ACCESSIBLE || i == B_COACCESSIBLE || i == B_WEIGHTED_CYCLES
}
pub open spec fn ok_del_states(i: int) -> bool {
    i == B_ACCEPTOR || i == B_I_DETERMINISTIC || i == B_O_DETERMINISTIC || i == B_NO_EPSILONS || i == B_NO_I_EPSILONS || i == B_NO_O_EPSILONS || i == B_I_LABEL_SORTED || i == B_O_LABEL_SORTED
    || i == B_UNWEIGHTED || i == B_ACYCLIC || i == B_INITIAL_ACYCLIC || i == B_TOP_SORTED || i == B_UNWEIGHTED_CYCLES
}
// f maps positions of the shorter list to the positions they come from
pub open spec fn subseq<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>, f: Seq<int>) -> bool {
    f.len() == a.len() && (forall|k: int| 0 <= k < a.len() ==> 0 <= #[trigger] f[k] < b.len() && a[k] == b[f[k]]) && (forall|j: int, k: int| 0 <= j < k < a.len() ==> (#[trigger] f[j]) < #[trigger] f[k])
}
pub proof fn subseq_by_state<W>(u: Seq<Seq<Tr<W>>>, t: Seq<Seq<Tr<W>>>, s: int, f: Seq<int>)
    requires 0 <= s < t.len(), u == t.update(s, u[s]), subseq(u[s], t[s], f)
    ensures idet(t) ==> idet(u), odet(t) ==> odet(u), isorted(t) ==> isorted(u), osorted(t) ==> osorted(u)
{
    assert forall|q: int, j: int, k: int| 0 <= q < u.len() && 0 <= j < k < u[q].len() implies {
        &&& (idet(t) ==> (#[trigger] u[q][j]).ilabel != (#[trigger] u[q][k]).ilabel)
        &&& (odet(t) ==> u[q][j].olabel != u[q][k].olabel)
        &&& (isorted(t) ==> u[q][j].ilabel <= u[q][k].ilabel)
        &&& (osorted(t) ==> u[q][j].olabel <= u[q][k].olabel)
    } by {
        if q == s {
            assert(0 <= f[j] < f[k] < t[q].len());
            let a = t[q][f[j]]; let b = t[q][f[k]];
            assert(u[q][j] == a && u[q][k] == b);
        } else {
            let a = t[q][j]; let b = t[q][k];
            assert(u[q] == t[q]);
            assert(u[q][j] == a && u[q][k] == b);
        }
    }
}
pub proof fn l_del_trs<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, t: Seq<Tr<W>>, f: Seq<int>)
    requires sound(a, v), v.fin.len() == v.trs.len(), s < v.n(), subseq(t, v.trs[s as int], f), r_mask(a, b, |i: int| ok_del_trs(i)) ensures sound(b, v_set_trs(v, s, t))
{
    reveal(sound);
    let u = v_set_trs(v, s, t);
    assert forall|q: int, k: int| 0 <= q < u.trs.len() && 0 <= k < u.trs[q].len() implies tin(v.trs, q, #[trigger] u.trs[q][k]) by { if q == s { assert(t[k] == v.trs[q][f[k]]); } else { assert(u.trs[q][k] == v.trs[q][k]); } }
    sub_mono(u.trs, v.trs);
    subseq_by_state(u.trs, v.trs, s as int, f);
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        assert(holds(v, i)); assert(ok_del_trs(i));
        if i == B_NOT_ACCESSIBLE && accessible(u.start, u.trs) { assert forall|q: int| 0 <= q < v.trs.len() implies #[trigger] acc(v.start, v.trs, q) by { assert(acc(u.start, u.trs, q)); } }
        if i == B_NOT_COACCESSIBLE && coaccessible(u.trs, u.fin) { assert forall|q: int| 0 <= q < v.trs.len() implies #[trigger] coacc(v.trs, v.fin, q) by { assert(coacc(u.trs, u.fin, q)); let z = choose|z: int| 0 <= z < u.fin.len() && (#[trigger] u.fin[z]) is Some && u.fin[z]->0 != W::szero() && reach(u.trs, q, z); assert(reach(v.trs, q, z)); assert(v.fin[z] == u.fin[z]); } }
    }
}
// replacing one transition
pub open spec fn r_set_tr<W: Semiring>(a: FstProperties, b: FstProperties, x: Tr<W>, y: Tr<W>) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> (
        if i == B_NOT_ACCEPTOR { y.ilabel != y.olabel || (a.has(i) && x.ilabel == x.olabel) }
        else if i == B_ACCEPTOR { a.has(i) && (x.ilabel == x.olabel ==> y.ilabel == y.olabel) }
        else if i == B_I_EPSILONS { y.ilabel == EPS_LABEL || (a.has(i) && x.ilabel != EPS_LABEL) }
        else if i == B_NO_I_EPSILONS { a.has(i) && (x.ilabel != EPS_LABEL ==> y.ilabel != EPS_LABEL) }
        else if i == B_O_EPSILONS { y.olabel == EPS_LABEL || (a.has(i) && x.olabel != EPS_LABEL) }
        else if i == B_NO_O_EPSILONS { a.has(i) && (x.olabel != EPS_LABEL ==> y.olabel != EPS_LABEL) }
        else if i == B_EPSILONS { (y.ilabel == EPS_LABEL && y.olabel == EPS_LABEL) || (a.has(i) && !(x.ilabel == EPS_LABEL && x.olabel == EPS_LABEL)) }
        else if i == B_NO_EPSILONS { a.has(i) && (y.ilabel == EPS_LABEL && y.olabel == EPS_LABEL ==> x.ilabel == EPS_LABEL && x.olabel == EPS_LABEL) }
        else if i == B_WEIGHTED { nontriv(y.weight) || (a.has(i) && !nontriv(x.weight)) }
        else if i == B_UNWEIGHTED { a.has(i) && (nontriv(y.weight) ==> nontriv(x.weight)) }
        else { false })
}
pub proof fn l_set_tr<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, k0: int, y: Tr<W>)
    requires sound(a, v), v.fin.len() == v.trs.len(), s < v.n(), 0 <= k0 < v.trs[s as int].len(), r_set_tr(a, b, v.trs[s as int][k0], y) ensures sound(b, v_set_trs(v, s, v.trs[s as int].update(k0, y)))
{
    reveal(sound);
    let t = v.trs;
    let u = v_set_trs(v, s, t[s as int].update(k0, y));
    assert forall|q: int, k: int| 0 <= q < u.trs.len() && 0 <= k < u.trs[q].len() implies (#[trigger] u.trs[q][k]) == (if q == s && k == k0 { y } else { t[q][k] }) by { }
    assert(u.trs[s as int][k0] == y);
    let x = t[s as int][k0];
    assert forall|i: int| #[trigger] b.has(i) implies holds(u, i) by {
        if a.has(i) { assert(holds(v, i)); }
        if i == B_NOT_ACCEPTOR && acceptor(u.trs) { assert(u.trs[s as int][k0].ilabel == u.trs[s as int][k0].olabel); assert(acceptor(t)) by { assert forall|q: int, k: int| 0 <= q < t.len() && 0 <= k < t[q].len() implies (#[trigger] t[q][k]).ilabel == t[q][k].olabel by { assert(u.trs[q][k].ilabel == u.trs[q][k].olabel); } } }
        if i == B_EPSILONS && a.has(i) && !(y.ilabel == EPS_LABEL && y.olabel == EPS_LABEL) { let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < t[q].len() && (#[trigger] t[q][k]).ilabel == EPS_LABEL && t[q][k].olabel == EPS_LABEL; assert(u.trs[q][k] == t[q][k]); }
        if i == B_I_EPSILONS && a.has(i) && y.ilabel != EPS_LABEL { let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < t[q].len() && (#[trigger] t[q][k]).ilabel == EPS_LABEL; assert(u.trs[q][k] == t[q][k]); }
        if i == B_O_EPSILONS && a.has(i) && y.olabel != EPS_LABEL { let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < t[q].len() && (#[trigger] t[q][k]).olabel == EPS_LABEL; assert(u.trs[q][k] == t[q][k]); }
        if i == B_WEIGHTED && a.has(i) && !nontriv(y.weight) && wtr(t) { let (q, k) = choose|q: int, k: int| 0 <= q < t.len() && 0 <= k < t[q].len() && nontriv((#[trigger] t[q][k]).weight); assert(u.trs[q][k] == t[q][k]); }
    }
}
// the empty machine
pub proof fn l_null<W: Semiring>(b: FstProperties, v: FstV<W>)
    requires v.n() == 0, v.trs.len() == 0, v.start is None, r_null(b) ensures sound(b, v)
{
    reveal(sound);
    assert forall|a: int| !on_cycle(v.trs, a) by { if on_cycle(v.trs, a) { let p = choose|p: Seq<int>| #[trigger] walk(v.trs, p) && p.len() >= 2 && p[0] == a && p.last() == a; assert(edge(v.trs, p[0], p[0int + 1])); } }
}
pub open spec fn r_null(b: FstProperties) -> bool { forall|i: int| #[trigger] b.has(i) ==> i == B_ACCEPTOR || i == B_I_DETERMINISTIC || i == B_O_DETERMINISTIC || i == B_NO_EPSILONS || i == B_NO_I_EPSILONS || i == B_NO_O_EPSILONS || i == B_I_LABEL_SORTED || i == B_O_LABEL_SORTED || i == B_UNWEIGHTED || i == B_ACYCLIC || i == B_INITIAL_ACYCLIC || i == B_TOP_SORTED || i == B_ACCESSIBLE || i == B_COACCESSIBLE || i == B_STRING || i == B_UNWEIGHTED_CYCLES }
}

verus! {
// the same, as implications: used on the code, where a failed premise must show as the failed postcondition
pub proof fn m_set_start<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId) ensures sound(a, v) && r_set_start(a, b) ==> sound(b, v_set_start(v, s)) { if sound(a, v) && r_set_start(a, b) { l_set_start(a, b, v, s); } }
pub proof fn m_set_final<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, w: Option<W>) requires s < v.n() ensures sound(a, v) && r_set_final(a, b, onontriv(v.fin[s as int]), onontriv(w)) ==> sound(b, v_set_final(v, s, w))
{ if sound(a, v) && r_set_final(a, b, onontriv(v.fin[s as int]), onontriv(w)) { l_set_final(a, b, v, s, w); } }
pub proof fn m_add_states<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, n: nat) requires v.fin.len() == v.trs.len() ensures sound(a, v) && r_mask(a, b, |i: int| ok_add_state(i)) ==> sound(b, v_add_states(v, n)), sound(a, v) && r_mask(a, b, |i: int| ok_add_state(i)) ==> sound(b, v_add_state(v))
{
    if sound(a, v) && r_mask(a, b, |i: int| ok_add_state(i)) { l_add_states(a, b, v, n); l_add_states(a, b, v, 1); assert(v_add_states(v, 1).fin =~= v_add_state(v).fin); assert(v_add_states(v, 1).trs =~= v_add_state(v).trs); }
}
pub proof fn m_add_tr<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, x: Tr<W>) requires v.fin.len() == v.trs.len(), s < v.n() ensures sound(a, v) && r_add_tr(a, b, s, x, last_tr(v.trs[s as int])) ==> sound(b, v_add_tr(v, s, x)) { if sound(a, v) && r_add_tr(a, b, s, x, last_tr(v.trs[s as int])) { l_add_tr(a, b, v, s, x); } }
pub proof fn m_del_trs<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, t: Seq<Tr<W>>, f: Seq<int>) requires v.fin.len() == v.trs.len(), s < v.n(), subseq(t, v.trs[s as int], f)
    ensures sound(a, v) && r_mask(a, b, |i: int| ok_del_trs(i)) ==> sound(b, v_set_trs(v, s, t)) { if sound(a, v) && r_mask(a, b, |i: int| ok_del_trs(i)) { l_del_trs(a, b, v, s, t, f); } }
pub proof fn m_null<W: Semiring>(b: FstProperties, v: FstV<W>) requires v.n() == 0, v.trs.len() == 0, v.start is None ensures r_null(b) ==> sound(b, v) { if r_null(b) { l_null(b, v); } }
pub proof fn m_set_tr<W: Semiring>(a: FstProperties, b: FstProperties, v: FstV<W>, s: StateId, k0: int, y: Tr<W>) requires v.fin.len() == v.trs.len(), s < v.n(), 0 <= k0 < v.trs[s as int].len()
    ensures sound(a, v) && r_set_tr(a, b, v.trs[s as int][k0], y) ==> sound(b, v_set_trs(v, s, v.trs[s as int].update(k0, y))) { if sound(a, v) && r_set_tr(a, b, v.trs[s as int][k0], y) { l_set_tr(a, b, v, s, k0, y); } }
}
