//@use ucc
verus! {
// ---- C17: reweighting with a potential per state
#[derive(Clone, Copy)]
//@type semirings/semiring.rs :: enum DivideType
pub trait WeaklyDivisibleSemiring: Semiring {
    spec fn sdiv(self, b: Self, left: bool) -> Self;
    fn divide(&self, rhs: &Self, t: DivideType) -> (r: Result<Self>) ensures r is Ok ==> r->Ok_0 == self.sdiv(*rhs, t is DivideLeft);
    fn divide_assign(&mut self, rhs: &Self, t: DivideType) -> (r: Result<()>) ensures r is Ok ==> *final(self) == old(self).sdiv(*rhs, t is DivideLeft);
}
#[derive(Clone, Copy)]
//@type algorithms/reweight.rs :: enum ReweightType
pub open spec fn pot<W: Semiring>(p: Seq<W>, s: int) -> W { if 0 <= s < p.len() { p[s] } else { W::szero() } }
// s: potential of the source, toi: towards the initial state
pub open spec fn rw_tr<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, t: Tr<W>) -> Tr<W> {
    let d = pot(p, s); let e = pot(p, t.nextstate as int);
    if s >= p.len() || d == W::szero() || e == W::szero() { t }
    else { Tr { weight: (if toi { t.weight.stimes(e).sdiv(d, true) } else { d.stimes(t.weight).sdiv(e, false) }), ..t } }
}
pub open spec fn rw_fin<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, f: Option<W>) -> Option<W> {
    if f is None { None }
    else if toi { if pot(p, s) == W::szero() { f } else { Some(f->0.sdiv(pot(p, s), true)) } }
    else { Some(pot(p, s).stimes(if s >= p.len() { W::szero().stimes(f->0) } else { f->0 })) }
}
pub open spec fn rw1_fin<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, f: Option<W>) -> Option<W> { if f is Some && !toi && s >= p.len() { Some(W::szero().stimes(f->0)) } else { f } }
pub open spec fn rw2_fin<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, f: Option<W>) -> Option<W> {
    if f is None { None } else if toi { if pot(p, s) == W::szero() { f } else { Some(f->0.sdiv(pot(p, s), true)) } } else { Some(pot(p, s).stimes(f->0)) }
}
pub open spec fn rw_seq<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, t: Seq<Tr<W>>, n: int) -> Seq<Tr<W>> { Seq::new(t.len(), |k: int| if k < n { rw_tr(p, toi, s, t[k]) } else { t[k] }) }
// after the first m states
pub open spec fn rw_1<W: WeaklyDivisibleSemiring>(v: FstV<W>, p: Seq<W>, toi: bool, m: int) -> FstV<W> {
    FstV { start: v.start, fin: Seq::new(v.fin.len(), |s: int| if s < m { rw1_fin(p, toi, s, v.fin[s]) } else { v.fin[s] }), trs: Seq::new(v.trs.len(), |s: int| if s < m { rw_seq(p, toi, s, v.trs[s], v.trs[s].len() as int) } else { v.trs[s] }) }
}
pub open spec fn rw_2<W: WeaklyDivisibleSemiring>(v: FstV<W>, p: Seq<W>, toi: bool, m: int) -> FstV<W> {
    let u = rw_1(v, p, toi, v.n() as int); FstV { start: v.start, fin: Seq::new(v.fin.len(), |s: int| if s < m { rw_fin(p, toi, s, v.fin[s]) } else { u.fin[s] }), trs: u.trs }
}
// what the start state must pay, on the left of everything that leaves it
pub open spec fn rw_c<W: WeaklyDivisibleSemiring>(d: W, toi: bool) -> W { if toi { d } else { W::sone().sdiv(d, false) } }
pub open spec fn sc_seq<W: Semiring>(c: W, t: Seq<Tr<W>>, n: int) -> Seq<Tr<W>> { Seq::new(t.len(), |k: int| if k < n { Tr { weight: c.stimes(t[k].weight), ..t[k] } } else { t[k] }) }
pub open spec fn sc_start<W: Semiring>(u: FstV<W>, q: int, c: W) -> FstV<W> { FstV { start: u.start, fin: u.fin.update(q, if u.fin[q] is Some { Some(c.stimes(u.fin[q]->0)) } else { None }), trs: u.trs.update(q, sc_seq(c, u.trs[q], u.trs[q].len() as int)) } }
pub open spec fn v_reweight<W: WeaklyDivisibleSemiring>(v: FstV<W>, p: Seq<W>, toi: bool, acyc: bool) -> FstV<W> {
    let u = rw_2(v, p, toi, v.n() as int);
    if v.n() == 0 || v.start is None { u }
    else {
        let d = pot(p, v.start->0 as int); let n = v.n() as u32;
        if d == W::sone() || d == W::szero() { u }
        else if acyc { sc_start(u, v.start->0 as int, rw_c(d, toi)) }
        else { v_set_start(v_add_tr(v_add_state(u), n, eps_tr(rw_c(d, toi), v.start->0 as int)), n) }
    }
}
// an edge-preserving change keeps the start state on, or off, a cycle
pub proof fn keeps_icyc<W>(v: FstV<W>, u: FstV<W>) requires u.start == v.start, u.trs.len() == v.trs.len(), forall|s: int| 0 <= s < v.trs.len() ==> (#[trigger] u.trs[s]).len() == v.trs[s].len(),
        forall|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() ==> (#[trigger] u.trs[s][k]).nextstate == v.trs[s][k].nextstate
    ensures icyclic(v.start, v.trs) ==> icyclic(u.start, u.trs)
{
    assert forall|a: int, b: int| edge(v.trs, a, b) implies #[trigger] edge(u.trs, a, b) by { let k = choose|k: int| 0 <= k < v.trs[a].len() && (#[trigger] v.trs[a][k]).nextstate == b; assert(u.trs[a].len() == v.trs[a].len()); assert(u.trs[a][k].nextstate == b); }
    reach_mono(v.trs, u.trs);
}
pub proof fn rw_icyc<W: WeaklyDivisibleSemiring>(v: FstV<W>, p: Seq<W>, toi: bool) requires v.fin.len() == v.trs.len() ensures icyclic(v.start, v.trs) ==> icyclic(v.start, rw_2(v, p, toi, v.n() as int).trs)
{ keeps_icyc(v, rw_2(v, p, toi, v.n() as int)); }
//@fn fst_properties/mutate_properties.rs :: reweight_properties
//@end
//@fn algorithms/reweight.rs :: reweight rlimit=60
    requires old(fst).inv(), old(fst).v().wf(), short(old(fst).v()), old(fst).v().n() < u32::MAX, sound(old(fst).p(), old(fst).v()),
    ensures r is Ok ==> final(fst).inv(), r is Ok ==> exists|acyc: bool| (acyc ==> !icyclic(old(fst).v().start, old(fst).v().trs)) && #[trigger] v_reweight(old(fst).v(), potentials@, reweight_type is ReweightToInitial, acyc) == final(fst).v(),
@sub `F : MutableFst < W > ,` => `F : MutableFst < W > + Props < W > ,`
@sub `times ( final_weight )` => `times ( & final_weight )` #all
@start
let ghost v = old(fst).v(); let ghost p = potentials@; let ghost toi = reweight_type is ReweightToInitial;
proof { fst.inv_len(); assert(rw_1(v, p, toi, 0).fin =~= v.fin); assert(rw_1(v, p, toi, 0).trs =~= v.trs); if v.n() == 0 { assert(rw_2(v, p, toi, 0).fin =~= v.fin); assert(rw_2(v, p, toi, 0).trs =~= v.trs); assert(v_reweight(v, p, toi, false) == v); } }
@loop 0
    invariant v.wf(), short(v), v.n() < u32::MAX, p == potentials@, toi == (reweight_type is ReweightToInitial), num_states == v.n(), end_state == v.n(), nx_state <= v.n(), zero == W::szero(), fst.inv(), fst.v() == rw_1(v, p, toi, nx_state as int), sound(fst.p(), fst.v()),
    decreases v.n() - nx_state,
@loop_start 0
let ghost m = nx_state as int; let ghost v1 = fst.v();
proof { assert(v1.trs[m] == v.trs[m]); 
  if m >= p.len() || p[m] == W::szero() { assert(rw_seq(p, toi, m, v.trs[m], v.trs[m].len() as int) =~= v.trs[m]); }
  assert(rw_1(v, p, toi, m + 1).fin =~= v1.fin.update(m, rw1_fin(p, toi, m, v.fin[m])));
  assert(rw_1(v, p, toi, m + 1).trs =~= v1.trs.update(m, rw_seq(p, toi, m, v.trs[m], v.trs[m].len() as int)));
  assert(v1.trs.update(m, v1.trs[m]) =~= v1.trs); assert(v1.fin.update(m, v1.fin[m]) =~= v1.fin);
  assert(rw_seq(p, toi, m, v.trs[m], 0) =~= v.trs[m]); }
@before_loop 1
let ghost it0 = it_tr;
proof { assert(v_set_trs(v1, state, it_tr.tv()) == v1); }
@loop 1
    invariant end_idx_tr == v.trs[m].len(), nx_idx_tr <= end_idx_tr, m == state, v1.trs[m] == v.trs[m], p == potentials@, toi == (reweight_type is ReweightToInitial), m < p.len(), *d_s == p[m], p[m] != W::szero(), m < v1.n(), v1.fin.len() == v1.trs.len(), zero == W::szero(),
        it_tr.ok(), same_target(it0, it_tr), it_tr.tv() == rw_seq(p, toi, m, v.trs[m], nx_idx_tr as int), sound(it_tr.pv(), v_set_trs(v1, state, it_tr.tv())),
    decreases end_idx_tr - nx_idx_tr,
@loop_start 1
let ghost k0 = nx_idx_tr as int; let ghost a0 = it_tr.pv(); let ghost t0 = it_tr.tv();
proof { assert forall|b: FstProperties, y: Tr<W>| r_set_tr(a0, b, t0[k0], y) implies #[trigger] sound(b, v_set_trs(v1, state, t0.update(k0, y))) by { let vv = v_set_trs(v1, state, t0); l_set_tr(a0, b, vv, state, k0, y); assert(v_set_trs(vv, state, t0.update(k0, y)).trs =~= v_set_trs(v1, state, t0.update(k0, y)).trs); }
   assert(pot(p, v.trs[m][k0].nextstate as int) == W::szero() ==> rw_seq(p, toi, m, v.trs[m], k0 + 1) =~= rw_seq(p, toi, m, v.trs[m], k0));
   assert(rw_seq(p, toi, m, v.trs[m], k0 + 1) =~= t0.update(k0, rw_tr(p, toi, m, v.trs[m][k0]))); }
@after_loop 0
proof { assert(rw_2(v, p, toi, 0).fin =~= fst.v().fin); assert(fst.v() == rw_2(v, p, toi, 0)); }
@loop 2
    invariant v.wf(), short(v), v.n() < u32::MAX, p == potentials@, toi == (reweight_type is ReweightToInitial), num_states == v.n(), end_state_id == v.n(), nx_state_id <= v.n(), zero == W::szero(), fst.inv(), fst.v() == rw_2(v, p, toi, nx_state_id as int), sound(fst.p(), fst.v()),
    decreases v.n() - nx_state_id,
@loop_start 2
let ghost m = nx_state_id as int; let ghost v1 = fst.v();
proof { assert(v1.fin[m] == rw1_fin(p, toi, m, v.fin[m])); assert(rw_2(v, p, toi, m + 1).fin =~= v1.fin.update(m, rw_fin(p, toi, m, v.fin[m]))); assert(v1.fin.update(m, v1.fin[m]) =~= v1.fin); }
@after_loop 2
let ghost u = fst.v();
proof { assert(u == rw_2(v, p, toi, v.n() as int)); rw_icyc(v, p, toi); if v.start is None { assert(v_reweight(v, p, toi, false) == u); } else { assert(v.start->0 < v.n()); if pot(p, v.start->0 as int) == W::sone() || pot(p, v.start->0 as int) == W::szero() { assert(v_reweight(v, p, toi, false) == u); } } }
@before_loop 3
let ghost it0 = it_tr; let ghost q = v.start->0 as int; let ghost c = rw_c(p[q], toi);
proof { broadcast use group_bits; reveal(sound); assert(!icyclic(u.start, u.trs)); assert(it_tr.tv() =~= sc_seq(c, u.trs[q], 0)); }
@loop 3 it=jt
    invariant jt.snapshot@.end == u.trs[q].len(), q == v.start->0, 0 <= q < p.len(), p == potentials@, toi == (reweight_type is ReweightToInitial), *d_s == p[q], c == rw_c(p[q], toi),
        it_tr.ok(), same_target(it0, it_tr), it_tr.tv() == sc_seq(c, u.trs[q], idx_tr as int),
@loop_start 3
proof { assert(sc_seq(c, u.trs[q], idx_tr + 1) =~= it_tr.tv().update(idx_tr as int, Tr { weight: c.stimes(u.trs[q][idx_tr as int].weight), ..u.trs[q][idx_tr as int] })); }
@after_loop 3
let ghost q = v.start->0 as int; let ghost c = rw_c(p[q], toi);
proof { assert(u.fin.update(q, u.fin[q]) =~= u.fin); }
@tail
proof { if v.start is Some { let q = v.start->0 as int; let d = pot(p, q);
    if d != W::sone() && d != W::szero() { assert(q < p.len()); let c = rw_c(d, toi);
        assert(fst.v() == v_reweight(v, p, toi, true) || fst.v() == v_reweight(v, p, toi, false)) by { if fst.v().n() == u.n() { assert(fst.v().fin =~= sc_start(u, q, c).fin); assert(fst.v().trs =~= sc_start(u, q, c).trs); } } } } }
//@end

// ---- the total weight of every successful path is unchanged: the potentials telescope.
// A run is its sequence of transitions ts from state s, ending with final weight f.
pub open spec fn src<W>(ts: Seq<Tr<W>>, s: int, i: int) -> int { if i == 0 { s } else { ts[i - 1].nextstate as int } }
pub open spec fn run_w<W: Semiring>(ts: Seq<Tr<W>>, f: W) -> W decreases ts.len() { if ts.len() == 0 { f } else { ts[0].weight.stimes(run_w(ts.skip(1), f)) } }
pub open spec fn rw_run<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, ts: Seq<Tr<W>>) -> Seq<Tr<W>> { Seq::new(ts.len(), |i: int| rw_tr(p, toi, src(ts, s, i), ts[i])) }
pub open spec fn pot_ok<W: Semiring>(p: Seq<W>, s: int, ts: Seq<Tr<W>>) -> bool { forall|i: int| 0 <= i <= ts.len() ==> 0 <= #[trigger] src(ts, s, i) < p.len() && p[src(ts, s, i)] != W::szero() }
// the laws the semiring must satisfy (exactly; floating point only does so up to rounding)
pub open spec fn law_assoc<W: Semiring>() -> bool { forall|a: W, b: W, c: W| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) }
pub open spec fn law_one<W: Semiring>() -> bool { forall|a: W| #[trigger] W::sone().stimes(a) == a }
pub open spec fn law_div_l<W: WeaklyDivisibleSemiring>() -> bool { forall|a: W, b: W| b != W::szero() ==> b.stimes(#[trigger] a.sdiv(b, true)) == a }
pub open spec fn law_div_r<W: WeaklyDivisibleSemiring>() -> bool { forall|a: W, b: W| b != W::szero() ==> (#[trigger] a.sdiv(b, false)).stimes(b) == a }
pub proof fn run_skip<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, ts: Seq<Tr<W>>) requires ts.len() > 0, pot_ok(p, s, ts) ensures rw_run(p, toi, s, ts).skip(1) == rw_run(p, toi, ts[0].nextstate as int, ts.skip(1)), pot_ok(p, ts[0].nextstate as int, ts.skip(1)), rw_run(p, toi, s, ts)[0] == rw_tr(p, toi, s, ts[0]),
    0 <= s < p.len(), p[s] != W::szero(), pot(p, ts[0].nextstate as int) != W::szero(),
{
    let t2 = ts.skip(1); let s2 = ts[0].nextstate as int;
    assert(src(ts, s, 0) == s); assert(src(ts, s, 1) == s2);
    assert forall|i: int| 0 <= i <= t2.len() implies 0 <= #[trigger] src(t2, s2, i) < p.len() && p[src(t2, s2, i)] != W::szero() by { assert(src(ts, s, i + 1) == src(t2, s2, i)); }
    assert(rw_run(p, toi, s, ts).skip(1) =~= rw_run(p, toi, s2, t2)) by { assert forall|i: int| 0 <= i < t2.len() implies rw_run(p, toi, s, ts).skip(1)[i] == rw_run(p, toi, s2, t2)[i] by { assert(src(ts, s, i + 1) == src(t2, s2, i)); } }
}
pub proof fn telescope_initial<W: WeaklyDivisibleSemiring>(p: Seq<W>, s: int, ts: Seq<Tr<W>>, f: W)
    requires law_assoc::<W>(), law_div_l::<W>(), pot_ok(p, s, ts)
    ensures pot(p, s).stimes(run_w(rw_run(p, true, s, ts), rw_fin(p, true, src(ts, s, ts.len() as int), Some(f))->0)) == run_w(ts, f)
    decreases ts.len()
{
    assert(src(ts, s, 0) == s);
    if ts.len() == 0 { assert(rw_run(p, true, s, ts).len() == 0); }
    else {
        let t2 = ts.skip(1); let s2 = ts[0].nextstate as int; let n = ts.len() as int;
        run_skip(p, true, s, ts); telescope_initial(p, s2, t2, f);
        assert(src(t2, s2, n - 1) == src(ts, s, n));
        let g = rw_fin(p, true, src(ts, s, n), Some(f))->0; let rest = run_w(rw_run(p, true, s2, t2), g);
        let d = p[s]; let e = pot(p, s2); let w = ts[0].weight; let x = w.stimes(e).sdiv(d, true);
        assert(rw_tr(p, true, s, ts[0]).weight == x);
        assert(run_w(rw_run(p, true, s, ts), g) == x.stimes(rest));
        assert(d.stimes(x.stimes(rest)) == d.stimes(x).stimes(rest)); assert(d.stimes(x) == w.stimes(e)); assert(w.stimes(e).stimes(rest) == w.stimes(e.stimes(rest)));
    }
}
pub proof fn telescope_final<W: WeaklyDivisibleSemiring>(p: Seq<W>, s: int, ts: Seq<Tr<W>>, f: W)
    requires law_assoc::<W>(), law_div_r::<W>(), pot_ok(p, s, ts)
    ensures run_w(rw_run(p, false, s, ts), rw_fin(p, false, src(ts, s, ts.len() as int), Some(f))->0) == pot(p, s).stimes(run_w(ts, f))
    decreases ts.len()
{
    assert(src(ts, s, 0) == s);
    if ts.len() == 0 { assert(rw_run(p, false, s, ts).len() == 0); }
    else {
        let t2 = ts.skip(1); let s2 = ts[0].nextstate as int; let n = ts.len() as int;
        run_skip(p, false, s, ts); telescope_final(p, s2, t2, f);
        assert(src(t2, s2, n - 1) == src(ts, s, n));
        let g = rw_fin(p, false, src(ts, s, n), Some(f))->0; let rest = run_w(rw_run(p, false, s2, t2), g); let o = run_w(t2, f);
        let d = p[s]; let e = pot(p, s2); let w = ts[0].weight; let x = d.stimes(w).sdiv(e, false);
        assert(rw_tr(p, false, s, ts[0]).weight == x);
        assert(run_w(rw_run(p, false, s, ts), g) == x.stimes(rest)); assert(rest == e.stimes(o));
        assert(x.stimes(e.stimes(o)) == x.stimes(e).stimes(o)); assert(x.stimes(e) == d.stimes(w)); assert(d.stimes(w).stimes(o) == d.stimes(w.stimes(o)));
    }
}
// with what the start state pays on the left, a run from the start keeps its weight
pub proof fn reweight_keeps_paths<W: WeaklyDivisibleSemiring>(p: Seq<W>, toi: bool, s: int, ts: Seq<Tr<W>>, f: W)
    requires law_assoc::<W>(), law_one::<W>(), if toi { law_div_l::<W>() } else { law_div_r::<W>() }, pot_ok(p, s, ts)
    ensures rw_c(pot(p, s), toi).stimes(run_w(rw_run(p, toi, s, ts), rw_fin(p, toi, src(ts, s, ts.len() as int), Some(f))->0)) == run_w(ts, f)
{
    assert(src(ts, s, 0) == s);
    if toi { telescope_initial(p, s, ts, f); } else { telescope_final(p, s, ts, f); let d = p[s]; let c = W::sone().sdiv(d, false); let o = run_w(ts, f); assert(c.stimes(d.stimes(o)) == c.stimes(d).stimes(o)); assert(c.stimes(d) == W::sone()); }
}
}
