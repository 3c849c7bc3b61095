//@use label
verus! {
// ---- C04: union, concatenation, closure (static)
pub open spec fn eps_tr<W>(w: W, q: int) -> Tr<W> { Tr { ilabel: EPS_LABEL, olabel: EPS_LABEL, weight: w, nextstate: q as u32 } }
pub open spec fn shift<W>(t: Tr<W>, d: int) -> Tr<W> { Tr { ilabel: t.ilabel, olabel: t.olabel, weight: t.weight, nextstate: (t.nextstate + d) as u32 } }
pub open spec fn shifts<W>(t: Seq<Tr<W>>, d: int) -> Seq<Tr<W>> { Seq::new(t.len(), |k: int| shift(t[k], d)) }
// v followed by the first m states of w, renumbered
pub open spec fn v_append<W>(v: FstV<W>, w: FstV<W>, m: int) -> FstV<W> {
    FstV { start: v.start, fin: v.fin + w.fin.take(m), trs: v.trs + Seq::new(m as nat, |s: int| shifts(w.trs[s], v.n() as int)) }
}
pub open spec fn short<W>(v: FstV<W>) -> bool { v.fin.len() == v.trs.len() && forall|s: int| 0 <= s < v.trs.len() ==> (#[trigger] v.trs[s]).len() + 1 < usize::MAX }
pub proof fn append_0<W>(v: FstV<W>, w: FstV<W>) ensures v_append(v, w, 0) == v { assert(v_append(v, w, 0).fin =~= v.fin); assert(v_append(v, w, 0).trs =~= v.trs); }
// one more state of w, of which k transitions have been copied
pub proof fn append_step<W>(u: FstV<W>, v: FstV<W>, w: FstV<W>, m: int, d: int)
    requires 0 <= m < w.n(), w.n() == w.trs.len(), v.n() == v.trs.len(), d == v.n(), u == v_set_trs(v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]), (d + m) as u32, shifts(w.trs[m], d)), d + m <= u32::MAX
    ensures u == v_append(v, w, m + 1)
{
    assert(u.fin =~= v_append(v, w, m + 1).fin);
    assert(u.trs =~= v_append(v, w, m + 1).trs) by { assert(v_append(v, w, m + 1).trs[d + m] =~= shifts(w.trs[m], d)); }
}
// an FST computes properties of itself: the flags it then asserts are true and the requested ones are decided
pub trait Props<W: Semiring>: MutableFst<W> {
    fn compute_and_update_properties(&mut self, properties_mask: FstProperties) -> (r: Result<FstProperties>) requires old(self).inv()
        ensures final(self).inv(), final(self).v() == old(self).v(), sound(old(self).p(), old(self).v()) ==> sound(final(self).p(), final(self).v()),
            r is Ok ==> sound(r->Ok_0, old(self).v());
}
pub open spec fn v_union<W: Semiring>(v: FstV<W>, w: FstV<W>, acyc: bool) -> FstV<W> {
    if w.start is None { v }
    else {
        let u = v_append(v, w, w.n() as int); let q = w.start->0 + v.n();
        if v.start is None { v_set_start(u, q as u32) }
        else if acyc { v_add_tr(u, v.start->0, eps_tr(W::sone(), q)) }
        else { let x = v_add_state(u); let n = u.n() as u32; v_add_tr(v_add_tr(v_set_start(x, n), n, eps_tr(W::sone(), v.start->0 as int)), n, eps_tr(W::sone(), q)) }
    }
}
//@fn fst_properties/mutate_properties.rs :: union_properties rlimit=60
//@end
//@fn algorithms/union/union_static.rs :: union
    requires old(fst_1).inv(), fst_2.inv(), fst_2.v().wf(), old(fst_1).v().wf(), short(old(fst_1).v()), short(fst_2.v()), old(fst_1).v().n() + fst_2.v().n() + 1 < u32::MAX, sound(old(fst_1).p(), old(fst_1).v()),
    ensures final(fst_1).inv(), r is Ok ==> exists|acyc: bool| (acyc ==> !icyclic(old(fst_1).v().start, old(fst_1).v().trs)) && #[trigger] v_union(old(fst_1).v(), fst_2.v(), acyc) == final(fst_1).v(),
        r is Err ==> final(fst_1).v() == old(fst_1).v(),
@sub `F1 : AllocableFst < W > + MutableFst < W > ,` => `F1 : AllocableFst < W > + MutableFst < W > + Props < W > ,`
@after `let initial_acyclic_1`
let ghost v = old(fst_1).v(); let ghost w = fst_2.v(); let ghost d = v.n() as int;
proof { broadcast use group_bits; reveal(sound); if initial_acyclic_1 { assert(!icyclic(v.start, v.trs)); } append_0(v, w); assert(v_union(v, w, initial_acyclic_1) == v || w.start is Some); }
@loop 0
    invariant s2 <= w.n(), v.wf(), w.wf(), short(v), short(w), w == fst_2.v(), fst_2.inv(), fst_1.inv(), d == v.n(), numstates1 == d, v.n() + w.n() + 1 < u32::MAX, fst_1.v() == v_append(v, w, s2 as int),
@loop_start 0
let ghost m = s2 as int;
@loop 1 it=jt
    invariant m == s2, s1 == d + m, m < w.n(), v.wf(), w.wf(), short(v), short(w), d == v.n(), numstates1 == d, v.n() + w.n() + 1 < u32::MAX, jt.seq().len() == w.trs[m].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == w.trs[m][k],
        fst_1.inv(), fst_1.v() == v_set_trs(v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]), (d + m) as u32, shifts(w.trs[m].take(jt.index@ as int), d)),
@before_loop 1
proof { assert(fst_1.v().fin =~= v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]).fin); assert(shifts(w.trs[m].take(0), d) =~= Seq::empty());
    assert(fst_1.v().trs =~= fst_1.v().trs.update(d + m, Seq::empty())); }
@loop_start 1
let ghost kk = jt.index@ as int;
proof { assert(*tr == w.trs[m][kk]); assert(w.trs[m][kk].nextstate < w.n()); }
@loop_end 1
proof { assert(shifts(w.trs[m].take(kk + 1), d) =~= shifts(w.trs[m].take(kk), d).push(shift(w.trs[m][kk], d)));
    let x = v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]);
    assert(fst_1.v().trs =~= v_set_trs(x, (d + m) as u32, shifts(w.trs[m].take(kk + 1), d)).trs); }
@after_loop 1
proof { assert(w.trs[m].take(w.trs[m].len() as int) =~= w.trs[m]); append_step(fst_1.v(), v, w, m, d); }
@after_loop 0
let ghost u = fst_1.v();
proof { assert(u.n() == v.n() + w.n()); if v.start is Some { assert(u.trs[v.start->0 as int] == v.trs[v.start->0 as int]); assert(v.trs[v.start->0 as int].len() + 1 < usize::MAX); } assert(w.start->0 < w.n()); }
@tail
proof { assert(fst_1.v() == v_union(v, w, initial_acyclic_1)); }
//@end

// ---- concatenation: the final states of v get an epsilon transition to the start state of w and stop being final
pub open spec fn cc_trs<W>(v: FstV<W>, w: FstV<W>, s: int) -> Seq<Tr<W>> { if v.fin[s] is Some && w.start is Some { v.trs[s].push(eps_tr(v.fin[s]->0, w.start->0 + v.n())) } else { v.trs[s] } }
pub open spec fn cc_part<W>(v: FstV<W>, w: FstV<W>, m: int) -> FstV<W> {
    let u = v_append(v, w, w.n() as int);
    FstV { start: v.start, fin: Seq::new(u.n(), |s: int| if s < m { None } else { u.fin[s] }), trs: Seq::new(u.n(), |s: int| if s < m { cc_trs(v, w, s) } else { u.trs[s] }) }
}
pub open spec fn v_concat<W>(v: FstV<W>, w: FstV<W>) -> FstV<W> { if v.start is None { v } else { cc_part(v, w, v.n() as int) } }
//@fn fst_properties/mutate_properties.rs :: concat_properties rlimit=60
//@end
//@fn algorithms/concat/concat_static.rs :: concat
    requires old(fst_1).inv(), fst_2.inv(), fst_2.v().wf(), old(fst_1).v().wf(), short(old(fst_1).v()), short(fst_2.v()), old(fst_1).v().n() + fst_2.v().n() + 1 < u32::MAX,
    ensures r is Ok, final(fst_1).inv(), final(fst_1).v() == v_concat(old(fst_1).v(), fst_2.v()),
@sub `fst_2 . states_iter ( )` => `fst_2 . states_range ( )`
@start
let ghost v = old(fst_1).v(); let ghost w = fst_2.v(); let ghost d = v.n() as int;
proof { append_0(v, w); fst_1.inv_len(); fst_2.inv_len(); }
@loop 0
    invariant s2 <= w.n(), v.wf(), w.wf(), short(v), short(w), w == fst_2.v(), fst_2.inv(), fst_1.inv(), d == v.n(), numstates1 == d, v.n() + w.n() + 1 < u32::MAX, fst_1.v() == v_append(v, w, s2 as int),
@loop_start 0
let ghost m = s2 as int;
@loop 1 it=jt
    invariant m == s2, s1 == d + m, m < w.n(), v.wf(), w.wf(), short(v), short(w), d == v.n(), numstates1 == d, v.n() + w.n() + 1 < u32::MAX, jt.seq().len() == w.trs[m].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == w.trs[m][k],
        fst_1.inv(), fst_1.v() == v_set_trs(v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]), (d + m) as u32, shifts(w.trs[m].take(jt.index@ as int), d)),
@before_loop 1
proof { assert(fst_1.v().fin =~= v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]).fin); assert(shifts(w.trs[m].take(0), d) =~= Seq::empty());
    assert(fst_1.v().trs =~= fst_1.v().trs.update(d + m, Seq::empty())); }
@loop_start 1
let ghost kk = jt.index@ as int;
proof { assert(*tr == w.trs[m][kk]); assert(w.trs[m][kk].nextstate < w.n()); }
@loop_end 1
proof { assert(shifts(w.trs[m].take(kk + 1), d) =~= shifts(w.trs[m].take(kk), d).push(shift(w.trs[m][kk], d)));
    let x = v_set_final(v_add_state(v_append(v, w, m)), (d + m) as u32, w.fin[m]);
    assert(fst_1.v().trs =~= v_set_trs(x, (d + m) as u32, shifts(w.trs[m].take(kk + 1), d)).trs); }
@after_loop 1
proof { assert(w.trs[m].take(w.trs[m].len() as int) =~= w.trs[m]); append_step(fst_1.v(), v, w, m, d); }
@before_loop 2
proof { let c = cc_part(v, w, 0); assert(fst_1.v().fin =~= c.fin); assert(fst_1.v().trs =~= c.trs); }
@loop 2
    invariant s1 <= d, v.wf(), w.wf(), short(v), short(w), fst_1.inv(), d == v.n(), numstates1 == d, v.n() + w.n() + 1 < u32::MAX, start2 == w.start, fst_1.v() == cc_part(v, w, s1 as int),
@loop_start 2
proof { let c = cc_part(v, w, s1 as int); assert(c.fin[s1 as int] == v.fin[s1 as int]); assert(c.trs[s1 as int] == v.trs[s1 as int]); assert(v.trs[s1 as int].len() + 1 < usize::MAX); if w.start is Some { assert(w.start->0 < w.n()); } }
@loop_end 2
proof { let c = cc_part(v, w, s1 + 1); assert(fst_1.v().fin =~= c.fin); assert(fst_1.v().trs =~= c.trs); }
//@end
// ---- closure: every final state gets an epsilon transition to the start state; for the star, a new final start state
pub open spec fn fin_list<W: Semiring>(v: FstV<W>, n: int) -> Seq<(StateId, W)> decreases n { if n <= 0 { Seq::empty() } else if isfin(v.fin[n - 1]) { fin_list(v, n - 1).push(((n - 1) as u32, v.fin[n - 1]->0)) } else { fin_list(v, n - 1) } }
pub proof fn fin_list_ok<W: Semiring>(v: FstV<W>, n: int) requires 0 <= n <= v.n(), n <= u32::MAX
    ensures fin_list(v, n).len() <= n, forall|i: int| 0 <= i < fin_list(v, n).len() ==> (#[trigger] fin_list(v, n)[i]).0 < n && isfin(v.fin[fin_list(v, n)[i].0 as int]) && fin_list(v, n)[i].1 == v.fin[fin_list(v, n)[i].0 as int]->0,
        forall|i: int, j: int| 0 <= i < j < fin_list(v, n).len() ==> (#[trigger] fin_list(v, n)[i]).0 < (#[trigger] fin_list(v, n)[j]).0,
        forall|s: int| 0 <= s < n && isfin(v.fin[s]) ==> exists|i: int| 0 <= i < fin_list(v, n).len() && (#[trigger] fin_list(v, n)[i]).0 == s,
    decreases n
{
    if n > 0 {
        fin_list_ok(v, n - 1); let a = fin_list(v, n - 1); let b = fin_list(v, n);
        assert forall|s: int| 0 <= s < n && isfin(v.fin[s]) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == s by {
            if s < n - 1 { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == s; assert(b[i].0 == s); } else { assert(b[b.len() - 1].0 == s); }
        }
    }
}
#[verifier::external_body]
pub fn final_states<W: Semiring, F: MutableFst<W>>(fst: &F) -> (r: Vec<(StateId, W)>) requires fst.inv() ensures r@ == fin_list(fst.v(), fst.v().n() as int)
{ unimplemented!() }
// the first m final states have their transition
pub open spec fn clo_part<W: Semiring>(v: FstV<W>, m: int) -> FstV<W> { FstV { trs: Seq::new(v.n(), |s: int| if isfin(v.fin[s]) && exists|i: int| 0 <= i < m && i < fin_list(v, v.n() as int).len() && (#[trigger] fin_list(v, v.n() as int)[i]).0 == s { v.trs[s].push(eps_tr(v.fin[s]->0, v.start->0 as int)) } else { v.trs[s] }), ..v } }
pub open spec fn v_plus<W: Semiring>(v: FstV<W>) -> FstV<W> { if v.start is None { v } else { FstV { trs: Seq::new(v.n(), |s: int| if isfin(v.fin[s]) { v.trs[s].push(eps_tr(v.fin[s]->0, v.start->0 as int)) } else { v.trs[s] }), ..v } } }
pub open spec fn v_star<W: Semiring>(v: FstV<W>) -> FstV<W> {
    let u = v_add_state(v_plus(v)); let n = v.n() as u32;
    let x = if v.start is None { u } else { v_add_tr(u, n, eps_tr(W::sone(), v.start->0 as int)) };
    v_set_final(v_set_start(x, n), n, Some(W::sone()))
}
//@type algorithms/closure/mod.rs :: enum ClosureType
//@fn fst_properties/mutate_properties.rs :: closure_properties
//@end
//@fn algorithms/closure/closure_static.rs :: closure
    requires old(fst).inv(), old(fst).v().wf(), short(old(fst).v()), old(fst).v().n() < u32::MAX,
    ensures final(fst).inv(), final(fst).v() == (if closure_type is ClosureStar { v_star(old(fst).v()) } else { v_plus(old(fst).v()) }),
@sub `fst . final_states_iter ( ) . map ( | s | ( s , { fst . final_weight_unchecked ( s ) . unwrap ( ) } ) ) . collect ( )` => `final_states ( fst )`
@sub `closure_type == ClosureType :: ClosureStar` => `matches ! ( closure_type , ClosureType :: ClosureStar )`
@sub `for ( final_state_id , final_weight ) in final_states_id {` => `for fw in final_states_id { let ( final_state_id , final_weight ) = fw ;`
@start
let ghost v = old(fst).v(); let ghost l = fin_list(v, v.n() as int);
proof { fst.inv_len(); fin_list_ok(v, v.n() as int); assert(clo_part(v, 0).trs =~= v.trs); }
@loop 0 it=jt
    invariant jt.seq() == l, l == fin_list(v, v.n() as int), short(v), v.wf(), v.n() < u32::MAX, fst.inv(), v.start == Some(start_state), fst.v() == clo_part(v, jt.index@ as int),
@loop_start 0
let ghost kk = jt.index@ as int; let ghost u = fst.v();
proof { fin_list_ok(v, v.n() as int); assert(fw == l[kk]); assert(v.trs[l[kk].0 as int].len() + 1 < usize::MAX); assert(u.trs[l[kk].0 as int] == v.trs[l[kk].0 as int]); }
@loop_end 0
proof {
    let c = clo_part(v, kk + 1);
    assert(fst.v().fin == c.fin && fst.v().start == c.start);
    assert forall|s: int| 0 <= s < v.n() implies fst.v().trs[s] == c.trs[s] by {
        if s == l[kk].0 { assert(l[kk].0 == s); }
        else {
            if exists|i: int| 0 <= i < kk + 1 && i < l.len() && (#[trigger] l[i]).0 == s { let i = choose|i: int| 0 <= i < kk + 1 && i < l.len() && (#[trigger] l[i]).0 == s; assert(i < kk); }
        }
    }
    assert(fst.v().trs =~= c.trs);
}
@after_loop 0
proof { fin_list_ok(v, v.n() as int); assert(fst.v().trs =~= v_plus(v).trs); }
//@end
}
