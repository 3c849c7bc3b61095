//@use label
verus! {
// ---- C05: reversal
pub trait Rev<RW: Semiring>: Semiring { spec fn srev(self) -> RW; fn reverse(&self) -> (r: Result<RW>) ensures r is Ok, r->Ok_0 == self.srev(); }
// the transitions out of state t of the reversed machine that come from the first k transitions of state s
pub open spec fn rv_tr<W: Rev<RW>, RW: Semiring>(v: FstV<W>, s: int, k: int, t: int) -> Seq<Tr<RW>> decreases k {
    if k <= 0 { Seq::empty() } else {
        let x = v.trs[s][k - 1]; let r = rv_tr::<W, RW>(v, s, k - 1, t);
        if x.nextstate + 1 == t { r.push(Tr { ilabel: x.ilabel, olabel: x.olabel, weight: x.weight.srev(), nextstate: (s + 1) as u32 }) } else { r }
    }
}
pub open spec fn rv_fin<W: Rev<RW>, RW: Semiring>(v: FstV<W>, s: int, t: int) -> Seq<Tr<RW>> {
    if t == 0 && v.fin[s] is Some { seq![Tr { ilabel: EPS_LABEL, olabel: EPS_LABEL, weight: v.fin[s]->0.srev(), nextstate: (s + 1) as u32 }] } else { Seq::empty() }
}
// ... that come from the first n states
pub open spec fn rv<W: Rev<RW>, RW: Semiring>(v: FstV<W>, n: int, t: int) -> Seq<Tr<RW>> decreases n {
    if n <= 0 { Seq::empty() } else { rv::<W, RW>(v, n - 1, t) + rv_fin::<W, RW>(v, n - 1, t) + rv_tr::<W, RW>(v, n - 1, v.trs[n - 1].len() as int, t) }
}
pub open spec fn rv_f<W: Rev<RW>, RW: Semiring>(v: FstV<W>, n: int, t: int) -> Option<RW> { if v.start is Some && t == v.start->0 + 1 && v.start->0 < n { Some(RW::sone()) } else { None } }
// state s of v becomes state s + 1; state 0 is the new start state with an epsilon transition to each final state
pub open spec fn v_rev<W: Rev<RW>, RW: Semiring>(v: FstV<W>) -> FstV<RW> {
    FstV { start: Some(0u32), fin: Seq::new(v.n() + 1, |t: int| rv_f::<W, RW>(v, v.n() as int, t)), trs: Seq::new(v.n() + 1, |t: int| rv::<W, RW>(v, v.n() as int, t)) }
}
// number of elements so far: bounds the counters
pub open spec fn ntr<W>(t: Seq<Seq<Tr<W>>>, n: int) -> nat decreases n { if n <= 0 { 0 } else { ntr(t, n - 1) + t[n - 1].len() } }
pub open spec fn rev_bit(i: int) -> bool { i == B_ACCEPTOR || i == B_NOT_ACCEPTOR || i == B_EPSILONS || i == B_I_EPSILONS || i == B_O_EPSILONS || i == B_UNWEIGHTED || i == B_WEIGHTED || i == B_CYCLIC || i == B_ACYCLIC || i == B_WEIGHTED_CYCLES || i == B_UNWEIGHTED_CYCLES }
//@fn fst_properties/mutate_properties.rs :: reverse_properties
    ensures forall|i: int| #[trigger] r.has(i) ==> inprops.has(i) && rev_bit(i),
@start
broadcast use group_bits;
//@end
#[verifier::external_body]
pub fn vecs_with_capacity<T>(c: Vec<usize>) -> (r: Vec<Vec<T>>) ensures r@.len() == c@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == Seq::<T>::empty()
{ c.into_iter().map(Vec::with_capacity).collect() }
//@fn algorithms/reverse.rs :: reverse
    requires ifst.inv(), ifst.v().wf(), ifst.v().n() + 1 < u32::MAX, ntr(ifst.v().trs, ifst.v().n() as int) < usize::MAX,
    ensures r is Ok, r->Ok_0.inv(), r->Ok_0.v() == v_rev::<W, RW>(ifst.v()),
@sub `< W , F1 , F2 >` => `< W , RW , F1 , F2 >`
@sub `W : Semiring ,` => `W : Rev < RW > , RW : Semiring ,`
@sub `W :: ReverseWeight` => `RW` #all
@sub `ifst . states_iter ( )` => `ifst . states_range ( )` #all
@sub `ofst . set_symts_from_fst ( ifst ) ;` => ``
@sub `let mut c_trs = vec_rep ( 0 , ifst . num_states ( ) + 1 ) ;` => `let mut c_trs : Vec < usize > = vec_rep ( 0 , ifst . num_states ( ) + 1 ) ;`
@sub `let mut states_trs : Vec < _ > = c_trs . into_iter ( ) . map ( Vec :: with_capacity ) . collect ( ) ;` => `let mut states_trs : Vec < Vec < Tr < RW > > > = vecs_with_capacity ( c_trs ) ;`
@sub `states_trs . into_iter ( ) . enumerate ( ) . for_each ( | ( s , trs ) | { ofst . set_trs_unchecked ( s as StateId , trs ) } ) ;` => `let mut s : usize = 0 ; for trs in states_trs . into_iter ( ) { ofst . set_trs_unchecked ( s as StateId , trs ) ; s = s + 1 ; }`
@start
let ghost v = ifst.v(); proof { ifst.inv_len(); }
@after `let mut ofst = F2 :: new ( )`
proof { ofst.inv_len(); }
@after `ofst . add_states ( ifst . num_states ( ) )`
let ghost w0 = ofst.v();
proof { assert(w0.fin =~= Seq::new(v.n() + 1, |t: int| None::<RW>)); assert(w0.trs =~= Seq::new(v.n() + 1, |t: int| Seq::<Tr<RW>>::empty())); }
@loop 0
    invariant is <= v.n(), v.n() + 1 < u32::MAX, v == ifst.v(), ifst.inv(), v.wf(), ntr(v.trs, v.n() as int) < usize::MAX, c_trs@.len() == v.n() + 1, forall|t: int| 0 <= t < c_trs@.len() ==> (#[trigger] c_trs@[t]) <= ntr(v.trs, is as int),
@loop_start 0
proof { ntr_mono(v.trs, is + 1, v.n() as int); }
@loop 1 it=jt
    invariant is < v.n(), v.n() + 1 < u32::MAX, v.wf(), jt.seq().len() == v.trs[is as int].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == v.trs[is as int][k], c_trs@.len() == v.n() + 1, ntr(v.trs, is as int) + v.trs[is as int].len() < usize::MAX,
        forall|t: int| 0 <= t < c_trs@.len() ==> (#[trigger] c_trs@[t]) <= ntr(v.trs, is as int) + jt.index@,
@loop_start 1
proof { assert(*iarc == v.trs[is as int][jt.index@ as int]); }
@loop 2
    invariant is <= v.n(), v == ifst.v(), ifst.inv(), v.wf(), istart == v.start, v.n() + 1 < u32::MAX, ofst.inv(), ofst.v().start is None, ofst.v().trs == w0.trs, w0.trs.len() == v.n() + 1, ofst.v().fin =~= Seq::new(v.n() + 1, |t: int| rv_f::<W, RW>(v, is as int, t)),
        states_trs@.len() == v.n() + 1, forall|t: int| 0 <= t < states_trs@.len() ==> (#[trigger] states_trs@[t])@ == rv::<W, RW>(v, is as int, t),
@before_loop 3
let ghost s1 = states_trs@;
proof { assert forall|t: int| 0 <= t < states_trs@.len() implies (#[trigger] s1[t])@ =~= rv::<W, RW>(v, is as int, t) + rv_fin::<W, RW>(v, is as int, t) by { } }
@loop 3 it=jt
    invariant is < v.n(), os == is + 1, v.wf(), v.n() + 1 < u32::MAX, jt.seq().len() == v.trs[is as int].len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == v.trs[is as int][k], s1.len() == v.n() + 1,
        states_trs@.len() == v.n() + 1, forall|t: int| 0 <= t < states_trs@.len() ==> (#[trigger] states_trs@[t])@ == s1[t]@ + rv_tr::<W, RW>(v, is as int, jt.index@ as int, t),
@loop_start 3
let ghost s2 = states_trs@; let ghost kk = jt.index@;
proof { assert(*itr == v.trs[is as int][kk as int]); }
@loop_end 3
proof {
    assert forall|t: int| 0 <= t < states_trs@.len() implies (#[trigger] states_trs@[t])@ =~= s1[t]@ + rv_tr::<W, RW>(v, is as int, kk + 1, t) by { assert(s2[t]@ == s1[t]@ + rv_tr::<W, RW>(v, is as int, kk as int, t)); }
}
@loop_end 2
proof {
    assert forall|t: int| 0 <= t < states_trs@.len() implies (#[trigger] states_trs@[t])@ =~= rv::<W, RW>(v, is + 1, t) by { assert(s1[t]@ == rv::<W, RW>(v, is as int, t) + rv_fin::<W, RW>(v, is as int, t)); }
}
@before_loop 4
let ghost st = states_trs@;
@loop 4 it=jt
    invariant jt.seq() == st, st.len() == v.n() + 1, v.n() + 1 < u32::MAX, s == jt.index@, s <= v.n() + 1, ofst.inv(), ofst.v().start is None, ofst.v().fin.len() == v.n() + 1, ofst.v().fin == Seq::new(v.n() + 1, |t: int| rv_f::<W, RW>(v, v.n() as int, t)), ofst.v().trs.len() == v.n() + 1,
        forall|t: int| 0 <= t < s ==> (#[trigger] ofst.v().trs[t]) == st[t]@,
@after_loop 4
proof { assert(ofst.v().trs =~= v_rev::<W, RW>(v).trs); }
//@end
pub proof fn ntr_mono<W>(t: Seq<Seq<Tr<W>>>, a: int, b: int) requires a <= b ensures ntr(t, a) <= ntr(t, b) decreases b - a { if a < b { ntr_mono(t, a, b - 1); } }
}
