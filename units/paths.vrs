//@use fst
verus! {
// ---- C18: linear machines, and the paths of a machine
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (v: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
pub open spec fn v_one<W: Semiring>() -> FstV<W> { FstV { start: Some(0), fin: seq![Some(W::sone())], trs: seq![Seq::empty()] } }
// the string of labels as a machine: one state per position, the weight at the end
pub open spec fn lab(t: Seq<Label>, k: int) -> Label { if 0 <= k < t.len() { t[k] } else { 0 } }
pub open spec fn v_lin<W: Semiring>(i: Seq<Label>, o: Seq<Label>, n: int) -> FstV<W> { FstV { start: Some(0), fin: Seq::new((n + 1) as nat, |s: int| None), trs: Seq::new((n + 1) as nat, |s: int| if s < n { seq![Tr { ilabel: lab(i, s), olabel: lab(o, s), weight: W::sone(), nextstate: (s + 1) as StateId }] } else { Seq::empty() }) } }
pub open spec fn lmax(a: int, b: int) -> int { if a >= b { a } else { b } }
//@fn utils/epsilon_machine.rs :: epsilon_machine
    ensures r is Ok, r->Ok_0.inv(), r->Ok_0.v() == v_one::<W>(), /*C02*/ sound(r->Ok_0.p(), r->Ok_0.v()),
@after `let mut fst = F :: new ( ) ;`
proof { fst.inv_len(); }
@tail
proof { assert(r__->Ok_0.v().fin =~= v_one::<W>().fin); assert(r__->Ok_0.v().trs =~= v_one::<W>().trs); }
//@end
//@fn utils/labels_to_fst.rs :: acceptor
    requires labels@.len() < u32::MAX - 1,
    ensures r.inv(), r.v() == v_set_final(v_lin(labels@, labels@, labels@.len() as int), labels@.len() as StateId, Some(weight)), /*C02*/ sound(r.p(), r.v()),
@after `let mut fst = F :: new ( ) ;`
proof { fst.inv_len(); }
@before_loop 0
let ghost ls = labels@;
proof { assert(fst.v().fin =~= v_lin::<W>(ls, ls, 0).fin); assert(fst.v().trs =~= v_lin::<W>(ls, ls, 0).trs); }
@loop 0 it=jt
    invariant jt.seq().len() == ls.len(), forall|k: int| 0 <= k < ls.len() ==> *(#[trigger] jt.seq()[k]) == ls[k], ls == labels@, ls.len() < u32::MAX - 1, fst.inv(), state_cour == jt.index@, fst.v() == v_lin::<W>(ls, ls, jt.index@ as int), /*C02*/ sound(fst.p(), fst.v()),
@loop_start 0
let ghost ii = jt.index@ as int;
@loop_end 0
proof { assert(*l == ls[ii]); assert(fst.v().fin =~= v_lin::<W>(ls, ls, ii + 1).fin); assert(fst.v().trs =~= v_lin::<W>(ls, ls, ii + 1).trs); }
//@end
//@fn utils/labels_to_fst.rs :: transducer
    requires labels_input@.len() < u32::MAX - 1, labels_output@.len() < u32::MAX - 1,
    ensures r.inv(), ({ let n = lmax(labels_input@.len() as int, labels_output@.len() as int); r.v() == v_set_final(v_lin(labels_input@, labels_output@, n), n as StateId, Some(weight)) }), /*C02*/ sound(r.p(), r.v()),
@sub `cmp :: max ( labels_input . len ( ) , labels_output . len ( ) )` => `vmax ( labels_input . len ( ) , labels_output . len ( ) )`
@sub `labels_input . get ( idx ) . unwrap_or ( & 0 )` => `vget_or ( labels_input , idx , & 0 )`
@sub `labels_output . get ( idx ) . unwrap_or ( & 0 )` => `vget_or ( labels_output , idx , & 0 )`
@after `let mut fst = F :: new ( ) ;`
proof { fst.inv_len(); }
@before_loop 0
let ghost li = labels_input@; let ghost lo = labels_output@; let ghost n = lmax(li.len() as int, lo.len() as int);
proof { assert(fst.v().fin =~= v_lin::<W>(li, lo, 0).fin); assert(fst.v().trs =~= v_lin::<W>(li, lo, 0).trs); }
@loop 0 it=jt
    invariant jt.snapshot@.end == n, n < u32::MAX - 1, li == labels_input@, lo == labels_output@, fst.inv(), state_cour == idx, fst.v() == v_lin::<W>(li, lo, idx as int), /*C02*/ sound(fst.p(), fst.v()),
@loop_end 0
proof { assert(fst.v().fin =~= v_lin::<W>(li, lo, idx + 1).fin); assert(fst.v().trs =~= v_lin::<W>(li, lo, idx + 1).trs); }
//@end
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == lmax(a as int, b as int) { if a >= b { a } else { b } }
pub fn vget_or<'a>(v: &'a [Label], i: usize, d: &'a Label) -> (r: &'a Label) ensures *r == (if i < v@.len() { v@[i as int] } else { *d }) { if i < v.len() { &v[i] } else { d } }

// ---- paths
//@type fst_path.rs :: struct FstPath
impl<W: Semiring> Clone for FstPath<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::reject_recursive_types(W)]
pub struct PV<W> { pub i: Seq<Label>, pub o: Seq<Label>, pub w: W }
pub open spec fn pcat(s: Seq<Label>, l: Label) -> Seq<Label> { if l == EPS_LABEL { s } else { s.push(l) } }
impl<W: Semiring> PV<W> {
    pub open spec fn empty() -> PV<W> { PV { i: Seq::empty(), o: Seq::empty(), w: W::sone() } }
    // the path followed by a transition
    pub open spec fn ext(self, i: Label, o: Label, w: W) -> PV<W> { PV { i: pcat(self.i, i), o: pcat(self.o, o), w: self.w.stimes(w) } }
    pub open spec fn end(self, w: W) -> PV<W> { PV { i: self.i, o: self.o, w: self.w.stimes(w) } }
}
impl<W: Semiring> FstPath<W> {
    pub open spec fn pv(&self) -> PV<W> { PV { i: self.ilabels@, o: self.olabels@, w: self.weight } }
//@fn fst_path.rs :: FstPath :: new
    ensures r.pv() == (PV { i: ilabels@, o: olabels@, w: weight }),
//@end
//@fn fst_path.rs :: FstPath :: add_to_path
    ensures r is Ok, final(self).pv() == old(self).pv().ext(ilabel, olabel, *weight),
//@end
//@fn fst_path.rs :: FstPath :: add_weight
    ensures r is Ok, final(self).pv() == old(self).pv().end(*weight),
//@end
//@fn fst_path.rs :: Default for FstPath :: default
    ensures r.pv() == PV::<W>::empty(),
@tail
proof { assert(r__.pv().i =~= Seq::<Label>::empty()); assert(r__.pv().o =~= Seq::<Label>::empty()); }
//@end
//@fn fst_path.rs :: FstPath :: is_empty
    ensures r == (self.pv().i.len() == 0 && self.pv().o.len() == 0 && self.pv().w == W::sone()),
//@end
//@fn fst_path.rs :: FstPath :: concat
    ensures r is Ok, final(self).pv() == (PV { i: old(self).pv().i + other.pv().i, o: old(self).pv().o + other.pv().o, w: old(self).pv().w.stimes(other.pv().w) }),
@sub `self . ilabels . extend ( other . ilabels )` => `vextend ( & mut self . ilabels , other . ilabels )`
@sub `self . olabels . extend ( other . olabels )` => `vextend ( & mut self . olabels , other . olabels )`
@sub `times_assign ( other . weight )` => `times_assign ( & other . weight )`
//@end
}
#[verifier::external_body]
pub fn vextend(a: &mut Vec<Label>, b: Vec<Label>) ensures final(a)@ == old(a)@ + b@ { a.extend(b) }

// what waits in the queue: a state and the path that leads to it
#[verifier::reject_recursive_types(W)]
pub struct It<W> { pub s: StateId, pub p: PV<W> }
pub open spec fn items<W: Semiring>(q: Seq<(StateId, FstPath<W>)>) -> Seq<It<W>> { Seq::new(q.len(), |k: int| It { s: q[k].0, p: q[k].1.pv() }) }
pub open spec fn it_ext<W: Semiring>(x: It<W>, t: Tr<W>) -> It<W> { It { s: t.nextstate, p: x.p.ext(t.ilabel, t.olabel, t.weight) } }
pub open spec fn it_all<W: Semiring>(x: It<W>, t: Seq<Tr<W>>) -> Seq<It<W>> { Seq::new(t.len(), |k: int| it_ext(x, t[k])) }
// one step of the breadth first enumeration: the first item is replaced, at the end, by its extensions
pub open spec fn step<W: Semiring>(v: FstV<W>, q: Seq<It<W>>) -> Seq<It<W>> { q.drop_first() + it_all(q[0], v.trs[q[0].s as int]) }
pub open spec fn after<W: Semiring>(v: FstV<W>, q: Seq<It<W>>, k: nat) -> Seq<It<W>> decreases k { if k == 0 { q } else { let p = after(v, q, (k - 1) as nat); if p.len() == 0 { p } else { step(v, p) } } }
pub open spec fn q_ok<W: Semiring>(v: FstV<W>, q: Seq<It<W>>) -> bool { forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).s < v.n() }
// k items are passed over, none of them at a final state
pub open spec fn skips<W: Semiring>(v: FstV<W>, q: Seq<It<W>>, k: nat) -> bool { forall|j: nat| j < k ==> (#[trigger] after(v, q, j)).len() > 0 && v.fin[after(v, q, j)[0].s as int] is None }
pub open spec fn q_start<W: Semiring>(v: FstV<W>) -> Seq<It<W>> { if v.start is Some { seq![It { s: v.start->0, p: PV::empty() }] } else { Seq::empty() } }
// the next path of the enumeration at q, and where the enumeration is then
pub open spec fn nexts<W: Semiring>(v: FstV<W>, q: Seq<It<W>>, q1: Seq<It<W>>, r: Option<PV<W>>, k: nat) -> bool {
    let m = after(v, q, k);
    skips(v, q, k) && (if r is None { m.len() == 0 && q1 == m } else { m.len() > 0 && v.fin[m[0].s as int] is Some && r->0 == m[0].p.end(v.fin[m[0].s as int]->0) && q1 == after(v, q, k + 1) })
}
pub open spec fn opv<W: Semiring>(r: Option<FstPath<W>>) -> Option<PV<W>> { if r is Some { Some(r->0.pv()) } else { None } }
//@type fst_traits/paths_iterator.rs :: struct PathsIterator
//@tsub `F : 'a + Fst < W >` => `F : CoreFst < W >`
impl<'a, W: Semiring, F: CoreFst<W>> PathsIterator<'a, W, F> {
    pub open spec fn q(&self) -> Seq<It<W>> { items(self.queue@) }
    pub open spec fn ok(&self) -> bool { self.fst.inv() && self.fst.v().wf() && q_ok(self.fst.v(), self.q()) }
//@fn fst_traits/paths_iterator.rs :: PathsIterator :: new
    requires fst.inv(), fst.v().wf(),
    ensures r.ok(), *r.fst == *fst, r.q() == q_start(fst.v()),
@tail
proof { assert(r__.q() =~= q_start(fst.v())); }
//@end
//@fn fst_traits/paths_iterator.rs :: Iterator for PathsIterator :: next nodecreases
    requires old(self).ok(),
    ensures final(self).ok(), final(self).fst == old(self).fst, exists|k: nat| #[trigger] nexts(old(self).fst.v(), old(self).q(), final(self).q(), opv(r), k),
@sub `Option < Self :: Item >` => `Option < FstPath < W > >`
@start
let ghost v = self.fst.v(); let ghost q0 = self.q(); let ghost mut k: nat = 0; let ghost f0 = self.fst;
@loop 0
    invariant self.fst == f0, v == f0.v(), f0 == old(self).fst, q0 == old(self).q(), self.fst.inv(), v.wf(), q_ok(v, self.q()), self.q() == after(v, q0, k), skips(v, q0, k),
    ensures self.q().len() == 0,
@loop_start 0
let ghost q1 = self.q(); let ghost d1 = self.queue@;
proof { assert(q1[0] == It { s: d1[0].0, p: d1[0].1.pv() }); assert(q1[0].s < v.n()); }
@before_loop 1
let ghost p0 = path.pv(); let ghost ts = v.trs[state_id as int]; let ghost x0 = q1[0];
proof { assert(self.q() =~= q1.drop_first()); assert(it_all(x0, ts.take(0)) =~= Seq::<It<W>>::empty()); assert(self.q() =~= q1.drop_first() + it_all(x0, ts.take(0))); }
@loop 1 it=jt
    invariant self.fst == f0, x0 == (It { s: state_id, p: p0 }), path.pv() == p0, state_id < v.n(), v.wf(), ts == v.trs[state_id as int], jt.seq().len() == ts.len(), forall|j: int| 0 <= j < ts.len() ==> *(#[trigger] jt.seq()[j]) == ts[j], self.q() == q1.drop_first() + it_all(x0, ts.take(jt.index@ as int)), q_ok(v, self.q()),
@loop_start 1
let ghost jj = jt.index@ as int; let ghost q2 = self.q();
@loop_end 1
proof { assert(*tr == ts[jj]); assert(it_all(x0, ts.take(jj + 1)) =~= it_all(x0, ts.take(jj)).push(it_ext(x0, ts[jj]))); assert(self.q() =~= q2.push(it_ext(x0, ts[jj]))); assert(self.q() =~= q1.drop_first() + it_all(x0, ts.take(jj + 1))); }
@after_loop 1
proof { assert(ts.take(ts.len() as int) =~= ts); assert(self.q() == after(v, q0, k + 1)); if v.fin[state_id as int] is Some { assert(nexts(v, q0, self.q(), Some(p0.end(v.fin[state_id as int]->0)), k)); } }
@before `return Some ( path ) ;`
proof { assert(opv(Some(path)) == Some(p0.end(v.fin[state_id as int]->0))); assert(nexts(v, q0, self.q(), opv(Some(path)), k)); }
@loop_end 0
proof { k = k + 1; }
@tail
proof { assert(nexts(v, q0, self.q(), None, k)); }
//@end
}

// ---- the enumeration from the start reaches every path of the machine, and only those
// a path from s, given by the number of the transition taken at each state
pub open spec fn it_of<W: Semiring>(v: FstV<W>, s: StateId, c: Seq<int>) -> It<W> decreases c.len() { if c.len() == 0 { It { s, p: PV::empty() } } else { let x = it_of(v, s, c.drop_last()); it_ext(x, v.trs[x.s as int][c.last()]) } }
pub open spec fn is_path<W: Semiring>(v: FstV<W>, s: StateId, c: Seq<int>) -> bool decreases c.len() { c.len() == 0 || (is_path(v, s, c.drop_last()) && 0 <= c.last() < v.trs[it_of(v, s, c.drop_last()).s as int].len()) }
pub proof fn after_add<W: Semiring>(v: FstV<W>, q: Seq<It<W>>, a: nat, b: nat) ensures after(v, after(v, q, a), b) == after(v, q, a + b) decreases b { if b > 0 { after_add(v, q, a, (b - 1) as nat); } }
// the item at place j comes first after j steps
pub proof fn comes<W: Semiring>(v: FstV<W>, q: Seq<It<W>>, j: nat) requires j < q.len() ensures after(v, q, j).len() > 0, after(v, q, j)[0] == q[j as int] decreases j
{
    if j > 0 { let q1 = step(v, q); assert(q1[j - 1] == q[j as int]); comes(v, q1, (j - 1) as nat); assert(after(v, q, 1) == q1) by { assert(after(v, q, 0) == q); } after_add(v, q, 1, (j - 1) as nat); }
}
// complete: every path from the start is taken out at some step
pub proof fn complete<W: Semiring>(v: FstV<W>, c: Seq<int>) -> (k: nat)
    requires v.start is Some, is_path(v, v.start->0, c)
    ensures after(v, q_start(v), k).len() > 0, after(v, q_start(v), k)[0] == it_of(v, v.start->0, c)
    decreases c.len()
{
    let q = q_start(v);
    if c.len() == 0 { 0 } else {
        let k = complete(v, c.drop_last()); let m = after(v, q, k); let x = m[0]; let t = v.trs[x.s as int];
        let m1 = step(v, m); let j = (m.len() - 1 + c.last()) as nat;
        assert(m1[j as int] == it_ext(x, t[c.last()])); assert(after(v, q, k + 1) == m1);
        comes(v, m1, j); after_add(v, q, k + 1, j); k + 1 + j
    }
}
// sound: whatever waits in the queue is a path from the start
pub open spec fn from_start<W: Semiring>(v: FstV<W>, x: It<W>) -> bool { exists|c: Seq<int>| #[trigger] is_path(v, v.start->0, c) && x == it_of(v, v.start->0, c) }
pub proof fn only_paths<W: Semiring>(v: FstV<W>, k: nat) requires v.start is Some ensures forall|j: int| 0 <= j < after(v, q_start(v), k).len() ==> from_start(v, #[trigger] after(v, q_start(v), k)[j]) decreases k
{
    let q = q_start(v); let m1 = after(v, q, k);
    if k == 0 { assert(is_path(v, v.start->0, Seq::<int>::empty())); assert(m1[0] == it_of(v, v.start->0, Seq::<int>::empty())); }
    else {
        only_paths(v, (k - 1) as nat); let m = after(v, q, (k - 1) as nat);
        if m.len() > 0 {
            assert forall|j: int| 0 <= j < m1.len() implies from_start(v, #[trigger] m1[j]) by {
                if j < m.len() - 1 { assert(m1[j] == m[j + 1]); } else {
                    let x = m[0]; assert(from_start(v, x)); let c = choose|c: Seq<int>| #[trigger] is_path(v, v.start->0, c) && x == it_of(v, v.start->0, c);
                    let d = c.push(j - (m.len() - 1)); assert(d.drop_last() =~= c); assert(is_path(v, v.start->0, d)); assert(m1[j] == it_of(v, v.start->0, d));
                }
            }
        }
    }
}

// ---- is the path one of the machine's?
//@type fst_path.rs :: struct BfsState
pub open spec fn accepts<W: Semiring>(v: FstV<W>, g: PV<W>, c: Seq<int>) -> bool { let x = it_of(v, v.start->0, c); is_path(v, v.start->0, c) && v.fin[x.s as int] is Some && x.p.end(v.fin[x.s as int]->0) == g }
// the search node is the item x, its labels being the first of those looked for
pub open spec fn at<W: Semiring>(b: BfsState<W>, x: It<W>, g: PV<W>) -> bool { b.state == x.s && b.weight_curr == x.p.w && b.next_ilabel_idx <= g.i.len() && b.next_olabel_idx <= g.o.len() && x.p.i == g.i.take(b.next_ilabel_idx as int) && x.p.o == g.o.take(b.next_olabel_idx as int) }
pub open spec fn atc<W: Semiring>(v: FstV<W>, b: BfsState<W>, c: Seq<int>, g: PV<W>) -> bool { is_path(v, v.start->0, c) && at(b, it_of(v, v.start->0, c), g) }
pub open spec fn real<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>) -> bool { exists|c: Seq<int>| #[trigger] atc(v, b, c, g) }
pub open spec fn reals<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>) -> bool { forall|j: int| 0 <= j < q.len() ==> real(v, #[trigger] q[j], g) }
pub open spec fn wait1<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, c: Seq<int>, k: int, j: int) -> bool { 0 <= k <= c.len() && 0 <= j < q.len() && atc(v, q[j], c.take(k), g) }
pub open spec fn waits<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, c: Seq<int>) -> bool { exists|k: int, j: int| #[trigger] wait1(v, q, g, c, k, j) }
pub open spec fn pend1<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>, c: Seq<int>, k: int, m: int) -> bool { 0 <= k < c.len() && atc(v, b, c.take(k), g) && c[k] >= m }
pub open spec fn pends<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>, c: Seq<int>, m: int) -> bool { exists|k: int| #[trigger] pend1(v, b, g, c, k, m) }
pub proof fn prefix<W: Semiring>(v: FstV<W>, s: StateId, c: Seq<int>, k: int) requires is_path(v, s, c), 0 <= k <= c.len()
    ensures is_path(v, s, c.take(k)), it_of(v, s, c.take(k)).p.i.len() <= it_of(v, s, c).p.i.len(), it_of(v, s, c.take(k)).p.o.len() <= it_of(v, s, c).p.o.len(),
        it_of(v, s, c).p.i.take(it_of(v, s, c.take(k)).p.i.len() as int) == it_of(v, s, c.take(k)).p.i, it_of(v, s, c).p.o.take(it_of(v, s, c.take(k)).p.o.len() as int) == it_of(v, s, c.take(k)).p.o,
        k < c.len() ==> 0 <= c[k] < v.trs[it_of(v, s, c.take(k)).s as int].len() && it_of(v, s, c.take(k + 1)) == it_ext(it_of(v, s, c.take(k)), v.trs[it_of(v, s, c.take(k)).s as int][c[k]]),
    decreases c.len()
{
    if k == c.len() { assert(c.take(k) =~= c); assert(it_of(v, s, c).p.i.take(it_of(v, s, c).p.i.len() as int) =~= it_of(v, s, c).p.i); assert(it_of(v, s, c).p.o.take(it_of(v, s, c).p.o.len() as int) =~= it_of(v, s, c).p.o); }
    else {
        let d = c.drop_last(); prefix(v, s, d, k); assert(d.take(k) =~= c.take(k));
        assert(it_of(v, s, c).p.i.take(it_of(v, s, c.take(k)).p.i.len() as int) =~= it_of(v, s, c.take(k)).p.i) by { let a = it_of(v, s, d).p.i; assert(a.take(it_of(v, s, c.take(k)).p.i.len() as int) == it_of(v, s, c.take(k)).p.i); }
        assert(it_of(v, s, c).p.o.take(it_of(v, s, c.take(k)).p.o.len() as int) =~= it_of(v, s, c.take(k)).p.o) by { let a = it_of(v, s, d).p.o; assert(a.take(it_of(v, s, c.take(k)).p.o.len() as int) == it_of(v, s, c.take(k)).p.o); }
        if k + 1 < c.len() { assert(d.take(k + 1) =~= c.take(k + 1)); assert(d[k] == c[k]); } else { assert(c.take(k + 1) =~= c); assert(c.take(k) =~= d); }
    }
}
pub open spec fn fits<W: Semiring>(b: BfsState<W>, t: Tr<W>, g: PV<W>) -> bool {
    (t.ilabel == EPS_LABEL || (b.next_ilabel_idx < g.i.len() && g.i[b.next_ilabel_idx as int] == t.ilabel)) && (t.olabel == EPS_LABEL || (b.next_olabel_idx < g.o.len() && g.o[b.next_olabel_idx as int] == t.olabel))
}
pub open spec fn bumped<W: Semiring>(b: BfsState<W>, t: Tr<W>, n: BfsState<W>) -> bool {
    n.state == t.nextstate && n.weight_curr == b.weight_curr.stimes(t.weight) && n.next_ilabel_idx == b.next_ilabel_idx + (if t.ilabel == EPS_LABEL { 0int } else { 1int }) && n.next_olabel_idx == b.next_olabel_idx + (if t.olabel == EPS_LABEL { 0int } else { 1int })
}
pub proof fn take_push(s: Seq<Label>, n: int) requires 0 <= n < s.len() ensures s.take(n + 1) == s.take(n).push(s[n]) { assert(s.take(n + 1) =~= s.take(n).push(s[n])); }
pub proof fn at_ext<W: Semiring>(b: BfsState<W>, x: It<W>, g: PV<W>, t: Tr<W>, n: BfsState<W>) requires at(b, x, g), fits(b, t, g), bumped(b, t, n) ensures at(n, it_ext(x, t), g)
{
    if t.ilabel != EPS_LABEL { take_push(g.i, b.next_ilabel_idx as int); }
    if t.olabel != EPS_LABEL { take_push(g.o, b.next_olabel_idx as int); }
}
// a path looked for that goes on from b by transition m is followed only if that transition fits
pub proof fn must_fit<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>, c: Seq<int>, k: int) requires accepts(v, g, c), 0 <= k < c.len(), atc(v, b, c.take(k), g)
    ensures 0 <= c[k] < v.trs[b.state as int].len(), fits(b, v.trs[b.state as int][c[k]], g)
{
    let s = v.start->0; let x = it_of(v, s, c.take(k)); let t = v.trs[x.s as int][c[k]];
    prefix(v, s, c, k); prefix(v, s, c, k + 1); let y = it_of(v, s, c.take(k + 1)); assert(y == it_ext(x, t));
    let e = it_of(v, s, c); assert(e.p.i == g.i && e.p.o == g.o);
    if t.ilabel != EPS_LABEL { assert(y.p.i == x.p.i.push(t.ilabel)); assert(g.i.take(y.p.i.len() as int)[x.p.i.len() as int] == t.ilabel); }
    if t.olabel != EPS_LABEL { assert(y.p.o == x.p.o.push(t.olabel)); assert(g.o.take(y.p.o.len() as int)[x.p.o.len() as int] == t.olabel); }
}
pub open spec fn live<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>) -> bool { forall|c: Seq<int>| #[trigger] accepts(v, g, c) ==> waits(v, q, g, c) }
pub open spec fn liveb<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, b: BfsState<W>, m: int) -> bool { forall|c: Seq<int>| #[trigger] accepts(v, g, c) ==> waits(v, q, g, c) || pends(v, b, g, c, m) }
pub proof fn start_live<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>) requires v.wf(), v.start is Some, b.state == v.start->0, b.weight_curr == W::sone(), b.next_ilabel_idx == 0, b.next_olabel_idx == 0
    ensures live(v, seq![b], g), reals(v, seq![b], g)
{
    let e = Seq::<int>::empty(); assert(g.i.take(0) =~= Seq::<Label>::empty()); assert(g.o.take(0) =~= Seq::<Label>::empty()); assert(atc(v, b, e, g));
    assert forall|c: Seq<int>| #[trigger] accepts(v, g, c) implies waits(v, seq![b], g, c) by { assert(c.take(0) =~= e); assert(wait1(v, seq![b], g, c, 0, 0)); }
}
pub proof fn real_lt<W: Semiring>(v: FstV<W>, b: BfsState<W>, g: PV<W>) requires v.wf(), v.start is Some, real(v, b, g) ensures b.state < v.n(), b.next_ilabel_idx <= g.i.len(), b.next_olabel_idx <= g.o.len()
{ let c = choose|c: Seq<int>| #[trigger] atc(v, b, c, g); path_lt(v, c); }
pub proof fn path_lt<W: Semiring>(v: FstV<W>, c: Seq<int>) requires v.wf(), v.start is Some, is_path(v, v.start->0, c) ensures it_of(v, v.start->0, c).s < v.n() decreases c.len() { if c.len() > 0 { path_lt(v, c.drop_last()); } }
// taking out the first node: it is either the end of a path looked for, or that path goes on from it
pub proof fn pop_live<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>) requires q.len() > 0, live(v, q, g), reals(v, q, g)
    ensures reals(v, q.drop_first(), g),
        !(v.fin[q[0].state as int] is Some && q[0].next_ilabel_idx == g.i.len() && q[0].next_olabel_idx == g.o.len() && q[0].weight_curr.stimes(v.fin[q[0].state as int]->0) == g.w) ==> liveb(v, q.drop_first(), g, q[0], 0),
        (v.fin[q[0].state as int] is Some && q[0].next_ilabel_idx == g.i.len() && q[0].next_olabel_idx == g.o.len() && q[0].weight_curr.stimes(v.fin[q[0].state as int]->0) == g.w) ==> exists|c: Seq<int>| #[trigger] accepts(v, g, c),
{
    let b = q[0]; let r = q.drop_first();
    assert forall|j: int| 0 <= j < r.len() implies real(v, #[trigger] r[j], g) by { assert(r[j] == q[j + 1]); }
    let yes = v.fin[b.state as int] is Some && b.next_ilabel_idx == g.i.len() && b.next_olabel_idx == g.o.len() && b.weight_curr.stimes(v.fin[b.state as int]->0) == g.w;
    if yes { let c = choose|c: Seq<int>| #[trigger] atc(v, b, c, g); assert(g.i.take(g.i.len() as int) =~= g.i); assert(g.o.take(g.o.len() as int) =~= g.o); assert(accepts(v, g, c)); }
    else {
        assert forall|c: Seq<int>| #[trigger] accepts(v, g, c) implies waits(v, r, g, c) || pends(v, b, g, c, 0) by {
            assert(waits(v, q, g, c)); let (k, j) = choose|k: int, j: int| #[trigger] wait1(v, q, g, c, k, j);
            if j > 0 { assert(r[j - 1] == q[j]); assert(wait1(v, r, g, c, k, j - 1)); }
            else if k < c.len() { must_fit(v, b, g, c, k); assert(pend1(v, b, g, c, k, 0)); }
            else { assert(c.take(k) =~= c); let x = it_of(v, v.start->0, c); assert(at(b, x, g)); assert(x.p.i == g.i); assert(g.i.take(b.next_ilabel_idx as int).len() == b.next_ilabel_idx); assert(g.o.take(b.next_olabel_idx as int).len() == b.next_olabel_idx); }
        }
    }
}
pub proof fn push_live<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, b: BfsState<W>, m: int, n: BfsState<W>)
    requires v.wf(), v.start is Some, real(v, b, g), liveb(v, q, g, b, m), reals(v, q, g), 0 <= m < v.trs[b.state as int].len(), fits(b, v.trs[b.state as int][m], g), bumped(b, v.trs[b.state as int][m], n)
    ensures reals(v, q.push(n), g), liveb(v, q.push(n), g, b, m + 1)
{
    let s = v.start->0; let t = v.trs[b.state as int][m]; let r = q.push(n);
    let c0 = choose|c: Seq<int>| #[trigger] atc(v, b, c, g); let d = c0.push(m); assert(d.drop_last() =~= c0); at_ext(b, it_of(v, s, c0), g, t, n); assert(atc(v, n, d, g));
    assert forall|j: int| 0 <= j < r.len() implies real(v, #[trigger] r[j], g) by { if j < q.len() { assert(r[j] == q[j]); } }
    assert forall|c: Seq<int>| #[trigger] accepts(v, g, c) implies waits(v, r, g, c) || pends(v, b, g, c, m + 1) by {
        if waits(v, q, g, c) { let (k, j) = choose|k: int, j: int| #[trigger] wait1(v, q, g, c, k, j); assert(r[j] == q[j]); assert(wait1(v, r, g, c, k, j)); }
        else {
            let k = choose|k: int| #[trigger] pend1(v, b, g, c, k, m);
            if c[k] == m { prefix(v, s, c, k); prefix(v, s, c, k + 1); at_ext(b, it_of(v, s, c.take(k)), g, t, n); assert(r[q.len() as int] == n); assert(wait1(v, r, g, c, k + 1, q.len() as int)); } else { assert(pend1(v, b, g, c, k, m + 1)); }
        }
    }
}
pub proof fn skip_live<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, b: BfsState<W>, m: int)
    requires liveb(v, q, g, b, m), 0 <= m < v.trs[b.state as int].len(), !fits(b, v.trs[b.state as int][m], g)
    ensures liveb(v, q, g, b, m + 1)
{
    assert forall|c: Seq<int>| #[trigger] accepts(v, g, c) implies waits(v, q, g, c) || pends(v, b, g, c, m + 1) by {
        if !waits(v, q, g, c) { let k = choose|k: int| #[trigger] pend1(v, b, g, c, k, m); must_fit(v, b, g, c, k); assert(pend1(v, b, g, c, k, m + 1)); }
    }
}
pub proof fn end_live<W: Semiring>(v: FstV<W>, q: Seq<BfsState<W>>, g: PV<W>, b: BfsState<W>, m: int) requires liveb(v, q, g, b, m), m >= v.trs[b.state as int].len() ensures live(v, q, g)
{ assert forall|c: Seq<int>| #[trigger] accepts(v, g, c) implies waits(v, q, g, c) by { if pends(v, b, g, c, m) { let k = choose|k: int| #[trigger] pend1(v, b, g, c, k, m); must_fit(v, b, g, c, k); } } }
#[verifier::external_body]
pub fn same_w<W>(a: &W, b: &W) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
//@fn fst_path.rs :: check_path_in_fst nodecreases
    requires fst.inv(), fst.v().wf(), fst.v().start is Some, fst_path.ilabels@.len() < u32::MAX, fst_path.olabels@.len() < u32::MAX,
    ensures r <==> exists|c: Seq<int>| #[trigger] accepts(fst.v(), fst_path.pv(), c),
@sub `F : Fst < W >` => `F : CoreFst < W >`
@sub `weight_curr . times ( final_weight ) . unwrap ( ) == fst_path . weight` => `same_w ( & weight_curr . times ( & final_weight ) . unwrap ( ) , & fst_path . weight )`
@start
let ghost v = fst.v(); let ghost g = fst_path.pv();
@before_loop 0
proof { start_live(v, queue@[0], g); assert(queue@ =~= seq![queue@[0]]); }
@loop 0
    invariant v == fst.v(), g == fst_path.pv(), fst.inv(), v.wf(), v.start is Some, g.i.len() < u32::MAX, g.o.len() < u32::MAX, reals(v, queue@, g), live(v, queue@, g),
@loop_start 0
let ghost q0 = queue@; let ghost b = q0[0];
proof { real_lt(v, b, g); pop_live(v, q0, g); }
@before_loop 1
let ghost ts = v.trs[state as int];
@loop 1
    invariant v == fst.v(), g == fst_path.pv(), v.wf(), v.start is Some, b.state == state, b.state < v.n(), b.weight_curr == weight_curr, next_ilabel_idx == b.next_ilabel_idx, next_olabel_idx == b.next_olabel_idx, next_ilabel_idx <= g.i.len(), next_olabel_idx <= g.o.len(), g.i.len() < u32::MAX, g.o.len() < u32::MAX, ts == v.trs[state as int], g_trs.tv() == ts, nx_tr <= ts.len(), real(v, b, g), reals(v, queue@, g), liveb(v, queue@, g, b, nx_tr as int),
@loop_start 1
let ghost m = nx_tr as int; let ghost q2 = queue@;
proof { if !fits(b, ts[m], g) { skip_live(v, q2, g, b, m); } }
@loop_end 1
proof { push_live(v, q2, g, b, m, queue@[q2.len() as int]); assert(queue@ =~= q2.push(queue@[q2.len() as int])); }
@after_loop 1
proof { end_live(v, queue@, g, b, ts.len() as int); }
@after_loop 0
proof { assert forall|c: Seq<int>| !(#[trigger] accepts(v, g, c)) by { if accepts(v, g, c) { assert(waits(v, queue@, g, c)); } } }
//@end
pub open spec fn two<W: Semiring>(v: FstV<W>, q1: Seq<It<W>>, q2: Seq<It<W>>, r1: Option<PV<W>>, r2: Option<PV<W>>, k1: nat, k2: nat) -> bool { nexts(v, q_start(v), q1, r1, k1) && nexts(v, q1, q2, r2, k2) }
//@fn utils/fst_to_labels.rs :: decode_linear_fst
    requires fst.inv(), fst.v().wf(),
    ensures exists|q1: Seq<It<W>>, q2: Seq<It<W>>, r1: Option<PV<W>>, r2: Option<PV<W>>, k1: nat, k2: nat| #[trigger] two(fst.v(), q1, q2, r1, r2, k1, k2) && (r is Err <==> r2 is Some) && (r is Ok ==> r->Ok_0.pv() == (if r1 is Some { r1->0 } else { PV::empty() })),
@sub `F : Fst < W >` => `F : CoreFst < W >`
@sub `fst . paths_iter ( )` => `PathsIterator :: new ( fst )`
@sub `let path = it_path . next ( ) . unwrap_or_default ( ) ;` => `let first = it_path . next ( ) ; let path = if let Some ( p ) = first { p } else { FstPath :: default ( ) } ;`
@sub `if it_path . next ( ) . is_some ( )` => `let second = it_path . next ( ) ; if second . is_some ( )`
@before `let second`
let ghost q0 = it_path.q();
@before `if second`
let ghost q2 = it_path.q();
proof { let v = fst.v(); let k1 = choose|k: nat| nexts(v, q_start(v), q0, opv(first), k); let k2 = choose|k: nat| nexts(v, q0, q2, opv(second), k); assert(two(v, q0, q2, opv(first), opv(second), k1, k2)); }
//@end
}
