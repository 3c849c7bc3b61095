//@use fst
//@use queue
verus! {
// ---- C11: the generic single source shortest distance
pub trait Approx: Semiring {
    spec fn near(self, b: Self, delta: f32) -> bool;
    fn approx_equal(&self, rhs: Self, delta: f32) -> (r: bool) ensures r == self.near(rhs, delta);
    fn right_distributive() -> (r: bool);
    fn path_property() -> (r: bool);
}
pub trait TrFilter<W: Semiring>: Sized {
    spec fn kp(&self, t: Tr<W>) -> bool;
    fn keep(&self, tr: &Tr<W>) -> (r: bool) ensures r == self.kp(*tr);
}
//@type algorithms/tr_filters.rs :: struct AnyTrFilter
impl<S: Semiring> TrFilter<S> for AnyTrFilter {
    open spec fn kp(&self, t: Tr<S>) -> bool { true }
//@fn algorithms/tr_filters.rs :: TrFilter for AnyTrFilter :: keep nopub
//@end
}
// a right semiring, and no two different weights taken for equal
#[verifier::opaque]
pub open spec fn rs_laws<W: Semiring>() -> bool {
    &&& forall|a: W, b: W| #[trigger] a.splus(b) == b.splus(a)
    &&& forall|a: W, b: W, c: W| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c))
    &&& forall|a: W| #[trigger] a.splus(W::szero()) == a
    &&& forall|a: W, b: W, c: W| #[trigger] a.splus(b).stimes(c) == a.stimes(c).splus(b.stimes(c))
    &&& forall|a: W| #[trigger] W::szero().stimes(a) == W::szero()
    &&& forall|a: W, b: W, c: W| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c))
}
pub proof fn ac<W: Semiring>(a: W, b: W, c: W) requires rs_laws::<W>() ensures a.splus(b) == b.splus(a), a.splus(c) == c.splus(a), b.splus(c) == c.splus(b), a.splus(b).splus(c) == a.splus(b.splus(c)), a.splus(b).splus(c) == a.splus(c).splus(b), a.splus(c).splus(b) == a.splus(b.splus(c))
{ reveal(rs_laws); assert(a.splus(c).splus(b) == a.splus(c.splus(b))); }
pub proof fn zr<W: Semiring>(a: W) requires rs_laws::<W>() ensures a.splus(W::szero()) == a, W::szero().splus(a) == a, W::szero().stimes(a) == W::szero() { reveal(rs_laws); assert(W::szero().splus(a) == a.splus(W::szero())); }
pub proof fn ds<W: Semiring>(a: W, b: W, c: W) requires rs_laws::<W>() ensures a.splus(b).stimes(c) == a.stimes(c).splus(b.stimes(c)) { reveal(rs_laws); }
#[verifier::opaque]
pub open spec fn exact<W: Approx>(delta: f32) -> bool { forall|a: W, b: W| #[trigger] a.near(b, delta) ==> a == b }
pub proof fn ex<W: Approx>(a: W, b: W, delta: f32) requires exact::<W>(delta) ensures a.near(b, delta) ==> a == b { reveal(exact); }
// what the transitions ts[..j] bring to t when x is at their state
pub open spec fn row<W: Semiring, A: TrFilter<W>>(f: A, ts: Seq<Tr<W>>, x: W, t: int, j: int) -> W decreases j {
    if j <= 0 { W::szero() } else { let p = row(f, ts, x, t, j - 1); let y = ts[j - 1]; if f.kp(y) && y.nextstate == t { p.splus(x.stimes(y.weight)) } else { p } }
}
// what the states ..m bring to t when d is at the states
pub open spec fn total<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, t: int, m: int) -> W decreases m {
    if m <= 0 { W::szero() } else { total(f, v, d, t, m - 1).splus(row(f, v.trs[m - 1], d[m - 1], t, v.trs[m - 1].len() as int)) }
}
pub open spec fn at<W: Semiring>(source: int, t: int) -> W { if t == source { W::sone() } else { W::szero() } }
// d solves the equations of the shortest distance from source
pub open spec fn solves<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, d: Seq<W>) -> bool {
    d.len() == v.n() && forall|t: int| 0 <= t < v.n() ==> #[trigger] d[t] == at::<W>(source, t).splus(total(f, v, d, t, v.n() as int))
}
pub proof fn row_add<W: Semiring, A: TrFilter<W>>(f: A, ts: Seq<Tr<W>>, x: W, r: W, t: int, j: int) requires rs_laws::<W>() ensures row(f, ts, x.splus(r), t, j) == row(f, ts, x, t, j).splus(row(f, ts, r, t, j)) decreases j
{
    zr(W::szero());
    if j > 0 { row_add(f, ts, x, r, t, j - 1); let y = ts[j - 1];
        let a = row(f, ts, x, t, j - 1); let b = row(f, ts, r, t, j - 1); let c = x.stimes(y.weight); let d = r.stimes(y.weight);
        ds(x, r, y.weight); ac(a, b, c.splus(d)); ac(b, c, d); ac(c, b, d); ac(a, c, b.splus(d));
    }
}
pub proof fn row_zero<W: Semiring, A: TrFilter<W>>(f: A, ts: Seq<Tr<W>>, t: int, j: int) requires rs_laws::<W>() ensures row(f, ts, W::szero(), t, j) == W::szero() decreases j
{ if j > 0 { row_zero(f, ts, t, j - 1); zr(ts[j - 1].weight); zr(W::szero()); } }
pub proof fn total_zero<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, t: int, m: int) requires rs_laws::<W>(), m <= d.len(), forall|s: int| 0 <= s < d.len() ==> #[trigger] d[s] == W::szero() ensures total(f, v, d, t, m) == W::szero() decreases m
{ if m > 0 { total_zero(f, v, d, t, m - 1); row_zero(f, v.trs[m - 1], t, v.trs[m - 1].len() as int); zr(W::szero()); assert(d[m - 1] == W::szero()); } }
pub proof fn total_same<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, e: Seq<W>, t: int, m: int) requires m <= d.len(), m <= e.len(), forall|s: int| 0 <= s < m ==> #[trigger] d[s] == e[s] ensures total(f, v, d, t, m) == total(f, v, e, t, m) decreases m
{ if m > 0 { total_same(f, v, d, e, t, m - 1); assert(d[m - 1] == e[m - 1]); } }
pub proof fn total_upd<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, s: int, r: W, t: int, m: int) requires rs_laws::<W>(), 0 <= s < m <= d.len()
    ensures total(f, v, d.update(s, d[s].splus(r)), t, m) == total(f, v, d, t, m).splus(row(f, v.trs[s], r, t, v.trs[s].len() as int)) decreases m
{
    let e = d.update(s, d[s].splus(r)); let len = v.trs[s].len() as int;
    if s == m - 1 { total_same(f, v, d, e, t, m - 1); row_add(f, v.trs[s], d[s], r, t, len); ac(total(f, v, d, t, m - 1), row(f, v.trs[s], d[s], t, len), row(f, v.trs[s], r, t, len)); }
    else { total_upd(f, v, d, s, r, t, m - 1); assert(e[m - 1] == d[m - 1]); ac(total(f, v, d, t, m - 1), row(f, v.trs[s], r, t, len), row(f, v.trs[m - 1], d[m - 1], t, v.trs[m - 1].len() as int)); }
}
// ---- finite sums of path weights
pub struct Step { pub s: int, pub k: int }
pub open spec fn swalk<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, p: Seq<Step>, t: int) -> bool decreases p.len() {
    if p.len() == 0 { t == source } else { let z = p.last(); 0 <= z.s < v.n() && 0 <= z.k < v.trs[z.s].len() && f.kp(v.trs[z.s][z.k]) && v.trs[z.s][z.k].nextstate == t && swalk(f, v, source, p.drop_last(), z.s) }
}
pub open spec fn ww<W: Semiring>(v: FstV<W>, p: Seq<Step>) -> W decreases p.len() { if p.len() == 0 { W::sone() } else { ww(v, p.drop_last()).stimes(v.trs[p.last().s][p.last().k].weight) } }
pub open spec fn wsum<W: Semiring>(v: FstV<W>, ps: Seq<Seq<Step>>) -> W decreases ps.len() { if ps.len() == 0 { W::szero() } else { wsum(v, ps.drop_last()).splus(ww(v, ps.last())) } }
pub open spec fn walks<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, t: int, ps: Seq<Seq<Step>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> swalk(f, v, source, #[trigger] ps[i], t) }
// x is a finite sum of weights of paths from source to t
pub open spec fn is_sum<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, t: int, x: W) -> bool { exists|ps: Seq<Seq<Step>>| #[trigger] walks(f, v, source, t, ps) && wsum(v, ps) == x }
pub proof fn sum_zero<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, t: int) ensures is_sum(f, v, source, t, W::szero()) { let e = Seq::<Seq<Step>>::empty(); assert(walks(f, v, source, t, e) && wsum(v, e) == W::szero()); }
pub proof fn sum_one<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int) requires rs_laws::<W>() ensures is_sum(f, v, source, source, W::sone()) {
    let p = Seq::<Step>::empty(); let e = Seq::<Seq<Step>>::empty().push(p); assert(e.drop_last() =~= Seq::empty()); assert(swalk(f, v, source, p, source)); assert(walks(f, v, source, source, e)); assert(ww(v, p) == W::sone());
    assert(wsum(v, e.drop_last()) == W::szero()); zr(W::sone()); assert(wsum(v, e) == W::sone());
}
pub proof fn wsum_cat<W: Semiring>(v: FstV<W>, a: Seq<Seq<Step>>, b: Seq<Seq<Step>>) requires rs_laws::<W>() ensures wsum(v, a + b) == wsum(v, a).splus(wsum(v, b)) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); zr(wsum(v, a)); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); wsum_cat(v, a, b.drop_last()); ac(wsum(v, a), wsum(v, b.drop_last()), ww(v, b.last())); } }
pub proof fn sum_add<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, t: int, x: W, y: W) requires rs_laws::<W>(), is_sum(f, v, source, t, x), is_sum(f, v, source, t, y) ensures is_sum(f, v, source, t, x.splus(y))
{
    let a = choose|ps: Seq<Seq<Step>>| #[trigger] walks(f, v, source, t, ps) && wsum(v, ps) == x; let b = choose|ps: Seq<Seq<Step>>| #[trigger] walks(f, v, source, t, ps) && wsum(v, ps) == y;
    wsum_cat(v, a, b); let c = a + b;
    assert forall|i: int| 0 <= i < c.len() implies swalk(f, v, source, #[trigger] c[i], t) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
    assert(walks(f, v, source, t, c));
}
pub open spec fn ext(ps: Seq<Seq<Step>>, z: Step) -> Seq<Seq<Step>> { Seq::new(ps.len(), |i: int| ps[i].push(z)) }
pub proof fn wsum_ext<W: Semiring>(v: FstV<W>, ps: Seq<Seq<Step>>, z: Step) requires rs_laws::<W>() ensures wsum(v, ext(ps, z)) == wsum(v, ps).stimes(v.trs[z.s][z.k].weight) decreases ps.len()
{ let w = v.trs[z.s][z.k].weight; if ps.len() > 0 { assert(ext(ps, z).drop_last() =~= ext(ps.drop_last(), z)); wsum_ext(v, ps.drop_last(), z); assert(ext(ps, z).last() == ps.last().push(z)); assert(ps.last().push(z).drop_last() =~= ps.last()); ds(wsum(v, ps.drop_last()), ww(v, ps.last()), w); } else { zr(w); } }
pub proof fn sum_ext<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, s: int, k: int, x: W) requires rs_laws::<W>(), 0 <= s < v.n(), 0 <= k < v.trs[s].len(), f.kp(v.trs[s][k]), is_sum(f, v, source, s, x)
    ensures is_sum(f, v, source, v.trs[s][k].nextstate as int, x.stimes(v.trs[s][k].weight))
{
    let a = choose|ps: Seq<Seq<Step>>| #[trigger] walks(f, v, source, s, ps) && wsum(v, ps) == x; let z = Step { s, k }; let b = ext(a, z); wsum_ext(v, a, z);
    assert forall|i: int| 0 <= i < b.len() implies swalk(f, v, source, #[trigger] b[i], v.trs[s][k].nextstate as int) by { assert(b[i] == a[i].push(z)); assert(a[i].push(z).drop_last() =~= a[i]); assert(swalk(f, v, source, a[i], s)); }
    assert(walks(f, v, source, v.trs[s][k].nextstate as int, b));
}
// ---- what a solution is worth
pub open spec fn idem<W: Semiring>() -> bool { forall|a: W| #[trigger] a.splus(a) == a }
pub proof fn row_has<W: Semiring, A: TrFilter<W>>(f: A, ts: Seq<Tr<W>>, x: W, t: int, j: int, k: int) requires rs_laws::<W>(), idem::<W>(), 0 <= k < j, f.kp(ts[k]), ts[k].nextstate == t
    ensures row(f, ts, x, t, j).splus(x.stimes(ts[k].weight)) == row(f, ts, x, t, j) decreases j
{
    let y = x.stimes(ts[k].weight); let p = row(f, ts, x, t, j - 1); let z = x.stimes(ts[j - 1].weight);
    if k == j - 1 { ac(p, y, y); assert(y.splus(y) == y); }
    else { row_has(f, ts, x, t, j - 1, k); ac(p, z, y); }
}
pub proof fn total_has<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, t: int, m: int, s: int, k: int) requires rs_laws::<W>(), idem::<W>(), 0 <= s < m, 0 <= k < v.trs[s].len(), f.kp(v.trs[s][k]), v.trs[s][k].nextstate == t
    ensures total(f, v, d, t, m).splus(d[s].stimes(v.trs[s][k].weight)) == total(f, v, d, t, m) decreases m
{
    let y = d[s].stimes(v.trs[s][k].weight); let p = total(f, v, d, t, m - 1); let z = row(f, v.trs[m - 1], d[m - 1], t, v.trs[m - 1].len() as int);
    ac(p, z, y);
    if s == m - 1 { row_has(f, v.trs[s], d[s], t, v.trs[s].len() as int, k); }
    else { total_has(f, v, d, t, m - 1, s, k); }
}
// idempotent: no path is better than the distance
pub proof fn no_better_path<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, d: Seq<W>, p: Seq<Step>, t: int) requires rs_laws::<W>(), idem::<W>(), solves(f, v, source, d), v.wf(), 0 <= source < v.n(), swalk(f, v, source, p, t)
    ensures 0 <= t < v.n(), d[t].splus(ww(v, p)) == d[t] decreases p.len()
{
    let a = at::<W>(source, t); let b = total(f, v, d, t, v.n() as int);
    if p.len() == 0 { assert(d[t] == a.splus(b)); ac(a, b, a); ac(a, a, b); assert(a.splus(a) == a); }
    else {
        let z = p.last(); no_better_path(f, v, source, d, p.drop_last(), z.s); let w = v.trs[z.s][z.k].weight; let q = ww(v, p.drop_last());
        assert(v.trs[z.s][z.k].nextstate < v.n());
        total_has(f, v, d, t, v.n() as int, z.s, z.k);
        let y = d[z.s].stimes(w);
        assert(d[t] == a.splus(b)); ac(a, b, y); assert(d[t].splus(y) == d[t]);
        ds(d[z.s], q, w); ac(d[t], y, q.stimes(w));
    }
}
// acyclic (rank goes up along every transition): the equations have one solution, in any right semiring
pub proof fn row_eq<W: Semiring, A: TrFilter<W>>(f: A, ts: Seq<Tr<W>>, x: W, y: W, t: int, j: int) requires forall|k: int| 0 <= k < j && f.kp(#[trigger] ts[k]) && ts[k].nextstate == t ==> x == y ensures row(f, ts, x, t, j) == row(f, ts, y, t, j) decreases j
{ if j > 0 { row_eq(f, ts, x, y, t, j - 1); let z = ts[j - 1]; } }
pub open spec fn into<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, s: int, t: int) -> bool { exists|k: int| 0 <= k < v.trs[s].len() && f.kp(#[trigger] v.trs[s][k]) && v.trs[s][k].nextstate == t }
pub proof fn total_eq<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, d: Seq<W>, e: Seq<W>, t: int, m: int) requires forall|s: int| 0 <= s < m && #[trigger] into(f, v, s, t) ==> d[s] == e[s] ensures total(f, v, d, t, m) == total(f, v, e, t, m) decreases m
{ if m > 0 { total_eq(f, v, d, e, t, m - 1); assert forall|k: int| 0 <= k < v.trs[m - 1].len() && f.kp(#[trigger] v.trs[m - 1][k]) && v.trs[m - 1][k].nextstate == t implies d[m - 1] == e[m - 1] by { assert(into(f, v, m - 1, t)); } row_eq(f, v.trs[m - 1], d[m - 1], e[m - 1], t, v.trs[m - 1].len() as int); } }
pub open spec fn ranked<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, rank: Seq<nat>) -> bool { rank.len() == v.n() && forall|s: int, t: int| 0 <= s < v.n() && 0 <= t < v.n() && #[trigger] into(f, v, s, t) ==> rank[s] < rank[t] }
pub proof fn one_solution<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, source: int, rank: Seq<nat>, d: Seq<W>, e: Seq<W>, t: int) requires ranked(f, v, rank), solves(f, v, source, d), solves(f, v, source, e), 0 <= t < v.n() ensures d[t] == e[t] decreases rank[t]
{
    assert forall|s: int| 0 <= s < v.n() && #[trigger] into(f, v, s, t) implies d[s] == e[s] by { one_solution(f, v, source, rank, d, e, s); }
    total_eq(f, v, d, e, t, v.n() as int);
}
pub open spec fn want0<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, src: int, dn: Seq<W>, t: int) -> W { at::<W>(src, t).splus(total(f, v, dn, t, v.n() as int)) }
pub open spec fn want1<W: Semiring, A: TrFilter<W>>(f: A, v: FstV<W>, src: int, dn: Seq<W>, ts: Seq<Tr<W>>, r: W, j: int, t: int) -> W { want0(f, v, src, dn, t).splus(row(f, ts, r, t, j)) }
//@type algorithms/shortest_distance.rs :: struct ShortestDistanceInternalConfig
//@tsub `< W : Semiring , Q : Queue , A : TrFilter < W > >` => `< W , Q , A >`
//@tsub `PhantomData` => `std :: marker :: PhantomData`
//@type algorithms/shortest_distance.rs :: struct ShortestDistanceState
//@tsub `< W : Semiring , Q : Queue , A : TrFilter < W > >` => `< W , Q , A >`
pub open spec fn minef(len: nat, sources: Seq<Option<StateId>>, retain: bool, id: usize, t: int) -> bool { 0 <= t < len && (retain ==> t < sources.len() && sources[t] == Some(id as StateId)) }
pub open spec fn ent<W: Semiring>(x: Seq<W>, sources: Seq<Option<StateId>>, retain: bool, id: usize, t: int) -> W { if minef(x.len(), sources, retain, id, t) { x[t] } else { W::szero() } }
// states beyond the end are not reached
pub open spec fn padded<W: Semiring>(d: Seq<W>, n: nat) -> Seq<W> { Seq::new(n, |t: int| if t < d.len() { d[t] } else { W::szero() }) }
pub fn opt_get(v: &Vec<Option<StateId>>, i: usize) -> (r: Option<StateId>) ensures r == (if i < v@.len() { v@[i as int] } else { None }) { if i < v.len() { v[i] } else { None } }
pub fn is_final_of<W: Semiring, F: ExpandedFst<W>>(fst: &F, s: StateId) -> (r: Result<bool>) requires fst.inv() ensures s < fst.v().n() ==> r is Ok && r->Ok_0 == fst.v().fin[s as int] is Some { Ok(fst.final_weight(s)?.is_some()) }
pub proof fn vec_small<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { let n = v.len(); assert(n as int == v@.len()); }
impl<W: Approx, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
    pub open spec fn same_len(&self) -> bool { self.distance@.len() == self.enqueued@.len() && self.distance@.len() == self.adder@.len() && self.distance@.len() == self.radder@.len() }
    // between two calls
    pub open spec fn idle(&self) -> bool { self.same_len() && self.state_queue.qinv() && self.source_id < u32::MAX && forall|i: int| 0 <= i < self.sources@.len() && (#[trigger] self.sources@[i]) is Some ==> self.sources@[i]->0 < self.source_id }
    // the entries of t belong to this call
    #[verifier::inline]
    pub open spec fn mine(&self, t: int) -> bool { minef(self.distance@.len(), self.sources@, self.retain, self.source_id, t) }
    #[verifier::inline]
    pub open spec fn d(&self, t: int) -> W { ent(self.distance@, self.sources@, self.retain, self.source_id, t) }
    #[verifier::inline]
    pub open spec fn rr(&self, t: int) -> W { ent(self.radder@, self.sources@, self.retain, self.source_id, t) }
    pub open spec fn fixed(&self, o: Self) -> bool { self.tr_filter == o.tr_filter && self.first_path == o.first_path && self.retain == o.retain && self.source_id == o.source_id && self.delta == o.delta }
    pub open spec fn wfq(&self, n: nat) -> bool { self.same_len() && self.distance@.len() <= n && self.state_queue.qinv() && (forall|t: StateId| t < n ==> #[trigger] self.state_queue.can(t))
        && (forall|t: StateId| #[trigger] self.state_queue.qhas(t) <==> self.mine(t as int) && self.enqueued@[t as int]) }
    pub open spec fn grown_d(&self, o: Self, index: int) -> bool {
        &&& self.same_len() && self.fixed(o) && self.state_queue == o.state_queue && self.sources == o.sources
        &&& self.distance@.len() >= o.distance@.len() && (self.distance@.len() <= index + 1 || self.distance@.len() == o.distance@.len())
        &&& forall|i: int| #![trigger self.distance@[i]] #![trigger self.radder@[i]] #![trigger self.adder@[i]] #![trigger self.enqueued@[i]] 0 <= i < o.distance@.len() ==> self.distance@[i] == o.distance@[i] && self.radder@[i] == o.radder@[i] && self.adder@[i] == o.adder@[i] && self.enqueued@[i] == o.enqueued@[i]
        &&& forall|i: int| #![trigger self.distance@[i]] #![trigger self.radder@[i]] #![trigger self.adder@[i]] #![trigger self.enqueued@[i]] o.distance@.len() <= i < self.distance@.len() ==> self.distance@[i] == W::szero() && self.adder@[i] == W::szero() && self.radder@[i] == W::szero() && !self.enqueued@[i]
    }
    pub open spec fn grown_s(&self, o: Self, index: int) -> bool {
        &&& self.fixed(o) && self.state_queue == o.state_queue && self.distance == o.distance && self.adder == o.adder && self.radder == o.radder && self.enqueued == o.enqueued
        &&& self.sources@.len() >= o.sources@.len() && (self.sources@.len() <= index + 1 || self.sources@.len() == o.sources@.len())
        &&& forall|i: int| 0 <= i < o.sources@.len() ==> #[trigger] self.sources@[i] == o.sources@[i]
        &&& forall|i: int| o.sources@.len() <= i < self.sources@.len() ==> (#[trigger] self.sources@[i]) is None
    }
//@fn algorithms/shortest_distance.rs :: ShortestDistanceState :: ensure_distance_index_is_valid
    requires old(self).same_len(), index < u32::MAX,
    ensures final(self).grown_d(*old(self), index as int), final(self).distance@.len() > index,
@loop 0
    invariant self.grown_d(*old(self), index as int), old(self).same_len(), index < u32::MAX,
    decreases index + 1 - self.distance@.len(),
//@end
//@fn algorithms/shortest_distance.rs :: ShortestDistanceState :: ensure_sources_index_is_valid
    requires index < u32::MAX,
    ensures final(self).grown_s(*old(self), index as int), final(self).sources@.len() > index,
@loop 0
    invariant self.grown_s(*old(self), index as int), index < u32::MAX,
    decreases index + 1 - self.sources@.len(),
//@end
    // between two dequeued states: done is what has been passed on
    pub open spec fn state_ok(&self, o: Self, v: FstV<W>, src: int, dn: Seq<W>) -> bool {
        let n = v.n();
        &&& self.fixed(o) && self.same_len() && self.distance@.len() <= n && dn.len() == n
        &&& forall|t: int| 0 <= t < n ==> #[trigger] self.d(t) == dn[t].splus(self.rr(t))
        &&& forall|t: int| #[trigger] self.mine(t) ==> self.adder@[t] == self.distance@[t]
        &&& forall|t: int| 0 <= t < n && #[trigger] self.rr(t) != W::szero() ==> self.mine(t) && self.enqueued@[t]
        &&& forall|t: int| 0 <= t < n ==> is_sum(o.tr_filter, v, src, t, #[trigger] self.d(t)) && is_sum(o.tr_filter, v, src, t, self.rr(t))
        &&& forall|i: int| 0 <= i < self.sources@.len() && (#[trigger] self.sources@[i]) is Some ==> self.sources@[i]->0 <= self.source_id
    }
//@fn algorithms/shortest_distance.rs :: ShortestDistanceState :: shortest_distance inline=ensure_distance_index_is_valid,ensure_source_index_is_valid rlimit=100 nodecreases
    requires rs_laws::<W>(), exact::<W>(old(self).delta), Q::many(), fst.inv(), fst.v().wf(), fst.v().n() < u32::MAX, old(self).idle(), old(self).distance@.len() <= fst.v().n(), forall|t: StateId| t < fst.v().n() ==> #[trigger] old(self).state_queue.can(t), source is Some ==> source->0 < fst.v().n(),
    ensures r is Ok && fst.v().start is Some ==> ({ let src = (if source is Some { source->0 } else { fst.v().start->0 }) as int; let n = fst.v().n(); let f = old(self).tr_filter;
        let d = padded(r->Ok_0@, n);
        &&& r->Ok_0@.len() <= n
        &&& !old(self).first_path ==> solves(f, fst.v(), src, d)
        &&& forall|t: int| 0 <= t < n ==> is_sum(f, fst.v(), src, t, #[trigger] d[t])
        &&& final(self).same_len() && final(self).source_id == old(self).source_id + 1 && forall|i: int| 0 <= i < final(self).sources@.len() && (#[trigger] final(self).sources@[i]) is Some ==> final(self).sources@[i]->0 < final(self).source_id }),
        fst.v().start is None ==> r is Ok && r->Ok_0@.len() == 0,
@sub `< F : ExpandedFst < W > , B : Borrow < F > >` => `< F : ExpandedFst < W > >`
@sub `fst : B` => `fst : & F`
@sub `fst . borrow ( ) . is_final ( state as StateId )` => `is_final_of ( fst , state as StateId )`
@sub `fst . borrow ( )` => `fst`
@sub `let weight_properties = W :: properties ( ) ;` => `` #opt
@sub `weight_properties . contains ( SemiringProperties :: RIGHT_SEMIRING )` => `W :: right_distributive ( )`
@sub `weight_properties . contains ( SemiringProperties :: PATH )` => `W :: path_property ( )`
@sub `self . distance . get_mut ( nextstate )` => `vget_mut ( & mut self . distance , nextstate )`
@sub `self . adder . get_mut ( nextstate )` => `vget_mut ( & mut self . adder , nextstate )`
@sub `self . radder . get_mut ( nextstate )` => `vget_mut ( & mut self . radder , nextstate )`
@sub `for ( state , d ) in distance . iter_mut ( ) . enumerate ( )` => `let dlen = distance . len ( ) ; for state in 0 .. dlen`
@sub `* d = W :: zero ( ) ;` => `distance . set ( state , W :: zero ( ) ) ;`
@sub `self . sources . get ( state ) . copied ( ) . flatten ( )` => `opt_get ( & self . sources , state )`
@start
let ghost o = *self; let ghost v = fst.v(); let ghost n = v.n(); let ghost f = self.tr_filter;
@before `self . state_queue . enqueue ( source as StateId ) ;`
proof { assert(forall|t: StateId| t < n ==> #[trigger] self.state_queue.can(t)); assert(!self.state_queue.qhas(source as StateId)); }
@before_loop 0
let ghost mut dn = Seq::new(n, |t: int| W::szero());
let ghost src = source as int;
proof {
    sum_one::<W, A>(f, v, src);
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == want0(f, v, src, dn, t) by { total_zero(f, v, dn, t, n as int); zr(W::sone()); zr(W::szero()); }
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == dn[t].splus(self.rr(t)) by { zr(W::sone()); zr(W::szero()); }
    assert forall|t: int| 0 <= t < n implies is_sum(f, v, src, t, #[trigger] self.d(t)) && is_sum(f, v, src, t, self.rr(t)) by { sum_zero::<W, A>(f, v, src, t); }
}
@loop 0
    invariant_except_break self.wfq(n),
    invariant self.state_ok(o, v, src, dn), forall|t: int| 0 <= t < n ==> #[trigger] self.d(t) == want0(f, v, src, dn, t), fst.inv(), fst.v() == v, v.start is Some, v.wf(), n == v.n(), n < u32::MAX, f == o.tr_filter, rs_laws::<W>(), exact::<W>(o.delta), Q::many(), src == source as int, 0 <= src < n, o.source_id < u32::MAX,
    ensures !o.first_path ==> q_empty(self.state_queue) && self.wfq(n),
@before `let r = self . radder`
let ghost s0 = *self;
@before_loop 1
let ghost s1 = *self;
let ghost ts = v.trs[state as int];
let ghost dn2 = dn.update(state as int, dn[state as int].splus(r));
proof {
    assert(s0.mine(state as int)); assert(s0.d(state as int) == s0.distance@[state as int]); assert(s0.rr(state as int) == r);
    assert forall|t: int| 0 <= t < n implies self.mine(t) == s0.mine(t) && #[trigger] self.d(t) == s0.d(t) && self.rr(t) == (if t == state { W::szero() } else { s0.rr(t) }) by { }
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == want1(f, v, src, dn, ts, r, 0, t) by { assert(s0.d(t) == want0(f, v, src, dn, t)); zr(want0(f, v, src, dn, t)); }
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == dn2[t].splus(self.rr(t)) by { assert(s0.d(t) == dn[t].splus(s0.rr(t))); zr(dn2[t]); }
    assert forall|t: int| 0 <= t < n implies is_sum(f, v, src, t, #[trigger] self.d(t)) && is_sum(f, v, src, t, self.rr(t)) by { assert(is_sum(f, v, src, t, s0.d(t)) && is_sum(f, v, src, t, s0.rr(t))); sum_zero::<W, A>(f, v, src, t); }
    assert forall|t: int| #[trigger] self.mine(t) implies self.adder@[t] == self.distance@[t] by { assert(s0.mine(t)); }
    assert forall|t: int| 0 <= t < n && #[trigger] self.rr(t) != W::szero() implies self.mine(t) && self.enqueued@[t] by { assert(t != state); assert(s0.rr(t) != W::szero()); assert(s0.mine(t) && s0.enqueued@[t]); }
    assert(self.state_ok(o, v, src, dn2));
}
@loop 1
    invariant self.wfq(n), self.state_ok(o, v, src, dn2), forall|t: int| 0 <= t < n ==> #[trigger] self.d(t) == want1(f, v, src, dn, ts, r, nx_tr as int, t),
        nx_tr <= ts.len(), is_sum(f, v, src, state as int, r), g_trs.tv() == ts, state < n, ts == v.trs[state as int], dn.len() == n, dn2 == dn.update(state as int, dn[state as int].splus(r)), fst.inv(), fst.v() == v, v.start is Some, v.wf(), n == v.n(), n < u32::MAX, f == o.tr_filter, rs_laws::<W>(), exact::<W>(o.delta), Q::many(), src == source as int, 0 <= src < n, o.source_id < u32::MAX,
@loop_start 1
let ghost s2 = *self;
@before_loop 2
proof { assert(nextstate < n) by { assert(v.trs[state as int][nx_tr - 1].nextstate < v.n()); } }
@loop 2
    invariant self.grown_d(s2, nextstate as int), s2.same_len(), nextstate < n, n < u32::MAX,
@before_loop 3
let ghost s3 = *self;
@loop 3
    invariant self.grown_s(s3, nextstate as int), nextstate < n, n < u32::MAX,
@before `let nd = vget_mut`
let ghost s4 = *self;
let ghost x = r.stimes(ts[nx_tr - 1].weight);
proof {
    assert forall|t: int| s2.mine(t) implies self.mine(t) by { }
    assert forall|t: int| self.mine(t) && !s2.mine(t) implies self.distance@[t] == W::szero() && self.adder@[t] == W::szero() && self.radder@[t] == W::szero() && !self.enqueued@[t] by { }
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == s2.d(t) && self.rr(t) == s2.rr(t) by { }
    assert(self.mine(nextstate as int));
}
@loop_end 1
proof {
    let u = nextstate as int;
    ex(s4.d(u), s4.d(u).splus(x), self.delta);
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == want1(f, v, src, dn, ts, r, nx_tr as int, t) by { assert(s2.d(t) == want1(f, v, src, dn, ts, r, nx_tr - 1, t)); ac(want0(f, v, src, dn, t), row(f, ts, r, t, nx_tr - 1), x); }
    sum_ext(f, v, src, state as int, nx_tr - 1, r);
    sum_add(f, v, src, u, s4.d(u), x); sum_add(f, v, src, u, s4.rr(u), x);
    assert forall|t: int| 0 <= t < n implies is_sum(f, v, src, t, #[trigger] self.d(t)) && is_sum(f, v, src, t, self.rr(t)) by { assert(is_sum(f, v, src, t, s2.d(t))); }
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == dn2[t].splus(self.rr(t)) by { assert(s2.d(t) == dn2[t].splus(s2.rr(t))); ac(dn2[t], s4.rr(t), x); }
    assert forall|t: int| #[trigger] self.mine(t) implies self.adder@[t] == self.distance@[t] by { assert(s4.mine(t)); if s2.mine(t) { } }
    assert forall|t: int| 0 <= t < n && #[trigger] self.rr(t) != W::szero() implies self.mine(t) && self.enqueued@[t] by { if t != u { assert(s2.rr(t) != W::szero()); assert(s2.mine(t) && s2.enqueued@[t]); } else { assert(s4.mine(t)); } }
    assert(self.state_ok(o, v, src, dn2));
}
@after_loop 1
proof {
    assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == want0(f, v, src, dn2, t) by { total_upd(f, v, dn, state as int, r, t, n as int); ac(at::<W>(src, t), total(f, v, dn, t, n as int), row(f, ts, r, t, ts.len() as int)); }
    dn = dn2;
}
@before `self . source_id += 1 ;`
proof {
    let e = padded(distance@, n);
    assert forall|t: int| 0 <= t < n implies #[trigger] e[t] == self.d(t) by { if t < distance@.len() { assert(distance@[t] == self.d(t)); } }
    if !o.first_path {
        assert forall|t: int| 0 <= t < n implies #[trigger] self.d(t) == dn[t] by { if self.rr(t) != W::szero() { assert(self.mine(t) && self.enqueued@[t]); assert(self.state_queue.qhas(t as StateId)); } zr(dn[t]); }
        assert(e =~= dn);
        assert forall|t: int| 0 <= t < n implies #[trigger] e[t] == at::<W>(src, t).splus(total(f, v, e, t, v.n() as int)) by { assert(self.d(t) == want0(f, v, src, dn, t)); }
        assert(solves(f, v, src, e));
    }
    assert forall|t: int| 0 <= t < n implies is_sum(f, v, src, t, #[trigger] e[t]) by { assert(is_sum(f, v, src, t, self.d(t))); }
}
@loop 4
    invariant dlen == distance@.len(), self.retain, self.source_id <= u32::MAX, source_id == Some(self.source_id as StateId), distance@.len() == self.distance@.len(), forall|i: int| 0 <= i < distance@.len() ==> #[trigger] distance@[i] == (if i < state { self.d(i) } else { self.distance@[i] }),
//@end
//@fn algorithms/shortest_distance.rs :: ShortestDistanceState :: new
    ensures r.state_queue == state_queue, r.tr_filter == tr_filter, r.first_path == first_path, r.retain == retain, r.delta == delta, r.source_id == 0, r.same_len(), r.distance@.len() == 0, r.sources@.len() == 0,
//@end
//@fn algorithms/shortest_distance.rs :: ShortestDistanceState :: new_from_config
    ensures r.state_queue == opts.state_queue, r.tr_filter == opts.tr_filter, r.first_path == opts.first_path, r.retain == retain, r.delta == opts.delta, r.source_id == 0, r.same_len(), r.distance@.len() == 0, r.sources@.len() == 0,
//@end
}
impl<W: Approx, Q: Queue, A: TrFilter<W>> ShortestDistanceInternalConfig<W, Q, A> {
//@fn algorithms/shortest_distance.rs :: ShortestDistanceInternalConfig :: new
    ensures r.tr_filter == tr_filter, r.state_queue == state_queue, r.source == source, r.first_path == first_path, r.delta == delta,
@sub `weight : PhantomData` => `weight : std :: marker :: PhantomData`
//@end
//@fn algorithms/shortest_distance.rs :: ShortestDistanceInternalConfig :: new_with_default
    ensures r.tr_filter == tr_filter, r.state_queue == state_queue, r.source is None, !r.first_path, r.delta == delta,
//@end
}
// the distances from the source of the configuration, or from the start state
//@fn algorithms/shortest_distance.rs :: shortest_distance_with_internal_config
    requires rs_laws::<W>(), exact::<W>(opts.delta), Q::many(), fst.inv(), fst.v().wf(), fst.v().n() < u32::MAX, opts.state_queue.qinv(), forall|t: StateId| t < fst.v().n() ==> #[trigger] opts.state_queue.can(t), opts.source is Some ==> opts.source->0 < fst.v().n(),
    ensures r is Ok && fst.v().start is Some ==> ({ let src = (if opts.source is Some { opts.source->0 } else { fst.v().start->0 }) as int; let d = padded(r->Ok_0@, fst.v().n());
        &&& r->Ok_0@.len() <= fst.v().n()
        &&& !opts.first_path ==> solves(opts.tr_filter, fst.v(), src, d)
        &&& forall|t: int| 0 <= t < fst.v().n() ==> is_sum(opts.tr_filter, fst.v(), src, t, #[trigger] d[t]) }),
@sub `W : Semiring ,` => `W : Approx ,`
@sub `:: < F , _ >` => `:: < F >`
//@end
}
