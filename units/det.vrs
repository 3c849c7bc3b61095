//@use lazy
//@use rew
verus! {
// ---- C10: determinization of weighted acceptors. Borrow and the Mutex around the state table are dropped (methods that lock take `&mut self`).
pub trait WeightQuantize: Semiring {
    spec fn squant(self, delta: f32) -> Self;
    fn quantize_assign(&mut self, delta: f32) -> (r: Result<()>) ensures r is Ok ==> *final(self) == old(self).squant(delta);
}
pub trait CommonDivisor<W: Semiring> {
    spec fn scd(a: W, b: W) -> W;
    fn common_divisor(w1: &W, w2: &W) -> (r: Result<W>) ensures r is Ok ==> r->Ok_0 == Self::scd(*w1, *w2);
}
//@type algorithms/determinize/divisors.rs :: struct DefaultCommonDivisor
impl<W: Semiring> CommonDivisor<W> for DefaultCommonDivisor {
    open spec fn scd(a: W, b: W) -> W { a.splus(b) }
//@fn algorithms/determinize/divisors.rs :: CommonDivisor for DefaultCommonDivisor :: common_divisor nopub
//@end
}
//@type algorithms/determinize/element.rs :: struct DeterminizeElement
//@tsub `< W : Semiring >` => `< W >`
//@type algorithms/determinize/element.rs :: struct WeightedSubset
//@tsub `< W : Semiring >` => `< W >`
//@type algorithms/determinize/element.rs :: struct DeterminizeStateTuple
//@tsub `< W : Semiring >` => `< W >`
//@type algorithms/determinize/element.rs :: struct DeterminizeTr
//@tsub `< W : Semiring >` => `< W >`
pub type El<W> = DeterminizeElement<W>;
pub type Tup<W> = DeterminizeStateTuple<W>;
impl<W: Clone> Clone for DeterminizeElement<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<W: Clone> Clone for DeterminizeStateTuple<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<W: Semiring> DeterminizeElement<W> {
//@fn algorithms/determinize/element.rs :: DeterminizeElement :: new
    ensures r == (El { state, weight }),
//@end
}
impl<W: Semiring> WeightedSubset<W> {
//@fn algorithms/determinize/element.rs :: WeightedSubset :: from_vec
    ensures r.pairs == vec,
//@end
}
impl<W: Semiring> DeterminizeTr<W> {
//@fn algorithms/determinize/element.rs :: DeterminizeTr :: from_tr
    ensures r.label == tr.ilabel, r.weight == W::szero(), r.dest_tuple.filter_state == filter_state, r.dest_tuple.subset.pairs@ == Seq::<El<W>>::empty(),
@sub `vec ! [ ]` => `Vec :: new ( )`
//@end
}
// -- std's BTreeMap (assumed): a map whose values are visited in ascending order of the keys
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct OMap<V> { v: Vec<V> }
#[verifier::reject_recursive_types(V)]
pub enum OEntry<'a, V> { Occupied(&'a mut V), Vacant(OVac<'a, V>) }
#[verifier::reject_recursive_types(V)]
pub struct OVac<'a, V> { pub k: u32, pub map: &'a mut OMap<V> }
impl<'a, V> OVac<'a, V> {
    #[verifier::external_body]
    pub fn insert(self, n: V) requires (*self.map).ok(), !(*self.map).m().dom().contains(self.k) ensures (*final(self.map)).ok(), (*final(self.map)).m() == (*old(self.map)).m().insert(self.k, n) { unimplemented!() }
}
impl<V> OMap<V> {
    pub uninterp spec fn m(&self) -> Map<u32, V>;
    pub uninterp spec fn ks(&self) -> Seq<u32>;
    pub open spec fn ok(&self) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < self.ks().len() ==> #[trigger] self.ks()[i] < #[trigger] self.ks()[j]
        &&& forall|k: u32| #![trigger self.m().dom().contains(k)] self.m().dom().contains(k) ==> exists|i: int| 0 <= i < self.ks().len() && #[trigger] self.ks()[i] == k
        &&& forall|i: int| 0 <= i < self.ks().len() ==> self.m().dom().contains(#[trigger] self.ks()[i])
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.ok(), r.m() == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: u32) -> (r: OEntry<'_, V>) requires old(self).ok()
        ensures old(self).m().dom().contains(k) ==> (r is Occupied && *(r->Occupied_0) == old(self).m()[k] && final(self).ok() && final(self).m() == old(self).m().insert(k, *final(r->Occupied_0))),
            !old(self).m().dom().contains(k) ==> (r is Vacant && r->Vacant_0.k == k && *(r->Vacant_0.map) == *old(self) && *final(self) == *final(r->Vacant_0.map)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &u32) -> (r: Option<&mut V>) requires old(self).ok()
        ensures final(self).ok(), r is Some <==> old(self).m().dom().contains(*k), r is None ==> *final(self) == *old(self),
            r is Some ==> *(r->0) == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.ks().len() { unimplemented!() }
    // values() and values_mut() as loops over positions
    #[verifier::external_body]
    pub fn nth(&self, i: usize) -> (r: &V) requires self.ok(), i < self.ks().len() ensures *r == self.m()[self.ks()[i as int]] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_mut(&mut self, i: usize) -> (r: &mut V) requires old(self).ok(), i < old(self).ks().len() ensures *r == old(self).m()[old(self).ks()[i as int]], final(self).ok(), final(self).ks() == old(self).ks(), final(self).m() == old(self).m().insert(old(self).ks()[i as int], *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vals_vec(&self) -> (r: Vec<V>) requires self.ok() ensures r@.len() == self.ks().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.m()[self.ks()[i]] { unimplemented!() }
}
// -- slice::sort_by (assumed): sorted by state, and stable
pub open spec fn sel<W>(s: Seq<El<W>>, q: StateId) -> Seq<W> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last().state == q { sel(s.drop_last(), q).push(s.last().weight) } else { sel(s.drop_last(), q) } }
pub uninterp spec fn dsort<W>(s: Seq<El<W>>) -> Seq<El<W>>;
#[verifier::external_body]
pub proof fn dsort_stable<W>(s: Seq<El<W>>) ensures forall|i: int, j: int| 0 <= i < j < dsort(s).len() ==> (#[trigger] dsort(s)[i]).state <= (#[trigger] dsort(s)[j]).state, forall|q: StateId| #[trigger] sel(dsort(s), q) == sel(s, q) { }
#[verifier::external_body]
pub fn sort_by_state<W>(v: &mut Vec<El<W>>) ensures final(v)@ == dsort(old(v)@) { unimplemented!() }
// the sum of the weights of a state
pub open spec fn fold<W: Semiring>(s: Seq<W>) -> W decreases s.len() { if s.len() == 0 { W::szero() } else if s.len() == 1 { s[0] } else { fold(s.drop_last()).splus(s.last()) } }
pub open spec fn gsum<W: Semiring>(s: Seq<El<W>>, q: StateId) -> W { fold(sel(s, q)) }
pub open spec fn has<W>(s: Seq<El<W>>, q: StateId) -> bool { sel(s, q).len() > 0 }
pub proof fn has_mem<W>(s: Seq<El<W>>, q: StateId) ensures has(s, q) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].state == q decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); has_mem(d, q); if s.last().state == q { assert(s[s.len() - 1].state == q); } if exists|i: int| 0 <= i < d.len() && #[trigger] d[i].state == q { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i].state == q; assert(s[i].state == q); }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].state == q { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].state == q; if i < d.len() { assert(d[i].state == q); } } }
}
pub open spec fn cdiv<W: Semiring, CD: CommonDivisor<W>>(s: Seq<El<W>>) -> W decreases s.len() { if s.len() == 0 { W::szero() } else { CD::scd(cdiv::<W, CD>(s.drop_last()), s.last().weight) } }
// o: the elements of s grouped by state in ascending order, each with its summed weight passed through f
pub open spec fn grouped<W: Semiring>(s: Seq<El<W>>, o: Seq<El<W>>, f: spec_fn(W) -> W) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).state < (#[trigger] o[j]).state
    &&& forall|i: int| 0 <= i < o.len() ==> has(s, (#[trigger] o[i]).state) && o[i].weight == f(gsum(s, o[i].state))
    &&& forall|q: StateId| #[trigger] has(s, q) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).state == q
}
pub open spec fn resid<W: WeaklyDivisibleSemiring + WeightQuantize>(d: W, delta: f32) -> spec_fn(W) -> W { |w: W| w.sdiv(d, true).squant(delta) }
// the subset a label leads to: residuals of the grouped contributions
pub open spec fn dest_of<W: WeaklyDivisibleSemiring + WeightQuantize, CD: CommonDivisor<W>>(c: Seq<El<W>>, delta: f32, o: Seq<El<W>>) -> bool { grouped(c, o, resid(cdiv::<W, CD>(dsort(c)), delta)) }

// -- the state table: bimap's BiHashMap (assumed): a one-to-one correspondence
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BMap<T> { v: Vec<T> }
impl<T: Clone> BMap<T> {
    pub uninterp spec fn l(&self) -> Map<StateId, T>;
    pub uninterp spec fn r(&self) -> Map<T, StateId>;
    pub uninterp spec fn cnt(&self) -> nat;
    pub open spec fn bij(&self) -> bool {
        &&& forall|k: StateId| #[trigger] self.l().dom().contains(k) ==> self.r().dom().contains(self.l()[k]) && self.r()[self.l()[k]] == k
        &&& forall|t: T| #[trigger] self.r().dom().contains(t) ==> self.l().dom().contains(self.r()[t]) && self.l()[self.r()[t]] == t
    }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bij(), r.cnt() == 0, r.l() == Map::<StateId, T>::empty(), r.r() == Map::<T, StateId>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.cnt() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_right(&self, t: &T) -> (r: bool) ensures r == self.r().dom().contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: StateId, t: T) requires old(self).bij(), !old(self).l().dom().contains(k), !old(self).r().dom().contains(t) ensures final(self).bij(), final(self).cnt() == old(self).cnt() + 1, final(self).l() == old(self).l().insert(k, t), final(self).r() == old(self).r().insert(t, k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_left(&self, k: &StateId) -> (r: Option<&T>) ensures r is Some <==> self.l().dom().contains(*k), r is Some ==> *(r->0) == self.l()[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_right(&self, t: &T) -> (r: Option<&StateId>) ensures r is Some <==> self.r().dom().contains(*t), r is Some ==> *(r->0) == self.r()[*t] { unimplemented!() }
}
// slice::get with a default
#[verifier::external_body]
pub fn get_or<'a, W>(v: &'a Vec<W>, i: usize, d: &'a W) -> (r: &'a W) ensures *r == (if i < v@.len() { v@[i as int] } else { *d }) { v.get(i).unwrap_or(d) }
// the weight of a subset under a weight per state
pub open spec fn wsum<W: Semiring>(o: Seq<El<W>>, f: spec_fn(StateId) -> W) -> W decreases o.len() { if o.len() == 0 { W::szero() } else { wsum(o.drop_last(), f).splus(o.last().weight.stimes(f(o.last().state))) } }
pub open spec fn potf<W: Semiring>(p: Seq<W>) -> spec_fn(StateId) -> W { |s: StateId| pot(p, s as int) }
pub open spec fn finf<W: Semiring>(v: FstV<W>) -> spec_fn(StateId) -> W { |s: StateId| if s < v.n() && v.fin[s as int] is Some { v.fin[s as int]->0 } else { W::szero() } }
#[verifier::reject_recursive_types(W)]
//@type algorithms/determinize/state_table.rs :: struct InnerDeterminizeStateTable
//@tsub `< W : Semiring , B : Borrow < [ W ] > >` => `< W >`
//@tsub `BiHashMap < StateId , DeterminizeStateTuple < W > >` => `BMap < DeterminizeStateTuple < W > >`
//@tsub `Option < B >` => `Option < Vec < W > >`
impl<W: Semiring> InnerDeterminizeStateTable<W> {
    pub open spec fn inv(&self) -> bool {
        &&& self.table.bij() && self.table.cnt() < u32::MAX
        &&& forall|k: StateId| #[trigger] self.table.l().dom().contains(k) <==> k < self.table.cnt()
        &&& self.in_dist is Some ==> self.out_dist@.len() == self.table.cnt()
        &&& self.in_dist is Some ==> forall|k: int| 0 <= k < self.table.cnt() ==> #[trigger] self.out_dist@[k] == Some(wsum(self.table.l()[k as StateId].subset.pairs@, potf(self.in_dist->0@)))
    }
//@fn algorithms/determinize/state_table.rs :: InnerDeterminizeStateTable :: compute_distance
    requires self.in_dist is Some,
    ensures r is Ok, r->Ok_0 == wsum(subset.pairs@, potf(self.in_dist->0@)),
@sub `subset . iter ( )` => `subset . pairs . iter ( )`
@sub `self . in_dist . as_ref ( ) . unwrap ( ) . borrow ( ) . get ( element . state as usize ) . unwrap_or ( & weight_zero )` => `get_or ( self . in_dist . as_ref ( ) . unwrap ( ) , element . state as usize , & weight_zero )`
@sub `outd . plus_assign ( element . weight . times ( ind ) ? ) ?` => `outd . plus_assign ( & element . weight . times ( ind ) ? ) ?`
@loop 0 it=jt
    invariant self.in_dist is Some, weight_zero == W::szero(), jt.seq().len() == subset.pairs@.len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == subset.pairs@[k],
        outd == wsum(subset.pairs@.take(jt.index@), potf(self.in_dist->0@)),
@loop_start 0
proof { let k = jt.index@; let a = subset.pairs@.take(k + 1); assert(a.drop_last() =~= subset.pairs@.take(k)); assert(a.last() == *element); }
@tail
proof { assert(subset.pairs@.take(subset.pairs@.len() as int) =~= subset.pairs@); }
//@end
}
#[verifier::reject_recursive_types(W)]
pub struct DeterminizeStateTable<W>(pub InnerDeterminizeStateTable<W>);
impl<W: Semiring> DeterminizeStateTable<W> {
    pub open spec fn inv(&self) -> bool { self.0.inv() }
    pub open spec fn n(&self) -> nat { self.0.table.cnt() }
    pub open spec fn at(&self, k: StateId) -> Tup<W> { self.0.table.l()[k] }
    pub open spec fn ext(&self, o: &Self) -> bool { self.0.in_dist == o.0.in_dist && o.n() <= self.n() && forall|k: StateId| k < o.n() ==> #[trigger] self.at(k) == o.at(k) }
//@fn algorithms/determinize/state_table.rs :: DeterminizeStateTable :: new
    ensures r.inv(), r.n() == 0, r.0.in_dist == in_dist,
@sub `Option < B >` => `Option < Vec < W > >`
@sub `Mutex :: new ( InnerDeterminizeStateTable {` => `( InnerDeterminizeStateTable {`
@sub `vec ! [ ]` => `Vec :: new ( )`
@sub `BiHashMap :: new ( )` => `BMap :: new ( )`
//@end
//@fn algorithms/determinize/state_table.rs :: DeterminizeStateTable :: find_tuple
    requires self.inv(), tuple_id < self.n(),
    ensures r == self.at(tuple_id),
@sub `let inner = self . 0 . lock ( ) . unwrap ( ) ;` => `let inner = & self . 0 ;`
//@end
// one state per tuple; its distance is recorded
//@fn algorithms/determinize/state_table.rs :: DeterminizeStateTable :: find_id_from_ref
    requires old(self).inv(), old(self).n() + 1 < u32::MAX,
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok, r->Ok_0 < final(self).n(), final(self).at(r->Ok_0) == *tuple, final(self).n() <= old(self).n() + 1,
        forall|k: StateId| k < old(self).n() && #[trigger] old(self).at(k) == *tuple ==> r->Ok_0 == k && final(self).n() == old(self).n(),
@sub `( & self` => `( & mut self`
@sub `let mut inner = self . 0 . lock ( ) . unwrap ( ) ;` => `let inner = & mut self . 0 ;`
@sub `inner . out_dist . resize ( n + 1 , None )` => `inner . out_dist . resize_with ( n + 1 , | | -> ( r : Option < W > ) ensures r is None { None } )`
@sub `inner . out_dist [ n ] = Some ( inner . compute_distance ( & tuple . subset ) ? ) ;` => `let d = inner . compute_distance ( & tuple . subset ) ? ; inner . out_dist . set ( n , Some ( d ) ) ;`
@start
proof { assert(!self.0.table.l().dom().contains(self.0.table.cnt() as StateId)); assert forall|k: StateId| k < self.n() && #[trigger] self.at(k) == *tuple implies self.0.table.r().dom().contains(*tuple) && self.0.table.r()[*tuple] == k by { assert(self.0.table.l().dom().contains(k)); } }
//@end
}

// -- the operator
#[verifier::reject_recursive_types(W)]
//@type algorithms/determinize/determinize_fsa_op.rs :: struct DeterminizeFsaOp
//@tgen < W , F , CD >
//@tsub `ghost` => `gh`
//@tsub `fst : B` => `fst : F`
//@tsub `DeterminizeStateTable < W , BT >` => `DeterminizeStateTable < W >`
// what the transitions of the first n elements contribute: label, next state and weight, in the order in which they are met
pub open spec fn one<W: Semiring>(e: El<W>, ts: Seq<Tr<W>>, n: int) -> Seq<(Label, El<W>)> decreases n { if n <= 0 { Seq::empty() } else { one(e, ts, n - 1).push((ts[n - 1].ilabel, El { state: ts[n - 1].nextstate, weight: e.weight.stimes(ts[n - 1].weight) })) } }
pub open spec fn outs<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, n: int) -> Seq<(Label, El<W>)> decreases n { if n <= 0 { Seq::empty() } else { outs(v, p, n - 1) + one(p[n - 1], v.trs[p[n - 1].state as int], v.trs[p[n - 1].state as int].len() as int) } }
pub open spec fn contrib<W>(s: Seq<(Label, El<W>)>, l: Label) -> Seq<El<W>> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last().0 == l { contrib(s.drop_last(), l).push(s.last().1) } else { contrib(s.drop_last(), l) } }
// what label l contributes at subset p
pub open spec fn byl<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, l: Label) -> Seq<El<W>> { contrib(outs(v, p, p.len() as int), l) }
pub open spec fn raw<W: Semiring>(m: Map<u32, DeterminizeTr<W>>, s: Seq<(Label, El<W>)>) -> bool {
    &&& forall|l: Label| #[trigger] m.dom().contains(l) <==> contrib(s, l).len() > 0
    &&& forall|l: Label| #[trigger] m.dom().contains(l) ==> m[l].label == l && m[l].weight == W::szero() && m[l].dest_tuple.filter_state == 0 && m[l].dest_tuple.subset.pairs@ == contrib(s, l)
}
pub open spec fn in_states<W: Semiring>(v: FstV<W>, p: Seq<El<W>>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).state < v.n() }
pub proof fn contrib_push<W>(s: Seq<(Label, El<W>)>, x: (Label, El<W>), l: Label) ensures contrib(s.push(x), l) == (if x.0 == l { contrib(s, l).push(x.1) } else { contrib(s, l) }) { assert(s.push(x).drop_last() =~= s); }
// every contribution goes to a state of the machine
pub proof fn contrib_in<W>(s: Seq<(Label, El<W>)>, l: Label, n: nat) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.state < n ensures forall|i: int| 0 <= i < contrib(s, l).len() ==> (#[trigger] contrib(s, l)[i]).state < n decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1.state < n by { assert(d[i] == s[i]); } contrib_in(d, l, n); assert(s[s.len() - 1].1.state < n); let c = contrib(d, l); assert forall|i: int| 0 <= i < contrib(s, l).len() implies (#[trigger] contrib(s, l)[i]).state < n by { if i < c.len() { assert(contrib(s, l)[i] == c[i]); } } }
}
pub proof fn one_in<W: Semiring>(e: El<W>, ts: Seq<Tr<W>>, k: int, n: nat) requires 0 <= k <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).nextstate < n ensures one(e, ts, k).len() == k, forall|i: int| 0 <= i < k ==> (#[trigger] one(e, ts, k)[i]).1.state < n decreases k { if k > 0 { one_in(e, ts, k - 1, n); } }
pub proof fn outs_in<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, k: int) requires v.wf(), in_states(v, p), 0 <= k <= p.len() ensures forall|i: int| 0 <= i < outs(v, p, k).len() ==> (#[trigger] outs(v, p, k)[i]).1.state < v.n() decreases k {
    if k > 0 { outs_in(v, p, k - 1); let q = p[k - 1].state as int; let t = v.trs[q]; assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).nextstate < v.n() by { assert(v.trs[q][i].nextstate < v.n()); } one_in(p[k - 1], t, t.len() as int, v.n());
        let a = outs(v, p, k - 1); let b = one(p[k - 1], t, t.len() as int); assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).1.state < v.n() by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
}
pub proof fn dest_in<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, l: Label, o: Seq<El<W>>, f: spec_fn(W) -> W) requires v.wf(), in_states(v, p), grouped(byl(v, p, l), o, f) ensures in_states(v, o) {
    let s = outs(v, p, p.len() as int); outs_in(v, p, p.len() as int); contrib_in(s, l, v.n()); let c = byl(v, p, l);
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).state < v.n() by { assert(has(c, o[i].state)); has_mem(c, o[i].state); let j = choose|j: int| 0 <= j < c.len() && #[trigger] c[j].state == o[i].state; }
}
// there are at most as many labels as contributions
pub proof fn lab_bound<W>(s: Seq<(Label, El<W>)>, ks: Seq<u32>) requires forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] < #[trigger] ks[j], forall|i: int| 0 <= i < ks.len() ==> contrib(s, #[trigger] ks[i]).len() > 0 ensures ks.len() <= s.len() decreases s.len() {
    if s.len() == 0 { if ks.len() > 0 { assert(contrib(s, ks[0]).len() > 0); } } else {
        let d = s.drop_last(); let l = s.last().0;
        if exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == l { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == l; let k2 = ks.remove(i);
            assert forall|a: int, b: int| 0 <= a < b < k2.len() implies #[trigger] k2[a] < #[trigger] k2[b] by { let a1 = if a < i { a } else { a + 1 }; let b1 = if b < i { b } else { b + 1 }; assert(k2[a] == ks[a1] && k2[b] == ks[b1]); }
            assert forall|a: int| 0 <= a < k2.len() implies contrib(d, #[trigger] k2[a]).len() > 0 by { let a1 = if a < i { a } else { a + 1 }; assert(k2[a] == ks[a1]); assert(contrib(s, ks[a1]).len() > 0); assert(ks[a1] != l) by { if a1 < i { assert(ks[a1] < ks[i]); } else { assert(ks[i] < ks[a1]); } } }
            lab_bound(d, k2);
        } else { assert forall|a: int| 0 <= a < ks.len() implies contrib(d, #[trigger] ks[a]).len() > 0 by { assert(contrib(s, ks[a]).len() > 0); assert(ks[a] != l); } lab_bound(d, ks); }
    }
}
impl<W: Semiring + WeaklyDivisibleSemiring + WeightQuantize, F: CoreFst<W>, CD: CommonDivisor<W>> DeterminizeFsaOp<W, F, CD> {
    pub open spec fn inv(&self) -> bool { self.fst.inv() && self.fst.v().wf() && self.state_table.inv() && forall|k: StateId| k < self.state_table.n() ==> in_states(self.fst.v(), (#[trigger] self.state_table.at(k)).subset.pairs@) }
    pub open spec fn ext(&self, o: &Self) -> bool { self.fst == o.fst && self.delta == o.delta && self.state_table.ext(&o.state_table) }
    pub open spec fn pairs(&self, k: StateId) -> Seq<El<W>> { self.state_table.at(k).subset.pairs@ }
//@fn algorithms/determinize/determinize_fsa_op.rs :: DeterminizeFsaOp :: find_state
    requires old(self).inv(), old(self).state_table.n() + 1 < u32::MAX, in_states(old(self).fst.v(), tuple.subset.pairs@),
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok, r->Ok_0 < final(self).state_table.n(), final(self).state_table.at(r->Ok_0) == *tuple, final(self).state_table.n() <= old(self).state_table.n() + 1,
        forall|k: StateId| k < old(self).state_table.n() && #[trigger] old(self).state_table.at(k) == *tuple ==> r->Ok_0 == k && final(self).state_table.n() == old(self).state_table.n(),
@sub `( & self` => `( & mut self`
@tail
proof { assert forall|k: StateId| k < self.state_table.n() implies in_states(self.fst.v(), (#[trigger] self.state_table.at(k)).subset.pairs@) by { if k < old(self).state_table.n() { assert(self.state_table.at(k) == old(self).state_table.at(k)); } else { assert(r__ is Ok); assert(k == r__->Ok_0); } } }
//@end
//@fn algorithms/determinize/determinize_fsa_op.rs :: DeterminizeFsaOp :: norm_tr
    requires old(det_tr).weight == W::szero(),
    ensures final(det_tr).label == old(det_tr).label, final(det_tr).dest_tuple.filter_state == old(det_tr).dest_tuple.filter_state,
        r is Ok ==> final(det_tr).weight == cdiv::<W, CD>(dsort(old(det_tr).dest_tuple.subset.pairs@)) && dest_of::<W, CD>(old(det_tr).dest_tuple.subset.pairs@, self.delta, final(det_tr).dest_tuple.subset.pairs@),
@sub `det_tr . dest_tuple . subset . pairs . sort_by ( | a , b | a . state . cmp ( & b . state ) ) ;` => `sort_by_state ( & mut det_tr . dest_tuple . subset . pairs ) ;`
@sub `BTreeMap :: new ( )` => `OMap :: new ( )`
@sub `EntryBTreeMap` => `OEntry`
@sub `OEntry :: Occupied ( mut e )` => `OEntry :: Occupied ( e )`
@sub `e . get_mut ( ) . weight` => `e . weight`
@sub `for x in & mut det_tr . dest_tuple . subset . pairs` => `for x in det_tr . dest_tuple . subset . pairs . iter ( )`
@sub `new_pairs . values ( ) . vcloned ( ) . collect ( )` => `new_pairs . vals_vec ( )`
@sub `for dest_elt in det_tr . dest_tuple . subset . pairs . iter_mut ( ) {` => `let np = det_tr . dest_tuple . subset . pairs . len ( ) ; for ii in 0 .. np { let dest_elt = det_tr . dest_tuple . subset . pairs . vget_unchecked_mut ( ii ) ;`
@start
let ghost c = det_tr.dest_tuple.subset.pairs@; let ghost ss = dsort(c); let ghost lb = det_tr.label; let ghost fs = det_tr.dest_tuple.filter_state;
@loop 0 it=jt
    invariant det_tr.label == lb, det_tr.dest_tuple.filter_state == fs, det_tr.dest_tuple.subset.pairs@ == ss, jt.seq().len() == ss.len(), forall|k: int| 0 <= k < ss.len() ==> *(#[trigger] jt.seq()[k]) == ss[k],
        det_tr.weight == cdiv::<W, CD>(ss.take(jt.index@)),
@loop_start 0
proof { let k = jt.index@; let a = ss.take(k + 1); assert(a.drop_last() =~= ss.take(k)); assert(a.last() == *dest_elt); }
@after_loop 0
let ghost d = det_tr.weight;
proof { assert(ss.take(ss.len() as int) =~= ss); }
@loop 1 it=jt
    invariant det_tr.label == lb, det_tr.dest_tuple.filter_state == fs, det_tr.dest_tuple.subset.pairs@ == ss, det_tr.weight == d, jt.seq().len() == ss.len(), forall|k: int| 0 <= k < ss.len() ==> *(#[trigger] jt.seq()[k]) == ss[k],
        new_pairs.ok(), forall|q: StateId| #[trigger] new_pairs.m().dom().contains(q) <==> has(ss.take(jt.index@), q), forall|q: StateId| #[trigger] new_pairs.m().dom().contains(q) ==> new_pairs.m()[q] == (El { state: q, weight: gsum(ss.take(jt.index@), q) }),
@loop_start 1
let ghost om = new_pairs.m();
proof { let k = jt.index@; let a = ss.take(k + 1); assert(a.drop_last() =~= ss.take(k)); assert(a.last() == *x);
    assert(sel(a, x.state) == sel(ss.take(k), x.state).push(x.weight)); assert(sel(a, x.state).drop_last() =~= sel(ss.take(k), x.state)); }
@after_loop 1
proof { assert(ss.take(ss.len() as int) =~= ss); }
@loop 2
    invariant np == new_pairs.ks().len(), det_tr.label == lb, det_tr.dest_tuple.filter_state == fs, det_tr.weight == d, new_pairs.ok(), det_tr.dest_tuple.subset.pairs@.len() == new_pairs.ks().len(), ss == dsort(c),
        forall|q: StateId| #[trigger] new_pairs.m().dom().contains(q) <==> has(ss, q), forall|q: StateId| #[trigger] new_pairs.m().dom().contains(q) ==> new_pairs.m()[q] == (El { state: q, weight: gsum(ss, q) }),
        forall|i: int| 0 <= i < new_pairs.ks().len() ==> (#[trigger] det_tr.dest_tuple.subset.pairs@[i]) == (El { state: new_pairs.ks()[i], weight: if i < ii { resid(d, self.delta)(gsum(ss, new_pairs.ks()[i])) } else { gsum(ss, new_pairs.ks()[i]) } }),
@before_loop 2
proof { assert forall|i: int| 0 <= i < new_pairs.ks().len() implies (#[trigger] det_tr.dest_tuple.subset.pairs@[i]) == (El { state: new_pairs.ks()[i], weight: gsum(ss, new_pairs.ks()[i]) }) by { assert(new_pairs.m().dom().contains(new_pairs.ks()[i])); } }
@after_loop 2
proof {
    dsort_stable(c);
    let o = det_tr.dest_tuple.subset.pairs@;
    assert forall|i: int| 0 <= i < o.len() implies has(c, (#[trigger] o[i]).state) && o[i].weight == resid(d, self.delta)(gsum(c, o[i].state)) by { let q = new_pairs.ks()[i]; assert(o[i].state == q); assert(new_pairs.m().dom().contains(q)); assert(sel(ss, q) == sel(c, q)); }
    assert forall|q: StateId| #[trigger] has(c, q) implies exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).state == q by { assert(sel(ss, q) == sel(c, q)); assert(has(ss, q)); assert(new_pairs.m().dom().contains(q)); let i = choose|i: int| 0 <= i < new_pairs.ks().len() && #[trigger] new_pairs.ks()[i] == q; assert(o[i].state == q); }
}
//@end
//@fn algorithms/determinize/determinize_fsa_op.rs :: FstOp for DeterminizeFsaOp :: compute_start
    requires old(self).inv(), old(self).state_table.n() + 1 < u32::MAX,
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok, r->Ok_0 is Some <==> old(self).fst.v().start is Some,
        r->Ok_0 is Some ==> r->Ok_0->0 < final(self).state_table.n() && final(self).pairs(r->Ok_0->0) == seq![El { state: old(self).fst.v().start->0, weight: W::sone() }],
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
//@end
    // t is the transition of label l out of subset p
    pub open spec fn is_det(&self, p: Seq<El<W>>, t: Tr<W>) -> bool {
        let c = byl(self.fst.v(), p, t.ilabel);
        &&& t.olabel == t.ilabel && c.len() > 0 && t.weight == cdiv::<W, CD>(dsort(c))
        &&& t.nextstate < self.state_table.n() && self.state_table.at(t.nextstate).filter_state == 0 && dest_of::<W, CD>(c, self.delta, self.pairs(t.nextstate))
    }
    // exactly one transition per label that leaves the subset, in ascending order
    pub open spec fn expanded(&self, p: Seq<El<W>>, ts: Seq<Tr<W>>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] ts[i]).ilabel < (#[trigger] ts[j]).ilabel
        &&& forall|i: int| 0 <= i < ts.len() ==> self.is_det(p, #[trigger] ts[i])
        &&& forall|l: Label| (#[trigger] byl(self.fst.v(), p, l)).len() > 0 ==> exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).ilabel == l
    }
    pub open spec fn normed(&self, c: Seq<El<W>>, l: Label, d: DeterminizeTr<W>) -> bool { d.label == l && d.dest_tuple.filter_state == 0 && d.weight == cdiv::<W, CD>(dsort(c)) && dest_of::<W, CD>(c, self.delta, d.dest_tuple.subset.pairs@) }
//@fn algorithms/determinize/determinize_fsa_op.rs :: FstOp for DeterminizeFsaOp :: compute_trs
    requires old(self).inv(), state < old(self).state_table.n(), old(self).state_table.n() + outs(old(self).fst.v(), old(self).pairs(state), old(self).pairs(state).len() as int).len() + 1 < u32::MAX,
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok ==> final(self).expanded(old(self).pairs(state), r->Ok_0.tv()),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@sub `BTreeMap < Label , DeterminizeTr < W > > = BTreeMap :: new ( )` => `OMap < DeterminizeTr < W > > = OMap :: new ( )`
@sub `src_tuple . subset . iter ( )` => `src_tuple . subset . pairs . iter ( )`
@sub `EntryBTreeMap` => `OEntry`
@sub `Occupied ( _ )` => `Occupied ( _e )`
@sub `for det_tr in label_map . values_mut ( ) {` => `let nl = label_map . len ( ) ; for ii in 0 .. nl { let det_tr = label_map . nth_mut ( ii ) ;`
@sub `for det_tr in label_map . values ( ) {` => `for ii in 0 .. nl { let det_tr = label_map . nth ( ii ) ;`
@sub `let mut trs = vec ! [ ]` => `let mut trs : Vec < Tr < W > > = Vec :: new ( )`
@start
let ghost v = self.fst.v(); let ghost p = self.pairs(state); let ghost n = p.len() as int; let ghost sn = outs(v, p, n);
@loop 0 it=jt
    invariant *self == *old(self), self.inv(), v == self.fst.v(), n == p.len(), in_states(v, p), jt.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] jt.seq()[k]) == p[k],
        label_map.ok(), raw(label_map.m(), outs(v, p, jt.index@)),
@loop_start 0
let ghost k = jt.index@; let ghost ts = v.trs[src_elt.state as int]; let ghost s0 = outs(v, p, k);
proof { assert(*src_elt == p[k]); assert(p[k].state < v.n()); assert(s0 + one(*src_elt, ts, 0) =~= s0); }
@loop 1 it=kt
    invariant *self == *old(self), self.inv(), v == self.fst.v(), s0 == outs(v, p, k), ts == v.trs[src_elt.state as int], kt.seq().len() == ts.len(), forall|k: int| 0 <= k < ts.len() ==> *(#[trigger] kt.seq()[k]) == ts[k],
        label_map.ok(), raw(label_map.m(), s0 + one(*src_elt, ts, kt.index@)),
@loop_start 1
let ghost j = kt.index@; let ghost sj = s0 + one(*src_elt, ts, j); let ghost om = label_map.m(); let ghost x = (tr.ilabel, El { state: tr.nextstate, weight: src_elt.weight.stimes(tr.weight) });
proof { assert(*tr == ts[j]); assert(s0 + one(*src_elt, ts, j + 1) =~= sj.push(x)); assert forall|l: Label| true implies #[trigger] contrib(sj.push(x), l) == (if x.0 == l { contrib(sj, l).push(x.1) } else { contrib(sj, l) }) by { contrib_push(sj, x, l); } }
@loop_end 1
proof {
    let m = label_map.m(); let l0 = tr.ilabel; assert(dest_elt == x.1);
    assert(m.dom().contains(l0)); 
    if !om.dom().contains(l0) { assert(contrib(sj, l0) =~= Seq::<El<W>>::empty()); }
    assert(m[l0].dest_tuple.subset.pairs@ =~= contrib(sj, l0).push(x.1));
    assert forall|l: Label| #[trigger] m.dom().contains(l) <==> contrib(sj.push(x), l).len() > 0 by { if l != l0 { assert(m.dom().contains(l) == om.dom().contains(l)); } }
    assert forall|l: Label| #[trigger] m.dom().contains(l) implies m[l].label == l && m[l].weight == W::szero() && m[l].dest_tuple.filter_state == 0 && m[l].dest_tuple.subset.pairs@ == contrib(sj.push(x), l) by { if l != l0 { assert(m.dom().contains(l) == om.dom().contains(l)); assert(m[l] == om[l]); } }
}
@loop_end 0
proof { assert(outs(v, p, k + 1) == s0 + one(*src_elt, ts, ts.len() as int)); }
@loop 2
    invariant *self == *old(self), self.inv(), v == self.fst.v(), label_map.ok(), nl == label_map.ks().len(), sn == outs(v, p, n),
        forall|l: Label| #[trigger] label_map.m().dom().contains(l) <==> contrib(sn, l).len() > 0,
        forall|i: int| 0 <= i < ii ==> self.normed(contrib(sn, #[trigger] label_map.ks()[i]), label_map.ks()[i], label_map.m()[label_map.ks()[i]]),
        forall|i: int| ii <= i < nl ==> ({ let l = #[trigger] label_map.ks()[i]; let d = label_map.m()[l]; d.label == l && d.weight == W::szero() && d.dest_tuple.filter_state == 0 && d.dest_tuple.subset.pairs@ == contrib(sn, l) }),
@before_loop 3
proof { assert forall|i: int| 0 <= i < nl implies contrib(sn, #[trigger] label_map.ks()[i]).len() > 0 by { assert(label_map.m().dom().contains(label_map.ks()[i])); } lab_bound(sn, label_map.ks()); }
@loop 3
    invariant old(self).inv(), self.inv(), self.ext(old(self)), v == old(self).fst.v(), in_states(v, p), p == old(self).pairs(state), n == p.len(), label_map.ok(), nl == label_map.ks().len(), sn == outs(v, p, n), nl <= sn.len(), old(self).state_table.n() + sn.len() + 1 < u32::MAX,
        forall|l: Label| #[trigger] label_map.m().dom().contains(l) <==> contrib(sn, l).len() > 0,
        forall|i: int| 0 <= i < nl ==> self.normed(contrib(sn, #[trigger] label_map.ks()[i]), label_map.ks()[i], label_map.m()[label_map.ks()[i]]),
        trs@.len() == ii, self.state_table.n() <= old(self).state_table.n() + ii,
        forall|i: int| 0 <= i < ii ==> (#[trigger] trs@[i]).ilabel == label_map.ks()[i] && self.is_det(p, trs@[i]),
@loop_start 3
let ghost s1 = *self; let ghost l = label_map.ks()[ii as int]; let ghost t1 = trs@;
proof { assert(label_map.m().dom().contains(l)); let d = label_map.m()[l]; assert(self.normed(contrib(sn, l), l, d)); dest_in(v, p, l, d.dest_tuple.subset.pairs@, resid(cdiv::<W, CD>(dsort(contrib(sn, l))), self.delta)); }
@loop_end 3
proof { assert forall|i: int| 0 <= i < trs@.len() implies (#[trigger] trs@[i]).ilabel == label_map.ks()[i] && self.is_det(p, trs@[i]) by { if i < ii { assert(trs@[i] == t1[i]); assert(s1.is_det(p, t1[i])); assert(self.state_table.at(t1[i].nextstate) == s1.state_table.at(t1[i].nextstate)); } else { assert(self.is_det(p, trs@[i])); } } }
@after_loop 3
proof {
    assert forall|i: int, j: int| 0 <= i < j < trs@.len() implies (#[trigger] trs@[i]).ilabel < (#[trigger] trs@[j]).ilabel by { assert(label_map.ks()[i] < label_map.ks()[j]); }
    assert forall|l: Label| (#[trigger] byl(self.fst.v(), p, l)).len() > 0 implies exists|i: int| 0 <= i < trs@.len() && (#[trigger] trs@[i]).ilabel == l by { assert(label_map.m().dom().contains(l)); let i = choose|i: int| 0 <= i < label_map.ks().len() && #[trigger] label_map.ks()[i] == l; assert(trs@[i].ilabel == l); }
}
//@end
//@fn algorithms/determinize/determinize_fsa_op.rs :: FstOp for DeterminizeFsaOp :: compute_final_weight
    requires self.inv(), state < self.state_table.n(),
    ensures r is Ok, r->Ok_0 == (if wsum(self.pairs(state), finf(self.fst.v())) == W::szero() { None } else { Some(wsum(self.pairs(state), finf(self.fst.v()))) }),
@sub `. borrow ( )` => ``
@sub `tuple . subset . iter ( )` => `tuple . subset . pairs . iter ( )`
@sub `final_weight . plus_assign ( det_elt . weight . times (` => `final_weight . plus_assign ( & det_elt . weight . times ( &`
@sub `. unwrap_or_else ( W :: zero )` => `. unwrap_or_else ( | | -> ( r : W ) ensures r == W :: szero ( ) { W :: zero ( ) } )`
@loop 0 it=jt
    invariant self.inv(), in_states(self.fst.v(), tuple.subset.pairs@), tuple.subset.pairs@ == self.pairs(state), jt.seq().len() == tuple.subset.pairs@.len(), forall|k: int| 0 <= k < jt.seq().len() ==> *(#[trigger] jt.seq()[k]) == tuple.subset.pairs@[k],
        final_weight == wsum(tuple.subset.pairs@.take(jt.index@), finf(self.fst.v())),
@loop_start 0
proof { let k = jt.index@; let a = tuple.subset.pairs@.take(k + 1); assert(a.drop_last() =~= tuple.subset.pairs@.take(k)); assert(a.last() == *det_elt); assert(tuple.subset.pairs@[k].state < self.fst.v().n()); }
@after_loop 0
proof { assert(tuple.subset.pairs@.take(tuple.subset.pairs@.len() as int) =~= tuple.subset.pairs@); }
//@end
}

// ---- what determinization preserves: the weight of every label sequence (epsilon counts as a symbol)
pub open spec fn ring<W: Semiring>() -> bool {
    &&& forall|a: W, b: W| #[trigger] a.splus(b) == b.splus(a)
    &&& forall|a: W, b: W, c: W| (#[trigger] a.splus(b).splus(c)) == a.splus(b.splus(c))
    &&& forall|a: W| (#[trigger] a.splus(W::szero())) == a
    &&& forall|a: W, b: W, c: W| (#[trigger] a.stimes(b).stimes(c)) == a.stimes(b.stimes(c))
    &&& forall|a: W, b: W, c: W| (#[trigger] a.stimes(b.splus(c))) == a.stimes(b).splus(a.stimes(c))
    &&& forall|a: W, b: W, c: W| (#[trigger] a.splus(b).stimes(c)) == a.stimes(c).splus(b.stimes(c))
    &&& forall|a: W| (#[trigger] a.stimes(W::szero())) == W::szero()
    &&& forall|a: W| (#[trigger] W::szero().stimes(a)) == W::szero()
}
pub open spec fn tsum<W: Semiring>(ts: Seq<Tr<W>>, l: Label, f: spec_fn(StateId) -> W) -> W decreases ts.len() { if ts.len() == 0 { W::szero() } else if ts.last().ilabel == l { tsum(ts.drop_last(), l, f).splus(ts.last().weight.stimes(f(ts.last().nextstate))) } else { tsum(ts.drop_last(), l, f) } }
// the weight of label sequence x from state q: the sum over all its paths
pub open spec fn lw<W: Semiring>(v: FstV<W>, q: StateId, x: Seq<Label>) -> W decreases x.len(), 0nat { if x.len() == 0 { finf(v)(q) } else { tsum(v.trs[q as int], x[0], lwf(v, x.skip(1))) } }
pub open spec fn lwf<W: Semiring>(v: FstV<W>, x: Seq<Label>) -> spec_fn(StateId) -> W decreases x.len(), 1nat { |r: StateId| lw(v, r, x) }
// ... and from a weighted subset
pub open spec fn val<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, x: Seq<Label>) -> W { wsum(p, lwf(v, x)) }
pub proof fn wsum_push<W: Semiring>(p: Seq<El<W>>, e: El<W>, f: spec_fn(StateId) -> W) ensures wsum(p.push(e), f) == wsum(p, f).splus(e.weight.stimes(f(e.state))) { assert(p.push(e).drop_last() =~= p); }
pub proof fn contrib_cat<W: Semiring>(a: Seq<(Label, El<W>)>, b: Seq<(Label, El<W>)>, l: Label) ensures contrib(a + b, l) == contrib(a, l) + contrib(b, l) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(contrib(a, l) + contrib(b, l) =~= contrib(a, l)); } else { contrib_cat(a, b.drop_last(), l); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(contrib(a + b, l) =~= contrib(a, l) + contrib(b, l)); }
}
pub proof fn wsum_cat<W: Semiring>(a: Seq<El<W>>, b: Seq<El<W>>, f: spec_fn(StateId) -> W) requires ring::<W>() ensures wsum(a + b, f) == wsum(a, f).splus(wsum(b, f)) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { wsum_cat(a, b.drop_last(), f); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(wsum(a, f).splus(wsum(b.drop_last(), f)).splus(b.last().weight.stimes(f(b.last().state))) == wsum(a, f).splus(wsum(b.drop_last(), f).splus(b.last().weight.stimes(f(b.last().state))))); }
}
pub proof fn one_sum<W: Semiring>(e: El<W>, ts: Seq<Tr<W>>, k: int, l: Label, f: spec_fn(StateId) -> W) requires ring::<W>(), 0 <= k <= ts.len() ensures wsum(contrib(one(e, ts, k), l), f) == e.weight.stimes(tsum(ts.take(k), l, f)) decreases k {
    if k > 0 { one_sum(e, ts, k - 1, l, f); let t = ts[k - 1]; let a = ts.take(k); assert(a.drop_last() =~= ts.take(k - 1)); assert(a.last() == t); let x = (t.ilabel, El { state: t.nextstate, weight: e.weight.stimes(t.weight) }); contrib_push(one(e, ts, k - 1), x, l);
        if t.ilabel == l { wsum_push(contrib(one(e, ts, k - 1), l), x.1, f); let s = tsum(ts.take(k - 1), l, f); let g = f(t.nextstate); assert(e.weight.stimes(s.splus(t.weight.stimes(g))) == e.weight.stimes(s).splus(e.weight.stimes(t.weight.stimes(g)))); assert(e.weight.stimes(t.weight).stimes(g) == e.weight.stimes(t.weight.stimes(g))); } }
    else { assert(ts.take(0).len() == 0); }
}
// A: following label l from p is the weighted sum over what l contributes
pub proof fn via_sum<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, k: int, l: Label, y: Seq<Label>) requires ring::<W>(), 0 <= k <= p.len() ensures wsum(contrib(outs(v, p, k), l), lwf(v, y)) == wsum(p.take(k), lwf(v, seq![l] + y)) decreases k {
    if k > 0 {
        via_sum(v, p, k - 1, l, y); let e = p[k - 1]; let ts = v.trs[e.state as int]; let f = lwf(v, y); let x = seq![l] + y; let a = p.take(k); assert(a.drop_last() =~= p.take(k - 1)); assert(a.last() == e);
        contrib_cat(outs(v, p, k - 1), one(e, ts, ts.len() as int), l); wsum_cat(contrib(outs(v, p, k - 1), l), contrib(one(e, ts, ts.len() as int), l), f); one_sum(e, ts, ts.len() as int, l, f); assert(ts.take(ts.len() as int) =~= ts);
        assert(x.skip(1) =~= y); assert(x[0] == l); assert(lw(v, e.state, x) == tsum(ts, l, f)); assert(lwf(v, x)(e.state) == lw(v, e.state, x));
    } else { assert(p.take(0).len() == 0); }
}
// B: grouping by state keeps the sum
pub proof fn wsum_remove<W: Semiring>(o: Seq<El<W>>, i: int, f: spec_fn(StateId) -> W) requires ring::<W>(), 0 <= i < o.len() ensures wsum(o, f) == wsum(o.remove(i), f).splus(o[i].weight.stimes(f(o[i].state))) decreases o.len() {
    let d = o.drop_last(); let t = o.last().weight.stimes(f(o.last().state));
    if i == o.len() - 1 { assert(o.remove(i) =~= d); } else {
        wsum_remove(d, i, f); let r = o.remove(i); assert(r.drop_last() =~= d.remove(i)); assert(r.last() == o.last()); let a = wsum(d.remove(i), f); let b = o[i].weight.stimes(f(o[i].state)); assert(d[i] == o[i]);
        assert(a.splus(b).splus(t) == a.splus(b.splus(t))); assert(b.splus(t) == t.splus(b)); assert(a.splus(t).splus(b) == a.splus(t.splus(b)));
    }
}
pub open spec fn idf<W>() -> spec_fn(W) -> W { |w: W| w }
pub proof fn group_sum<W: Semiring>(s: Seq<El<W>>, o: Seq<El<W>>, f: spec_fn(StateId) -> W) requires ring::<W>(), grouped(s, o, idf()) ensures wsum(s, f) == wsum(o, f) decreases s.len() {
    if s.len() == 0 { if o.len() > 0 { assert(has(s, o[0].state)); } } else {
        let d = s.drop_last(); let e = s.last(); let q = e.state; assert(sel(s, q) == sel(d, q).push(e.weight)); assert(has(s, q)); let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).state == q; wsum_remove(o, i, f);
        assert forall|r: StateId| r != q implies #[trigger] sel(d, r) == sel(s, r) by { }
        if has(d, q) {
            let o2 = o.update(i, El { state: q, weight: gsum(d, q) });
            assert forall|a: int| 0 <= a < o2.len() implies has(d, (#[trigger] o2[a]).state) && o2[a].weight == gsum(d, o2[a].state) by { if a != i { assert(o2[a] == o[a]); assert(o[a].state != q) by { if a < i { assert(o[a].state < o[i].state); } else { assert(o[i].state < o[a].state); } } assert(has(s, o[a].state)); assert(sel(d, o[a].state) == sel(s, o[a].state)); } }
            assert forall|r: StateId| #[trigger] has(d, r) implies exists|a: int| 0 <= a < o2.len() && (#[trigger] o2[a]).state == r by { if r == q { assert(o2[i].state == r); } else { assert(sel(d, r) == sel(s, r)); assert(has(s, r)); let a = choose|a: int| 0 <= a < o.len() && (#[trigger] o[a]).state == r; assert(o2[a].state == r); } }
            assert forall|a: int, b: int| 0 <= a < b < o2.len() implies (#[trigger] o2[a]).state < (#[trigger] o2[b]).state by { assert(o[a].state < o[b].state); assert(o2[a].state == o[a].state && o2[b].state == o[b].state); }
            group_sum(d, o2, f); wsum_remove(o2, i, f); assert(o2.remove(i) =~= o.remove(i));
            let x = wsum(o.remove(i), f); let g = gsum(d, q); let h = f(q); assert(sel(s, q).drop_last() =~= sel(d, q)); assert(gsum(s, q) == g.splus(e.weight)); assert(g.splus(e.weight).stimes(h) == g.stimes(h).splus(e.weight.stimes(h))); assert(x.splus(g.stimes(h)).splus(e.weight.stimes(h)) == x.splus(g.stimes(h).splus(e.weight.stimes(h))));
        } else {
            let o2 = o.remove(i);
            assert forall|a: int, b: int| 0 <= a < b < o2.len() implies (#[trigger] o2[a]).state < (#[trigger] o2[b]).state by { let a1 = if a < i { a } else { a + 1 }; let b1 = if b < i { b } else { b + 1 }; assert(o2[a] == o[a1] && o2[b] == o[b1]); assert(o[a1].state < o[b1].state); }
            assert forall|a: int| 0 <= a < o2.len() implies has(d, (#[trigger] o2[a]).state) && o2[a].weight == gsum(d, o2[a].state) by { let a1 = if a < i { a } else { a + 1 }; assert(o2[a] == o[a1]); assert(o[a1].state != q) by { if a1 < i { assert(o[a1].state < o[i].state); } else { assert(o[i].state < o[a1].state); } } assert(has(s, o[a1].state)); assert(sel(d, o[a1].state) == sel(s, o[a1].state)); }
            assert forall|r: StateId| #[trigger] has(d, r) implies exists|a: int| 0 <= a < o2.len() && (#[trigger] o2[a]).state == r by { assert(r != q); assert(sel(d, r) == sel(s, r)); assert(has(s, r)); let a = choose|a: int| 0 <= a < o.len() && (#[trigger] o[a]).state == r; if a < i { assert(o2[a].state == r); } else { assert(o2[a - 1].state == r); } }
            group_sum(d, o2, f); assert(sel(d, q) =~= Seq::<W>::empty()); assert(gsum(s, q) == e.weight);
        }
    }
}
// C: the common divisor factors out
pub proof fn div_sum<W: Semiring>(o: Seq<El<W>>, z: Seq<El<W>>, d: W, f: spec_fn(StateId) -> W) requires ring::<W>(), o.len() == z.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).state == z[i].state && o[i].weight == d.stimes(z[i].weight) ensures wsum(o, f) == d.stimes(wsum(z, f)) decreases o.len() {
    if o.len() > 0 { let a = o.drop_last(); let b = z.drop_last(); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).state == b[i].state && a[i].weight == d.stimes(b[i].weight) by { assert(a[i] == o[i] && b[i] == z[i]); } div_sum(a, b, d, f); let x = o.last(); let y = z.last(); assert(x == o[o.len() - 1]); let h = f(x.state); assert(d.stimes(y.weight).stimes(h) == d.stimes(y.weight.stimes(h))); assert(d.stimes(wsum(b, f).splus(y.weight.stimes(h))) == d.stimes(wsum(b, f)).splus(d.stimes(y.weight.stimes(h)))); }
}
// dividing by the common divisor and multiplying back is exact (no rounding) for the sums met on label l
pub open spec fn exact<W: WeaklyDivisibleSemiring + WeightQuantize>(c: Seq<El<W>>, d: W, delta: f32) -> bool { forall|q: StateId| #[trigger] has(c, q) ==> d.stimes(resid(d, delta)(gsum(c, q))) == gsum(c, q) }
// C10, one step: the transition of label l carries the weight and the subset that keep the weight of every continuation
pub proof fn det_step<W: WeaklyDivisibleSemiring + WeightQuantize, CD: CommonDivisor<W>>(v: FstV<W>, p: Seq<El<W>>, l: Label, y: Seq<Label>, z: Seq<El<W>>, delta: f32)
    requires ring::<W>(), dest_of::<W, CD>(byl(v, p, l), delta, z), exact(byl(v, p, l), cdiv::<W, CD>(dsort(byl(v, p, l))), delta),
    ensures val(v, p, seq![l] + y) == cdiv::<W, CD>(dsort(byl(v, p, l))).stimes(val(v, z, y)),
{
    let c = byl(v, p, l); let d = cdiv::<W, CD>(dsort(c)); let f = lwf(v, y);
    via_sum(v, p, p.len() as int, l, y); assert(p.take(p.len() as int) =~= p);
    let o = Seq::new(z.len(), |i: int| El { state: z[i].state, weight: gsum(c, z[i].state) });
    assert(grouped(c, o, idf())) by {
        assert forall|i: int| 0 <= i < o.len() implies has(c, (#[trigger] o[i]).state) && o[i].weight == gsum(c, o[i].state) by { assert(has(c, z[i].state)); }
        assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).state < (#[trigger] o[j]).state by { assert(z[i].state < z[j].state); }
        assert forall|q: StateId| #[trigger] has(c, q) implies exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).state == q by { let i = choose|i: int| 0 <= i < z.len() && (#[trigger] z[i]).state == q; assert(o[i].state == q); }
    }
    group_sum(c, o, f);
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).state == z[i].state && o[i].weight == d.stimes(z[i].weight) by { assert(has(c, z[i].state)); }
    div_sum(o, z, d, f);
}
// a label that leaves no element of the subset continues no string
pub proof fn det_dead<W: Semiring>(v: FstV<W>, p: Seq<El<W>>, l: Label, y: Seq<Label>) requires ring::<W>(), byl(v, p, l).len() == 0 ensures val(v, p, seq![l] + y) == W::szero() { via_sum(v, p, p.len() as int, l, y); assert(p.take(p.len() as int) =~= p); }
impl<W: Semiring + WeaklyDivisibleSemiring + WeightQuantize, F: CoreFst<W>, CD: CommonDivisor<W>> DeterminizeFsaOp<W, F, CD> {
    pub open spec fn chain(&self, p: Seq<El<W>>, ts: Seq<Tr<W>>) -> bool decreases ts.len() { ts.len() > 0 ==> self.is_det(p, ts[0]) && exact(byl(self.fst.v(), p, ts[0].ilabel), ts[0].weight, self.delta) && self.chain(self.pairs(ts[0].nextstate), ts.skip(1)) }
    pub open spec fn runw(&self, p: Seq<El<W>>, ts: Seq<Tr<W>>) -> W decreases ts.len() { if ts.len() == 0 { wsum(p, finf(self.fst.v())) } else { ts[0].weight.stimes(self.runw(self.pairs(ts[0].nextstate), ts.skip(1))) } }
    // C10: a run of the determinized machine has the weight its label sequence has in the input, summed over all its paths
    pub proof fn det_run(&self, p: Seq<El<W>>, ts: Seq<Tr<W>>) requires ring::<W>(), self.chain(p, ts) ensures self.runw(p, ts) == val(self.fst.v(), p, Seq::new(ts.len(), |i: int| ts[i].ilabel)) decreases ts.len()
    {
        let x = Seq::new(ts.len(), |i: int| ts[i].ilabel);
        if ts.len() == 0 { assert(lwf(self.fst.v(), x) =~= finf(self.fst.v())); }
        else { let t = ts.skip(1); let y = Seq::new(t.len(), |i: int| t[i].ilabel); self.det_run(self.pairs(ts[0].nextstate), t); assert(x =~= seq![ts[0].ilabel] + y); det_step::<W, CD>(self.fst.v(), p, ts[0].ilabel, y, self.pairs(ts[0].nextstate), self.delta); }
    }
}
}
