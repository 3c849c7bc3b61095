//@use vector
//@use hmap
verus! {
// ---- C15: state tables, caches and lazy machines. A Mutex is taken as exclusive access to what it guards
// (`.lock().unwrap()` is dropped and methods that lock take `&mut self`): every method keeps one lock for all it reads and writes.

// -- state tables: a one-to-one correspondence between tuples and 0..n, in order of first use
#[verifier::reject_recursive_types(T)]
//@type algorithms/lazy/state_table.rs :: struct BiHashMap
//@tsub `< T : Hash + Eq + Clone , H : BuildHasher = RandomState >` => `< T >`
//@tsub `HashMap < T , StateId , H >` => `HMap < T , StateId >`
impl<T: Clone> BiHashMap<T> {
    pub open spec fn inv(&self) -> bool {
        &&& self.id_to_tuple@.len() < u32::MAX
        &&& forall|t: T| #[trigger] self.tuple_to_id.m().dom().contains(t) ==> self.tuple_to_id.m()[t] < self.id_to_tuple@.len() && self.id_to_tuple@[self.tuple_to_id.m()[t] as int] == t
        &&& forall|i: int| 0 <= i < self.id_to_tuple@.len() ==> self.tuple_to_id.m().dom().contains(#[trigger] self.id_to_tuple@[i]) && self.tuple_to_id.m()[self.id_to_tuple@[i]] == i
    }
//@fn algorithms/lazy/state_table.rs :: BiHashMap :: new
    ensures r.inv(), r.id_to_tuple@.len() == 0,
@sub `HashMap :: new ( )` => `HMap :: new ( )`
@tail
proof { assert(r__.id_to_tuple@ =~= Seq::<T>::empty()); }
//@end
//@fn algorithms/lazy/state_table.rs :: BiHashMap :: get_id_or_insert
    requires old(self).inv(), old(self).id_to_tuple@.len() + 1 < u32::MAX,
    ensures final(self).inv(), r < final(self).id_to_tuple@.len(), final(self).id_to_tuple@[r as int] == tuple,
        final(self).id_to_tuple@ == old(self).id_to_tuple@ || (r == old(self).id_to_tuple@.len() && final(self).id_to_tuple@ == old(self).id_to_tuple@.push(tuple)),
@sub `Entry :: Occupied` => `HEntry :: Occupied`
@sub `Entry :: Vacant` => `HEntry :: Vacant`
@before `n }`
proof {
    let o = old(self).id_to_tuple@; let om = old(self).tuple_to_id.m();
    assert(self.id_to_tuple@ == o.push(tuple) && self.tuple_to_id.m() == om.insert(tuple, n));
    assert forall|i: int| 0 <= i < self.id_to_tuple@.len() implies self.tuple_to_id.m().dom().contains(#[trigger] self.id_to_tuple@[i]) && self.tuple_to_id.m()[self.id_to_tuple@[i]] == i by { if i < o.len() { assert(self.id_to_tuple@[i] == o[i]); assert(om.dom().contains(o[i])); } }
    assert forall|t: T| #[trigger] self.tuple_to_id.m().dom().contains(t) implies self.tuple_to_id.m()[t] < self.id_to_tuple@.len() && self.id_to_tuple@[self.tuple_to_id.m()[t] as int] == t by { if t != tuple { assert(om.dom().contains(t)); } }
}
//@end
//@fn algorithms/lazy/state_table.rs :: BiHashMap :: get_tuple_unchecked
    requires self.inv(), id < self.id_to_tuple@.len(),
    ensures r == self.id_to_tuple@[id as int],
//@end
}

#[verifier::reject_recursive_types(T)]
//@type algorithms/lazy/state_table.rs :: struct StateTable
//@tsub `< T : Hash + Eq + Clone >` => `< T >`
//@tsub `Mutex < BiHashMap < T > >` => `BiHashMap < T >`
impl<T: Clone> StateTable<T> {
    pub open spec fn inv(&self) -> bool { self.table.inv() }
    pub open spec fn t(&self) -> Seq<T> { self.table.id_to_tuple@ }
//@fn algorithms/lazy/state_table.rs :: StateTable :: new
    ensures r.inv(), r.t().len() == 0,
@sub `Mutex :: new ( BiHashMap :: new ( ) )` => `BiHashMap :: new ( )`
//@end
//@fn algorithms/lazy/state_table.rs :: StateTable :: find_id
    requires old(self).inv(), old(self).t().len() + 1 < u32::MAX,
    ensures final(self).inv(), r < final(self).t().len(), final(self).t()[r as int] == tuple,
        final(self).t() == old(self).t() || (r == old(self).t().len() && final(self).t() == old(self).t().push(tuple)),
@sub `& self` => `& mut self`
@sub `let mut table = self . table . lock ( ) . unwrap ( )` => `let table = & mut self . table`
//@end
//@fn algorithms/lazy/state_table.rs :: StateTable :: find_id_from_ref
    requires old(self).inv(), old(self).t().len() + 1 < u32::MAX,
    ensures final(self).inv(), r < final(self).t().len(), final(self).t()[r as int] == *tuple,
        final(self).t() == old(self).t() || (r == old(self).t().len() && final(self).t() == old(self).t().push(*tuple)),
@sub `& self` => `& mut self`
@sub `let mut table = self . table . lock ( ) . unwrap ( )` => `let table = & mut self . table`
//@end
//@fn algorithms/lazy/state_table.rs :: StateTable :: find_tuple
    requires self.inv(), tuple_id < self.t().len(),
    ensures r == self.t()[tuple_id as int],
@sub `let table = self . table . lock ( ) . unwrap ( )` => `let table = & self . table`
//@end
}

// -- caches
//@type algorithms/lazy/cache/cache_status.rs :: enum CacheStatus
impl<T: Copy> Copy for CacheStatus<T> { }
impl<T: Clone> Clone for CacheStatus<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
//@type algorithms/lazy/cache/cache_internal_types.rs :: type StartState
//@type algorithms/lazy/cache/cache_internal_types.rs :: type FinalWeight
//@type algorithms/lazy/cache/cache_internal_types.rs :: struct CacheTrs
//@type algorithms/lazy/cache/cache_internal_types.rs :: struct CachedData
impl<W: Semiring> Clone for CacheTrs<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
#[verifier::external_body]
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }) { v.resize(n, x) }
impl<T> CacheStatus<T> {
    pub open spec fn opt(self) -> Option<T> { match self { CacheStatus::Computed(x) => Some(x), CacheStatus::NotComputed => None } }
//@fn algorithms/lazy/cache/cache_status.rs :: CacheStatus :: map
    requires self is Computed ==> call_requires(f, (self->Computed_0,)),
    ensures r is Computed <==> self is Computed, self is Computed ==> call_ensures(f, (self->Computed_0,), r->Computed_0),
//@end
//@fn algorithms/lazy/cache/cache_status.rs :: CacheStatus :: into_option
    ensures r == self.opt(),
//@end
}
impl<T> CachedData<CacheStatus<T>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<T>CachedData<CacheStatus<T>> :: clear rename=clear_start
    ensures final(self).data is NotComputed, final(self).num_known_states == 0,
//@end
}
impl<T> CachedData<Vec<T>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<T>CachedData<Vec<T>> :: clear rename=clear_vec
    ensures final(self).data@.len() == 0, final(self).num_known_states == 0,
//@end
}
impl<K, V> CachedData<HMap<K, V>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<K,V>CachedData<HashMap<K,V>> :: clear rename=clear_map
    ensures final(self).data.m() == Map::<K, V>::empty(), final(self).num_known_states == 0,
//@end
}
impl<T> CachedData<Vec<CacheStatus<T>>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<T>CachedData<Vec<CacheStatus<T>>> :: get
    ensures r is Computed <==> idx < self.data@.len() && self.data@[idx as int] is Computed, r is Computed ==> *(r->Computed_0) == self.data@[idx as int]->Computed_0,
//@end
}
// what a cache holds: the start state, the transitions and the final weight of the states inserted so far
#[verifier::reject_recursive_types(W)]
pub struct CacheV<W> { pub start: Option<Option<StateId>>, pub trs: IMap<StateId, Seq<Tr<W>>>, pub fin: IMap<StateId, Option<W>> }
impl<W> CacheV<W> {
    // every state named by the start state, a transition or a final weight is below n
    pub open spec fn named(self, n: nat) -> bool {
        &&& self.start is Some && self.start->0 is Some ==> self.start->0->0 < n
        &&& forall|q: StateId, k: int| self.trs.dom().contains(q) && 0 <= k < self.trs[q].len() ==> (#[trigger] self.trs[q][k]).nextstate < n
        &&& forall|q: StateId| #[trigger] self.fin.dom().contains(q) ==> q < n
    }
}
impl<W> CacheV<W> {
    // q was reported as the start state, as the target of a transition, or asked for its final weight
    pub open spec fn names(self, q: StateId) -> bool {
        ||| self.start == Some(Some(q))
        ||| exists|a: StateId, k: int| self.trs.dom().contains(a) && 0 <= k < self.trs[a].len() && (#[trigger] self.trs[a][k]).nextstate == q
        ||| self.fin.dom().contains(q)
    }
}
pub trait FstCache<W: Semiring>: Sized {
    spec fn c(&self) -> CacheV<W>;
    spec fn inv(&self) -> bool;
    fn get_start(&self) -> (r: CacheStatus<Option<StateId>>) requires self.inv() ensures r.opt() == self.c().start;
    fn insert_start(&mut self, id: Option<StateId>) requires old(self).inv() ensures final(self).inv(), final(self).c() == (CacheV { start: Some(id), ..old(self).c() });
    fn get_trs(&self, id: StateId) -> (r: CacheStatus<TrsVec<W>>) requires self.inv() ensures r is Computed <==> self.c().trs.dom().contains(id), r is Computed ==> r->Computed_0.tv() == self.c().trs[id];
    fn insert_trs(&mut self, id: StateId, trs: TrsVec<W>) requires old(self).inv() ensures final(self).inv(), final(self).c() == (CacheV { trs: old(self).c().trs.insert(id, trs.tv()), ..old(self).c() });
    fn get_final_weight(&self, id: StateId) -> (r: CacheStatus<Option<W>>) requires self.inv() ensures r is Computed <==> self.c().fin.dom().contains(id), r is Computed ==> r->Computed_0 == self.c().fin[id];
    fn insert_final_weight(&mut self, id: StateId, weight: Option<W>) requires old(self).inv() ensures final(self).inv(), final(self).c() == (CacheV { fin: old(self).c().fin.insert(id, weight), ..old(self).c() });
    fn num_known_states(&self) -> (r: usize) requires self.inv() ensures self.c().named(r as nat);
    fn num_trs(&self, id: StateId) -> (r: Option<usize>) requires self.inv() ensures r is Some <==> self.c().trs.dom().contains(id), r is Some ==> r->0 == self.c().trs[id].len();
    fn num_input_epsilons(&self, id: StateId) -> (r: Option<usize>) requires self.inv() ensures r is Some <==> self.c().trs.dom().contains(id), r is Some ==> r->0 == cnt_i(self.c().trs[id]);
    fn num_output_epsilons(&self, id: StateId) -> (r: Option<usize>) requires self.inv() ensures r is Some <==> self.c().trs.dom().contains(id), r is Some ==> r->0 == cnt_o(self.c().trs[id]);
}
pub proof fn lz_cnt<W>(t: Seq<Tr<W>>, k: int) requires 0 <= k < t.len() ensures cnt_i(t.take(k + 1)) == cnt_i(t.take(k)) + (if t[k].ilabel == EPS_LABEL { 1nat } else { 0nat }), cnt_o(t.take(k + 1)) == cnt_o(t.take(k)) + (if t[k].olabel == EPS_LABEL { 1nat } else { 0nat }), cnt_i(t.take(k)) <= k, cnt_o(t.take(k)) <= k
{ assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t.take(k + 1).last() == t[k]); lz_cle(t.take(k)); }
pub proof fn lz_cle<W>(t: Seq<Tr<W>>) ensures cnt_i(t) <= t.len(), cnt_o(t) <= t.len() decreases t.len() { if t.len() > 0 { lz_cle(t.drop_last()); } }
pub proof fn trs_len<W: Semiring>(t: &TrsVec<W>) ensures t.tv().len() <= usize::MAX { let n = t.0.len(); assert(n as int == t.tv().len()); }
pub open spec fn below<W>(t: Seq<Tr<W>>, n: nat) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).nextstate < n }
pub open spec fn ct_ok<W: Semiring>(c: CacheTrs<W>, n: nat) -> bool { c.niepsilons == cnt_i(c.trs.tv()) && c.noepsilons == cnt_o(c.trs.tv()) && below(c.trs.tv(), n) }

#[verifier::reject_recursive_types(W)]
//@type algorithms/lazy/cache/simple_vec_cache.rs :: struct SimpleVecCache
//@tsub `Mutex < CachedData < CacheStatus < StartState > > >` => `CachedData < CacheStatus < StartState > >`
//@tsub `Mutex < CachedData < Vec < CacheStatus < CacheTrs < W > > > > >` => `CachedData < Vec < CacheStatus < CacheTrs < W > > > >`
//@tsub `Mutex < CachedData < Vec < CacheStatus < FinalWeight < W > > > > >` => `CachedData < Vec < CacheStatus < FinalWeight < W > > > >`
impl<W: Semiring> SimpleVecCache<W> {
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: SimpleVecCache :: clear
    ensures final(self).inv(), final(self).c() == (CacheV { start: None, trs: IMap::empty(), fin: IMap::empty() }),
@sub `& self` => `& mut self`
@sub `let mut data_start = self . start . lock ( ) . unwrap ( ) ; data_start . clear ( )` => `let data_start = & mut self . start ; data_start . clear_start ( )`
@sub `let mut data_trs = self . trs . lock ( ) . unwrap ( ) ; data_trs . clear ( )` => `let data_trs = & mut self . trs ; data_trs . clear_vec ( )`
@sub `let mut data_final_weights = self . final_weights . lock ( ) . unwrap ( ) ; data_final_weights . clear ( )` => `let data_final_weights = & mut self . final_weights ; data_final_weights . clear_vec ( )`
@end
proof { assert(self.c().trs =~= IMap::empty()); assert(self.c().fin =~= IMap::empty()); }
//@end
}
impl<W: Semiring> FstCache<W> for SimpleVecCache<W> {
    open spec fn c(&self) -> CacheV<W> {
        CacheV { start: self.start.data.opt(),
            trs: IMap::new(|q: StateId| q < self.trs.data@.len() && self.trs.data@[q as int] is Computed, |q: StateId| self.trs.data@[q as int]->Computed_0.trs.tv()),
            fin: IMap::new(|q: StateId| q < self.final_weights.data@.len() && self.final_weights.data@[q as int] is Computed, |q: StateId| self.final_weights.data@[q as int]->Computed_0) }
    }
    open spec fn inv(&self) -> bool {
        &&& self.start.data is Computed && self.start.data->Computed_0 is Some ==> self.start.data->Computed_0->0 < self.start.num_known_states
        &&& forall|q: int| 0 <= q < self.trs.data@.len() && (#[trigger] self.trs.data@[q]) is Computed ==> ct_ok(self.trs.data@[q]->Computed_0, self.trs.num_known_states as nat)
        &&& forall|q: int| 0 <= q < self.final_weights.data@.len() && (#[trigger] self.final_weights.data@[q]) is Computed ==> q < self.final_weights.num_known_states
    }
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: get_start nopub
@sub `. lock ( ) . unwrap ( )` => ``
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: insert_start nopub
@sub `& self` => `& mut self`
@sub `let mut cached_data = self . start . lock ( ) . unwrap ( )` => `let cached_data = & mut self . start`
@sub `std :: cmp :: max` => `vmax`
@end
proof { assert(self.c().trs =~= old(self).c().trs); assert(self.c().fin =~= old(self).c().fin); }
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: get_trs nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| e | e . trs . shallow_clone ( )` => `| e : & CacheTrs < W > | -> ( r : TrsVec < W > ) ensures r . tv ( ) == e . trs . tv ( ) { e . trs . shallow_clone ( ) }`
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: insert_trs nopub
@sub `& self` => `& mut self`
@sub `let mut cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & mut self . trs`
@sub `std :: cmp :: max` => `vmax`
@sub `cached_data . data . resize ( id + 1 , CacheStatus :: NotComputed )` => `vec_resize ( & mut cached_data . data , id + 1 , CacheStatus :: NotComputed )`
@before `for tr in trs . trs ( )`
proof { trs_len(&trs); }
@loop 0 it=jt
    invariant jt.seq().len() == trs.tv().len(), forall|k: int| 0 <= k < trs.tv().len() ==> *(#[trigger] jt.seq()[k]) == trs.tv()[k], trs.tv().len() <= usize::MAX, jt.seq().len() <= usize::MAX,
        cached_data.data == old(self).trs.data, cached_data.num_known_states >= old(self).trs.num_known_states,
        niepsilons == cnt_i(trs.tv().take(jt.index@)), noepsilons == cnt_o(trs.tv().take(jt.index@)), below(trs.tv().take(jt.index@), cached_data.num_known_states as nat),
@loop_start 0
let ghost kk = jt.index@; proof { lz_cnt(trs.tv(), kk); }
@loop_end 0
proof {
    let t = trs.tv(); lz_cnt(t, kk);
    assert(below(t.take(kk + 1), cached_data.num_known_states as nat)) by { assert forall|k: int| 0 <= k < t.take(kk + 1).len() implies (#[trigger] t.take(kk + 1)[k]).nextstate < cached_data.num_known_states by { if k < kk { assert(t.take(kk)[k] == t.take(kk + 1)[k]); } } }
}
@end
proof { assert(trs.tv().take(trs.tv().len() as int) =~= trs.tv()); assert(self.c().trs =~= old(self).c().trs.insert(id as StateId, trs.tv())); assert(self.c().fin =~= old(self).c().fin); }
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: get_final_weight nopub
@sub `let cached_data = self . final_weights . lock ( ) . unwrap ( )` => `let cached_data = & self . final_weights`
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: insert_final_weight nopub
@sub `& self` => `& mut self`
@sub `let mut cached_data = self . final_weights . lock ( ) . unwrap ( )` => `let cached_data = & mut self . final_weights`
@sub `std :: cmp :: max` => `vmax`
@sub `cached_data . data . resize ( id + 1 , CacheStatus :: NotComputed )` => `vec_resize ( & mut cached_data . data , id + 1 , CacheStatus :: NotComputed )`
@end
proof { assert(self.c().trs =~= old(self).c().trs); assert(self.c().fin =~= old(self).c().fin.insert(id as StateId, weight)); }
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: num_known_states nopub
@sub `. lock ( ) . unwrap ( )` => `` #all
@sub `std :: cmp :: max` => `vmax` #all
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: num_trs nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| e | e . trs . len ( )` => `| e : & CacheTrs < W > | -> ( r : usize ) ensures r == e . trs . tv ( ) . len ( ) { e . trs . len ( ) }`
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: num_input_epsilons nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| e | e . niepsilons` => `| e : & CacheTrs < W > | -> ( r : usize ) ensures r == e . niepsilons { e . niepsilons }`
//@end
//@fn algorithms/lazy/cache/simple_vec_cache.rs :: FstCache for SimpleVecCache :: num_output_epsilons nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| e | e . noepsilons` => `| e : & CacheTrs < W > | -> ( r : usize ) ensures r == e . noepsilons { e . noepsilons }`
//@end
}

#[verifier::reject_recursive_types(W)]
//@type algorithms/lazy/cache/simple_hash_map_cache.rs :: struct SimpleHashMapCache
//@tsub `Mutex < CachedData < CacheStatus < StartState > > >` => `CachedData < CacheStatus < StartState > >`
//@tsub `Mutex < CachedData < HashMap < StateId , CacheTrs < W > > > >` => `CachedData < HMap < StateId , CacheTrs < W > > >`
//@tsub `Mutex < CachedData < HashMap < StateId , FinalWeight < W > > > >` => `CachedData < HMap < StateId , FinalWeight < W > > >`
impl<K, V: Semiring> CachedData<HMap<K, CacheTrs<V>>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<K:Hash+Eq,V:Semiring>CachedData<HashMap<K,CacheTrs<V>>> :: get
    ensures r is Some <==> self.data.m().dom().contains(idx), r is Some ==> *(r->0) == self.data.m()[idx],
//@end
}
impl<K, W: Semiring> CachedData<HMap<K, FinalWeight<W>>> {
//@fn algorithms/lazy/cache/cache_internal_types.rs :: =impl<K:Hash+Eq,W:Semiring>CachedData<HashMap<K,FinalWeight<W>>> :: get rename=get_fw
    ensures r is Some <==> self.data.m().dom().contains(idx), r is Some ==> *(r->0) == self.data.m()[idx],
//@end
}
impl<W: Semiring> SimpleHashMapCache<W> {
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: SimpleHashMapCache :: clear
    ensures final(self).inv(), final(self).c() == (CacheV { start: None, trs: IMap::empty(), fin: IMap::empty() }),
@sub `& self` => `& mut self`
@sub `let mut data_start = self . start . lock ( ) . unwrap ( ) ; data_start . clear ( )` => `let data_start = & mut self . start ; data_start . clear_start ( )`
@sub `let mut data_trs = self . trs . lock ( ) . unwrap ( ) ; data_trs . clear ( )` => `let data_trs = & mut self . trs ; data_trs . clear_map ( )`
@sub `let mut data_final_weights = self . final_weights . lock ( ) . unwrap ( ) ; data_final_weights . clear ( )` => `let data_final_weights = & mut self . final_weights ; data_final_weights . clear_map ( )`
@end
proof { assert(self.c().trs =~= IMap::empty()); assert(self.c().fin =~= IMap::empty()); }
//@end
}
impl<W: Semiring> FstCache<W> for SimpleHashMapCache<W> {
    open spec fn c(&self) -> CacheV<W> {
        CacheV { start: self.start.data.opt(),
            trs: IMap::new(|q: StateId| self.trs.data.m().dom().contains(q), |q: StateId| self.trs.data.m()[q].trs.tv()),
            fin: IMap::new(|q: StateId| self.final_weights.data.m().dom().contains(q), |q: StateId| self.final_weights.data.m()[q]) }
    }
    open spec fn inv(&self) -> bool {
        &&& self.start.data is Computed && self.start.data->Computed_0 is Some ==> self.start.data->Computed_0->0 < self.start.num_known_states
        &&& forall|q: StateId| (#[trigger] self.trs.data.m().dom().contains(q)) ==> ct_ok(self.trs.data.m()[q], self.trs.num_known_states as nat)
        &&& forall|q: StateId| (#[trigger] self.final_weights.data.m().dom().contains(q)) ==> q < self.final_weights.num_known_states
    }
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: get_start nopub
@sub `let res = self . start . lock ( ) . unwrap ( )` => `let res = & self . start`
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: insert_start nopub
@sub `& self` => `& mut self`
@sub `let mut data = self . start . lock ( ) . unwrap ( )` => `let data = & mut self . start`
@sub `std :: cmp :: max` => `vmax`
@end
proof { assert(self.c().trs =~= old(self).c().trs); assert(self.c().fin =~= old(self).c().fin); }
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: get_trs nopub
@sub `. lock ( ) . unwrap ( )` => ``
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: insert_trs nopub
@sub `& self` => `& mut self`
@sub `let mut cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & mut self . trs`
@sub `std :: cmp :: max` => `vmax`
@before `for tr in trs . trs ( )`
proof { trs_len(&trs); }
@loop 0 it=jt
    invariant jt.seq().len() == trs.tv().len(), forall|k: int| 0 <= k < trs.tv().len() ==> *(#[trigger] jt.seq()[k]) == trs.tv()[k], trs.tv().len() <= usize::MAX, jt.seq().len() <= usize::MAX,
        cached_data.data == old(self).trs.data, cached_data.num_known_states >= old(self).trs.num_known_states,
        niepsilons == cnt_i(trs.tv().take(jt.index@)), noepsilons == cnt_o(trs.tv().take(jt.index@)), below(trs.tv().take(jt.index@), cached_data.num_known_states as nat),
@loop_start 0
let ghost kk = jt.index@; proof { lz_cnt(trs.tv(), kk); }
@loop_end 0
proof {
    let t = trs.tv(); lz_cnt(t, kk);
    assert(below(t.take(kk + 1), cached_data.num_known_states as nat)) by { assert forall|k: int| 0 <= k < t.take(kk + 1).len() implies (#[trigger] t.take(kk + 1)[k]).nextstate < cached_data.num_known_states by { if k < kk { assert(t.take(kk)[k] == t.take(kk + 1)[k]); } } }
}
@end
proof { assert(trs.tv().take(trs.tv().len() as int) =~= trs.tv()); assert(self.c().trs =~= old(self).c().trs.insert(id, trs.tv())); assert(self.c().fin =~= old(self).c().fin); }
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: get_final_weight nopub
@sub `. lock ( ) . unwrap ( ) . get (` => `. get_fw (`
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: insert_final_weight nopub
@sub `& self` => `& mut self`
@sub `let mut cached_data = self . final_weights . lock ( ) . unwrap ( )` => `let cached_data = & mut self . final_weights`
@sub `std :: cmp :: max` => `vmax`
@end
proof { assert(self.c().trs =~= old(self).c().trs); assert(self.c().fin =~= old(self).c().fin.insert(id, weight)); }
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: num_known_states nopub
@sub `. lock ( ) . unwrap ( )` => `` #all
@sub `std :: cmp :: max` => `vmax` #all
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: num_trs nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| v | v . trs . len ( )` => `| v : & CacheTrs < W > | -> ( r : usize ) ensures r == v . trs . tv ( ) . len ( ) { v . trs . len ( ) }`
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: num_input_epsilons nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| v | v . niepsilons` => `| v : & CacheTrs < W > | -> ( r : usize ) ensures r == v . niepsilons { v . niepsilons }`
//@end
//@fn algorithms/lazy/cache/simple_hash_map_cache.rs :: FstCache for SimpleHashMapCache :: num_output_epsilons nopub
@sub `let cached_data = self . trs . lock ( ) . unwrap ( )` => `let cached_data = & self . trs`
@sub `| v | v . noepsilons` => `| v : & CacheTrs < W > | -> ( r : usize ) ensures r == v . noepsilons { v . noepsilons }`
//@end
}

// the cache in front of a cache that remembers the last entry of each kind
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(Cache)]
//@type algorithms/lazy/cache/first_cache.rs :: struct FirstCache
//@tsub `Mutex < Option < ( StateId , TrsVec < W > ) > >` => `Option < ( StateId , TrsVec < W > ) >`
//@tsub `Mutex < Option < ( StateId , Option < W > ) > >` => `Option < ( StateId , Option < W > ) >`
impl<W: Semiring, Cache: FstCache<W>> FstCache<W> for FirstCache<W, Cache> {
    open spec fn c(&self) -> CacheV<W> { self.cache.c() }
    open spec fn inv(&self) -> bool {
        &&& self.cache.inv()
        &&& self.last_trs is Some ==> self.cache.c().trs.dom().contains((self.last_trs->0).0) && self.cache.c().trs[(self.last_trs->0).0] == (self.last_trs->0).1.tv()
        &&& self.last_final_weight is Some ==> self.cache.c().fin.dom().contains((self.last_final_weight->0).0) && self.cache.c().fin[(self.last_final_weight->0).0] == (self.last_final_weight->0).1
    }
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: get_start nopub
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: insert_start nopub
@sub `& self` => `& mut self`
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: get_trs nopub
@sub `let data = self . last_trs . lock ( ) . unwrap ( )` => `let data = & self . last_trs`
@sub `& * data` => `data`
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: insert_trs nopub
@sub `& self` => `& mut self`
@sub `let mut data = self . last_trs . lock ( ) . unwrap ( )` => `let data = & mut self . last_trs`
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: get_final_weight nopub
@sub `let data = self . last_final_weight . lock ( ) . unwrap ( )` => `let data = & self . last_final_weight`
@sub `& * data` => `data`
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: insert_final_weight nopub
@sub `& self` => `& mut self`
@sub `let mut data = self . last_final_weight . lock ( ) . unwrap ( )` => `let data = & mut self . last_final_weight`
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: num_known_states nopub
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: num_trs nopub
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: num_input_epsilons nopub
//@end
//@fn algorithms/lazy/cache/first_cache.rs :: FstCache for FirstCache :: num_output_epsilons nopub
//@end
}

// -- LazyFst
pub trait OpV<W: Semiring>: Sized {
    spec fn o_start(&self) -> Option<StateId>;
    spec fn o_trs(&self, q: StateId) -> Seq<Tr<W>>;
    spec fn o_fin(&self, q: StateId) -> Option<W>;
    spec fn o_props(&self) -> FstProperties;
    spec fn o_start_ok(&self) -> bool;
    spec fn o_ok(&self, q: StateId) -> bool;
}
// an operation computes the same machine each time it is asked
pub trait FstOp<W: Semiring>: OpV<W> {
    fn compute_start(&self) -> (r: Result<Option<StateId>>) ensures self.o_start_ok() ==> r is Ok, r is Ok ==> r->Ok_0 == self.o_start();
    fn compute_trs(&self, id: StateId) -> (r: Result<TrsVec<W>>) ensures self.o_ok(id) ==> r is Ok, r is Ok ==> r->Ok_0.tv() == self.o_trs(id);
    fn compute_final_weight(&self, id: StateId) -> (r: Result<Option<W>>) ensures self.o_ok(id) ==> r is Ok, r is Ok ==> r->Ok_0 == self.o_fin(id);
    fn properties(&self) -> (r: FstProperties) ensures r == self.o_props();
}

#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(Op)]
#[verifier::reject_recursive_types(Cache)]
//@type algorithms/lazy/lazy_fst.rs :: struct LazyFst
pub open spec fn lreach<W: Semiring, Op: OpV<W>>(op: Op, p: Seq<StateId>) -> bool {
    &&& p.len() > 0 && op.o_start() == Some(p[0])
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> lstep(op, #[trigger] p[i], p[i + 1])
}
pub open spec fn lstep<W: Semiring, Op: OpV<W>>(op: Op, a: StateId, b: StateId) -> bool { exists|k: int| 0 <= k < op.o_trs(a).len() && (#[trigger] op.o_trs(a)[k]).nextstate == b }
// reachable from the start state of the operation
pub open spec fn lin<W: Semiring, Op: OpV<W>>(op: Op, q: StateId) -> bool { exists|p: Seq<StateId>| lreach(op, p) && p.last() == q }
pub proof fn lin_step<W: Semiring, Op: OpV<W>>(op: Op, a: StateId, k: int) requires lin(op, a), 0 <= k < op.o_trs(a).len() ensures lin(op, op.o_trs(a)[k].nextstate) {
    let p = choose|p: Seq<StateId>| lreach(op, p) && p.last() == a; let b = op.o_trs(a)[k].nextstate; let p2 = p.push(b);
    assert forall|i: int| 0 <= i < p2.len() - 1 implies lstep(op, #[trigger] p2[i], p2[i + 1]) by { if i < p.len() - 1 { assert(lstep(op, p[i], p[i + 1])); } else { assert(p2[i] == a && p2[i + 1] == b); } }
    assert(lreach(op, p2) && p2.last() == b);
}
pub proof fn lin_start<W: Semiring, Op: OpV<W>>(op: Op) requires op.o_start() is Some ensures lin(op, op.o_start()->0) { let p = seq![op.o_start()->0]; assert(lreach(op, p) && p.last() == op.o_start()->0); }
// a set that holds the start state and is closed under the transitions holds every reachable state
pub open spec fn closed<W: Semiring, Op: OpV<W>>(op: Op, vis: Seq<bool>) -> bool {
    &&& op.o_start() is Some && op.o_start()->0 < vis.len() && vis[op.o_start()->0 as int]
    &&& forall|q: StateId, k: int| q < vis.len() && vis[q as int] && 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < vis.len() && vis[op.o_trs(q)[k].nextstate as int]
}
pub proof fn lin_closed<W: Semiring, Op: OpV<W>>(op: Op, vis: Seq<bool>, p: Seq<StateId>, i: int) requires closed(op, vis), lreach(op, p), 0 <= i < p.len() ensures p[i] < vis.len() && vis[p[i] as int] decreases i {
    if i > 0 { lin_closed(op, vis, p, i - 1); assert(lstep(op, p[i - 1], p[i - 1 + 1])); }
}
// v is the reachable part of the operation, with the operation's state numbers; the other states are blank
pub open spec fn built<W: Semiring, Op: OpV<W>>(op: Op, v: FstV<W>) -> bool {
    &&& v.wf() && v.start == op.o_start()
    &&& forall|q: StateId| #[trigger] lin(op, q) ==> q < v.n() && v.trs[q as int] == op.o_trs(q) && v.fin[q as int] == op.o_fin(q)
    &&& forall|q: StateId| q < v.n() && !#[trigger] lin(op, q) ==> v.trs[q as int].len() == 0 && v.fin[q as int] == None::<W>
}
impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> LazyFst<W, Op, Cache> {
    // every cached answer is the operation's
    pub open spec fn coh(&self) -> bool {
        &&& self.cache.inv()
        &&& self.cache.c().start is Some ==> self.cache.c().start->0 == self.op.o_start()
        &&& forall|q: StateId| #[trigger] self.cache.c().trs.dom().contains(q) ==> self.cache.c().trs[q] == self.op.o_trs(q)
        &&& forall|q: StateId| #[trigger] self.cache.c().fin.dom().contains(q) ==> self.cache.c().fin[q] == self.op.o_fin(q)
    }
//@fn algorithms/lazy/lazy_fst.rs :: LazyFst :: from_op_and_cache
    requires cache.inv(), cache.c().start is None, cache.c().trs =~= IMap::empty(), cache.c().fin =~= IMap::empty(),
    ensures r.coh(), r.op == op,
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: start
    requires old(self).coh(), old(self).op.o_start_ok(),
    ensures final(self).coh(), final(self).op == old(self).op, r == final(self).op.o_start(), final(self).cache.c().start == Some(r),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: final_weight
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state_id) ==> r is Ok, r is Ok ==> r->Ok_0 == final(self).op.o_fin(state_id) && final(self).cache.c().fin.dom().contains(state_id),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: get_trs
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state_id) ==> r is Ok, r is Ok ==> r->Ok_0.tv() == final(self).op.o_trs(state_id) && final(self).cache.c().trs.dom().contains(state_id),
@sub `( & self` => `( & mut self`
@sub `Self :: TRS` => `TrsVec < W >`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: properties
    ensures r == self.op.o_props(),
//@end
//@fn algorithms/lazy/lazy_fst.rs :: LazyFst :: expand_known_state
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op,
        r is Ok && old(self).cache.c().names(state) ==> final(self).cache.c().trs.dom().contains(state), old(self).op.o_ok(state) ==> r is Ok,
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: num_trs
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(s) && old(self).cache.c().names(s) ==> r is Ok, r is Ok ==> r->Ok_0 == final(self).op.o_trs(s).len(),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: num_input_epsilons
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state) && old(self).cache.c().names(state) ==> r is Ok, r is Ok ==> r->Ok_0 == cnt_i(final(self).op.o_trs(state)),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: CoreFst for LazyFst :: num_output_epsilons
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state) && old(self).cache.c().names(state) ==> r is Ok, r is Ok ==> r->Ok_0 == cnt_o(final(self).op.o_trs(state)),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst.rs :: LazyFst :: compute nodecreases rlimit=60
    requires old(self).coh(), old(self).op.o_start_ok(), old(self).op.o_start() is Some ==> old(self).op.o_start()->0 < u32::MAX - 1,
        forall|q: StateId, k: int| 0 <= k < old(self).op.o_trs(q).len() ==> (#[trigger] old(self).op.o_trs(q)[k]).nextstate < u32::MAX - 1,
    ensures final(self).coh(), final(self).op == old(self).op,
        r is Ok && final(self).op.o_start() is None ==> r->Ok_0.v().start is None && r->Ok_0.v().n() == 0,
        r is Ok && final(self).op.o_start() is Some ==> built(final(self).op, r->Ok_0.v()) && r->Ok_0.p() == final(self).op.o_props(),
@sub `( & self` => `( & mut self`
@sub `let mut visited_states = vec ! [ ] ; visited_states . resize ( start_state as usize + 1 , false )` => `let mut visited_states : Vec < bool > = Vec :: new ( ) ; vec_resize ( & mut visited_states , start_state as usize + 1 , false )`
@sub `visited_states . resize ( tr . nextstate as usize + 1 , false )` => `vec_resize ( & mut visited_states , tr . nextstate as usize + 1 , false )`
@sub `if let Some ( isymt ) = & self . isymt { fst_out . set_input_symbols ( arc_clone ( isymt ) ) ; }` => ``
@sub `if let Some ( osymt ) = & self . osymt { fst_out . set_output_symbols ( arc_clone ( osymt ) ) ; }` => ``
@sub `VecDeque :: new ( )` => `std :: collections :: VecDeque :: < StateId > :: new ( )`
@before_loop 0
let ghost op = self.op; let ghost mut done: Set<StateId> = Set::empty(); let ghost mut q0 = queue@;
proof { lin_start(op); assert(queue@ =~= seq![start_state]); assert(queue@[0] == start_state); assert(queue@.contains(start_state)); fst_out.inv_len();
    assert forall|a: int, k: int| 0 <= a < fst_out.v().n() && 0 <= k < fst_out.v().trs[a].len() implies (#[trigger] fst_out.v().trs[a][k]).nextstate < fst_out.v().n() by { assert(fst_out.v().trs[a].len() == 0); } }
@loop 0
    invariant q0 == queue@, self.coh(), self.op == op, op == old(self).op, op.o_start() == Some(start_state),
        forall|q: StateId, k: int| 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < u32::MAX - 1,
        fst_out.inv(), fst_out.v().wf(), fst_out.v().start == Some(start_state), start_state < fst_out.v().n(), fst_out.v().n() < u32::MAX, visited_states@.len() == fst_out.v().n(), visited_states@[start_state as int],
        forall|i: int| 0 <= i < queue@.len() ==> (#[trigger] queue@[i]) < visited_states@.len(),
        forall|i: int| 0 <= i < queue@.len() ==> visited_states@[(#[trigger] queue@[i]) as int] && !done.contains(queue@[i]),
        queue@.no_duplicates(),
        forall|q: StateId| q < visited_states@.len() && (#[trigger] visited_states@[q as int]) ==> lin(op, q) && (done.contains(q) || queue@.contains(q)),
        forall|q: StateId| #[trigger] done.contains(q) ==> q < visited_states@.len() && visited_states@[q as int] && fst_out.v().trs[q as int] == op.o_trs(q) && fst_out.v().fin[q as int] == op.o_fin(q),
        forall|q: StateId, k: int| done.contains(q) && 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < visited_states@.len() && visited_states@[op.o_trs(q)[k].nextstate as int],
        forall|q: StateId| q < fst_out.v().n() && !#[trigger] done.contains(q) ==> fst_out.v().trs[q as int].len() == 0 && fst_out.v().fin[q as int] == None::<W>,
    ensures queue@.len() == 0,
@loop_start 0
let ghost q1 = queue@; let ghost vis1 = visited_states@; let ghost v1 = fst_out.v();
proof { assert(s == q0[0]); assert(q1 =~= q0.skip(1)); assert(!q1.contains(s)); assert forall|i: int| 0 <= i < q1.len() implies #[trigger] q1[i] == q0[i + 1] by { }
    assert forall|q: StateId| q0.contains(q) implies q == s || q1.contains(q) by { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == q; if i > 0 { assert(q1[i - 1] == q); } } }
@loop 1 it=jt
    invariant self.coh(), self.op == op, jt.seq().len() == op.o_trs(s).len(), forall|k: int| 0 <= k < op.o_trs(s).len() ==> *(#[trigger] jt.seq()[k]) == op.o_trs(s)[k],
        lin(op, s), !done.contains(s), trs_owner.tv() == op.o_trs(s),
        forall|q: StateId, k: int| 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < u32::MAX - 1,
        fst_out.inv(), fst_out.v().wf(), fst_out.v().start == Some(start_state), start_state < fst_out.v().n(), fst_out.v().n() < u32::MAX, visited_states@.len() == fst_out.v().n(), visited_states@[start_state as int], s < fst_out.v().n(), visited_states@[s as int],
        forall|i: int| 0 <= i < queue@.len() ==> (#[trigger] queue@[i]) < visited_states@.len(),
        forall|i: int| 0 <= i < queue@.len() ==> visited_states@[(#[trigger] queue@[i]) as int] && !done.contains(queue@[i]) && queue@[i] != s,
        queue@.no_duplicates(),
        forall|q: StateId| q < visited_states@.len() && (#[trigger] visited_states@[q as int]) ==> lin(op, q) && (done.contains(q) || queue@.contains(q) || q == s),
        forall|q: StateId| #[trigger] done.contains(q) ==> q < visited_states@.len() && visited_states@[q as int] && fst_out.v().trs[q as int] == op.o_trs(q) && fst_out.v().fin[q as int] == op.o_fin(q),
        forall|q: StateId, k: int| done.contains(q) && 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < visited_states@.len() && visited_states@[op.o_trs(q)[k].nextstate as int],
        forall|q: StateId| q < fst_out.v().n() && !#[trigger] done.contains(q) ==> fst_out.v().trs[q as int].len() == 0 && fst_out.v().fin[q as int] == None::<W>,
        forall|k: int| 0 <= k < jt.index@ ==> (#[trigger] op.o_trs(s)[k]).nextstate < visited_states@.len() && visited_states@[op.o_trs(s)[k].nextstate as int],
@loop_start 1
let ghost vv = visited_states@; let ghost qq = queue@; let ghost fv = fst_out.v();
proof { let k = jt.index@; assert(*tr == op.o_trs(s)[k]); lin_step(op, s, k); }
@loop_end 1
proof {
    let t = tr.nextstate;
    assert forall|q: StateId| q < visited_states@.len() && (#[trigger] visited_states@[q as int]) implies lin(op, q) && (done.contains(q) || queue@.contains(q) || q == s) by {
        if q < vv.len() && vv[q as int] { if qq.contains(q) { let i = choose|i: int| 0 <= i < qq.len() && qq[i] == q; assert(queue@[i] == q); } } else { assert(q == t); assert(queue@.last() == q); }
    }
    assert forall|q: StateId| q < fst_out.v().n() && !#[trigger] done.contains(q) implies fst_out.v().trs[q as int].len() == 0 && fst_out.v().fin[q as int] == None::<W> by { }
    assert forall|a: int, k: int| 0 <= a < fst_out.v().n() && 0 <= k < fst_out.v().trs[a].len() implies (#[trigger] fst_out.v().trs[a][k]).nextstate < fst_out.v().n() by { if a < fv.n() { assert(fst_out.v().trs[a] == fv.trs[a]); } }
}
@after_loop 1
let ghost v2 = fst_out.v();
@after `fst_out . set_final ( s , f_w ) ? ; }`
proof {
    done = done.insert(s); q0 = queue@;
    let v = fst_out.v();
    assert(v.trs[s as int] == op.o_trs(s)); assert(v.fin[s as int] == op.o_fin(s));
    assert forall|a: int, k: int| 0 <= a < v.n() && 0 <= k < v.trs[a].len() implies (#[trigger] v.trs[a][k]).nextstate < v.n() by { if a == s as int { } else if done.contains(a as StateId) { assert(v.trs[a] == op.o_trs(a as StateId)); } }
}
@tail
proof {
    let v = r__->Ok_0.v();
    assert forall|q: StateId| #[trigger] lin(op, q) implies q < v.n() && v.trs[q as int] == op.o_trs(q) && v.fin[q as int] == op.o_fin(q) by {
        let p = choose|p: Seq<StateId>| lreach(op, p) && p.last() == q;
        assert(closed(op, visited_states@)); lin_closed(op, visited_states@, p, p.len() - 1);
        assert(visited_states@[q as int]); assert(done.contains(q));
    }
    assert forall|q: StateId| q < v.n() && !#[trigger] lin(op, q) implies v.trs[q as int].len() == 0 && v.fin[q as int] == None::<W> by { assert(!done.contains(q)); }
}
//@end
}

// -- LazyFst2
pub trait FstOp2<W: Semiring>: OpV<W> {
    fn compute_start(&self) -> (r: Result<Option<StateId>>) ensures self.o_start_ok() ==> r is Ok, r is Ok ==> r->Ok_0 == self.o_start();
    fn compute_trs_and_final_weight(&self, id: StateId) -> (r: Result<(TrsVec<W>, Option<W>)>) ensures self.o_ok(id) ==> r is Ok, r is Ok ==> (r->Ok_0).0.tv() == self.o_trs(id) && (r->Ok_0).1 == self.o_fin(id);
    fn properties(&self) -> (r: FstProperties) ensures r == self.o_props();
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(Op)]
#[verifier::reject_recursive_types(Cache)]
//@type algorithms/lazy/lazy_fst_2.rs :: struct LazyFst2
impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> LazyFst2<W, Op, Cache> {
    // every cached answer is the operation's
    pub open spec fn coh(&self) -> bool {
        &&& self.cache.inv()
        &&& self.cache.c().start is Some ==> self.cache.c().start->0 == self.op.o_start()
        &&& forall|q: StateId| #[trigger] self.cache.c().trs.dom().contains(q) ==> self.cache.c().trs[q] == self.op.o_trs(q)
        &&& forall|q: StateId| #[trigger] self.cache.c().fin.dom().contains(q) ==> self.cache.c().fin[q] == self.op.o_fin(q)
    }
//@fn algorithms/lazy/lazy_fst_2.rs :: LazyFst2 :: from_op_and_cache
    requires cache.inv(), cache.c().start is None, cache.c().trs =~= IMap::empty(), cache.c().fin =~= IMap::empty(),
    ensures r.coh(), r.op == op,
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: start
    requires old(self).coh(), old(self).op.o_start_ok(),
    ensures final(self).coh(), final(self).op == old(self).op, r == final(self).op.o_start(), final(self).cache.c().start == Some(r),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: final_weight
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state_id) ==> r is Ok, r is Ok ==> r->Ok_0 == final(self).op.o_fin(state_id) && final(self).cache.c().fin.dom().contains(state_id),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: get_trs
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state_id) ==> r is Ok, r is Ok ==> r->Ok_0.tv() == final(self).op.o_trs(state_id) && final(self).cache.c().trs.dom().contains(state_id),
@sub `( & self` => `( & mut self`
@sub `Self :: TRS` => `TrsVec < W >`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: properties
    ensures r == self.op.o_props(),
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: LazyFst2 :: expand_known_state
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op,
        r is Ok && old(self).cache.c().names(state) ==> final(self).cache.c().trs.dom().contains(state), old(self).op.o_ok(state) ==> r is Ok,
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: num_trs
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(s) && old(self).cache.c().names(s) ==> r is Ok, r is Ok ==> r->Ok_0 == final(self).op.o_trs(s).len(),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: num_input_epsilons
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state) && old(self).cache.c().names(state) ==> r is Ok, r is Ok ==> r->Ok_0 == cnt_i(final(self).op.o_trs(state)),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: CoreFst for LazyFst2 :: num_output_epsilons
    requires old(self).coh(),
    ensures final(self).coh(), final(self).op == old(self).op, old(self).op.o_ok(state) && old(self).cache.c().names(state) ==> r is Ok, r is Ok ==> r->Ok_0 == cnt_o(final(self).op.o_trs(state)),
@sub `( & self` => `( & mut self`
//@end
//@fn algorithms/lazy/lazy_fst_2.rs :: LazyFst2 :: compute nodecreases rlimit=60
    requires old(self).coh(), old(self).op.o_start_ok(), old(self).op.o_start() is Some ==> old(self).op.o_start()->0 < u32::MAX - 1,
        forall|q: StateId, k: int| 0 <= k < old(self).op.o_trs(q).len() ==> (#[trigger] old(self).op.o_trs(q)[k]).nextstate < u32::MAX - 1,
    ensures final(self).coh(), final(self).op == old(self).op,
        r is Ok && final(self).op.o_start() is None ==> r->Ok_0.v().start is None && r->Ok_0.v().n() == 0,
        r is Ok && final(self).op.o_start() is Some ==> built(final(self).op, r->Ok_0.v()) && r->Ok_0.p() == final(self).op.o_props(),
@sub `( & self` => `( & mut self`
@sub `0 ..= start_state` => `0 .. ( start_state + 1 )`
@sub `n ..= ( tr . nextstate as usize )` => `n .. ( tr . nextstate as usize + 1 )`
@sub `HashSet :: new ( )` => `HSet :: < StateId > :: new ( )`
@sub `if let Some ( isymt ) = & self . isymt { fst_out . set_input_symbols ( arc_clone ( isymt ) ) ; }` => ``
@sub `if let Some ( osymt ) = & self . osymt { fst_out . set_output_symbols ( arc_clone ( osymt ) ) ; }` => ``
@sub `VecDeque :: new ( )` => `std :: collections :: VecDeque :: < StateId > :: new ( )`
@loop 0 it=it0
    invariant fst_out.inv(), fst_out.v().n() == it0.index@, fst_out.v().fin.len() == fst_out.v().trs.len(), start_state < u32::MAX - 1, it0.seq().len() == start_state + 1, fst_out.v().start is None,
        forall|a: int| 0 <= a < fst_out.v().n() ==> (#[trigger] fst_out.v().trs[a]).len() == 0,
        forall|a: int| 0 <= a < fst_out.v().n() ==> (#[trigger] fst_out.v().fin[a]) == None::<W>,
@before_loop 0
proof { fst_out.inv_len(); }
@before_loop 1
let ghost op = self.op; let ghost mut done: Set<StateId> = Set::empty(); let ghost mut q0 = queue@;
proof { lin_start(op); assert(queue@ =~= seq![start_state]); assert(queue@[0] == start_state); assert(queue@.contains(start_state));
    assert forall|a: int, k: int| 0 <= a < fst_out.v().n() && 0 <= k < fst_out.v().trs[a].len() implies (#[trigger] fst_out.v().trs[a][k]).nextstate < fst_out.v().n() by { assert(fst_out.v().trs[a].len() == 0); } }
@loop 1
    invariant q0 == queue@, self.coh(), self.op == op, op == old(self).op, op.o_start() == Some(start_state),
        forall|q: StateId, k: int| 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < u32::MAX - 1,
        fst_out.inv(), fst_out.v().wf(), fst_out.v().start == Some(start_state), start_state < fst_out.v().n(), fst_out.v().n() < u32::MAX, visited_states.s().contains(start_state),
        forall|i: int| 0 <= i < queue@.len() ==> visited_states.s().contains(#[trigger] queue@[i]) && !done.contains(queue@[i]),
        queue@.no_duplicates(),
        forall|q: StateId| (#[trigger] visited_states.s().contains(q)) ==> q < fst_out.v().n() && lin(op, q) && (done.contains(q) || queue@.contains(q)),
        forall|q: StateId| #[trigger] done.contains(q) ==> visited_states.s().contains(q) && fst_out.v().trs[q as int] == op.o_trs(q) && fst_out.v().fin[q as int] == op.o_fin(q),
        forall|q: StateId, k: int| done.contains(q) && 0 <= k < op.o_trs(q).len() ==> visited_states.s().contains((#[trigger] op.o_trs(q)[k]).nextstate),
        forall|q: StateId| q < fst_out.v().n() && !#[trigger] done.contains(q) ==> fst_out.v().trs[q as int].len() == 0 && fst_out.v().fin[q as int] == None::<W>,
    ensures queue@.len() == 0,
@loop_start 1
let ghost q1 = queue@;
proof { assert(s == q0[0]); assert(q1 =~= q0.skip(1)); assert(!q1.contains(s)); assert forall|i: int| 0 <= i < q1.len() implies #[trigger] q1[i] == q0[i + 1] by { }
    assert forall|q: StateId| q0.contains(q) implies q == s || q1.contains(q) by { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == q; if i > 0 { assert(q1[i - 1] == q); } } assert(visited_states.s().contains(s)); assert(fst_out.v().trs[s as int] =~= op.o_trs(s).take(0)); }
@before_loop 2
proof { trs_len(&g_trs); }
@loop 2 it=jt
    invariant self.coh(), self.op == op, jt.seq().len() == op.o_trs(s).len(), jt.seq().len() <= usize::MAX, forall|k: int| 0 <= k < op.o_trs(s).len() ==> *(#[trigger] jt.seq()[k]) == op.o_trs(s)[k],
        lin(op, s), !done.contains(s),
        forall|q: StateId, k: int| 0 <= k < op.o_trs(q).len() ==> (#[trigger] op.o_trs(q)[k]).nextstate < u32::MAX - 1,
        fst_out.inv(), fst_out.v().wf(), fst_out.v().start == Some(start_state), start_state < fst_out.v().n(), fst_out.v().n() < u32::MAX, visited_states.s().contains(start_state), visited_states.s().contains(s), s < fst_out.v().n(),
        forall|i: int| 0 <= i < queue@.len() ==> visited_states.s().contains(#[trigger] queue@[i]) && !done.contains(queue@[i]) && queue@[i] != s,
        queue@.no_duplicates(),
        forall|q: StateId| (#[trigger] visited_states.s().contains(q)) ==> q < fst_out.v().n() && lin(op, q) && (done.contains(q) || queue@.contains(q) || q == s),
        forall|q: StateId| #[trigger] done.contains(q) ==> visited_states.s().contains(q) && fst_out.v().trs[q as int] == op.o_trs(q) && fst_out.v().fin[q as int] == op.o_fin(q),
        forall|q: StateId, k: int| done.contains(q) && 0 <= k < op.o_trs(q).len() ==> visited_states.s().contains((#[trigger] op.o_trs(q)[k]).nextstate),
        forall|q: StateId| q < fst_out.v().n() && !#[trigger] done.contains(q) ==> (q != s ==> fst_out.v().trs[q as int].len() == 0) && fst_out.v().fin[q as int] == None::<W>,
        fst_out.v().trs[s as int] == op.o_trs(s).take(jt.index@),
        forall|k: int| 0 <= k < jt.index@ ==> visited_states.s().contains((#[trigger] op.o_trs(s)[k]).nextstate),
@loop_start 2
let ghost vv = visited_states.s(); let ghost qq = queue@; let ghost fv = fst_out.v(); let ghost kk = jt.index@;
proof { assert(*tr == op.o_trs(s)[kk]); lin_step(op, s, kk); fst_out.inv_len(); }
@loop 3 it=lt
    invariant fst_out.inv(), fst_out.v().fin.len() == fst_out.v().trs.len(), fst_out.v().n() == n + lt.index@, lt.seq().len() == (if n <= tr.nextstate { tr.nextstate + 1 - n } else { 0int }), n == fv.n(), n < u32::MAX, tr.nextstate < u32::MAX - 1, fst_out.v().start == fv.start,
        forall|a: int| 0 <= a < fst_out.v().n() ==> (#[trigger] fst_out.v().trs[a]) == (if a < n { fv.trs[a] } else { Seq::<Tr<W>>::empty() }),
        forall|a: int| 0 <= a < fst_out.v().n() ==> (#[trigger] fst_out.v().fin[a]) == (if a < n { fv.fin[a] } else { None::<W> }),
@loop_end 2
proof {
    let t = tr.nextstate;
    assert(op.o_trs(s).take(kk + 1) =~= op.o_trs(s).take(kk).push(op.o_trs(s)[kk]));
    assert forall|q: StateId| (#[trigger] visited_states.s().contains(q)) implies q < fst_out.v().n() && lin(op, q) && (done.contains(q) || queue@.contains(q) || q == s) by {
        if vv.contains(q) { if qq.contains(q) { let i = choose|i: int| 0 <= i < qq.len() && qq[i] == q; assert(queue@[i] == q); } } else { assert(q == t); assert(queue@.last() == q); }
    }
    assert forall|a: int, k: int| 0 <= a < fst_out.v().n() && 0 <= k < fst_out.v().trs[a].len() implies (#[trigger] fst_out.v().trs[a][k]).nextstate < fst_out.v().n() by { if a == s as int { assert(fst_out.v().trs[a] == op.o_trs(s).take(kk + 1)); assert(visited_states.s().contains(op.o_trs(s)[k].nextstate)); } else if a < fv.n() { assert(fst_out.v().trs[a] == fv.trs[a]); } else { assert(fst_out.v().trs[a].len() == 0); } }
}
@after_loop 2
proof { assert(op.o_trs(s).take(op.o_trs(s).len() as int) =~= op.o_trs(s)); }
@after `fst_out . set_final ( s , f_w ) ? ; }`
proof {
    done = done.insert(s); q0 = queue@;
    let v = fst_out.v();
    assert(v.trs[s as int] == op.o_trs(s)); assert(v.fin[s as int] == op.o_fin(s));
    assert forall|a: int, k: int| 0 <= a < v.n() && 0 <= k < v.trs[a].len() implies (#[trigger] v.trs[a][k]).nextstate < v.n() by { if a == s as int { } else if done.contains(a as StateId) { assert(v.trs[a] == op.o_trs(a as StateId)); } }
}
@tail
proof {
    let v = r__->Ok_0.v(); let vis = Seq::new(v.n(), |i: int| visited_states.s().contains(i as StateId));
    assert forall|q: StateId| #[trigger] lin(op, q) implies q < v.n() && v.trs[q as int] == op.o_trs(q) && v.fin[q as int] == op.o_fin(q) by {
        let p = choose|p: Seq<StateId>| lreach(op, p) && p.last() == q;
        assert(closed(op, vis)) by {
            assert(vis[op.o_start()->0 as int]);
            assert forall|q: StateId, k: int| q < vis.len() && vis[q as int] && 0 <= k < op.o_trs(q).len() implies (#[trigger] op.o_trs(q)[k]).nextstate < vis.len() && vis[op.o_trs(q)[k].nextstate as int] by { assert(visited_states.s().contains(q)); assert(done.contains(q)); assert(visited_states.s().contains(op.o_trs(q)[k].nextstate)); }
        }
        lin_closed(op, vis, p, p.len() - 1);
        assert(vis[q as int]); assert(visited_states.s().contains(q)); assert(done.contains(q));
    }
    assert forall|q: StateId| q < v.n() && !#[trigger] lin(op, q) implies v.trs[q as int].len() == 0 && v.fin[q as int] == None::<W> by { if done.contains(q) { assert(visited_states.s().contains(q)); } }
}
//@end
}
}
