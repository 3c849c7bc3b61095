//@use core
verus! {
// ---- std::collections::HashMap<K, V>, assumed to be a map whose keys are equal exactly when they are the same value
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum HEntry<'a, K, V> { Occupied(HOcc<V>), Vacant(HVac<'a, K, V>) }
pub struct HOcc<V> { pub val: V }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HVac<'a, K, V> { pub k: K, pub map: &'a mut HMap<K, V> }
impl<V> HOcc<V> { pub fn get(&self) -> (r: &V) ensures *r == self.val { &self.val } }
impl<'a, K, V: Copy> HVac<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, n: V) -> (r: V) ensures r == n, (*final(self.map)).m() == (*old(self.map)).m().insert(self.k, n) { unimplemented!() }
}
impl<'a, K, V> HVac<'a, K, V> { pub fn key(&self) -> (r: &K) ensures *r == self.k { &self.k } }
impl<K, V> HMap<K, V> {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).m() == Map::<K, V>::empty() { unimplemented!() }
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.m().dom().contains(*k), r is Some ==> *(r->0) == self.m()[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v), r is Some <==> old(self).m().dom().contains(k), r is Some ==> r->0 == old(self).m()[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: HEntry<'_, K, V>)
        ensures old(self).m().dom().contains(k) ==> (r is Occupied && r->Occupied_0.val == old(self).m()[k] && *final(self) == *old(self)),
            !old(self).m().dom().contains(k) ==> (r is Vacant && r->Vacant_0.k == k && *(r->Vacant_0.map) == *old(self) && *final(self) == *final(r->Vacant_0.map)),
    { unimplemented!() }
}
// std::collections::HashSet, assumed to be a set
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HSet<K> { k: Vec<K> }
impl<K> HSet<K> {
    pub uninterp spec fn s(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.s().contains(*k) { unimplemented!() }
}
}
