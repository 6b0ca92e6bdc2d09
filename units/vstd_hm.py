"""Stand-ins for collection types whose library has no Verus specification. Only these contracts are assumed."""
HM = """
/// hashbrown::HashMap as a finite map (keys whose Eq/Hash are the derived ones)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HM<K, V> { m: std::collections::HashMap<K, V> }
impl<K: Eq + std::hash::Hash, V> HM<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { None => !self@.dom().contains(*k), Some(v) => self@.dom().contains(*k) && *v == self@[*k] }, { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)) }, { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }), { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }), { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k), { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()), { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@, { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to(&mut self, n: usize) ensures final(self)@ == old(self)@, { unimplemented!() }
}
"""
VECX = """
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize) ensures r >= v@.len(), opens_invariants none no_unwind;
pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::shrink_to ](v: &mut Vec<T, A>, n: usize) ensures final(v)@ == old(v)@;
"""
QOS = """
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum QoS { Level0, Level1, Level2 }
impl vstd::std_specs::cmp::PartialEqSpecImpl for QoS {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
pub open spec fn qn(q: QoS) -> int { match q { QoS::Level0 => 0, QoS::Level1 => 1, QoS::Level2 => 2 } }
"""
CLIENTID = """
#[derive(Clone, Copy, PartialEq, Eq, Structural, Hash)]
pub struct ClientId(pub u64);
impl vstd::std_specs::cmp::PartialEqSpecImpl for ClientId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
"""
