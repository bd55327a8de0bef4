// shared: std's HashMap with text keys (needs std.vrs)
verus! {
/// std's HashMap with text keys (the documented behaviour)
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct VMap<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<V> VMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r is Some == self@.contains_key(k@), r is Some ==> *(r->0) == self@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
        ensures match r {
            None => !old(self)@.contains_key(k@) && *final(self) == *old(self),
            Some(p) => old(self)@.contains_key(k@) && *p == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(p)),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@],
    { unimplemented!() }
}
}
