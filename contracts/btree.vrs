/// std's BTreeMap with string keys (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<V> BTreeMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    /// in the order of the keys
    #[verifier::external_body]
    pub fn into_values(self) -> (r: Vec<V>)
        ensures r@ == sorted_keys(self@.dom()).map_values(|k: Seq<char>| self@[k]),
    { unimplemented!() }
}
