//@ rename chrono::offset::Utc::now VTime::now
//@ include fmtcore.vrs
verus! {
pub uninterp spec fn version_text() -> Seq<char>;
#[verifier::external_body]
pub fn venv() -> (r: &'static str) ensures r@ == version_text() { unimplemented!() }
pub struct VTime { pub t: i64 }
impl VTime {
    #[verifier::external_body]
    pub fn now() -> VTime { unimplemented!() }
    pub fn timestamp_micros(&self) -> (r: i64) ensures r == self.t { self.t }
}
pub assume_specification [std::string::String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
// ---- std::io::BufWriter: the text written so far
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VOut<T> { x: T }
impl<T> VOut<T> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn dest(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r.dest() == t, r.text() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), AnyErr>)
        ensures r.is_ok() ==> forall|s: Seq<char>| #[trigger] vstd::utf8::encode_utf8(s) == b@ ==> final(self).text() == old(self).text() + s,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), AnyErr>)
        ensures final(self).text() == old(self).text(),
    { unimplemented!() }
}
// ---- transient_btree_index: an ordered map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VIndex<K, V> { k: K, v: V }
/// `s` lists the entries of `m`, each once
pub open spec fn entries<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
impl<K, V> VIndex<K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Result<(), AnyErr>)
        ensures r.is_ok() ==> final(self).map() == old(self).map().insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn range_all(&self) -> (r: Result<Vec<Result<(K, V), AnyErr>>, AnyErr>)
        ensures
            r.is_ok() && (forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).is_ok())
                ==> entries(self.map(), Seq::new(r->Ok_0@.len(), |i: int| r->Ok_0@[i]->Ok_0)),
    { unimplemented!() }
}
}
