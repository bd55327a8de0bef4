//@ rename HashSet VStrSet
//@ rename Path VPath
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blobs.vrs
//@ include blobwalk.vrs
//@ include blocks.vrs
verus! {
broadcast use {ax::group_string_eq, lm::lemma_missing, lm::lemma_subset, lm::lemma_lists};
pub mod lm {
use vstd::prelude::*;
/// the names in a list
pub open spec fn names(s: Seq<String>) -> Set<Seq<char>> { s.map_values(|x: String| x@).to_set() }
/// exactly the missing names, each once
pub open spec fn missing(m: Seq<String>, sup: Seq<String>, req: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> names(req).contains(#[trigger] m[i]@) && !names(sup).contains(m[i]@)
    &&& forall|n: Seq<char>| #[trigger] names(req).contains(n) && !names(sup).contains(n) ==> exists|i: int| 0 <= i < m.len() && #[trigger] m[i]@ == n
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i])@ != (#[trigger] m[j])@
}
/// the features this reader supports
pub open spec fn is_sup(n: Seq<char>) -> bool { n == "OsmSchema-V0.6"@ || n == "DenseNodes"@ || n == "HistoricalInformation"@ || n == "Sort.Type_then_ID"@ }
pub open spec fn lists(s: Seq<String>) -> bool { forall|n: Seq<char>| #[trigger] names(s).contains(n) <==> is_sup(n) }
pub open spec fn all_sup(s: Seq<String>) -> bool { forall|n: Seq<char>| #[trigger] names(s).contains(n) ==> is_sup(n) }
pub broadcast proof fn lemma_names(s: Seq<String>, n: Seq<char>)
    ensures #[trigger] names(s).contains(n) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == n,
{
    let t = s.map_values(|x: String| x@);
    if names(s).contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; assert(s[i]@ == n); }
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == n { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == n; assert(t[i] == n); assert(t.contains(n)); }
}
pub broadcast proof fn lemma_missing(m: Seq<String>, sup: Seq<String>, req: Seq<String>)
    ensures #[trigger] missing(m, sup, req) ==> (m.len() == 0 <==> names(req).subset_of(names(sup))),
{
    if missing(m, sup, req) && m.len() > 0 { let n = m[0]@; assert(names(req).contains(n) && !names(sup).contains(n)); }
}
pub open spec fn one(s: Seq<String>, n: Seq<char>) -> bool { s[0]@ == n || s[1]@ == n || s[2]@ == n || s[3]@ == n }
pub broadcast proof fn lemma_lists(s: Seq<String>)
    ensures #![trigger names(s)]
        s.len() == 4 && is_sup(s[0]@) && is_sup(s[1]@) && is_sup(s[2]@) && is_sup(s[3]@)
        && one(s, "OsmSchema-V0.6"@) && one(s, "DenseNodes"@) && one(s, "HistoricalInformation"@) && one(s, "Sort.Type_then_ID"@)
        ==> lists(s),
{
    broadcast use lemma_names;
    if s.len() == 4 && one(s, "OsmSchema-V0.6"@) && one(s, "DenseNodes"@) && one(s, "HistoricalInformation"@) && one(s, "Sort.Type_then_ID"@) {
        assert(names(s).contains(s[0]@) && names(s).contains(s[1]@) && names(s).contains(s[2]@) && names(s).contains(s[3]@));
    }
}
pub broadcast proof fn lemma_subset(s: Seq<String>, q: Seq<String>)
    ensures lists(s) ==> (#[trigger] names(q).subset_of(names(s)) <==> all_sup(q)),
{
    if lists(s) && all_sup(q) { assert forall|n: Seq<char>| names(q).contains(n) implies names(s).contains(n) by { } }
    if lists(s) && names(q).subset_of(names(s)) { assert forall|n: Seq<char>| #[trigger] names(q).contains(n) implies is_sup(n) by { assert(names(s).contains(n)); } }
}
}
use lm::*;
impl VPath {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VPath) ensures r == *self { unimplemented!() }
}
impl Default for FileInfo { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
impl Clone for Reader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// std's HashSet of references to strings (compared by content)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VStrSet<T> { x: std::marker::PhantomData<T> }
impl<'a> VStrSet<&'a String> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn is_subset(&self, o: &VStrSet<&'a String>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Seq<char>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    /// the elements of the difference, each once, in some order
    #[verifier::external_body]
    pub fn difference<'s>(&'s self, o: &VStrSet<&'a String>) -> (r: Vec<&'s &'a String>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains((**#[trigger] r@[i])@) && !o@.contains((**r@[i])@),
            forall|n: Seq<char>| self@.contains(n) && !o@.contains(n) ==> exists|i: int| 0 <= i < r@.len() && (**#[trigger] r@[i])@ == n,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (**#[trigger] r@[i])@ != (**#[trigger] r@[j])@,
    { unimplemented!() }
}
pub trait ToVSet { spec fn strs(&self) -> Seq<String>; fn to_vset<'a>(&'a self) -> (r: VStrSet<&'a String>) ensures r@ == names(self.strs()); }
impl ToVSet for [String] {
    open spec fn strs(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn to_vset<'a>(&'a self) -> (r: VStrSet<&'a String>) { unimplemented!() }
}
/// which features an error names
pub uninterp spec fn named(e: AnyErr) -> Seq<String>;
/// an error whose message is the list
#[verifier::external_body]
pub fn verr_features(v: &Vec<String>) -> (r: AnyErr) ensures named(r) == v@ { unimplemented!() }
//@ fn src/osm/pbf/reader.rs Reader::find_missing_features ret=r set_collect map_collect
    ensures missing(r@, supported_features@, required_features@),
//@ loop 0 it:
        invariant
            v__@.len() == it.index@,
            forall|i: int| #![trigger v__@[i]] #![trigger it.seq()[i]] 0 <= i < v__@.len() ==> v__@[i]@ == (**it.seq()[i])@,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::verify_supported_features ret=r anyhow=verr_features
    ensures
        r.is_ok() <==> names(required_features@).subset_of(names(supported_features@)),
        r.is_err() ==> missing(named(r->Err_0), supported_features@, required_features@),
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::info ret=r
    ensures *r == self.info,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::info ret=r
    ensures *r == self.info,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::supported_features ret=r
    ensures r@ == self.supported_features@,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::required_features ret=r
    ensures r@ == self.required_features@,
//@ end
/// the first block of a file
pub open spec fn first(f: Seq<u8>, path: VPath) -> FileBlock { stored(mk(f, path, 0, 0)) }
//@ fn src/osm/pbf/reader.rs Reader::new ret=r
    requires framed(VFile::at(*path), 0), VFile::at(*path).len() <= i64::MAX,
    ensures
        ({
            let f = VFile::at(*path);
            let h = first(f, *path);
            // accepted exactly when the first block is a header all of whose required features are supported
            &&& r.is_ok() <==> VFile::opens(*path) && f.len() > 0 && h is Header && all_sup(h->header.info.required_features@)
            &&& r.is_ok() ==> r->Ok_0.info == h->header.info && lists(r->Ok_0.supported_features@) && r->Ok_0.path == *path
            // refused for a feature: exactly the missing ones are named
            &&& r.is_err() && VFile::opens(*path) && f.len() > 0 && h is Header ==> exists|s: Seq<String>| lists(s) && #[trigger] missing(named(r->Err_0), s, h->header.info.required_features@)
        }),
//@ end
}
fn main() {}
