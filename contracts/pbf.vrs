verus! {
pub assume_specification<'a, T: std::marker::Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

//@ rename prost::alloc::vec::Vec Vec
pub mod osmpbf {
use super::*;
//@ type src/osm/pbf/generated/prost-osmpbf.rs Info
//@ type src/osm/pbf/generated/prost-osmpbf.rs DenseInfo
//@ type src/osm/pbf/generated/prost-osmpbf.rs Node
//@ type src/osm/pbf/generated/prost-osmpbf.rs DenseNodes
//@ type src/osm/pbf/generated/prost-osmpbf.rs Way
//@ type src/osm/pbf/generated/prost-osmpbf.rs Relation
//@ type src/osm/pbf/generated/prost-osmpbf.rs ChangeSet
//@ type src/osm/pbf/generated/prost-osmpbf.rs PrimitiveGroup
//@ type src/osm/pbf/generated/prost-osmpbf.rs PrimitiveBlock
pub mod relation {
use super::*;
//@ type src/osm/pbf/generated/prost-osmpbf.rs relation::MemberType #[derive(Clone,Copy,PartialEq,Eq)]
impl MemberType {
// generated by prost for a protobuf enumeration
#[verifier::external_body]
pub fn try_from(x: i32) -> (r: Result<MemberType, AnyErr>)
    ensures match r { Ok(m) => m as i32 == x, Err(_) => x != MemberType::Node as i32 && x != MemberType::Way as i32 && x != MemberType::Relation as i32 }
{ unimplemented!() }
}
}
// prost messages: `default()` leaves every field absent, empty or zero
impl Default for Info { #[verifier::external_body] fn default() -> (r: Self)
    ensures r == (Info { version: None, timestamp: None, changeset: None, uid: None, user_sid: None, visible: None }) { unimplemented!() } }
impl Default for DenseInfo { #[verifier::external_body] fn default() -> (r: Self)
    ensures r.version@.len() == 0, r.timestamp@.len() == 0, r.changeset@.len() == 0, r.uid@.len() == 0, r.user_sid@.len() == 0, r.visible@.len() == 0 { unimplemented!() } }
impl Default for DenseNodes { #[verifier::external_body] fn default() -> (r: Self)
    ensures r.id@.len() == 0, r.denseinfo is None, r.lat@.len() == 0, r.lon@.len() == 0, r.keys_vals@.len() == 0 { unimplemented!() } }
impl Default for Way { #[verifier::external_body] fn default() -> (r: Self)
    ensures r.id == 0, r.keys@.len() == 0, r.vals@.len() == 0, r.info is None, r.refs@.len() == 0, r.lat@.len() == 0, r.lon@.len() == 0 { unimplemented!() } }
impl Default for Relation { #[verifier::external_body] fn default() -> (r: Self)
    ensures r.id == 0, r.keys@.len() == 0, r.vals@.len() == 0, r.info is None, r.roles_sid@.len() == 0, r.memids@.len() == 0, r.types@.len() == 0 { unimplemented!() } }
impl Default for PrimitiveGroup { #[verifier::external_body] fn default() -> (r: Self)
    ensures r.nodes@.len() == 0, r.dense is None, r.ways@.len() == 0, r.relations@.len() == 0, r.changesets@.len() == 0 { unimplemented!() } }
// prost getters of optional fields: the value or the declared default
impl Info { #[verifier::external_body] pub fn version(&self) -> (r: i32)
    ensures r == (match self.version { Some(x) => x, None => -1i32 }) { unimplemented!() } }
impl PrimitiveBlock {
#[verifier::external_body] pub fn granularity(&self) -> (r: i32)
    ensures r == (match self.granularity { Some(x) => x, None => 100i32 }) { unimplemented!() }
#[verifier::external_body] pub fn date_granularity(&self) -> (r: i32)
    ensures r == (match self.date_granularity { Some(x) => x, None => 1000i32 }) { unimplemented!() }
#[verifier::external_body] pub fn lat_offset(&self) -> (r: i64)
    ensures r == (match self.lat_offset { Some(x) => x, None => 0i64 }) { unimplemented!() }
#[verifier::external_body] pub fn lon_offset(&self) -> (r: i64)
    ensures r == (match self.lon_offset { Some(x) => x, None => 0i64 }) { unimplemented!() }
}
}
pub use osmpbf::{DenseInfo, DenseNodes, PrimitiveBlock, PrimitiveGroup};

/// sum of the first `n` deltas
pub open spec fn psum(d: Seq<i64>, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(d, n - 1) + d[n - 1] } }
/// strings `st` are the texts of table `t`
pub open spec fn texts(t: Seq<Vec<u8>>, st: Seq<String>) -> bool {
    t.len() == st.len() && forall|i: int| 0 <= i < t.len() ==> tb(#[trigger] st[i]) == t[i]@
}
proof fn lemma_text_inj(a: String, b: String)
    requires tb(a) == tb(b),
    ensures a == b,
{
    encode_utf8_decode_utf8(a@);
    encode_utf8_decode_utf8(b@);
}
}
