//@ include bboxtype.vrs
verus! {
//@ type src/osm/pbf/file_info.rs FileInfo
//@ type src/osm/pbf/osm_header.rs OsmHeader
impl Clone for FileInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for OsmHeader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
