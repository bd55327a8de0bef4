verus! {
//@ type src/osm/pbf/blob_desc.rs BlobDesc
}
