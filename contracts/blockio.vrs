//@ include frame.vrs
verus! {
//@ type src/osm/pbf/compression_type.rs CompressionType
impl Clone for CompressionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// what FileBlock::serialize makes of a block (decided by N04, N08, N09)
pub uninterp spec fn ser_h(b: FileBlock, c: CompressionType) -> Seq<u8>;
pub uninterp spec fn ser_b(b: FileBlock, c: CompressionType) -> Seq<u8>;
pub open spec fn block_bytes(b: FileBlock, c: CompressionType) -> Seq<u8> { frame(ser_h(b, c), ser_b(b, c)) }
//@ trusted src/osm/pbf/file_block.rs FileBlock::serialize ret=r
    ensures r.is_ok() ==> r->Ok_0.0@ == ser_h(*file_block, compression) && r->Ok_0.1@ == ser_b(*file_block, compression),
//@ end
//@ fn src/osm/pbf/file_block_metadata.rs FileBlockMetadata::new ret=r
    ensures r == (FileBlockMetadata { t, index, bounding_box: None }),
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::from_elements ret=r
    ensures r == (OsmData { elements, bounding_box }),
//@ end
}
