//@ include infotypes.vrs
//@ include datatype.vrs
verus! {
//@ type src/osm/pbf/file_block_metadata.rs FileBlockMetadata
//@ type src/osm/pbf/file_block.rs FileBlock
//@ fn src/osm/pbf/file_block.rs FileBlock::is_osm_header ret=r
    ensures r == (*self is Header),
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::is_osm_data ret=r
    ensures r == (*self is Data),
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::as_osm_data ret=r
    ensures r.is_ok() == (*self is Data), r.is_ok() ==> *(r->Ok_0) == self->data,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::as_osm_header ret=r
    ensures r.is_ok() == (*self is Header), r.is_ok() ==> *(r->Ok_0) == self->header,
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::elements ret=r
    ensures r@ == self.elements@,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::elements ret=r
    requires *self is Data,
    ensures r@ == self->data.elements@,
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::take_elements ret=r
    ensures r@ == old(self).elements@, final(self).elements@.len() == 0,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::take_elements ret=r
    requires *old(self) is Data,
    ensures r@ == old(self)->data.elements@, *final(self) is Data, final(self)->data.elements@.len() == 0,
//@ end
/// the block stored at `d`: decoding is a function of the file's bytes (decided by N03, N08)
pub uninterp spec fn stored(d: BlobDesc) -> FileBlock;
//@ trusted src/osm/pbf/file_block.rs FileBlock::from_blob_desc ret=r
    ensures r.is_ok() ==> r->Ok_0 == stored(*blob_desc),
//@ end
}
