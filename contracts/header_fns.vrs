// shared: the file header (needs ieee, bboxtype, model)
//@ include infotypes.vrs
verus! {
//@ type src/osm/pbf/generated/prost-osmpbf.rs HeaderBBox
//@ type src/osm/pbf/generated/prost-osmpbf.rs HeaderBlock
//@ const src/osm/pbf/osm_header.rs NANODEG
pub mod osmpbf_header { use super::*; pub use super::{HeaderBBox, HeaderBlock}; }
/// protobuf decoding of a header block
pub uninterp spec fn dec_hblock(b: Seq<u8>) -> Option<HeaderBlock>;
impl HeaderBlock {
    #[verifier::external_body]
    pub fn decode(c: &mut VCursor) -> (r: Result<HeaderBlock, AnyErr>)
        ensures r.is_ok() == dec_hblock(old(c).data@).is_some(), r.is_ok() ==> Some(r->Ok_0) == dec_hblock(old(c).data@),
    { unimplemented!() }
    /// appends to the buffer; what is encoded decodes to the same message
    #[verifier::external_body]
    pub fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), AnyErr>)
        ensures r.is_ok(), old(buf)@.len() == 0 ==> dec_hblock(final(buf)@) == Some(*self),
    { unimplemented!() }
}
/// a side in nanodegrees, and back
pub open spec fn to_nano(x: f64) -> i64 { f2i(fround(fmul(x, NANODEG))) }
pub open spec fn of_nano(i: i64) -> f64 { fdiv(i2f(i), NANODEG) }
pub open spec fn enc_bbox(h: Option<HeaderBBox>, b: Option<BoundingBox>) -> bool {
    match b {
        None => h is None,
        Some(x) => h is Some && (h->0).left == to_nano(x.left) && (h->0).right == to_nano(x.right) && (h->0).top == to_nano(x.top) && (h->0).bottom == to_nano(x.bottom),
    }
}
pub open spec fn dec_bbox(h: Option<HeaderBBox>, b: Option<BoundingBox>) -> bool {
    match h {
        None => b is None,
        Some(x) => b is Some && (b->0).left == of_nano(x.left) && (b->0).right == of_nano(x.right) && (b->0).top == of_nano(x.top) && (b->0).bottom == of_nano(x.bottom),
    }
}
/// every other field is the same
pub open spec fn same_fields(h: HeaderBlock, i: FileInfo) -> bool {
    &&& h.required_features@ == i.required_features@
    &&& h.optional_features@ == i.optional_features@
    &&& h.writingprogram == i.writingprogram
    &&& h.source == i.source
    &&& h.osmosis_replication_timestamp == i.osmosis_replication_timestamp
    &&& h.osmosis_replication_sequence_number == i.osmosis_replication_sequence_number
    &&& h.osmosis_replication_base_url == i.osmosis_replication_base_url
}
pub open spec fn enc_header(h: HeaderBlock, i: FileInfo) -> bool { enc_bbox(h.bbox, i.bounding_box) && same_fields(h, i) }
pub open spec fn dec_info_of(h: HeaderBlock, i: FileInfo) -> bool { dec_bbox(h.bbox, i.bounding_box) && same_fields(h, i) }
//@ fn src/osm/model/bounding_box.rs BoundingBox::new ret=r
    ensures r == (BoundingBox { left, bottom, right, top }),
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::left ret=r
    ensures r == self.left,
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::right ret=r
    ensures r == self.right,
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::top ret=r
    ensures r == self.top,
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::bottom ret=r
    ensures r == self.bottom,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::new ret=r
    ensures r == (FileInfo { bounding_box, required_features, optional_features, writingprogram, source, osmosis_replication_timestamp, osmosis_replication_sequence_number, osmosis_replication_base_url }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::bounding_box ret=r
    ensures *r == self.bounding_box,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::required_features ret=r
    ensures *r == self.required_features,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::optional_features ret=r
    ensures *r == self.optional_features,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::writingprogram ret=r
    ensures *r == self.writingprogram,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::source ret=r
    ensures *r == self.source,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::osmosis_replication_timestamp ret=r
    ensures *r == self.osmosis_replication_timestamp,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::osmosis_replication_sequence_number ret=r
    ensures *r == self.osmosis_replication_sequence_number,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::osmosis_replication_base_url ret=r
    ensures *r == self.osmosis_replication_base_url,
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_bounding_box
    ensures *final(self) == (FileInfo { bounding_box: *bounding_box, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_required_features
    ensures final(self).required_features@ == required_features@, *final(self) == (FileInfo { required_features: final(self).required_features, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_optional_features
    ensures final(self).optional_features@ == optional_features@, *final(self) == (FileInfo { optional_features: final(self).optional_features, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_writingprogram
    ensures *final(self) == (FileInfo { writingprogram: *writingprogram, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_source
    ensures *final(self) == (FileInfo { source: *source, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_osmosis_replication_timestamp
    ensures *final(self) == (FileInfo { osmosis_replication_timestamp: *osmosis_replication_timestamp, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_osmosis_replication_sequence_number
    ensures *final(self) == (FileInfo { osmosis_replication_sequence_number: *osmosis_replication_sequence_number, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_osmosis_replication_base_url
    ensures *final(self) == (FileInfo { osmosis_replication_base_url: *osmosis_replication_base_url, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/file_info.rs FileInfo::with_writingprogram_str
    ensures final(self).writingprogram is Some, (final(self).writingprogram->0)@ == writingprogram@, *final(self) == (FileInfo { writingprogram: final(self).writingprogram, ..*old(self) }),
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::info ret=r
    ensures *r == self.info,
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::from_file_info ret=r
    ensures r.info == file_info,
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::header_bbox ret=r optmap
    ensures enc_bbox(r, self.info.bounding_box),
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::serialize ret=r
    ensures r is Ok, dec_hblock(r->Ok_0@) is Some, enc_header(dec_hblock(r->Ok_0@)->0, self.info),
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::from_bytes ret=r
    ensures r is Ok <==> dec_hblock(data@) is Some, r is Ok ==> dec_info_of(dec_hblock(data@)->0, r->Ok_0.info),
//@ end
}
