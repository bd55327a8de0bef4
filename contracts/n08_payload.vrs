//@ rename Cursor::new vcursor_ref
//@ rename usize::try_from try_usize
//@ rename Vec::with_capacity vec_cap
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs trusted
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
verus! {
pub uninterp spec fn data_bytes(b: Seq<u8>, d: OsmData) -> bool;
pub uninterp spec fn data_read(b: Seq<u8>) -> Option<OsmData>;
pub uninterp spec fn header_bytes(b: Seq<u8>, h: OsmHeader) -> bool;
pub uninterp spec fn header_read(b: Seq<u8>) -> Option<OsmHeader>;
//@ type src/osm/pbf/compression_type.rs CompressionType
impl Clone for CompressionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- what is written in a block and read from it (decided by N04 for data and by N09 for headers)
//@ trusted src/osm/pbf/osm_data.rs OsmData::serialize ret=r
    ensures r is Ok ==> data_bytes(r->Ok_0@, *self),
//@ end
//@ trusted src/osm/pbf/osm_data.rs OsmData::new ret=r
    ensures r is Ok <==> data_read(data@) is Some, r is Ok ==> r->Ok_0 == data_read(data@)->0,
//@ end
//@ trusted src/osm/pbf/osm_header.rs OsmHeader::serialize ret=r
    ensures r is Ok ==> header_bytes(r->Ok_0@, *self),
//@ end
//@ trusted src/osm/pbf/osm_header.rs OsmHeader::from_bytes ret=r
    ensures r is Ok <==> header_read(data@) is Some, r is Ok ==> r->Ok_0 == header_read(data@)->0,
//@ end
}
//@ include infotypes.vrs
//@ include datatype.vrs
//@ rename osmpbf::BlobHeader BlobHeader
verus! {
//@ type src/osm/pbf/file_block_metadata.rs FileBlockMetadata
//@ type src/osm/pbf/file_block.rs FileBlock
//@ fn src/osm/pbf/file_block_metadata.rs FileBlockMetadata::new ret=r
    ensures r == (FileBlockMetadata { t, index, bounding_box: None }),
//@ end
pub mod osmpbf {
use super::*;
//@ type src/osm/pbf/generated/prost-osmpbf.rs Blob
pub mod blob {
use super::*;
//@ type src/osm/pbf/generated/prost-osmpbf.rs blob::Data
}
}
pub use osmpbf::blob::Data;
pub use osmpbf::Blob;
//@ type src/osm/pbf/generated/prost-osmpbf.rs BlobHeader
/// protobuf decoding of blob headers and blobs (prost): functions of the bytes, inverse to the encoding
pub uninterp spec fn dec_header(b: Seq<u8>) -> Option<BlobHeader>;
pub uninterp spec fn dec_blob(b: Seq<u8>) -> Option<Blob>;
pub fn vcursor_ref(b: &mut Vec<u8>) -> (r: &mut Vec<u8>) ensures *r == *old(b), *final(b) == *final(r) { b }
impl BlobHeader {
    #[verifier::external_body]
    pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures dec_header(r@) == Some(*self) { unimplemented!() }
}
impl Blob {
    #[verifier::external_body]
    pub fn encode_to_vec(&self) -> (r: Vec<u8>) ensures dec_blob(r@) == Some(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(c: &mut &mut Vec<u8>) -> (r: Result<Blob, AnyErr>)
        ensures r.is_ok() == dec_blob(old(c)@).is_some(), r.is_ok() ==> Some(r->Ok_0) == dec_blob(old(c)@),
    { unimplemented!() }
}
// ---- zlib (flate2): `inflate` gives the content of a complete and undamaged stream at the start of the data
pub uninterp spec fn inflate(z: Seq<u8>) -> Option<Seq<u8>>;
/// bytes a vector takes without growing
pub uninterp spec fn spare(v: Vec<u8>) -> nat;
#[verifier::external_body]
pub fn vec_cap(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0, spare(r) >= n { unimplemented!() }
#[derive(PartialEq, Eq, Structural)]
pub enum Status { Ok, BufError, StreamEnd }
pub enum FlushDecompress { None, Sync, Finish }
#[verifier::external_body]
pub struct Decompress { x: u8 }
impl Decompress {
    /// new, and expecting a zlib header
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new(zlib_header: bool) -> (r: Decompress) ensures r.fresh() == zlib_header { unimplemented!() }
    /// the end of the stream is reported only after all of it has been produced and its checksum compared;
    /// it is reached when there is room left
    #[verifier::external_body]
    pub fn decompress_vec(&mut self, input: &[u8], output: &mut Vec<u8>, flush: FlushDecompress) -> (r: Result<Status, AnyErr>)
        ensures
            r is Ok && r->Ok_0 is StreamEnd && old(self).fresh() && old(output)@.len() == 0 ==> inflate(input@) == Some(final(output)@),
            old(self).fresh() && old(output)@.len() == 0 && flush is Finish && inflate(input@) is Some && inflate(input@)->0.len() < spare(*old(output)) ==> r is Ok && r->Ok_0 is StreamEnd,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Compression { x: u8 }
impl Compression {
    #[verifier::external_body]
    pub fn none() -> Compression { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> Compression { unimplemented!() }
}
#[verifier::external_body]
pub struct ZlibEncoder { x: u8 }
impl ZlibEncoder {
    /// what was written so far
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(w: Vec<u8>, c: Compression) -> (r: ZlibEncoder) requires w@.len() == 0 ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), AnyErr>) ensures r is Ok ==> final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), AnyErr>) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Result<Vec<u8>, AnyErr>) ensures r is Ok ==> inflate(r->Ok_0@) == Some(self@) { unimplemented!() }
}
pub fn try_usize(x: i32) -> (r: Result<usize, AnyErr>)
    ensures r is Ok <==> x >= 0, r is Ok ==> r->Ok_0 == x,
{ if x >= 0 { Ok(x as usize) } else { Err(verr()) } }

// ---- N08
/// the content of a blob, when it has any
pub open spec fn payload(b: Blob) -> Option<Seq<u8>> {
    match b.data {
        Some(Data::Raw(v)) => Some(v@),
        Some(Data::ZlibData(z)) => if b.raw_size is Some && inflate(z@) is Some && inflate(z@)->0.len() == b.raw_size->0 { inflate(z@) } else { None },
        _ => None,
    }
}
//@ fn src/osm/pbf/file_block.rs FileBlock::zlib_decode ret=r
    requires raw_size < usize::MAX,
    ensures
        r is Ok <==> inflate(data@) is Some && inflate(data@)->0.len() == raw_size,
        r is Ok ==> inflate(data@) == Some(r->Ok_0@),
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::zlib_encode ret=r
    ensures r is Ok ==> inflate(r->Ok_0@) == Some(buf@),
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::read_blob_data ret=r
    ensures
        r is Ok <==> payload(blob) is Some,
        r is Ok ==> r->Ok_0@ == payload(blob)->0,
//@ end
/// the block of a type and a content, when there is one
pub open spec fn content(t: Seq<char>, d: Seq<u8>) -> Option<(Option<OsmHeader>, Option<OsmData>)> {
    if t == "OSMHeader"@ { match header_read(d) { Some(h) => Some((Some(h), None)), None => None } }
    else if t == "OSMData"@ { match data_read(d) { Some(x) => Some((None, Some(x))), None => None } }
    else { None }
}
pub open spec fn parts(b: FileBlock) -> (Option<OsmHeader>, Option<OsmData>) {
    match b { FileBlock::Header { header, .. } => (Some(header), None), FileBlock::Data { data, .. } => (None, Some(data)) }
}
pub open spec fn number(b: FileBlock) -> usize { match b { FileBlock::Header { metadata, .. } => metadata.index, FileBlock::Data { metadata, .. } => metadata.index } }
//@ fn src/osm/pbf/file_block.rs FileBlock::new ret=r
    ensures
        r is Ok <==> content(blob_type@, data@) is Some,
        r is Ok ==> parts(r->Ok_0) == content(blob_type@, data@)->0 && number(r->Ok_0) == index,
//@ end
/// the bytes of a blob hold a block of type `t`
pub open spec fn blob_block(t: Seq<char>, b: Seq<u8>) -> Option<(Option<OsmHeader>, Option<OsmData>)> {
    match dec_blob(b) { Some(x) => match payload(x) { Some(d) => content(t, d), None => None }, None => None }
}
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::start ret=r
    ensures r == self.start,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::length ret=r
    ensures r == self.length,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::index ret=r
    ensures r == self.index,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::path ret=r
    ensures r == self.path,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::t ret=r
    ensures r == self.t,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::deserialize ret=r
    ensures
        r is Ok <==> blob_block(blob_desc.t@, old(blob_buffer)@) is Some,
        r is Ok ==> parts(r->Ok_0) == blob_block(blob_desc.t@, old(blob_buffer)@)->0 && number(r->Ok_0) == blob_desc.index,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::from_blob_desc ret=r
    ensures
        ({
            let f = VFile::at(blob_desc.path);
            let (s, z) = (blob_desc.start as int, blob_desc.start + blob_desc.length);
            // a blob that goes past the end of the file is refused, as is one without a readable block
            &&& r is Ok <==> VFile::opens(blob_desc.path) && z <= f.len() && blob_block(blob_desc.t@, f.subrange(s, z)) is Some
            &&& r is Ok ==> parts(r->Ok_0) == blob_block(blob_desc.t@, f.subrange(s, z))->0 && number(r->Ok_0) == blob_desc.index
        }),
//@ end
pub open spec fn type_of(b: FileBlock) -> Seq<char> { if b is Header { "OSMHeader"@ } else { "OSMData"@ } }
/// `bytes` are what the block is made of
pub open spec fn made_of(b: FileBlock, bytes: Seq<u8>) -> bool { match b { FileBlock::Header { header, .. } => header_bytes(bytes, header), FileBlock::Data { data, .. } => data_bytes(bytes, data) } }
/// what the blob holds, whatever its declared size
pub open spec fn held(x: Blob) -> Seq<u8> { match x.data { Some(Data::Raw(v)) => v@, Some(Data::ZlibData(z)) => inflate(z@)->0, _ => seq![] } }
/// the blob is packed in the way asked for
pub open spec fn packed(x: Blob, c: CompressionType) -> bool {
    &&& match c {
        CompressionType::Uncompressed => x.data is Some && x.data->0 is Raw,
        CompressionType::Zlib => x.data is Some && x.data->0 is ZlibData && inflate((x.data->0->ZlibData_0)@) is Some,
    }
    &&& x.raw_size is Some && (held(x).len() <= i32::MAX ==> x.raw_size->0 == held(x).len())
}
//@ fn src/osm/pbf/file_block.rs FileBlock::serialize ret=r
    ensures
        r is Ok ==> ({
            let (h, b) = (r->Ok_0.0@, r->Ok_0.1@);
            &&& dec_header(h) is Some
            &&& dec_header(h)->0.r#type@ == type_of(*file_block)
            &&& dec_header(h)->0.indexdata is None
            &&& b.len() <= i32::MAX ==> dec_header(h)->0.datasize == b.len()
            &&& dec_blob(b) is Some
            &&& packed(dec_blob(b)->0, compression)
            &&& made_of(*file_block, held(dec_blob(b)->0))
        }),
//@ end
/// what is read back is what the block's reader makes of the bytes the block's writer made
pub open spec fn carried(b: FileBlock, bytes: Seq<u8>, out: FileBlock) -> bool {
    made_of(b, bytes) && match (b, out) {
        (FileBlock::Header { .. }, FileBlock::Header { header, .. }) => header_read(bytes) == Some(header),
        (FileBlock::Data { .. }, FileBlock::Data { data, .. }) => data_read(bytes) == Some(data),
        _ => false,
    }
}
/// N08: writing a block with either compression type and reading the body back; the uncompressed content fits the size field
fn payload_round_trip(b: &FileBlock, c: CompressionType, d: &BlobDesc) -> (r: Option<FileBlock>)
    requires d.t@ == type_of(*b), forall|bytes: Seq<u8>| #[trigger] made_of(*b, bytes) ==> bytes.len() <= i32::MAX && (b is Header ==> header_read(bytes) is Some) && (b is Data ==> data_read(bytes) is Some),
    ensures r is Some ==> exists|bytes: Seq<u8>| #[trigger] carried(*b, bytes, r->0),
{
    match FileBlock::serialize(b, c) {
        Ok((_h, body)) => {
            let mut body = body;
            let ghost x = dec_blob(body@)->0;
            let ghost bytes = held(x);
            proof { reveal_strlit("OSMHeader"); reveal_strlit("OSMData"); assert(made_of(*b, bytes)); assert("OSMHeader"@.len() != "OSMData"@.len()); assert(payload(x) == Some(bytes)); }
            match FileBlock::deserialize(d, &mut body) {
                Ok(o) => { let r = Some(o); proof { assert(carried(*b, bytes, o)); assert(r->0 == o); assert(carried(*b, bytes, r->0)); assert(exists|bytes: Seq<u8>| #[trigger] carried(*b, bytes, r->0)); } return r; }
                Err(_) => { proof { assert(false); } None }
            }
        }
        Err(_) => None,
    }
}
broadcast use { ax::axiom_string_ext, ax::axiom_str_to_string };
}
fn main() {}
