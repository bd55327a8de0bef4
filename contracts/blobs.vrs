//@ rename osmpbf::BlobHeader BlobHeader
verus! {
//@ type src/osm/pbf/generated/prost-osmpbf.rs BlobHeader
//@ type src/osm/pbf/blob_iterator.rs BlobIterator
/// protobuf decoding of a blob header
pub uninterp spec fn dec_header(b: Seq<u8>) -> Option<BlobHeader>;
impl BlobHeader {
    #[verifier::external_body]
    pub fn decode(c: &mut VCursor) -> (r: Result<BlobHeader, AnyErr>)
        ensures r.is_ok() == dec_header(old(c).data@).is_some(), r.is_ok() ==> Some(r->Ok_0) == dec_header(old(c).data@),
    { unimplemented!() }
    /// the length of this header as prost would write it (nothing says that is how it was written)
    #[verifier::external_body]
    pub fn encoded_len(&self) -> (r: usize) ensures r <= i64::MAX { unimplemented!() }
}
/// the frame that starts at byte `p`
pub open spec fn hlen(f: Seq<u8>, p: int) -> int { de4(f.subrange(p, p + 4)) as int }
pub open spec fn hdr(f: Seq<u8>, p: int) -> Option<BlobHeader> { dec_header(f.subrange(p + 4, p + 4 + hlen(f, p))) }
pub open spec fn body(f: Seq<u8>, p: int) -> int { p + 4 + hlen(f, p) }
pub open spec fn frame_ok(f: Seq<u8>, p: int) -> bool {
    &&& p + 4 <= f.len()
    &&& 0 <= hlen(f, p)
    &&& body(f, p) <= f.len()
    &&& hdr(f, p) is Some
    &&& hdr(f, p)->0.datasize >= 0
}
pub open spec fn next_frame(f: Seq<u8>, p: int) -> int { body(f, p) + hdr(f, p)->0.datasize }
/// from byte `p` on, the file is a sequence of frames
pub open spec fn framed(f: Seq<u8>, p: int) -> bool
    decreases if p >= f.len() { 0 } else { f.len() - p },
{
    p >= f.len() || (0 <= p && frame_ok(f, p) && next_frame(f, p) > p && framed(f, next_frame(f, p)))
}
impl BlobIterator {
    /// where the next frame starts
    pub open spec fn at(self) -> int { self.file.pos() + self.jump }
    pub open spec fn wf(self) -> bool {
        &&& 0 <= self.file.pos()
        &&& self.jump <= i64::MAX
        &&& framed(self.file.bytes(), self.at())
        &&& self.file.bytes().len() <= i64::MAX
    }
}
/// the descriptor of the frame at byte `p`
pub open spec fn desc(f: Seq<u8>, p: int, k: int, d: BlobDesc) -> bool {
    d.index == k && d.start == body(f, p) && d.length == hdr(f, p)->0.datasize && d.t == hdr(f, p)->0.r#type
}
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::new ret=r
    ensures r == (BlobDesc { path, index, start, length, t }),
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::start ret=r
    ensures r == self.start,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::length ret=r
    ensures r == self.length,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::index ret=r
    ensures r == self.index,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::t ret=r
    ensures r == self.t,
//@ end
//@ fn src/osm/pbf/blob_desc.rs BlobDesc::path ret=r
    ensures r == self.path,
//@ end
//@ fn src/osm/pbf/blob_iterator.rs BlobIterator::new ret=r
    ensures r.is_ok() == VFile::opens(path), r.is_ok() ==> r->Ok_0.index == 0 && r->Ok_0.jump == 0 && r->Ok_0.path == path && r->Ok_0.file.bytes() == VFile::at(path) && r->Ok_0.file.pos() == 0,
//@ end
//@ fn src/osm/pbf/blob_iterator.rs Iterator@BlobIterator::next ret=r
    requires old(self).wf(), old(self).at() < old(self).file.bytes().len() ==> old(self).index < usize::MAX,
    ensures
        final(self).wf(),
        final(self).file.bytes() == old(self).file.bytes(),
        final(self).path == old(self).path,
        r is None <==> old(self).at() >= old(self).file.bytes().len(),
        r is None ==> final(self).index == old(self).index && final(self).at() >= final(self).file.bytes().len(),
        r is Some ==> desc(old(self).file.bytes(), old(self).at(), old(self).index as int, r->0) && r->0.path == old(self).path
            && final(self).index == old(self).index + 1 && final(self).at() == next_frame(old(self).file.bytes(), old(self).at()),
//@ end
}
