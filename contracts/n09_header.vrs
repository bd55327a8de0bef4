//@ rename osmpbf::HeaderBlock HeaderBlock
//@ rename osmpbf::HeaderBBox HeaderBBox
//@ rename Path VPath
//@ include prelude.vrs
//@ include std.vrs
//@ include ieee.vrs
//@ include model.vrs trusted
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs trusted
//@ include blockio.vrs trusted
//@ include writer.vrs trusted
//@ include blobs.vrs trusted
//@ include blobwalk.vrs trusted
//@ include blocks.vrs trusted
verus! {
impl Clone for BoundingBox { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Reader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Default for FileInfo { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
impl VPath {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: VPath) ensures r == *self { unimplemented!() }
}
}
//@ include header_fns.vrs
verus! {
broadcast use { ax::axiom_string_ext, ieee::group_ieee, ax::axiom_str_to_string };

/// a side that is the double nearest to a multiple of 1e-9 degrees comes back unchanged
proof fn lemma_side(x: f64, k: i64)
    requires -1000000000000 <= k <= 1000000000000, x == fdiv(i2f(k), NANODEG),
    ensures to_nano(x) == k, of_nano(to_nano(x)) == x,
{
    axiom_literals();
    axiom_i2f(k);
    let a = i2f(k);
    let e = fv(a) / 1000000000real;
    assert(rabs(e) <= 1000real) by (nonlinear_arith) requires e == fv(a) / 1000000000real, fv(a) == k as real, -1000000000000 <= k <= 1000000000000;
    axiom_fdiv(a, NANODEG);
    assert(fin(x) && rabs(fv(x) - e) <= 0.00000000000012real);
    let p = fv(x) * 1000000000real;
    assert(e * 1000000000real == k as real) by (nonlinear_arith) requires e == fv(a) / 1000000000real, fv(a) == k as real;
    assert(rabs(p - k as real) <= 0.00012real) by (nonlinear_arith) requires e * 1000000000real == k as real, rabs(fv(x) - e) <= 0.00000000000012real, p == fv(x) * 1000000000real;
    axiom_fmul(x, NANODEG);
    let m = fmul(x, NANODEG);
    assert(rabs(fv(m) - p) <= 0.0002real);
    axiom_round(m);
    assert(rnd(m) == k);
    axiom_f2i(fround(m), k);
}
/// a side given at up to nine decimal digits: the double nearest to some multiple of 1e-9 (of at most 1000 degrees)
pub open spec fn nine_digits(x: f64) -> bool { exists|k: i64| -1000000000000 <= k <= 1000000000000 && x == #[trigger] fdiv(i2f(k), NANODEG) }
pub open spec fn storable_box(b: Option<BoundingBox>) -> bool { b is Some ==> nine_digits((b->0).left) && nine_digits((b->0).right) && nine_digits((b->0).top) && nine_digits((b->0).bottom) }
pub open spec fn same_box(a: Option<BoundingBox>, b: Option<BoundingBox>) -> bool {
    a is Some == b is Some && (a is Some ==> (a->0).left == (b->0).left && (a->0).right == (b->0).right && (a->0).top == (b->0).top && (a->0).bottom == (b->0).bottom)
}
/// the same information
pub open spec fn same_info(a: FileInfo, b: FileInfo) -> bool {
    &&& same_box(a.bounding_box, b.bounding_box)
    &&& a.required_features@ == b.required_features@
    &&& a.optional_features@ == b.optional_features@
    &&& a.writingprogram == b.writingprogram
    &&& a.source == b.source
    &&& a.osmosis_replication_timestamp == b.osmosis_replication_timestamp
    &&& a.osmosis_replication_sequence_number == b.osmosis_replication_sequence_number
    &&& a.osmosis_replication_base_url == b.osmosis_replication_base_url
}
proof fn lemma_box(h: Option<HeaderBBox>, a: Option<BoundingBox>, b: Option<BoundingBox>)
    requires enc_bbox(h, a), dec_bbox(h, b), storable_box(a),
    ensures same_box(a, b),
{
    if a is Some {
        let x = a->0;
        let k = choose|k: i64| -1000000000000 <= k <= 1000000000000 && x.left == #[trigger] fdiv(i2f(k), NANODEG);
        lemma_side(x.left, k);
        let k = choose|k: i64| -1000000000000 <= k <= 1000000000000 && x.right == #[trigger] fdiv(i2f(k), NANODEG);
        lemma_side(x.right, k);
        let k = choose|k: i64| -1000000000000 <= k <= 1000000000000 && x.top == #[trigger] fdiv(i2f(k), NANODEG);
        lemma_side(x.top, k);
        let k = choose|k: i64| -1000000000000 <= k <= 1000000000000 && x.bottom == #[trigger] fdiv(i2f(k), NANODEG);
        lemma_side(x.bottom, k);
    }
}
/// N09: what a header is made from is what is read from its bytes
fn header_round_trip(info: FileInfo) -> (r: OsmHeader)
    requires storable_box(info.bounding_box),
    ensures same_info(info, r.info),
{
    let ghost i = info;
    let h = OsmHeader::from_file_info(info);
    match h.serialize() {
        Ok(bytes) => {
            let ghost m = dec_hblock(bytes@)->0;
            match OsmHeader::from_bytes(bytes) {
                Ok(o) => { proof { lemma_box(m.bbox, i.bounding_box, o.info.bounding_box); } o }
                Err(_) => vpanic(),
            }
        }
        Err(_) => vpanic(),
    }
}
// ---- the header block is the first block a writer writes, and the one a reader reports
//@ fn src/osm/pbf/writer.rs Writer::write_file_block ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> final(self).file.bytes() == old(self).file.bytes() + block_bytes(file_block, old(self).compression_type),
        final(self).file.pos() == final(self).file.bytes().len(),
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::from_header ret=r
    ensures r is Header, r->header == osm_header,
//@ end
//@ trusted src/osm/pbf/element_accumulator.rs ElementAccumulator::new ret=r
//@ end
//@ fn src/osm/pbf/writer.rs Writer::from_file_info ret=r
    ensures r.is_ok() ==> r->Ok_0.file_info == file_info && r->Ok_0.file.bytes().len() == 0 && r->Ok_0.file.pos() == 0,
//@ end
//@ fn src/osm/pbf/writer.rs Writer::new ret=r
    ensures
        r.is_ok() ==> ({
            let i = r->Ok_0.file_info;
            &&& i.bounding_box == precomputed_bounding_box
            &&& i.required_features@.len() == if contains_history { 3int } else { 2int }
            &&& i.required_features@[0]@ == "OsmSchema-V0.6"@ && i.required_features@[1]@ == "DenseNodes"@
            &&& contains_history ==> i.required_features@[2]@ == "HistoricalInformation"@
            &&& i.optional_features@.len() == 1 && i.optional_features@[0]@ == "Sort.Type_then_ID"@
            &&& i.writingprogram is Some && (i.writingprogram->0)@ == program_name@
            &&& i.source is Some && (i.source->0)@ == data_source@
            &&& i.osmosis_replication_timestamp == osmosis_replication_timestamp
            &&& i.osmosis_replication_sequence_number == osmosis_replication_sequence_number
            &&& i.osmosis_replication_base_url == osmosis_replication_base_url
            &&& r->Ok_0.file.bytes().len() == 0 && r->Ok_0.file.pos() == 0
        }),
//@ end
//@ fn src/osm/pbf/writer.rs Writer::write_header ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> exists|b: FileBlock| b is Header && b->header.info == old(self).file_info
            && final(self).file.bytes() == old(self).file.bytes() + #[trigger] block_bytes(b, old(self).compression_type),
//@ end
//@ trusted src/osm/pbf/reader.rs Reader::verify_supported_features ret=r
//@ end
//@ fn src/osm/pbf/reader.rs Reader::info ret=r
    ensures *r == self.info,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::new ret=r
    requires framed(VFile::at(*path), 0), VFile::at(*path).len() <= i64::MAX,
    ensures
        r.is_ok() ==> ({
            let h = stored(mk(VFile::at(*path), *path, 0, 0));
            h is Header && r->Ok_0.info == h->header.info
        }),
//@ end
}
fn main() {}
