verus! {
//@ type src/osm/pbf/element_accumulator.rs State
//@ type src/osm/pbf/element_accumulator.rs ElementAccumulator
//@ type src/osm/pbf/writer.rs Writer
//@ fn src/osm/pbf/writer.rs Writer::write_blob ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> final(self).file.bytes() == old(self).file.bytes() + frame(blob_header@, blob_body@),
        final(self).file.pos() == final(self).file.bytes().len(),
        final(self).element_accumulator == old(self).element_accumulator,
        final(self).compression_type == old(self).compression_type,
//@ tail:
    proof { assert(self.file.bytes() =~= old(self).file.bytes() + frame(blob_header@, blob_body@)); }
//@ end
}
