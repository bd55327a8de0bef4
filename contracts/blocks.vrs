verus! {
//@ type src/osm/pbf/file_block_iterator.rs FileBlockIterator
//@ type src/osm/pbf/reader.rs Reader
//@ fn src/osm/pbf/file_block_iterator.rs FileBlockIterator::new ret=r
    ensures r.blob_iterator == blob_iterator,
//@ end
/// one step over the blocks of the file
pub open spec fn step(a: BlobIterator, b: BlobIterator, r: Option<FileBlock>) -> bool {
    &&& b.ready() && b.file.bytes() == a.file.bytes() && b.path == a.path
    &&& match r {
        None => a.left() == 0 && b.left() == 0,
        Some(x) => a.left() > 0 && x == stored(mk(a.file.bytes(), a.path, a.at(), a.index as int)) && b.at() == next_frame(a.file.bytes(), a.at()) && b.index == a.index + 1 && b.left() < a.left(),
    }
}
//@ fn src/osm/pbf/file_block_iterator.rs Iterator@FileBlockIterator::next ret=r diverge
    requires old(self).blob_iterator.ready(),
    ensures step(old(self).blob_iterator, final(self).blob_iterator, r),
//@ tail:
    proof { assert(blob_desc == mk(old(self).blob_iterator.file.bytes(), old(self).blob_iterator.path, old(self).blob_iterator.at(), old(self).blob_iterator.index as int)); }
//@ end
//@ fn src/osm/pbf/reader.rs Reader::blobs ret=r
    ensures r.is_ok() == VFile::opens(self.path), r.is_ok() ==> r->Ok_0.index == 0 && r->Ok_0.jump == 0 && r->Ok_0.path == self.path && r->Ok_0.file.bytes() == VFile::at(self.path) && r->Ok_0.file.pos() == 0,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::blocks ret=r
    ensures r.is_ok() == VFile::opens(self.path), r.is_ok() ==> ({
        let b = r->Ok_0.blob_iterator;
        b.index == 0 && b.jump == 0 && b.path == self.path && b.file.bytes() == VFile::at(self.path) && b.file.pos() == 0
    }),
//@ end
}
