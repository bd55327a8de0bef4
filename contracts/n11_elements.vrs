//@ rename IntoIter std::vec::IntoIter
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blobs.vrs
//@ include blobwalk.vrs
//@ include blocks.vrs
verus! {
use vstd::std_specs::iter::IteratorSpec;
//@ type src/osm/pbf/element_iterator.rs ElementIterator
#[verifier::prophetic]
pub open spec fn pending(o: Option<std::vec::IntoIter<Element>>) -> Seq<Element> {
    match o { None => seq![], Some(i) => i.remaining() }
}
/// what is still to come
#[verifier::prophetic]
pub open spec fn remaining_of(it: ElementIterator) -> Seq<Element> { pending(it.element_iterator) + it.file_block_iterator.blob_iterator.todo() }
//@ fn src/osm/pbf/element_iterator.rs ElementIterator::create_element_iterator ret=r
    requires old(file_block_iterator).blob_iterator.ready(),
    ensures
        final(file_block_iterator).blob_iterator.ready(),
        final(file_block_iterator).blob_iterator.file.bytes() == old(file_block_iterator).blob_iterator.file.bytes(),
        pending(r) + final(file_block_iterator).blob_iterator.todo() == old(file_block_iterator).blob_iterator.todo(),
        r is None ==> final(file_block_iterator).blob_iterator.left() == 0,
        r is Some ==> final(file_block_iterator).blob_iterator.left() < old(file_block_iterator).blob_iterator.left(),
//@ loop 0:
        invariant
            file_block_iterator.blob_iterator.ready(),
            file_block_iterator.blob_iterator.file.bytes() == old(file_block_iterator).blob_iterator.file.bytes(),
            file_block_iterator.blob_iterator.todo() == old(file_block_iterator).blob_iterator.todo(),
            file_block_iterator.blob_iterator.left() <= old(file_block_iterator).blob_iterator.left(),
        ensures
            file_block_iterator.blob_iterator.left() == 0,
        decreases file_block_iterator.blob_iterator.left(),
//@ end
//@ fn src/osm/pbf/element_iterator.rs ElementIterator::new ret=r
    requires file_block_iterator.blob_iterator.ready(),
    ensures
        r.file_block_iterator.blob_iterator.ready(),
        r.file_block_iterator.blob_iterator.file.bytes() == file_block_iterator.blob_iterator.file.bytes(),
        r.element_iterator is None ==> r.file_block_iterator.blob_iterator.left() == 0,
        // everything after the first block
        remaining_of(r) == (if file_block_iterator.blob_iterator.left() == 0 { seq![] } else {
            let a = file_block_iterator.blob_iterator;
            rest(a.file.bytes(), a.path, next_frame(a.file.bytes(), a.at()), a.index + 1)
        }),
//@ end
//@ fn src/osm/pbf/element_iterator.rs Iterator@ElementIterator::next ret=r
    requires
        old(self).file_block_iterator.blob_iterator.ready(),
        old(self).element_iterator is None ==> old(self).file_block_iterator.blob_iterator.left() == 0,
    ensures
        final(self).file_block_iterator.blob_iterator.ready(),
        final(self).element_iterator is None ==> final(self).file_block_iterator.blob_iterator.left() == 0,
        // the next element, and nothing else, is taken from what is to come; the end comes only when nothing is left, and stays
        match r {
            Some(e) => remaining_of(*old(self)) == seq![e] + remaining_of(*final(self)),
            None => remaining_of(*old(self)).len() == 0 && remaining_of(*final(self)).len() == 0,
        },
//@ loop 0:
        invariant
            self.file_block_iterator.blob_iterator.ready(),
            self.element_iterator is None ==> self.file_block_iterator.blob_iterator.left() == 0,
            remaining_of(*self) == remaining_of(*old(self)),
        ensures
            self.element_iterator is None,
        decreases self.file_block_iterator.blob_iterator.left() + (if self.element_iterator is Some { 1int } else { 0 }),
//@ end
/// the elements of all blocks after the first one, in file order
pub open spec fn contents(f: Seq<u8>, path: VPath) -> Seq<Element> { if f.len() == 0 { seq![] } else { rest(f, path, next_frame(f, 0), 1) } }
//@ fn src/osm/pbf/reader.rs Reader::elements ret=r
    requires framed(VFile::at(self.path), 0), VFile::at(self.path).len() <= i64::MAX,
    ensures r.is_ok() ==> ({
        let b = r->Ok_0.file_block_iterator.blob_iterator;
        &&& b.ready() && b.file.bytes() == VFile::at(self.path)
        &&& r->Ok_0.element_iterator is None ==> b.left() == 0
        &&& remaining_of(r->Ok_0) == contents(VFile::at(self.path), self.path)
    }),
//@ end
/// iterating a file to its end: exactly its elements, in file order, and then no more however often next is called
pub exec fn n11_read(reader: &Reader, again: usize) -> (r: Result<Vec<Element>, AnyErr>)
    requires framed(VFile::at(reader.path), 0), VFile::at(reader.path).len() <= i64::MAX,
    ensures r.is_ok() ==> r->Ok_0@ == contents(VFile::at(reader.path), reader.path),
{
    let mut it = reader.elements()?;
    let mut out: Vec<Element> = Vec::new();
    let ghost all = contents(VFile::at(reader.path), reader.path);
    proof { assert(out@ + remaining_of(it) =~= all); }
    loop
        invariant
            it.file_block_iterator.blob_iterator.ready(),
            it.element_iterator is None ==> it.file_block_iterator.blob_iterator.left() == 0,
            all == contents(VFile::at(reader.path), reader.path), out@ + remaining_of(it) == all,
        ensures
            remaining_of(it).len() == 0,
        decreases all.len() - out@.len(),
    {
        let ghost before = remaining_of(it);
        let ghost had = out@;
        match it.next() {
            None => { break; }
            Some(e) => {
                out.push(e);
                proof { assert(had + (seq![e] + remaining_of(it)) =~= had.push(e) + remaining_of(it)); }
            }
        }
    }
    proof { assert(out@ + remaining_of(it) =~= out@); }
    for i in 0..again
        invariant
            it.file_block_iterator.blob_iterator.ready(),
            it.element_iterator is None ==> it.file_block_iterator.blob_iterator.left() == 0,
            remaining_of(it).len() == 0,
    {
        let x = it.next();
        assert(x is None);
    }
    Ok(out)
}
}
fn main() {}
