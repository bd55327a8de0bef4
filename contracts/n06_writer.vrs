//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blockio.vrs
//@ include writer.vrs
verus! {
pub open spec fn rank(e: Element) -> int {
    match e { Element::Node { .. } => 0, Element::Way { .. } => 1, Element::Relation { .. } => 2, Element::Sentinel => 3 }
}
pub open spec fn srank(s: State) -> int { match s { State::Nodes => 0, State::Ways => 1, State::Relations => 2 } }
/// `e` appended, unless it is a sentinel
pub open spec fn keep(s: Seq<Element>, e: Element) -> Seq<Element> { if e is Sentinel { s } else { s.push(e) } }
/// elements of a single kind
pub open spec fn uniform(s: Seq<Element>, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> rank(#[trigger] s[i]) == k }
/// what a data block of the sequential writer may hold
pub open spec fn good_block(s: Seq<Element>) -> bool { 1 <= s.len() <= 8000 && exists|k: int| 0 <= k <= 2 && #[trigger] uniform(s, k) }
pub open spec fn opt_elems(o: Option<Vec<Element>>) -> Seq<Element> { match o { None => seq![], Some(v) => v@ } }
impl ElementAccumulator {
    pub open spec fn wf(self) -> bool {
        &&& self.block_size == 8000
        &&& self.elements@.len() < 8000
        &&& uniform(self.elements@, srank(self.state))
    }
}
//@ fn src/osm/pbf/element_accumulator.rs ElementAccumulator::new ret=r
    ensures r.wf(), r.elements@.len() == 0, r.state is Nodes, r.index == 0,
//@ end
//@ fn src/osm/pbf/element_accumulator.rs ElementAccumulator::add ret=r diverge
    requires old(self).wf(), old(self).index + 3 - srank(old(self).state) <= usize::MAX,
    ensures
        final(self).wf(),
        // nothing lost, nothing reordered
        opt_elems(r) + final(self).elements@ == keep(old(self).elements@, element),
        r is Some ==> good_block(r->0@),
        // an element of an earlier kind is refused: the call does not return
        !(element is Sentinel) ==> rank(element) >= srank(old(self).state),
        srank(final(self).state) == if element is Sentinel { srank(old(self).state) } else { rank(element) },
        final(self).index <= old(self).index + 1,
        old(self).elements@.len() == 0 ==> r is None && final(self).index == old(self).index,
    decreases 2 - srank(old(self).state),
//@ tail:
    proof {
        let k = srank(old(self).state);
        if result is Some {
            assert forall|i: int| 0 <= i < result->0@.len() implies rank(#[trigger] result->0@[i]) == k by { }
            assert(uniform(result->0@, k));
        }
    }
//@ end
//@ fn src/osm/pbf/element_accumulator.rs ElementAccumulator::elements ret=r
    requires old(self).wf(), old(self).index < usize::MAX,
    ensures final(self).wf(), r@ == old(self).elements@, final(self).elements@.len() == 0, r@.len() == 0 || good_block(r@),
//@ tail:
    proof { assert(uniform(old(self).elements@, srank(old(self).state))); }
//@ end
//@ fn src/osm/pbf/element_accumulator.rs ElementAccumulator::index ret=r
    ensures r == self.index,
//@ end
/// `b` holds exactly the elements `s`
pub open spec fn holds(b: FileBlock, s: Seq<Element>) -> bool { b is Data && b->data.elements@ == s }
pub open spec fn front(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.take(s.len() - t.len()) }
pub open spec fn ends_with(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s == front(s, t) + t }
/// `bytes` is `old` followed by the frames of the data blocks `bs`, in order
pub open spec fn laid(old: Seq<u8>, bytes: Seq<u8>, bs: Seq<Seq<Element>>, c: CompressionType) -> bool
    decreases bs.len()
{
    if bs.len() == 0 { bytes == old } else {
        exists|b: FileBlock| holds(b, bs.last()) && ends_with(bytes, #[trigger] block_bytes(b, c)) && laid(old, front(bytes, block_bytes(b, c)), bs.drop_last(), c)
    }
}
pub open spec fn cat(bs: Seq<Seq<Element>>) -> Seq<Element>
    decreases bs.len()
{ if bs.len() == 0 { seq![] } else { cat(bs.drop_last()) + bs.last() } }
pub open spec fn keeps(s: Seq<Element>) -> Seq<Element>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { keep(keeps(s.drop_last()), s.last()) } }
impl Writer {
    pub open spec fn wf(self) -> bool { self.element_accumulator.wf() && self.file.pos() == self.file.bytes().len() }
}
proof fn lemma_one(old: Seq<u8>, es: Seq<Element>, b: FileBlock, c: CompressionType)
    requires holds(b, es),
    ensures laid(old, old + block_bytes(b, c), seq![es], c), cat(seq![es]) == es,
{
    let bs = seq![es];
    let z = old + block_bytes(b, c);
    assert(front(z, block_bytes(b, c)) =~= old);
    assert(bs.drop_last() =~= Seq::<Seq<Element>>::empty());
    assert(laid(old, old, bs.drop_last(), c));
    assert(cat(bs.drop_last()) =~= Seq::<Element>::empty());
    assert(cat(bs) =~= es);
}
//@ fn src/osm/pbf/writer.rs Writer::write_file_block ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> final(self).file.bytes() == old(self).file.bytes() + block_bytes(file_block, old(self).compression_type),
        final(self).file.pos() == final(self).file.bytes().len(),
        final(self).element_accumulator == old(self).element_accumulator,
        final(self).compression_type == old(self).compression_type,
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::from_file_info ret=r
    ensures r.info == file_info,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::from_header ret=r
    ensures r is Header, r->header == osm_header,
//@ end
//@ fn src/osm/pbf/writer.rs Writer::from_file_info ret=r
    ensures r.is_ok() ==> ({
        let w = r->Ok_0;
        w.wf() && w.file.bytes().len() == 0 && w.element_accumulator.elements@.len() == 0 && w.element_accumulator.index == 0
        && w.file_info == file_info && w.compression_type == compression_type
    }),
//@ end
//@ fn src/osm/pbf/writer.rs Writer::write_header ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).element_accumulator == old(self).element_accumulator, final(self).compression_type == old(self).compression_type,
        r.is_ok() ==> exists|b: FileBlock| b is Header && b->header.info == old(self).file_info
            && final(self).file.bytes() == old(self).file.bytes() + #[trigger] block_bytes(b, old(self).compression_type),
//@ end
//@ fn src/osm/pbf/writer.rs Writer::write_elements ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> exists|b: FileBlock| holds(b, elements@) && final(self).file.bytes() == old(self).file.bytes() + #[trigger] block_bytes(b, old(self).compression_type),
        final(self).file.pos() == final(self).file.bytes().len(),
        final(self).element_accumulator == old(self).element_accumulator,
        final(self).compression_type == old(self).compression_type,
//@ end
//@ fn src/osm/pbf/writer.rs Writer::write_element ret=r
    requires old(self).wf(), old(self).element_accumulator.index + 3 <= usize::MAX,
    ensures
        final(self).wf(),
        final(self).compression_type == old(self).compression_type,
        final(self).element_accumulator.index <= old(self).element_accumulator.index + 1,
        // an element after a later kind has started is refused
        !(element is Sentinel) ==> rank(element) >= srank(old(self).element_accumulator.state),
        r.is_ok() ==> exists|bs: Seq<Seq<Element>>| #![trigger laid(old(self).file.bytes(), final(self).file.bytes(), bs, old(self).compression_type)]
            laid(old(self).file.bytes(), final(self).file.bytes(), bs, old(self).compression_type)
            && (forall|i: int| 0 <= i < bs.len() ==> good_block(#[trigger] bs[i]))
            && cat(bs) + final(self).element_accumulator.elements@ == keep(old(self).element_accumulator.elements@, element),
//@ tail:
    proof {
        if elements is Some {
            let b = choose|b: FileBlock| holds(b, elements->0@) && self.file.bytes() == old(self).file.bytes() + #[trigger] block_bytes(b, old(self).compression_type);
            lemma_one(old(self).file.bytes(), elements->0@, b, self.compression_type);
            assert(laid(old(self).file.bytes(), self.file.bytes(), seq![elements->0@], old(self).compression_type));
        } else {
            assert(laid(old(self).file.bytes(), self.file.bytes(), seq![], old(self).compression_type));
        }
    }
//@ end
//@ fn src/osm/pbf/writer.rs Writer::close ret=r
    requires old(self).wf(), old(self).element_accumulator.index < usize::MAX,
    ensures
        final(self).wf(),
        r.is_ok() ==> final(self).element_accumulator.elements@.len() == 0 && exists|bs: Seq<Seq<Element>>| #![trigger laid(old(self).file.bytes(), final(self).file.bytes(), bs, old(self).compression_type)]
            laid(old(self).file.bytes(), final(self).file.bytes(), bs, old(self).compression_type)
            && (forall|i: int| 0 <= i < bs.len() ==> good_block(#[trigger] bs[i]))
            && cat(bs) == old(self).element_accumulator.elements@,
//@ tail:
    proof {
        if old(self).element_accumulator.elements@.len() > 0 {
            let es = old(self).element_accumulator.elements@;
            let b = choose|b: FileBlock| holds(b, es) && self.file.bytes() == old(self).file.bytes() + #[trigger] block_bytes(b, old(self).compression_type);
            lemma_one(old(self).file.bytes(), es, b, self.compression_type);
            assert(laid(old(self).file.bytes(), self.file.bytes(), seq![es], old(self).compression_type));
        } else {
            assert(laid(old(self).file.bytes(), self.file.bytes(), seq![], old(self).compression_type));
        }
    }
//@ end

proof fn lemma_laid_more(a: Seq<u8>, m: Seq<u8>, z: Seq<u8>, x: Seq<Seq<Element>>, y: Seq<Seq<Element>>, c: CompressionType)
    requires laid(a, m, x, c), laid(m, z, y, c),
    ensures laid(a, z, x + y, c), cat(x + y) == cat(x) + cat(y),
    decreases y.len(),
{
    if y.len() == 0 {
        assert(x + y =~= x);
        assert(cat(x) + cat(y) =~= cat(x));
    } else {
        let b = choose|b: FileBlock| holds(b, y.last()) && ends_with(z, #[trigger] block_bytes(b, c)) && laid(m, front(z, block_bytes(b, c)), y.drop_last(), c);
        lemma_laid_more(a, m, front(z, block_bytes(b, c)), x, y.drop_last(), c);
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
        assert(cat(x + y) =~= cat(x) + cat(y));
    }
}
/// N06 as a client of the contracts: write a stream element by element and close; what is on the file afterwards
pub exec fn n06_client(w: &mut Writer, stream: Vec<Element>) -> (r: Result<(), AnyErr>)
    requires old(w).wf(), old(w).element_accumulator.elements@.len() == 0, old(w).element_accumulator.index + stream@.len() + 4 <= usize::MAX,
    ensures
        r.is_ok() ==> exists|bs: Seq<Seq<Element>>| #![trigger cat(bs)]
            laid(old(w).file.bytes(), final(w).file.bytes(), bs, old(w).compression_type)
            && (forall|i: int| 0 <= i < bs.len() ==> good_block(#[trigger] bs[i]))
            && cat(bs) == keeps(stream@),
{
    let ghost a = w.file.bytes();
    let ghost c = w.compression_type;
    let mut i: usize = 0;
    let ghost mut done: Seq<Seq<Element>> = seq![];
    proof { assert(cat(done) + w.element_accumulator.elements@ =~= keeps(stream@.take(0))); }
    while i < stream.len()
        invariant
            0 <= i <= stream.len(),
            w.wf(), w.compression_type == c,
            w.element_accumulator.index + (stream@.len() - i) + 4 <= usize::MAX,
            laid(a, w.file.bytes(), done, c),
            forall|k: int| 0 <= k < done.len() ==> good_block(#[trigger] done[k]),
            cat(done) + w.element_accumulator.elements@ == keeps(stream@.take(i as int)),
        decreases stream.len() - i,
    {
        let ghost before = w.file.bytes();
        let ghost acc = w.element_accumulator.elements@;
        let e = stream[i].clone();
        w.write_element(e)?;
        proof {
            let bs = choose|bs: Seq<Seq<Element>>| #![trigger laid(before, w.file.bytes(), bs, c)]
                laid(before, w.file.bytes(), bs, c) && (forall|i: int| 0 <= i < bs.len() ==> good_block(#[trigger] bs[i]))
                && cat(bs) + w.element_accumulator.elements@ == keep(acc, e);
            lemma_laid_more(a, before, w.file.bytes(), done, bs, c);
            assert(stream@.take(i + 1).drop_last() =~= stream@.take(i as int));
            assert(keeps(stream@.take(i + 1)) =~= keep(cat(done) + acc, e));
            assert(cat(done + bs) + w.element_accumulator.elements@ =~= cat(done) + keep(acc, e));
            assert(cat(done) + keep(acc, e) =~= keep(cat(done) + acc, e));
            done = done + bs;
        }
        i = i + 1;
    }
    let ghost before = w.file.bytes();
    let ghost acc = w.element_accumulator.elements@;
    w.close()?;
    proof {
        let bs = choose|bs: Seq<Seq<Element>>| #![trigger laid(before, w.file.bytes(), bs, c)]
            laid(before, w.file.bytes(), bs, c) && (forall|i: int| 0 <= i < bs.len() ==> good_block(#[trigger] bs[i])) && cat(bs) == acc;
        lemma_laid_more(a, before, w.file.bytes(), done, bs, c);
        assert(stream@.take(stream@.len() as int) =~= stream@);
        let all = done + bs;
        assert(cat(all) == keeps(stream@));
    }
    Ok(())
}
}
fn main() {}
