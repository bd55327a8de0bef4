//@ rename Error AnyErr
//@ rename VecDeque VDeque
//@ rename Mutex::new vid
//@ rename Mutex VMutex
//@ rename Box::new vid
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include order.vrs
//@ include partypes.vrs
//@ include poolseq.vrs
verus! {
use std::collections::HashMap;
//@ type src/osm/pbf/compression_type.rs CompressionType
pub struct VNone { pub x: u8 }
impl VNone { pub fn none() -> Self { VNone { x: 0 } } }
//@ locals src/osm/pbf/parallel_writer.rs Locals tl NEXT_THREAD_POOL=VPool PBF_WRITER=VNone
    ensures
        r.ELEMENT_ORDERING_BUFFER@.len() == 0, r.FILE_BLOCK_INDEX == 1, r.CURRENT_MIN_ELEMENT is None,
//@ end
pub open spec fn le(a: Element, b: Element) -> bool { ord3(a, b) != Ordering::Greater }
pub open spec fn sorted(s: Seq<Element>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn uniform(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> rank(#[trigger] s[i]) == rank(s[0]) }
pub open spec fn real(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Sentinel) }
impl VDeque<Element> {
    /// slice::sort: the order of Element (N05), nothing added or lost
    #[verifier::external_body]
    pub fn sort_all(&mut self)
        ensures sorted(final(self)@), final(self)@.len() == old(self)@.len(), final(self)@.to_multiset() == old(self)@.to_multiset(),
    { unimplemented!() }
}
pub open spec fn block(c: VCmd) -> Seq<Element> { c->Encode_0.elements@ }
/// what the ordering thread has handed to the encoders, in order
pub open spec fn out(cs: Seq<VCmd>) -> Seq<Element>
    decreases cs.len()
{ if cs.len() == 0 { seq![] } else { out(cs.drop_last()) + block(cs.last()) } }
pub open spec fn good_block(s: Seq<Element>, size: int) -> bool { 1 <= s.len() <= size && uniform(s) && real(s) }
pub open spec fn good(cs: Seq<VCmd>, size: int) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]) is Encode && cs[i]->Encode_0.index == i + 1 && good_block(block(cs[i]), size)
}
impl Locals {
    pub open spec fn sent(self) -> Seq<VCmd> { self.NEXT_THREAD_POOL.sent() }
    pub open spec fn buf(self) -> Seq<Element> { self.ELEMENT_ORDERING_BUFFER@ }
    /// emitted and still buffered
    pub open spec fn all(self) -> vstd::multiset::Multiset<Element> { out(self.sent()).to_multiset().add(self.buf().to_multiset()) }
    pub open spec fn wf(self) -> bool {
        &&& self.NEXT_THREAD_POOL.set()
        &&& self.FILE_BLOCK_SIZE >= 1
        &&& good(self.sent(), self.FILE_BLOCK_SIZE as int)
        &&& self.FILE_BLOCK_INDEX == self.sent().len() + 1
        &&& sorted(out(self.sent()))
        &&& out(self.sent()).len() == 0 ==> self.CURRENT_MIN_ELEMENT is None
        &&& out(self.sent()).len() > 0 ==> self.CURRENT_MIN_ELEMENT == Some(out(self.sent()).last())
        &&& real(self.buf())
        &&& forall|i: int| 0 <= i < self.buf().len() ==> self.after(#[trigger] self.buf()[i])
    }
    /// `e` is not less than anything emitted
    pub open spec fn after(self, e: Element) -> bool { self.CURRENT_MIN_ELEMENT is Some ==> le(self.CURRENT_MIN_ELEMENT->0, e) }
    pub open spec fn same_config(self, o: Locals) -> bool {
        self.FILE_BLOCK_SIZE == o.FILE_BLOCK_SIZE && self.ELEMENT_ORDERING_BUFFER_SIZE == o.ELEMENT_ORDERING_BUFFER_SIZE
    }
    pub open spec fn room(self) -> int { usize::MAX - 2 - self.sent().len() - self.buf().len() }
}
//@ fn src/osm/pbf/parallel_writer.rs element_ordering_buffer_size ret=r
    ensures r == old(tl).ELEMENT_ORDERING_BUFFER_SIZE, *final(tl) == *old(tl),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs file_block_size ret=r
    ensures r == old(tl).FILE_BLOCK_SIZE, *final(tl) == *old(tl),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs file_block_index ret=r
    ensures r == old(tl).FILE_BLOCK_INDEX, *final(tl) == *old(tl),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs inc_file_block_index
    requires old(tl).FILE_BLOCK_INDEX < usize::MAX,
    ensures *final(tl) == (Locals { FILE_BLOCK_INDEX: (old(tl).FILE_BLOCK_INDEX + 1) as usize, ..*old(tl) }),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs compare_to_current_min_element ret=r
    ensures
        *final(tl) == *old(tl),
        r == match old(tl).CURRENT_MIN_ELEMENT { None => Ordering::Greater, Some(m) => ord3(*element, m) },
//@ end
//@ fn src/osm/pbf/parallel_writer.rs set_current_min_element
    ensures *final(tl) == (Locals { CURRENT_MIN_ELEMENT: match element { None => old(tl).CURRENT_MIN_ELEMENT, Some(e) => Some(*e) }, ..*old(tl) }),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs assert_order ret=r
    ensures
        *final(tl) == *old(tl),
        // a late element, and only a late element, is refused
        r.is_ok() == (*element is Sentinel || old(tl).after(*element)),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs split_file_block ret=r
    requires old(tl).FILE_BLOCK_SIZE >= 1,
    ensures
        *final(tl) == (Locals { ELEMENT_ORDERING_BUFFER: final(tl).ELEMENT_ORDERING_BUFFER, ..*old(tl) }),
        r@ + final(tl).buf() == old(tl).buf(),
        r@.len() <= old(tl).FILE_BLOCK_SIZE, uniform(r@),
        old(tl).buf().len() > 0 ==> r@.len() > 0,
//@ loop 0 it:
    invariant
        old(tl).FILE_BLOCK_SIZE >= 1, it.seq().len() == old(tl).FILE_BLOCK_SIZE,
        *tl == (Locals { ELEMENT_ORDERING_BUFFER: tl.ELEMENT_ORDERING_BUFFER, ..*old(tl) }),
        elements@ + tl.buf() == old(tl).buf(),
        elements@.len() <= it.index@, uniform(elements@),
        it.index@ > 0 ==> elements@.len() > 0 || old(tl).buf().len() == 0,
    ensures elements@.len() > 0 || old(tl).buf().len() == 0,
//@ end
pub open spec fn with(m: vstd::multiset::Multiset<Element>, e: Element) -> vstd::multiset::Multiset<Element> { if e is Sentinel { m } else { m.insert(e) } }
pub open spec fn withs(m: vstd::multiset::Multiset<Element>, s: Seq<Element>) -> vstd::multiset::Multiset<Element>
    decreases s.len()
{ if s.len() == 0 { m } else { with(withs(m, s.drop_last()), s.last()) } }
proof fn lemma_out_push(cs: Seq<VCmd>, c: VCmd)
    ensures out(cs.push(c)) == out(cs) + block(c),
{ assert(cs.push(c).drop_last() =~= cs); }
proof fn lemma_multi_add(a: Seq<Element>, b: Seq<Element>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()),
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
proof fn lemma_member(a: Seq<Element>, b: Seq<Element>, i: int)
    requires a.to_multiset() == b.to_multiset(), 0 <= i < a.len(),
    ensures b.contains(a[i]),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.to_multiset().count(a[i]) > 0);
}
/// one more block `b`, cut from the front of the sorted buffer
proof fn lemma_emit(a: Locals, b: Seq<Element>, rest: Seq<Element>, c: VCmd)
    requires
        a.wf(), (b + rest).to_multiset() == a.buf().to_multiset(), sorted(b + rest), b.len() > 0,
        c is Encode, c->Encode_0.elements@ == b, c->Encode_0.index == a.FILE_BLOCK_INDEX, b.len() <= a.FILE_BLOCK_SIZE, uniform(b),
    ensures
        good(a.sent().push(c), a.FILE_BLOCK_SIZE as int),
        sorted(out(a.sent().push(c))), out(a.sent().push(c)).len() > 0, out(a.sent().push(c)).last() == b.last(),
        real(rest), forall|i: int| 0 <= i < rest.len() ==> le(b.last(), #[trigger] rest[i]),
        out(a.sent().push(c)).to_multiset().add(rest.to_multiset()) == a.all(),
        b.len() + rest.len() == a.buf().len(),
{
    let o = out(a.sent());
    let s = b + rest;
    lemma_out_push(a.sent(), c);
    a.buf().to_multiset_ensures();
    s.to_multiset_ensures();
    assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i] is Sentinel) && a.after(s[i]) by {
        lemma_member(s, a.buf(), i);
        let j = choose|j: int| 0 <= j < a.buf().len() && a.buf()[j] == s[i];
        assert(a.after(a.buf()[j]));
    }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == s[i] by { }
    assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] == s[b.len() + i] by { }
    assert(real(b)) by { assert forall|i: int| 0 <= i < b.len() implies !(#[trigger] b[i] is Sentinel) by { assert(!(s[i] is Sentinel)); } }
    assert(real(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies !(#[trigger] rest[i] is Sentinel) by { assert(!(s[b.len() + i] is Sentinel)); } }
    let n = o + b;
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies le(#[trigger] n[i], #[trigger] n[j]) by {
        if j < o.len() { assert(le(o[i], o[j])); }
        else if i >= o.len() { assert(le(s[i - o.len()], s[j - o.len()])); }
        else {
            assert(a.after(s[j - o.len()]));
            assert(le(o.last(), n[j]));
            if i < o.len() - 1 { assert(le(o[i], o[o.len() - 1])); }
        }
    }
    assert forall|i: int| 0 <= i < rest.len() implies le(b.last(), #[trigger] rest[i]) by { assert(le(s[b.len() - 1], s[b.len() + i])); }
    lemma_multi_add(o, b);
    lemma_multi_add(b, rest);
    assert(n.to_multiset().add(rest.to_multiset()) =~= o.to_multiset().add(b.to_multiset().add(rest.to_multiset())));
    assert forall|i: int| 0 <= i < a.sent().push(c).len() implies (#[trigger] a.sent().push(c)[i]) is Encode && a.sent().push(c)[i]->Encode_0.index == i + 1 && good_block(block(a.sent().push(c)[i]), a.FILE_BLOCK_SIZE as int) by {
        if i < a.sent().len() { assert(a.sent()[i] is Encode); }
    }
}
//@ fn src/osm/pbf/parallel_writer.rs flush_sorted_top
    requires old(tl).wf(), old(tl).buf().len() > 0, old(tl).room() >= 0,
    ensures
        final(tl).wf(), final(tl).same_config(*old(tl)), final(tl).all() == old(tl).all(),
        final(tl).room() >= old(tl).room(),
//@ tail:
    proof {
        let c = tl.sent().last();
        lemma_emit(*old(tl), block(c), tl.buf(), c);
        assert(tl.sent() =~= old(tl).sent().push(c));
    }
//@ end
broadcast proof fn lemma_push(m: vstd::multiset::Multiset<Element>, b: Seq<Element>, e: Element)
    ensures #[trigger] m.add(b.push(e).to_multiset()) == m.add(b.to_multiset()).insert(e),
{
    b.to_multiset_ensures();
    assert(m.add(b.push(e).to_multiset()) =~= m.add(b.to_multiset()).insert(e));
}
/// sorting the buffer
proof fn lemma_permuted(a: Locals, b: Locals)
    requires a.wf(), b == (Locals { ELEMENT_ORDERING_BUFFER: b.ELEMENT_ORDERING_BUFFER, ..a }), b.buf().to_multiset() == a.buf().to_multiset(),
    ensures b.wf(), b.all() == a.all(),
{
    assert forall|i: int| 0 <= i < b.buf().len() implies !(#[trigger] b.buf()[i] is Sentinel) && b.after(b.buf()[i]) by {
        lemma_member(b.buf(), a.buf(), i);
        let j = choose|j: int| 0 <= j < a.buf().len() && a.buf()[j] == b.buf()[i];
        assert(a.after(a.buf()[j]));
    }
}
//@ fn src/osm/pbf/parallel_writer.rs flush_all_sorted
    requires old(tl).wf(), old(tl).room() >= 0,
    ensures
        final(tl).wf(), final(tl).same_config(*old(tl)), final(tl).all() == old(tl).all(),
        final(tl).buf().len() == 0,
//@ beforeloop 0:
    proof { lemma_permuted(*old(tl), *tl); }
//@ loop 0:
    invariant
        tl.wf(), tl.same_config(*old(tl)), tl.all() == old(tl).all(), tl.room() >= 0, sorted(tl.buf()),
    decreases tl.buf().len(),
//@ loopstart 0:
    let ghost m = *tl;
//@ loopend 0:
    proof {
        let c = tl.sent().last();
        lemma_emit(m, block(c), tl.buf(), c);
        assert(tl.sent() =~= m.sent().push(c));
        assert(sorted(tl.buf())) by {
            let s = block(c) + tl.buf();
            assert forall|i: int, j: int| 0 <= i < j < tl.buf().len() implies le(#[trigger] tl.buf()[i], #[trigger] tl.buf()[j]) by {
                assert(le(s[block(c).len() + i], s[block(c).len() + j]));
            }
        }
    }
//@ end
//@ fn src/osm/pbf/parallel_writer.rs Command@AddElementCommand::execute ret=r mutself
    requires old(tl).wf(), old(self).element is Some, old(tl).room() >= 1,
    ensures
        final(tl).wf(), final(tl).same_config(*old(tl)),
        // refused exactly when something greater was already emitted
        r.is_ok() == (old(self).element->0 is Sentinel || old(tl).after(old(self).element->0)),
        r.is_ok() ==> final(tl).all() == with(old(tl).all(), old(self).element->0),
        r.is_err() ==> *final(tl) == *old(tl),
        final(tl).room() >= old(tl).room() - 1,
//@ start:
    broadcast use lemma_push;
//@ end
//@ fn src/osm/pbf/parallel_writer.rs Command@AddElementsCommand::execute ret=r mutself
    requires old(tl).wf(), old(self).elements is Some, old(tl).room() >= old(self).elements->0@.len(),
    ensures
        final(tl).wf(), final(tl).same_config(*old(tl)),
        r.is_ok() == forall|i: int| 0 <= i < old(self).elements->0@.len() ==> (#[trigger] old(self).elements->0@[i] is Sentinel) || old(tl).after(old(self).elements->0@[i]),
        r.is_ok() ==> final(tl).all() == withs(old(tl).all(), old(self).elements->0@),
        final(tl).room() >= old(tl).room() - old(self).elements->0@.len(),
//@ loop 0 it:
    invariant
        old(self).elements is Some, it.seq() == old(self).elements->0@,
        tl.wf(), tl.same_config(*old(tl)),
        tl.sent() == old(tl).sent(), tl.CURRENT_MIN_ELEMENT == old(tl).CURRENT_MIN_ELEMENT,
        tl.all() == withs(old(tl).all(), it.seq().take(it.index@)),
        tl.room() >= old(tl).room() - it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i] is Sentinel) || old(tl).after(it.seq()[i]),
//@ start:
    broadcast use lemma_push;
//@ loopstart 0:
    let ghost e0 = element; let ghost m = *tl;
//@ loopend 0:
    proof {
        assert(it.seq().take(it.index@ + 1).last() == e0);
        if !(e0 is Sentinel) {
            assert(tl.buf() == m.buf().push(e0));
            lemma_push(out(m.sent()).to_multiset(), m.buf(), e0);
        } else { assert(tl.buf() == m.buf()); }
        assert(tl.sent() == m.sent());
        assert(tl.all() == with(m.all(), e0));
        assert(it.seq().take(it.index@ + 1).drop_last() =~= it.seq().take(it.index@)); }
//@ afterloop 0:
    proof { assert(old(self).elements->0@.take(old(self).elements->0@.len() as int) =~= old(self).elements->0@); }
//@ end
// ---- the property: any stream, any buffer size, any block size
/// what is left of a stream without its sentinels, as a collection
pub open spec fn given(s: Seq<Element>) -> vstd::multiset::Multiset<Element> { withs(vstd::multiset::Multiset::empty(), s) }
/// the ordering thread of a new writer (ParallelWriter::from_file_info sets these three)
pub exec fn n13_thread(buffer: usize, size: usize, pool: VPool) -> (tl: Locals)
    requires size >= 1, pool.set(), pool.sent().len() == 0,
    ensures tl.wf(), tl.sent().len() == 0, tl.buf().len() == 0, tl.all() == vstd::multiset::Multiset::<Element>::empty(), tl.FILE_BLOCK_SIZE == size,
{
    let mut tl = Locals::init();
    tl.ELEMENT_ORDERING_BUFFER_SIZE = buffer;
    tl.FILE_BLOCK_SIZE = size;
    tl.NEXT_THREAD_POOL = pool;
    proof {
        Seq::<Element>::empty().to_multiset_ensures();
        assert(tl.buf() =~= Seq::<Element>::empty());
        assert(out(tl.sent()) =~= Seq::<Element>::empty());
        assert(tl.all() =~= vstd::multiset::Multiset::<Element>::empty());
    }
    tl
}
pub open spec fn emitted(tl: Locals, size: int, s: Seq<Element>) -> bool {
    &&& good(tl.sent(), size)
    &&& sorted(out(tl.sent()))
    &&& out(tl.sent()).to_multiset() == given(s)
}
pub exec fn n13_one_by_one(elements: Vec<Element>, buffer: usize, size: usize, pool: VPool) -> (r: Result<Locals, AnyErr>)
    requires size >= 1, pool.set(), pool.sent().len() == 0, elements@.len() <= usize::MAX - 2,
    ensures r.is_ok() ==> emitted(r->Ok_0, size as int, elements@),
{
    let mut tl = n13_thread(buffer, size, pool);
    proof { assert(elements@.take(0) =~= Seq::<Element>::empty()); }
    for e in it: elements
        invariant
            it.seq() == elements@, elements@.len() <= usize::MAX - 2,
            tl.wf(), tl.FILE_BLOCK_SIZE == size, tl.all() == given(elements@.take(it.index@)),
            tl.room() >= usize::MAX - 2 - it.index@,
    {
        let ghost e0 = e;
        let mut c = AddElementCommand::new(e);
        c.execute(&mut tl)?;
        proof {
            assert(elements@.take(it.index@ + 1).drop_last() =~= elements@.take(it.index@));
            assert(elements@.take(it.index@ + 1).last() == e0);
        }
    }
    proof { assert(elements@.take(elements@.len() as int) =~= elements@); }
    flush_all_sorted(&mut tl);
    proof {
        Seq::<Element>::empty().to_multiset_ensures();
        assert(tl.buf() =~= Seq::<Element>::empty());
        assert(out(tl.sent()).to_multiset().add(tl.buf().to_multiset()) =~= out(tl.sent()).to_multiset());
    }
    Ok(tl)
}
pub exec fn n13_batch_then_one(batch: Vec<Element>, e: Element, tl: &mut Locals) -> (r: Result<(), AnyErr>)
    requires old(tl).wf(), old(tl).room() >= batch@.len() + 1,
    ensures
        final(tl).wf(),
        r.is_ok() ==> final(tl).all() == withs(old(tl).all(), batch@.push(e)),
        r.is_ok() ==> final(tl).room() >= old(tl).room() - batch@.len() - 1,
{
    proof { assert(batch@.push(e).drop_last() =~= batch@); }
    let mut c = AddElementsCommand::new(batch);
    c.execute(tl)?;
    let mut c = AddElementCommand::new(e);
    c.execute(tl)
}
}
fn main() {}
