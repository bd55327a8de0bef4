//@ rename Error AnyErr
//@ rename VecDeque VDeque
//@ rename Mutex::new vid
//@ rename Mutex VMutex
//@ rename Box::new vid
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blockio.vrs
//@ include writer.vrs
//@ include partypes.vrs
//@ include poolseq.vrs
verus! {
use std::collections::HashMap;
broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ locals src/osm/pbf/parallel_writer.rs Locals tl NEXT_THREAD_POOL=VPool
    ensures r.NEXT_TO_WRITE == 1, r.BLOB_ORDERING_BUFFER@ == Map::<usize, (Vec<u8>, Vec<u8>)>::empty(),
//@ end
pub open spec fn holds(b: FileBlock, s: Seq<Element>) -> bool { b is Data && b->data.elements@ == s }
//@ fn src/osm/pbf/file_block.rs FileBlock::from_elements ret=r
    ensures holds(r, elements@),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs compression_type ret=r diverge
    ensures old(tl).COMPRESSION_TYPE == Some(r), *final(tl) == *old(tl),
//@ end
/// one command more for the writing thread: block `b`, serialized, as number `index`
pub open spec fn encoded(a: Locals, z: Locals, index: usize, b: FileBlock) -> bool {
    let c = z.NEXT_THREAD_POOL.sent().last();
    &&& z.NEXT_THREAD_POOL.sent() == a.NEXT_THREAD_POOL.sent().push(c)
    &&& c is Write && c->Write_0.index == index
    &&& c->Write_0.blob_header@ == ser_h(b, a.COMPRESSION_TYPE->0)
    &&& c->Write_0.blob_body@ == ser_b(b, a.COMPRESSION_TYPE->0)
}
//@ fn src/osm/pbf/parallel_writer.rs Command@EncodeFileBlockCommand::execute ret=r mutself
    requires old(tl).NEXT_THREAD_POOL.set(), old(tl).COMPRESSION_TYPE is Some,
    ensures
        // the block's own bytes under the block's own index
        r.is_ok() ==> exists|b: FileBlock| #[trigger] holds(b, old(self).elements@) && encoded(*old(tl), *final(tl), old(self).index, b),
//@ tail:
    proof { assert(holds(file_block, old(self).elements@)); assert(encoded(*old(tl), *tl, old(self).index, file_block)); }
//@ end
// ---- the writing thread opens the file and writes the header (run in all threads of its pool, which has one)
//@ fn src/osm/pbf/element_accumulator.rs ElementAccumulator::new ret=r
//@ end
//@ fn src/osm/pbf/osm_header.rs OsmHeader::from_file_info ret=r
    ensures r.info == file_info,
//@ end
//@ fn src/osm/pbf/file_block.rs FileBlock::from_header ret=r
    ensures r is Header, r->header == osm_header,
//@ end
//@ fn src/osm/pbf/writer.rs Writer::from_file_info ret=r
    ensures r.is_ok() ==> r->Ok_0.file.bytes().len() == 0 && r->Ok_0.file.pos() == 0 && r->Ok_0.file_info == file_info && r->Ok_0.compression_type == compression_type,
//@ end
//@ fn src/osm/pbf/writer.rs Writer::write_file_block ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        r.is_ok() ==> final(self).file.bytes() == old(self).file.bytes() + block_bytes(file_block, old(self).compression_type),
        final(self).file.pos() == final(self).file.bytes().len(),
        final(self).compression_type == old(self).compression_type,
//@ end
pub open spec fn heads(b: FileBlock, i: FileInfo) -> bool { b is Header && b->header.info == i }
//@ fn src/osm/pbf/writer.rs Writer::write_header ret=r
    requires old(self).file.pos() == old(self).file.bytes().len(),
    ensures
        final(self).file.pos() == final(self).file.bytes().len(),
        r.is_ok() ==> exists|b: FileBlock| #[trigger] heads(b, old(self).file_info) && final(self).file.bytes() == old(self).file.bytes() + block_bytes(b, old(self).compression_type),
//@ tail:
    proof { assert(heads(file_block, old(self).file_info)); }
//@ end
/// only the name: what runs in the pool's thread touches none of the writer's own fields
pub struct ParallelWriter { pub x: u8 }
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::write_header as=open_file closurebody diverge
    ensures
        old(tl).PBF_WRITER is Some ==> *final(tl) == *old(tl),
        old(tl).PBF_WRITER is None ==> *final(tl) == (Locals { PBF_WRITER: final(tl).PBF_WRITER, ..*old(tl) }) && final(tl).PBF_WRITER is Some
            && final(tl).PBF_WRITER->0.file.pos() == final(tl).bytes().len()
            && exists|b: FileBlock| #[trigger] heads(b, *file_info) && final(tl).bytes() == block_bytes(b, *compression_type),
//@ sig:
fn open_file(path: &VPath, file_info: &FileInfo, compression_type: &CompressionType, tl: &mut Locals)
//@ end
pub type Blobs = Map<usize, (Vec<u8>, Vec<u8>)>;
/// the frames of blobs a, a+1, .., b-1
pub open spec fn frames(m: Blobs, a: int, b: int) -> Seq<u8>
    decreases b - a
{ if b <= a { seq![] } else { frames(m, a, b - 1) + frame(m[(b - 1) as usize].0@, m[(b - 1) as usize].1@) } }
impl Locals {
    pub open spec fn bytes(self) -> Seq<u8> { self.PBF_WRITER->0.file.bytes() }
    pub open spec fn wf(self) -> bool {
        &&& self.PBF_WRITER is Some
        &&& self.PBF_WRITER->0.file.pos() == self.bytes().len()
        &&& forall|i: usize| #[trigger] self.BLOB_ORDERING_BUFFER@.contains_key(i) ==> self.NEXT_TO_WRITE < i < usize::MAX - 1
    }
}
/// from `a` to `b`: the consecutive blobs of `m` that were due went to the file, the rest waits
pub open spec fn drained(a: Locals, b: Locals, m: Blobs) -> bool {
    &&& a.NEXT_TO_WRITE <= b.NEXT_TO_WRITE
    &&& forall|i: usize| a.NEXT_TO_WRITE <= i < b.NEXT_TO_WRITE ==> #[trigger] m.contains_key(i)
    &&& !m.contains_key(b.NEXT_TO_WRITE)
    &&& b.bytes() == a.bytes() + frames(m, a.NEXT_TO_WRITE as int, b.NEXT_TO_WRITE as int)
    &&& forall|i: usize| #[trigger] b.BLOB_ORDERING_BUFFER@.contains_key(i) <==> m.contains_key(i) && i >= b.NEXT_TO_WRITE
    &&& forall|i: usize| #[trigger] b.BLOB_ORDERING_BUFFER@.contains_key(i) ==> b.BLOB_ORDERING_BUFFER@[i] == m[i]
}
//@ fn src/osm/pbf/parallel_writer.rs Command@WriteBlobCommand::execute ret=r mutself diverge
    requires
        old(tl).wf(), old(tl).NEXT_TO_WRITE <= old(self).index < usize::MAX - 1,
    ensures
        r.is_ok(), final(tl).wf(),
        drained(*old(tl), *final(tl), old(tl).BLOB_ORDERING_BUFFER@.insert(old(self).index, (old(self).blob_header, old(self).blob_body))),
//@ beforeloop 0:
    let ghost m = tl.BLOB_ORDERING_BUFFER@;
    let ghost m0 = *tl;
    proof { assert(tl.bytes() =~= tl.bytes() + frames(m, next_to_write as int, next_to_write as int)); }
//@ loop 0 it:
    invariant_except_break
        next_to_write == m0.NEXT_TO_WRITE, tl.PBF_WRITER is Some,
        tl.PBF_WRITER->0.file.pos() == tl.bytes().len(),
        !m.contains_key((usize::MAX - 1) as usize), next_to_write < usize::MAX - 1,
        it.seq().len() == usize::MAX - next_to_write,
        tl.NEXT_TO_WRITE == next_to_write,
        forall|k: usize| #[trigger] m.contains_key(k) ==> next_to_write <= k < usize::MAX - 1,
        forall|k: usize| next_to_write <= k < next_to_write + it.index@ ==> #[trigger] m.contains_key(k),
        forall|k: usize| #[trigger] tl.BLOB_ORDERING_BUFFER@.contains_key(k) <==> m.contains_key(k) && k >= next_to_write + it.index@,
        forall|k: usize| #[trigger] tl.BLOB_ORDERING_BUFFER@.contains_key(k) ==> tl.BLOB_ORDERING_BUFFER@[k] == m[k],
        tl.bytes() == m0.bytes() + frames(m, next_to_write as int, next_to_write + it.index@),
    ensures
        tl.wf(), drained(m0, *tl, m),
//@ loopstart 0:
    proof { assert(i == next_to_write + it.index@); }
    let ghost m1 = *tl;
//@ loopend 0:
    proof {
        assert(m[i].0 == m1.BLOB_ORDERING_BUFFER@[i].0);
        assert(tl.bytes() =~= m0.bytes() + frames(m, next_to_write as int, i + 1));
    }
//@ end
// ---- the property: the encoders finish in any order
pub open spec fn blob(c: WriteBlobCommand) -> (Vec<u8>, Vec<u8>) { (c.blob_header, c.blob_body) }
/// the blobs that have arrived after the first n commands
pub open spec fn arrived(cs: Seq<WriteBlobCommand>, n: int) -> Blobs
    decreases n
{ if n <= 0 { Map::empty() } else { arrived(cs, n - 1).insert(cs[n - 1].index, blob(cs[n - 1])) } }
/// every index from 1 to the number of commands, each once, in any order
pub open spec fn numbered(cs: Seq<WriteBlobCommand>) -> bool {
    &&& cs.len() < usize::MAX - 2
    &&& forall|i: int| 0 <= i < cs.len() ==> 1 <= (#[trigger] cs[i]).index <= cs.len()
    &&& forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).index != (#[trigger] cs[j]).index
}
proof fn lemma_arrived(cs: Seq<WriteBlobCommand>, n: int)
    requires 0 <= n <= cs.len(), forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).index != (#[trigger] cs[j]).index,
    ensures
        forall|k: usize| #[trigger] arrived(cs, n).contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] cs[i]).index == k,
        forall|i: int| 0 <= i < n ==> arrived(cs, n).contains_key((#[trigger] cs[i]).index) && arrived(cs, n)[cs[i].index] == blob(cs[i]),
        arrived(cs, n).dom().len() == n,
    decreases n,
{
    if n > 0 {
        lemma_arrived(cs, n - 1);
        let a = arrived(cs, n - 1);
        if a.contains_key(cs[n - 1].index) {
            let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] cs[i]).index == cs[n - 1].index;
            assert(false);
        }
        assert(arrived(cs, n).dom() =~= a.dom().insert(cs[n - 1].index));
        assert forall|k: usize| #[trigger] arrived(cs, n).contains_key(k) implies exists|i: int| 0 <= i < n && (#[trigger] cs[i]).index == k by {
            if k == cs[n - 1].index { assert(cs[n - 1].index == k); } else { assert(a.contains_key(k)); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] cs[i]).index == k; assert(cs[i].index == k); }
        }
        assert forall|i: int| 0 <= i < n implies arrived(cs, n).contains_key((#[trigger] cs[i]).index) && arrived(cs, n)[cs[i].index] == blob(cs[i]) by {
            if i < n - 1 { assert(a.contains_key(cs[i].index)); assert(cs[i].index != cs[n - 1].index); }
        }
    }
}
/// 1..=n all arrive
proof fn lemma_all(cs: Seq<WriteBlobCommand>, k: usize)
    requires numbered(cs), 1 <= k <= cs.len(),
    ensures arrived(cs, cs.len() as int).contains_key(k),
{
    let n = cs.len() as int;
    lemma_arrived(cs, n);
    let a = arrived(cs, n).dom();
    let full = vstd::set_lib::set_int_range(1, n + 1);
    vstd::set_lib::lemma_int_range(1, n + 1);
    let img = a.map(|x: usize| x as int);
    vstd::set_lib::lemma_map_size(a, img, |x: usize| x as int);
    assert forall|x: int| img.contains(x) implies full.contains(x) by {
        let u = choose|u: usize| a.contains(u) && u as int == x;
        assert(arrived(cs, n).contains_key(u));
    }
    vstd::set_lib::lemma_subset_equality(img, full);
    assert(img.contains(k as int));
}
proof fn lemma_frames(m: Blobs, p: Blobs, a: int, b: int)
    requires 1 <= a, b <= usize::MAX, forall|k: usize| a <= k < b ==> m[k] == #[trigger] p[k],
    ensures frames(m, a, b) == frames(p, a, b),
    decreases b - a,
{ if a < b { lemma_frames(m, p, a, b - 1); assert(m[(b - 1) as usize] == p[(b - 1) as usize]); } }
proof fn lemma_frames_split(m: Blobs, a: int, b: int, c: int)
    requires a <= b <= c,
    ensures frames(m, a, c) == frames(m, a, b) + frames(m, b, c),
    decreases c - b,
{
    if b < c { lemma_frames_split(m, a, b, c - 1); assert(frames(m, a, c) =~= frames(m, a, b) + frames(m, b, c)); }
    else { assert(frames(m, a, c) =~= frames(m, a, b) + frames(m, b, c)); }
}
/// after all blobs have arrived, in whatever order, the file holds blob 1, blob 2, .. right after what it held (the header)
pub exec fn n14_all(cs: Vec<WriteBlobCommand>, tl: &mut Locals) -> (r: Result<(), AnyErr>)
    requires
        numbered(cs@), old(tl).wf(), old(tl).NEXT_TO_WRITE == 1,
        forall|k: usize| !#[trigger] old(tl).BLOB_ORDERING_BUFFER@.contains_key(k),
    ensures
        final(tl).bytes() == old(tl).bytes() + frames(arrived(cs@, cs@.len() as int), 1, cs@.len() as int + 1),
        // each blob is the one produced for its index
        forall|i: int| 0 <= i < cs@.len() ==> arrived(cs@, cs@.len() as int)[(#[trigger] cs@[i]).index] == blob(cs@[i]),
        // nothing is left behind
        forall|k: usize| !#[trigger] final(tl).BLOB_ORDERING_BUFFER@.contains_key(k),
{
    let ghost s = cs@;
    let ghost n = s.len() as int;
    proof { assert(tl.bytes() =~= tl.bytes() + frames(arrived(s, 0), 1, 1)); }
    for c in it: cs
        invariant
            it.seq() == s, n == s.len(), numbered(s), old(tl).bytes() == old(tl).bytes(),
            tl.wf(), 1 <= tl.NEXT_TO_WRITE,
            forall|k: usize| 1 <= k < tl.NEXT_TO_WRITE ==> #[trigger] arrived(s, it.index@).contains_key(k),
            it.index@ > 0 ==> !arrived(s, it.index@).contains_key(tl.NEXT_TO_WRITE),
            it.index@ == 0 ==> tl.NEXT_TO_WRITE == 1,
            forall|k: usize| #[trigger] tl.BLOB_ORDERING_BUFFER@.contains_key(k) <==> arrived(s, it.index@).contains_key(k) && k >= tl.NEXT_TO_WRITE,
            forall|k: usize| #[trigger] tl.BLOB_ORDERING_BUFFER@.contains_key(k) ==> tl.BLOB_ORDERING_BUFFER@[k] == arrived(s, it.index@)[k],
            tl.bytes() == old(tl).bytes() + frames(arrived(s, it.index@), 1, tl.NEXT_TO_WRITE as int),
    {
        let ghost i = it.index@;
        let ghost a = arrived(s, i);
        let ghost z = arrived(s, i + 1);
        let ghost m = *tl;
        proof {
            lemma_arrived(s, i);
            if a.contains_key(c.index) { let j = choose|j: int| 0 <= j < i && (#[trigger] s[j]).index == c.index; assert(s[j].index != s[i].index); }
        }
        let mut c = c;
        c.execute(tl)?;
        proof {
            let u = m.BLOB_ORDERING_BUFFER@.insert(s[i].index, blob(s[i]));
            assert forall|k: usize| k >= m.NEXT_TO_WRITE implies (u.contains_key(k) <==> #[trigger] z.contains_key(k)) && (u.contains_key(k) ==> u[k] == z[k]) by {
                assert(m.BLOB_ORDERING_BUFFER@.contains_key(k) <==> a.contains_key(k));
            }
            assert forall|k: usize| m.NEXT_TO_WRITE <= k < tl.NEXT_TO_WRITE implies u.contains_key(k) && z.contains_key(k) && u[k] == #[trigger] z[k] by { assert(u.contains_key(k)); }
            lemma_frames(u, z, m.NEXT_TO_WRITE as int, tl.NEXT_TO_WRITE as int);
            assert forall|k: usize| 1 <= k < m.NEXT_TO_WRITE implies a.contains_key(k) && z.contains_key(k) && a[k] == #[trigger] z[k] by { assert(a.contains_key(k)); }
            lemma_frames(a, z, 1, m.NEXT_TO_WRITE as int);
            lemma_frames_split(z, 1, m.NEXT_TO_WRITE as int, tl.NEXT_TO_WRITE as int);
            assert(tl.bytes() =~= old(tl).bytes() + frames(z, 1, tl.NEXT_TO_WRITE as int));
            assert forall|k: usize| 1 <= k < tl.NEXT_TO_WRITE implies #[trigger] z.contains_key(k) by {
                if k < m.NEXT_TO_WRITE { assert(a.contains_key(k)); } else { assert(u.contains_key(k)); }
            }
        }
    }
    proof {
        lemma_arrived(s, n);
        let w = tl.NEXT_TO_WRITE;
        if n == 0 { } else {
            if w <= n { lemma_all(s, w); assert(false); }
            if w > n + 1 {
                let k = (n + 1) as usize;
                assert(arrived(s, n).contains_key(k));
                let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).index == k;
                assert(s[i].index <= n);
            }
        }
        assert(w == n + 1);
        assert forall|k: usize| !#[trigger] tl.BLOB_ORDERING_BUFFER@.contains_key(k) by {
            if tl.BLOB_ORDERING_BUFFER@.contains_key(k) {
                assert(arrived(s, n).contains_key(k));
                let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).index == k;
                assert(s[i].index <= n);
            }
        }
    }
    Ok(())
}
}
fn main() {}
