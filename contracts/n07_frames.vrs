//@ include prelude.vrs
//@ include std.vrs
//@ include file.vrs
//@ include frame.vrs
//@ include blobdesc.vrs
//@ include blobs.vrs
verus! {
/// where the k-th frame starts
pub open spec fn start_of(f: Seq<u8>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { next_frame(f, start_of(f, k - 1)) } }
/// one descriptor per frame, in order
#[verifier::opaque]
pub open spec fn read_ok(f: Seq<u8>, ds: Seq<BlobDesc>) -> bool {
    forall|k: int| 0 <= k < ds.len() ==> start_of(f, k) < f.len() && desc(f, start_of(f, k), k, #[trigger] ds[k])
}
proof fn lemma_read_more(f: Seq<u8>, ds: Seq<BlobDesc>, d: BlobDesc)
    requires read_ok(f, ds), start_of(f, ds.len() as int) < f.len(), desc(f, start_of(f, ds.len() as int), ds.len() as int, d),
    ensures read_ok(f, ds.push(d)),
{
    reveal(read_ok);
    let es = ds.push(d);
    assert forall|k: int| 0 <= k < es.len() implies start_of(f, k) < f.len() by { if k < ds.len() { assert(es[k] == ds[k]); } }
    assert forall|k: int| 0 <= k < es.len() implies desc(f, start_of(f, k), k, #[trigger] es[k]) by { if k < ds.len() { assert(es[k] == ds[k]); } }
    assert(forall|k: int| 0 <= k < es.len() ==> (start_of(f, k) < f.len()) && desc(f, start_of(f, k), k, #[trigger] es[k]));
}
/// reading a whole file: one descriptor per frame, in file order, consecutive indexes from 0
pub exec fn n07_read(path: VPath) -> (r: Result<Vec<BlobDesc>, AnyErr>)
    requires framed(VFile::at(path), 0), VFile::at(path).len() <= i64::MAX,
    ensures
        r.is_ok() ==> ({
            let f = VFile::at(path);
            let n = r->Ok_0@.len() as int;
            &&& start_of(f, n) >= f.len()
            &&& read_ok(f, r->Ok_0@)
        }),
{
    let mut it = BlobIterator::new(path.clone())?;
    let mut out: Vec<BlobDesc> = Vec::new();
    let ghost f = VFile::at(path);
    proof { reveal(read_ok); }
    loop
        invariant_except_break
            it.wf(), it.index == out@.len(), it.at() == start_of(f, out@.len() as int), 0 <= it.at(), out@.len() <= it.at(),
        invariant
            f == VFile::at(path), it.file.bytes() == f, f.len() <= i64::MAX, out@.len() <= f.len(),
            read_ok(f, out@),
        ensures
            start_of(f, out@.len() as int) >= f.len(),
        decreases (if it.at() >= f.len() { 0 } else { f.len() - it.at() }),
    {
        let ghost at = it.at();
        let ghost n = out@.len() as int;
        match it.next() {
            None => { break; }
            Some(d) => {
                proof { assert(start_of(f, n + 1) == next_frame(f, at)); lemma_read_more(f, out@, d); }
                out.push(d);
            }
        }
    }
    Ok(out)
}

/// frames laid one after the other
pub open spec fn lay(bs: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8>
    decreases bs.len(),
{ if bs.len() == 0 { seq![] } else { lay(bs.drop_last()) + frame(bs.last().0, bs.last().1) } }
/// a header that declares the length of its body
pub open spec fn declares(b: (Seq<u8>, Seq<u8>)) -> bool {
    b.0.len() <= i32::MAX && dec_header(b.0) is Some && dec_header(b.0)->0.datasize == b.1.len()
}
proof fn lemma_frame_at(f: Seq<u8>, p: int, b: (Seq<u8>, Seq<u8>))
    requires 0 <= p, p + frame(b.0, b.1).len() <= f.len(), f.subrange(p, p + frame(b.0, b.1).len()) == frame(b.0, b.1), declares(b),
    ensures frame_ok(f, p), next_frame(f, p) == p + frame(b.0, b.1).len(), hdr(f, p) == dec_header(b.0), body(f, p) == p + 4 + b.0.len(),
        f.subrange(body(f, p), next_frame(f, p)) == b.1,
{
    let w = frame(b.0, b.1);
    lemma_be4(b.0.len() as i32);
    let g = f.subrange(p, p + w.len());
    assert(f.subrange(p, p + 4) =~= g.subrange(0, 4));
    assert(w.subrange(0, 4) =~= be4(b.0.len() as i32));
    assert(hlen(f, p) == b.0.len());
    assert(f.subrange(p + 4, p + 4 + b.0.len()) =~= g.subrange(4, 4 + b.0.len() as int));
    assert(w.subrange(4, 4 + b.0.len() as int) =~= b.0);
    assert(f.subrange(p + 4 + b.0.len(), p + w.len()) =~= g.subrange(4 + b.0.len() as int, w.len() as int));
    assert(w.subrange(4 + b.0.len() as int, w.len() as int) =~= b.1);
}
proof fn lemma_lay_part(bs: Seq<(Seq<u8>, Seq<u8>)>, k: int)
    requires 0 <= k < bs.len(),
    ensures
        ({
            let p = lay(bs.take(k)).len() as int;
            let w = frame(bs[k].0, bs[k].1);
            &&& p + w.len() <= lay(bs).len()
            &&& lay(bs).subrange(p, p + w.len()) == w
            &&& lay(bs.take(k + 1)).len() == p + w.len()
        }),
    decreases bs.len(),
{
    let p = lay(bs.take(k)).len() as int;
    let w = frame(bs[k].0, bs[k].1);
    assert(bs.take(k + 1).drop_last() =~= bs.take(k));
    assert(bs.take(k + 1).last() == bs[k]);
    if k + 1 == bs.len() {
        assert(bs.drop_last() =~= bs.take(k));
        assert(lay(bs).subrange(p, p + w.len()) =~= w);
    } else {
        let d = bs.drop_last();
        lemma_lay_part(d, k);
        assert(d.take(k) =~= bs.take(k));
        assert(d[k] == bs[k]);
        assert(lay(bs).subrange(p, p + w.len()) =~= lay(d).subrange(p, p + w.len()));
    }
}
/// the frame boundaries of a written file are where the blobs were laid: header, body and length come back
proof fn lemma_lay_starts(bs: Seq<(Seq<u8>, Seq<u8>)>, k: int)
    requires forall|i: int| 0 <= i < bs.len() ==> declares(#[trigger] bs[i]), 0 <= k <= bs.len(),
    ensures
        start_of(lay(bs), k) == lay(bs.take(k)).len(),
        k < bs.len() ==> ({
            let f = lay(bs);
            let p = start_of(f, k);
            frame_ok(f, p) && hdr(f, p) == dec_header(bs[k].0) && body(f, p) == p + 4 + bs[k].0.len() && f.subrange(body(f, p), next_frame(f, p)) == bs[k].1 && next_frame(f, p) > p
        }),
    decreases k,
{
    if k > 0 { lemma_lay_starts(bs, k - 1); lemma_lay_part(bs, k - 1); lemma_frame_at(lay(bs), lay(bs.take(k - 1)).len() as int, bs[k - 1]); }
    if k == 0 { assert(bs.take(0) =~= Seq::<(Seq<u8>, Seq<u8>)>::empty()); }
    if k < bs.len() {
        lemma_lay_part(bs, k);
        lemma_frame_at(lay(bs), lay(bs.take(k)).len() as int, bs[k]);
    }
}
/// a written file is well formed
proof fn lemma_lay_framed(bs: Seq<(Seq<u8>, Seq<u8>)>, k: int)
    requires forall|i: int| 0 <= i < bs.len() ==> declares(#[trigger] bs[i]), 0 <= k <= bs.len(),
    ensures framed(lay(bs), start_of(lay(bs), k)), start_of(lay(bs), bs.len() as int) == lay(bs).len(),
    decreases bs.len() - k,
{
    lemma_lay_starts(bs, k);
    lemma_lay_starts(bs, bs.len() as int);
    assert(bs.take(bs.len() as int) =~= bs);
    if k < bs.len() { lemma_lay_framed(bs, k + 1); }
}
}
fn main() {}
