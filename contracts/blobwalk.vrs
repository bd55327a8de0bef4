verus! {
/// the descriptor of the frame at byte `p`, number `k` in the file
pub open spec fn mk(f: Seq<u8>, path: VPath, p: int, k: int) -> BlobDesc {
    BlobDesc { path, index: k as usize, start: body(f, p) as u64, length: hdr(f, p)->0.datasize as u64, t: hdr(f, p)->0.r#type }
}
/// the elements of a block
pub open spec fn elems(b: FileBlock) -> Seq<Element> { if b is Data { b->data.elements@ } else { seq![] } }
/// the elements of all blocks from byte `p` (frame number `k`) on, in file order
pub open spec fn rest(f: Seq<u8>, path: VPath, p: int, k: int) -> Seq<Element>
    decreases (if p >= f.len() { 0 } else { f.len() - p }),
{
    if p < 0 || p >= f.len() || next_frame(f, p) <= p { seq![] } else {
        elems(stored(mk(f, path, p, k))) + rest(f, path, next_frame(f, p), k + 1)
    }
}
impl BlobIterator {
    /// the iterator stands at a frame boundary of a file with fewer than 2^64 frames
    pub open spec fn ready(self) -> bool { self.wf() && self.index + self.left() <= usize::MAX }
    pub open spec fn left(self) -> int { if self.at() < self.file.bytes().len() { self.file.bytes().len() - self.at() } else { 0 } }
    pub open spec fn todo(self) -> Seq<Element> { rest(self.file.bytes(), self.path, self.at(), self.index as int) }
}
}
