//@ rename File VFile
//@ rename PathBuf VPath
//@ rename SeekFrom VSeek
//@ rename i32::from_be_bytes from_be4
verus! {
// ---- std::fs::File, as a sequence of bytes and a position (assumed: local files, no I/O error but end of file)
#[verifier::external_body]
pub struct VFile { x: u8 }
#[verifier::external_body]
pub struct VPath { x: u8 }
impl Clone for VPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum VSeek { Start(u64), End(i64), Current(i64) }
/// a buffer that a read fills
pub trait VBuf { spec fn vb(&self) -> Seq<u8>; }
impl VBuf for [u8; 4] { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VBuf for Vec<u8> { open spec fn vb(&self) -> Seq<u8> { self@ } }
impl VFile {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn create(p: VPath) -> (r: Result<VFile, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0.bytes().len() == 0 && r->Ok_0.pos() == 0,
    { unimplemented!() }
    pub uninterp spec fn opens(p: VPath) -> bool;
    /// the bytes of the file at a path
    pub uninterp spec fn at(p: VPath) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open(p: VPath) -> (r: Result<VFile, AnyErr>)
        ensures r.is_ok() == VFile::opens(p), r.is_ok() ==> r->Ok_0.bytes() == VFile::at(p) && r->Ok_0.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), AnyErr>)
        requires old(self).pos() == old(self).bytes().len(),
        ensures r.is_ok() ==> final(self).bytes() == old(self).bytes() + b@,
            final(self).pos() == final(self).bytes().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), AnyErr>)
        ensures final(self).bytes() == old(self).bytes(), final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, s: VSeek) -> (r: Result<u64, AnyErr>)
        ensures final(self).bytes() == old(self).bytes(),
            ({
                let p = match s { VSeek::Start(n) => n as int, VSeek::End(n) => old(self).bytes().len() + n, VSeek::Current(n) => old(self).pos() + n };
                r.is_ok() == (0 <= p) && (r.is_ok() ==> final(self).pos() == p && r->Ok_0 == p)
            }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact<B: VBuf>(&mut self, b: &mut B) -> (r: Result<(), AnyErr>)
        ensures final(self).bytes() == old(self).bytes(), final(b).vb().len() == old(b).vb().len(),
            r.is_ok() == (old(self).pos() + old(b).vb().len() <= old(self).bytes().len()),
            r.is_ok() ==> final(b).vb() == old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(b).vb().len()) && final(self).pos() == old(self).pos() + old(b).vb().len(),
            final(self).pos() >= old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64, AnyErr>)
        ensures *final(self) == *old(self), r.is_ok(), r->Ok_0 == old(self).pos(),
    { unimplemented!() }
}
/// the 4-byte big-endian form of a number
pub open spec fn be4(n: i32) -> Seq<u8> {
    let u = n as u32;
    seq![(u >> 24) as u8, ((u >> 16) & 0xff) as u8, ((u >> 8) & 0xff) as u8, (u & 0xff) as u8]
}
pub open spec fn de4(s: Seq<u8>) -> i32 {
    (((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32)) as i32
}
pub proof fn lemma_be4(n: i32)
    requires 0 <= n,
    ensures de4(be4(n)) == n, be4(n).len() == 4,
{
    let u = n as u32;
    assert((((((u >> 24) as u8) as u32) << 24) | (((((u >> 16) & 0xff) as u8) as u32) << 16) | (((((u >> 8) & 0xff) as u8) as u32) << 8) | (((u & 0xff) as u8) as u32)) == u) by (bit_vector);
}
#[verifier::external_body]
pub fn to_be4(n: i32) -> (r: [u8; 4])
    ensures r@ == be4(n),
{ n.to_be_bytes() }
#[verifier::external_body]
pub fn from_be4(b: [u8; 4]) -> (r: i32)
    ensures r == de4(b@),
{ i32::from_be_bytes(b) }
}
