verus! {
/// std's double-ended queue (vstd), wrapped so that sorting it has a contract
pub struct VDeque<T> { pub v: std::collections::VecDeque<T> }
impl<T> VDeque<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { VDeque { v: std::collections::VecDeque::new() } }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push_back(x) }
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@
    { self.v.push_front(x); proof { assert(self@ =~= seq![x] + old(self)@); } }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@ == seq![x] + final(self)@ },
    { let r = self.v.pop_front(); proof { if r is Some { assert(old(self)@ =~= seq![r->0] + self@); } } r }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
}
pub assume_specification [std::cmp::Ordering::is_ge] (o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
/// a lock: what it guards is ours while the function runs
pub type VMutex<T> = T;
pub fn vid<T>(x: T) -> (r: T) ensures r == x { x }
//@ type src/osm/pbf/parallel_writer.rs AddElementCommand
//@ type src/osm/pbf/parallel_writer.rs AddElementsCommand
//@ type src/osm/pbf/parallel_writer.rs EncodeFileBlockCommand
//@ type src/osm/pbf/parallel_writer.rs WriteBlobCommand
pub enum VCmd { Add(AddElementCommand), AddAll(AddElementsCommand), Encode(EncodeFileBlockCommand), Write(WriteBlobCommand) }
pub trait Submit: Sized { spec fn cmd(self) -> VCmd; }
impl Submit for AddElementCommand { open spec fn cmd(self) -> VCmd { VCmd::Add(self) } }
impl Submit for AddElementsCommand { open spec fn cmd(self) -> VCmd { VCmd::AddAll(self) } }
impl Submit for EncodeFileBlockCommand { open spec fn cmd(self) -> VCmd { VCmd::Encode(self) } }
impl Submit for WriteBlobCommand { open spec fn cmd(self) -> VCmd { VCmd::Write(self) } }
//@ fn src/osm/pbf/parallel_writer.rs AddElementCommand::new ret=r
    ensures r.element == Some(element),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs AddElementsCommand::new ret=r
    ensures r.elements == Some(elements),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs EncodeFileBlockCommand::new ret=r
    ensures r.index == index, r.elements == elements,
//@ end
//@ fn src/osm/pbf/parallel_writer.rs WriteBlobCommand::new ret=r
    ensures r.index == index, r.blob_header == blob_header, r.blob_body == blob_body,
//@ end
}
