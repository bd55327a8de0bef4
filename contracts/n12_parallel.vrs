//@ rename Error AnyErr
//@ rename Arc::new vid
//@ rename Box::new vid
//@ rename AtomicUsize::new vatomic
//@ rename num_cpus::get vcpus
//@ rename Ordering::Relaxed VOrder::Relaxed
//@ rename Ordering::Release VOrder::Release
//@ rename Ordering::Acquire VOrder::Acquire
//@ rename Ordering::AcqRel VOrder::AcqRel
//@ rename Ordering::SeqCst VOrder::SeqCst
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blobs.vrs
//@ include blobwalk.vrs
verus! {
pub fn vid<T>(x: T) -> (r: T) ensures r == x { x }
/// the caller's function, by the calls one command makes of it (it is shared, so each command sees its own calls)
#[verifier::external_body]
pub struct VFn { x: u8 }
impl Clone for VFn { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VFn {
    /// which function it is
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn calls(&self) -> Seq<Element>;
    pub uninterp spec fn failed(&self) -> bool;
    /// nothing is called after a call that failed
    #[verifier::external_body]
    pub fn call(&mut self, e: Element) -> (r: Result<(), AnyErr>)
        requires !old(self).failed(),
        ensures final(self).id() == old(self).id(), final(self).calls() == old(self).calls().push(e), final(self).failed() == r.is_err(),
    { unimplemented!() }
}
//@ type src/osm/pbf/parallel_element_iteration_command.rs ParallelElementIterationCommand retype=f:VFn
/// what a block's command has to visit: its elements in stored order, then one sentinel
pub open spec fn visits(b: FileBlock) -> Seq<Element> { if b is Data { b->data.elements@.push(Element::Sentinel) } else { seq![] } }
pub open spec fn prefix(a: Seq<Element>, b: Seq<Element>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] }
/// what running the command did
pub open spec fn ran(a: ParallelElementIterationCommand, z: ParallelElementIterationCommand, r: Result<(), AnyErr>) -> bool {
    let v = visits(stored(a.blob_desc));
    &&& z.f.id() == a.f.id() && z.blob_desc == a.blob_desc
    // success: every element once and in order, the sentinel last, and no call failed
    &&& r.is_ok() ==> z.f.calls() =~= v && !z.f.failed()
    // failure: the calls up to and including the failing one, or the block could not be read and nothing was called
    &&& r.is_err() ==> prefix(z.f.calls(), v) && z.f.calls().len() > 0 && z.f.failed() || z.f.calls().len() == 0
}
//@ fn src/osm/pbf/parallel_element_iteration_command.rs ParallelElementIterationCommand::new ret=r ptype=f:VFn
    ensures r.blob_desc == blob_desc, r.f == f,
//@ end
//@ fn src/osm/pbf/parallel_element_iteration_command.rs Command@ParallelElementIterationCommand::execute ret=r mutself
    requires !old(self).f.failed(), old(self).f.calls().len() == 0,
    ensures ran(*old(self), *final(self), r),
//@ loop 0 it:
        invariant
            stored(old(self).blob_desc) is Data,
            it.seq() == stored(old(self).blob_desc)->data.elements@,
            self.blob_desc == old(self).blob_desc, self.f.id() == old(self).f.id(), !self.f.failed(),
            self.f.calls() =~= it.seq().take(it.index@),
//@ end
// ---- command_executor's thread pool
pub enum ShutdownMode { Immediate, CompletePending }
#[verifier::external_body]
pub struct VPool { x: u8 }
impl VPool {
    pub uninterp spec fn sent(&self) -> Seq<ParallelElementIterationCommand>;
    /// what running command `k` left behind, and what it returned
    pub uninterp spec fn done(&self, k: int) -> (ParallelElementIterationCommand, Result<(), AnyErr>);
    pub uninterp spec fn mode(&self) -> ShutdownMode;
    pub uninterp spec fn stopping(&self) -> bool;
    pub uninterp spec fn joined(&self) -> bool;
    pub uninterp spec fn tasks(&self) -> nat;
    pub uninterp spec fn places(&self) -> nat;
    /// somebody runs what is queued, or this never returns
    #[verifier::external_body]
    pub fn submit(&mut self, c: ParallelElementIterationCommand)
        requires !old(self).stopping(), !c.f.failed(), c.f.calls().len() == 0, old(self).tasks() > 0,
        ensures
            final(self).sent() == old(self).sent().push(c), final(self).mode() == old(self).mode(), !final(self).stopping(),
            final(self).tasks() == old(self).tasks(), final(self).places() == old(self).places(),
    { unimplemented!() }
    /// queues one empty command per worker, which a worker that is busy does not take any more: each needs a place
    #[verifier::external_body]
    pub fn shutdown(&mut self)
        requires old(self).tasks() <= old(self).places(),
        ensures final(self).sent() == old(self).sent(), final(self).mode() == old(self).mode(), final(self).stopping(),
    { unimplemented!() }
    /// waits for the threads: every command was executed once unless pending ones were dropped; an error of any command is reported
    #[verifier::external_body]
    pub fn join(&mut self) -> (r: Result<(), AnyErr>)
        requires old(self).stopping(),
        ensures
            final(self).sent() == old(self).sent(), final(self).joined(),
            old(self).mode() is CompletePending ==> forall|k: int| 0 <= k < old(self).sent().len() ==> ran(old(self).sent()[k], (#[trigger] final(self).done(k)).0, final(self).done(k).1),
            r.is_ok() && old(self).mode() is CompletePending ==> forall|k: int| 0 <= k < old(self).sent().len() ==> (#[trigger] final(self).done(k)).1.is_ok(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ThreadPoolBuilder { x: u8 }
impl ThreadPoolBuilder {
    pub uninterp spec fn mode(&self) -> ShutdownMode;
    pub uninterp spec fn tasks(&self) -> nat;
    pub uninterp spec fn places(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.mode() is Immediate, r.tasks() == 1, r.places() == 16 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tasks(self, n: usize) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == n, r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_queue_size(self, n: usize) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn with_name_str(self, n: &str) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_shutdown_mode(self, m: ShutdownMode) -> (r: Self) ensures r.mode() == m, r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_join_error_handler<F: Fn(String, String)>(self, f: F) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<VPool, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0.mode() == self.mode() && r->Ok_0.sent().len() == 0 && !r->Ok_0.stopping() && r->Ok_0.tasks() == self.tasks() && r->Ok_0.places() == self.places(),
    { unimplemented!() }
}
//@ type src/osm/pbf/reader.rs Reader
//@ fn src/osm/pbf/reader.rs Reader::blobs ret=r
    ensures r.is_ok() ==> r->Ok_0.index == 0 && r->Ok_0.jump == 0 && r->Ok_0.path == self.path && r->Ok_0.file.bytes() == VFile::at(self.path) && r->Ok_0.file.pos() == 0,
//@ end
/// one command per frame from byte `p` (frame `k`) on, in order
pub open spec fn commands(f: Seq<u8>, path: VPath, p: int, k: int) -> Seq<BlobDesc>
    decreases (if p >= f.len() { 0 } else { f.len() - p }),
{
    if p < 0 || p >= f.len() || next_frame(f, p) <= p { seq![] } else {
        seq![mk(f, path, p, k)] + commands(f, path, next_frame(f, p), k + 1)
    }
}
pub open spec fn descs(s: Seq<ParallelElementIterationCommand>) -> Seq<BlobDesc> { s.map_values(|c: ParallelElementIterationCommand| c.blob_desc) }
pub open spec fn covered(p: VPool, ds: Seq<BlobDesc>, f: VFn) -> bool {
    &&& p.joined() && p.sent().len() == ds.len()
    &&& forall|k: int| 0 <= k < ds.len() ==> p.sent()[k].blob_desc == ds[k] && p.sent()[k].f == f && (#[trigger] p.done(k)).1.is_ok() && ran(p.sent()[k], p.done(k).0, p.done(k).1)
}
//@ fn src/osm/pbf/reader.rs Reader::parallel_for_each as=for_each_call ret=r ptype=f:VFn customiter=0
    requires !f.failed(), f.calls().len() == 0, framed(VFile::at(self.path), 0), VFile::at(self.path).len() <= i64::MAX,
    ensures
        // success: the threads have finished, and each block's command ran once and all its calls succeeded
        r.is_ok() ==> exists|p: VPool| #[trigger] covered(p, commands(VFile::at(self.path), self.path, 0, 0), f),
//@ loop 0:
        invariant
            iter_0.ready(), f_wrapper == f, !f.failed(), f.calls().len() == 0, !iteration_pool.stopping(), iteration_pool.mode() is CompletePending,
            0 < iteration_pool.tasks() <= iteration_pool.places(),
            descs(iteration_pool.sent()) + commands(iter_0.file.bytes(), iter_0.path, iter_0.at(), iter_0.index as int) =~= commands(VFile::at(self.path), self.path, 0, 0),
            forall|k: int| 0 <= k < iteration_pool.sent().len() ==> (#[trigger] iteration_pool.sent()[k]).f == f,
        ensures
            descs(iteration_pool.sent()) =~= commands(VFile::at(self.path), self.path, 0, 0),
        decreases iter_0.left(),
//@ tail:
    proof { assert(covered(iteration_pool, commands(VFile::at(self.path), self.path, 0, 0), f)); }
//@ end
// ---- counting: shared counters to which every call adds
pub enum VOrder { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct VWorld { x: u8 }
impl VWorld { pub uninterp spec fn vals(&self) -> Map<int, int>; }
#[verifier::external_body]
pub fn vcpus() -> (r: usize) { unimplemented!() }
/// a handle on a shared counter, with what its thread added through it
#[verifier::external_body]
pub struct VAtomic { x: u8 }
impl Clone for VAtomic { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn vatomic(x: usize, w: &mut VWorld) -> (r: VAtomic)
    ensures !old(w).vals().contains_key(r.id()), final(w).vals() == old(w).vals().insert(r.id(), x as int), r.added() == 0,
{ unimplemented!() }
impl VAtomic {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn added(&self) -> int;
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: usize, o: VOrder) -> (r: usize)
        ensures final(self).id() == old(self).id(), final(self).added() == old(self).added() + n,
    { unimplemented!() }
    /// when no thread is adding any more
    #[verifier::external_body]
    pub fn load(&self, o: VOrder, w: &mut VWorld) -> (r: usize)
        ensures *final(w) == *old(w), 0 <= old(w).vals()[self.id()] <= usize::MAX ==> r == old(w).vals()[self.id()],
    { unimplemented!() }
}
pub type Counts = (int, int, int);
pub open spec fn one(e: Element) -> Counts {
    match e { Element::Node { .. } => (1, 0, 0), Element::Way { .. } => (0, 1, 0), Element::Relation { .. } => (0, 0, 1), Element::Sentinel => (0, 0, 0) }
}
pub open spec fn sum(a: Counts, b: Counts) -> Counts { (a.0 + b.0, a.1 + b.1, a.2 + b.2) }
pub open spec fn kinds(s: Seq<Element>) -> Counts
    decreases s.len()
{ if s.len() == 0 { (0, 0, 0) } else { sum(kinds(s.drop_last()), one(s.last())) } }
/// what the calls of the first n commands add
pub open spec fn called(p: VPool, n: int) -> Counts
    decreases n
{ if n <= 0 { (0, 0, 0) } else { sum(called(p, n - 1), kinds(p.done(n - 1).0.f.calls())) } }
/// the elements of the first n blocks, by kind
pub open spec fn stored_kinds(ds: Seq<BlobDesc>, n: int) -> Counts
    decreases n
{ if n <= 0 { (0, 0, 0) } else { sum(stored_kinds(ds, n - 1), if stored(ds[n - 1]) is Data { kinds(stored(ds[n - 1])->data.elements@) } else { (0, 0, 0) }) } }
proof fn lemma_called(p: VPool, ds: Seq<BlobDesc>, f: VFn, n: int)
    requires covered(p, ds, f), 0 <= n <= ds.len(),
    ensures called(p, n) == stored_kinds(ds, n),
    decreases n,
{
    if n > 0 {
        lemma_called(p, ds, f, n - 1);
        let c = p.done(n - 1).0.f.calls();
        assert(p.done(n - 1).1.is_ok());
        assert(c =~= visits(stored(ds[n - 1])));
        if stored(ds[n - 1]) is Data { assert(c.drop_last() =~= stored(ds[n - 1])->data.elements@); assert(c.last() == Element::Sentinel); }
        else { assert(c.len() == 0); }
    }
}
pub open spec fn bumped(m: Map<int, int>, i: Counts, d: Counts) -> Map<int, int> {
    m.insert(i.0, m[i.0] + d.0).insert(i.1, m[i.1] + d.1).insert(i.2, m[i.2] + d.2)
}
/// the function that is handed over: count_one on these counters
#[verifier::external_body]
pub fn count_fn(nodes: VAtomic, ways: VAtomic, relations: VAtomic) -> (r: VFn)
    ensures !r.failed(), r.calls().len() == 0, counters(r) == (nodes.id(), ways.id(), relations.id()),
{ unimplemented!() }
pub uninterp spec fn counters(f: VFn) -> Counts;
pub open spec fn apart(c: Counts) -> bool { c.0 != c.1 && c.1 != c.2 && c.0 != c.2 }
/// atomic additions are never lost: after the join each counter has grown by what the calls added (contract of count_one)
#[verifier::external_body]
fn settle(r: &Result<(), AnyErr>, f: VFn, ds: Ghost<Seq<BlobDesc>>, w: &mut VWorld)
    requires r.is_ok() ==> exists|p: VPool| #[trigger] covered(p, ds@, f), apart(counters(f)),
    ensures r.is_ok() ==> exists|p: VPool| #[trigger] covered(p, ds@, f) && final(w).vals() == bumped(old(w).vals(), counters(f), called(p, ds@.len() as int)),
{ unimplemented!() }
pub open spec fn file_kinds(path: VPath) -> Counts { let ds = commands(VFile::at(path), path, 0, 0); stored_kinds(ds, ds.len() as int) }
impl Reader {
    fn parallel_for_each(&self, tasks: usize, f: VFn, w: &mut VWorld) -> (r: Result<(), AnyErr>)
        requires !f.failed(), f.calls().len() == 0, apart(counters(f)), framed(VFile::at(self.path), 0), VFile::at(self.path).len() <= i64::MAX,
        ensures r.is_ok() ==> final(w).vals() == bumped(old(w).vals(), counters(f), file_kinds(self.path)),
    {
        let r = self.for_each_call(tasks, f.clone());
        let ghost ds = commands(VFile::at(self.path), self.path, 0, 0);
        settle(&r, f, Ghost(ds), w);
        proof {
            if r.is_ok() {
                let p = choose|p: VPool| #[trigger] covered(p, ds, f) && final(w).vals() == bumped(old(w).vals(), counters(f), called(p, ds.len() as int));
                lemma_called(p, ds, f, ds.len() as int);
            }
        }
        r
    }
}
//@ fn src/osm/pbf/reader.rs Reader::count_objects as=count_one closurebody
    ensures
        r.is_ok(),
        final(nodes).id() == old(nodes).id(), final(nodes).added() == old(nodes).added() + one(element).0,
        final(ways).id() == old(ways).id(), final(ways).added() == old(ways).added() + one(element).1,
        final(relations).id() == old(relations).id(), final(relations).added() == old(relations).added() + one(element).2,
//@ sig:
fn count_one(element: Element, nodes: &mut VAtomic, ways: &mut VAtomic, relations: &mut VAtomic) -> (r: Result<(), AnyErr>)
//@ end
//@ fn src/osm/pbf/reader.rs Reader::count_objects ret=r world=w:AtomicUsize::new,parallel_for_each,load closure=count_fn(nodes,ways,relations)
    requires
        framed(VFile::at(self.path), 0), VFile::at(self.path).len() <= i64::MAX,
        0 <= file_kinds(self.path).0 <= isize::MAX, 0 <= file_kinds(self.path).1 <= isize::MAX, 0 <= file_kinds(self.path).2 <= isize::MAX,
    ensures r.is_ok() ==> (r->Ok_0.0 as int, r->Ok_0.1 as int, r->Ok_0.2 as int) == file_kinds(self.path),
//@ end
}
fn main() {}
