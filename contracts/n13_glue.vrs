//@ rename Error AnyErr
//@ rename Path VPath
//@ rename VecDeque VDeque
//@ rename Mutex::new vid
//@ rename Mutex VMutex
//@ rename Box::new vid
//@ rename Arc::new vid
//@ rename RwLock::new vid
//@ rename Arc VSame
//@ rename RwLock VSame
//@ rename RefCell VSame
//@ rename ThreadPool VPool
//@ rename flush_all_sorted VTask::FlushAllSorted
//@ rename ELEMENT_ORDERING_BUFFER_SIZE KBuffer
//@ rename FILE_BLOCK_SIZE KBlock
//@ rename COMPRESSION_TYPE KCompression
//@ rename NEXT_THREAD_POOL KNext
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include file.vrs
//@ include bboxtype.vrs
//@ include infotypes.vrs
//@ include partypes.vrs
verus! {
pub type VSame<T> = T;
//@ type src/osm/pbf/compression_type.rs CompressionType
impl Clone for CompressionType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- command_executor's thread pools: handles to shared state, which is the world `w`
pub enum ShutdownMode { Immediate, CompletePending }
/// what is run in all threads of a pool
pub enum VTask { FlushAllSorted, OpenFile }
/// what happened to the pools, in order
pub enum Ev { Sent(int, VCmd), All(int, VTask), Joined(int) }
/// a thread-local variable of the writer's threads
pub struct KBuffer;
pub struct KBlock;
pub struct KCompression;
pub struct KNext;
pub trait Key { spec fn var(&self) -> Var; }
impl Key for KBuffer { open spec fn var(&self) -> Var { Var::Buffer } }
impl Key for KBlock { open spec fn var(&self) -> Var { Var::Block } }
impl Key for KCompression { open spec fn var(&self) -> Var { Var::Compression } }
impl Key for KNext { open spec fn var(&self) -> Var { Var::Next } }
pub enum Var { Buffer, Block, Compression, Next }
pub enum Val { Size(usize), Compression(Option<CompressionType>), Pool(Option<int>) }
pub trait Local { spec fn val(self) -> Val; }
impl Local for usize { open spec fn val(self) -> Val { Val::Size(self) } }
impl Local for Option<CompressionType> { open spec fn val(self) -> Val { Val::Compression(self) } }
impl Local for Option<VPool> { open spec fn val(self) -> Val { Val::Pool(match self { None => None, Some(p) => Some(p.id()) }) } }
pub struct PoolState { pub tasks: usize, pub places: usize, pub mode: ShutdownMode, pub stopping: bool, pub vars: Map<Var, Val> }
#[verifier::external_body]
pub struct VWorld { x: u8 }
impl VWorld {
    pub uninterp spec fn pools(&self) -> Map<int, PoolState>;
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    pub open spec fn open(&self, p: VPool) -> bool { self.pools().contains_key(p.id()) && !self.pools()[p.id()].stopping }
}
#[verifier::external_body]
pub struct VPool { x: u8 }
impl Clone for VPool { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VPool {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<VPool, AnyErr>) ensures r.is_ok(), r->Ok_0 == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: Result<VPool, AnyErr>) ensures r.is_ok(), r->Ok_0 == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn submit<C: Submit>(&self, c: C, w: &mut VWorld)
        requires old(w).open(*self),
        ensures final(w).pools() == old(w).pools(), final(w).log() == old(w).log().push(Ev::Sent(self.id(), c.cmd())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn in_all_threads(&self, t: VTask, w: &mut VWorld)
        requires old(w).open(*self),
        ensures final(w).pools() == old(w).pools(), final(w).log() == old(w).log().push(Ev::All(self.id(), t)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_thread_local<K: Key, T: Local>(&self, k: &K, v: T, w: &mut VWorld)
        requires old(w).open(*self),
        ensures
            final(w).log() == old(w).log(),
            ({ let s = old(w).pools()[self.id()]; final(w).pools() == old(w).pools().insert(self.id(), PoolState { vars: s.vars.insert(k.var(), v.val()), ..s }) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self, w: &mut VWorld)
        requires
            old(w).pools().contains_key(old(self).id()),
            // one empty command per worker is queued, and a worker that is busy does not take its own any more
            old(w).pools()[old(self).id()].tasks <= old(w).pools()[old(self).id()].places,
        ensures
            *final(self) == *old(self), final(w).log() == old(w).log(),
            ({ let s = old(w).pools()[old(self).id()]; final(w).pools() == old(w).pools().insert(old(self).id(), PoolState { stopping: true, ..s }) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&mut self, w: &mut VWorld) -> (r: Result<(), AnyErr>)
        requires old(w).pools().contains_key(old(self).id()), old(w).pools()[old(self).id()].stopping,
        ensures *final(self) == *old(self), final(w).pools() == old(w).pools(), final(w).log() == old(w).log().push(Ev::Joined(old(self).id())),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ThreadPoolBuilder { x: u8 }
impl ThreadPoolBuilder {
    pub uninterp spec fn mode(&self) -> ShutdownMode;
    pub uninterp spec fn tasks(&self) -> usize;
    pub uninterp spec fn places(&self) -> usize;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.mode() is Immediate, r.tasks() == 1, r.places() == 16 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tasks(self, n: usize) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == n, r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_queue_size(self, n: usize) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn with_name_str(self, n: &str) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_shutdown_mode(self, m: ShutdownMode) -> (r: Self) ensures r.mode() == m, r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_join_error_handler<F: Fn(String, String)>(self, f: F) -> (r: Self) ensures r.mode() == self.mode(), r.tasks() == self.tasks(), r.places() == self.places() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self, w: &mut VWorld) -> (r: Result<VPool, AnyErr>)
        ensures
            final(w).log() == old(w).log(),
            r.is_err() ==> final(w).pools() == old(w).pools(),
            r.is_ok() ==> !old(w).pools().contains_key(r->Ok_0.id())
                && final(w).pools() == old(w).pools().insert(r->Ok_0.id(), PoolState { tasks: self.tasks(), places: self.places(), mode: self.mode(), stopping: false, vars: Map::empty() }),
    { unimplemented!() }
}
//@ type src/osm/pbf/parallel_writer.rs ParallelWriter
/// the three stages: one ordering thread with its sizes, encoders with the compression, one writing thread, chained
pub open spec fn stages(w: VWorld, p: ParallelWriter) -> bool {
    let (o, e, f) = (p.element_ordering_pool.id(), p.encoding_pool.id(), p.writing_pool.id());
    let m = w.pools();
    &&& o != e && e != f && o != f
    &&& m.contains_key(o) && m.contains_key(e) && m.contains_key(f)
    &&& m[o].tasks == 1 && m[e].tasks >= 1 && m[f].tasks == 1
    &&& m[o].tasks <= m[o].places && m[e].tasks <= m[e].places && m[f].tasks <= m[f].places
    &&& m[o].mode is CompletePending && m[e].mode is CompletePending && m[f].mode is CompletePending
    &&& m[o].vars.contains_pair(Var::Next, Val::Pool(Some(e)))
    &&& m[e].vars.contains_pair(Var::Next, Val::Pool(Some(f)))
    &&& m[e].vars.contains_pair(Var::Compression, Val::Compression(Some(p.compression_type)))
}
pub open spec fn running(w: VWorld, p: ParallelWriter) -> bool { stages(w, p) && w.open(p.element_ordering_pool) && w.open(p.encoding_pool) && w.open(p.writing_pool) }
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::create_thread_pool ret=r world=w:build
    ensures
        final(w).log() == old(w).log(),
        r.is_err() ==> final(w).pools() == old(w).pools(),
        r.is_ok() ==> !old(w).pools().contains_key(r->Ok_0.id())
            && final(w).pools() == old(w).pools().insert(r->Ok_0.id(), PoolState { tasks, places: queue_size, mode: ShutdownMode::CompletePending, stopping: false, vars: Map::empty() }),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::set_thread_local world=w:set_thread_local
    requires old(w).open(thread_pool),
    ensures
        final(w).log() == old(w).log(),
        ({ let s = old(w).pools()[thread_pool.id()]; final(w).pools() == old(w).pools().insert(thread_pool.id(), PoolState { vars: s.vars.insert(local_key.var(), val.val()), ..s }) }),
//@ sig:
fn set_thread_local<K: Key, T: Local>(thread_pool: VPool, local_key: &K, val: T, w: &mut VWorld)
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::from_file_info ret=r world=w:create_thread_pool,set_thread_local
    ensures
        final(w).log() == old(w).log(),
        r.is_ok() ==> ({
            let p = r->Ok_0;
            let m = final(w).pools()[p.element_ordering_pool.id()];
            &&& running(*final(w), p)
            &&& m.vars.contains_pair(Var::Buffer, Val::Size(element_ordering_buffer_size)) && m.vars.contains_pair(Var::Block, Val::Size(file_block_size))
            &&& p.path == path && p.file_info == file_info && p.compression_type == compression_type
        }),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::write_header ret=r world=w:in_all_threads closure=VTask::OpenFile
    requires running(*old(w), *old(self)),
    ensures *final(self) == *old(self), r.is_ok() ==> final(w).pools() == old(w).pools() && final(w).log() == old(w).log().push(Ev::All(old(self).writing_pool.id(), VTask::OpenFile)),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::write_element ret=r world=w:submit
    requires running(*old(w), *old(self)),
    ensures
        *final(self) == *old(self), final(w).pools() == old(w).pools(),
        r.is_ok(), final(w).log() == old(w).log().push(Ev::Sent(old(self).element_ordering_pool.id(), VCmd::Add(AddElementCommand { element: Some(element) }))),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::write_elements ret=r world=w:submit
    requires running(*old(w), *old(self)),
    ensures
        *final(self) == *old(self), final(w).pools() == old(w).pools(),
        r.is_ok(), final(w).log() == old(w).log().push(Ev::Sent(old(self).element_ordering_pool.id(), VCmd::AddAll(AddElementsCommand { elements: Some(elements) }))),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::flush_element_ordering world=w:in_all_threads
    requires old(w).open(self.element_ordering_pool),
    ensures final(w).pools() == old(w).pools(), final(w).log() == old(w).log().push(Ev::All(self.element_ordering_pool.id(), VTask::FlushAllSorted)),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::flush_writing world=w:in_all_threads
    ensures *final(w) == *old(w),
//@ end
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::shutdown ret=r world=w:shutdown,join
    requires old(w).pools().contains_key(thread_pool.id()), old(w).pools()[thread_pool.id()].tasks <= old(w).pools()[thread_pool.id()].places,
    ensures
        r.is_ok() ==> final(w).log() == old(w).log().push(Ev::Joined(thread_pool.id())),
        ({ let s = old(w).pools()[thread_pool.id()]; final(w).pools() == old(w).pools().insert(thread_pool.id(), PoolState { stopping: true, ..s }) }),
//@ end
/// every stage finishes before the one it feeds is stopped
//@ fn src/osm/pbf/parallel_writer.rs ParallelWriter::close ret=r world=w:flush_element_ordering,flush_writing,shutdown
    requires running(*old(w), *old(self)),
    ensures
        r.is_ok() ==> final(w).log() == old(w).log()
            .push(Ev::All(old(self).element_ordering_pool.id(), VTask::FlushAllSorted))
            .push(Ev::Joined(old(self).element_ordering_pool.id()))
            .push(Ev::Joined(old(self).encoding_pool.id()))
            .push(Ev::Joined(old(self).writing_pool.id())),
//@ end
}
fn main() {}
