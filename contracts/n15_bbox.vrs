//@ rename Path VPath
//@ rename Error AnyErr
//@ rename Arc::new vid
//@ rename Box::new vid
//@ rename Mutex::new VCell::new
//@ rename num_cpus::get vcpus
//@ include prelude.vrs
//@ include std.vrs
//@ include float.vrs
//@ include model.vrs
//@ include bboxtype.vrs
//@ include bboxfloat.vrs
//@ include file.vrs
//@ include blobdesc.vrs
//@ include fileblock.vrs
//@ include blobs.vrs
//@ include blobwalk.vrs
verus! {
broadcast use { fax::group_float, bax::group_box };
pub open spec fn cok(c: Coordinate) -> bool { num(c.lat) && num(c.lon) }
pub open spec fn bok(b: BoundingBox) -> bool { num(b.left) && num(b.right) && num(b.top) && num(b.bottom) }
/// the point lies inside the box
pub open spec fn inside(b: BoundingBox, c: Coordinate) -> bool {
    fv(b.left) <= fv(c.lon) <= fv(b.right) && fv(b.bottom) <= fv(c.lat) <= fv(b.top)
}
/// the smallest box containing all of `s`: all inside, and every side attained by some point
#[verifier::opaque]
pub open spec fn hull(b: BoundingBox, s: Seq<Coordinate>) -> bool {
    &&& bok(b)
    &&& forall|i: int| 0 <= i < s.len() ==> inside(b, #[trigger] s[i])
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.left
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.right
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.bottom
    &&& exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.top
}
pub open spec fn hull_opt(b: Option<BoundingBox>, s: Seq<Coordinate>) -> bool {
    match b { None => s.len() == 0, Some(x) => hull(x, s) }
}
//@ fn src/osm/model/bounding_box.rs BoundingBox::new ret=r
    ensures r == (BoundingBox { left, bottom, right, top }),
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::from_point ret=r
    requires cok(*c),
    ensures hull(r, seq![*c]),
//@ tail:
    proof { reveal(hull); assert(seq![*c][0] == *c); }
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::merge_point
    requires bok(*old(self)), cok(*coordinate),
    ensures bok(*final(self)), forall|s: Seq<Coordinate>| #[trigger] hull(*old(self), s) ==> hull(*final(self), s.push(*coordinate)),
//@ tail:
    proof {
        assert forall|s: Seq<Coordinate>| #[trigger] hull(*old(self), s) implies hull(*self, s.push(*coordinate)) by { lemma_push(*old(self), s, *coordinate, *self); }
    }
//@ end
//@ fn src/osm/model/bounding_box.rs BoundingBox::merge_bounding_box
    requires bok(*old(self)), bok(*other),
    ensures bok(*final(self)), forall|s: Seq<Coordinate>, t: Seq<Coordinate>| #![trigger hull(*old(self), s), hull(*other, t)] hull(*old(self), s) && hull(*other, t) ==> hull(*final(self), s + t),
//@ tail:
    proof {
        assert forall|s: Seq<Coordinate>, t: Seq<Coordinate>| #![trigger hull(*old(self), s), hull(*other, t)] hull(*old(self), s) && hull(*other, t) implies hull(*self, s + t) by { lemma_merge(*old(self), s, *other, t, *self); }
    }
//@ end
/// `r` is `b` stretched by one of `x`'s values, side by side
pub open spec fn min_of(r: f64, a: f64, b: f64) -> bool { (r == a || r == b) && fv(r) <= fv(a) && fv(r) <= fv(b) }
pub open spec fn max_of(r: f64, a: f64, b: f64) -> bool { (r == a || r == b) && fv(r) >= fv(a) && fv(r) >= fv(b) }
proof fn lemma_push(b: BoundingBox, s: Seq<Coordinate>, c: Coordinate, r: BoundingBox)
    requires hull(b, s), cok(c), bok(r), min_of(r.left, b.left, c.lon), max_of(r.right, b.right, c.lon), min_of(r.bottom, b.bottom, c.lat), max_of(r.top, b.top, c.lat),
    ensures hull(r, s.push(c)),
{ reveal(hull);
    let z = s.push(c);
    let n = s.len() as int;
    assert(z[n] == c);
    assert forall|i: int| 0 <= i < z.len() implies inside(r, #[trigger] z[i]) by { if i < n { assert(z[i] == s[i]); } }
    let i1 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.left;
    let i2 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.right;
    let i3 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.bottom;
    let i4 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.top;
    assert(z[i1] == s[i1] && z[i2] == s[i2] && z[i3] == s[i3] && z[i4] == s[i4]);
}
proof fn lemma_bok(b: BoundingBox, s: Seq<Coordinate>) requires hull(b, s), ensures bok(b) { reveal(hull); }
proof fn lemma_point(b: BoundingBox, c: Coordinate, s: Seq<Coordinate>)
    requires cok(c), b == (BoundingBox { left: c.lon, bottom: c.lat, right: c.lon, top: c.lat }), s.len() == 0,
    ensures hull(b, s.push(c)),
{ reveal(hull); assert(s.push(c)[0] == c); }
proof fn lemma_merge(b: BoundingBox, s: Seq<Coordinate>, o: BoundingBox, t: Seq<Coordinate>, r: BoundingBox)
    requires hull(b, s), hull(o, t), bok(r), min_of(r.left, b.left, o.left), max_of(r.right, b.right, o.right), min_of(r.bottom, b.bottom, o.bottom), max_of(r.top, b.top, o.top),
    ensures hull(r, s + t),
{ reveal(hull);
    let z = s + t;
    let n = s.len() as int;
    assert forall|i: int| 0 <= i < z.len() implies inside(r, #[trigger] z[i]) by { if i < n { assert(z[i] == s[i]); } else { assert(z[i] == t[i - n]); } }
    let i1 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.left;
    let i2 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lon == b.right;
    let i3 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.bottom;
    let i4 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).lat == b.top;
    assert(z[i1] == s[i1] && z[i2] == s[i2] && z[i3] == s[i3] && z[i4] == s[i4]);
    let j1 = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).lon == o.left;
    let j2 = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).lon == o.right;
    let j3 = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).lat == o.bottom;
    let j4 = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).lat == o.top;
    assert(z[n + j1] == t[j1] && z[n + j2] == t[j2] && z[n + j3] == t[j3] && z[n + j4] == t[j4]);
}
/// two hulls of the same points in any order have the same sides
proof fn n15_hull_unique(a: BoundingBox, b: BoundingBox, s: Seq<Coordinate>, t: Seq<Coordinate>)
    requires hull(a, s), hull(b, t), s.to_multiset() =~= t.to_multiset(),
    ensures fv(a.left) == fv(b.left), fv(a.right) == fv(b.right), fv(a.top) == fv(b.top), fv(a.bottom) == fv(b.bottom),
{ reveal(hull);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|c: Coordinate| s.contains(c) <==> t.contains(c) by {
        assert(s.to_multiset().count(c) == t.to_multiset().count(c));
    }
    assert forall|i: int| 0 <= i < s.len() implies inside(b, #[trigger] s[i]) by {
        assert(s.contains(s[i]));
        assert(t.contains(s[i]));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i];
        assert(inside(b, t[k]));
    }
    assert forall|i: int| 0 <= i < t.len() implies inside(a, #[trigger] t[i]) by {
        assert(t.contains(t[i]));
        assert(s.contains(t[i]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
        assert(inside(a, s[k]));
    }
}

// ---- the nodes of a block
pub open spec fn node_coords(s: Seq<Element>) -> Seq<Coordinate>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else {
        let r = node_coords(s.drop_last());
        match s.last() { Element::Node { node } => r.push(node.coordinate), _ => r }
    }
}
proof fn lemma_node_coords_step(s: Seq<Element>, i: int)
    requires 0 <= i < s.len(),
    ensures node_coords(s.take(i + 1)) == (match s[i] { Element::Node { node } => node_coords(s.take(i)).push(node.coordinate), _ => node_coords(s.take(i)) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
pub open spec fn eok(s: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Element::Node { node } => cok(node.coordinate), _ => true } }
//@ fn src/osm/pbf/osm_data.rs OsmData::recompute_bounding_box ret=r
    requires eok(self.elements@),
    ensures hull_opt(r, node_coords(self.elements@)),
//@ loop 0 it
    invariant
        eok(self.elements@),
        hull_opt(result, node_coords(self.elements@.take(it.index@))),
//@ loopend 0:
    proof {
        lemma_node_coords_step(self.elements@, it.index@);
        if before is None && *element is Node { lemma_point(result->0, element->node.coordinate, node_coords(self.elements@.take(it.index@))); }
    }
//@ loopstart 0:
    let ghost before = result;
    proof { if before is Some { lemma_bok(before->0, node_coords(self.elements@.take(it.index@))); } assert(*element == self.elements@[it.index@]); }
//@ afterloop 0:
    proof { assert(self.elements@.take(self.elements@.len() as int) =~= self.elements@); }
//@ end

// ---- one worker's step: the shared box becomes the hull of what it covered and this blob's nodes
/// the shared box behind its lock: a worker's step has it to itself (`shared`); afterwards it holds what the steps left
#[verifier::external_body]
pub struct VCell { x: u8 }
impl Clone for VCell { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VCell {
    pub uninterp spec fn init(&self) -> Option<BoundingBox>;
    #[verifier::external_body]
    pub fn new(b: Option<BoundingBox>) -> (r: Self) ensures r.init() == b { unimplemented!() }
    /// once the pool's threads are done
    #[verifier::external_body]
    pub fn content(&self, p: &VPool) -> (r: Option<BoundingBox>)
        ensures p.joined() && serves(p.sent(), *self) ==> r == p.left(*self),
    { unimplemented!() }
}
//@ type src/osm/pbf/calc_bounding_box_command.rs CalcBoundingBoxCommand retype=result:VCell
//@ fn src/osm/pbf/calc_bounding_box_command.rs CalcBoundingBoxCommand::new ret=r ptype=result:VCell
    ensures r.blob == blob, r.result == result,
//@ end
pub open spec fn cell_ok(c: Option<BoundingBox>) -> bool { c is Some ==> bok(c->0) }
/// every node coordinate of the block is a number
pub open spec fn blob_ok(d: BlobDesc) -> bool { stored(d) is Data ==> eok(stored(d)->data.elements@) }
/// what one command's step does to the shared box
pub open spec fn stepped(d: BlobDesc, a: Option<BoundingBox>, z: Option<BoundingBox>) -> bool {
    forall|s: Seq<Coordinate>| #[trigger] hull_opt(a, s) ==> hull_opt(z, s + blob_coords(d))
}
//@ fn src/osm/pbf/calc_bounding_box_command.rs Command@CalcBoundingBoxCommand::execute lock=self.result:shared
    requires
        blob_ok(self.blob), cell_ok(*old(shared)),
    ensures
        cell_ok(*final(shared)),
        r.is_ok() ==> stepped(self.blob, *old(shared), *final(shared)),
        r.is_err() ==> *final(shared) == *old(shared),
//@ sig:
fn execute(&self, shared: &mut Option<BoundingBox>) -> (r: Result<(), AnyErr>)
//@ loop 0 it
    invariant
        file_block == stored(self.blob),
        file_block is Data,
        eok(file_block->data.elements@),
        hull_opt(bounding_box, node_coords(file_block->data.elements@.take(it.index@))),
//@ loopstart 0:
    let ghost before = bounding_box;
    proof { if before is Some { lemma_bok(before->0, node_coords(file_block->data.elements@.take(it.index@))); } assert(*element == file_block->data.elements@[it.index@]); }
//@ loopend 0:
    proof {
        lemma_node_coords_step(file_block->data.elements@, it.index@);
        if before is None && *element is Node {
            assert(node_coords(file_block->data.elements@.take(it.index@)) =~= seq![]);
            assert(node_coords(file_block->data.elements@.take(it.index@)).push(element->node.coordinate) =~= seq![element->node.coordinate]);
        }
    }
//@ afterloop 0:
    proof { assert(file_block->data.elements@.take(file_block->data.elements@.len() as int) =~= file_block->data.elements@); }
    proof { if bounding_box is Some { lemma_bok(bounding_box->0, node_coords(file_block->data.elements@)); } }
//@ tail:
    proof {
        assert forall|s: Seq<Coordinate>| #[trigger] hull_opt(*old(shared), s) implies hull_opt(*shared, s + blob_coords(self.blob)) by {
            if blob_coords(self.blob).len() == 0 { assert(s + blob_coords(self.blob) =~= s); }
            else if *old(shared) is None { assert(s + blob_coords(self.blob) =~= blob_coords(self.blob)); }
        }
    }
//@ end
pub open spec fn blob_coords(d: BlobDesc) -> Seq<Coordinate> {
    match stored(d) { FileBlock::Data { data, .. } => node_coords(data.elements@), _ => seq![] }
}

// ---- command_executor's thread pool: every command runs once, each with the shared box to itself, in some order
pub enum ShutdownMode { Immediate, CompletePending }
pub open spec fn serves(s: Seq<CalcBoundingBoxCommand>, c: VCell) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).result == c }
pub open spec fn placed(o: Seq<int>, i: int) -> bool { exists|k: int| 0 <= k < o.len() && #[trigger] o[k] == i }
/// each of 0..n once
pub open spec fn orders(o: Seq<int>, n: int) -> bool {
    &&& o.len() == n
    &&& forall|k: int| 0 <= k < n ==> 0 <= #[trigger] o[k] < n
    &&& forall|i: int| 0 <= i < n ==> #[trigger] placed(o, i)
}
/// the commands ran one after another in the order `o`, the box going through `st`
pub open spec fn history(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, st: Seq<Option<BoundingBox>>) -> bool {
    &&& orders(o, s.len() as int)
    &&& st.len() == s.len() + 1
    &&& forall|k: int| 0 <= k < s.len() ==> stepped(s[#[trigger] o[k]].blob, st[k], st[k + 1])
}
#[verifier::external_body]
pub struct VPool { x: u8 }
impl VPool {
    pub uninterp spec fn sent(&self) -> Seq<CalcBoundingBoxCommand>;
    pub uninterp spec fn left(&self, c: VCell) -> Option<BoundingBox>;
    pub uninterp spec fn mode(&self) -> ShutdownMode;
    pub uninterp spec fn stopping(&self) -> bool;
    pub uninterp spec fn joined(&self) -> bool;
    #[verifier::external_body]
    pub fn submit(&mut self, c: CalcBoundingBoxCommand)
        requires !old(self).stopping(), blob_ok(c.blob), cell_ok(c.result.init()),
        ensures final(self).sent() == old(self).sent().push(c), final(self).mode() == old(self).mode(), !final(self).stopping(), !final(self).joined(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self)
        ensures final(self).sent() == old(self).sent(), final(self).mode() == old(self).mode(), final(self).stopping(), !final(self).joined(),
    { unimplemented!() }
    /// waits for the threads: every command was executed once unless pending ones were dropped; an error of any command is reported
    #[verifier::external_body]
    pub fn join(&mut self) -> (r: Result<(), AnyErr>)
        requires old(self).stopping(),
        ensures
            final(self).sent() == old(self).sent(), final(self).joined(),
            r.is_ok() && old(self).mode() is CompletePending ==> forall|c: VCell| #[trigger] serves(old(self).sent(), c) ==>
                exists|o: Seq<int>, st: Seq<Option<BoundingBox>>| #[trigger] history(old(self).sent(), o, st) && st[0] == c.init() && st[old(self).sent().len() as int] == final(self).left(c),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ThreadPoolBuilder { x: u8 }
impl ThreadPoolBuilder {
    pub uninterp spec fn mode(&self) -> ShutdownMode;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.mode() is Immediate { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tasks(self, n: usize) -> (r: Self) ensures r.mode() == self.mode() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_queue_size(self, n: usize) -> (r: Self) ensures r.mode() == self.mode() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_name_str(self, n: &str) -> (r: Self) ensures r.mode() == self.mode() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_shutdown_mode(self, m: ShutdownMode) -> (r: Self) ensures r.mode() == m { unimplemented!() }
    #[verifier::external_body]
    pub fn with_join_error_handler<F: Fn(String, String)>(self, f: F) -> (r: Self) ensures r.mode() == self.mode() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<VPool, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0.mode() == self.mode() && r->Ok_0.sent().len() == 0 && !r->Ok_0.stopping(),
    { unimplemented!() }
}
pub fn vid<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body]
pub fn vcpus() -> usize { unimplemented!() }
//@ type src/osm/pbf/reader.rs Reader
//@ trusted src/osm/pbf/reader.rs Reader::new ret=r
    ensures r.is_ok() ==> r->Ok_0.path == *path,
//@ end
//@ fn src/osm/pbf/reader.rs Reader::blobs ret=r
    ensures r.is_ok() ==> r->Ok_0.index == 0 && r->Ok_0.jump == 0 && r->Ok_0.path == self.path && r->Ok_0.file.bytes() == VFile::at(self.path) && r->Ok_0.file.pos() == 0,
//@ end
/// the blocks from byte `p` (frame `k`) on, in order
pub open spec fn blocks_from(f: Seq<u8>, path: VPath, p: int, k: int) -> Seq<BlobDesc>
    decreases (if p >= f.len() { 0 } else { f.len() - p }),
{
    if p < 0 || p >= f.len() || next_frame(f, p) <= p { seq![] } else {
        seq![mk(f, path, p, k)] + blocks_from(f, path, next_frame(f, p), k + 1)
    }
}
pub open spec fn sent_blobs(s: Seq<CalcBoundingBoxCommand>) -> Seq<BlobDesc> { s.map_values(|c: CalcBoundingBoxCommand| c.blob) }
/// the j-th node of the i-th block
pub open spec fn at(ds: Seq<BlobDesc>, i: int, j: int) -> Coordinate { blob_coords(ds[i])[j] }
pub open spec fn has(ds: Seq<BlobDesc>, i: int, j: int) -> bool { 0 <= i < ds.len() && 0 <= j < blob_coords(ds[i]).len() }
/// the smallest box containing every node of the blocks
pub open spec fn boxes(b: BoundingBox, ds: Seq<BlobDesc>) -> bool {
    &&& bok(b)
    &&& forall|i: int, j: int| #[trigger] has(ds, i, j) ==> inside(b, at(ds, i, j))
    &&& exists|i: int, j: int| #[trigger] has(ds, i, j) && at(ds, i, j).lon == b.left
    &&& exists|i: int, j: int| #[trigger] has(ds, i, j) && at(ds, i, j).lon == b.right
    &&& exists|i: int, j: int| #[trigger] has(ds, i, j) && at(ds, i, j).lat == b.bottom
    &&& exists|i: int, j: int| #[trigger] has(ds, i, j) && at(ds, i, j).lat == b.top
}
/// the nodes of the first `m` commands in the order they ran
pub open spec fn flat(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, m: int) -> Seq<Coordinate>
    decreases m,
{
    if m <= 0 { seq![] } else { flat(s, o, m - 1) + blob_coords(s[o[m - 1]].blob) }
}
proof fn lemma_chain(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, st: Seq<Option<BoundingBox>>, m: int)
    requires history(s, o, st), st[0] is None, 0 <= m <= s.len(),
    ensures hull_opt(st[m], flat(s, o, m)),
    decreases m,
{
    if m > 0 {
        lemma_chain(s, o, st, m - 1);
        assert(stepped(s[o[m - 1]].blob, st[m - 1], st[m - 1 + 1]));
    }
}
/// where a node of the m-th command stands in the whole
proof fn lemma_flat_has(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, m: int, k: int, j: int)
    requires 0 <= k < m, 0 <= j < blob_coords(s[o[k]].blob).len(),
    ensures exists|x: int| 0 <= x < flat(s, o, m).len() && #[trigger] flat(s, o, m)[x] == blob_coords(s[o[k]].blob)[j],
    decreases m,
{
    let a = flat(s, o, m - 1);
    if k == m - 1 {
        assert(flat(s, o, m)[a.len() + j] == blob_coords(s[o[k]].blob)[j]);
    } else {
        lemma_flat_has(s, o, m - 1, k, j);
        let x = choose|x: int| 0 <= x < a.len() && #[trigger] a[x] == blob_coords(s[o[k]].blob)[j];
        assert(flat(s, o, m)[x] == a[x]);
    }
}
/// which command a node of the whole came from
proof fn lemma_flat_from(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, m: int, x: int) -> (r: (int, int))
    requires 0 <= x < flat(s, o, m).len(),
    ensures 0 <= r.0 < m, 0 <= r.1 < blob_coords(s[o[r.0]].blob).len(), flat(s, o, m)[x] == blob_coords(s[o[r.0]].blob)[r.1],
    decreases m,
{
    let a = flat(s, o, m - 1);
    if x < a.len() { lemma_flat_from(s, o, m - 1, x) } else { (m - 1, x - a.len()) }
}
/// whatever the order in which the commands ran, the box is the smallest one around all nodes
proof fn n15_any_order(s: Seq<CalcBoundingBoxCommand>, o: Seq<int>, st: Seq<Option<BoundingBox>>)
    requires history(s, o, st), st[0] is None,
    ensures
        st[s.len() as int] is Some ==> boxes(st[s.len() as int]->0, sent_blobs(s)),
        st[s.len() as int] is None ==> forall|i: int, j: int| !(#[trigger] has(sent_blobs(s), i, j)),
{
    let n = s.len() as int;
    let ds = sent_blobs(s);
    let f = flat(s, o, n);
    lemma_chain(s, o, st, n);
    assert forall|i: int, j: int| #[trigger] has(ds, i, j) implies exists|x: int| 0 <= x < f.len() && #[trigger] f[x] == at(ds, i, j) by {
        assert(placed(o, i));
        let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == i;
        lemma_flat_has(s, o, n, k, j);
    }
    if st[n] is Some {
        let b = st[n]->0;
        reveal(hull);
        let x1 = choose|x: int| 0 <= x < f.len() && (#[trigger] f[x]).lon == b.left;
        let x2 = choose|x: int| 0 <= x < f.len() && (#[trigger] f[x]).lon == b.right;
        let x3 = choose|x: int| 0 <= x < f.len() && (#[trigger] f[x]).lat == b.bottom;
        let x4 = choose|x: int| 0 <= x < f.len() && (#[trigger] f[x]).lat == b.top;
        let p1 = lemma_flat_from(s, o, n, x1);
        let p2 = lemma_flat_from(s, o, n, x2);
        let p3 = lemma_flat_from(s, o, n, x3);
        let p4 = lemma_flat_from(s, o, n, x4);
        assert(has(ds, o[p1.0], p1.1) && has(ds, o[p2.0], p2.1) && has(ds, o[p3.0], p3.1) && has(ds, o[p4.0], p4.1));
    }
}
//@ type src/osm/pbf/bounding_box_calculator.rs BoundingBoxCalculator
//@ fn src/osm/pbf/bounding_box_calculator.rs BoundingBoxCalculator::calc ret=r cells customiter=0
    requires
        framed(VFile::at(self.path), 0), VFile::at(self.path).len() <= i64::MAX,
        forall|d: BlobDesc| #[trigger] blob_ok(d),
    ensures
        // the smallest box containing every node of the file, for every order the threads may take
        r.is_ok() ==> boxes(r->Ok_0, blocks_from(VFile::at(self.path), self.path, 0, 0)),
//@ loop 0:
        invariant
            iter_0.ready(), !tp.stopping(), tp.mode() is CompletePending, result.init() is None, serves(tp.sent(), result),
            forall|d: BlobDesc| #[trigger] blob_ok(d),
            sent_blobs(tp.sent()) + blocks_from(iter_0.file.bytes(), iter_0.path, iter_0.at(), iter_0.index as int) =~= blocks_from(VFile::at(self.path), self.path, 0, 0),
        ensures
            sent_blobs(tp.sent()) =~= blocks_from(VFile::at(self.path), self.path, 0, 0),
        decreases iter_0.left(),
//@ tail:
    proof {
        assert(serves(tp.sent(), result));
        let (o, st) = choose|o: Seq<int>, st: Seq<Option<BoundingBox>>| #[trigger] history(tp.sent(), o, st) && st[0] == result.init() && st[tp.sent().len() as int] == tp.left(result);
        n15_any_order(tp.sent(), o, st);
    }
//@ end
}
fn main() {}
