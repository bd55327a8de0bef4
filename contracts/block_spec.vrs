// shared: decoding a whole primitive block (needs dense_spec, info_spec)
verus! {
/// protobuf decoding of a primitive block
pub uninterp spec fn dec_block(b: Seq<u8>) -> Option<PrimitiveBlock>;
pub use osmpbf_ext::*;
pub mod osmpbf_ext { use super::*;
impl osmpbf::PrimitiveBlock {
    #[verifier::external_body]
    pub fn decode(c: &mut VCursor) -> (r: Result<PrimitiveBlock, AnyErr>)
        ensures r.is_ok() == dec_block(old(c).data@).is_some(), r.is_ok() ==> Some(r->Ok_0) == dec_block(old(c).data@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encoded_len(&self) -> (r: usize) { unimplemented!() }
    /// appends to the buffer; what is encoded decodes to the same message
    #[verifier::external_body]
    pub fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), AnyErr>)
        ensures r.is_ok(), old(buf)@.len() == 0 ==> dec_block(final(buf)@) == Some(*self),
    { unimplemented!() }
}
}
#[verifier::external_body]
pub fn text_from_utf8(b: Vec<u8>) -> (r: Result<String, AnyErr>)
    ensures match r { Ok(s) => tb(s) == b@, Err(_) => !(exists|s: String| tb(s) == b@) },
{ unimplemented!() }
// ---- plain nodes
pub open spec fn node_msg_ok(st: Seq<String>, n: osmpbf::Node, g: int, dg: int, la: int, lo: int) -> bool {
    &&& tags_ok(st, n.keys@, n.vals@) && info_ok(st, n.info, dg)
    &&& fits64(g * n.lat) && fits64(nano(la, g, n.lat as int))
    &&& fits64(g * n.lon) && fits64(nano(lo, g, n.lon as int))
}
pub open spec fn dec_node(st: Seq<String>, n: osmpbf::Node, g: int, dg: int, la: int, lo: int, e: Element) -> bool {
    &&& e is Node
    &&& e->node.id == n.id
    &&& e->node.coordinate.lat == deg(nano(la, g, n.lat as int))
    &&& e->node.coordinate.lon == deg(nano(lo, g, n.lon as int))
    &&& dec_tags(st, n.keys@, n.vals@, e->node.tags@, n.keys@.len() as int)
    &&& dec_info(st, n.info, dg, e->node.version, e->node.timestamp, e->node.changeset, e->node.uid, e->node.user, e->node.visible)
}
// ---- blocks
pub open spec fn block_g(b: PrimitiveBlock) -> int { match b.granularity { Some(x) => x as int, None => 100 } }
pub open spec fn block_dg(b: PrimitiveBlock) -> int { match b.date_granularity { Some(x) => x as int, None => 1000 } }
pub open spec fn block_la(b: PrimitiveBlock) -> int { match b.lat_offset { Some(x) => x as int, None => 0 } }
pub open spec fn block_lo(b: PrimitiveBlock) -> int { match b.lon_offset { Some(x) => x as int, None => 0 } }
pub open spec fn dlen(g: PrimitiveGroup) -> int { match g.dense { Some(d) => d.id@.len() as int, None => 0 } }
pub open spec fn glen(g: PrimitiveGroup) -> int { dlen(g) + g.nodes@.len() + g.ways@.len() + g.relations@.len() }
/// number of elements of the first `k` groups
pub open spec fn goff(gs: Seq<PrimitiveGroup>, k: int) -> int decreases k { if k <= 0 { 0 } else { goff(gs, k - 1) + glen(gs[k - 1]) } }
pub open spec fn group_ok(st: Seq<String>, p: PrimitiveGroup, g: int, dg: int, la: int, lo: int) -> bool {
    &&& p.dense is Some ==> dense_ok(st, p.dense->0, g, dg, la, lo)
    &&& forall|i: int| 0 <= i < p.nodes@.len() ==> node_msg_ok(st, #[trigger] p.nodes@[i], g, dg, la, lo)
    &&& forall|i: int| 0 <= i < p.ways@.len() ==> way_ok(st, #[trigger] p.ways@[i], dg)
    &&& forall|i: int| 0 <= i < p.relations@.len() ==> relation_ok(st, #[trigger] p.relations@[i], dg)
    &&& p.changesets@.len() == 0
}
/// the elements of a group: dense nodes, nodes, ways, relations
pub open spec fn dec_group(st: Seq<String>, p: PrimitiveGroup, g: int, dg: int, la: int, lo: int, els: Seq<Element>) -> bool {
    let a = dlen(p);
    let b = a + p.nodes@.len();
    let c = b + p.ways@.len();
    &&& els.len() == glen(p)
    &&& p.dense is Some ==> forall|i: int| 0 <= i < a ==> #[trigger] dec_dense(st, p.dense->0, g, dg, la, lo, i, els[i])
    &&& forall|i: int| 0 <= i < p.nodes@.len() ==> dec_node(st, #[trigger] p.nodes@[i], g, dg, la, lo, els[a + i])
    &&& forall|i: int| 0 <= i < p.ways@.len() ==> dec_way(st, #[trigger] p.ways@[i], dg, els[b + i])
    &&& forall|i: int| 0 <= i < p.relations@.len() ==> dec_relation(st, #[trigger] p.relations@[i], dg, els[c + i])
}
pub open spec fn block_ok(st: Seq<String>, b: PrimitiveBlock) -> bool {
    forall|k: int| 0 <= k < b.primitivegroup@.len() ==> group_ok(st, #[trigger] b.primitivegroup@[k], block_g(b), block_dg(b), block_la(b), block_lo(b))
}
/// N03: the elements of all groups, in file order
pub open spec fn dec_groups(st: Seq<String>, b: PrimitiveBlock, n: int, els: Seq<Element>) -> bool {
    &&& els.len() == goff(b.primitivegroup@, n)
    &&& forall|k: int| 0 <= k < n ==> #[trigger] dec_group_at(st, b, k, els)
}
pub open spec fn dec_group_at(st: Seq<String>, b: PrimitiveBlock, k: int, els: Seq<Element>) -> bool {
    dec_group(st, b.primitivegroup@[k], block_g(b), block_dg(b), block_la(b), block_lo(b), els.subrange(goff(b.primitivegroup@, k), goff(b.primitivegroup@, k + 1)))
}
proof fn lemma_goff(gs: Seq<PrimitiveGroup>, k: int, n: int)
    requires 0 <= k <= n <= gs.len(),
    ensures 0 <= goff(gs, k) <= goff(gs, n),
    decreases n,
{ if k < n { lemma_goff(gs, k, n - 1); } else if n > 0 { lemma_goff(gs, k - 1, n - 1); } }
}
