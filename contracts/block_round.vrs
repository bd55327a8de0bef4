// N01, N02, N04: a block written and read back holds the same elements
verus! {
pub open spec fn node_is(ns: Seq<Node>, out: Seq<Element>, o: int, i: int) -> bool { out[o + i] is Node && same_node(ns[i], out[o + i]->node, 100, 1000, 0, 0) }
pub open spec fn way_is(ws: Seq<Way>, out: Seq<Element>, o: int, i: int) -> bool { out[o + i] is Way && same_way(ws[i], out[o + i]->way, 1000) }
pub open spec fn rel_is(rs: Seq<Relation>, out: Seq<Element>, o: int, i: int) -> bool { out[o + i] is Relation && same_relation(rs[i], out[o + i]->relation, 1000) }
/// all nodes, then all ways, then all relations, each kind in its order
pub open spec fn same_block(els: Seq<Element>, out: Seq<Element>) -> bool {
    let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
    &&& out.len() == ns.len() + ws.len() + rs.len()
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_is(ns, out, 0, i)
    &&& forall|i: int| 0 <= i < ws.len() ==> #[trigger] way_is(ws, out, ns.len() as int, i)
    &&& forall|i: int| 0 <= i < rs.len() ==> #[trigger] rel_is(rs, out, (ns.len() + ws.len()) as int, i)
}
proof fn lemma_groups(t: Seq<Vec<u8>>, st: Seq<String>, b: PrimitiveBlock, els: Seq<Element>)
    requires enc_block(b, els), storable(els), t == b.stringtable.s@, texts(t, st),
    ensures block_ok(st, b),
{
    let gs = b.primitivegroup@;
    let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
    let x = one(ns.len() > 0);
    let y = x + one(ws.len() > 0);
    assert forall|k: int| 0 <= k < gs.len() implies group_ok(st, #[trigger] gs[k], block_g(b), block_dg(b), block_la(b), block_lo(b)) by {
        if ns.len() > 0 && k == 0 {
            assert(dense_group(t, gs[k], ns));
            assert forall|i: int| 0 <= i < ns.len() implies node_ok(#[trigger] ns[i], 100, 0, 0) by { assert(place_ok(ns[i])); lemma_fixed(ns[i].coordinate.lat); lemma_fixed(ns[i].coordinate.lon); }
            lemma_dense_roundtrip(t, st, gs[k].dense->0, 100, 1000, 0, 0, ns);
        } else if ws.len() > 0 && k == x {
            assert(ways_group(t, gs[k], ws));
            assert forall|i: int| 0 <= i < gs[k].ways@.len() implies way_ok(st, #[trigger] gs[k].ways@[i], 1000) by { assert(diffs_fit(ws[i].refs@)); lemma_way_roundtrip(t, st, gs[k].ways@[i], 1000, ws[i]); }
        } else {
            assert(rels_group(t, gs[k], rs));
            assert forall|i: int| 0 <= i < gs[k].relations@.len() implies relation_ok(st, #[trigger] gs[k].relations@[i], 1000) by { assert(mdiffs_fit(rs[i].members@)); lemma_relation_roundtrip(t, st, gs[k].relations@[i], 1000, rs[i]); }
        }
    }
}
proof fn lemma_read_nodes(t: Seq<Vec<u8>>, st: Seq<String>, p: PrimitiveGroup, ns: Seq<Node>, g: Seq<Element>)
    requires dense_group(t, p, ns), texts(t, st), t.len() <= i32::MAX, dec_group(st, p, 100, 1000, 0, 0, g), forall|i: int| 0 <= i < ns.len() ==> place_ok(#[trigger] ns[i]),
    ensures g.len() == ns.len(), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_is(ns, g, 0, i),
{
    assert forall|i: int| 0 <= i < ns.len() implies node_ok(#[trigger] ns[i], 100, 0, 0) by { assert(place_ok(ns[i])); lemma_fixed(ns[i].coordinate.lat); lemma_fixed(ns[i].coordinate.lon); }
    lemma_dense_roundtrip(t, st, p.dense->0, 100, 1000, 0, 0, ns);
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] node_is(ns, g, 0, i) by { assert(dec_dense(st, p.dense->0, 100, 1000, 0, 0, i, g[i])); }
}
proof fn lemma_read_ways(t: Seq<Vec<u8>>, st: Seq<String>, p: PrimitiveGroup, ws: Seq<Way>, g: Seq<Element>)
    requires ways_group(t, p, ws), texts(t, st), dec_group(st, p, 100, 1000, 0, 0, g), forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).timestamp > i64::MIN,
    ensures g.len() == ws.len(), forall|i: int| 0 <= i < ws.len() ==> #[trigger] way_is(ws, g, 0, i),
{
    assert forall|i: int| 0 <= i < ws.len() implies #[trigger] way_is(ws, g, 0, i) by {
        assert(enc_way(t, p.ways@[i], 1000, ws[i]));
        lemma_way_roundtrip(t, st, p.ways@[i], 1000, ws[i]);
        assert(dec_way(st, p.ways@[i], 1000, g[0 + i]));
    }
}
proof fn lemma_read_rels(t: Seq<Vec<u8>>, st: Seq<String>, p: PrimitiveGroup, rs: Seq<Relation>, g: Seq<Element>)
    requires rels_group(t, p, rs), texts(t, st), dec_group(st, p, 100, 1000, 0, 0, g), forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).timestamp > i64::MIN,
    ensures g.len() == rs.len(), forall|i: int| 0 <= i < rs.len() ==> #[trigger] rel_is(rs, g, 0, i),
{
    assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rel_is(rs, g, 0, i) by {
        assert(enc_relation(t, p.relations@[i], 1000, rs[i]));
        lemma_relation_roundtrip(t, st, p.relations@[i], 1000, rs[i]);
        assert(dec_relation(st, p.relations@[i], 1000, g[0 + i]));
    }
}
proof fn lemma_sub_nodes(ns: Seq<Node>, out: Seq<Element>, a: int, b: int)
    requires 0 <= a <= b <= out.len(), b - a == ns.len(), forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_is(ns, out.subrange(a, b), 0, i),
    ensures forall|i: int| 0 <= i < ns.len() ==> #[trigger] node_is(ns, out, a, i),
{ assert forall|i: int| 0 <= i < ns.len() implies #[trigger] node_is(ns, out, a, i) by { assert(node_is(ns, out.subrange(a, b), 0, i)); } }
proof fn lemma_sub_ways(ns: Seq<Way>, out: Seq<Element>, a: int, b: int)
    requires 0 <= a <= b <= out.len(), b - a == ns.len(), forall|i: int| 0 <= i < ns.len() ==> #[trigger] way_is(ns, out.subrange(a, b), 0, i),
    ensures forall|i: int| 0 <= i < ns.len() ==> #[trigger] way_is(ns, out, a, i),
{ assert forall|i: int| 0 <= i < ns.len() implies #[trigger] way_is(ns, out, a, i) by { assert(way_is(ns, out.subrange(a, b), 0, i)); } }
proof fn lemma_sub_rels(ns: Seq<Relation>, out: Seq<Element>, a: int, b: int)
    requires 0 <= a <= b <= out.len(), b - a == ns.len(), forall|i: int| 0 <= i < ns.len() ==> #[trigger] rel_is(ns, out.subrange(a, b), 0, i),
    ensures forall|i: int| 0 <= i < ns.len() ==> #[trigger] rel_is(ns, out, a, i),
{ assert forall|i: int| 0 <= i < ns.len() implies #[trigger] rel_is(ns, out, a, i) by { assert(rel_is(ns, out.subrange(a, b), 0, i)); } }
/// how many elements each group holds
proof fn lemma_sizes(b: PrimitiveBlock, els: Seq<Element>)
    requires enc_block(b, els),
    ensures ({
        let gs = b.primitivegroup@;
        let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
        let x = one(ns.len() > 0);
        let y = x + one(ws.len() > 0);
        let z = y + one(rs.len() > 0);
        goff(gs, 0) == 0 && goff(gs, x) == ns.len() && goff(gs, y) == ns.len() + ws.len() && goff(gs, z) == ns.len() + ws.len() + rs.len()
    }),
{
    let gs = b.primitivegroup@;
    let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
    let x = one(ns.len() > 0);
    let y = x + one(ws.len() > 0);
    let z = y + one(rs.len() > 0);
    if ns.len() > 0 { assert(glen(gs[0]) == ns.len()); assert(goff(gs, 1) == goff(gs, 0) + glen(gs[0])); }
    if ws.len() > 0 { assert(glen(gs[x]) == ws.len()); assert(goff(gs, x + 1) == goff(gs, x) + glen(gs[x])); }
    if rs.len() > 0 { assert(glen(gs[y]) == rs.len()); assert(goff(gs, y + 1) == goff(gs, y) + glen(gs[y])); }
}
proof fn lemma_read_block(t: Seq<Vec<u8>>, st: Seq<String>, b: PrimitiveBlock, els: Seq<Element>, out: Seq<Element>)
    requires enc_block(b, els), storable(els), t == b.stringtable.s@, texts(t, st), dec_groups(st, b, b.primitivegroup@.len() as int, out),
    ensures same_block(els, out),
{
    let gs = b.primitivegroup@;
    let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
    let x = one(ns.len() > 0);
    let y = x + one(ws.len() > 0);
    let (p, q, r) = (ns.len() as int, (ns.len() + ws.len()) as int, (ns.len() + ws.len() + rs.len()) as int);
    lemma_sizes(b, els);
    if ns.len() > 0 {
        assert(dec_group_at(st, b, 0, out));
        lemma_read_nodes(t, st, gs[0], ns, out.subrange(0, p));
        lemma_sub_nodes(ns, out, 0, p);
    }
    if ws.len() > 0 {
        assert(dec_group_at(st, b, x, out));
        assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] ws[i]).timestamp > i64::MIN by { assert(diffs_fit(ws[i].refs@)); }
        lemma_read_ways(t, st, gs[x], ws, out.subrange(p, q));
        lemma_sub_ways(ws, out, p, q);
    }
    if rs.len() > 0 {
        assert(dec_group_at(st, b, y, out));
        assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] rs[i]).timestamp > i64::MIN by { assert(mdiffs_fit(rs[i].members@)); }
        lemma_read_rels(t, st, gs[y], rs, out.subrange(q, r));
        lemma_sub_rels(rs, out, q, r);
    }
}
/// writing a list of elements to a block and reading the block
fn block_round_trip(d: &OsmData) -> (r: OsmData)
    requires storable(d.elements@),
    ensures same_block(d.elements@, r.elements@),
{
    match d.serialize() {
        Ok(bytes) => {
            let ghost b = dec_block(bytes@)->0;
            let ghost t = b.stringtable.s@;
            proof {
                assert forall|st: Seq<String>| #[trigger] texts(t, st) implies block_ok(st, b) by { lemma_groups(t, st, b, d.elements@); }
                assert forall|i: int| 0 <= i < t.len() implies tb(#[trigger] read_texts(t)[i]) == t[i]@ by { assert(is_text(t[i])); }
                assert(texts(t, read_texts(t)));
            }
            match OsmData::new(bytes) {
                Ok(o) => {
                    proof {
                        let st = choose|st: Seq<String>| #[trigger] texts(t, st) && dec_groups(st, b, b.primitivegroup@.len() as int, o.elements@);
                        lemma_read_block(t, st, b, d.elements@, o.elements@);
                    }
                    o
                }
                Err(_) => { proof { assert(false); } vstd::pervasive::unreached() }
            }
        }
        Err(_) => { proof { assert(false); } vstd::pervasive::unreached() }
    }
}
}
