// shared: OsmData::serialize and back (needs everything of a block)
verus! {
pub open spec fn nodes_of(els: Seq<Element>) -> Seq<Node> decreases els.len() { if els.len() == 0 { seq![] } else { let r = nodes_of(els.drop_last()); match els.last() { Element::Node { node } => r.push(node), _ => r } } }
pub open spec fn ways_of(els: Seq<Element>) -> Seq<Way> decreases els.len() { if els.len() == 0 { seq![] } else { let r = ways_of(els.drop_last()); match els.last() { Element::Way { way } => r.push(way), _ => r } } }
pub open spec fn rels_of(els: Seq<Element>) -> Seq<Relation> decreases els.len() { if els.len() == 0 { seq![] } else { let r = rels_of(els.drop_last()); match els.last() { Element::Relation { relation } => r.push(relation), _ => r } } }
/// strings an element may add to the table
pub open spec fn strings_of(e: Element) -> int {
    match e {
        Element::Node { node } => 2 * (node.tags@.len() as int) + 1,
        Element::Way { way } => 2 * (way.tags@.len() as int) + 1,
        Element::Relation { relation } => 2 * (relation.tags@.len() as int) + relation.members@.len() as int + 1,
        Element::Sentinel => 0,
    }
}
pub open spec fn strings(els: Seq<Element>) -> int decreases els.len() { if els.len() == 0 { 0 } else { strings(els.drop_last()) + strings_of(els.last()) } }
pub open spec fn step(a: Node, b: Node) -> bool {
    &&& fits64(b.id - a.id) && fits32(b.uid - a.uid) && fits64(b.changeset - a.changeset)
}
pub open spec fn place_ok(n: Node) -> bool { fin(n.coordinate.lat) && fin(n.coordinate.lon) && rabs(fv(n.coordinate.lat)) <= 1000real && rabs(fv(n.coordinate.lon)) <= 1000real && n.timestamp > i64::MIN }
/// the values of the elements, and the differences between consecutive ones, can be stored
pub open spec fn storable(els: Seq<Element>) -> bool {
    &&& strings(els) + 1 <= i32::MAX
    &&& forall|i: int| 0 <= i < nodes_of(els).len() ==> place_ok(#[trigger] nodes_of(els)[i])
    &&& forall|i: int| 0 < i < nodes_of(els).len() ==> step(nodes_of(els)[i - 1], #[trigger] nodes_of(els)[i])
    &&& forall|i: int| 0 <= i < ways_of(els).len() ==> diffs_fit((#[trigger] ways_of(els)[i]).refs@) && ways_of(els)[i].timestamp > i64::MIN
    &&& forall|i: int| 0 <= i < rels_of(els).len() ==> mdiffs_fit((#[trigger] rels_of(els)[i]).members@) && rels_of(els)[i].timestamp > i64::MIN
}
proof fn lemma_parts(els: Seq<Element>, n: int)
    requires 0 <= n < els.len(),
    ensures
        nodes_of(els.take(n + 1)) == (match els[n] { Element::Node { node } => nodes_of(els.take(n)).push(node), _ => nodes_of(els.take(n)) }),
        ways_of(els.take(n + 1)) == (match els[n] { Element::Way { way } => ways_of(els.take(n)).push(way), _ => ways_of(els.take(n)) }),
        rels_of(els.take(n + 1)) == (match els[n] { Element::Relation { relation } => rels_of(els.take(n)).push(relation), _ => rels_of(els.take(n)) }),
        strings(els.take(n + 1)) == strings(els.take(n)) + strings_of(els[n]),
{
    assert(els.take(n + 1).drop_last() =~= els.take(n));
    assert(els.take(n + 1).last() == els[n]);
}
/// the parts of a prefix are prefixes of the parts
proof fn lemma_parts_prefix(els: Seq<Element>, n: int)
    requires 0 <= n <= els.len(),
    ensures
        nodes_of(els.take(n)).len() <= nodes_of(els).len(), forall|i: int| 0 <= i < nodes_of(els.take(n)).len() ==> nodes_of(els.take(n))[i] == #[trigger] nodes_of(els)[i],
        ways_of(els.take(n)).len() <= ways_of(els).len(), forall|i: int| 0 <= i < ways_of(els.take(n)).len() ==> ways_of(els.take(n))[i] == #[trigger] ways_of(els)[i],
        rels_of(els.take(n)).len() <= rels_of(els).len(), forall|i: int| 0 <= i < rels_of(els.take(n)).len() ==> rels_of(els.take(n))[i] == #[trigger] rels_of(els)[i],
        strings(els.take(n)) <= strings(els),
    decreases els.len() - n,
{
    if n < els.len() { lemma_parts(els, n); lemma_parts_prefix(els, n + 1); } else { assert(els.take(n) =~= els); }
}
pub open spec fn enc_ways(t: Seq<Vec<u8>>, ms: Seq<osmpbf::Way>, ws: Seq<Way>) -> bool {
    ms.len() == ws.len() && forall|i: int| 0 <= i < ws.len() ==> enc_way(t, #[trigger] ms[i], 1000, ws[i])
}
pub open spec fn enc_rels(t: Seq<Vec<u8>>, ms: Seq<osmpbf::Relation>, rs: Seq<Relation>) -> bool {
    ms.len() == rs.len() && forall|i: int| 0 <= i < rs.len() ==> enc_relation(t, #[trigger] ms[i], 1000, rs[i])
}
// ---- the builders while the elements are added
pub open spec fn dense_is(t: Seq<Vec<u8>>, b: Option<DenseGroupBuilder>, ns: Seq<Node>) -> bool {
    match b { None => ns.len() == 0, Some(x) => building(t, x, ns) && x.granularity == 100 && x.date_granularity == 1000 && x.lat_offset == 0 && x.lon_offset == 0 }
}
pub open spec fn ways_is(t: Seq<Vec<u8>>, b: Option<WaysGroupBuilder>, ws: Seq<Way>) -> bool {
    match b { None => ws.len() == 0, Some(x) => ws.len() > 0 && x.ways is Some && enc_ways(t, x.ways->0@, ws) && x.date_granularity == 1000 }
}
pub open spec fn rels_is(t: Seq<Vec<u8>>, b: Option<RelationsGroupBuilder>, rs: Seq<Relation>) -> bool {
    match b { None => rs.len() == 0, Some(x) => rs.len() > 0 && x.relations is Some && enc_rels(t, x.relations->0@, rs) && x.date_granularity == 1000 }
}
proof fn lemma_dense_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, b: Option<DenseGroupBuilder>, ns: Seq<Node>)
    requires dense_is(t, b, ns), prefix(t, u),
    ensures dense_is(u, b, ns),
{
    if b is Some {
        let x = b->0; let d = x.dense->0;
        assert forall|i: int| 0 <= i < ns.len() implies #[trigger] enc_node(u, d, 100, 1000, 0, 0, ns, i) by {
            assert(enc_node(t, d, 100, 1000, 0, 0, ns, i));
            lemma_at_prefix(t, u, dsum32(x.f().user_sid@, i + 1), ns[i].user);
            lemma_enc_seg_mono(t, u, d.keys_vals@, d.keys_vals@, kpos(ns, i), ns[i].tags@);
        }
        lemma_at_prefix(t, u, x.last_sid as int, ns.last().user);
    }
}
proof fn lemma_ways_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, b: Option<WaysGroupBuilder>, ws: Seq<Way>)
    requires ways_is(t, b, ws), prefix(t, u),
    ensures ways_is(u, b, ws),
{
    if b is Some { assert forall|i: int| 0 <= i < ws.len() implies enc_way(u, #[trigger] (b->0).ways->0@[i], 1000, ws[i]) by { lemma_way_mono(t, u, (b->0).ways->0@[i], 1000, ws[i]); } }
}
proof fn lemma_rels_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, b: Option<RelationsGroupBuilder>, rs: Seq<Relation>)
    requires rels_is(t, b, rs), prefix(t, u),
    ensures rels_is(u, b, rs),
{
    if b is Some { assert forall|i: int| 0 <= i < rs.len() implies enc_relation(u, #[trigger] (b->0).relations->0@[i], 1000, rs[i]) by { lemma_relation_mono(t, u, (b->0).relations->0@[i], 1000, rs[i]); } }
}
proof fn lemma_ways_push(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, a: Option<WaysGroupBuilder>, b: Option<WaysGroupBuilder>, ws: Seq<Way>, w: Way)
    requires ways_is(t, a, ws), prefix(t, u), b is Some, (b->0).ways is Some, (b->0).date_granularity == 1000,
        (b->0).ways->0@.len() == ws.len() + 1, enc_way(u, (b->0).ways->0@.last(), 1000, w),
        a is Some ==> (b->0).ways->0@.drop_last() == (a->0).ways->0@,
    ensures ways_is(u, b, ws.push(w)),
{
    let y = (b->0).ways->0@;
    assert forall|i: int| 0 <= i < ws.len() + 1 implies enc_way(u, #[trigger] y[i], 1000, ws.push(w)[i]) by {
        if i < ws.len() { let x = (a->0).ways->0@; assert(y.drop_last()[i] == x[i]); assert(enc_way(t, x[i], 1000, ws[i])); lemma_way_mono(t, u, x[i], 1000, ws[i]); }
    }
}
proof fn lemma_rels_push(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, a: Option<RelationsGroupBuilder>, b: Option<RelationsGroupBuilder>, rs: Seq<Relation>, r: Relation)
    requires rels_is(t, a, rs), prefix(t, u), b is Some, (b->0).relations is Some, (b->0).date_granularity == 1000,
        (b->0).relations->0@.len() == rs.len() + 1, enc_relation(u, (b->0).relations->0@.last(), 1000, r),
        a is Some ==> (b->0).relations->0@.drop_last() == (a->0).relations->0@,
    ensures rels_is(u, b, rs.push(r)),
{
    let y = (b->0).relations->0@;
    assert forall|i: int| 0 <= i < rs.len() + 1 implies enc_relation(u, #[trigger] y[i], 1000, rs.push(r)[i]) by {
        if i < rs.len() { let x = (a->0).relations->0@; assert(y.drop_last()[i] == x[i]); assert(enc_relation(t, x[i], 1000, rs[i])); lemma_relation_mono(t, u, x[i], 1000, rs[i]); }
    }
}
proof fn lemma_step_ok(t: Seq<Vec<u8>>, b: DenseGroupBuilder, ns: Seq<Node>, node: Node)
    requires dense_is(t, Some(b), ns), step(ns.last(), node), place_ok(ns.last()), place_ok(node),
    ensures b.step_ok(node),
{
    lemma_fixed(ns.last().coordinate.lat); lemma_fixed(ns.last().coordinate.lon); lemma_fixed(node.coordinate.lat); lemma_fixed(node.coordinate.lon);
    let (x, y) = (ns.last().timestamp as int, node.timestamp as int);
    assert(i64::MIN < x <= i64::MAX && i64::MIN < y <= i64::MAX);
    assert(-9223372036854776 <= tdiv(x, 1000) <= 9223372036854776 && -9223372036854776 <= tdiv(y, 1000) <= 9223372036854776);
}
// ---- the block
pub open spec fn dense_group(t: Seq<Vec<u8>>, p: PrimitiveGroup, ns: Seq<Node>) -> bool {
    p.dense is Some && enc_dense(t, p.dense->0, 100, 1000, 0, 0, ns) && p.nodes@.len() == 0 && p.ways@.len() == 0 && p.relations@.len() == 0 && p.changesets@.len() == 0
}
pub open spec fn ways_group(t: Seq<Vec<u8>>, p: PrimitiveGroup, ws: Seq<Way>) -> bool {
    p.dense is None && p.nodes@.len() == 0 && enc_ways(t, p.ways@, ws) && p.relations@.len() == 0 && p.changesets@.len() == 0
}
pub open spec fn rels_group(t: Seq<Vec<u8>>, p: PrimitiveGroup, rs: Seq<Relation>) -> bool {
    p.dense is None && p.nodes@.len() == 0 && p.ways@.len() == 0 && enc_rels(t, p.relations@, rs) && p.changesets@.len() == 0
}
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// N04: one group per kind that occurs, with every element of that kind in order; the string table holds every string once, after the empty one
pub open spec fn enc_block(b: PrimitiveBlock, els: Seq<Element>) -> bool {
    let t = b.stringtable.s@;
    let gs = b.primitivegroup@;
    let (ns, ws, rs) = (nodes_of(els), ways_of(els), rels_of(els));
    let x = one(ns.len() > 0);
    let y = x + one(ws.len() > 0);
    let z = y + one(rs.len() > 0);
    &&& block_g(b) == 100 && block_dg(b) == 1000 && block_la(b) == 0 && block_lo(b) == 0
    &&& 0 < t.len() <= i32::MAX && t[0]@.len() == 0 && distinct(t) && all_texts(t)
    &&& gs.len() == z
    &&& ns.len() > 0 ==> dense_group(t, gs[0], ns)
    &&& ws.len() > 0 ==> ways_group(t, gs[x], ws)
    &&& rs.len() > 0 ==> rels_group(t, gs[y], rs)
}
pub open spec fn distinct(t: Seq<Vec<u8>>) -> bool { forall|i: int, j: int| 1 <= i < t.len() && 1 <= j < t.len() && (#[trigger] t[i])@ == (#[trigger] t[j])@ ==> i == j }
pub open spec fn all_texts(t: Seq<Vec<u8>>) -> bool { forall|i: int| 0 <= i < t.len() ==> is_text(#[trigger] t[i]) }
/// the entry of each place, read as text
pub open spec fn read_texts(t: Seq<Vec<u8>>) -> Seq<String> { Seq::new(t.len(), |i: int| choose|s: String| tb(s) == t[i]@) }
proof fn lemma_table(b: StringTableBuilder)
    requires b.wf(),
    ensures distinct(b.table()), all_texts(b.table()),
{
    let t = b.table();
    assert forall|i: int, j: int| 1 <= i < t.len() && 1 <= j < t.len() && (#[trigger] t[i])@ == (#[trigger] t[j])@ implies i == j by {
        assert(used(b.index@, t[i], i) && used(b.index@, t[j], j));
        let k = choose|k: String| #[trigger] b.index@.contains_key(k) && b.index@[k] == i && t[i]@ == tb(k);
        let l = choose|l: String| #[trigger] b.index@.contains_key(l) && b.index@[l] == j && t[j]@ == tb(l);
        lemma_text_inj(k, l);
    }
    assert forall|i: int| 0 <= i < t.len() implies is_text(#[trigger] t[i]) by {
        if i > 0 {
            assert(used(b.index@, t[i], i));
            let k = choose|k: String| #[trigger] b.index@.contains_key(k) && b.index@[k] == i && t[i]@ == tb(k);
            assert(tb(k) == t[i]@);
        } else { lemma_empty_is_text(t[0]); }
    }
}
proof fn lemma_empty_is_text(b: Vec<u8>)
    requires b@.len() == 0,
    ensures is_text(b),
{
    axiom_empty_string();
    let s = choose|s: String| #[trigger] s@ == Seq::<char>::empty();
    lemma_empty_text();
    assert(b@ =~= tb(s));
}
/// there is an empty `String`
pub axiom fn axiom_empty_string() ensures exists|s: String| #[trigger] s@ == Seq::<char>::empty();
//@ fn src/osm/pbf/osm_data.rs OsmData::serialize ret=r
    requires storable(self.elements@),
    ensures r is Ok, dec_block(r->Ok_0@) is Some, enc_block(dec_block(r->Ok_0@)->0, self.elements@),
//@ attr:
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
//@ beforeloop 0
    let ghost els = self.elements@;
    let ghost mut t = string_table_builder.table();
    proof { assert(els.take(0) =~= seq![]); }
//@ loop 0 it
    invariant
        string_table_builder.wf(), t == string_table_builder.table(), string_table_builder.len() <= 1 + strings(els.take(it.index@)),
        dense_is(t, dense_group_builder, nodes_of(els.take(it.index@))),
        ways_is(t, ways_group_builder, ways_of(els.take(it.index@))),
        rels_is(t, relations_group_builder, rels_of(els.take(it.index@))),
//@ loopstart 0
    let ghost ix = it.index@;
    let ghost ns = nodes_of(els.take(ix));
    let ghost (d0, w0, r0) = (dense_group_builder, ways_group_builder, relations_group_builder);
    assert(*element == els[ix]);
    proof {
        lemma_parts(els, ix);
        lemma_parts_prefix(els, ix);
        lemma_parts_prefix(els, ix + 1);
        if els[ix] is Node {
            assert(nodes_of(els)[ns.len() as int] == els[ix]->node);
            assert(place_ok(nodes_of(els)[ns.len() as int]));
            if d0 is Some {
                assert(place_ok(nodes_of(els)[ns.len() - 1]));
                lemma_step_ok(t, d0->0, ns, els[ix]->node);
            }
        }
        if els[ix] is Way { let m = ways_of(els.take(ix)).len() as int; assert(ways_of(els)[m] == els[ix]->way); }
        if els[ix] is Relation { let m = rels_of(els.take(ix)).len() as int; assert(rels_of(els)[m] == els[ix]->relation); }
    }
//@ loopend 0
    proof {
        let u = string_table_builder.table();
        assert(prefix(t, u));
        if els[ix] is Node {
            lemma_ways_mono(t, u, w0, ways_of(els.take(ix))); lemma_rels_mono(t, u, r0, rels_of(els.take(ix)));
            if d0 is None { lemma_building_new(u, dense_group_builder->0, els[ix]->node); assert(ns.push(els[ix]->node) =~= seq![els[ix]->node]); }
            else { lemma_building_add(t, u, d0->0, dense_group_builder->0, ns, els[ix]->node); }
        } else if els[ix] is Way {
            lemma_dense_mono(t, u, d0, ns); lemma_rels_mono(t, u, r0, rels_of(els.take(ix)));
            lemma_ways_push(t, u, w0, ways_group_builder, ways_of(els.take(ix)), els[ix]->way);
        } else if els[ix] is Relation {
            lemma_dense_mono(t, u, d0, ns); lemma_ways_mono(t, u, w0, ways_of(els.take(ix)));
            lemma_rels_push(t, u, r0, relations_group_builder, rels_of(els.take(ix)), els[ix]->relation);
        }
        t = u;
    }
//@ afterloop 0
    proof { assert(els.take(els.len() as int) =~= els); lemma_table(string_table_builder); }
//@ end
}
