// shared: OsmData::read_nodes and OsmData::new (needs block_spec, readdense_fns, readwr_fns)
//@ rename String::from_utf8 text_from_utf8
verus! {
//@ fn src/osm/pbf/osm_data.rs OsmData::read_nodes
    requires forall|i: int| 0 <= i < node_group@.len() ==> node_msg_ok(string_table@, #[trigger] node_group@[i], granularity as int, date_granularity as int, lat_offset as int, lon_offset as int),
    ensures final(elements)@.len() == old(elements)@.len() + node_group@.len(),
        final(elements)@.take(old(elements)@.len() as int) == old(elements)@,
        forall|j: int| 0 <= j < old(elements)@.len() ==> #[trigger] final(elements)@[j] == old(elements)@[j],
        forall|i: int| 0 <= i < node_group@.len() ==> dec_node(string_table@, #[trigger] node_group@[i], granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, final(elements)@[old(elements)@.len() + i]),
//@ attr:
#[verifier::loop_isolation(false)]
//@ loop 0 wi
        invariant
            elements@.len() == old(elements)@.len() + wi.index@,
            elements@.take(old(elements)@.len() as int) == old(elements)@,
            forall|i: int| 0 <= i < wi.index@ ==> dec_node(string_table@, #[trigger] node_group@[i], granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, elements@[old(elements)@.len() + i]),
//@ loopstart 0
        assert(*node == node_group@[wi.index@]);
        let ghost w0 = *node;
        let ghost e0 = elements@;
        assert(node_msg_ok(string_table@, w0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int));
//@ loop 1 ti
            invariant dec_tags(string_table@, w0.keys@, w0.vals@, tags@, i as int),
//@ loopstart 1
            proof { assert(st_ok(string_table@, w0.keys@[i as int] as int)); }
//@ loopend 0
        proof {
            assert(elements@.take(old(elements)@.len() as int) =~= e0.take(old(elements)@.len() as int));
            assert forall|i: int| 0 <= i < wi.index@ + 1 implies dec_node(string_table@, #[trigger] node_group@[i], granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, elements@[old(elements)@.len() + i]) by {
                if i < wi.index@ { assert(elements@[old(elements)@.len() + i] == e0[old(elements)@.len() + i]); }
            }
        }
//@ start:
    proof { assert(old(elements)@.take(old(elements)@.len() as int) =~= old(elements)@); }
//@ tail:
    proof { assert forall|j: int| 0 <= j < old(elements)@.len() implies #[trigger] elements@[j] == old(elements)@[j] by { assert(elements@.take(old(elements)@.len() as int)[j] == elements@[j]); } }
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::read_changesets
    requires changeset_group@.len() == 0,
    ensures final(_elements)@ == old(_elements)@,
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::new ret=r map_collect
    requires forall|st: Seq<String>| dec_block(data@) is Some && #[trigger] texts(dec_block(data@)->0.stringtable.s@, st) ==> block_ok(st, dec_block(data@)->0),
    ensures
        r is Ok <==> dec_block(data@) is Some && exists|st: Seq<String>| texts(dec_block(data@)->0.stringtable.s@, st),
        r is Ok ==> exists|st: Seq<String>| #[trigger] texts(dec_block(data@)->0.stringtable.s@, st) && dec_groups(st, dec_block(data@)->0, dec_block(data@)->0.primitivegroup@.len() as int, r->Ok_0.elements@),
        r is Ok ==> r->Ok_0.bounding_box is None,
//@ attr:
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ start:
    let ghost bytes = data@;
    proof { let _ = bytes; }
//@ loop 0 it
        invariant
            e__ is None ==> v__@.len() == it.index@ && forall|i: int| 0 <= i < it.index@ ==> tb(#[trigger] v__@[i]) == primitive_block.stringtable.s@[i]@,
            e__ is Some ==> bad_text(primitive_block.stringtable.s@),
//@ loopstart 0
        assert(*e == primitive_block.stringtable.s@[it.index@]);
//@ loopend 0
        proof { if e__ is Some { assert(!is_text(primitive_block.stringtable.s@[it.index@]) || bad_text(primitive_block.stringtable.s@)); } }
//@ afterloop 0
    proof { if e__ is None { assert(texts(primitive_block.stringtable.s@, v__@)); } else { lemma_bad(primitive_block.stringtable.s@); } }
//@ beforeloop 1
    let ghost st = string_table@;
    let ghost gs = primitive_block.primitivegroup@;
    let ghost b0 = primitive_block;
    let ghost (gr, dg, la, lo) = (granularity as int, date_granularity as int, lat_offset as int, lon_offset as int);
    assert(block_ok(st, b0));
//@ loop 1 it
        invariant
            it.seq().len() == gs.len(), forall|k: int| 0 <= k < gs.len() ==> *(#[trigger] it.seq()[k]) == gs[k],
            dec_groups(st, b0, it.index@, elements@),
//@ loopstart 1
        let ghost k = it.index@;
        let ghost p = gs[k];
        let ghost e0 = elements@;
        assert(*it.seq()[k] == gs[k]);
        assert(group_ok(st, gs[k], gr, dg, la, lo));
//@ loopend 1
        proof {
            let o = goff(gs, k);
            assert(elements@.len() == o + glen(p));
            assert(elements@.take(o) =~= e0);
            assert(elements@.subrange(o, goff(gs, k + 1)) =~= elements@.skip(o));
            let gsq = elements@.skip(o);
            let n = e0.len();
            assert(elements@.len() == n + glen(p));
            if p.dense is Some {
                assert forall|i: int| 0 <= i < dlen(p) implies #[trigger] dec_dense(st, p.dense->0, gr, dg, la, lo, i, gsq[i]) by { let x = elements@[n + i]; assert(gsq[i] == x); assert(dec_dense(st, p.dense->0, gr, dg, la, lo, i, x)); }
            }
            assert forall|i: int| 0 <= i < p.nodes@.len() implies dec_node(st, #[trigger] p.nodes@[i], gr, dg, la, lo, gsq[dlen(p) + i]) by { let x = elements@[n + dlen(p) + i]; assert(gsq[dlen(p) + i] == x); assert(dec_node(st, p.nodes@[i], gr, dg, la, lo, x)); }
            assert forall|i: int| 0 <= i < p.ways@.len() implies dec_way(st, #[trigger] p.ways@[i], dg, gsq[dlen(p) + p.nodes@.len() + i]) by { let x = elements@[n + dlen(p) + p.nodes@.len() + i]; assert(gsq[dlen(p) + p.nodes@.len() + i] == x); }
            assert forall|i: int| 0 <= i < p.relations@.len() implies dec_relation(st, #[trigger] p.relations@[i], dg, gsq[dlen(p) + p.nodes@.len() + p.ways@.len() + i]) by { let x = elements@[n + dlen(p) + p.nodes@.len() + p.ways@.len() + i]; assert(gsq[dlen(p) + p.nodes@.len() + p.ways@.len() + i] == x); }
            assert(dec_group(st, p, gr, dg, la, lo, gsq));
            assert forall|j: int| 0 <= j < k + 1 implies #[trigger] dec_group_at(st, b0, j, elements@) by {
                if j < k {
                    lemma_goff(gs, j, j + 1); lemma_goff(gs, j + 1, k);
                    assert(dec_group_at(st, b0, j, e0));
                    assert(elements@.subrange(goff(gs, j), goff(gs, j + 1)) =~= e0.subrange(goff(gs, j), goff(gs, j + 1)));
                }
            }
        }
//@ end
pub open spec fn is_text(b: Vec<u8>) -> bool { exists|s: String| tb(s) == b@ }
pub open spec fn bad_text(t: Seq<Vec<u8>>) -> bool { exists|i: int| 0 <= i < t.len() && !is_text(#[trigger] t[i]) }
proof fn lemma_bad(t: Seq<Vec<u8>>)
    requires bad_text(t),
    ensures forall|st: Seq<String>| !texts(t, st),
{
    let i = choose|i: int| 0 <= i < t.len() && !is_text(#[trigger] t[i]);
    assert forall|st: Seq<String>| !texts(t, st) by { if texts(t, st) { assert(tb(st[i]) == t[i]@); } }
}
}
