//@ rename Error AnyErr
//@ rename ParseError AnyErr
//@ rename NaiveDateTime VTime
//@ rename Field VField
//@ rename PathBuf VPath
//@ rename File VFile
//@ rename BufReader VReader
//@ rename i64::from_str i64_from_str
//@ rename i32::from_str i32_from_str
//@ rename i16::from_str i16_from_str
//@ rename f64::from_str f64_from_str
//@ rename Self::create_node RowFn::create_node
//@ rename Self::create_node_tag RowFn::create_node_tag
//@ rename Self::create_way RowFn::create_way
//@ rename Self::create_way_node RowFn::create_way_node
//@ rename Self::create_way_tag RowFn::create_way_tag
//@ rename Self::create_relation RowFn::create_relation
//@ rename Self::create_relation_member RowFn::create_relation_member
//@ rename Self::create_relation_tag RowFn::create_relation_tag
//@ rename Self::create_changeset RowFn::create_changeset
//@ rename Self::create_user RowFn::create_user
//@ include prelude.vrs
//@ include std.vrs
//@ include esc.vrs
verus! {
broadcast use ax::group_string_eq;
}
//@ include tabledef.vrs trusted
//@ include tablekey.vrs trusted
//@ include records.vrs
//@ include rows.vrs trusted
//@ include join.vrs
verus! {
/// every node with exactly its own rows, in table order
pub open spec fn node_given(ps: Seq<TableRecord>, tags: Seq<TableRecord>, i: int, x: NodeRelation) -> bool {
    x.node == ps[i]->node_record && x.tags@ == node_tag_records(own(tags, rkey(ps[i])))
}
pub exec fn n20_all_nodes(it: &mut NodeRelationsIterator) -> (r: Vec<NodeRelation>)
    requires
        old(it).wf(), sorted_parents(old(it).parents()),
        sorted_rows(old(it).tags_left()), no_orphans(old(it).parents(), old(it).tags_left()),
    ensures
        r@.len() == old(it).parents().len(),
        forall|i: int| 0 <= i < r@.len() ==> node_given(old(it).parents(), old(it).tags_left(), i, #[trigger] r@[i]),
        final(it).tags_left().len() == 0,
{
    let ghost ps = it.parents();
    let ghost tags = it.tags_left();
    let mut out: Vec<NodeRelation> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(tags.skip(0) =~= tags); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.parents() == ps.skip(out@.len() as int),
        invariant
            it.wf(), sorted_parents(ps), sorted_rows(tags), no_orphans(ps, tags), 0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> node_given(ps, tags, i, #[trigger] out@[i]),
        ensures out@.len() == ps.len(),
        decreases it.parents().len(),
    {
        let ghost n = out@.len() as int;
        match it.next() {
            None => { break; }
            Some(x) => {
                proof {
                    assert(ps.skip(n)[0] == ps[n]);
                    assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                    lemma_join(ps, tags, n + 1);
                    let a = upto(ps, tags, n);
                    let b = upto(ps, tags, n + 1);
                    assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                    assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                }
                out.push(x);
            }
        }
    }
    proof { lemma_join_end(ps, tags); }
    out
}
/// every way with exactly its own rows, in table order
pub open spec fn way_given(ps: Seq<TableRecord>, tags: Seq<TableRecord>, nodes: Seq<TableRecord>, i: int, x: WayRelation) -> bool {
    x.way == ps[i]->way_record && x.tags@ == way_tag_records(own(tags, rkey(ps[i]))) && x.way_nodes@ == way_node_records(own(nodes, rkey(ps[i])))
}
pub exec fn n20_all_ways(it: &mut WayRelationsIterator) -> (r: Vec<WayRelation>)
    requires
        old(it).wf(), sorted_parents(old(it).parents()),
        sorted_rows(old(it).tags_left()), no_orphans(old(it).parents(), old(it).tags_left()),
        sorted_rows(old(it).nodes_left()), no_orphans(old(it).parents(), old(it).nodes_left()),
    ensures
        r@.len() == old(it).parents().len(),
        forall|i: int| 0 <= i < r@.len() ==> way_given(old(it).parents(), old(it).tags_left(), old(it).nodes_left(), i, #[trigger] r@[i]),
        final(it).tags_left().len() == 0 && final(it).nodes_left().len() == 0,
{
    let ghost ps = it.parents();
    let ghost tags = it.tags_left();
    let ghost nodes = it.nodes_left();
    let mut out: Vec<WayRelation> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(tags.skip(0) =~= tags); assert(nodes.skip(0) =~= nodes); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.parents() == ps.skip(out@.len() as int),
        invariant
            it.wf(), sorted_parents(ps), sorted_rows(tags), no_orphans(ps, tags), 0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)), sorted_rows(nodes), no_orphans(ps, nodes), 0 <= upto(ps, nodes, out@.len() as int) <= nodes.len(), it.nodes_left() == nodes.skip(upto(ps, nodes, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> way_given(ps, tags, nodes, i, #[trigger] out@[i]),
        ensures out@.len() == ps.len(),
        decreases it.parents().len(),
    {
        let ghost n = out@.len() as int;
        match it.next() {
            None => { break; }
            Some(x) => {
                proof {
                    assert(ps.skip(n)[0] == ps[n]);
                    assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                    lemma_join(ps, tags, n + 1);
                    let a = upto(ps, tags, n);
                    let b = upto(ps, tags, n + 1);
                    assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                    assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                    lemma_join(ps, nodes, n + 1);
                    let a = upto(ps, nodes, n);
                    let b = upto(ps, nodes, n + 1);
                    assert(nodes.skip(a).take(b - a) =~= nodes.subrange(a, b));
                    assert(nodes.skip(a).skip(b - a) =~= nodes.skip(b));
                }
                out.push(x);
            }
        }
    }
    proof { lemma_join_end(ps, tags); lemma_join_end(ps, nodes); }
    out
}
/// every relation with exactly its own rows, in table order
pub open spec fn relation_given(ps: Seq<TableRecord>, tags: Seq<TableRecord>, members: Seq<TableRecord>, i: int, x: RelationRelation) -> bool {
    x.relation == ps[i]->relation_record && x.tags@ == relation_tag_records(own(tags, rkey(ps[i]))) && x.relation_members@ == relation_member_records(own(members, rkey(ps[i])))
}
pub exec fn n20_all_relations(it: &mut RelationRelationsIterator) -> (r: Vec<RelationRelation>)
    requires
        old(it).wf(), sorted_parents(old(it).parents()),
        sorted_rows(old(it).tags_left()), no_orphans(old(it).parents(), old(it).tags_left()),
        sorted_rows(old(it).members_left()), no_orphans(old(it).parents(), old(it).members_left()),
    ensures
        r@.len() == old(it).parents().len(),
        forall|i: int| 0 <= i < r@.len() ==> relation_given(old(it).parents(), old(it).tags_left(), old(it).members_left(), i, #[trigger] r@[i]),
        final(it).tags_left().len() == 0 && final(it).members_left().len() == 0,
{
    let ghost ps = it.parents();
    let ghost tags = it.tags_left();
    let ghost members = it.members_left();
    let mut out: Vec<RelationRelation> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(tags.skip(0) =~= tags); assert(members.skip(0) =~= members); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.parents() == ps.skip(out@.len() as int),
        invariant
            it.wf(), sorted_parents(ps), sorted_rows(tags), no_orphans(ps, tags), 0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)), sorted_rows(members), no_orphans(ps, members), 0 <= upto(ps, members, out@.len() as int) <= members.len(), it.members_left() == members.skip(upto(ps, members, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> relation_given(ps, tags, members, i, #[trigger] out@[i]),
        ensures out@.len() == ps.len(),
        decreases it.parents().len(),
    {
        let ghost n = out@.len() as int;
        match it.next() {
            None => { break; }
            Some(x) => {
                proof {
                    assert(ps.skip(n)[0] == ps[n]);
                    assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                    lemma_join(ps, tags, n + 1);
                    let a = upto(ps, tags, n);
                    let b = upto(ps, tags, n + 1);
                    assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                    assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                    lemma_join(ps, members, n + 1);
                    let a = upto(ps, members, n);
                    let b = upto(ps, members, n + 1);
                    assert(members.skip(a).take(b - a) =~= members.subrange(a, b));
                    assert(members.skip(a).skip(b - a) =~= members.skip(b));
                }
                out.push(x);
            }
        }
    }
    proof { lemma_join_end(ps, tags); lemma_join_end(ps, members); }
    out
}
}
fn main() {}
