// shared: the merge joins (needs rows.vrs)
verus! {
/// what a row belongs to: id and version
pub open spec fn rkey(r: TableRecord) -> (int, int) {
    match r {
        TableRecord::Node { node_record } => (node_record.node_id as int, node_record.version as int),
        TableRecord::NodeTag { node_tag_record } => (node_tag_record.node_id as int, node_tag_record.version as int),
        TableRecord::Way { way_record } => (way_record.way_id as int, way_record.version as int),
        TableRecord::WayTag { way_tag_record } => (way_tag_record.way_id as int, way_tag_record.version as int),
        TableRecord::WayNode { way_node_record } => (way_node_record.way_id as int, way_node_record.version as int),
        TableRecord::Relation { relation_record } => (relation_record.relation_id as int, relation_record.version as int),
        TableRecord::RelationTag { relation_tag_record } => (relation_tag_record.relation_id as int, relation_tag_record.version as int),
        TableRecord::RelationMember { relation_member_record } => (relation_member_record.relation_id as int, relation_member_record.version as int),
        TableRecord::Changeset { changeset_record } => (changeset_record.id as int, 0),
        TableRecord::User { user_record } => (user_record.id as int, 0),
    }
}
pub open spec fn klt(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
/// number of leading rows that belong to `k`
pub open spec fn run(s: Seq<TableRecord>, k: (int, int)) -> nat
    decreases s.len(),
{ if s.len() == 0 || rkey(s[0]) != k { 0 } else { 1 + run(s.skip(1), k) } }
pub proof fn lemma_run(s: Seq<TableRecord>, k: (int, int), n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> rkey(#[trigger] s[i]) == k, n == s.len() || rkey(s[n]) != k,
    ensures run(s, k) == n,
    decreases n,
{
    if n > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < n - 1 implies rkey(#[trigger] t[i]) == k by { assert(t[i] == s[i + 1]); }
        if n < s.len() { assert(t[n - 1] == s[n]); }
        lemma_run(t, k, n - 1);
    }
}
pub proof fn lemma_run_at(s: Seq<TableRecord>, k: (int, int))
    ensures run(s, k) <= s.len(), forall|i: int| 0 <= i < run(s, k) ==> rkey(#[trigger] s[i]) == k, run(s, k) == s.len() || rkey(s[run(s, k) as int]) != k,
    decreases s.len(),
{
    if s.len() > 0 && rkey(s[0]) == k {
        lemma_run_at(s.skip(1), k);
        assert forall|i: int| 0 <= i < run(s, k) implies rkey(#[trigger] s[i]) == k by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
/// rows in the order of the parents (tables are sorted by their primary key, which starts with id and version)
pub open spec fn sorted_rows(s: Seq<TableRecord>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> rkey(s[i]) == rkey(s[j]) || klt(#[trigger] rkey(s[i]), #[trigger] rkey(s[j])) }
/// parents have distinct keys
pub open spec fn sorted_parents(s: Seq<TableRecord>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> klt(#[trigger] rkey(s[i]), #[trigger] rkey(s[j])) }
/// every row belongs to some parent
pub open spec fn has_parent(ps: Seq<TableRecord>, c: TableRecord) -> bool { exists|j: int| 0 <= j < ps.len() && rkey(#[trigger] ps[j]) == rkey(c) }
pub open spec fn no_orphans(ps: Seq<TableRecord>, cs: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < cs.len() ==> has_parent(ps, #[trigger] cs[i]) }
/// exactly the rows of `k`, in table order
pub open spec fn own(cs: Seq<TableRecord>, k: (int, int)) -> Seq<TableRecord> { cs.filter(|r: TableRecord| rkey(r) == k) }
/// rows of the first n parents
pub open spec fn upto(ps: Seq<TableRecord>, cs: Seq<TableRecord>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { upto(ps, cs, n - 1) + run(cs.skip(upto(ps, cs, n - 1)), rkey(ps[n - 1])) } }
pub proof fn lemma_none(s: Seq<TableRecord>, k: (int, int))
    requires forall|i: int| 0 <= i < s.len() ==> rkey(#[trigger] s[i]) != k,
    ensures own(s, k) == Seq::<TableRecord>::empty(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies rkey(#[trigger] s.drop_last()[i]) != k by { assert(s.drop_last()[i] == s[i]); } lemma_none(s.drop_last(), k); }
}
pub proof fn lemma_all(s: Seq<TableRecord>, k: (int, int))
    requires forall|i: int| 0 <= i < s.len() ==> rkey(#[trigger] s[i]) == k,
    ensures own(s, k) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies rkey(#[trigger] s.drop_last()[i]) == k by { assert(s.drop_last()[i] == s[i]); }
        lemma_all(s.drop_last(), k);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(own(s, k) =~= s); }
}
/// the merge join: the rows the n-th parent gets are exactly its own
pub proof fn lemma_join(ps: Seq<TableRecord>, cs: Seq<TableRecord>, n: int)
    requires sorted_parents(ps), sorted_rows(cs), no_orphans(ps, cs), 0 <= n <= ps.len(),
    ensures
        0 <= upto(ps, cs, n) <= cs.len(),
        // the rows before belong to earlier parents, the rows after to later ones
        forall|i: int| 0 <= i < upto(ps, cs, n) ==> n > 0 && (rkey(#[trigger] cs[i]) == rkey(ps[n - 1]) || klt(rkey(cs[i]), rkey(ps[n - 1]))),
        forall|i: int| upto(ps, cs, n) <= i < cs.len() ==> n == 0 || klt(rkey(ps[n - 1]), rkey(#[trigger] cs[i])),
        n > 0 ==> cs.subrange(upto(ps, cs, n - 1), upto(ps, cs, n)) == own(cs, rkey(ps[n - 1])),
    decreases n,
{
    if n > 0 {
        lemma_join(ps, cs, n - 1);
        let a = upto(ps, cs, n - 1);
        let k = rkey(ps[n - 1]);
        let t = cs.skip(a);
        let m = run(t, k) as int;
        lemma_run_at(t, k);
        let b = a + m;
        assert(b == upto(ps, cs, n));
        assert forall|i: int| a <= i < b implies rkey(#[trigger] cs[i]) == k by { assert(cs[i] == t[i - a]); }
        // a row not yet given out belongs to this parent or to a later one
        assert forall|i: int| a <= i < cs.len() implies rkey(#[trigger] cs[i]) == k || klt(k, rkey(cs[i])) by {
            assert(has_parent(ps, cs[i]));
            let j = choose|j: int| 0 <= j < ps.len() && rkey(#[trigger] ps[j]) == rkey(cs[i]);
            if j < n - 1 {
                assert(n - 1 > 0 && klt(rkey(ps[n - 2]), rkey(cs[i])));
                if j < n - 2 { assert(klt(rkey(ps[j]), rkey(ps[n - 2]))); }
            } else if j > n - 1 { assert(klt(rkey(ps[n - 1]), rkey(ps[j]))); }
        }
        assert forall|i: int| b <= i < cs.len() implies klt(k, rkey(#[trigger] cs[i])) by {
            if rkey(cs[i]) == k {
                assert(cs[b] == t[m]);
                assert(rkey(cs[b]) != k);
                assert(rkey(cs[b]) == rkey(cs[i]) || klt(rkey(cs[b]), rkey(cs[i])));
            }
        }
        assert forall|i: int| 0 <= i < b implies rkey(#[trigger] cs[i]) == k || klt(rkey(cs[i]), k) by {
            if i < a { if n >= 2 { assert(klt(rkey(ps[n - 2]), rkey(ps[n - 1]))); } }
        }
        let (x, y, z) = (cs.subrange(0, a), cs.subrange(a, b), cs.subrange(b, cs.len() as int));
        assert(cs =~= x + y + z);
        assert forall|i: int| 0 <= i < x.len() implies rkey(#[trigger] x[i]) != k by {
            assert(x[i] == cs[i]);
            if n >= 2 { assert(klt(rkey(ps[n - 2]), rkey(ps[n - 1]))); }
        }
        assert forall|i: int| 0 <= i < y.len() implies rkey(#[trigger] y[i]) == k by { assert(y[i] == cs[a + i]); }
        assert forall|i: int| 0 <= i < z.len() implies rkey(#[trigger] z[i]) != k by { assert(z[i] == cs[b + i]); }
        lemma_none(x, k);
        lemma_all(y, k);
        lemma_none(z, k);
        let p = |r: TableRecord| rkey(r) == k;
        Seq::filter_distributes_over_add(x + y, z, p);
        Seq::filter_distributes_over_add(x, y, p);
        assert(x + y + z == (x + y) + z);
        assert(own(cs, k) =~= y);
    }
}
/// the same rows leave nothing behind after the last parent
pub proof fn lemma_join_end(ps: Seq<TableRecord>, cs: Seq<TableRecord>)
    requires sorted_parents(ps), sorted_rows(cs), no_orphans(ps, cs),
    ensures upto(ps, cs, ps.len() as int) == cs.len(),
{
    lemma_join(ps, cs, ps.len() as int);
    let a = upto(ps, cs, ps.len() as int);
    if a < cs.len() {
        assert(has_parent(ps, cs[a]));
        let j = choose|j: int| 0 <= j < ps.len() && rkey(#[trigger] ps[j]) == rkey(cs[a]);
        assert(klt(rkey(ps[ps.len() - 1]), rkey(cs[a])));
        if j < ps.len() - 1 { assert(klt(rkey(ps[j]), rkey(ps[ps.len() - 1]))); }
    }
}
}

verus! {
// ---- Node
//@ type src/osm/apidb_dump/read/node_relations_reader.rs NodeRelationsIterator
pub open spec fn node_tag_records(s: Seq<TableRecord>) -> Seq<NodeTagRecord> { Seq::new(s.len(), |i: int| s[i]->node_tag_record) }
pub open spec fn only_node_tag_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is NodeTag }
pub open spec fn only_node_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Node }
impl NodeRelationsIterator {
    pub open spec fn parents(self) -> Seq<TableRecord> { self.nodes_iterator.rem() }
    /// rows not given out yet: the one read ahead and the rest of the table
    pub open spec fn tags_left(self) -> Seq<TableRecord> { match self.next_node_tag_record { None => self.node_tags_iterator.rem(), Some(x) => seq![TableRecord::NodeTag { node_tag_record: x }] + self.node_tags_iterator.rem() } }
    pub open spec fn wf(self) -> bool { self.nodes_iterator.wf() && self.node_tags_iterator.wf() && only_node_record(self.parents()) && only_node_tag_record(self.tags_left()) }
}
//@ type src/osm/apidb_dump/read/node_relations_reader.rs NodeRelationsReader
impl Clone for NodeRelationsReader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ fn src/osm/apidb_dump/read/node_relations_reader.rs NodeRelationsReader::new ret=r
    ensures r.is_ok(), r->Ok_0.nodes_reader.table_def == *nodes_def, r->Ok_0.node_tags_reader.table_def == *node_tags_def,
//@ end
impl NodeRelationsReader {
    pub open spec fn valid(self) -> bool { self.nodes_reader.table_def.valid() && self.nodes_reader.table_def.fields is Nodes && self.node_tags_reader.table_def.valid() && self.node_tags_reader.table_def.fields is NodeTags }
}
//@ fn src/osm/apidb_dump/read/node_relations_reader.rs NodeRelationsIterator::new ret=r diverge
    requires node_relations_reader.valid(),
    ensures r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.parents() == node_relations_reader.nodes_reader.table_def.records() && r->Ok_0.tags_left() == node_relations_reader.node_tags_reader.table_def.records(),
//@ start:
    proof { lemma_kind(node_relations_reader.nodes_reader.table_def.fields, node_relations_reader.nodes_reader.table_def.data()); }
    proof { lemma_kind(node_relations_reader.node_tags_reader.table_def.fields, node_relations_reader.node_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/node_relations_reader.rs IntoIterator@NodeRelationsReader::into_iter ret=r diverge
    requires self.valid(),
    ensures r.wf() && r.parents() == self.nodes_reader.table_def.records() && r.tags_left() == self.node_tags_reader.table_def.records(),
//@ start:
    proof { lemma_kind(self.nodes_reader.table_def.fields, self.nodes_reader.table_def.data()); }
    proof { lemma_kind(self.node_tags_reader.table_def.fields, self.node_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/node_relations_reader.rs Iterator@NodeRelationsIterator::next ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).parents().len() == 0 ==> r is None && final(self).parents() == old(self).parents() && final(self).tags_left() == old(self).tags_left(),
        old(self).parents().len() > 0 ==> r is Some && final(self).parents() == old(self).parents().skip(1) && r->0.node == old(self).parents()[0]->node_record,
        old(self).parents().len() > 0 ==> ({
            let cs = old(self).tags_left();
            let n = run(cs, rkey(old(self).parents()[0])) as int;
            n <= cs.len() && r->0.tags@ == node_tag_records(cs.take(n)) && final(self).tags_left() == cs.skip(n)
        }),
//@ start:
    proof { lemma_run_at(self.tags_left(), rkey(self.parents()[0])); }
    let ghost o = *self;
    let ghost k = rkey(o.parents()[0]);
//@ beforeloop 0:
    let ghost m0 = *self;
    proof { assert(o.tags_left().skip(1) =~= self.node_tags_iterator.rem()); assert(o.tags_left()[0] == TableRecord::NodeTag { node_tag_record: current_node_tags@[0] }); }
//@ loop 0:
    invariant_except_break
        self.next_node_tag_record is None, self.node_tags_iterator.rem() == o.tags_left().skip(current_node_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), node_record == o.parents()[0]->node_record, self.nodes_iterator.wf(), self.node_tags_iterator.wf(), self.nodes_iterator.rem() == o.parents().skip(1), 
        current_node_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_node_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_node_tags@[i] == o.tags_left()[i]->node_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_node_tags@.len() as int), current_node_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_node_tags@.len() as int]) != k,
    decreases self.node_tags_iterator.rem().len(),
//@ loopstart 0:
    let ghost b = *self;
    proof { if b.node_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_node_tags@.len() as int] == b.node_tags_iterator.rem()[0]); assert(seq![b.node_tags_iterator.rem()[0]] + b.node_tags_iterator.rem().skip(1) =~= b.node_tags_iterator.rem()); assert(b.node_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_node_tags@.len() as int + 1)); assert(o.tags_left()[current_node_tags@.len() as int] is NodeTag); } }
//@ afterloop 0:
    proof { lemma_run(o.tags_left(), k, current_node_tags@.len() as int); assert(current_node_tags@ =~= node_tag_records(o.tags_left().take(current_node_tags@.len() as int))); }
//@ beforeloop 1:
    let ghost m1 = *self;
    proof { assert(o.tags_left().skip(0) =~= self.node_tags_iterator.rem()); }
//@ loop 1:
    invariant_except_break
        self.next_node_tag_record is None, self.node_tags_iterator.rem() == o.tags_left().skip(current_node_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), node_record == o.parents()[0]->node_record, self.nodes_iterator.wf(), self.node_tags_iterator.wf(), self.nodes_iterator.rem() == o.parents().skip(1), 
        current_node_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_node_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_node_tags@[i] == o.tags_left()[i]->node_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_node_tags@.len() as int), current_node_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_node_tags@.len() as int]) != k,
    decreases self.node_tags_iterator.rem().len(),
//@ loopstart 1:
    let ghost b = *self;
    proof { if b.node_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_node_tags@.len() as int] == b.node_tags_iterator.rem()[0]); assert(seq![b.node_tags_iterator.rem()[0]] + b.node_tags_iterator.rem().skip(1) =~= b.node_tags_iterator.rem()); assert(b.node_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_node_tags@.len() as int + 1)); assert(o.tags_left()[current_node_tags@.len() as int] is NodeTag); } }
//@ afterloop 1:
    proof { lemma_run(o.tags_left(), k, current_node_tags@.len() as int); assert(current_node_tags@ =~= node_tag_records(o.tags_left().take(current_node_tags@.len() as int))); }
//@ end
// ---- Way
//@ type src/osm/apidb_dump/read/way_relations_reader.rs WayRelationsIterator
pub open spec fn way_tag_records(s: Seq<TableRecord>) -> Seq<WayTagRecord> { Seq::new(s.len(), |i: int| s[i]->way_tag_record) }
pub open spec fn only_way_tag_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is WayTag }
pub open spec fn way_node_records(s: Seq<TableRecord>) -> Seq<WayNodeRecord> { Seq::new(s.len(), |i: int| s[i]->way_node_record) }
pub open spec fn only_way_node_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is WayNode }
pub open spec fn only_way_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Way }
impl WayRelationsIterator {
    pub open spec fn parents(self) -> Seq<TableRecord> { self.ways_iterator.rem() }
    /// rows not given out yet: the one read ahead and the rest of the table
    pub open spec fn tags_left(self) -> Seq<TableRecord> { match self.next_way_tag_record { None => self.way_tags_iterator.rem(), Some(x) => seq![TableRecord::WayTag { way_tag_record: x }] + self.way_tags_iterator.rem() } }
    /// rows not given out yet: the one read ahead and the rest of the table
    pub open spec fn nodes_left(self) -> Seq<TableRecord> { match self.next_way_node_record { None => self.way_nodes_iterator.rem(), Some(x) => seq![TableRecord::WayNode { way_node_record: x }] + self.way_nodes_iterator.rem() } }
    pub open spec fn wf(self) -> bool { self.ways_iterator.wf() && self.way_tags_iterator.wf() && self.way_nodes_iterator.wf() && only_way_record(self.parents()) && only_way_tag_record(self.tags_left()) && only_way_node_record(self.nodes_left()) }
}
//@ type src/osm/apidb_dump/read/way_relations_reader.rs WayRelationsReader
impl Clone for WayRelationsReader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ fn src/osm/apidb_dump/read/way_relations_reader.rs WayRelationsReader::new ret=r
    ensures r.is_ok(), r->Ok_0.ways_reader.table_def == *ways_def, r->Ok_0.way_nodes_reader.table_def == *way_nodes_def, r->Ok_0.way_tags_reader.table_def == *way_tags_def,
//@ end
impl WayRelationsReader {
    pub open spec fn valid(self) -> bool { self.ways_reader.table_def.valid() && self.ways_reader.table_def.fields is Ways && self.way_nodes_reader.table_def.valid() && self.way_nodes_reader.table_def.fields is WayNodes && self.way_tags_reader.table_def.valid() && self.way_tags_reader.table_def.fields is WayTags }
}
//@ fn src/osm/apidb_dump/read/way_relations_reader.rs WayRelationsIterator::new ret=r diverge
    requires way_relations_reader.valid(),
    ensures r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.parents() == way_relations_reader.ways_reader.table_def.records() && r->Ok_0.tags_left() == way_relations_reader.way_tags_reader.table_def.records() && r->Ok_0.nodes_left() == way_relations_reader.way_nodes_reader.table_def.records(),
//@ start:
    proof { lemma_kind(way_relations_reader.ways_reader.table_def.fields, way_relations_reader.ways_reader.table_def.data()); }
    proof { lemma_kind(way_relations_reader.way_nodes_reader.table_def.fields, way_relations_reader.way_nodes_reader.table_def.data()); }
    proof { lemma_kind(way_relations_reader.way_tags_reader.table_def.fields, way_relations_reader.way_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/way_relations_reader.rs IntoIterator@WayRelationsReader::into_iter ret=r diverge
    requires self.valid(),
    ensures r.wf() && r.parents() == self.ways_reader.table_def.records() && r.tags_left() == self.way_tags_reader.table_def.records() && r.nodes_left() == self.way_nodes_reader.table_def.records(),
//@ start:
    proof { lemma_kind(self.ways_reader.table_def.fields, self.ways_reader.table_def.data()); }
    proof { lemma_kind(self.way_nodes_reader.table_def.fields, self.way_nodes_reader.table_def.data()); }
    proof { lemma_kind(self.way_tags_reader.table_def.fields, self.way_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/way_relations_reader.rs Iterator@WayRelationsIterator::next ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).parents().len() == 0 ==> r is None && final(self).parents() == old(self).parents() && final(self).tags_left() == old(self).tags_left() && final(self).nodes_left() == old(self).nodes_left(),
        old(self).parents().len() > 0 ==> r is Some && final(self).parents() == old(self).parents().skip(1) && r->0.way == old(self).parents()[0]->way_record,
        old(self).parents().len() > 0 ==> ({
            let cs = old(self).tags_left();
            let n = run(cs, rkey(old(self).parents()[0])) as int;
            n <= cs.len() && r->0.tags@ == way_tag_records(cs.take(n)) && final(self).tags_left() == cs.skip(n)
        }),
        old(self).parents().len() > 0 ==> ({
            let cs = old(self).nodes_left();
            let n = run(cs, rkey(old(self).parents()[0])) as int;
            n <= cs.len() && r->0.way_nodes@ == way_node_records(cs.take(n)) && final(self).nodes_left() == cs.skip(n)
        }),
//@ start:
    proof { lemma_run_at(self.tags_left(), rkey(self.parents()[0])); }
    proof { lemma_run_at(self.nodes_left(), rkey(self.parents()[0])); }
    let ghost o = *self;
    let ghost k = rkey(o.parents()[0]);
//@ beforeloop 0:
    let ghost m0 = *self;
    proof { assert(o.tags_left().skip(1) =~= self.way_tags_iterator.rem()); assert(o.tags_left()[0] == TableRecord::WayTag { way_tag_record: current_way_tags@[0] }); }
//@ loop 0:
    invariant_except_break
        self.next_way_tag_record is None, self.way_tags_iterator.rem() == o.tags_left().skip(current_way_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), way_record == o.parents()[0]->way_record, self.ways_iterator.wf(), self.way_tags_iterator.wf(), self.ways_iterator.rem() == o.parents().skip(1), self.way_nodes_iterator == m0.way_nodes_iterator, self.way_nodes_iterator.wf(), self.next_way_node_record == m0.next_way_node_record, 
        current_way_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_way_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_way_tags@[i] == o.tags_left()[i]->way_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_way_tags@.len() as int), current_way_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_way_tags@.len() as int]) != k,
    decreases self.way_tags_iterator.rem().len(),
//@ loopstart 0:
    let ghost b = *self;
    proof { if b.way_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_way_tags@.len() as int] == b.way_tags_iterator.rem()[0]); assert(seq![b.way_tags_iterator.rem()[0]] + b.way_tags_iterator.rem().skip(1) =~= b.way_tags_iterator.rem()); assert(b.way_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_way_tags@.len() as int + 1)); assert(o.tags_left()[current_way_tags@.len() as int] is WayTag); } }
//@ afterloop 0:
    proof { lemma_run(o.tags_left(), k, current_way_tags@.len() as int); assert(current_way_tags@ =~= way_tag_records(o.tags_left().take(current_way_tags@.len() as int))); }
//@ beforeloop 1:
    let ghost m1 = *self;
    proof { assert(o.tags_left().skip(0) =~= self.way_tags_iterator.rem()); }
//@ loop 1:
    invariant_except_break
        self.next_way_tag_record is None, self.way_tags_iterator.rem() == o.tags_left().skip(current_way_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), way_record == o.parents()[0]->way_record, self.ways_iterator.wf(), self.way_tags_iterator.wf(), self.ways_iterator.rem() == o.parents().skip(1), self.way_nodes_iterator == m1.way_nodes_iterator, self.way_nodes_iterator.wf(), self.next_way_node_record == m1.next_way_node_record, 
        current_way_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_way_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_way_tags@[i] == o.tags_left()[i]->way_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_way_tags@.len() as int), current_way_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_way_tags@.len() as int]) != k,
    decreases self.way_tags_iterator.rem().len(),
//@ loopstart 1:
    let ghost b = *self;
    proof { if b.way_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_way_tags@.len() as int] == b.way_tags_iterator.rem()[0]); assert(seq![b.way_tags_iterator.rem()[0]] + b.way_tags_iterator.rem().skip(1) =~= b.way_tags_iterator.rem()); assert(b.way_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_way_tags@.len() as int + 1)); assert(o.tags_left()[current_way_tags@.len() as int] is WayTag); } }
//@ afterloop 1:
    proof { lemma_run(o.tags_left(), k, current_way_tags@.len() as int); assert(current_way_tags@ =~= way_tag_records(o.tags_left().take(current_way_tags@.len() as int))); }
//@ beforeloop 2:
    let ghost m2 = *self;
    proof { assert(o.nodes_left().skip(1) =~= self.way_nodes_iterator.rem()); assert(o.nodes_left()[0] == TableRecord::WayNode { way_node_record: current_way_nodes@[0] }); }
//@ loop 2:
    invariant_except_break
        self.next_way_node_record is None, self.way_nodes_iterator.rem() == o.nodes_left().skip(current_way_nodes@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), way_record == o.parents()[0]->way_record, self.ways_iterator.wf(), self.way_nodes_iterator.wf(), self.ways_iterator.rem() == o.parents().skip(1), self.way_tags_iterator == m2.way_tags_iterator, self.way_tags_iterator.wf(), self.next_way_tag_record == m2.next_way_tag_record, 
        current_way_nodes@.len() <= o.nodes_left().len(), forall|i: int| 0 <= i < current_way_nodes@.len() ==> rkey(#[trigger] o.nodes_left()[i]) == k && current_way_nodes@[i] == o.nodes_left()[i]->way_node_record,
    ensures
        self.nodes_left() == o.nodes_left().skip(current_way_nodes@.len() as int), current_way_nodes@.len() == o.nodes_left().len() || rkey(o.nodes_left()[current_way_nodes@.len() as int]) != k,
    decreases self.way_nodes_iterator.rem().len(),
//@ loopstart 2:
    let ghost b = *self;
    proof { if b.way_nodes_iterator.rem().len() > 0 { assert(o.nodes_left()[current_way_nodes@.len() as int] == b.way_nodes_iterator.rem()[0]); assert(seq![b.way_nodes_iterator.rem()[0]] + b.way_nodes_iterator.rem().skip(1) =~= b.way_nodes_iterator.rem()); assert(b.way_nodes_iterator.rem().skip(1) =~= o.nodes_left().skip(current_way_nodes@.len() as int + 1)); assert(o.nodes_left()[current_way_nodes@.len() as int] is WayNode); } }
//@ afterloop 2:
    proof { lemma_run(o.nodes_left(), k, current_way_nodes@.len() as int); assert(current_way_nodes@ =~= way_node_records(o.nodes_left().take(current_way_nodes@.len() as int))); }
//@ beforeloop 3:
    let ghost m3 = *self;
    proof { assert(o.nodes_left().skip(0) =~= self.way_nodes_iterator.rem()); }
//@ loop 3:
    invariant_except_break
        self.next_way_node_record is None, self.way_nodes_iterator.rem() == o.nodes_left().skip(current_way_nodes@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), way_record == o.parents()[0]->way_record, self.ways_iterator.wf(), self.way_nodes_iterator.wf(), self.ways_iterator.rem() == o.parents().skip(1), self.way_tags_iterator == m3.way_tags_iterator, self.way_tags_iterator.wf(), self.next_way_tag_record == m3.next_way_tag_record, 
        current_way_nodes@.len() <= o.nodes_left().len(), forall|i: int| 0 <= i < current_way_nodes@.len() ==> rkey(#[trigger] o.nodes_left()[i]) == k && current_way_nodes@[i] == o.nodes_left()[i]->way_node_record,
    ensures
        self.nodes_left() == o.nodes_left().skip(current_way_nodes@.len() as int), current_way_nodes@.len() == o.nodes_left().len() || rkey(o.nodes_left()[current_way_nodes@.len() as int]) != k,
    decreases self.way_nodes_iterator.rem().len(),
//@ loopstart 3:
    let ghost b = *self;
    proof { if b.way_nodes_iterator.rem().len() > 0 { assert(o.nodes_left()[current_way_nodes@.len() as int] == b.way_nodes_iterator.rem()[0]); assert(seq![b.way_nodes_iterator.rem()[0]] + b.way_nodes_iterator.rem().skip(1) =~= b.way_nodes_iterator.rem()); assert(b.way_nodes_iterator.rem().skip(1) =~= o.nodes_left().skip(current_way_nodes@.len() as int + 1)); assert(o.nodes_left()[current_way_nodes@.len() as int] is WayNode); } }
//@ afterloop 3:
    proof { lemma_run(o.nodes_left(), k, current_way_nodes@.len() as int); assert(current_way_nodes@ =~= way_node_records(o.nodes_left().take(current_way_nodes@.len() as int))); }
//@ end
// ---- Relation
//@ type src/osm/apidb_dump/read/relation_relations_reader.rs RelationRelationsIterator
pub open spec fn relation_tag_records(s: Seq<TableRecord>) -> Seq<RelationTagRecord> { Seq::new(s.len(), |i: int| s[i]->relation_tag_record) }
pub open spec fn only_relation_tag_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is RelationTag }
pub open spec fn relation_member_records(s: Seq<TableRecord>) -> Seq<RelationMemberRecord> { Seq::new(s.len(), |i: int| s[i]->relation_member_record) }
pub open spec fn only_relation_member_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is RelationMember }
pub open spec fn only_relation_record(s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Relation }
impl RelationRelationsIterator {
    pub open spec fn parents(self) -> Seq<TableRecord> { self.relations_iterator.rem() }
    /// rows not given out yet: the one read ahead and the rest of the table
    pub open spec fn tags_left(self) -> Seq<TableRecord> { match self.next_relation_tag_record { None => self.relation_tags_iterator.rem(), Some(x) => seq![TableRecord::RelationTag { relation_tag_record: x }] + self.relation_tags_iterator.rem() } }
    /// rows not given out yet: the one read ahead and the rest of the table
    pub open spec fn members_left(self) -> Seq<TableRecord> { match self.next_relation_member_record { None => self.relation_members_iterator.rem(), Some(x) => seq![TableRecord::RelationMember { relation_member_record: x }] + self.relation_members_iterator.rem() } }
    pub open spec fn wf(self) -> bool { self.relations_iterator.wf() && self.relation_tags_iterator.wf() && self.relation_members_iterator.wf() && only_relation_record(self.parents()) && only_relation_tag_record(self.tags_left()) && only_relation_member_record(self.members_left()) }
}
//@ type src/osm/apidb_dump/read/relation_relations_reader.rs RelationRelationsReader
impl Clone for RelationRelationsReader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ fn src/osm/apidb_dump/read/relation_relations_reader.rs RelationRelationsReader::new ret=r
    ensures r.is_ok(), r->Ok_0.relations_reader.table_def == *relations_def, r->Ok_0.relation_members_reader.table_def == *relation_members_def, r->Ok_0.relation_tags_reader.table_def == *relation_tags_def,
//@ end
impl RelationRelationsReader {
    pub open spec fn valid(self) -> bool { self.relations_reader.table_def.valid() && self.relations_reader.table_def.fields is Relations && self.relation_members_reader.table_def.valid() && self.relation_members_reader.table_def.fields is RelationMembers && self.relation_tags_reader.table_def.valid() && self.relation_tags_reader.table_def.fields is RelationTags }
}
//@ fn src/osm/apidb_dump/read/relation_relations_reader.rs RelationRelationsIterator::new ret=r diverge
    requires relation_relations_reader.valid(),
    ensures r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.parents() == relation_relations_reader.relations_reader.table_def.records() && r->Ok_0.tags_left() == relation_relations_reader.relation_tags_reader.table_def.records() && r->Ok_0.members_left() == relation_relations_reader.relation_members_reader.table_def.records(),
//@ start:
    proof { lemma_kind(relation_relations_reader.relations_reader.table_def.fields, relation_relations_reader.relations_reader.table_def.data()); }
    proof { lemma_kind(relation_relations_reader.relation_members_reader.table_def.fields, relation_relations_reader.relation_members_reader.table_def.data()); }
    proof { lemma_kind(relation_relations_reader.relation_tags_reader.table_def.fields, relation_relations_reader.relation_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/relation_relations_reader.rs IntoIterator@RelationRelationsReader::into_iter ret=r diverge
    requires self.valid(),
    ensures r.wf() && r.parents() == self.relations_reader.table_def.records() && r.tags_left() == self.relation_tags_reader.table_def.records() && r.members_left() == self.relation_members_reader.table_def.records(),
//@ start:
    proof { lemma_kind(self.relations_reader.table_def.fields, self.relations_reader.table_def.data()); }
    proof { lemma_kind(self.relation_members_reader.table_def.fields, self.relation_members_reader.table_def.data()); }
    proof { lemma_kind(self.relation_tags_reader.table_def.fields, self.relation_tags_reader.table_def.data()); }
//@ end
//@ fn src/osm/apidb_dump/read/relation_relations_reader.rs Iterator@RelationRelationsIterator::next ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).parents().len() == 0 ==> r is None && final(self).parents() == old(self).parents() && final(self).tags_left() == old(self).tags_left() && final(self).members_left() == old(self).members_left(),
        old(self).parents().len() > 0 ==> r is Some && final(self).parents() == old(self).parents().skip(1) && r->0.relation == old(self).parents()[0]->relation_record,
        old(self).parents().len() > 0 ==> ({
            let cs = old(self).tags_left();
            let n = run(cs, rkey(old(self).parents()[0])) as int;
            n <= cs.len() && r->0.tags@ == relation_tag_records(cs.take(n)) && final(self).tags_left() == cs.skip(n)
        }),
        old(self).parents().len() > 0 ==> ({
            let cs = old(self).members_left();
            let n = run(cs, rkey(old(self).parents()[0])) as int;
            n <= cs.len() && r->0.relation_members@ == relation_member_records(cs.take(n)) && final(self).members_left() == cs.skip(n)
        }),
//@ start:
    proof { lemma_run_at(self.tags_left(), rkey(self.parents()[0])); }
    proof { lemma_run_at(self.members_left(), rkey(self.parents()[0])); }
    let ghost o = *self;
    let ghost k = rkey(o.parents()[0]);
//@ beforeloop 0:
    let ghost m0 = *self;
    proof { assert(o.tags_left().skip(1) =~= self.relation_tags_iterator.rem()); assert(o.tags_left()[0] == TableRecord::RelationTag { relation_tag_record: current_relation_tags@[0] }); }
//@ loop 0:
    invariant_except_break
        self.next_relation_tag_record is None, self.relation_tags_iterator.rem() == o.tags_left().skip(current_relation_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), relation_record == o.parents()[0]->relation_record, self.relations_iterator.wf(), self.relation_tags_iterator.wf(), self.relations_iterator.rem() == o.parents().skip(1), self.relation_members_iterator == m0.relation_members_iterator, self.relation_members_iterator.wf(), self.next_relation_member_record == m0.next_relation_member_record, 
        current_relation_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_relation_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_relation_tags@[i] == o.tags_left()[i]->relation_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_relation_tags@.len() as int), current_relation_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_relation_tags@.len() as int]) != k,
    decreases self.relation_tags_iterator.rem().len(),
//@ loopstart 0:
    let ghost b = *self;
    proof { if b.relation_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_relation_tags@.len() as int] == b.relation_tags_iterator.rem()[0]); assert(seq![b.relation_tags_iterator.rem()[0]] + b.relation_tags_iterator.rem().skip(1) =~= b.relation_tags_iterator.rem()); assert(b.relation_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_relation_tags@.len() as int + 1)); assert(o.tags_left()[current_relation_tags@.len() as int] is RelationTag); } }
//@ afterloop 0:
    proof { lemma_run(o.tags_left(), k, current_relation_tags@.len() as int); assert(current_relation_tags@ =~= relation_tag_records(o.tags_left().take(current_relation_tags@.len() as int))); }
//@ beforeloop 1:
    let ghost m1 = *self;
    proof { assert(o.tags_left().skip(0) =~= self.relation_tags_iterator.rem()); }
//@ loop 1:
    invariant_except_break
        self.next_relation_tag_record is None, self.relation_tags_iterator.rem() == o.tags_left().skip(current_relation_tags@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), relation_record == o.parents()[0]->relation_record, self.relations_iterator.wf(), self.relation_tags_iterator.wf(), self.relations_iterator.rem() == o.parents().skip(1), self.relation_members_iterator == m1.relation_members_iterator, self.relation_members_iterator.wf(), self.next_relation_member_record == m1.next_relation_member_record, 
        current_relation_tags@.len() <= o.tags_left().len(), forall|i: int| 0 <= i < current_relation_tags@.len() ==> rkey(#[trigger] o.tags_left()[i]) == k && current_relation_tags@[i] == o.tags_left()[i]->relation_tag_record,
    ensures
        self.tags_left() == o.tags_left().skip(current_relation_tags@.len() as int), current_relation_tags@.len() == o.tags_left().len() || rkey(o.tags_left()[current_relation_tags@.len() as int]) != k,
    decreases self.relation_tags_iterator.rem().len(),
//@ loopstart 1:
    let ghost b = *self;
    proof { if b.relation_tags_iterator.rem().len() > 0 { assert(o.tags_left()[current_relation_tags@.len() as int] == b.relation_tags_iterator.rem()[0]); assert(seq![b.relation_tags_iterator.rem()[0]] + b.relation_tags_iterator.rem().skip(1) =~= b.relation_tags_iterator.rem()); assert(b.relation_tags_iterator.rem().skip(1) =~= o.tags_left().skip(current_relation_tags@.len() as int + 1)); assert(o.tags_left()[current_relation_tags@.len() as int] is RelationTag); } }
//@ afterloop 1:
    proof { lemma_run(o.tags_left(), k, current_relation_tags@.len() as int); assert(current_relation_tags@ =~= relation_tag_records(o.tags_left().take(current_relation_tags@.len() as int))); }
//@ beforeloop 2:
    let ghost m2 = *self;
    proof { assert(o.members_left().skip(1) =~= self.relation_members_iterator.rem()); assert(o.members_left()[0] == TableRecord::RelationMember { relation_member_record: current_relation_members@[0] }); }
//@ loop 2:
    invariant_except_break
        self.next_relation_member_record is None, self.relation_members_iterator.rem() == o.members_left().skip(current_relation_members@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), relation_record == o.parents()[0]->relation_record, self.relations_iterator.wf(), self.relation_members_iterator.wf(), self.relations_iterator.rem() == o.parents().skip(1), self.relation_tags_iterator == m2.relation_tags_iterator, self.relation_tags_iterator.wf(), self.next_relation_tag_record == m2.next_relation_tag_record, 
        current_relation_members@.len() <= o.members_left().len(), forall|i: int| 0 <= i < current_relation_members@.len() ==> rkey(#[trigger] o.members_left()[i]) == k && current_relation_members@[i] == o.members_left()[i]->relation_member_record,
    ensures
        self.members_left() == o.members_left().skip(current_relation_members@.len() as int), current_relation_members@.len() == o.members_left().len() || rkey(o.members_left()[current_relation_members@.len() as int]) != k,
    decreases self.relation_members_iterator.rem().len(),
//@ loopstart 2:
    let ghost b = *self;
    proof { if b.relation_members_iterator.rem().len() > 0 { assert(o.members_left()[current_relation_members@.len() as int] == b.relation_members_iterator.rem()[0]); assert(seq![b.relation_members_iterator.rem()[0]] + b.relation_members_iterator.rem().skip(1) =~= b.relation_members_iterator.rem()); assert(b.relation_members_iterator.rem().skip(1) =~= o.members_left().skip(current_relation_members@.len() as int + 1)); assert(o.members_left()[current_relation_members@.len() as int] is RelationMember); } }
//@ afterloop 2:
    proof { lemma_run(o.members_left(), k, current_relation_members@.len() as int); assert(current_relation_members@ =~= relation_member_records(o.members_left().take(current_relation_members@.len() as int))); }
//@ beforeloop 3:
    let ghost m3 = *self;
    proof { assert(o.members_left().skip(0) =~= self.relation_members_iterator.rem()); }
//@ loop 3:
    invariant_except_break
        self.next_relation_member_record is None, self.relation_members_iterator.rem() == o.members_left().skip(current_relation_members@.len() as int),
    invariant
        o.wf(), o.parents().len() > 0, k == rkey(o.parents()[0]), relation_record == o.parents()[0]->relation_record, self.relations_iterator.wf(), self.relation_members_iterator.wf(), self.relations_iterator.rem() == o.parents().skip(1), self.relation_tags_iterator == m3.relation_tags_iterator, self.relation_tags_iterator.wf(), self.next_relation_tag_record == m3.next_relation_tag_record, 
        current_relation_members@.len() <= o.members_left().len(), forall|i: int| 0 <= i < current_relation_members@.len() ==> rkey(#[trigger] o.members_left()[i]) == k && current_relation_members@[i] == o.members_left()[i]->relation_member_record,
    ensures
        self.members_left() == o.members_left().skip(current_relation_members@.len() as int), current_relation_members@.len() == o.members_left().len() || rkey(o.members_left()[current_relation_members@.len() as int]) != k,
    decreases self.relation_members_iterator.rem().len(),
//@ loopstart 3:
    let ghost b = *self;
    proof { if b.relation_members_iterator.rem().len() > 0 { assert(o.members_left()[current_relation_members@.len() as int] == b.relation_members_iterator.rem()[0]); assert(seq![b.relation_members_iterator.rem()[0]] + b.relation_members_iterator.rem().skip(1) =~= b.relation_members_iterator.rem()); assert(b.relation_members_iterator.rem().skip(1) =~= o.members_left().skip(current_relation_members@.len() as int + 1)); assert(o.members_left()[current_relation_members@.len() as int] is RelationMember); } }
//@ afterloop 3:
    proof { lemma_run(o.members_left(), k, current_relation_members@.len() as int); assert(current_relation_members@ =~= relation_member_records(o.members_left().take(current_relation_members@.len() as int))); }
//@ end
}
