//@ rename Error AnyErr
//@ rename ParseError AnyErr
//@ rename NaiveDateTime VTime
//@ rename Field VField
//@ rename PathBuf VPath
//@ rename File VFile
//@ rename BufReader VReader
//@ rename i64::from_str i64_from_str
//@ rename i32::from_str i32_from_str
//@ rename i16::from_str i16_from_str
//@ rename f64::from_str f64_from_str
//@ rename Self::create_node RowFn::create_node
//@ rename Self::create_node_tag RowFn::create_node_tag
//@ rename Self::create_way RowFn::create_way
//@ rename Self::create_way_node RowFn::create_way_node
//@ rename Self::create_way_tag RowFn::create_way_tag
//@ rename Self::create_relation RowFn::create_relation
//@ rename Self::create_relation_member RowFn::create_relation_member
//@ rename Self::create_relation_tag RowFn::create_relation_tag
//@ rename Self::create_changeset RowFn::create_changeset
//@ rename Self::create_user RowFn::create_user
//@ rename BtreeIndex VIndex
//@ rename HashMap VMap
//@ rename relation::MemberData MemberData
//@ rename relation::Member Member
//@ include prelude.vrs
//@ include std.vrs
//@ include esc.vrs
//@ include ieee.vrs
verus! {
broadcast use {ax::group_string_eq, ieee::group_ieee};
}
//@ include tabledef.vrs trusted
//@ include tablekey.vrs trusted
//@ include records.vrs
//@ include rows.vrs trusted
//@ include join.vrs trusted
//@ include model.vrs
//@ include vmap.vrs
verus! {
/// transient_btree_index: a map, with errors only when it is created
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VIndex<K, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
pub struct BtreeConfig { pub x: u8 }
impl BtreeConfig {
    #[verifier::external_body]
    pub fn default() -> BtreeConfig { unimplemented!() }
}
impl<K, V> VIndex<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn with_capacity(c: BtreeConfig, n: usize) -> (r: Result<Self, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Result<Option<V>, AnyErr>)
        ensures r.is_ok(), final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Result<Option<V>, AnyErr>)
        ensures r.is_ok(), r->Ok_0 is Some == self@.contains_key(*k), r->Ok_0 is Some ==> r->Ok_0->0 == self@[*k],
    { unimplemented!() }
}
/// chrono: milliseconds since the epoch, UTC
pub uninterp spec fn millis(t: VTime) -> i64;
pub struct VUtc { pub t: VTime }
impl VTime { pub fn and_utc(&self) -> (r: VUtc) ensures r.t == *self { VUtc { t: *self } } }
impl VUtc {
    #[verifier::external_body]
    pub fn timestamp_millis(&self) -> (r: i64) ensures r == millis(self.t) { unimplemented!() }
}
// ---- who made a change
/// the names of the users, by id (the last row wins)
pub open spec fn user_map(s: Seq<TableRecord>, n: int) -> Map<i64, String>
    decreases n,
{ if n <= 0 { Map::empty() } else { user_map(s, n - 1).insert(s[n - 1]->user_record.id, s[n - 1]->user_record.display_name) } }
/// the users of the changesets, by id
pub open spec fn changeset_map(s: Seq<TableRecord>, n: int) -> Map<i64, i64>
    decreases n,
{ if n <= 0 { Map::empty() } else { changeset_map(s, n - 1).insert(s[n - 1]->changeset_record.id, s[n - 1]->changeset_record.user_id) } }
pub open spec fn users(t: TableDef) -> Map<i64, String> { user_map(t.records(), t.records().len() as int) }
pub open spec fn changesets(t: TableDef) -> Map<i64, i64> { changeset_map(t.records(), t.records().len() as int) }
/// the tables read earlier, each under its name
pub open spec fn tables_ok(t: Map<Seq<char>, TableDef>) -> bool {
    forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> t[k].valid() && t[k].name@ == k
}
pub proof fn lemma_table(t: TableDef)
    requires t.valid(),
    ensures
        t.name@ == "public.nodes"@ ==> t.fields is Nodes,
        t.name@ == "public.node_tags"@ ==> t.fields is NodeTags,
        t.name@ == "public.ways"@ ==> t.fields is Ways,
        t.name@ == "public.way_nodes"@ ==> t.fields is WayNodes,
        t.name@ == "public.way_tags"@ ==> t.fields is WayTags,
        t.name@ == "public.relations"@ ==> t.fields is Relations,
        t.name@ == "public.relation_members"@ ==> t.fields is RelationMembers,
        t.name@ == "public.relation_tags"@ ==> t.fields is RelationTags,
        t.name@ == "public.changesets"@ ==> t.fields is Changesets,
        t.name@ == "public.users"@ ==> t.fields is Users,
{ lemma_names(); let c = choose|c: Seq<String>| #[trigger] t.of(c); assert(fields_ok(t.name@, c, t.fields)); }
//@ fn src/osm/apidb_dump/read/element_iterator.rs ElementIterator::index_users ret=r custominto=0
    requires tables_ok(tables@),
    ensures r.is_ok() ==> tables@.contains_key("public.users"@) && r->Ok_0@ == users(tables@["public.users"@]),
//@ beforeloop 0:
    let ghost t = tables@["public.users"@];
    let ghost s = t.records();
    let ghost mut i: int = 0;
    proof { lemma_table(t); lemma_kind(t.fields, t.data()); assert(s.skip(0) =~= s); }
//@ loop 0:
    invariant_except_break
        0 <= i <= s.len(), iter_0.rem() == s.skip(i), user_index@ == user_map(s, i),
    invariant
        iter_0.wf(), s == t.records(), t == tables@["public.users"@], tables@.contains_key("public.users"@),
        forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is User,
    ensures
        user_index@ == users(t),
    decreases iter_0.rem().len(),
//@ loopstart 0:
    proof { if i < s.len() { assert(s.skip(i)[0] == s[i]); assert(s.skip(i).skip(1) =~= s.skip(i + 1)); i = i + 1; } }
//@ end
//@ fn src/osm/apidb_dump/read/element_iterator.rs ElementIterator::index_changesets ret=r custominto=0
    requires tables_ok(tables@),
    ensures r.is_ok() ==> tables@.contains_key("public.changesets"@) && r->Ok_0@ == changesets(tables@["public.changesets"@]),
//@ beforeloop 0:
    let ghost t = tables@["public.changesets"@];
    let ghost s = t.records();
    let ghost mut i: int = 0;
    proof { lemma_table(t); lemma_kind(t.fields, t.data()); assert(s.skip(0) =~= s); }
//@ loop 0:
    invariant_except_break
        0 <= i <= s.len(), iter_0.rem() == s.skip(i), changeset_user_index@ == changeset_map(s, i),
    invariant
        iter_0.wf(), s == t.records(), t == tables@["public.changesets"@], tables@.contains_key("public.changesets"@),
        forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is Changeset,
    ensures
        changeset_user_index@ == changesets(t),
    decreases iter_0.rem().len(),
//@ loopstart 0:
    proof { if i < s.len() { assert(s.skip(i)[0] == s[i]); assert(s.skip(i).skip(1) =~= s.skip(i + 1)); i = i + 1; } }
//@ end
//@ type src/osm/apidb_dump/read/element_iterator.rs IterationState
//@ type src/osm/apidb_dump/read/element_iterator.rs ElementIterator
/// the changeset of a row
pub open spec fn change(r: TableRecord) -> i64 {
    match r {
        TableRecord::Node { node_record } => node_record.changeset_id,
        TableRecord::Way { way_record } => way_record.changeset_id,
        TableRecord::Relation { relation_record } => relation_record.changeset_id,
        _ => 0,
    }
}
/// the dump is consistent: the changeset and its user are there
pub open spec fn signed(u: Map<i64, String>, c: Map<i64, i64>, r: TableRecord) -> bool { c.contains_key(change(r)) && u.contains_key(c[change(r)]) }
pub open spec fn all_signed(u: Map<i64, String>, c: Map<i64, i64>, s: Seq<TableRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> signed(u, c, #[trigger] s[i]) }
/// degrees
pub open spec fn degrees(x: i32) -> f64 { fdiv(i2f(x as i64), 10000000.0f64) }
/// the tags of a node
pub open spec fn node_tags(t: Seq<NodeTagRecord>) -> Seq<Tag> { Seq::new(t.len(), |i: int| Tag { k: t[i].k, v: t[i].v }) }
/// the node a row and its own rows stand for
pub open spec fn is_node_elem(u: Map<i64, String>, c: Map<i64, i64>, p: NodeRecord, tags: Seq<NodeTagRecord>, e: Element) -> bool {
    e is Node && ({
        let x = e->node;
        &&& x.id == p.node_id && x.version == p.version as i32 && x.timestamp == millis(p.timestamp) && x.changeset == p.changeset_id && x.visible == p.visible && x.coordinate.lat == degrees(p.latitude) && x.coordinate.lon == degrees(p.longitude)
        &&& x.uid == c[p.changeset_id] as i32 && x.user == u[c[p.changeset_id]]
        &&& x.tags@ == node_tags(tags)
    })
}
pub open spec fn way_refs(t: Seq<WayNodeRecord>) -> Seq<i64> { Seq::new(t.len(), |i: int| t[i].node_id) }
/// the tags of a way
pub open spec fn way_tags(t: Seq<WayTagRecord>) -> Seq<Tag> { Seq::new(t.len(), |i: int| Tag { k: t[i].k, v: t[i].v }) }
/// the way a row and its own rows stand for
pub open spec fn is_way_elem(u: Map<i64, String>, c: Map<i64, i64>, p: WayRecord, refs: Seq<WayNodeRecord>, tags: Seq<WayTagRecord>, e: Element) -> bool {
    e is Way && ({
        let x = e->way;
        &&& x.id == p.way_id && x.version == p.version as i32 && x.timestamp == millis(p.timestamp) && x.changeset == p.changeset_id && x.visible == p.visible
        &&& x.uid == c[p.changeset_id] as i32 && x.user == u[c[p.changeset_id]]
        &&& x.refs@ == way_refs(refs) && x.tags@ == way_tags(tags)
    })
}
pub open spec fn relation_member(m: RelationMemberRecord) -> Member {
    match m.member_type {
        RelationMemberType::Node => Member::Node { member: MemberData { id: m.member_id, role: m.member_role } },
        RelationMemberType::Way => Member::Way { member: MemberData { id: m.member_id, role: m.member_role } },
        RelationMemberType::Relation => Member::Relation { member: MemberData { id: m.member_id, role: m.member_role } },
    }
}
pub open spec fn relation_members(t: Seq<RelationMemberRecord>) -> Seq<Member> { Seq::new(t.len(), |i: int| relation_member(t[i])) }
/// the tags of a relation
pub open spec fn relation_tags(t: Seq<RelationTagRecord>) -> Seq<Tag> { Seq::new(t.len(), |i: int| Tag { k: t[i].k, v: t[i].v }) }
/// the relation a row and its own rows stand for
pub open spec fn is_relation_elem(u: Map<i64, String>, c: Map<i64, i64>, p: RelationRecord, members: Seq<RelationMemberRecord>, tags: Seq<RelationTagRecord>, e: Element) -> bool {
    e is Relation && ({
        let x = e->relation;
        &&& x.id == p.relation_id && x.version == p.version as i32 && x.timestamp == millis(p.timestamp) && x.changeset == p.changeset_id && x.visible == p.visible
        &&& x.uid == c[p.changeset_id] as i32 && x.user == u[c[p.changeset_id]]
        &&& x.members@ == relation_members(members) && x.tags@ == relation_tags(tags)
    })
}
impl ElementIterator {
    pub open spec fn wf(self) -> bool {
        &&& self.node_relations_iterator.wf() && self.way_relations_iterator.wf() && self.relation_relations_iterator.wf()
        &&& all_signed(self.user_index@, self.changeset_user_index@, self.node_relations_iterator.parents())
        &&& all_signed(self.user_index@, self.changeset_user_index@, self.way_relations_iterator.parents())
        &&& all_signed(self.user_index@, self.changeset_user_index@, self.relation_relations_iterator.parents())
    }
}
/// the same but for the state
pub open spec fn same_rest(a: ElementIterator, b: ElementIterator) -> bool {
    a.user_index == b.user_index && a.changeset_user_index == b.changeset_user_index
}
/// one step over the nodes
pub open spec fn step_nodes(a: ElementIterator, b: ElementIterator, r: Option<Element>) -> bool {
    let p = a.node_relations_iterator.parents()[0];
    let ntags = run(a.node_relations_iterator.tags_left(), rkey(p)) as int;
    &&& a.way_relations_iterator == b.way_relations_iterator && a.relation_relations_iterator == b.relation_relations_iterator && r is Some
    &&& a.node_relations_iterator.parents().len() == 0 ==> r == Some(Element::Sentinel) && b.iteration_state is Ways && b.node_relations_iterator.parents() == a.node_relations_iterator.parents() && b.node_relations_iterator.tags_left() == a.node_relations_iterator.tags_left()
    &&& a.node_relations_iterator.parents().len() > 0 ==> b.iteration_state is Nodes && is_node_elem(a.user_index@, a.changeset_user_index@, p->node_record, node_tag_records(a.node_relations_iterator.tags_left().take(ntags)), r->0) && b.node_relations_iterator.parents() == a.node_relations_iterator.parents().skip(1) && ntags <= a.node_relations_iterator.tags_left().len() && b.node_relations_iterator.tags_left() == a.node_relations_iterator.tags_left().skip(ntags)
}
/// one step over the ways
pub open spec fn step_ways(a: ElementIterator, b: ElementIterator, r: Option<Element>) -> bool {
    let p = a.way_relations_iterator.parents()[0];
    let nrefs = run(a.way_relations_iterator.nodes_left(), rkey(p)) as int;
    let ntags = run(a.way_relations_iterator.tags_left(), rkey(p)) as int;
    &&& a.node_relations_iterator == b.node_relations_iterator && a.relation_relations_iterator == b.relation_relations_iterator && r is Some
    &&& a.way_relations_iterator.parents().len() == 0 ==> r == Some(Element::Sentinel) && b.iteration_state is Relations && b.way_relations_iterator.parents() == a.way_relations_iterator.parents() && b.way_relations_iterator.nodes_left() == a.way_relations_iterator.nodes_left() && b.way_relations_iterator.tags_left() == a.way_relations_iterator.tags_left()
    &&& a.way_relations_iterator.parents().len() > 0 ==> b.iteration_state is Ways && is_way_elem(a.user_index@, a.changeset_user_index@, p->way_record, way_node_records(a.way_relations_iterator.nodes_left().take(nrefs)), way_tag_records(a.way_relations_iterator.tags_left().take(ntags)), r->0) && b.way_relations_iterator.parents() == a.way_relations_iterator.parents().skip(1) && nrefs <= a.way_relations_iterator.nodes_left().len() && b.way_relations_iterator.nodes_left() == a.way_relations_iterator.nodes_left().skip(nrefs) && ntags <= a.way_relations_iterator.tags_left().len() && b.way_relations_iterator.tags_left() == a.way_relations_iterator.tags_left().skip(ntags)
}
/// one step over the relations
pub open spec fn step_relations(a: ElementIterator, b: ElementIterator, r: Option<Element>) -> bool {
    let p = a.relation_relations_iterator.parents()[0];
    let nmembers = run(a.relation_relations_iterator.members_left(), rkey(p)) as int;
    let ntags = run(a.relation_relations_iterator.tags_left(), rkey(p)) as int;
    &&& a.node_relations_iterator == b.node_relations_iterator && a.way_relations_iterator == b.way_relations_iterator && r is Some
    &&& a.relation_relations_iterator.parents().len() == 0 ==> r == Some(Element::Sentinel) && b.iteration_state is End && b.relation_relations_iterator.parents() == a.relation_relations_iterator.parents() && b.relation_relations_iterator.members_left() == a.relation_relations_iterator.members_left() && b.relation_relations_iterator.tags_left() == a.relation_relations_iterator.tags_left()
    &&& a.relation_relations_iterator.parents().len() > 0 ==> b.iteration_state is Relations && is_relation_elem(a.user_index@, a.changeset_user_index@, p->relation_record, relation_member_records(a.relation_relations_iterator.members_left().take(nmembers)), relation_tag_records(a.relation_relations_iterator.tags_left().take(ntags)), r->0) && b.relation_relations_iterator.parents() == a.relation_relations_iterator.parents().skip(1) && nmembers <= a.relation_relations_iterator.members_left().len() && b.relation_relations_iterator.members_left() == a.relation_relations_iterator.members_left().skip(nmembers) && ntags <= a.relation_relations_iterator.tags_left().len() && b.relation_relations_iterator.tags_left() == a.relation_relations_iterator.tags_left().skip(ntags)
}
//@ fn src/osm/apidb_dump/read/element_iterator.rs Iterator@ElementIterator::next ret=r map_collect
    requires old(self).wf(),
    ensures
        final(self).wf(), same_rest(*old(self), *final(self)),
        old(self).iteration_state is Start || old(self).iteration_state is Nodes ==> step_nodes(*old(self), *final(self), r),
        old(self).iteration_state is Ways ==> step_ways(*old(self), *final(self), r),
        old(self).iteration_state is Relations ==> step_relations(*old(self), *final(self), r),
        old(self).iteration_state is End ==> r is None && *final(self) == *old(self),
    decreases (if old(self).iteration_state is Start { 1int } else { 0int }),
//@ attr:
#[verifier::loop_isolation(false)]
//@ start:
    let ghost o = *self;
    proof {
        assert forall|s: Seq<TableRecord>| all_signed(o.user_index@, o.changeset_user_index@, s) && s.len() > 0 implies all_signed(o.user_index@, o.changeset_user_index@, #[trigger] s.skip(1)) by {
            assert forall|i: int| 0 <= i < s.skip(1).len() implies signed(o.user_index@, o.changeset_user_index@, #[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        }
    }
//@ beforeloop 0:
    let ghost g0 = n.tags@;
//@ loop 0 it0:
    invariant
        it0.seq() == g0, v__@ =~= node_tags(g0).take(it0.index@),
//@ loopstart 0:
    proof { assert(it0.index@ < g0.len()); }
//@ loopend 0:
    proof { assert(node_tags(g0).take(it0.index@ + 1) =~= node_tags(g0).take(it0.index@).push(node_tags(g0)[it0.index@])); }
//@ afterloop 0:
    proof { assert(node_tags(g0).take(g0.len() as int) =~= node_tags(g0)); }
//@ beforeloop 1:
    let ghost g1 = w.way_nodes@;
//@ loop 1 it1:
    invariant
        it1.seq() == g1, v__@ =~= way_refs(g1).take(it1.index@),
//@ loopstart 1:
    proof { assert(it1.index@ < g1.len()); }
//@ loopend 1:
    proof { assert(way_refs(g1).take(it1.index@ + 1) =~= way_refs(g1).take(it1.index@).push(way_refs(g1)[it1.index@])); }
//@ afterloop 1:
    proof { assert(way_refs(g1).take(g1.len() as int) =~= way_refs(g1)); }
//@ beforeloop 2:
    let ghost g2 = w.tags@;
//@ loop 2 it2:
    invariant
        it2.seq() == g2, v__@ =~= way_tags(g2).take(it2.index@),
//@ loopstart 2:
    proof { assert(it2.index@ < g2.len()); }
//@ loopend 2:
    proof { assert(way_tags(g2).take(it2.index@ + 1) =~= way_tags(g2).take(it2.index@).push(way_tags(g2)[it2.index@])); }
//@ afterloop 2:
    proof { assert(way_tags(g2).take(g2.len() as int) =~= way_tags(g2)); }
//@ beforeloop 3:
    let ghost g3 = r.relation_members@;
//@ loop 3 it3:
    invariant
        it3.seq() == g3, v__@ =~= relation_members(g3).take(it3.index@),
//@ loopstart 3:
    proof { assert(it3.index@ < g3.len()); }
//@ loopend 3:
    proof { assert(relation_members(g3).take(it3.index@ + 1) =~= relation_members(g3).take(it3.index@).push(relation_members(g3)[it3.index@])); }
//@ afterloop 3:
    proof { assert(relation_members(g3).take(g3.len() as int) =~= relation_members(g3)); }
//@ beforeloop 4:
    let ghost g4 = r.tags@;
//@ loop 4 it4:
    invariant
        it4.seq() == g4, v__@ =~= relation_tags(g4).take(it4.index@),
//@ loopstart 4:
    proof { assert(it4.index@ < g4.len()); }
//@ loopend 4:
    proof { assert(relation_tags(g4).take(it4.index@ + 1) =~= relation_tags(g4).take(it4.index@).push(relation_tags(g4)[it4.index@])); }
//@ afterloop 4:
    proof { assert(relation_tags(g4).take(g4.len() as int) =~= relation_tags(g4)); }
//@ end
//@ fn src/osm/apidb_dump/read/element_iterator.rs ElementIterator::new ret=r
    requires
        tables_ok(tables@),
        // a consistent dump: every changeset and user referred to is there
        forall|k: Seq<char>| #[trigger] tables@.contains_key(k) ==> all_signed(users(tables@["public.users"@]), changesets(tables@["public.changesets"@]), tables@[k].records()) || !(tables@[k].fields is Nodes || tables@[k].fields is Ways || tables@[k].fields is Relations),
    ensures
        r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.iteration_state is Start,
        r.is_ok() ==> r->Ok_0.user_index@ == users(tables@["public.users"@]) && r->Ok_0.changeset_user_index@ == changesets(tables@["public.changesets"@]),
        r.is_ok() ==> r->Ok_0.node_relations_iterator.parents() == tables@["public.nodes"@].records() && r->Ok_0.node_relations_iterator.tags_left() == tables@["public.node_tags"@].records(),
        r.is_ok() ==> r->Ok_0.way_relations_iterator.parents() == tables@["public.ways"@].records() && r->Ok_0.way_relations_iterator.tags_left() == tables@["public.way_tags"@].records() && r->Ok_0.way_relations_iterator.nodes_left() == tables@["public.way_nodes"@].records(),
        r.is_ok() ==> r->Ok_0.relation_relations_iterator.parents() == tables@["public.relations"@].records() && r->Ok_0.relation_relations_iterator.tags_left() == tables@["public.relation_tags"@].records() && r->Ok_0.relation_relations_iterator.members_left() == tables@["public.relation_members"@].records(),
//@ start:
    proof {
        assert forall|k: Seq<char>| #[trigger] tables@.contains_key(k) implies true by { }
        if tables@.contains_key("public.nodes"@) { lemma_table(tables@["public.nodes"@]); }
        if tables@.contains_key("public.node_tags"@) { lemma_table(tables@["public.node_tags"@]); }
        if tables@.contains_key("public.ways"@) { lemma_table(tables@["public.ways"@]); }
        if tables@.contains_key("public.way_nodes"@) { lemma_table(tables@["public.way_nodes"@]); }
        if tables@.contains_key("public.way_tags"@) { lemma_table(tables@["public.way_tags"@]); }
        if tables@.contains_key("public.relations"@) { lemma_table(tables@["public.relations"@]); }
        if tables@.contains_key("public.relation_members"@) { lemma_table(tables@["public.relation_members"@]); }
        if tables@.contains_key("public.relation_tags"@) { lemma_table(tables@["public.relation_tags"@]); }
        if tables@.contains_key("public.changesets"@) { lemma_table(tables@["public.changesets"@]); }
        if tables@.contains_key("public.users"@) { lemma_table(tables@["public.users"@]); }
    }
//@ end
impl<V> Clone for VMap<String, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ type src/osm/apidb_dump/read/reader.rs Reader
//@ fn src/osm/apidb_dump/read/reader.rs Reader::elements ret=r
    requires
        tables_ok(self.tables@),
        // a consistent dump: every changeset and user referred to is there
        forall|k: Seq<char>| #[trigger] self.tables@.contains_key(k) ==> all_signed(users(self.tables@["public.users"@]), changesets(self.tables@["public.changesets"@]), self.tables@[k].records()) || !(self.tables@[k].fields is Nodes || self.tables@[k].fields is Ways || self.tables@[k].fields is Relations),
    ensures
        r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.iteration_state is Start,
        r.is_ok() ==> r->Ok_0.user_index@ == users(self.tables@["public.users"@]) && r->Ok_0.changeset_user_index@ == changesets(self.tables@["public.changesets"@]),
        r.is_ok() ==> r->Ok_0.node_relations_iterator.parents() == self.tables@["public.nodes"@].records() && r->Ok_0.node_relations_iterator.tags_left() == self.tables@["public.node_tags"@].records(),
        r.is_ok() ==> r->Ok_0.way_relations_iterator.parents() == self.tables@["public.ways"@].records() && r->Ok_0.way_relations_iterator.tags_left() == self.tables@["public.way_tags"@].records() && r->Ok_0.way_relations_iterator.nodes_left() == self.tables@["public.way_nodes"@].records(),
        r.is_ok() ==> r->Ok_0.relation_relations_iterator.parents() == self.tables@["public.relations"@].records() && r->Ok_0.relation_relations_iterator.tags_left() == self.tables@["public.relation_tags"@].records() && r->Ok_0.relation_relations_iterator.members_left() == self.tables@["public.relation_members"@].records(),
//@ end
/// element i of the nodes: row i, with exactly its own rows
pub open spec fn node_at(u: Map<i64, String>, c: Map<i64, i64>, ps: Seq<TableRecord>, tags: Seq<TableRecord>, i: int, e: Element) -> bool {
    is_node_elem(u, c, ps[i]->node_record, node_tag_records(own(tags, rkey(ps[i]))), e)
}
pub exec fn n21_nodes(it: &mut ElementIterator) -> (r: Vec<Element>)
    requires
        old(it).wf(), old(it).iteration_state is Start || old(it).iteration_state is Nodes,
        sorted_parents(old(it).node_relations_iterator.parents()),
        sorted_rows(old(it).node_relations_iterator.tags_left()), no_orphans(old(it).node_relations_iterator.parents(), old(it).node_relations_iterator.tags_left()),
    ensures
        final(it).wf(), same_rest(*old(it), *final(it)), final(it).iteration_state is Ways,
        final(it).way_relations_iterator == old(it).way_relations_iterator, final(it).relation_relations_iterator == old(it).relation_relations_iterator,
        r@.len() == old(it).node_relations_iterator.parents().len() + 1, r@.last() is Sentinel,
        forall|i: int| 0 <= i < r@.len() - 1 ==> node_at(old(it).user_index@, old(it).changeset_user_index@, old(it).node_relations_iterator.parents(), old(it).node_relations_iterator.tags_left(), i, #[trigger] r@[i]),
{
    let ghost o = *it;
    let ghost ps = it.node_relations_iterator.parents();
    let ghost tags = it.node_relations_iterator.tags_left();
    let mut out: Vec<Element> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(tags.skip(0) =~= tags); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.node_relations_iterator.parents() == ps.skip(out@.len() as int), it.iteration_state is Start || it.iteration_state is Nodes,
            0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.node_relations_iterator.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> node_at(o.user_index@, o.changeset_user_index@, ps, tags, i, #[trigger] out@[i]),
        invariant
            it.wf(), same_rest(o, *it), it.way_relations_iterator == o.way_relations_iterator, it.relation_relations_iterator == o.relation_relations_iterator,
            sorted_parents(ps), sorted_rows(tags), no_orphans(ps, tags),
        ensures
            it.iteration_state is Ways, out@.len() == ps.len() + 1, out@.last() is Sentinel,
            forall|i: int| 0 <= i < out@.len() - 1 ==> node_at(o.user_index@, o.changeset_user_index@, ps, tags, i, #[trigger] out@[i]),
        decreases it.node_relations_iterator.parents().len(),
    {
        let ghost n = out@.len() as int;
        let x = it.next();
        match x {
            None => { assert(false); break; }
            Some(e) => {
                let end = e.is_sentinel();
                proof {
                    if n < ps.len() {
                        assert(ps.skip(n)[0] == ps[n]);
                        assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                        lemma_join(ps, tags, n + 1);
                        let a = upto(ps, tags, n);
                        let b = upto(ps, tags, n + 1);
                        assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                        assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                    }
                }
                out.push(e);
                if end { break; }
            }
        }
    }
    out
}
/// element i of the ways: row i, with exactly its own rows
pub open spec fn way_at(u: Map<i64, String>, c: Map<i64, i64>, ps: Seq<TableRecord>, refs: Seq<TableRecord>, tags: Seq<TableRecord>, i: int, e: Element) -> bool {
    is_way_elem(u, c, ps[i]->way_record, way_node_records(own(refs, rkey(ps[i]))), way_tag_records(own(tags, rkey(ps[i]))), e)
}
pub exec fn n21_ways(it: &mut ElementIterator) -> (r: Vec<Element>)
    requires
        old(it).wf(), old(it).iteration_state is Ways,
        sorted_parents(old(it).way_relations_iterator.parents()),
        sorted_rows(old(it).way_relations_iterator.nodes_left()), no_orphans(old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.nodes_left()),
        sorted_rows(old(it).way_relations_iterator.tags_left()), no_orphans(old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.tags_left()),
    ensures
        final(it).wf(), same_rest(*old(it), *final(it)), final(it).iteration_state is Relations,
        final(it).node_relations_iterator == old(it).node_relations_iterator, final(it).relation_relations_iterator == old(it).relation_relations_iterator,
        r@.len() == old(it).way_relations_iterator.parents().len() + 1, r@.last() is Sentinel,
        forall|i: int| 0 <= i < r@.len() - 1 ==> way_at(old(it).user_index@, old(it).changeset_user_index@, old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.nodes_left(), old(it).way_relations_iterator.tags_left(), i, #[trigger] r@[i]),
{
    let ghost o = *it;
    let ghost ps = it.way_relations_iterator.parents();
    let ghost refs = it.way_relations_iterator.nodes_left();
    let ghost tags = it.way_relations_iterator.tags_left();
    let mut out: Vec<Element> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(refs.skip(0) =~= refs); assert(tags.skip(0) =~= tags); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.way_relations_iterator.parents() == ps.skip(out@.len() as int), it.iteration_state is Ways,
            0 <= upto(ps, refs, out@.len() as int) <= refs.len(), it.way_relations_iterator.nodes_left() == refs.skip(upto(ps, refs, out@.len() as int)),
            0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.way_relations_iterator.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> way_at(o.user_index@, o.changeset_user_index@, ps, refs, tags, i, #[trigger] out@[i]),
        invariant
            it.wf(), same_rest(o, *it), it.node_relations_iterator == o.node_relations_iterator, it.relation_relations_iterator == o.relation_relations_iterator,
            sorted_parents(ps), sorted_rows(refs), no_orphans(ps, refs), sorted_rows(tags), no_orphans(ps, tags),
        ensures
            it.iteration_state is Relations, out@.len() == ps.len() + 1, out@.last() is Sentinel,
            forall|i: int| 0 <= i < out@.len() - 1 ==> way_at(o.user_index@, o.changeset_user_index@, ps, refs, tags, i, #[trigger] out@[i]),
        decreases it.way_relations_iterator.parents().len(),
    {
        let ghost n = out@.len() as int;
        let x = it.next();
        match x {
            None => { assert(false); break; }
            Some(e) => {
                let end = e.is_sentinel();
                proof {
                    if n < ps.len() {
                        assert(ps.skip(n)[0] == ps[n]);
                        assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                        lemma_join(ps, refs, n + 1);
                        let a = upto(ps, refs, n);
                        let b = upto(ps, refs, n + 1);
                        assert(refs.skip(a).take(b - a) =~= refs.subrange(a, b));
                        assert(refs.skip(a).skip(b - a) =~= refs.skip(b));
                        lemma_join(ps, tags, n + 1);
                        let a = upto(ps, tags, n);
                        let b = upto(ps, tags, n + 1);
                        assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                        assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                    }
                }
                out.push(e);
                if end { break; }
            }
        }
    }
    out
}
/// element i of the relations: row i, with exactly its own rows
pub open spec fn relation_at(u: Map<i64, String>, c: Map<i64, i64>, ps: Seq<TableRecord>, members: Seq<TableRecord>, tags: Seq<TableRecord>, i: int, e: Element) -> bool {
    is_relation_elem(u, c, ps[i]->relation_record, relation_member_records(own(members, rkey(ps[i]))), relation_tag_records(own(tags, rkey(ps[i]))), e)
}
pub exec fn n21_relations(it: &mut ElementIterator) -> (r: Vec<Element>)
    requires
        old(it).wf(), old(it).iteration_state is Relations,
        sorted_parents(old(it).relation_relations_iterator.parents()),
        sorted_rows(old(it).relation_relations_iterator.members_left()), no_orphans(old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.members_left()),
        sorted_rows(old(it).relation_relations_iterator.tags_left()), no_orphans(old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.tags_left()),
    ensures
        final(it).wf(), same_rest(*old(it), *final(it)), final(it).iteration_state is End,
        final(it).node_relations_iterator == old(it).node_relations_iterator, final(it).way_relations_iterator == old(it).way_relations_iterator,
        r@.len() == old(it).relation_relations_iterator.parents().len() + 1, r@.last() is Sentinel,
        forall|i: int| 0 <= i < r@.len() - 1 ==> relation_at(old(it).user_index@, old(it).changeset_user_index@, old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.members_left(), old(it).relation_relations_iterator.tags_left(), i, #[trigger] r@[i]),
{
    let ghost o = *it;
    let ghost ps = it.relation_relations_iterator.parents();
    let ghost members = it.relation_relations_iterator.members_left();
    let ghost tags = it.relation_relations_iterator.tags_left();
    let mut out: Vec<Element> = Vec::new();
    proof { assert(ps.skip(0) =~= ps); assert(members.skip(0) =~= members); assert(tags.skip(0) =~= tags); }
    loop
        invariant_except_break
            out@.len() <= ps.len(), it.relation_relations_iterator.parents() == ps.skip(out@.len() as int), it.iteration_state is Relations,
            0 <= upto(ps, members, out@.len() as int) <= members.len(), it.relation_relations_iterator.members_left() == members.skip(upto(ps, members, out@.len() as int)),
            0 <= upto(ps, tags, out@.len() as int) <= tags.len(), it.relation_relations_iterator.tags_left() == tags.skip(upto(ps, tags, out@.len() as int)),
            forall|i: int| 0 <= i < out@.len() ==> relation_at(o.user_index@, o.changeset_user_index@, ps, members, tags, i, #[trigger] out@[i]),
        invariant
            it.wf(), same_rest(o, *it), it.node_relations_iterator == o.node_relations_iterator, it.way_relations_iterator == o.way_relations_iterator,
            sorted_parents(ps), sorted_rows(members), no_orphans(ps, members), sorted_rows(tags), no_orphans(ps, tags),
        ensures
            it.iteration_state is End, out@.len() == ps.len() + 1, out@.last() is Sentinel,
            forall|i: int| 0 <= i < out@.len() - 1 ==> relation_at(o.user_index@, o.changeset_user_index@, ps, members, tags, i, #[trigger] out@[i]),
        decreases it.relation_relations_iterator.parents().len(),
    {
        let ghost n = out@.len() as int;
        let x = it.next();
        match x {
            None => { assert(false); break; }
            Some(e) => {
                let end = e.is_sentinel();
                proof {
                    if n < ps.len() {
                        assert(ps.skip(n)[0] == ps[n]);
                        assert(ps.skip(n).skip(1) =~= ps.skip(n + 1));
                        lemma_join(ps, members, n + 1);
                        let a = upto(ps, members, n);
                        let b = upto(ps, members, n + 1);
                        assert(members.skip(a).take(b - a) =~= members.subrange(a, b));
                        assert(members.skip(a).skip(b - a) =~= members.skip(b));
                        lemma_join(ps, tags, n + 1);
                        let a = upto(ps, tags, n);
                        let b = upto(ps, tags, n + 1);
                        assert(tags.skip(a).take(b - a) =~= tags.subrange(a, b));
                        assert(tags.skip(a).skip(b - a) =~= tags.skip(b));
                    }
                }
                out.push(e);
                if end { break; }
            }
        }
    }
    out
}
/// the whole stream
pub exec fn n21_stream(it: &mut ElementIterator) -> (r: (Vec<Element>, Vec<Element>, Vec<Element>))
    requires
        old(it).wf(), old(it).iteration_state is Start,
        sorted_parents(old(it).node_relations_iterator.parents()), sorted_rows(old(it).node_relations_iterator.tags_left()), no_orphans(old(it).node_relations_iterator.parents(), old(it).node_relations_iterator.tags_left()),
        sorted_parents(old(it).way_relations_iterator.parents()), sorted_rows(old(it).way_relations_iterator.nodes_left()), no_orphans(old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.nodes_left()), sorted_rows(old(it).way_relations_iterator.tags_left()), no_orphans(old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.tags_left()),
        sorted_parents(old(it).relation_relations_iterator.parents()), sorted_rows(old(it).relation_relations_iterator.members_left()), no_orphans(old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.members_left()), sorted_rows(old(it).relation_relations_iterator.tags_left()), no_orphans(old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.tags_left()),
    ensures
        final(it).iteration_state is End,
        r.0@.len() == old(it).node_relations_iterator.parents().len() + 1, r.0@.last() is Sentinel,
        forall|i: int| 0 <= i < r.0@.len() - 1 ==> node_at(old(it).user_index@, old(it).changeset_user_index@, old(it).node_relations_iterator.parents(), old(it).node_relations_iterator.tags_left(), i, #[trigger] r.0@[i]),
        r.1@.len() == old(it).way_relations_iterator.parents().len() + 1, r.1@.last() is Sentinel,
        forall|i: int| 0 <= i < r.1@.len() - 1 ==> way_at(old(it).user_index@, old(it).changeset_user_index@, old(it).way_relations_iterator.parents(), old(it).way_relations_iterator.nodes_left(), old(it).way_relations_iterator.tags_left(), i, #[trigger] r.1@[i]),
        r.2@.len() == old(it).relation_relations_iterator.parents().len() + 1, r.2@.last() is Sentinel,
        forall|i: int| 0 <= i < r.2@.len() - 1 ==> relation_at(old(it).user_index@, old(it).changeset_user_index@, old(it).relation_relations_iterator.parents(), old(it).relation_relations_iterator.members_left(), old(it).relation_relations_iterator.tags_left(), i, #[trigger] r.2@[i]),
{
    let a = n21_nodes(it);
    let b = n21_ways(it);
    let c = n21_relations(it);
    let ghost end = *it;
    let x = it.next();
    assert(x is None);
    let y = it.next();
    assert(y is None && *it == end);
    (a, b, c)
}
}
fn main() {}
