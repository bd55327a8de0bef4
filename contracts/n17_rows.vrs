//@ rename Error AnyErr
//@ rename BufWriter VOut
//@ rename File VFile
//@ rename PathBuf VPath
//@ rename BtreeIndex VIndex
//@ include prelude.vrs
//@ include std.vrs
//@ include model.vrs
//@ include esc.vrs
//@ include fmt.vrs
//@ include times.vrs trusted
verus! {
use std::collections::HashMap;
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, ax::axiom_string_ext, ax::axiom_string_to_string};
#[verifier::external_body]
pub struct VFile { x: u8 }
#[verifier::external_body]
pub struct VPath { x: u8 }
//@ type src/osm/apidb_dump/write/current_object.rs CurrentObjectLine
//@ type src/osm/apidb_dump/write/current_object.rs CurrentObjectLines
//@ type src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter
//@ type src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters keep=current_nodes,current_node_tags,current_ways,current_way_nodes,current_way_tags,current_relations,current_relation_members,current_relation_tags,nodes,node_tags,ways,way_nodes,way_tags,relations,relation_members,relation_tags,users,changesets,changeset_tags,user_index,changeset_user_index,user_index_buffer,changeset_user_index_buffer
//@ type src/osm/apidb_dump/write/writer.rs Writer
// ---- conversions decided elsewhere: coordinates and tiles (N16), escaping (N19); times: n17_times
pub uninterp spec fn lat7(c: Coordinate) -> int;
pub uninterp spec fn lon7(c: Coordinate) -> int;
pub uninterp spec fn tile_of(lat: f64, lon: f64) -> int;
//@ trusted src/osm/model/coordinate.rs Coordinate::lat7 ret=r
    ensures r == lat7(*self),
//@ end
//@ trusted src/osm/model/coordinate.rs Coordinate::lon7 ret=r
    ensures r == lon7(*self),
//@ end
//@ trusted src/osm/apidb_dump/sql.rs calculate_tile ret=r
    ensures r == tile_of(lat, lon),
//@ end
//@ trusted src/osm/apidb_dump/sql.rs escape_sql_text ret=r
    ensures r@ == esc(s@),
//@ end
pub open spec fn tf(v: bool) -> char { if v { 't' } else { 'f' } }
//@ fn src/osm/apidb_dump/sql.rs to_sql_bool ret=r
    ensures r == tf(v),
//@ end

// ---- rows
pub open spec fn col(a: Seq<char>) -> Seq<char> { Seq::<char>::empty() + a }
pub open spec fn tab(row: Seq<char>, a: Seq<char>) -> Seq<char> { row.push('\t') + a }
pub open spec fn null(row: Seq<char>) -> Seq<char> { row.push('\t').push('\\').push('N') }
pub open spec fn eol(row: Seq<char>) -> Seq<char> { row.push('\n') }
/// id, latitude, longitude, changeset_id, visible, timestamp, tile, version
pub open spec fn node_cols(n: Node) -> Seq<char> {
    tab(tab(tab(tab(tab(tab(tab(col(dec(n.id as int)), dec(lat7(n.coordinate))), dec(lon7(n.coordinate))), dec(n.changeset as int)), seq![tf(n.visible)]),
        sql_seconds(n.timestamp)), dec(tile_of(n.coordinate.lat, n.coordinate.lon))), dec(n.version as int))
}
/// id, changeset_id, timestamp, visible, version
pub open spec fn cur_cols(id: i64, changeset: i64, timestamp: i64, visible: bool, version: i32) -> Seq<char> {
    tab(tab(tab(tab(col(dec(id as int)), dec(changeset as int)), sql_seconds(timestamp)), seq![tf(visible)]), dec(version as int))
}
/// id, changeset_id, timestamp, version, visible
pub open spec fn hist_cols(id: i64, changeset: i64, timestamp: i64, visible: bool, version: i32) -> Seq<char> {
    tab(tab(tab(tab(col(dec(id as int)), dec(changeset as int)), sql_seconds(timestamp)), dec(version as int)), seq![tf(visible)])
}
/// node_id, version, k, v
pub open spec fn node_tag_row(id: i64, version: i32, t: Tag) -> Seq<char> {
    eol(tab(tab(tab(col(dec(id as int)), dec(version as int)), esc(t.k@)), esc(t.v@)))
}
/// id, k, v
pub open spec fn cur_tag_row(id: i64, t: Tag) -> Seq<char> { eol(tab(tab(col(dec(id as int)), esc(t.k@)), esc(t.v@))) }
/// id, k, v, version
pub open spec fn hist_tag_row(id: i64, version: i32, t: Tag) -> Seq<char> {
    eol(tab(tab(tab(col(dec(id as int)), esc(t.k@)), esc(t.v@)), dec(version as int)))
}
/// way_id, node_id, sequence_id
pub open spec fn cur_ref_row(id: i64, r: i64, k: int) -> Seq<char> { eol(tab(tab(col(dec(id as int)), dec(r as int)), dec(k + 1))) }
/// way_id, node_id, version, sequence_id
pub open spec fn hist_ref_row(id: i64, version: i32, r: i64, k: int) -> Seq<char> {
    eol(tab(tab(tab(col(dec(id as int)), dec(r as int)), dec(version as int)), dec(k + 1)))
}
pub open spec fn mdata(m: Member) -> MemberData {
    match m { Member::Node { member } => member, Member::Way { member } => member, Member::Relation { member } => member }
}
pub open spec fn mkind(m: Member) -> Seq<char> {
    match m { Member::Node { .. } => "Node"@, Member::Way { .. } => "Way"@, Member::Relation { .. } => "Relation"@ }
}
/// relation_id, member_type, member_id, member_role, sequence_id
pub open spec fn cur_member_row(id: i64, m: Member, k: int) -> Seq<char> {
    eol(tab(tab(tab(tab(col(dec(id as int)), mkind(m)), dec(mdata(m).id as int)), esc(mdata(m).role@)), dec(k + 1)))
}
/// relation_id, member_type, member_id, member_role, version, sequence_id
pub open spec fn hist_member_row(id: i64, version: i32, m: Member, k: int) -> Seq<char> {
    eol(tab(tab(tab(tab(tab(col(dec(id as int)), mkind(m)), dec(mdata(m).id as int)), esc(mdata(m).role@)), dec(version as int)), dec(k + 1)))
}
pub open spec fn node_tag_rows(id: i64, version: i32, s: Seq<Tag>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { node_tag_rows(id, version, s.drop_last()) + node_tag_row(id, version, s.last()) } }
pub open spec fn cur_tag_rows(id: i64, s: Seq<Tag>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { cur_tag_rows(id, s.drop_last()) + cur_tag_row(id, s.last()) } }
pub open spec fn hist_tag_rows(id: i64, version: i32, s: Seq<Tag>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { hist_tag_rows(id, version, s.drop_last()) + hist_tag_row(id, version, s.last()) } }
pub open spec fn cur_ref_rows(id: i64, s: Seq<i64>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { cur_ref_rows(id, s.drop_last()) + cur_ref_row(id, s.last(), s.len() - 1) } }
pub open spec fn hist_ref_rows(id: i64, version: i32, s: Seq<i64>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { hist_ref_rows(id, version, s.drop_last()) + hist_ref_row(id, version, s.last(), s.len() - 1) } }
pub open spec fn cur_member_rows(id: i64, s: Seq<Member>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { cur_member_rows(id, s.drop_last()) + cur_member_row(id, s.last(), s.len() - 1) } }
pub open spec fn hist_member_rows(id: i64, version: i32, s: Seq<Member>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { hist_member_rows(id, version, s.drop_last()) + hist_member_row(id, version, s.last(), s.len() - 1) } }
/// lines one after the other
pub open spec fn catl(s: Seq<String>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { catl(s.drop_last()) + s.last()@ } }

// ---- the latest line(s) of the current object
pub open spec fn opt_line(o: Option<String>) -> Seq<char> { match o { None => seq![], Some(l) => l@ } }
pub open spec fn opt_lines(o: Option<Vec<String>>) -> Seq<char> { match o { None => seq![], Some(l) => catl(l@) } }
impl CurrentObjectLine { pub open spec fn pend(self) -> Seq<char> { opt_line(self.last_line) } }
impl CurrentObjectLines { pub open spec fn pend(self) -> Seq<char> { opt_lines(self.last_lines) } }
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLine::new ret=r
    ensures r.pend() == Seq::<char>::empty(),
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLine::set_last_id
    ensures final(self).last_id == id, final(self).last_line == old(self).last_line,
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLine::set_last_line ret=r
    ensures final(self).last_id == old(self).last_id, final(self).pend() == (if visible { line@ } else { seq![] }),
        opt_line(r) == (if id > old(self).last_id { old(self).pend() } else { seq![] }),
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLine::take ret=r
    ensures final(self).last_id == old(self).last_id, final(self).pend() == Seq::<char>::empty(), opt_line(r) == old(self).pend(),
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLines::new ret=r
    ensures r.pend() == Seq::<char>::empty(),
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLines::set_last_id
    ensures final(self).last_id == id, final(self).last_lines == old(self).last_lines,
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLines::set_last_lines ret=r
    ensures final(self).last_id == old(self).last_id, final(self).pend() == (if visible { catl(lines@) } else { seq![] }),
        opt_lines(r) == (if id > old(self).last_id { old(self).pend() } else { seq![] }),
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLines::take ret=r
    ensures final(self).last_id == old(self).last_id, final(self).pend() == Seq::<char>::empty(), opt_lines(r) == old(self).pend(),
//@ end
//@ fn src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter::writer ret=r borrowmut
    ensures *r == old(self).writer, final(self).writer == *final(r), final(self).table_name == old(self).table_name, final(self).file_path == old(self).file_path,
//@ end
impl TableDataWriter { pub open spec fn text(self) -> Seq<char> { self.writer.text() } }
pub open spec fn put(a: TableDataWriter, b: TableDataWriter, s: Seq<char>) -> bool { b.text() == a.text() + s }

/// writing `s` and then `t`
proof fn lemma_put(a: TableDataWriter, b: TableDataWriter, c: TableDataWriter, s: Seq<char>, t: Seq<char>)
    requires put(a, b, s), put(b, c, t),
    ensures put(a, c, s + t),
{ assert((a.text() + s) + t =~= a.text() + (s + t)); }
proof fn lemma_put0(a: TableDataWriter)
    ensures put(a, a, seq![]),
{ assert(a.text() + seq![] =~= a.text()); }

// ---- one version of a node
pub open spec fn node_frame(o: Writer, f: Writer) -> bool {
    &&& f.writers == (TableDataWriters {
        nodes: f.writers.nodes, node_tags: f.writers.node_tags, current_nodes: f.writers.current_nodes, current_node_tags: f.writers.current_node_tags,
        user_index_buffer: f.writers.user_index_buffer, changeset_user_index_buffer: f.writers.changeset_user_index_buffer, ..o.writers })
    &&& f.current_way_line == o.current_way_line && f.current_way_node_lines == o.current_way_node_lines && f.current_way_tag_lines == o.current_way_tag_lines
    &&& f.current_relation_line == o.current_relation_line && f.current_relation_member_lines == o.current_relation_member_lines && f.current_relation_tag_lines == o.current_relation_tag_lines
}
pub open spec fn refers(o: Writer, f: Writer, user: String, uid: i32, changeset: i64) -> bool {
    &&& f.writers.user_index_buffer@ == o.writers.user_index_buffer@.insert(uid as i64, user)
    &&& f.writers.changeset_user_index_buffer@ == o.writers.changeset_user_index_buffer@.insert(changeset, uid as i64)
}
/// what a table of current lines gains when a version with this id arrives
pub open spec fn due(last_id: i64, pend: Seq<char>, id: i64) -> Seq<char> { if id > last_id { pend } else { seq![] } }
pub open spec fn step_line(o: CurrentObjectLine, f: CurrentObjectLine, id: i64, visible: bool, line: Seq<char>) -> bool {
    f.last_id == id && f.pend() == if visible { line } else { seq![] }
}
pub open spec fn step_lines(o: CurrentObjectLines, f: CurrentObjectLines, id: i64, visible: bool, lines: Seq<char>) -> bool {
    f.last_id == id && f.pend() == if visible { lines } else { seq![] }
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_node ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& node_frame(o, f)
            &&& refers(o, f, node.user, node.uid, node.changeset)
            &&& put(o.writers.nodes, f.writers.nodes, eol(null(node_cols(node))))
            &&& put(o.writers.node_tags, f.writers.node_tags, node_tag_rows(node.id, node.version, node.tags@))
            &&& put(o.writers.current_nodes, f.writers.current_nodes, due(o.current_node_line.last_id, o.current_node_line.pend(), node.id))
            &&& put(o.writers.current_node_tags, f.writers.current_node_tags, due(o.current_node_tag_lines.last_id, o.current_node_tag_lines.pend(), node.id))
            &&& step_line(o.current_node_line, f.current_node_line, node.id, node.visible, eol(node_cols(node)))
            &&& step_lines(o.current_node_tag_lines, f.current_node_tag_lines, node.id, node.visible, cur_tag_rows(node.id, node.tags@))
        }),
//@ start:
    let ghost node0 = node;
//@ beforeloop 0
    let ghost m = *self;
    proof { lemma_put0(m.writers.node_tags); assert(tags@.take(0).len() == 0); }
//@ loop 0 it
    invariant
        node.id == node0.id, node.version == node0.version, tags@ == node0.tags@,
        *self == (Writer { writers: TableDataWriters { node_tags: self.writers.node_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= tags@.len(),
        put(m.writers.node_tags, self.writers.node_tags, node_tag_rows(node0.id, node0.version, tags@.take(it.index@))),
        catl(current_node_tag_lines@) == cur_tag_rows(node0.id, tags@.take(it.index@)),
//@ loopstart 0
    let ghost cl = current_node_tag_lines@;
    let ghost w1 = self.writers.node_tags;
    proof { assert(tag == tags@[it.index@]); assert(tags@.take(it.index@ + 1).drop_last() =~= tags@.take(it.index@)); }
//@ loopend 0
    proof {
        assert(current_node_tag_lines@.drop_last() =~= cl);
        lemma_put(m.writers.node_tags, w1, self.writers.node_tags, node_tag_rows(node0.id, node0.version, tags@.take(it.index@)), node_tag_row(node0.id, node0.version, tag));
    }
//@ afterloop 0
    proof { assert(tags@.take(tags@.len() as int) =~= tags@); }
//@ beforeloop 1
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_node_tags); assert(current_node_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 1 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_node_tags: self.writers.current_node_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_node_tag_lines@.len(),
        put(m.writers.current_node_tags, self.writers.current_node_tags, catl(current_node_tag_lines@.take(it.index@))),
//@ loopstart 1
    let ghost w1 = self.writers.current_node_tags;
    proof { assert(current_node_tag_line == current_node_tag_lines@[it.index@]); assert(current_node_tag_lines@.take(it.index@ + 1).drop_last() =~= current_node_tag_lines@.take(it.index@)); }
//@ loopend 1
    proof { lemma_put(m.writers.current_node_tags, w1, self.writers.current_node_tags, catl(current_node_tag_lines@.take(it.index@)), current_node_tag_line@); }
//@ afterloop 1
    proof { assert(current_node_tag_lines@.take(current_node_tag_lines@.len() as int) =~= current_node_tag_lines@); }
//@ end

// ---- one version of a way
pub open spec fn way_frame(o: Writer, f: Writer) -> bool {
    &&& f.writers == (TableDataWriters { ways: f.writers.ways, way_nodes: f.writers.way_nodes, way_tags: f.writers.way_tags, current_ways: f.writers.current_ways, current_way_nodes: f.writers.current_way_nodes, current_way_tags: f.writers.current_way_tags,
        user_index_buffer: f.writers.user_index_buffer, changeset_user_index_buffer: f.writers.changeset_user_index_buffer, ..o.writers })
    &&& f.current_node_line == o.current_node_line && f.current_node_tag_lines == o.current_node_tag_lines && f.current_relation_line == o.current_relation_line && f.current_relation_member_lines == o.current_relation_member_lines && f.current_relation_tag_lines == o.current_relation_tag_lines
}

// ---- one version of a relation
pub open spec fn relation_frame(o: Writer, f: Writer) -> bool {
    &&& f.writers == (TableDataWriters { relations: f.writers.relations, relation_members: f.writers.relation_members, relation_tags: f.writers.relation_tags, current_relations: f.writers.current_relations, current_relation_members: f.writers.current_relation_members, current_relation_tags: f.writers.current_relation_tags,
        user_index_buffer: f.writers.user_index_buffer, changeset_user_index_buffer: f.writers.changeset_user_index_buffer, ..o.writers })
    &&& f.current_node_line == o.current_node_line && f.current_node_tag_lines == o.current_node_tag_lines && f.current_way_line == o.current_way_line && f.current_way_node_lines == o.current_way_node_lines && f.current_way_tag_lines == o.current_way_tag_lines
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_way ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& way_frame(o, f)
            &&& refers(o, f, way.user, way.uid, way.changeset)
            &&& put(o.writers.ways, f.writers.ways, eol(null(hist_cols(way.id, way.changeset, way.timestamp, way.visible, way.version))))
            &&& put(o.writers.way_nodes, f.writers.way_nodes, hist_ref_rows(way.id, way.version, way.refs@))
            &&& put(o.writers.way_tags, f.writers.way_tags, hist_tag_rows(way.id, way.version, way.tags@))
            &&& put(o.writers.current_ways, f.writers.current_ways, due(o.current_way_line.last_id, o.current_way_line.pend(), way.id))
            &&& put(o.writers.current_way_nodes, f.writers.current_way_nodes, due(o.current_way_node_lines.last_id, o.current_way_node_lines.pend(), way.id))
            &&& put(o.writers.current_way_tags, f.writers.current_way_tags, due(o.current_way_tag_lines.last_id, o.current_way_tag_lines.pend(), way.id))
            &&& step_line(o.current_way_line, f.current_way_line, way.id, way.visible, eol(cur_cols(way.id, way.changeset, way.timestamp, way.visible, way.version)))
            &&& step_lines(o.current_way_node_lines, f.current_way_node_lines, way.id, way.visible, cur_ref_rows(way.id, way.refs@))
            &&& step_lines(o.current_way_tag_lines, f.current_way_tag_lines, way.id, way.visible, cur_tag_rows(way.id, way.tags@))
        }),
//@ start:
    let ghost way0 = way;
    let ghost kids = way.refs@;
    proof { assert(way.refs.len() == kids.len()); }
//@ beforeloop 0
    let ghost m = *self;
    proof { lemma_put0(m.writers.way_nodes); assert(kids.take(0).len() == 0); }
//@ loop 0 it
    invariant
        way.id == way0.id, way.version == way0.version, way.refs@ == kids, kids.len() <= usize::MAX, enum_0 == it.index@,
        *self == (Writer { writers: TableDataWriters { way_nodes: self.writers.way_nodes, ..m.writers }, ..m }),
        0 <= it.index@ <= kids.len(),
        put(m.writers.way_nodes, self.writers.way_nodes, hist_ref_rows(way0.id, way0.version, kids.take(it.index@))),
        catl(current_way_node_lines@) == cur_ref_rows(way0.id, kids.take(it.index@)),
//@ loopstart 0
    let ghost cl = current_way_node_lines@;
    let ghost w1 = self.writers.way_nodes;
    proof { assert(*node_id == kids[it.index@]); assert(kids.take(it.index@ + 1).drop_last() =~= kids.take(it.index@)); }
//@ loopend 0
    proof {
        assert(current_way_node_lines@.drop_last() =~= cl);
        lemma_put(m.writers.way_nodes, w1, self.writers.way_nodes, hist_ref_rows(way0.id, way0.version, kids.take(it.index@)), hist_ref_row(way0.id, way0.version, *node_id, it.index@));
    }
//@ afterloop 0
    proof { assert(kids.take(kids.len() as int) =~= kids); }
//@ beforeloop 1
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_way_nodes); assert(current_way_node_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 1 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_way_nodes: self.writers.current_way_nodes, ..m.writers }, ..m }),
        0 <= it.index@ <= current_way_node_lines@.len(),
        put(m.writers.current_way_nodes, self.writers.current_way_nodes, catl(current_way_node_lines@.take(it.index@))),
//@ loopstart 1
    let ghost w1 = self.writers.current_way_nodes;
    proof { assert(current_way_node_line == current_way_node_lines@[it.index@]); assert(current_way_node_lines@.take(it.index@ + 1).drop_last() =~= current_way_node_lines@.take(it.index@)); }
//@ loopend 1
    proof { lemma_put(m.writers.current_way_nodes, w1, self.writers.current_way_nodes, catl(current_way_node_lines@.take(it.index@)), current_way_node_line@); }
//@ afterloop 1
    proof { assert(current_way_node_lines@.take(current_way_node_lines@.len() as int) =~= current_way_node_lines@); }
//@ beforeloop 2
    let ghost m = *self;
    proof { lemma_put0(m.writers.way_tags); assert(way0.tags@.take(0).len() == 0); }
//@ loop 2 it
    invariant
        way.id == way0.id, way.version == way0.version, way.visible == way0.visible, way.changeset == way0.changeset, way.timestamp == way0.timestamp, it.seq() == way0.tags@,
        *self == (Writer { writers: TableDataWriters { way_tags: self.writers.way_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= way0.tags@.len(),
        put(m.writers.way_tags, self.writers.way_tags, hist_tag_rows(way0.id, way0.version, way0.tags@.take(it.index@))),
        catl(current_way_tag_lines@) == cur_tag_rows(way0.id, way0.tags@.take(it.index@)),
//@ loopstart 2
    let ghost cl = current_way_tag_lines@;
    let ghost w1 = self.writers.way_tags;
    proof { assert(tag == way0.tags@[it.index@]); assert(way0.tags@.take(it.index@ + 1).drop_last() =~= way0.tags@.take(it.index@)); }
//@ loopend 2
    proof {
        assert(current_way_tag_lines@.drop_last() =~= cl);
        lemma_put(m.writers.way_tags, w1, self.writers.way_tags, hist_tag_rows(way0.id, way0.version, way0.tags@.take(it.index@)), hist_tag_row(way0.id, way0.version, tag));
    }
//@ afterloop 2
    proof { assert(way0.tags@.take(way0.tags@.len() as int) =~= way0.tags@); }
//@ beforeloop 3
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_way_tags); assert(current_way_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 3 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_way_tags: self.writers.current_way_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_way_tag_lines@.len(),
        put(m.writers.current_way_tags, self.writers.current_way_tags, catl(current_way_tag_lines@.take(it.index@))),
//@ loopstart 3
    let ghost w1 = self.writers.current_way_tags;
    proof { assert(current_way_tag_line == current_way_tag_lines@[it.index@]); assert(current_way_tag_lines@.take(it.index@ + 1).drop_last() =~= current_way_tag_lines@.take(it.index@)); }
//@ loopend 3
    proof { lemma_put(m.writers.current_way_tags, w1, self.writers.current_way_tags, catl(current_way_tag_lines@.take(it.index@)), current_way_tag_line@); }
//@ afterloop 3
    proof { assert(current_way_tag_lines@.take(current_way_tag_lines@.len() as int) =~= current_way_tag_lines@); }
//@ end
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_relation ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& relation_frame(o, f)
            &&& refers(o, f, relation.user, relation.uid, relation.changeset)
            &&& put(o.writers.relations, f.writers.relations, eol(null(hist_cols(relation.id, relation.changeset, relation.timestamp, relation.visible, relation.version))))
            &&& put(o.writers.relation_members, f.writers.relation_members, hist_member_rows(relation.id, relation.version, relation.members@))
            &&& put(o.writers.relation_tags, f.writers.relation_tags, hist_tag_rows(relation.id, relation.version, relation.tags@))
            &&& put(o.writers.current_relations, f.writers.current_relations, due(o.current_relation_line.last_id, o.current_relation_line.pend(), relation.id))
            &&& put(o.writers.current_relation_members, f.writers.current_relation_members, due(o.current_relation_member_lines.last_id, o.current_relation_member_lines.pend(), relation.id))
            &&& put(o.writers.current_relation_tags, f.writers.current_relation_tags, due(o.current_relation_tag_lines.last_id, o.current_relation_tag_lines.pend(), relation.id))
            &&& step_line(o.current_relation_line, f.current_relation_line, relation.id, relation.visible, eol(cur_cols(relation.id, relation.changeset, relation.timestamp, relation.visible, relation.version)))
            &&& step_lines(o.current_relation_member_lines, f.current_relation_member_lines, relation.id, relation.visible, cur_member_rows(relation.id, relation.members@))
            &&& step_lines(o.current_relation_tag_lines, f.current_relation_tag_lines, relation.id, relation.visible, cur_tag_rows(relation.id, relation.tags@))
        }),
//@ start:
    let ghost relation0 = relation;
    let ghost kids = relation.members@;
    proof { assert(relation.members.len() == kids.len()); }
//@ beforeloop 0
    let ghost m = *self;
    proof { lemma_put0(m.writers.relation_members); assert(kids.take(0).len() == 0); }
//@ loop 0 it
    invariant
        relation.id == relation0.id, relation.version == relation0.version, relation.members@ == kids, kids.len() <= usize::MAX, enum_0 == it.index@,
        *self == (Writer { writers: TableDataWriters { relation_members: self.writers.relation_members, ..m.writers }, ..m }),
        0 <= it.index@ <= kids.len(),
        put(m.writers.relation_members, self.writers.relation_members, hist_member_rows(relation0.id, relation0.version, kids.take(it.index@))),
        catl(current_relation_member_lines@) == cur_member_rows(relation0.id, kids.take(it.index@)),
//@ loopstart 0
    let ghost cl = current_relation_member_lines@;
    let ghost w1 = self.writers.relation_members;
    proof { assert(*member == kids[it.index@]); assert(kids.take(it.index@ + 1).drop_last() =~= kids.take(it.index@)); }
//@ loopend 0
    proof {
        assert(current_relation_member_lines@.drop_last() =~= cl);
        lemma_put(m.writers.relation_members, w1, self.writers.relation_members, hist_member_rows(relation0.id, relation0.version, kids.take(it.index@)), hist_member_row(relation0.id, relation0.version, *member, it.index@));
    }
//@ afterloop 0
    proof { assert(kids.take(kids.len() as int) =~= kids); }
//@ beforeloop 1
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_relation_members); assert(current_relation_member_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 1 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_relation_members: self.writers.current_relation_members, ..m.writers }, ..m }),
        0 <= it.index@ <= current_relation_member_lines@.len(),
        put(m.writers.current_relation_members, self.writers.current_relation_members, catl(current_relation_member_lines@.take(it.index@))),
//@ loopstart 1
    let ghost w1 = self.writers.current_relation_members;
    proof { assert(current_relation_member_line == current_relation_member_lines@[it.index@]); assert(current_relation_member_lines@.take(it.index@ + 1).drop_last() =~= current_relation_member_lines@.take(it.index@)); }
//@ loopend 1
    proof { lemma_put(m.writers.current_relation_members, w1, self.writers.current_relation_members, catl(current_relation_member_lines@.take(it.index@)), current_relation_member_line@); }
//@ afterloop 1
    proof { assert(current_relation_member_lines@.take(current_relation_member_lines@.len() as int) =~= current_relation_member_lines@); }
//@ beforeloop 2
    let ghost m = *self;
    proof { lemma_put0(m.writers.relation_tags); assert(relation0.tags@.take(0).len() == 0); }
//@ loop 2 it
    invariant
        relation.id == relation0.id, relation.version == relation0.version, relation.visible == relation0.visible, relation.changeset == relation0.changeset, relation.timestamp == relation0.timestamp, it.seq() == relation0.tags@,
        *self == (Writer { writers: TableDataWriters { relation_tags: self.writers.relation_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= relation0.tags@.len(),
        put(m.writers.relation_tags, self.writers.relation_tags, hist_tag_rows(relation0.id, relation0.version, relation0.tags@.take(it.index@))),
        catl(current_relation_tag_lines@) == cur_tag_rows(relation0.id, relation0.tags@.take(it.index@)),
//@ loopstart 2
    let ghost cl = current_relation_tag_lines@;
    let ghost w1 = self.writers.relation_tags;
    proof { assert(tag == relation0.tags@[it.index@]); assert(relation0.tags@.take(it.index@ + 1).drop_last() =~= relation0.tags@.take(it.index@)); }
//@ loopend 2
    proof {
        assert(current_relation_tag_lines@.drop_last() =~= cl);
        lemma_put(m.writers.relation_tags, w1, self.writers.relation_tags, hist_tag_rows(relation0.id, relation0.version, relation0.tags@.take(it.index@)), hist_tag_row(relation0.id, relation0.version, tag));
    }
//@ afterloop 2
    proof { assert(relation0.tags@.take(relation0.tags@.len() as int) =~= relation0.tags@); }
//@ beforeloop 3
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_relation_tags); assert(current_relation_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 3 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_relation_tags: self.writers.current_relation_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_relation_tag_lines@.len(),
        put(m.writers.current_relation_tags, self.writers.current_relation_tags, catl(current_relation_tag_lines@.take(it.index@))),
//@ loopstart 3
    let ghost w1 = self.writers.current_relation_tags;
    proof { assert(current_relation_tag_line == current_relation_tag_lines@[it.index@]); assert(current_relation_tag_lines@.take(it.index@ + 1).drop_last() =~= current_relation_tag_lines@.take(it.index@)); }
//@ loopend 3
    proof { lemma_put(m.writers.current_relation_tags, w1, self.writers.current_relation_tags, catl(current_relation_tag_lines@.take(it.index@)), current_relation_tag_line@); }
//@ afterloop 3
    proof { assert(current_relation_tag_lines@.take(current_relation_tag_lines@.len() as int) =~= current_relation_tag_lines@); }
//@ end

// ---- closing
pub open spec fn flush_frame(o: Writer, f: Writer) -> bool {
    f.writers == (TableDataWriters { current_nodes: f.writers.current_nodes, current_node_tags: f.writers.current_node_tags, current_ways: f.writers.current_ways, current_way_tags: f.writers.current_way_tags, current_way_nodes: f.writers.current_way_nodes, current_relations: f.writers.current_relations, current_relation_tags: f.writers.current_relation_tags, current_relation_members: f.writers.current_relation_members, ..o.writers })
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::flush_current_object_lines ret=r
//@ attr:
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
//@ spec:
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& flush_frame(o, f)
            &&& put(o.writers.current_nodes, f.writers.current_nodes, o.current_node_line.pend())
            &&& put(o.writers.current_node_tags, f.writers.current_node_tags, o.current_node_tag_lines.pend())
            &&& put(o.writers.current_ways, f.writers.current_ways, o.current_way_line.pend())
            &&& put(o.writers.current_way_tags, f.writers.current_way_tags, o.current_way_tag_lines.pend())
            &&& put(o.writers.current_way_nodes, f.writers.current_way_nodes, o.current_way_node_lines.pend())
            &&& put(o.writers.current_relations, f.writers.current_relations, o.current_relation_line.pend())
            &&& put(o.writers.current_relation_tags, f.writers.current_relation_tags, o.current_relation_tag_lines.pend())
            &&& put(o.writers.current_relation_members, f.writers.current_relation_members, o.current_relation_member_lines.pend())
        }),
//@ start:
    proof { lemma_put0(self.writers.current_nodes); lemma_put0(self.writers.current_node_tags); lemma_put0(self.writers.current_ways); lemma_put0(self.writers.current_way_tags); lemma_put0(self.writers.current_way_nodes); lemma_put0(self.writers.current_relations); lemma_put0(self.writers.current_relation_tags); lemma_put0(self.writers.current_relation_members); }
//@ beforeloop 0
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_node_tags); assert(current_node_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 0 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_node_tags: self.writers.current_node_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_node_tag_lines@.len(),
        put(m.writers.current_node_tags, self.writers.current_node_tags, catl(current_node_tag_lines@.take(it.index@))),
//@ loopstart 0
    let ghost w1 = self.writers.current_node_tags;
    proof { assert(current_node_tag_line == current_node_tag_lines@[it.index@]); assert(current_node_tag_lines@.take(it.index@ + 1).drop_last() =~= current_node_tag_lines@.take(it.index@)); }
//@ loopend 0
    proof { lemma_put(m.writers.current_node_tags, w1, self.writers.current_node_tags, catl(current_node_tag_lines@.take(it.index@)), current_node_tag_line@); }
//@ afterloop 0
    proof { assert(current_node_tag_lines@.take(current_node_tag_lines@.len() as int) =~= current_node_tag_lines@); }
//@ beforeloop 1
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_way_tags); assert(current_way_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 1 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_way_tags: self.writers.current_way_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_way_tag_lines@.len(),
        put(m.writers.current_way_tags, self.writers.current_way_tags, catl(current_way_tag_lines@.take(it.index@))),
//@ loopstart 1
    let ghost w1 = self.writers.current_way_tags;
    proof { assert(current_way_tag_line == current_way_tag_lines@[it.index@]); assert(current_way_tag_lines@.take(it.index@ + 1).drop_last() =~= current_way_tag_lines@.take(it.index@)); }
//@ loopend 1
    proof { lemma_put(m.writers.current_way_tags, w1, self.writers.current_way_tags, catl(current_way_tag_lines@.take(it.index@)), current_way_tag_line@); }
//@ afterloop 1
    proof { assert(current_way_tag_lines@.take(current_way_tag_lines@.len() as int) =~= current_way_tag_lines@); }
//@ beforeloop 2
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_way_nodes); assert(current_way_node_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 2 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_way_nodes: self.writers.current_way_nodes, ..m.writers }, ..m }),
        0 <= it.index@ <= current_way_node_lines@.len(),
        put(m.writers.current_way_nodes, self.writers.current_way_nodes, catl(current_way_node_lines@.take(it.index@))),
//@ loopstart 2
    let ghost w1 = self.writers.current_way_nodes;
    proof { assert(current_way_node_line == current_way_node_lines@[it.index@]); assert(current_way_node_lines@.take(it.index@ + 1).drop_last() =~= current_way_node_lines@.take(it.index@)); }
//@ loopend 2
    proof { lemma_put(m.writers.current_way_nodes, w1, self.writers.current_way_nodes, catl(current_way_node_lines@.take(it.index@)), current_way_node_line@); }
//@ afterloop 2
    proof { assert(current_way_node_lines@.take(current_way_node_lines@.len() as int) =~= current_way_node_lines@); }
//@ beforeloop 3
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_relation_tags); assert(current_relation_tag_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 3 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_relation_tags: self.writers.current_relation_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= current_relation_tag_lines@.len(),
        put(m.writers.current_relation_tags, self.writers.current_relation_tags, catl(current_relation_tag_lines@.take(it.index@))),
//@ loopstart 3
    let ghost w1 = self.writers.current_relation_tags;
    proof { assert(current_relation_tag_line == current_relation_tag_lines@[it.index@]); assert(current_relation_tag_lines@.take(it.index@ + 1).drop_last() =~= current_relation_tag_lines@.take(it.index@)); }
//@ loopend 3
    proof { lemma_put(m.writers.current_relation_tags, w1, self.writers.current_relation_tags, catl(current_relation_tag_lines@.take(it.index@)), current_relation_tag_line@); }
//@ afterloop 3
    proof { assert(current_relation_tag_lines@.take(current_relation_tag_lines@.len() as int) =~= current_relation_tag_lines@); }
//@ beforeloop 4
    let ghost m = *self;
    proof { lemma_put0(m.writers.current_relation_members); assert(current_relation_member_lines@.take(0) =~= Seq::<String>::empty()); }
//@ loop 4 it
    invariant
        *self == (Writer { writers: TableDataWriters { current_relation_members: self.writers.current_relation_members, ..m.writers }, ..m }),
        0 <= it.index@ <= current_relation_member_lines@.len(),
        put(m.writers.current_relation_members, self.writers.current_relation_members, catl(current_relation_member_lines@.take(it.index@))),
//@ loopstart 4
    let ghost w1 = self.writers.current_relation_members;
    proof { assert(current_relation_member_line == current_relation_member_lines@[it.index@]); assert(current_relation_member_lines@.take(it.index@ + 1).drop_last() =~= current_relation_member_lines@.take(it.index@)); }
//@ loopend 4
    proof { lemma_put(m.writers.current_relation_members, w1, self.writers.current_relation_members, catl(current_relation_member_lines@.take(it.index@)), current_relation_member_line@); }
//@ afterloop 4
    proof { assert(current_relation_member_lines@.take(current_relation_member_lines@.len() as int) =~= current_relation_member_lines@); }
//@ end
/// the first `n` entries of `s` have been moved from the buffer to the index
pub open spec fn seen<V>(s: Seq<(&i64, &V)>, n: int, k: i64) -> bool { exists|j: int| 0 <= j < n && *(#[trigger] s[j]).0 == k }
pub open spec fn moved<V>(a: Map<i64, V>, b: Map<i64, V>, buf: Map<i64, V>, s: Seq<(&i64, &V)>, n: int) -> bool {
    &&& forall|k: i64| #[trigger] b.contains_key(k) <==> a.contains_key(k) || seen(s, n, k)
    &&& forall|k: i64| b.contains_key(k) ==> #[trigger] b[k] == if seen(s, n, k) { buf[k] } else { a[k] }
}
proof fn lemma_moved<V>(a: Map<i64, V>, b: Map<i64, V>, c: Map<i64, V>, buf: Map<i64, V>, s: Seq<(&i64, &V)>, n: int)
    requires moved(a, b, buf, s, n), 0 <= n < s.len(), c == b.insert(*s[n].0, *s[n].1), buf[*s[n].0] == *s[n].1,
    ensures moved(a, c, buf, s, n + 1),
{
    assert forall|k: i64| seen(s, n + 1, k) == (seen(s, n, k) || *s[n].0 == k) by {
        if seen(s, n, k) { let j = choose|j: int| 0 <= j < n && *(#[trigger] s[j]).0 == k; assert(*s[j].0 == k); }
        if *s[n].0 == k { assert(0 <= n < n + 1); }
    }
}
//@ fn src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters::flush_buffers ret=r diverge
    ensures
        *final(self) == (TableDataWriters { user_index: final(self).user_index, changeset_user_index: final(self).changeset_user_index,
            user_index_buffer: final(self).user_index_buffer, changeset_user_index_buffer: final(self).changeset_user_index_buffer, ..*old(self) }),
        r.is_ok() ==> final(self).user_index.map() =~= old(self).user_index.map().union_prefer_right(old(self).user_index_buffer@)
            && final(self).changeset_user_index.map() =~= old(self).changeset_user_index.map().union_prefer_right(old(self).changeset_user_index_buffer@)
            && final(self).user_index_buffer@.dom().len() == 0 && final(self).changeset_user_index_buffer@.dom().len() == 0,
//@ beforeloop 0
    let ghost m = *self;
//@ loop 0 it
    invariant
        *self == (TableDataWriters { user_index: self.user_index, ..m }),
        0 <= it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < it.seq().len() ==> m.user_index_buffer@.contains_key(*(#[trigger] it.seq()[i]).0) && m.user_index_buffer@[*it.seq()[i].0] == *it.seq()[i].1,
        forall|k: i64| m.user_index_buffer@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
        moved(m.user_index.map(), self.user_index.map(), m.user_index_buffer@, it.seq(), it.index@),
//@ loopstart 0
    let ghost x1 = self.user_index.map();
    proof { assert((user_id, user) == it.seq()[it.index@]); }
//@ loopend 0
    proof { assert(self.user_index.map()[*user_id]@ == (*user)@); lemma_moved(m.user_index.map(), x1, self.user_index.map(), m.user_index_buffer@, it.seq(), it.index@); }
//@ afterloop 0
    proof {
        assert(self.user_index.map() =~= m.user_index.map().union_prefer_right(m.user_index_buffer@));
    }
//@ beforeloop 1
    let ghost m = *self;
//@ loop 1 it
    invariant
        *self == (TableDataWriters { changeset_user_index: self.changeset_user_index, ..m }),
        0 <= it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < it.seq().len() ==> m.changeset_user_index_buffer@.contains_key(*(#[trigger] it.seq()[i]).0) && m.changeset_user_index_buffer@[*it.seq()[i].0] == *it.seq()[i].1,
        forall|k: i64| m.changeset_user_index_buffer@.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
        moved(m.changeset_user_index.map(), self.changeset_user_index.map(), m.changeset_user_index_buffer@, it.seq(), it.index@),
//@ loopstart 1
    let ghost x1 = self.changeset_user_index.map();
    proof { assert((changeset_id, user_id) == it.seq()[it.index@]); }
//@ loopend 1
    proof { lemma_moved(m.changeset_user_index.map(), x1, self.changeset_user_index.map(), m.changeset_user_index_buffer@, it.seq(), it.index@); }
//@ afterloop 1
    proof {
        assert(self.changeset_user_index.map() =~= m.changeset_user_index.map().union_prefer_right(m.changeset_user_index_buffer@));
    }
//@ end

// ---- users and changesets: one row per key
/// osm-admin-user-ID@example.com
pub open spec fn mail(id: i64) -> Seq<char> {
    let a = Seq::<char>::empty().push('o').push('s').push('m').push('-').push('a').push('d').push('m').push('i').push('n').push('-').push('u').push('s').push('e').push('r').push('-');
    (a + dec(id as int)).push('@').push('e').push('x').push('a').push('m').push('p').push('l').push('e').push('.').push('c').push('o').push('m')
}
/// email, id, pass_crypt, creation_time, display_name, data_public, description, home_lat, home_lon, home_zoom, pass_salt, email_valid, new_email,
/// creation_ip, languages, status, terms_agreed, consider_pd, auth_uid, preferred_editor, terms_seen, description_format, changesets_count,
/// traces_count, diary_entries_count, image_use_gravatar, auth_provider, home_tile, tou_agreed
pub open spec fn user_row(id: i64, name: Seq<char>, t: i64) -> Seq<char> {
    let a = tab(tab(tab(tab(tab(tab(col(mail(id)), dec(id as int)), "00000000000000000000000000000000"@), sql_micros(t)), esc(name)), seq!['t']), esc(name));
    let b = tab(tab(tab(tab(tab(a, dec(0)), dec(0)), dec(3)), "00000000"@), seq!['f']);
    let c = tab(tab(tab(tab(tab(tab(tab(tab(b, "\\N"@), "\\N"@), "\\N"@), "pending"@), "\\N"@), seq!['f']), "\\N"@), "\\N"@);
    eol(tab(tab(tab(tab(tab(tab(tab(tab(tab(c, seq!['f']), "markdown"@), dec(0)), dec(0)), dec(0)), seq!['f']), "\\N"@), "\\N"@), "\\N"@))
}
pub open spec fn user_rows(s: Seq<(i64, String)>, ts: Seq<i64>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { user_rows(s.drop_last(), ts) + user_row(s.last().0, s.last().1@, ts[s.len() - 1]) } }
/// id, user_id, created_at, min_lat, max_lat, min_lon, max_lon, closed_at, num_changes
pub open spec fn changeset_row(id: i64, uid: i64, t: i64, u: i64) -> Seq<char> {
    eol(tab(tab(tab(tab(tab(tab(tab(tab(col(dec(id as int)), dec(uid as int)), sql_micros(t)), dec(-900000000)), dec(900000000)), dec(-1800000000)), dec(1800000000)), sql_micros(u)), dec(0)))
}
pub open spec fn changeset_rows(s: Seq<(i64, i64)>, ts: Seq<i64>) -> Seq<char> decreases s.len()
{ if s.len() == 0 { seq![] } else { changeset_rows(s.drop_last(), ts) + changeset_row(s.last().0, s.last().1, ts[s.len() - 1], ts[s.len() - 1]) } }
pub open spec fn made_by() -> Seq<char> { Seq::<char>::empty().push('o').push('s').push('m').push('-').push('i').push('o').push(' ') + version_text() }
pub open spec fn cs_tag_row(id: i64, k: Seq<char>, v: Seq<char>) -> Seq<char> { eol(tab(tab(col(dec(id as int)), k), v)) }
pub open spec fn changeset_tag_rows(s: Seq<(i64, i64)>) -> Seq<char> decreases s.len()
{
    if s.len() == 0 { seq![] } else {
        changeset_tag_rows(s.drop_last()) + (cs_tag_row(s.last().0, "created_by"@, made_by()) + cs_tag_row(s.last().0, "replication"@, "true"@))
    }
}
pub open spec fn oks<T>(v: Seq<Result<T, AnyErr>>) -> Seq<T> { Seq::new(v.len(), |i: int| v[i]->Ok_0) }
pub open spec fn all_ok<T>(v: Seq<Result<T, AnyErr>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).is_ok() }
/// one row per user, in some order
pub open spec fn users_written(m: Map<i64, String>, a: TableDataWriter, b: TableDataWriter) -> bool {
    exists|s: Seq<(i64, String)>, ts: Seq<i64>| entries(m, s) && put(a, b, #[trigger] user_rows(s, ts))
}
pub open spec fn changesets_written(m: Map<i64, i64>, a: TableDataWriter, b: TableDataWriter, c: TableDataWriter, d: TableDataWriter) -> bool {
    exists|s: Seq<(i64, i64)>, ts: Seq<i64>| entries(m, s) && put(a, b, #[trigger] changeset_rows(s, ts)) && put(c, d, changeset_tag_rows(s))
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_users ret=r
//@ attr:
#[verifier::rlimit(100)]
//@ spec:
    ensures
        *final(self) == (Writer { writers: TableDataWriters { users: final(self).writers.users, ..old(self).writers }, ..*old(self) }),
        r.is_ok() ==> users_written(old(self).writers.user_index.map(), old(self).writers.users, final(self).writers.users),
//@ beforeloop 0
    let ghost m = *self;
    let ghost mut ts: Seq<i64> = seq![];
    let ghost mut done: Seq<(i64, String)> = seq![];
    proof { lemma_put0(m.writers.users); }
//@ loop 0 it
    invariant
        *self == (Writer { writers: TableDataWriters { users: self.writers.users, ..m.writers }, ..m }),
        0 <= it.index@ <= it.seq().len(), ts.len() == it.index@,
        all_ok(it.seq(), it.index@),
        all_ok(it.seq(), it.seq().len() as int) ==> entries(m.writers.user_index.map(), oks(it.seq())),
        done =~= oks(it.seq()).take(it.index@),
        it.index@ == it.seq().len() ==> entries(m.writers.user_index.map(), done),
        put(m.writers.users, self.writers.users, user_rows(done, ts)),
//@ loopstart 0
    let ghost w1 = self.writers.users;
    let ghost ts1 = ts;
    let ghost done1 = done;
    let ghost e1 = element->Ok_0;
    proof {
        assert(element == it.seq()[it.index@]);
    }
//@ loopend 0
    proof {
        ts = ts.push(t.t);
        done = done.push(e1);
        assert(oks(it.seq())[it.index@] == e1);
        assert(done.drop_last() =~= done1);
        assert(oks(it.seq()).take(it.seq().len() as int) =~= oks(it.seq()));
        assert(done =~= oks(it.seq()).take(it.index@ + 1));
        if it.index@ + 1 == it.seq().len() {
            assert(done == oks(it.seq()));
            assert(all_ok(it.seq(), it.seq().len() as int)) by { assert forall|i: int| 0 <= i < it.seq().len() implies (#[trigger] it.seq()[i]).is_ok() by { if i < it.index@ { } } }
        }
        lemma_user_ts(done1, ts1, ts);
        lemma_put(m.writers.users, w1, self.writers.users, user_rows(done1, ts1), user_row(user_id, done.last().1@, t.t));
    }
//@ end
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_changesets ret=r
    ensures
        *final(self) == (Writer { writers: TableDataWriters { changesets: final(self).writers.changesets, changeset_tags: final(self).writers.changeset_tags, ..old(self).writers }, ..*old(self) }),
        r.is_ok() ==> changesets_written(old(self).writers.changeset_user_index.map(), old(self).writers.changesets, final(self).writers.changesets, old(self).writers.changeset_tags, final(self).writers.changeset_tags),
//@ beforeloop 0
    let ghost m = *self;
    let ghost mut ts: Seq<i64> = seq![];
    let ghost mut done: Seq<(i64, i64)> = seq![];
    proof { lemma_put0(m.writers.changesets); lemma_put0(m.writers.changeset_tags); }
//@ loop 0 it
    invariant
        *self == (Writer { writers: TableDataWriters { changesets: self.writers.changesets, changeset_tags: self.writers.changeset_tags, ..m.writers }, ..m }),
        0 <= it.index@ <= it.seq().len(), ts.len() == it.index@,
        all_ok(it.seq(), it.index@),
        all_ok(it.seq(), it.seq().len() as int) ==> entries(m.writers.changeset_user_index.map(), oks(it.seq())),
        done =~= oks(it.seq()).take(it.index@),
        it.index@ == it.seq().len() ==> entries(m.writers.changeset_user_index.map(), done),
        put(m.writers.changesets, self.writers.changesets, changeset_rows(done, ts)),
        put(m.writers.changeset_tags, self.writers.changeset_tags, changeset_tag_rows(done)),
//@ loopstart 0
    let ghost w1 = self.writers.changesets;
    let ghost ts1 = ts;
    let ghost done1 = done;
    let ghost e1 = element->Ok_0;
    let ghost g1 = self.writers.changeset_tags;
    proof {
        assert(element == it.seq()[it.index@]);
    }
//@ loopend 0
    proof {
        ts = ts.push(t.t);
        done = done.push(e1);
        assert(oks(it.seq())[it.index@] == e1);
        assert(done.drop_last() =~= done1);
        assert(oks(it.seq()).take(it.seq().len() as int) =~= oks(it.seq()));
        assert(done =~= oks(it.seq()).take(it.index@ + 1));
        if it.index@ + 1 == it.seq().len() {
            assert(done == oks(it.seq()));
            assert(all_ok(it.seq(), it.seq().len() as int)) by { assert forall|i: int| 0 <= i < it.seq().len() implies (#[trigger] it.seq()[i]).is_ok() by { if i < it.index@ { } } }
        }
        lemma_changeset_ts(done1, ts1, ts);
        lemma_put(m.writers.changesets, w1, self.writers.changesets, changeset_rows(done1, ts1), changeset_row(changeset_id, user_id, t.t, t.t));
        let a = cs_tag_row(changeset_id, "created_by"@, made_by());
        let b = cs_tag_row(changeset_id, "replication"@, "true"@);
        assert((g1.text() + a) + b =~= g1.text() + (a + b));
        lemma_put(m.writers.changeset_tags, g1, self.writers.changeset_tags, changeset_tag_rows(done1), a + b);
    }
//@ end
proof fn lemma_user_ts(s: Seq<(i64, String)>, a: Seq<i64>, b: Seq<i64>)
    requires s.len() <= a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures user_rows(s, a) == user_rows(s, b),
    decreases s.len(),
{ if s.len() > 0 { lemma_user_ts(s.drop_last(), a, b); } }
proof fn lemma_changeset_ts(s: Seq<(i64, i64)>, a: Seq<i64>, b: Seq<i64>)
    requires s.len() <= a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures changeset_rows(s, a) == changeset_rows(s, b),
    decreases s.len(),
{ if s.len() > 0 { lemma_changeset_ts(s.drop_last(), a, b); } }
/// the terminator of COPY data
pub open spec fn ends(a: TableDataWriter, b: TableDataWriter) -> bool { put(a, b, "\\.\n"@) }
//@ fn src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter::close ret=r
    ensures r.is_ok() ==> ends(*old(self), *final(self)),
//@ end
//@ trusted src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters::close ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& ends(o.changeset_tags, f.changeset_tags)
            &&& ends(o.changesets, f.changesets)
            &&& ends(o.current_node_tags, f.current_node_tags)
            &&& ends(o.current_nodes, f.current_nodes)
            &&& ends(o.current_relation_members, f.current_relation_members)
            &&& ends(o.current_relation_tags, f.current_relation_tags)
            &&& ends(o.current_relations, f.current_relations)
            &&& ends(o.current_way_nodes, f.current_way_nodes)
            &&& ends(o.current_way_tags, f.current_way_tags)
            &&& ends(o.current_ways, f.current_ways)
            &&& ends(o.node_tags, f.node_tags)
            &&& ends(o.nodes, f.nodes)
            &&& ends(o.relation_members, f.relation_members)
            &&& ends(o.relation_tags, f.relation_tags)
            &&& ends(o.relations, f.relations)
            &&& ends(o.users, f.users)
            &&& ends(o.way_nodes, f.way_nodes)
            &&& ends(o.way_tags, f.way_tags)
            &&& ends(o.ways, f.ways)
        }),
//@ end

pub open spec fn term() -> Seq<char> { "\\.\n"@ }
pub open spec fn merged<V>(a: Map<i64, V>, b: Map<i64, V>) -> Map<i64, V> { a.union_prefer_right(b) }
/// exactly one row per user that was referenced
pub open spec fn users_done(o: Writer, f: Writer) -> bool {
    exists|s: Seq<(i64, String)>, ts: Seq<i64>|
        entries(merged(o.writers.user_index.map(), o.writers.user_index_buffer@), s) && put(o.writers.users, f.writers.users, #[trigger] user_rows(s, ts) + term())
}
/// exactly one row per changeset that was referenced
pub open spec fn changesets_done(o: Writer, f: Writer) -> bool {
    exists|s: Seq<(i64, i64)>, ts: Seq<i64>|
        entries(merged(o.writers.changeset_user_index.map(), o.writers.changeset_user_index_buffer@), s)
        && put(o.writers.changesets, f.writers.changesets, #[trigger] changeset_rows(s, ts) + term())
        && put(o.writers.changeset_tags, f.writers.changeset_tags, changeset_tag_rows(s) + term())
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::close ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& put(o.writers.current_nodes, f.writers.current_nodes, o.current_node_line.pend() + term())
            &&& put(o.writers.current_node_tags, f.writers.current_node_tags, o.current_node_tag_lines.pend() + term())
            &&& put(o.writers.current_ways, f.writers.current_ways, o.current_way_line.pend() + term())
            &&& put(o.writers.current_way_tags, f.writers.current_way_tags, o.current_way_tag_lines.pend() + term())
            &&& put(o.writers.current_way_nodes, f.writers.current_way_nodes, o.current_way_node_lines.pend() + term())
            &&& put(o.writers.current_relations, f.writers.current_relations, o.current_relation_line.pend() + term())
            &&& put(o.writers.current_relation_tags, f.writers.current_relation_tags, o.current_relation_tag_lines.pend() + term())
            &&& put(o.writers.current_relation_members, f.writers.current_relation_members, o.current_relation_member_lines.pend() + term())
            &&& put(o.writers.nodes, f.writers.nodes, term())
            &&& put(o.writers.node_tags, f.writers.node_tags, term())
            &&& put(o.writers.ways, f.writers.ways, term())
            &&& put(o.writers.way_nodes, f.writers.way_nodes, term())
            &&& put(o.writers.way_tags, f.writers.way_tags, term())
            &&& put(o.writers.relations, f.writers.relations, term())
            &&& put(o.writers.relation_members, f.writers.relation_members, term())
            &&& put(o.writers.relation_tags, f.writers.relation_tags, term())
            &&& users_done(o, f)
            &&& changesets_done(o, f)
        }),
//@ start:
    let ghost o = *self;
//@ tail:
    proof {
        let f = *self;
        assert((o.writers.current_nodes.text() + o.current_node_line.pend()) + term() =~= o.writers.current_nodes.text() + (o.current_node_line.pend() + term()));
        assert((o.writers.current_node_tags.text() + o.current_node_tag_lines.pend()) + term() =~= o.writers.current_node_tags.text() + (o.current_node_tag_lines.pend() + term()));
        assert((o.writers.current_ways.text() + o.current_way_line.pend()) + term() =~= o.writers.current_ways.text() + (o.current_way_line.pend() + term()));
        assert((o.writers.current_way_tags.text() + o.current_way_tag_lines.pend()) + term() =~= o.writers.current_way_tags.text() + (o.current_way_tag_lines.pend() + term()));
        assert((o.writers.current_way_nodes.text() + o.current_way_node_lines.pend()) + term() =~= o.writers.current_way_nodes.text() + (o.current_way_node_lines.pend() + term()));
        assert((o.writers.current_relations.text() + o.current_relation_line.pend()) + term() =~= o.writers.current_relations.text() + (o.current_relation_line.pend() + term()));
        assert((o.writers.current_relation_tags.text() + o.current_relation_tag_lines.pend()) + term() =~= o.writers.current_relation_tags.text() + (o.current_relation_tag_lines.pend() + term()));
        assert((o.writers.current_relation_members.text() + o.current_relation_member_lines.pend()) + term() =~= o.writers.current_relation_members.text() + (o.current_relation_member_lines.pend() + term()));
        let (s, ts) = choose|s: Seq<(i64, String)>, ts: Seq<i64>|
            entries(merged(o.writers.user_index.map(), o.writers.user_index_buffer@), s) && #[trigger] (o.writers.users.text() + user_rows(s, ts) + term()) == f.writers.users.text();
        assert((o.writers.users.text() + user_rows(s, ts)) + term() =~= o.writers.users.text() + (user_rows(s, ts) + term()));
        let (c, cs) = choose|s: Seq<(i64, i64)>, ts: Seq<i64>|
            entries(merged(o.writers.changeset_user_index.map(), o.writers.changeset_user_index_buffer@), s)
            && #[trigger] (o.writers.changesets.text() + changeset_rows(s, ts) + term()) == f.writers.changesets.text()
            && (o.writers.changeset_tags.text() + changeset_tag_rows(s)) + term() == f.writers.changeset_tags.text();
        assert((o.writers.changesets.text() + changeset_rows(c, cs)) + term() =~= o.writers.changesets.text() + (changeset_rows(c, cs) + term()));
        assert((o.writers.changeset_tags.text() + changeset_tag_rows(c)) + term() =~= o.writers.changeset_tags.text() + (changeset_tag_rows(c) + term()));
    }
//@ end

// ---- whole histories
// tables, by number: 0 nodes, 1 node_tags, 2 ways, 3 way_nodes, 4 way_tags, 5 relations, 6 relation_members, 7 relation_tags
/// the rows one element version contributes to a history table
pub open spec fn hrow(e: Element, t: int) -> Seq<char> {
    match e {
        Element::Node { node } => if t == 0 { eol(null(node_cols(node))) } else if t == 1 { node_tag_rows(node.id, node.version, node.tags@) } else { seq![] },
        Element::Way { way } => if t == 2 { eol(null(hist_cols(way.id, way.changeset, way.timestamp, way.visible, way.version))) } else if t == 3 { hist_ref_rows(way.id, way.version, way.refs@) } else if t == 4 { hist_tag_rows(way.id, way.version, way.tags@) } else { seq![] },
        Element::Relation { relation } => if t == 5 { eol(null(hist_cols(relation.id, relation.changeset, relation.timestamp, relation.visible, relation.version))) } else if t == 6 { hist_member_rows(relation.id, relation.version, relation.members@) } else if t == 7 { hist_tag_rows(relation.id, relation.version, relation.tags@) } else { seq![] },
        Element::Sentinel => seq![],
    }
}
pub open spec fn history(h: Seq<Element>, t: int) -> Seq<char> decreases h.len()
{ if h.len() == 0 { seq![] } else { history(h.drop_last(), t) + hrow(h.last(), t) } }
/// a version of an object, and its rows in a current table
pub struct V { pub id: i64, pub vis: bool, pub row: Seq<char> }
pub open spec fn vrec(e: Element, t: int) -> Option<V> {
    match e {
        Element::Node { node } => if t == 0 || t == 1 { Some(V { id: node.id, vis: node.visible, row: if t == 0 { eol(node_cols(node)) } else if t == 1 { cur_tag_rows(node.id, node.tags@) } else { seq![] } }) } else { None },
        Element::Way { way } => if 2 <= t <= 4 { Some(V { id: way.id, vis: way.visible, row: if t == 2 { eol(cur_cols(way.id, way.changeset, way.timestamp, way.visible, way.version)) } else if t == 3 { cur_ref_rows(way.id, way.refs@) } else if t == 4 { cur_tag_rows(way.id, way.tags@) } else { seq![] } }) } else { None },
        Element::Relation { relation } => if 5 <= t <= 7 { Some(V { id: relation.id, vis: relation.visible, row: if t == 5 { eol(cur_cols(relation.id, relation.changeset, relation.timestamp, relation.visible, relation.version)) } else if t == 6 { cur_member_rows(relation.id, relation.members@) } else if t == 7 { cur_tag_rows(relation.id, relation.tags@) } else { seq![] } }) } else { None },
        Element::Sentinel => None,
    }
}
pub open spec fn recs(h: Seq<Element>, t: int) -> Seq<V> decreases h.len()
{ if h.len() == 0 { seq![] } else { match vrec(h.last(), t) { None => recs(h.drop_last(), t), Some(v) => recs(h.drop_last(), t).push(v) } } }
/// the i-th version is the last of its object, and visible
pub open spec fn current(r: Seq<V>, i: int) -> bool { r[i].vis && (i + 1 == r.len() || r[i + 1].id != r[i].id) }
pub open spec fn upto(r: Seq<V>, n: int) -> Seq<char> decreases n
{ if n <= 0 { seq![] } else { upto(r, n - 1) + if current(r, n - 1) { r[n - 1].row } else { seq![] } } }
/// N18: the rows of exactly the last versions that are visible
pub open spec fn latest(r: Seq<V>) -> Seq<char> { upto(r, r.len() as int) }
proof fn lemma_upto(r: Seq<V>, v: V, n: int)
    requires n < r.len(),
    ensures upto(r.push(v), n) == upto(r, n),
    decreases n,
{ if n > 0 { lemma_upto(r, v, n - 1); } }
/// a current table while a history is being written: everything but the last object is final
pub open spec fn tracks(a: TableDataWriter, b: TableDataWriter, pend: Seq<char>, last: i64, r: Seq<V>) -> bool {
    if r.len() == 0 { put(a, b, seq![]) && pend == Seq::<char>::empty() } else {
        put(a, b, upto(r, r.len() - 1)) && last == r.last().id && pend == if r.last().vis { r.last().row } else { seq![] }
    }
}
proof fn lemma_tracks(a: TableDataWriter, b: TableDataWriter, c: TableDataWriter, pend: Seq<char>, last: i64, pend2: Seq<char>, last2: i64, r: Seq<V>, v: V)
    requires tracks(a, b, pend, last, r), put(b, c, due(last, pend, v.id)), last2 == v.id, pend2 == if v.vis { v.row } else { seq![] },
        r.len() > 0 ==> r.last().id <= v.id,
    ensures tracks(a, c, pend2, last2, r.push(v)),
{
    let q = r.push(v);
    if r.len() == 0 {
        assert(upto(q, 0) =~= Seq::<char>::empty());
        assert((a.text() + seq![]) + seq![] =~= a.text() + seq![]);
    } else {
        lemma_upto(r, v, r.len() - 1);
        assert(upto(q, r.len() as int) == upto(q, r.len() - 1) + if current(q, r.len() - 1) { r.last().row } else { seq![] });
        assert((a.text() + upto(r, r.len() - 1)) + due(last, pend, v.id) =~= a.text() + (upto(r, r.len() - 1) + due(last, pend, v.id)));
        assert(upto(r, r.len() - 1) + due(last, pend, v.id) =~= upto(q, r.len() as int));
    }
}
proof fn lemma_final(a: TableDataWriter, b: TableDataWriter, c: TableDataWriter, pend: Seq<char>, last: i64, r: Seq<V>)
    requires tracks(a, b, pend, last, r), put(b, c, pend + term()),
    ensures put(a, c, latest(r) + term()),
{
    if r.len() == 0 {
        assert((a.text() + seq![]) + (pend + term()) =~= a.text() + (latest(r) + term()));
    } else {
        assert(latest(r) == upto(r, r.len() - 1) + pend);
        assert((a.text() + upto(r, r.len() - 1)) + (pend + term()) =~= a.text() + (latest(r) + term()));
    }
}
proof fn lemma_recs(h: Seq<Element>, e: Element, t: int)
    ensures recs(h.push(e), t) == match vrec(e, t) { None => recs(h, t), Some(v) => recs(h, t).push(v) }, history(h.push(e), t) == history(h, t) + hrow(e, t),
{ assert(h.push(e).drop_last() =~= h); }
proof fn lemma_last(h: Seq<Element>, t: int)
    requires recs(h, t).len() > 0,
    ensures exists|i: int| 0 <= i < h.len() && vrec(#[trigger] h[i], t) == Some(recs(h, t).last()),
    decreases h.len(),
{
    match vrec(h.last(), t) {
        None => { lemma_last(h.drop_last(), t); let i = choose|i: int| 0 <= i < h.drop_last().len() && vrec(#[trigger] h.drop_last()[i], t) == Some(recs(h.drop_last(), t).last()); assert(h[i] == h.drop_last()[i]); }
        Some(v) => { assert(h[h.len() - 1] == h.last()); }
    }
}
/// versions of an object of one kind arrive by id
pub open spec fn sorted(h: Seq<Element>) -> bool {
    forall|i: int, j: int, t: int| 0 <= i < j < h.len() && #[trigger] vrec(h[i], t) is Some && #[trigger] vrec(h[j], t) is Some ==> vrec(h[i], t)->0.id <= vrec(h[j], t)->0.id
}
pub open spec fn who(e: Element) -> Option<(i64, String, i64)> {
    match e {
        Element::Node { node } => Some((node.uid as i64, node.user, node.changeset)),
        Element::Way { way } => Some((way.uid as i64, way.user, way.changeset)),
        Element::Relation { relation } => Some((relation.uid as i64, relation.user, relation.changeset)),
        Element::Sentinel => None,
    }
}
pub open spec fn users_of(m: Map<i64, String>, h: Seq<Element>) -> Map<i64, String> decreases h.len()
{ if h.len() == 0 { m } else { match who(h.last()) { None => users_of(m, h.drop_last()), Some(w) => users_of(m, h.drop_last()).insert(w.0, w.1) } } }
pub open spec fn changesets_of(m: Map<i64, i64>, h: Seq<Element>) -> Map<i64, i64> decreases h.len()
{ if h.len() == 0 { m } else { match who(h.last()) { None => changesets_of(m, h.drop_last()), Some(w) => changesets_of(m, h.drop_last()).insert(w.2, w.0) } } }
/// exactly the referenced users and changesets have an entry
proof fn lemma_users_of(m: Map<i64, String>, n: Map<i64, i64>, h: Seq<Element>, k: i64)
    ensures
        users_of(m, h).contains_key(k) <==> m.contains_key(k) || exists|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).0 == k,
        changesets_of(n, h).contains_key(k) <==> n.contains_key(k) || exists|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).2 == k,
    decreases h.len(),
{
    if h.len() > 0 {
        let d = h.drop_last();
        lemma_users_of(m, n, d, k);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] h[i] by { }
        assert(h[h.len() - 1] == h.last());
        if exists|i: int| 0 <= i < d.len() && who(#[trigger] d[i]) is Some && (who(d[i])->0).0 == k { let i = choose|i: int| 0 <= i < d.len() && who(#[trigger] d[i]) is Some && (who(d[i])->0).0 == k; assert(h[i] == d[i]); }
        if exists|i: int| 0 <= i < d.len() && who(#[trigger] d[i]) is Some && (who(d[i])->0).2 == k { let i = choose|i: int| 0 <= i < d.len() && who(#[trigger] d[i]) is Some && (who(d[i])->0).2 == k; assert(h[i] == d[i]); }
        if exists|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).0 == k { let i = choose|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).0 == k; if i < d.len() { assert(h[i] == d[i]); } }
        if exists|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).2 == k { let i = choose|i: int| 0 <= i < h.len() && who(#[trigger] h[i]) is Some && (who(h[i])->0).2 == k; if i < d.len() { assert(h[i] == d[i]); } }
    }
}
/// the writer after the history `h`, started in state `o`
pub open spec fn written(o: Writer, w: Writer, h: Seq<Element>) -> bool {
    &&& tracks(o.writers.current_nodes, w.writers.current_nodes, w.current_node_line.pend(), w.current_node_line.last_id, recs(h, 0))
    &&& put(o.writers.nodes, w.writers.nodes, history(h, 0))
    &&& tracks(o.writers.current_node_tags, w.writers.current_node_tags, w.current_node_tag_lines.pend(), w.current_node_tag_lines.last_id, recs(h, 1))
    &&& put(o.writers.node_tags, w.writers.node_tags, history(h, 1))
    &&& tracks(o.writers.current_ways, w.writers.current_ways, w.current_way_line.pend(), w.current_way_line.last_id, recs(h, 2))
    &&& put(o.writers.ways, w.writers.ways, history(h, 2))
    &&& tracks(o.writers.current_way_nodes, w.writers.current_way_nodes, w.current_way_node_lines.pend(), w.current_way_node_lines.last_id, recs(h, 3))
    &&& put(o.writers.way_nodes, w.writers.way_nodes, history(h, 3))
    &&& tracks(o.writers.current_way_tags, w.writers.current_way_tags, w.current_way_tag_lines.pend(), w.current_way_tag_lines.last_id, recs(h, 4))
    &&& put(o.writers.way_tags, w.writers.way_tags, history(h, 4))
    &&& tracks(o.writers.current_relations, w.writers.current_relations, w.current_relation_line.pend(), w.current_relation_line.last_id, recs(h, 5))
    &&& put(o.writers.relations, w.writers.relations, history(h, 5))
    &&& tracks(o.writers.current_relation_members, w.writers.current_relation_members, w.current_relation_member_lines.pend(), w.current_relation_member_lines.last_id, recs(h, 6))
    &&& put(o.writers.relation_members, w.writers.relation_members, history(h, 6))
    &&& tracks(o.writers.current_relation_tags, w.writers.current_relation_tags, w.current_relation_tag_lines.pend(), w.current_relation_tag_lines.last_id, recs(h, 7))
    &&& put(o.writers.relation_tags, w.writers.relation_tags, history(h, 7))
    &&& w.writers.users == o.writers.users && w.writers.changesets == o.writers.changesets && w.writers.changeset_tags == o.writers.changeset_tags
    &&& w.writers.user_index == o.writers.user_index && w.writers.changeset_user_index == o.writers.changeset_user_index
    &&& w.writers.user_index_buffer@ == users_of(o.writers.user_index_buffer@, h)
    &&& w.writers.changeset_user_index_buffer@ == changesets_of(o.writers.changeset_user_index_buffer@, h)
}
/// one step of the writer, as the contracts of write_node, write_way and write_relation give it
pub open spec fn stepped(o: Writer, f: Writer, e: Element) -> bool {
    &&& match vrec(e, 0) {
        None => f.writers.current_nodes == o.writers.current_nodes && f.current_node_line == o.current_node_line && f.writers.nodes == o.writers.nodes && hrow(e, 0).len() == 0,
        Some(v) => put(o.writers.current_nodes, f.writers.current_nodes, due(o.current_node_line.last_id, o.current_node_line.pend(), v.id)) && step_line(o.current_node_line, f.current_node_line, v.id, v.vis, v.row)
            && put(o.writers.nodes, f.writers.nodes, hrow(e, 0)),
    }
    &&& match vrec(e, 1) {
        None => f.writers.current_node_tags == o.writers.current_node_tags && f.current_node_tag_lines == o.current_node_tag_lines && f.writers.node_tags == o.writers.node_tags && hrow(e, 1).len() == 0,
        Some(v) => put(o.writers.current_node_tags, f.writers.current_node_tags, due(o.current_node_tag_lines.last_id, o.current_node_tag_lines.pend(), v.id)) && step_lines(o.current_node_tag_lines, f.current_node_tag_lines, v.id, v.vis, v.row)
            && put(o.writers.node_tags, f.writers.node_tags, hrow(e, 1)),
    }
    &&& match vrec(e, 2) {
        None => f.writers.current_ways == o.writers.current_ways && f.current_way_line == o.current_way_line && f.writers.ways == o.writers.ways && hrow(e, 2).len() == 0,
        Some(v) => put(o.writers.current_ways, f.writers.current_ways, due(o.current_way_line.last_id, o.current_way_line.pend(), v.id)) && step_line(o.current_way_line, f.current_way_line, v.id, v.vis, v.row)
            && put(o.writers.ways, f.writers.ways, hrow(e, 2)),
    }
    &&& match vrec(e, 3) {
        None => f.writers.current_way_nodes == o.writers.current_way_nodes && f.current_way_node_lines == o.current_way_node_lines && f.writers.way_nodes == o.writers.way_nodes && hrow(e, 3).len() == 0,
        Some(v) => put(o.writers.current_way_nodes, f.writers.current_way_nodes, due(o.current_way_node_lines.last_id, o.current_way_node_lines.pend(), v.id)) && step_lines(o.current_way_node_lines, f.current_way_node_lines, v.id, v.vis, v.row)
            && put(o.writers.way_nodes, f.writers.way_nodes, hrow(e, 3)),
    }
    &&& match vrec(e, 4) {
        None => f.writers.current_way_tags == o.writers.current_way_tags && f.current_way_tag_lines == o.current_way_tag_lines && f.writers.way_tags == o.writers.way_tags && hrow(e, 4).len() == 0,
        Some(v) => put(o.writers.current_way_tags, f.writers.current_way_tags, due(o.current_way_tag_lines.last_id, o.current_way_tag_lines.pend(), v.id)) && step_lines(o.current_way_tag_lines, f.current_way_tag_lines, v.id, v.vis, v.row)
            && put(o.writers.way_tags, f.writers.way_tags, hrow(e, 4)),
    }
    &&& match vrec(e, 5) {
        None => f.writers.current_relations == o.writers.current_relations && f.current_relation_line == o.current_relation_line && f.writers.relations == o.writers.relations && hrow(e, 5).len() == 0,
        Some(v) => put(o.writers.current_relations, f.writers.current_relations, due(o.current_relation_line.last_id, o.current_relation_line.pend(), v.id)) && step_line(o.current_relation_line, f.current_relation_line, v.id, v.vis, v.row)
            && put(o.writers.relations, f.writers.relations, hrow(e, 5)),
    }
    &&& match vrec(e, 6) {
        None => f.writers.current_relation_members == o.writers.current_relation_members && f.current_relation_member_lines == o.current_relation_member_lines && f.writers.relation_members == o.writers.relation_members && hrow(e, 6).len() == 0,
        Some(v) => put(o.writers.current_relation_members, f.writers.current_relation_members, due(o.current_relation_member_lines.last_id, o.current_relation_member_lines.pend(), v.id)) && step_lines(o.current_relation_member_lines, f.current_relation_member_lines, v.id, v.vis, v.row)
            && put(o.writers.relation_members, f.writers.relation_members, hrow(e, 6)),
    }
    &&& match vrec(e, 7) {
        None => f.writers.current_relation_tags == o.writers.current_relation_tags && f.current_relation_tag_lines == o.current_relation_tag_lines && f.writers.relation_tags == o.writers.relation_tags && hrow(e, 7).len() == 0,
        Some(v) => put(o.writers.current_relation_tags, f.writers.current_relation_tags, due(o.current_relation_tag_lines.last_id, o.current_relation_tag_lines.pend(), v.id)) && step_lines(o.current_relation_tag_lines, f.current_relation_tag_lines, v.id, v.vis, v.row)
            && put(o.writers.relation_tags, f.writers.relation_tags, hrow(e, 7)),
    }
    &&& f.writers.users == o.writers.users && f.writers.changesets == o.writers.changesets && f.writers.changeset_tags == o.writers.changeset_tags
    &&& f.writers.user_index == o.writers.user_index && f.writers.changeset_user_index == o.writers.changeset_user_index
    &&& match who(e) {
        None => f.writers.user_index_buffer@ == o.writers.user_index_buffer@ && f.writers.changeset_user_index_buffer@ == o.writers.changeset_user_index_buffer@,
        Some(w) => f.writers.user_index_buffer@ == o.writers.user_index_buffer@.insert(w.0, w.1) && f.writers.changeset_user_index_buffer@ == o.writers.changeset_user_index_buffer@.insert(w.2, w.0),
    }
}
//@ fn src/osm/apidb_dump/write/writer.rs Writer::write_element ret=r
    ensures r.is_ok() ==> stepped(*old(self), *final(self), element),
//@ end
proof fn lemma_step(o: Writer, w: Writer, f: Writer, h: Seq<Element>, e: Element)
    requires written(o, w, h), stepped(w, f, e), sorted(h.push(e)),
    ensures written(o, f, h.push(e)),
{
    assert(h.push(e).drop_last() =~= h);
    assert(h.push(e)[h.len() as int] == e);
    assert forall|t: int| 0 <= t < 8 && vrec(e, t) is Some && recs(h, t).len() > 0 implies (#[trigger] recs(h, t)).last().id <= vrec(e, t)->0.id by {
        lemma_last(h, t);
        let i = choose|i: int| 0 <= i < h.len() && vrec(#[trigger] h[i], t) == Some(recs(h, t).last());
        assert(h.push(e)[i] == h[i]);
        assert(vrec(h.push(e)[i], t) is Some && vrec(h.push(e)[h.len() as int], t) is Some);
    }
    lemma_recs(h, e, 0);
    match vrec(e, 0) {
        None => { assert(history(h, 0) + hrow(e, 0) =~= history(h, 0)); }
        Some(v) => {
            lemma_tracks(o.writers.current_nodes, w.writers.current_nodes, f.writers.current_nodes, w.current_node_line.pend(), w.current_node_line.last_id, f.current_node_line.pend(), f.current_node_line.last_id, recs(h, 0), v);
            lemma_put(o.writers.nodes, w.writers.nodes, f.writers.nodes, history(h, 0), hrow(e, 0));
        }
    }
    lemma_recs(h, e, 1);
    match vrec(e, 1) {
        None => { assert(history(h, 1) + hrow(e, 1) =~= history(h, 1)); }
        Some(v) => {
            lemma_tracks(o.writers.current_node_tags, w.writers.current_node_tags, f.writers.current_node_tags, w.current_node_tag_lines.pend(), w.current_node_tag_lines.last_id, f.current_node_tag_lines.pend(), f.current_node_tag_lines.last_id, recs(h, 1), v);
            lemma_put(o.writers.node_tags, w.writers.node_tags, f.writers.node_tags, history(h, 1), hrow(e, 1));
        }
    }
    lemma_recs(h, e, 2);
    match vrec(e, 2) {
        None => { assert(history(h, 2) + hrow(e, 2) =~= history(h, 2)); }
        Some(v) => {
            lemma_tracks(o.writers.current_ways, w.writers.current_ways, f.writers.current_ways, w.current_way_line.pend(), w.current_way_line.last_id, f.current_way_line.pend(), f.current_way_line.last_id, recs(h, 2), v);
            lemma_put(o.writers.ways, w.writers.ways, f.writers.ways, history(h, 2), hrow(e, 2));
        }
    }
    lemma_recs(h, e, 3);
    match vrec(e, 3) {
        None => { assert(history(h, 3) + hrow(e, 3) =~= history(h, 3)); }
        Some(v) => {
            lemma_tracks(o.writers.current_way_nodes, w.writers.current_way_nodes, f.writers.current_way_nodes, w.current_way_node_lines.pend(), w.current_way_node_lines.last_id, f.current_way_node_lines.pend(), f.current_way_node_lines.last_id, recs(h, 3), v);
            lemma_put(o.writers.way_nodes, w.writers.way_nodes, f.writers.way_nodes, history(h, 3), hrow(e, 3));
        }
    }
    lemma_recs(h, e, 4);
    match vrec(e, 4) {
        None => { assert(history(h, 4) + hrow(e, 4) =~= history(h, 4)); }
        Some(v) => {
            lemma_tracks(o.writers.current_way_tags, w.writers.current_way_tags, f.writers.current_way_tags, w.current_way_tag_lines.pend(), w.current_way_tag_lines.last_id, f.current_way_tag_lines.pend(), f.current_way_tag_lines.last_id, recs(h, 4), v);
            lemma_put(o.writers.way_tags, w.writers.way_tags, f.writers.way_tags, history(h, 4), hrow(e, 4));
        }
    }
    lemma_recs(h, e, 5);
    match vrec(e, 5) {
        None => { assert(history(h, 5) + hrow(e, 5) =~= history(h, 5)); }
        Some(v) => {
            lemma_tracks(o.writers.current_relations, w.writers.current_relations, f.writers.current_relations, w.current_relation_line.pend(), w.current_relation_line.last_id, f.current_relation_line.pend(), f.current_relation_line.last_id, recs(h, 5), v);
            lemma_put(o.writers.relations, w.writers.relations, f.writers.relations, history(h, 5), hrow(e, 5));
        }
    }
    lemma_recs(h, e, 6);
    match vrec(e, 6) {
        None => { assert(history(h, 6) + hrow(e, 6) =~= history(h, 6)); }
        Some(v) => {
            lemma_tracks(o.writers.current_relation_members, w.writers.current_relation_members, f.writers.current_relation_members, w.current_relation_member_lines.pend(), w.current_relation_member_lines.last_id, f.current_relation_member_lines.pend(), f.current_relation_member_lines.last_id, recs(h, 6), v);
            lemma_put(o.writers.relation_members, w.writers.relation_members, f.writers.relation_members, history(h, 6), hrow(e, 6));
        }
    }
    lemma_recs(h, e, 7);
    match vrec(e, 7) {
        None => { assert(history(h, 7) + hrow(e, 7) =~= history(h, 7)); }
        Some(v) => {
            lemma_tracks(o.writers.current_relation_tags, w.writers.current_relation_tags, f.writers.current_relation_tags, w.current_relation_tag_lines.pend(), w.current_relation_tag_lines.last_id, f.current_relation_tag_lines.pend(), f.current_relation_tag_lines.last_id, recs(h, 7), v);
            lemma_put(o.writers.relation_tags, w.writers.relation_tags, f.writers.relation_tags, history(h, 7), hrow(e, 7));
        }
    }
}
/// N17 and N18 as a client of the contracts: write a sorted history and close
pub exec fn n17_client(w: &mut Writer, stream: Vec<Element>) -> (r: Result<(), AnyErr>)
    requires
        sorted(stream@),
        // a new writer has no current object
        old(w).current_node_line.pend() == Seq::<char>::empty(),
        old(w).current_node_tag_lines.pend() == Seq::<char>::empty(),
        old(w).current_way_line.pend() == Seq::<char>::empty(),
        old(w).current_way_node_lines.pend() == Seq::<char>::empty(),
        old(w).current_way_tag_lines.pend() == Seq::<char>::empty(),
        old(w).current_relation_line.pend() == Seq::<char>::empty(),
        old(w).current_relation_member_lines.pend() == Seq::<char>::empty(),
        old(w).current_relation_tag_lines.pend() == Seq::<char>::empty(),
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(w), *final(w));
            let users = merged(o.writers.user_index.map(), users_of(o.writers.user_index_buffer@, stream@));
            let changesets = merged(o.writers.changeset_user_index.map(), changesets_of(o.writers.changeset_user_index_buffer@, stream@));
            &&& put(o.writers.nodes, f.writers.nodes, history(stream@, 0) + term())
            &&& put(o.writers.current_nodes, f.writers.current_nodes, latest(recs(stream@, 0)) + term())
            &&& put(o.writers.node_tags, f.writers.node_tags, history(stream@, 1) + term())
            &&& put(o.writers.current_node_tags, f.writers.current_node_tags, latest(recs(stream@, 1)) + term())
            &&& put(o.writers.ways, f.writers.ways, history(stream@, 2) + term())
            &&& put(o.writers.current_ways, f.writers.current_ways, latest(recs(stream@, 2)) + term())
            &&& put(o.writers.way_nodes, f.writers.way_nodes, history(stream@, 3) + term())
            &&& put(o.writers.current_way_nodes, f.writers.current_way_nodes, latest(recs(stream@, 3)) + term())
            &&& put(o.writers.way_tags, f.writers.way_tags, history(stream@, 4) + term())
            &&& put(o.writers.current_way_tags, f.writers.current_way_tags, latest(recs(stream@, 4)) + term())
            &&& put(o.writers.relations, f.writers.relations, history(stream@, 5) + term())
            &&& put(o.writers.current_relations, f.writers.current_relations, latest(recs(stream@, 5)) + term())
            &&& put(o.writers.relation_members, f.writers.relation_members, history(stream@, 6) + term())
            &&& put(o.writers.current_relation_members, f.writers.current_relation_members, latest(recs(stream@, 6)) + term())
            &&& put(o.writers.relation_tags, f.writers.relation_tags, history(stream@, 7) + term())
            &&& put(o.writers.current_relation_tags, f.writers.current_relation_tags, latest(recs(stream@, 7)) + term())
            &&& exists|s: Seq<(i64, String)>, ts: Seq<i64>| entries(users, s) && put(o.writers.users, f.writers.users, #[trigger] user_rows(s, ts) + term())
            &&& exists|s: Seq<(i64, i64)>, ts: Seq<i64>| entries(changesets, s) && put(o.writers.changesets, f.writers.changesets, #[trigger] changeset_rows(s, ts) + term())
                && put(o.writers.changeset_tags, f.writers.changeset_tags, changeset_tag_rows(s) + term())
        }),
{
    let ghost o = *w;
    let mut i: usize = 0;
    proof { lemma_put0(o.writers.nodes); lemma_put0(o.writers.current_nodes); lemma_put0(o.writers.node_tags); lemma_put0(o.writers.current_node_tags); lemma_put0(o.writers.ways); lemma_put0(o.writers.current_ways); lemma_put0(o.writers.way_nodes); lemma_put0(o.writers.current_way_nodes); lemma_put0(o.writers.way_tags); lemma_put0(o.writers.current_way_tags); lemma_put0(o.writers.relations); lemma_put0(o.writers.current_relations); lemma_put0(o.writers.relation_members); lemma_put0(o.writers.current_relation_members); lemma_put0(o.writers.relation_tags); lemma_put0(o.writers.current_relation_tags); assert(stream@.take(0).len() == 0); }
    while i < stream.len()
        invariant 0 <= i <= stream@.len(), sorted(stream@), written(o, *w, stream@.take(i as int)),
        decreases stream.len() - i,
    {
        let ghost w0 = *w;
        let e = stream[i].clone();
        w.write_element(e)?;
        proof {
            let h = stream@.take(i as int);
            assert(stream@.take(i + 1) =~= h.push(e));
            lemma_sorted(stream@, i + 1);
            lemma_step(o, w0, *w, h, e);
        }
        i = i + 1;
    }
    proof { assert(stream@.take(stream@.len() as int) =~= stream@); }
    let ghost w0 = *w;
    w.close()?;
    proof {
        let h = stream@;
        lemma_final(o.writers.current_nodes, w0.writers.current_nodes, w.writers.current_nodes, w0.current_node_line.pend(), w0.current_node_line.last_id, recs(h, 0));
        lemma_put(o.writers.nodes, w0.writers.nodes, w.writers.nodes, history(h, 0), term());
        lemma_final(o.writers.current_node_tags, w0.writers.current_node_tags, w.writers.current_node_tags, w0.current_node_tag_lines.pend(), w0.current_node_tag_lines.last_id, recs(h, 1));
        lemma_put(o.writers.node_tags, w0.writers.node_tags, w.writers.node_tags, history(h, 1), term());
        lemma_final(o.writers.current_ways, w0.writers.current_ways, w.writers.current_ways, w0.current_way_line.pend(), w0.current_way_line.last_id, recs(h, 2));
        lemma_put(o.writers.ways, w0.writers.ways, w.writers.ways, history(h, 2), term());
        lemma_final(o.writers.current_way_nodes, w0.writers.current_way_nodes, w.writers.current_way_nodes, w0.current_way_node_lines.pend(), w0.current_way_node_lines.last_id, recs(h, 3));
        lemma_put(o.writers.way_nodes, w0.writers.way_nodes, w.writers.way_nodes, history(h, 3), term());
        lemma_final(o.writers.current_way_tags, w0.writers.current_way_tags, w.writers.current_way_tags, w0.current_way_tag_lines.pend(), w0.current_way_tag_lines.last_id, recs(h, 4));
        lemma_put(o.writers.way_tags, w0.writers.way_tags, w.writers.way_tags, history(h, 4), term());
        lemma_final(o.writers.current_relations, w0.writers.current_relations, w.writers.current_relations, w0.current_relation_line.pend(), w0.current_relation_line.last_id, recs(h, 5));
        lemma_put(o.writers.relations, w0.writers.relations, w.writers.relations, history(h, 5), term());
        lemma_final(o.writers.current_relation_members, w0.writers.current_relation_members, w.writers.current_relation_members, w0.current_relation_member_lines.pend(), w0.current_relation_member_lines.last_id, recs(h, 6));
        lemma_put(o.writers.relation_members, w0.writers.relation_members, w.writers.relation_members, history(h, 6), term());
        lemma_final(o.writers.current_relation_tags, w0.writers.current_relation_tags, w.writers.current_relation_tags, w0.current_relation_tag_lines.pend(), w0.current_relation_tag_lines.last_id, recs(h, 7));
        lemma_put(o.writers.relation_tags, w0.writers.relation_tags, w.writers.relation_tags, history(h, 7), term());
    }
    Ok(())
}
proof fn lemma_sorted(s: Seq<Element>, n: int)
    requires sorted(s), 0 <= n <= s.len(),
    ensures sorted(s.take(n)),
{
    assert forall|i: int, j: int, t: int| 0 <= i < j < s.take(n).len() && #[trigger] vrec(s.take(n)[i], t) is Some && #[trigger] vrec(s.take(n)[j], t) is Some
        implies vrec(s.take(n)[i], t)->0.id <= vrec(s.take(n)[j], t)->0.id by {
        assert(vrec(s[i], t) is Some && vrec(s[j], t) is Some);
    }
}
}
fn main() {}
