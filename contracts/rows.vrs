// shared: rows of a dumped table (needs std, esc, records, tabledef, tablekey)
verus! {
// ---- text of a row
/// without trailing `c`s
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
/// the pieces between `c`s
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![seq![]] }
    else {
        let t = split(s.drop_last(), c);
        if s.last() == c { t.push(seq![]) } else { t.drop_last().push(t.last().push(s.last())) }
    }
}
#[verifier::external_body]
pub fn str_trim_end(s: &str, c: char) -> (r: &str)
    ensures r@ == trim_end(s@, c),
{ s.trim_end_matches(c) }
/// where `p` first stands in `s` from `i` on, the end when it does not
pub open spec fn stands(s: Seq<char>, p: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p { i } else { stands(s, p, i + 1) } }
/// the pieces between `p`s, `p` longer than one character
pub open spec fn splits(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let i = stands(s, p, 0);
    if p.len() == 0 || i < 0 || i + p.len() > s.len() { seq![s] } else { seq![s.take(i)] + splits(s.skip(i + p.len()), p) }
}
pub open spec fn pieces(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> { if p.len() == 1 { split(s, p[0]) } else { splits(s, p) } }
#[verifier::external_body]
pub fn str_split<P: VPattern>(s: &str, p: P) -> (r: Vec<&str>)
    ensures r@.len() < usize::MAX, r@.len() == pieces(s@, p.pat()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, p.pat())[i],
{ unimplemented!() }
pub trait VPattern { spec fn pat(&self) -> Seq<char>; }
impl VPattern for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VPattern for &str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
pub fn str_starts<P: VPattern>(s: &String, p: P) -> (r: bool)
    ensures r == p.pat().is_prefix_of(s@),
{ unimplemented!() }
/// FromStr of the number types, chrono's parser: functions of the text
pub uninterp spec fn to_i64(s: Seq<char>) -> Option<i64>;
pub uninterp spec fn to_i32(s: Seq<char>) -> Option<i32>;
pub uninterp spec fn to_i16(s: Seq<char>) -> Option<i16>;
pub uninterp spec fn to_f64(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn to_time(s: Seq<char>, f: Seq<char>) -> Option<VTime>;
#[verifier::external_body]
pub fn i64_from_str(s: &str) -> (r: Result<i64, AnyErr>) ensures r.is_ok() == to_i64(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == to_i64(s@) { unimplemented!() }
#[verifier::external_body]
pub fn i32_from_str(s: &str) -> (r: Result<i32, AnyErr>) ensures r.is_ok() == to_i32(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == to_i32(s@) { unimplemented!() }
#[verifier::external_body]
pub fn i16_from_str(s: &str) -> (r: Result<i16, AnyErr>) ensures r.is_ok() == to_i16(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == to_i16(s@) { unimplemented!() }
#[verifier::external_body]
pub fn f64_from_str(s: &str) -> (r: Result<f64, AnyErr>) ensures r.is_ok() == to_f64(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == to_f64(s@) { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VTime { x: u8 }
impl VTime {
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<VTime, AnyErr>)
        ensures r.is_ok() == to_time(s@, f@).is_some(), r.is_ok() ==> Some(r->Ok_0) == to_time(s@, f@),
    { unimplemented!() }
}
/// PostgreSQL's timestamp text
pub open spec fn sql_time(s: Seq<char>) -> Option<VTime> { to_time(s, "%Y-%m-%d %H:%M:%S%.f"@) }
pub open spec fn sql_null(s: Seq<char>, r: Option<String>) -> bool { if s == "\\N"@ { r is None } else { r is Some && r->0@ == s } }
pub open spec fn sql_bool(s: Seq<char>) -> Option<bool> { if s == "t"@ { Some(true) } else if s == "f"@ { Some(false) } else { None } }
//@ fn src/osm/apidb_dump/sql.rs parse_sql_time ret=r
    ensures r.is_ok() == sql_time(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == sql_time(s@),
//@ end
//@ fn src/osm/apidb_dump/sql.rs parse_sql_bool ret=r
    ensures r.is_ok() == sql_bool(s@).is_some(), r.is_ok() ==> Some(r->Ok_0) == sql_bool(s@),
//@ start:
    proof { reveal_strlit("t"); reveal_strlit("f"); assert("t"@[0] != "f"@[0]); }
//@ end
//@ fn src/osm/apidb_dump/sql.rs parse_sql_null_string ret=r
    ensures sql_null(s@, r),
//@ end
//@ trusted src/osm/apidb_dump/sql.rs unescape_sql_text ret=r
    ensures r@ == un(s@).0,
//@ end
/// `n`, `Node` and so on
pub open spec fn member_kind(s: Seq<char>) -> Option<RelationMemberType> {
    if s == "n"@ || s == "Node"@ { Some(RelationMemberType::Node) } else if s == "w"@ || s == "Way"@ { Some(RelationMemberType::Way) } else if s == "r"@ || s == "Relation"@ { Some(RelationMemberType::Relation) } else { None }
}
pub open spec fn user_status(s: Seq<char>) -> Option<UserStatus> {
    if s == "pending"@ { Some(UserStatus::Pending) } else if s == "active"@ { Some(UserStatus::Active) } else if s == "confirmed"@ { Some(UserStatus::Confirmed) } else if s == "suspended"@ { Some(UserStatus::Suspended) } else if s == "deleted"@ { Some(UserStatus::Deleted) } else { None }
}
pub open spec fn text_format(s: Seq<char>) -> Option<FormatEnum> {
    if s == "html"@ { Some(FormatEnum::Html) } else if s == "markdown"@ { Some(FormatEnum::Markdown) } else if s == "text"@ { Some(FormatEnum::Text) } else { None }
}
proof fn lemma_words()
    ensures

        "Node"@ != "n"@,
        "w"@ != "n"@,
        "w"@ != "Node"@,
        "Way"@ != "n"@,
        "Way"@ != "Node"@,
        "Way"@ != "w"@,
        "r"@ != "n"@,
        "r"@ != "Node"@,
        "r"@ != "w"@,
        "r"@ != "Way"@,
        "Relation"@ != "n"@,
        "Relation"@ != "Node"@,
        "Relation"@ != "w"@,
        "Relation"@ != "Way"@,
        "Relation"@ != "r"@,
        "active"@ != "pending"@,
        "confirmed"@ != "pending"@,
        "confirmed"@ != "active"@,
        "suspended"@ != "pending"@,
        "suspended"@ != "active"@,
        "suspended"@ != "confirmed"@,
        "deleted"@ != "pending"@,
        "deleted"@ != "active"@,
        "deleted"@ != "confirmed"@,
        "deleted"@ != "suspended"@,
        "markdown"@ != "html"@,
        "text"@ != "html"@,
        "text"@ != "markdown"@,
{
    reveal_strlit("n"); assert("n"@.len() == 1);
    reveal_strlit("Node"); assert("Node"@.len() == 4);
    reveal_strlit("w"); assert("w"@.len() == 1);
    reveal_strlit("Way"); assert("Way"@.len() == 3);
    reveal_strlit("r"); assert("r"@.len() == 1);
    reveal_strlit("Relation"); assert("Relation"@.len() == 8);
    assert("w"@[0] != "n"@[0]);
    assert("r"@[0] != "n"@[0]);
    assert("r"@[0] != "w"@[0]);
    reveal_strlit("pending"); assert("pending"@.len() == 7);
    reveal_strlit("active"); assert("active"@.len() == 6);
    reveal_strlit("confirmed"); assert("confirmed"@.len() == 9);
    reveal_strlit("suspended"); assert("suspended"@.len() == 9);
    reveal_strlit("deleted"); assert("deleted"@.len() == 7);
    assert("suspended"@[0] != "confirmed"@[0]);
    assert("deleted"@[0] != "pending"@[0]);
    reveal_strlit("html"); assert("html"@.len() == 4);
    reveal_strlit("markdown"); assert("markdown"@.len() == 8);
    reveal_strlit("text"); assert("text"@.len() == 4);
    assert("text"@[0] != "html"@[0]);
}
//@ fn src/osm/apidb_dump/read/relation_member_record.rs TryFrom@RelationMemberType::try_from ret=r
    ensures r.is_ok() == member_kind(value@).is_some(), r.is_ok() ==> Some(r->Ok_0) == member_kind(value@),
//@ start:
    proof { lemma_words(); }
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs TryFrom@UserStatus::try_from ret=r
    ensures r.is_ok() == user_status(value@).is_some(), r.is_ok() ==> Some(r->Ok_0) == user_status(value@),
//@ start:
    proof { lemma_words(); }
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs TryFrom@FormatEnum::try_from ret=r
    ensures r.is_ok() == text_format(value@).is_some(), r.is_ok() ==> Some(r->Ok_0) == text_format(value@),
//@ start:
    proof { lemma_words(); }
//@ end
//@ type src/osm/apidb_dump/read/table_def.rs TableDef
impl Clone for TableDef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TableDef {
    /// what TableDef::new establishes, for some list of columns
    pub open spec fn wf(self) -> bool { exists|c: Seq<String>| #[trigger] self.of(c) }
    pub open spec fn of(self, c: Seq<String>) -> bool { fields_ok(self.name@, c, self.fields) && key_ok(self.name@, c, self.pkey.key@) }
}
/// a path below another one
pub uninterp spec fn below(p: VPath, name: Seq<char>) -> VPath;
/// where the sorted rows of a table are kept
pub open spec fn sorted_in(p: VPath, name: Seq<char>) -> VPath { below(p, ("sorted-"@ + name) + ".dat"@) }
//@ trusted src/osm/apidb_dump/read/table_def.rs TableDef::build_sorted_path ret=r
    ensures r == sorted_in(path, name@),
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::new ret=r
    requires fields@.len() < usize::MAX,
    ensures
        r.is_ok() <==> complete(name@, fields@),
        r.is_ok() ==> r->Ok_0.of(fields@) && r->Ok_0.wf() && r->Ok_0.name@ == name@ && r->Ok_0.path == path && r->Ok_0.tmp_path == tmp_path && r->Ok_0.sorted_path == sorted_in(tmp_path, name@),
//@ start:
    broadcast use lemma_cloned_names;
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::name ret=r
    ensures r@ == self.name@,
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::path ret=r
    ensures r == self.path,
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::sorted_path ret=r
    ensures r == self.sorted_path,
//@ end
//@ fn src/osm/apidb_dump/read/table_def.rs TableDef::fields_ref ret=r
    ensures *r == self.fields,
//@ end
pub broadcast proof fn lemma_cloned_names(a: Seq<String>, b: Seq<String>)
    ensures #[trigger] ax::seq_cloned(a, b) ==> a == b,
{ if ax::seq_cloned(a, b) { broadcast use ax::axiom_string_ext; assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] b[i] by { assert(cloned(a[i], b[i])); } assert(a =~= b); } }
//@ type src/osm/apidb_dump/read/table_reader.rs RecordBuilder retype=f:RowFn
//@ type src/osm/apidb_dump/read/table_reader.rs TableReader
//@ type src/osm/apidb_dump/read/table_reader.rs TableIterator
impl Clone for TableReader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// the text in column `i`
pub open spec fn at(c: Seq<Seq<char>>, i: usize) -> Seq<char> { c[i as int] }
/// the columns of a line
pub open spec fn columns(line: Seq<char>) -> Seq<Seq<char>> { split(trim_end(line, '\n'), '\t') }
pub open spec fn row_node(t: TableFields, c: Seq<Seq<char>>, r: NodeRecord) -> bool {
    match t { TableFields::Nodes { node_id, latitude, longitude, changeset_id, visible, timestamp, tile, version, redaction_id } => {
        &&& node_id < c.len() && to_i64(at(c, node_id)) == Some(r.node_id)
        &&& latitude < c.len() && to_i32(at(c, latitude)) == Some(r.latitude)
        &&& longitude < c.len() && to_i32(at(c, longitude)) == Some(r.longitude)
        &&& changeset_id < c.len() && to_i64(at(c, changeset_id)) == Some(r.changeset_id)
        &&& visible < c.len() && sql_bool(at(c, visible)) == Some(r.visible)
        &&& timestamp < c.len() && sql_time(at(c, timestamp)) == Some(r.timestamp)
        &&& tile < c.len() && to_i64(at(c, tile)) == Some(r.tile)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& redaction_id < c.len() && r.redaction_id == to_i32(at(c, redaction_id))
    }, _ => false }
}
pub open spec fn row_node_tag(t: TableFields, c: Seq<Seq<char>>, r: NodeTagRecord) -> bool {
    match t { TableFields::NodeTags { node_id, version, k, v } => {
        &&& node_id < c.len() && to_i64(at(c, node_id)) == Some(r.node_id)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& k < c.len() && r.k@ == un(at(c, k)).0
        &&& v < c.len() && r.v@ == un(at(c, v)).0
    }, _ => false }
}
pub open spec fn row_way(t: TableFields, c: Seq<Seq<char>>, r: WayRecord) -> bool {
    match t { TableFields::Ways { way_id, changeset_id, timestamp, version, visible, redaction_id } => {
        &&& way_id < c.len() && to_i64(at(c, way_id)) == Some(r.way_id)
        &&& changeset_id < c.len() && to_i64(at(c, changeset_id)) == Some(r.changeset_id)
        &&& timestamp < c.len() && sql_time(at(c, timestamp)) == Some(r.timestamp)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& visible < c.len() && sql_bool(at(c, visible)) == Some(r.visible)
        &&& redaction_id < c.len() && r.redaction_id == to_i32(at(c, redaction_id))
    }, _ => false }
}
pub open spec fn row_way_node(t: TableFields, c: Seq<Seq<char>>, r: WayNodeRecord) -> bool {
    match t { TableFields::WayNodes { way_id, node_id, version, sequence_id } => {
        &&& way_id < c.len() && to_i64(at(c, way_id)) == Some(r.way_id)
        &&& node_id < c.len() && to_i64(at(c, node_id)) == Some(r.node_id)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& sequence_id < c.len() && to_i64(at(c, sequence_id)) == Some(r.sequence_id)
    }, _ => false }
}
pub open spec fn row_way_tag(t: TableFields, c: Seq<Seq<char>>, r: WayTagRecord) -> bool {
    match t { TableFields::WayTags { way_id, version, k, v } => {
        &&& way_id < c.len() && to_i64(at(c, way_id)) == Some(r.way_id)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& k < c.len() && r.k@ == un(at(c, k)).0
        &&& v < c.len() && r.v@ == un(at(c, v)).0
    }, _ => false }
}
pub open spec fn row_relation(t: TableFields, c: Seq<Seq<char>>, r: RelationRecord) -> bool {
    match t { TableFields::Relations { relation_id, changeset_id, timestamp, version, visible, redaction_id } => {
        &&& relation_id < c.len() && to_i64(at(c, relation_id)) == Some(r.relation_id)
        &&& changeset_id < c.len() && to_i64(at(c, changeset_id)) == Some(r.changeset_id)
        &&& timestamp < c.len() && sql_time(at(c, timestamp)) == Some(r.timestamp)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& visible < c.len() && sql_bool(at(c, visible)) == Some(r.visible)
        &&& redaction_id < c.len() && r.redaction_id == to_i32(at(c, redaction_id))
    }, _ => false }
}
pub open spec fn row_relation_member(t: TableFields, c: Seq<Seq<char>>, r: RelationMemberRecord) -> bool {
    match t { TableFields::RelationMembers { relation_id, member_type, member_id, member_role, version, sequence_id } => {
        &&& relation_id < c.len() && to_i64(at(c, relation_id)) == Some(r.relation_id)
        &&& member_type < c.len() && member_kind(at(c, member_type)) == Some(r.member_type)
        &&& member_id < c.len() && to_i64(at(c, member_id)) == Some(r.member_id)
        &&& member_role < c.len() && r.member_role@ == un(at(c, member_role)).0
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& sequence_id < c.len() && to_i64(at(c, sequence_id)) == Some(r.sequence_id)
    }, _ => false }
}
pub open spec fn row_relation_tag(t: TableFields, c: Seq<Seq<char>>, r: RelationTagRecord) -> bool {
    match t { TableFields::RelationTags { relation_id, version, k, v } => {
        &&& relation_id < c.len() && to_i64(at(c, relation_id)) == Some(r.relation_id)
        &&& version < c.len() && to_i64(at(c, version)) == Some(r.version)
        &&& k < c.len() && r.k@ == un(at(c, k)).0
        &&& v < c.len() && r.v@ == un(at(c, v)).0
    }, _ => false }
}
pub open spec fn row_changeset(t: TableFields, c: Seq<Seq<char>>, r: ChangesetRecord) -> bool {
    match t { TableFields::Changesets { id, user_id, created_at, min_lat, max_lat, min_lon, max_lon, closed_at, num_changes } => {
        &&& id < c.len() && to_i64(at(c, id)) == Some(r.id)
        &&& user_id < c.len() && to_i64(at(c, user_id)) == Some(r.user_id)
        &&& created_at < c.len() && sql_time(at(c, created_at)) == Some(r.created_at)
        &&& min_lat < c.len() && r.min_lat == to_i32(at(c, min_lat))
        &&& max_lat < c.len() && r.max_lat == to_i32(at(c, max_lat))
        &&& min_lon < c.len() && r.min_lon == to_i32(at(c, min_lon))
        &&& max_lon < c.len() && r.max_lon == to_i32(at(c, max_lon))
        &&& closed_at < c.len() && sql_time(at(c, closed_at)) == Some(r.closed_at)
        &&& num_changes < c.len() && to_i32(at(c, num_changes)) == Some(r.num_changes)
    }, _ => false }
}
pub open spec fn row_user(t: TableFields, c: Seq<Seq<char>>, r: UserRecord) -> bool {
    match t { TableFields::Users { email, id, pass_crypt, creation_time, display_name, data_public, description, home_lat, home_lon, home_zoom, pass_salt, email_valid, new_email, creation_ip, languages, status, terms_agreed, consider_pd, auth_uid, preferred_editor, terms_seen, description_format, changesets_count, traces_count, diary_entries_count, image_use_gravatar, auth_provider, home_tile, tou_agreed } => {
        &&& email < c.len() && r.email@ == at(c, email)
        &&& id < c.len() && to_i64(at(c, id)) == Some(r.id)
        &&& pass_crypt < c.len() && r.pass_crypt@ == at(c, pass_crypt)
        &&& creation_time < c.len() && sql_time(at(c, creation_time)) == Some(r.creation_time)
        &&& display_name < c.len() && r.display_name@ == un(at(c, display_name)).0
        &&& data_public < c.len() && sql_bool(at(c, data_public)) == Some(r.data_public)
        &&& description < c.len() && r.description@ == un(at(c, description)).0
        &&& home_lat < c.len() && r.home_lat == to_f64(at(c, home_lat))
        &&& home_lon < c.len() && r.home_lon == to_f64(at(c, home_lon))
        &&& home_zoom < c.len() && r.home_zoom == to_i16(at(c, home_zoom))
        &&& pass_salt < c.len() && sql_null(at(c, pass_salt), r.pass_salt)
        &&& email_valid < c.len() && sql_bool(at(c, email_valid)) == Some(r.email_valid)
        &&& new_email < c.len() && sql_null(at(c, new_email), r.new_email)
        &&& creation_ip < c.len() && sql_null(at(c, creation_ip), r.creation_ip)
        &&& languages < c.len() && sql_null(at(c, languages), r.languages)
        &&& status < c.len() && user_status(at(c, status)) == Some(r.status)
        &&& terms_agreed < c.len() && r.terms_agreed == sql_time(at(c, terms_agreed))
        &&& consider_pd < c.len() && sql_bool(at(c, consider_pd)) == Some(r.consider_pd)
        &&& auth_uid < c.len() && sql_null(at(c, auth_uid), r.auth_uid)
        &&& preferred_editor < c.len() && sql_null(at(c, preferred_editor), r.preferred_editor)
        &&& terms_seen < c.len() && sql_bool(at(c, terms_seen)) == Some(r.terms_seen)
        &&& description_format < c.len() && text_format(at(c, description_format)) == Some(r.description_format)
        &&& changesets_count < c.len() && to_i32(at(c, changesets_count)) == Some(r.changesets_count)
        &&& traces_count < c.len() && to_i32(at(c, traces_count)) == Some(r.traces_count)
        &&& diary_entries_count < c.len() && to_i32(at(c, diary_entries_count)) == Some(r.diary_entries_count)
        &&& image_use_gravatar < c.len() && sql_bool(at(c, image_use_gravatar)) == Some(r.image_use_gravatar)
        &&& auth_provider < c.len() && sql_null(at(c, auth_provider), r.auth_provider)
        &&& home_tile < c.len() && r.home_tile == to_i64(at(c, home_tile))
        &&& tou_agreed < c.len() && r.tou_agreed == sql_time(at(c, tou_agreed))
    }, _ => false }
}
/// the record a line of the table stands for
pub open spec fn is_row(t: TableFields, line: Seq<char>, x: TableRecord) -> bool {
    match x {
        TableRecord::Node { node_record } => row_node(t, columns(line), node_record),
        TableRecord::NodeTag { node_tag_record } => row_node_tag(t, columns(line), node_tag_record),
        TableRecord::Way { way_record } => row_way(t, columns(line), way_record),
        TableRecord::WayNode { way_node_record } => row_way_node(t, columns(line), way_node_record),
        TableRecord::WayTag { way_tag_record } => row_way_tag(t, columns(line), way_tag_record),
        TableRecord::Relation { relation_record } => row_relation(t, columns(line), relation_record),
        TableRecord::RelationMember { relation_member_record } => row_relation_member(t, columns(line), relation_member_record),
        TableRecord::RelationTag { relation_tag_record } => row_relation_tag(t, columns(line), relation_tag_record),
        TableRecord::Changeset { changeset_record } => row_changeset(t, columns(line), changeset_record),
        TableRecord::User { user_record } => row_user(t, columns(line), user_record),
    }
}
/// the rows of a table are records of its kind
pub proof fn lemma_kind(t: TableFields, s: Seq<Seq<char>>)
    requires valid_lines(t, s),
    ensures
        t is Nodes ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is Node,
        t is NodeTags ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is NodeTag,
        t is Ways ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is Way,
        t is WayNodes ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is WayNode,
        t is WayTags ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is WayTag,
        t is Relations ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is Relation,
        t is RelationMembers ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is RelationMember,
        t is RelationTags ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is RelationTag,
        t is Changesets ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is Changeset,
        t is Users ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] rows(t, s)[i]) is User,
{
    assert forall|i: int| 0 <= i < s.len() implies is_row(t, s[i], #[trigger] rows(t, s)[i]) by { assert(is_row(t, s[i], row(t, s[i]))); }
}
/// the row functions by name
#[allow(non_camel_case_types)]
#[derive(Clone, Copy)]
pub enum RowFn { create_node, create_node_tag, create_way, create_way_node, create_way_tag, create_relation, create_relation_member, create_relation_tag, create_changeset, create_user }
impl RowFn {
    pub open spec fn fits(self, t: TableFields) -> bool {
        match self {
            RowFn::create_node => t is Nodes,
            RowFn::create_node_tag => t is NodeTags,
            RowFn::create_way => t is Ways,
            RowFn::create_way_node => t is WayNodes,
            RowFn::create_way_tag => t is WayTags,
            RowFn::create_relation => t is Relations,
            RowFn::create_relation_member => t is RelationMembers,
            RowFn::create_relation_tag => t is RelationTags,
            RowFn::create_changeset => t is Changesets,
            RowFn::create_user => t is Users,
        }
    }
    /// a call through the function pointer
    pub fn call(self, line: &str, table_def: &TableDef, line_number: usize) -> (r: Option<TableRecord>)
        requires line_number < usize::MAX,
        ensures
            self.fits(table_def.fields) ==> r is Some && is_row(table_def.fields, line@, r->0),
            !self.fits(table_def.fields) ==> r is None,
    {
        match self {
            RowFn::create_node => TableReader::create_node(line, table_def, line_number),
            RowFn::create_node_tag => TableReader::create_node_tag(line, table_def, line_number),
            RowFn::create_way => TableReader::create_way(line, table_def, line_number),
            RowFn::create_way_node => TableReader::create_way_node(line, table_def, line_number),
            RowFn::create_way_tag => TableReader::create_way_tag(line, table_def, line_number),
            RowFn::create_relation => TableReader::create_relation(line, table_def, line_number),
            RowFn::create_relation_member => TableReader::create_relation_member(line, table_def, line_number),
            RowFn::create_relation_tag => TableReader::create_relation_tag(line, table_def, line_number),
            RowFn::create_changeset => TableReader::create_changeset(line, table_def, line_number),
            RowFn::create_user => TableReader::create_user(line, table_def, line_number),
        }
    }
}
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_node ret=r diverge
    ensures
        table_def.fields is Nodes ==> r is Some && r->0 is Node && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is Nodes) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_node_tag ret=r diverge
    ensures
        table_def.fields is NodeTags ==> r is Some && r->0 is NodeTag && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is NodeTags) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_way ret=r diverge
    ensures
        table_def.fields is Ways ==> r is Some && r->0 is Way && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is Ways) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_way_node ret=r diverge
    ensures
        table_def.fields is WayNodes ==> r is Some && r->0 is WayNode && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is WayNodes) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_way_tag ret=r diverge
    ensures
        table_def.fields is WayTags ==> r is Some && r->0 is WayTag && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is WayTags) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_relation ret=r diverge
    ensures
        table_def.fields is Relations ==> r is Some && r->0 is Relation && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is Relations) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_relation_member ret=r diverge
    ensures
        table_def.fields is RelationMembers ==> r is Some && r->0 is RelationMember && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is RelationMembers) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_relation_tag ret=r diverge
    ensures
        table_def.fields is RelationTags ==> r is Some && r->0 is RelationTag && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is RelationTags) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_changeset ret=r diverge
    ensures
        table_def.fields is Changesets ==> r is Some && r->0 is Changeset && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is Changesets) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_user ret=r diverge
    ensures
        table_def.fields is Users ==> r is Some && r->0 is User && is_row(table_def.fields, line@, r->0),
        !(table_def.fields is Users) ==> r is None,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::new ret=r
    ensures r.is_ok(), r->Ok_0.table_def == *table_def,
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs TableReader::create_record_builder ret=r
    requires self.table_def.wf(),
    ensures r.is_ok(), r->Ok_0.table_def == self.table_def, r->Ok_0.f.fits(self.table_def.fields),
//@ start:
    proof { lemma_names(); }
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs RecordBuilder::build ret=r
    requires line_number < usize::MAX,
    ensures
        self.f.fits(self.table_def.fields) ==> r is Some && is_row(self.table_def.fields, line@, r->0),
//@ end
// ---- the file of a sorted table: its lines
#[verifier::external_body]
pub struct VPath { x: u8 }
impl Clone for VPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct VFile { x: u8 }
impl VFile {
    pub uninterp spec fn lines(self) -> Seq<Seq<char>>;
    pub uninterp spec fn lines_at(p: VPath) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn open(p: VPath) -> (r: Result<VFile, AnyErr>) ensures r.is_ok() ==> r->Ok_0.lines() == VFile::lines_at(p) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VReader<T> { x: T }
impl VReader<VFile> {
    /// the lines not read yet, each with its line feed
    pub uninterp spec fn lines(self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new(f: VFile) -> (r: Self) ensures r.lines() == f.lines() { unimplemented!() }
    /// reading a sorted file does not fail (assumed)
    #[verifier::external_body]
    pub fn read_line(&mut self, line: &mut String) -> (r: Result<usize, AnyErr>)
        ensures
            r.is_ok(),
            old(self).lines().len() == 0 ==> r->Ok_0 == 0 && final(self).lines() == old(self).lines() && final(line)@ == old(line)@,
            old(self).lines().len() > 0 ==> r->Ok_0 > 0 && final(self).lines() == old(self).lines().skip(1) && final(line)@ == old(line)@ + old(self).lines()[0],
    { unimplemented!() }
}
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@.len() == 0;
/// a line that carries a row (the terminator and blank lines do not; the sort drops them)
pub open spec fn is_data(l: Seq<char>) -> bool { l.len() > 0 && l[0] != '\n' && !("\\."@.is_prefix_of(l)) }
pub open spec fn all_data(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_data(#[trigger] s[i]) }
/// every line carries a row that parses
pub open spec fn valid_lines(t: TableFields, s: Seq<Seq<char>>) -> bool { all_data(s) && forall|i: int| 0 <= i < s.len() ==> is_row(t, #[trigger] s[i], row(t, s[i])) }
pub open spec fn rows(t: TableFields, s: Seq<Seq<char>>) -> Seq<TableRecord> { Seq::new(s.len(), |i: int| row(t, s[i])) }
impl TableDef {
    /// the lines of the sorted table
    pub open spec fn data(self) -> Seq<Seq<char>> { VFile::lines_at(self.sorted_path) }
    pub open spec fn valid(self) -> bool { self.wf() && valid_lines(self.fields, self.data()) }
    pub open spec fn records(self) -> Seq<TableRecord> { rows(self.fields, self.data()) }
}
pub open spec fn row(t: TableFields, line: Seq<char>) -> TableRecord { choose|x: TableRecord| is_row(t, line, x) }

pub proof fn lemma_row_unique(t: TableFields, line: Seq<char>, x: TableRecord)
    requires is_row(t, line, x),
    ensures x == row(t, line),
{
    broadcast use ax::axiom_string_ext;
    let y = row(t, line);
    assert(is_row(t, line, y));
    match t {
        TableFields::Nodes { .. } => { assert(x is Node && y is Node); let (a, b) = (x->node_record, y->node_record); assert(a == b); }
        TableFields::NodeTags { .. } => { assert(x is NodeTag && y is NodeTag); let (a, b) = (x->node_tag_record, y->node_tag_record); assert(a.k@ == b.k@); assert(a.v@ == b.v@); assert(a == b); }
        TableFields::Ways { .. } => { assert(x is Way && y is Way); let (a, b) = (x->way_record, y->way_record); assert(a == b); }
        TableFields::WayNodes { .. } => { assert(x is WayNode && y is WayNode); let (a, b) = (x->way_node_record, y->way_node_record); assert(a == b); }
        TableFields::WayTags { .. } => { assert(x is WayTag && y is WayTag); let (a, b) = (x->way_tag_record, y->way_tag_record); assert(a.k@ == b.k@); assert(a.v@ == b.v@); assert(a == b); }
        TableFields::Relations { .. } => { assert(x is Relation && y is Relation); let (a, b) = (x->relation_record, y->relation_record); assert(a == b); }
        TableFields::RelationMembers { .. } => { assert(x is RelationMember && y is RelationMember); let (a, b) = (x->relation_member_record, y->relation_member_record); assert(a.member_role@ == b.member_role@); assert(a == b); }
        TableFields::RelationTags { .. } => { assert(x is RelationTag && y is RelationTag); let (a, b) = (x->relation_tag_record, y->relation_tag_record); assert(a.k@ == b.k@); assert(a.v@ == b.v@); assert(a == b); }
        TableFields::Changesets { .. } => { assert(x is Changeset && y is Changeset); let (a, b) = (x->changeset_record, y->changeset_record); assert(a == b); }
        TableFields::Users { .. } => { assert(x is User && y is User); let (a, b) = (x->user_record, y->user_record); assert(a.email@ == b.email@); assert(a.pass_crypt@ == b.pass_crypt@); assert(a.display_name@ == b.display_name@); assert(a.description@ == b.description@); if a.pass_salt is Some { assert((a.pass_salt->0)@ == (b.pass_salt->0)@); } assert(a.pass_salt == b.pass_salt); if a.new_email is Some { assert((a.new_email->0)@ == (b.new_email->0)@); } assert(a.new_email == b.new_email); if a.creation_ip is Some { assert((a.creation_ip->0)@ == (b.creation_ip->0)@); } assert(a.creation_ip == b.creation_ip); if a.languages is Some { assert((a.languages->0)@ == (b.languages->0)@); } assert(a.languages == b.languages); if a.auth_uid is Some { assert((a.auth_uid->0)@ == (b.auth_uid->0)@); } assert(a.auth_uid == b.auth_uid); if a.preferred_editor is Some { assert((a.preferred_editor->0)@ == (b.preferred_editor->0)@); } assert(a.preferred_editor == b.preferred_editor); if a.auth_provider is Some { assert((a.auth_provider->0)@ == (b.auth_provider->0)@); } assert(a.auth_provider == b.auth_provider); assert(a == b); }
    }
}
impl TableIterator {
    pub open spec fn wf(self) -> bool { self.record_builder.f.fits(self.record_builder.table_def.fields) && valid_lines(self.record_builder.table_def.fields, self.reader.lines()) }
    /// the records still to come
    pub open spec fn rem(self) -> Seq<TableRecord> { rows(self.record_builder.table_def.fields, self.reader.lines()) }
}
//@ fn src/osm/apidb_dump/read/table_reader.rs TableIterator::new ret=r
    requires table_reader.table_def.valid(),
    ensures r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.record_builder.table_def == table_reader.table_def && r->Ok_0.rem() == table_reader.table_def.records(),
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs IntoIterator@TableReader::into_iter ret=r diverge
    requires self.table_def.valid(),
    ensures r.wf(), r.record_builder.table_def == self.table_def, r.rem() == self.table_def.records(),
//@ end
//@ fn src/osm/apidb_dump/read/table_reader.rs Iterator@TableIterator::next ret=r
    requires old(self).wf(),
    ensures
        final(self).record_builder == old(self).record_builder,
        old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1) && is_row(old(self).record_builder.table_def.fields, old(self).reader.lines()[0], r->0),
        final(self).wf(),
//@ start:
    broadcast use ax::axiom_string_ext;
    proof { reveal_strlit("\\."); }
    let ghost o = *self;
    // 2^64 calls do not happen
    proof { assume(self.line_number < usize::MAX - 1); }
    let ghost t = o.record_builder.table_def.fields;
    proof {
        if o.reader.lines().len() > 0 {
            let l0 = o.reader.lines()[0];
            assert(is_data(l0));
            assert(Seq::<char>::empty() + l0 =~= l0);
            assert(l0.len() > 0 && !("\\."@.is_prefix_of(l0)));
            assert(!(seq!['\n'].is_prefix_of(l0))) by { if seq!['\n'].is_prefix_of(l0) { assert(l0[0] == seq!['\n'][0]); } }
            assert(valid_lines(t, o.reader.lines().skip(1))) by { assert forall|i: int| 0 <= i < o.reader.lines().skip(1).len() implies is_data(#[trigger] o.reader.lines().skip(1)[i]) && is_row(t, o.reader.lines().skip(1)[i], row(t, o.reader.lines().skip(1)[i])) by { assert(o.reader.lines().skip(1)[i] == o.reader.lines()[i + 1]); } }
            assert forall|x: TableRecord| #[trigger] is_row(t, l0, x) implies x == row(t, l0) by { lemma_row_unique(t, l0, x); }
            assert(o.rem().skip(1) =~= rows(t, o.reader.lines().skip(1)));
        }
    }
//@ end
}
