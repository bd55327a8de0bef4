//@ rename Error AnyErr
//@ rename BufWriter VOut
//@ rename File VFile
//@ rename PathBuf::from rel_path
//@ rename PathBuf VPath
//@ rename Path VPath
//@ rename BtreeIndex VIndex
//@ rename JsonValue VJson
//@ rename json::parse json_parse
//@ rename fs::create_dir_all make_dirs
//@ rename fs::write write_bytes
//@ rename TOC toc_template
//@ rename MAPPING mapping_template
//@ include prelude.vrs
//@ include std.vrs
//@ include fmt.vrs
verus! {
use std::collections::HashMap;
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, ax::axiom_string_ext};
// ---- paths and files
#[verifier::external_body]
pub struct VPath { x: u8 }
/// a path below another one
pub uninterp spec fn below(p: VPath, name: Seq<char>) -> VPath;
/// a relative path of one name
pub uninterp spec fn name_of(p: VPath) -> Seq<char>;
#[verifier::external_body]
pub fn rel_path(s: &str) -> (r: VPath) ensures name_of(r) == s@ { unimplemented!() }
pub trait VText { spec fn text(&self) -> Seq<char>; }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl VText for VPath { open spec fn text(&self) -> Seq<char> { name_of(*self) } }
impl VPath {
    #[verifier::external_body]
    pub fn join<S: VText>(&self, s: S) -> (r: VPath) ensures r == below(*self, s.text()) { unimplemented!() }
}
#[verifier::external_body]
pub struct VFile { x: u8 }
impl VFile {
    pub uninterp spec fn at(&self) -> VPath;
    /// a new, empty file (or an existing one emptied)
    #[verifier::external_body]
    pub fn create(p: &VPath) -> (r: Result<VFile, AnyErr>) ensures r.is_ok() ==> r->Ok_0.at() == *p { unimplemented!() }
}
#[verifier::external_body]
pub struct VWorld { x: u8 }
impl VWorld { pub uninterp spec fn files(&self) -> Map<VPath, Seq<u8>>; }
#[verifier::external_body]
pub fn make_dirs(p: &VPath) -> (r: Result<(), AnyErr>) { unimplemented!() }
#[verifier::external_body]
pub fn write_bytes(p: &VPath, b: &[u8], w: &mut VWorld) -> (r: Result<(), AnyErr>)
    ensures r.is_ok() ==> final(w).files() == old(w).files().insert(*p, b@),
{ unimplemented!() }
// ---- the templates the crate carries (include_bytes!, include_str!)
pub uninterp spec fn toc_bytes() -> Seq<u8>;
pub uninterp spec fn mapping_text() -> Seq<char>;
#[verifier::external_body]
const fn toc_file() -> (r: &'static [u8]) ensures r@ == toc_bytes() { &[] }
#[verifier::external_body]
const fn mapping_file() -> (r: &'static str) ensures r@ == mapping_text() { "" }
pub exec static toc_template: &'static [u8] ensures toc_template@ == toc_bytes() { toc_file() }
pub exec static mapping_template: &'static str ensures mapping_template@ == mapping_text() { mapping_file() }
// ---- json: an object of texts
#[verifier::external_body]
pub struct VJson { x: u8 }
pub uninterp spec fn parsed(s: Seq<char>) -> VJson;
#[verifier::external_body]
pub fn json_parse(s: &str) -> (r: Result<VJson, AnyErr>) ensures r.is_ok() ==> r->Ok_0 == parsed(s@) { unimplemented!() }
impl VJson {
    /// the text of the entry of that name
    pub uninterp spec fn entry(&self, name: Seq<char>) -> VJson;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<&str> for VJson { open spec fn index_req(&self, name: &&str) -> bool { true } }
impl std::ops::Index<&str> for VJson {
    type Output = VJson;
    #[verifier::external_body]
    fn index(&self, name: &str) -> (r: &VJson) ensures *r == self.entry(name@) { unimplemented!() }
}
/// the file of a table
pub open spec fn file_of(m: VJson, name: Seq<char>) -> Seq<char> { m.entry(name).text() }
// ---- the index
pub struct BtreeConfig { pub x: u8 }
impl BtreeConfig {
    #[verifier::external_body]
    pub fn default() -> BtreeConfig { unimplemented!() }
}
impl<K, V> VIndex<K, V> {
    #[verifier::external_body]
    pub fn with_capacity(c: BtreeConfig, n: usize) -> (r: Result<Self, AnyErr>)
        ensures r.is_ok() ==> r->Ok_0.map() == Map::<K, V>::empty(),
    { unimplemented!() }
}
//@ type src/osm/apidb_dump/write/current_object.rs CurrentObjectLine
//@ type src/osm/apidb_dump/write/current_object.rs CurrentObjectLines
//@ type src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter
//@ type src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters
//@ type src/osm/apidb_dump/write/writer.rs Writer
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLine::new ret=r
    ensures r.last_line is None,
//@ end
//@ fn src/osm/apidb_dump/write/current_object.rs CurrentObjectLines::new ret=r
    ensures r.last_lines is None,
//@ end
/// an empty data file of that name for that table
pub open spec fn fresh(t: TableDataWriter, dir: VPath, table: Seq<char>, file: Seq<char>) -> bool {
    &&& t.table_name@ == table && t.file_path == below(dir, file)
    &&& t.writer.dest().at() == below(dir, file) && t.writer.text() == Seq::<char>::empty()
}
//@ fn src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter::new ret=r
    ensures r.is_ok() ==> fresh(r->Ok_0, *output_path, table_name@, file_name@),
//@ end
//@ fn src/osm/apidb_dump/write/toc.rs write_toc ret=r world=w:fs::write
    ensures r.is_ok() ==> final(w).files() == old(w).files().insert(below(*path, "toc.dat"@), toc_bytes()),
//@ end
//@ fn src/osm/apidb_dump/write/toc.rs load_template_mapping ret=r
    ensures r.is_ok() ==> r->Ok_0 == parsed(mapping_text()),
//@ end
pub open spec fn all_fresh(t: TableDataWriters, m: VJson, dir: VPath) -> bool {
    &&& fresh(t.acls, dir, "public.acls"@, file_of(m, "public.acls"@))
    &&& fresh(t.active_storage_attachments, dir, "public.active_storage_attachments"@, file_of(m, "public.active_storage_attachments"@))
    &&& fresh(t.active_storage_blobs, dir, "public.active_storage_blobs"@, file_of(m, "public.active_storage_blobs"@))
    &&& fresh(t.active_storage_variant_records, dir, "public.active_storage_variant_records"@, file_of(m, "public.active_storage_variant_records"@))
    &&& fresh(t.ar_internal_metadata, dir, "public.ar_internal_metadata"@, file_of(m, "public.ar_internal_metadata"@))
    &&& fresh(t.changeset_comments, dir, "public.changeset_comments"@, file_of(m, "public.changeset_comments"@))
    &&& fresh(t.changeset_tags, dir, "public.changeset_tags"@, file_of(m, "public.changeset_tags"@))
    &&& fresh(t.changesets, dir, "public.changesets"@, file_of(m, "public.changesets"@))
    &&& fresh(t.changesets_subscribers, dir, "public.changesets_subscribers"@, file_of(m, "public.changesets_subscribers"@))
    &&& fresh(t.client_applications, dir, "public.client_applications"@, file_of(m, "public.client_applications"@))
    &&& fresh(t.current_node_tags, dir, "public.current_node_tags"@, file_of(m, "public.current_node_tags"@))
    &&& fresh(t.current_nodes, dir, "public.current_nodes"@, file_of(m, "public.current_nodes"@))
    &&& fresh(t.current_relation_members, dir, "public.current_relation_members"@, file_of(m, "public.current_relation_members"@))
    &&& fresh(t.current_relation_tags, dir, "public.current_relation_tags"@, file_of(m, "public.current_relation_tags"@))
    &&& fresh(t.current_relations, dir, "public.current_relations"@, file_of(m, "public.current_relations"@))
    &&& fresh(t.current_way_nodes, dir, "public.current_way_nodes"@, file_of(m, "public.current_way_nodes"@))
    &&& fresh(t.current_way_tags, dir, "public.current_way_tags"@, file_of(m, "public.current_way_tags"@))
    &&& fresh(t.current_ways, dir, "public.current_ways"@, file_of(m, "public.current_ways"@))
    &&& fresh(t.delayed_jobs, dir, "public.delayed_jobs"@, file_of(m, "public.delayed_jobs"@))
    &&& fresh(t.diary_comments, dir, "public.diary_comments"@, file_of(m, "public.diary_comments"@))
    &&& fresh(t.diary_entries, dir, "public.diary_entries"@, file_of(m, "public.diary_entries"@))
    &&& fresh(t.diary_entry_subscriptions, dir, "public.diary_entry_subscriptions"@, file_of(m, "public.diary_entry_subscriptions"@))
    &&& fresh(t.friends, dir, "public.friends"@, file_of(m, "public.friends"@))
    &&& fresh(t.gps_points, dir, "public.gps_points"@, file_of(m, "public.gps_points"@))
    &&& fresh(t.gpx_file_tags, dir, "public.gpx_file_tags"@, file_of(m, "public.gpx_file_tags"@))
    &&& fresh(t.gpx_files, dir, "public.gpx_files"@, file_of(m, "public.gpx_files"@))
    &&& fresh(t.issue_comments, dir, "public.issue_comments"@, file_of(m, "public.issue_comments"@))
    &&& fresh(t.issues, dir, "public.issues"@, file_of(m, "public.issues"@))
    &&& fresh(t.languages, dir, "public.languages"@, file_of(m, "public.languages"@))
    &&& fresh(t.messages, dir, "public.messages"@, file_of(m, "public.messages"@))
    &&& fresh(t.node_tags, dir, "public.node_tags"@, file_of(m, "public.node_tags"@))
    &&& fresh(t.nodes, dir, "public.nodes"@, file_of(m, "public.nodes"@))
    &&& fresh(t.note_comments, dir, "public.note_comments"@, file_of(m, "public.note_comments"@))
    &&& fresh(t.notes, dir, "public.notes"@, file_of(m, "public.notes"@))
    &&& fresh(t.oauth_access_grants, dir, "public.oauth_access_grants"@, file_of(m, "public.oauth_access_grants"@))
    &&& fresh(t.oauth_access_tokens, dir, "public.oauth_access_tokens"@, file_of(m, "public.oauth_access_tokens"@))
    &&& fresh(t.oauth_applications, dir, "public.oauth_applications"@, file_of(m, "public.oauth_applications"@))
    &&& fresh(t.oauth_nonces, dir, "public.oauth_nonces"@, file_of(m, "public.oauth_nonces"@))
    &&& fresh(t.oauth_tokens, dir, "public.oauth_tokens"@, file_of(m, "public.oauth_tokens"@))
    &&& fresh(t.redactions, dir, "public.redactions"@, file_of(m, "public.redactions"@))
    &&& fresh(t.relation_members, dir, "public.relation_members"@, file_of(m, "public.relation_members"@))
    &&& fresh(t.relation_tags, dir, "public.relation_tags"@, file_of(m, "public.relation_tags"@))
    &&& fresh(t.relations, dir, "public.relations"@, file_of(m, "public.relations"@))
    &&& fresh(t.reports, dir, "public.reports"@, file_of(m, "public.reports"@))
    &&& fresh(t.schema_migrations, dir, "public.schema_migrations"@, file_of(m, "public.schema_migrations"@))
    &&& fresh(t.user_blocks, dir, "public.user_blocks"@, file_of(m, "public.user_blocks"@))
    &&& fresh(t.user_preferences, dir, "public.user_preferences"@, file_of(m, "public.user_preferences"@))
    &&& fresh(t.user_roles, dir, "public.user_roles"@, file_of(m, "public.user_roles"@))
    &&& fresh(t.user_tokens, dir, "public.user_tokens"@, file_of(m, "public.user_tokens"@))
    &&& fresh(t.users, dir, "public.users"@, file_of(m, "public.users"@))
    &&& fresh(t.way_nodes, dir, "public.way_nodes"@, file_of(m, "public.way_nodes"@))
    &&& fresh(t.way_tags, dir, "public.way_tags"@, file_of(m, "public.way_tags"@))
    &&& fresh(t.ways, dir, "public.ways"@, file_of(m, "public.ways"@))
    &&& t.user_index.map() == Map::<i64, String>::empty() && t.changeset_user_index.map() == Map::<i64, i64>::empty()
    &&& t.user_index_buffer@ == Map::<i64, String>::empty() && t.changeset_user_index_buffer@ == Map::<i64, i64>::empty()
}
//@ fn src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters::new ret=r diverge
    ensures r.is_ok() ==> all_fresh(r->Ok_0, template_mapping, *output_path),
//@ end
//@ fn src/osm/apidb_dump/write/writer.rs Writer::create_result_dir ret=r world=w:write_toc
    ensures r.is_ok() ==> final(w).files() == old(w).files().insert(below(*output_path, "toc.dat"@), toc_bytes()),
//@ end
//@ fn src/osm/apidb_dump/write/writer.rs Writer::new ret=r world=w:create_result_dir
    ensures
        r.is_ok() ==> ({
            let x = r->Ok_0;
            &&& final(w).files() == old(w).files().insert(below(output_path, "toc.dat"@), toc_bytes())
            &&& all_fresh(x.writers, parsed(mapping_text()), output_path)
            // no current object yet: what the clients of write_element start from
            &&& x.current_node_line.last_line is None && x.current_node_tag_lines.last_lines is None
            &&& x.current_way_line.last_line is None && x.current_way_node_lines.last_lines is None && x.current_way_tag_lines.last_lines is None
            &&& x.current_relation_line.last_line is None && x.current_relation_member_lines.last_lines is None && x.current_relation_tag_lines.last_lines is None
        }),
//@ end
}
fn main() {}
