//@ rename Error AnyErr
//@ rename BufWriter VOut
//@ rename File VFile
//@ rename PathBuf VPath
//@ rename BtreeIndex VIndex
//@ include prelude.vrs
//@ include fmt.vrs
verus! {
use std::collections::HashMap;
#[verifier::external_body]
pub struct VFile { x: u8 }
#[verifier::external_body]
pub struct VPath { x: u8 }
//@ type src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter
//@ type src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters
impl TableDataWriter { pub open spec fn text(self) -> Seq<char> { self.writer.text() } }
pub open spec fn put(a: TableDataWriter, b: TableDataWriter, s: Seq<char>) -> bool { b.text() == a.text() + s }
/// the terminator of COPY data
pub open spec fn ends(a: TableDataWriter, b: TableDataWriter) -> bool { put(a, b, "\\.\n"@) }
//@ fn src/osm/apidb_dump/write/table_data_writer.rs TableDataWriter::close ret=r
    ensures r.is_ok() ==> ends(*old(self), *final(self)),
//@ end
//@ fn src/osm/apidb_dump/write/table_data_writers.rs TableDataWriters::close ret=r
    ensures
        r.is_ok() ==> ({
            let (o, f) = (*old(self), *final(self));
            &&& ends(o.acls, f.acls)
            &&& ends(o.active_storage_attachments, f.active_storage_attachments)
            &&& ends(o.active_storage_blobs, f.active_storage_blobs)
            &&& ends(o.active_storage_variant_records, f.active_storage_variant_records)
            &&& ends(o.ar_internal_metadata, f.ar_internal_metadata)
            &&& ends(o.changeset_comments, f.changeset_comments)
            &&& ends(o.changeset_tags, f.changeset_tags)
            &&& ends(o.changesets, f.changesets)
            &&& ends(o.changesets_subscribers, f.changesets_subscribers)
            &&& ends(o.client_applications, f.client_applications)
            &&& ends(o.current_node_tags, f.current_node_tags)
            &&& ends(o.current_nodes, f.current_nodes)
            &&& ends(o.current_relation_members, f.current_relation_members)
            &&& ends(o.current_relation_tags, f.current_relation_tags)
            &&& ends(o.current_relations, f.current_relations)
            &&& ends(o.current_way_nodes, f.current_way_nodes)
            &&& ends(o.current_way_tags, f.current_way_tags)
            &&& ends(o.current_ways, f.current_ways)
            &&& ends(o.delayed_jobs, f.delayed_jobs)
            &&& ends(o.diary_comments, f.diary_comments)
            &&& ends(o.diary_entries, f.diary_entries)
            &&& ends(o.diary_entry_subscriptions, f.diary_entry_subscriptions)
            &&& ends(o.friends, f.friends)
            &&& ends(o.gps_points, f.gps_points)
            &&& ends(o.gpx_file_tags, f.gpx_file_tags)
            &&& ends(o.gpx_files, f.gpx_files)
            &&& ends(o.issue_comments, f.issue_comments)
            &&& ends(o.issues, f.issues)
            &&& ends(o.languages, f.languages)
            &&& ends(o.messages, f.messages)
            &&& ends(o.node_tags, f.node_tags)
            &&& ends(o.nodes, f.nodes)
            &&& ends(o.note_comments, f.note_comments)
            &&& ends(o.notes, f.notes)
            &&& ends(o.oauth_access_grants, f.oauth_access_grants)
            &&& ends(o.oauth_access_tokens, f.oauth_access_tokens)
            &&& ends(o.oauth_applications, f.oauth_applications)
            &&& ends(o.oauth_nonces, f.oauth_nonces)
            &&& ends(o.oauth_tokens, f.oauth_tokens)
            &&& ends(o.redactions, f.redactions)
            &&& ends(o.relation_members, f.relation_members)
            &&& ends(o.relation_tags, f.relation_tags)
            &&& ends(o.relations, f.relations)
            &&& ends(o.reports, f.reports)
            &&& ends(o.schema_migrations, f.schema_migrations)
            &&& ends(o.user_blocks, f.user_blocks)
            &&& ends(o.user_preferences, f.user_preferences)
            &&& ends(o.user_roles, f.user_roles)
            &&& ends(o.user_tokens, f.user_tokens)
            &&& ends(o.users, f.users)
            &&& ends(o.way_nodes, f.way_nodes)
            &&& ends(o.way_tags, f.way_tags)
            &&& ends(o.ways, f.ways)
        }),
//@ end
}
fn main() {}
