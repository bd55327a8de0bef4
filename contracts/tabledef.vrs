// shared: the columns and the sort key of a dumped table
verus! {
//@ type src/osm/apidb_dump/read/table_fields.rs TableFields #[derive(Clone,~Copy)]
/// the column called `name` is not there
pub open spec fn no_col(fields: Seq<String>, name: Seq<char>) -> bool { forall|i: int| 0 <= i < fields.len() ==> (#[trigger] fields[i])@ != name }
/// `k` is the position of the (first) column called `name`
pub open spec fn is_col(fields: Seq<String>, name: Seq<char>, k: int) -> bool { 0 <= k < fields.len() && fields[k]@ == name && (forall|i: int| 0 <= i < k ==> (#[trigger] fields[i])@ != name) }
//@ fn src/osm/apidb_dump/read/table_fields.rs TableFields::index ret=r
    ensures r.is_ok() ==> is_col(fields@, v@, r->Ok_0 as int), r.is_err() <==> no_col(fields@, v@),
//@ loop 0:
    invariant_except_break
        pos_0 is None, forall|i: int| 0 <= i < at_0 ==> (#[trigger] fields@[i])@ != v@,
    invariant
        at_0 <= fields@.len(),
    ensures
        pos_0 is None ==> no_col(fields@, v@),
        pos_0 is Some ==> is_col(fields@, v@, pos_0->0 as int),
    decreases fields@.len() - at_0,
//@ end
/// every field holds the position of the column of its name
pub open spec fn fields_ok(name: Seq<char>, c: Seq<String>, t: TableFields) -> bool {
    match t {
        TableFields::Nodes { node_id, latitude, longitude, changeset_id, visible, timestamp, tile, version, redaction_id } => name == "public.nodes"@ && is_col(c, "node_id"@, node_id as int) && is_col(c, "latitude"@, latitude as int) && is_col(c, "longitude"@, longitude as int) && is_col(c, "changeset_id"@, changeset_id as int) && is_col(c, "visible"@, visible as int) && is_col(c, "\"timestamp\""@, timestamp as int) && is_col(c, "tile"@, tile as int) && is_col(c, "version"@, version as int) && is_col(c, "redaction_id"@, redaction_id as int),
        TableFields::NodeTags { node_id, version, k, v } => name == "public.node_tags"@ && is_col(c, "node_id"@, node_id as int) && is_col(c, "version"@, version as int) && is_col(c, "k"@, k as int) && is_col(c, "v"@, v as int),
        TableFields::Ways { way_id, changeset_id, timestamp, version, visible, redaction_id } => name == "public.ways"@ && is_col(c, "way_id"@, way_id as int) && is_col(c, "changeset_id"@, changeset_id as int) && is_col(c, "\"timestamp\""@, timestamp as int) && is_col(c, "version"@, version as int) && is_col(c, "visible"@, visible as int) && is_col(c, "redaction_id"@, redaction_id as int),
        TableFields::WayNodes { way_id, node_id, version, sequence_id } => name == "public.way_nodes"@ && is_col(c, "way_id"@, way_id as int) && is_col(c, "node_id"@, node_id as int) && is_col(c, "version"@, version as int) && is_col(c, "sequence_id"@, sequence_id as int),
        TableFields::WayTags { way_id, k, v, version } => name == "public.way_tags"@ && is_col(c, "way_id"@, way_id as int) && is_col(c, "k"@, k as int) && is_col(c, "v"@, v as int) && is_col(c, "version"@, version as int),
        TableFields::Relations { relation_id, changeset_id, timestamp, version, visible, redaction_id } => name == "public.relations"@ && is_col(c, "relation_id"@, relation_id as int) && is_col(c, "changeset_id"@, changeset_id as int) && is_col(c, "\"timestamp\""@, timestamp as int) && is_col(c, "version"@, version as int) && is_col(c, "visible"@, visible as int) && is_col(c, "redaction_id"@, redaction_id as int),
        TableFields::RelationMembers { relation_id, member_type, member_id, member_role, version, sequence_id } => name == "public.relation_members"@ && is_col(c, "relation_id"@, relation_id as int) && is_col(c, "member_type"@, member_type as int) && is_col(c, "member_id"@, member_id as int) && is_col(c, "member_role"@, member_role as int) && is_col(c, "version"@, version as int) && is_col(c, "sequence_id"@, sequence_id as int),
        TableFields::RelationTags { relation_id, k, v, version } => name == "public.relation_tags"@ && is_col(c, "relation_id"@, relation_id as int) && is_col(c, "k"@, k as int) && is_col(c, "v"@, v as int) && is_col(c, "version"@, version as int),
        TableFields::Changesets { id, user_id, created_at, min_lat, max_lat, min_lon, max_lon, closed_at, num_changes } => name == "public.changesets"@ && is_col(c, "id"@, id as int) && is_col(c, "user_id"@, user_id as int) && is_col(c, "created_at"@, created_at as int) && is_col(c, "min_lat"@, min_lat as int) && is_col(c, "max_lat"@, max_lat as int) && is_col(c, "min_lon"@, min_lon as int) && is_col(c, "max_lon"@, max_lon as int) && is_col(c, "closed_at"@, closed_at as int) && is_col(c, "num_changes"@, num_changes as int),
        TableFields::Users { email, id, pass_crypt, creation_time, display_name, data_public, description, home_lat, home_lon, home_zoom, pass_salt, email_valid, new_email, creation_ip, languages, status, terms_agreed, consider_pd, auth_uid, preferred_editor, terms_seen, description_format, changesets_count, traces_count, diary_entries_count, image_use_gravatar, auth_provider, home_tile, tou_agreed } => name == "public.users"@ && is_col(c, "email"@, email as int) && is_col(c, "id"@, id as int) && is_col(c, "pass_crypt"@, pass_crypt as int) && is_col(c, "creation_time"@, creation_time as int) && is_col(c, "display_name"@, display_name as int) && is_col(c, "data_public"@, data_public as int) && is_col(c, "description"@, description as int) && is_col(c, "home_lat"@, home_lat as int) && is_col(c, "home_lon"@, home_lon as int) && is_col(c, "home_zoom"@, home_zoom as int) && is_col(c, "pass_salt"@, pass_salt as int) && is_col(c, "email_valid"@, email_valid as int) && is_col(c, "new_email"@, new_email as int) && is_col(c, "creation_ip"@, creation_ip as int) && is_col(c, "languages"@, languages as int) && is_col(c, "status"@, status as int) && is_col(c, "terms_agreed"@, terms_agreed as int) && is_col(c, "consider_pd"@, consider_pd as int) && is_col(c, "auth_uid"@, auth_uid as int) && is_col(c, "preferred_editor"@, preferred_editor as int) && is_col(c, "terms_seen"@, terms_seen as int) && is_col(c, "description_format"@, description_format as int) && is_col(c, "changesets_count"@, changesets_count as int) && is_col(c, "traces_count"@, traces_count as int) && is_col(c, "diary_entries_count"@, diary_entries_count as int) && is_col(c, "image_use_gravatar"@, image_use_gravatar as int) && is_col(c, "auth_provider"@, auth_provider as int) && is_col(c, "home_tile"@, home_tile as int) && is_col(c, "tou_agreed"@, tou_agreed as int),
    }
}
/// all columns of table `name` are there
pub open spec fn complete(name: Seq<char>, c: Seq<String>) -> bool {
    ||| name == "public.nodes"@ && !no_col(c, "node_id"@) && !no_col(c, "latitude"@) && !no_col(c, "longitude"@) && !no_col(c, "changeset_id"@) && !no_col(c, "visible"@) && !no_col(c, "\"timestamp\""@) && !no_col(c, "tile"@) && !no_col(c, "version"@) && !no_col(c, "redaction_id"@)
    ||| name == "public.node_tags"@ && !no_col(c, "node_id"@) && !no_col(c, "version"@) && !no_col(c, "k"@) && !no_col(c, "v"@)
    ||| name == "public.ways"@ && !no_col(c, "way_id"@) && !no_col(c, "changeset_id"@) && !no_col(c, "\"timestamp\""@) && !no_col(c, "version"@) && !no_col(c, "visible"@) && !no_col(c, "redaction_id"@)
    ||| name == "public.way_nodes"@ && !no_col(c, "way_id"@) && !no_col(c, "node_id"@) && !no_col(c, "version"@) && !no_col(c, "sequence_id"@)
    ||| name == "public.way_tags"@ && !no_col(c, "way_id"@) && !no_col(c, "k"@) && !no_col(c, "v"@) && !no_col(c, "version"@)
    ||| name == "public.relations"@ && !no_col(c, "relation_id"@) && !no_col(c, "changeset_id"@) && !no_col(c, "\"timestamp\""@) && !no_col(c, "version"@) && !no_col(c, "visible"@) && !no_col(c, "redaction_id"@)
    ||| name == "public.relation_members"@ && !no_col(c, "relation_id"@) && !no_col(c, "member_type"@) && !no_col(c, "member_id"@) && !no_col(c, "member_role"@) && !no_col(c, "version"@) && !no_col(c, "sequence_id"@)
    ||| name == "public.relation_tags"@ && !no_col(c, "relation_id"@) && !no_col(c, "k"@) && !no_col(c, "v"@) && !no_col(c, "version"@)
    ||| name == "public.changesets"@ && !no_col(c, "id"@) && !no_col(c, "user_id"@) && !no_col(c, "created_at"@) && !no_col(c, "min_lat"@) && !no_col(c, "max_lat"@) && !no_col(c, "min_lon"@) && !no_col(c, "max_lon"@) && !no_col(c, "closed_at"@) && !no_col(c, "num_changes"@)
    ||| name == "public.users"@ && !no_col(c, "email"@) && !no_col(c, "id"@) && !no_col(c, "pass_crypt"@) && !no_col(c, "creation_time"@) && !no_col(c, "display_name"@) && !no_col(c, "data_public"@) && !no_col(c, "description"@) && !no_col(c, "home_lat"@) && !no_col(c, "home_lon"@) && !no_col(c, "home_zoom"@) && !no_col(c, "pass_salt"@) && !no_col(c, "email_valid"@) && !no_col(c, "new_email"@) && !no_col(c, "creation_ip"@) && !no_col(c, "languages"@) && !no_col(c, "status"@) && !no_col(c, "terms_agreed"@) && !no_col(c, "consider_pd"@) && !no_col(c, "auth_uid"@) && !no_col(c, "preferred_editor"@) && !no_col(c, "terms_seen"@) && !no_col(c, "description_format"@) && !no_col(c, "changesets_count"@) && !no_col(c, "traces_count"@) && !no_col(c, "diary_entries_count"@) && !no_col(c, "image_use_gravatar"@) && !no_col(c, "auth_provider"@) && !no_col(c, "home_tile"@) && !no_col(c, "tou_agreed"@)
}
pub open spec fn known(name: Seq<char>) -> bool { name == "public.nodes"@ || name == "public.node_tags"@ || name == "public.ways"@ || name == "public.way_nodes"@ || name == "public.way_tags"@ || name == "public.relations"@ || name == "public.relation_members"@ || name == "public.relation_tags"@ || name == "public.changesets"@ || name == "public.users"@ }
/// the table names differ
pub proof fn lemma_names()
    ensures
        "public.node_tags"@ != "public.nodes"@,
        "public.ways"@ != "public.nodes"@,
        "public.ways"@ != "public.node_tags"@,
        "public.way_nodes"@ != "public.nodes"@,
        "public.way_nodes"@ != "public.node_tags"@,
        "public.way_nodes"@ != "public.ways"@,
        "public.way_tags"@ != "public.nodes"@,
        "public.way_tags"@ != "public.node_tags"@,
        "public.way_tags"@ != "public.ways"@,
        "public.way_tags"@ != "public.way_nodes"@,
        "public.relations"@ != "public.nodes"@,
        "public.relations"@ != "public.node_tags"@,
        "public.relations"@ != "public.ways"@,
        "public.relations"@ != "public.way_nodes"@,
        "public.relations"@ != "public.way_tags"@,
        "public.relation_members"@ != "public.nodes"@,
        "public.relation_members"@ != "public.node_tags"@,
        "public.relation_members"@ != "public.ways"@,
        "public.relation_members"@ != "public.way_nodes"@,
        "public.relation_members"@ != "public.way_tags"@,
        "public.relation_members"@ != "public.relations"@,
        "public.relation_tags"@ != "public.nodes"@,
        "public.relation_tags"@ != "public.node_tags"@,
        "public.relation_tags"@ != "public.ways"@,
        "public.relation_tags"@ != "public.way_nodes"@,
        "public.relation_tags"@ != "public.way_tags"@,
        "public.relation_tags"@ != "public.relations"@,
        "public.relation_tags"@ != "public.relation_members"@,
        "public.changesets"@ != "public.nodes"@,
        "public.changesets"@ != "public.node_tags"@,
        "public.changesets"@ != "public.ways"@,
        "public.changesets"@ != "public.way_nodes"@,
        "public.changesets"@ != "public.way_tags"@,
        "public.changesets"@ != "public.relations"@,
        "public.changesets"@ != "public.relation_members"@,
        "public.changesets"@ != "public.relation_tags"@,
        "public.users"@ != "public.nodes"@,
        "public.users"@ != "public.node_tags"@,
        "public.users"@ != "public.ways"@,
        "public.users"@ != "public.way_nodes"@,
        "public.users"@ != "public.way_tags"@,
        "public.users"@ != "public.relations"@,
        "public.users"@ != "public.relation_members"@,
        "public.users"@ != "public.relation_tags"@,
        "public.users"@ != "public.changesets"@,
{
    reveal_strlit("public.nodes"); assert("public.nodes"@.len() == 12);
    reveal_strlit("public.node_tags"); assert("public.node_tags"@.len() == 16);
    reveal_strlit("public.ways"); assert("public.ways"@.len() == 11);
    reveal_strlit("public.way_nodes"); assert("public.way_nodes"@.len() == 16);
    reveal_strlit("public.way_tags"); assert("public.way_tags"@.len() == 15);
    reveal_strlit("public.relations"); assert("public.relations"@.len() == 16);
    reveal_strlit("public.relation_members"); assert("public.relation_members"@.len() == 23);
    reveal_strlit("public.relation_tags"); assert("public.relation_tags"@.len() == 20);
    reveal_strlit("public.changesets"); assert("public.changesets"@.len() == 17);
    reveal_strlit("public.users"); assert("public.users"@.len() == 12);
    assert("public.way_nodes"@[7] != "public.node_tags"@[7]);
    assert("public.relations"@[7] != "public.node_tags"@[7]);
    assert("public.relations"@[7] != "public.way_nodes"@[7]);
    assert("public.users"@[7] != "public.nodes"@[7]);
}
//@ fn src/osm/apidb_dump/read/table_fields.rs TableFields::new ret=r
    ensures
        r.is_ok() ==> fields_ok(name@, fields@, r->Ok_0),
        r.is_ok() <==> complete(name@, fields@),
//@ start:
    proof { lemma_names(); }
//@ end
pub assume_specification<T> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    where T: std::cmp::PartialEq,
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s@[i], x);
//@ fn src/osm/apidb_dump/read/table_fields.rs TableFields::is_of_interest ret=r
    ensures r == known(name@),
//@ tail:
    proof {
        let s = tables_of_interest@;
        if 0 < s.len() && s[0]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[0], &name)); }
        if 1 < s.len() && s[1]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[1], &name)); }
        if 2 < s.len() && s[2]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[2], &name)); }
        if 3 < s.len() && s[3]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[3], &name)); }
        if 4 < s.len() && s[4]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[4], &name)); }
        if 5 < s.len() && s[5]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[5], &name)); }
        if 6 < s.len() && s[6]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[6], &name)); }
        if 7 < s.len() && s[7]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[7], &name)); }
        if 8 < s.len() && s[8]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[8], &name)); }
        if 9 < s.len() && s[9]@ == name@ { assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&s[9], &name)); }
    }
//@ end
}
