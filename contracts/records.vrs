verus! {
//@ type src/osm/apidb_dump/read/node_record.rs NodeRecord
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::new ret=r
    ensures r == (NodeRecord { node_id, latitude, longitude, changeset_id, visible, timestamp, tile, version, redaction_id }),
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::node_id ret=r
    ensures r == self.node_id,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::latitude ret=r
    ensures r == self.latitude,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::longitude ret=r
    ensures r == self.longitude,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::changeset_id ret=r
    ensures r == self.changeset_id,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::tile ret=r
    ensures r == self.tile,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/node_record.rs NodeRecord::redaction_id ret=r
    ensures r == self.redaction_id,
//@ end
//@ type src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::new ret=r
    ensures r == (NodeTagRecord { node_id, version, k, v }),
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::node_id ret=r
    ensures r == self.node_id,
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::k ret=r
    ensures *r == self.k,
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::v ret=r
    ensures *r == self.v,
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::take_k ret=r
    ensures r == old(self).k, final(self).node_id == old(self).node_id, final(self).version == old(self).version, final(self).v == old(self).v,
//@ end
//@ fn src/osm/apidb_dump/read/node_tag_record.rs NodeTagRecord::take_v ret=r
    ensures r == old(self).v, final(self).node_id == old(self).node_id, final(self).version == old(self).version, final(self).k == old(self).k,
//@ end
//@ type src/osm/apidb_dump/read/way_record.rs WayRecord
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::new ret=r
    ensures r == (WayRecord { way_id, changeset_id, timestamp, version, visible, redaction_id }),
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::way_id ret=r
    ensures r == self.way_id,
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::changeset_id ret=r
    ensures r == self.changeset_id,
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/apidb_dump/read/way_record.rs WayRecord::redaction_id ret=r
    ensures r == self.redaction_id,
//@ end
//@ type src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::new ret=r
    ensures r == (WayTagRecord { way_id, version, k, v }),
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::way_id ret=r
    ensures r == self.way_id,
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::k ret=r
    ensures *r == self.k,
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::v ret=r
    ensures *r == self.v,
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::take_k ret=r
    ensures r == old(self).k, final(self).way_id == old(self).way_id, final(self).version == old(self).version, final(self).v == old(self).v,
//@ end
//@ fn src/osm/apidb_dump/read/way_tag_record.rs WayTagRecord::take_v ret=r
    ensures r == old(self).v, final(self).way_id == old(self).way_id, final(self).version == old(self).version, final(self).k == old(self).k,
//@ end
//@ type src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord
//@ fn src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord::new ret=r
    ensures r == (WayNodeRecord { way_id, node_id, version, sequence_id }),
//@ end
//@ fn src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord::way_id ret=r
    ensures r == self.way_id,
//@ end
//@ fn src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord::node_id ret=r
    ensures r == self.node_id,
//@ end
//@ fn src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/way_node_record.rs WayNodeRecord::sequence_id ret=r
    ensures r == self.sequence_id,
//@ end
//@ type src/osm/apidb_dump/read/relation_record.rs RelationRecord
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::new ret=r
    ensures r == (RelationRecord { relation_id, changeset_id, timestamp, version, visible, redaction_id }),
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::relation_id ret=r
    ensures r == self.relation_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::changeset_id ret=r
    ensures r == self.changeset_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/apidb_dump/read/relation_record.rs RelationRecord::redaction_id ret=r
    ensures r == self.redaction_id,
//@ end
//@ type src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::new ret=r
    ensures r == (RelationTagRecord { relation_id, version, k, v }),
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::relation_id ret=r
    ensures r == self.relation_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::k ret=r
    ensures *r == self.k,
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::v ret=r
    ensures *r == self.v,
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::take_k ret=r
    ensures r == old(self).k, final(self).relation_id == old(self).relation_id, final(self).version == old(self).version, final(self).v == old(self).v,
//@ end
//@ fn src/osm/apidb_dump/read/relation_tag_record.rs RelationTagRecord::take_v ret=r
    ensures r == old(self).v, final(self).relation_id == old(self).relation_id, final(self).version == old(self).version, final(self).k == old(self).k,
//@ end
//@ type src/osm/apidb_dump/read/relation_member_record.rs RelationMemberType #[derive(Clone,~Copy)]
//@ type src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::new ret=r
    ensures r == (RelationMemberRecord { relation_id, member_type, member_id, member_role, version, sequence_id }),
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::relation_id ret=r
    ensures r == self.relation_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::member_type ret=r
    ensures r == self.member_type,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::member_id ret=r
    ensures r == self.member_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::member_role ret=r
    ensures *r == self.member_role,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::take_member_role ret=r
    ensures r == old(self).member_role, final(self).relation_id == old(self).relation_id, final(self).member_type == old(self).member_type, final(self).member_id == old(self).member_id, final(self).version == old(self).version, final(self).sequence_id == old(self).sequence_id,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/apidb_dump/read/relation_member_record.rs RelationMemberRecord::sequence_id ret=r
    ensures r == self.sequence_id,
//@ end
//@ type src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::new ret=r
    ensures r == (ChangesetRecord { id, user_id, created_at, min_lat, max_lat, min_lon, max_lon, closed_at, num_changes }),
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::user_id ret=r
    ensures r == self.user_id,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::created_at ret=r
    ensures r == self.created_at,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::min_lat ret=r
    ensures r == self.min_lat,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::max_lat ret=r
    ensures r == self.max_lat,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::min_lon ret=r
    ensures r == self.min_lon,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::max_lon ret=r
    ensures r == self.max_lon,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::closed_at ret=r
    ensures r == self.closed_at,
//@ end
//@ fn src/osm/apidb_dump/read/changeset_record.rs ChangesetRecord::num_changes ret=r
    ensures r == self.num_changes,
//@ end
//@ type src/osm/apidb_dump/read/user_record.rs UserStatus
//@ type src/osm/apidb_dump/read/user_record.rs FormatEnum
//@ type src/osm/apidb_dump/read/user_record.rs UserRecord
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::new ret=r
    ensures r == (UserRecord { email, id, pass_crypt, creation_time, display_name, data_public, description, home_lat, home_lon, home_zoom, pass_salt, email_valid, new_email, creation_ip, languages, status, terms_agreed, consider_pd, auth_uid, preferred_editor, terms_seen, description_format, changesets_count, traces_count, diary_entries_count, image_use_gravatar, auth_provider, home_tile, tou_agreed }),
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::email ret=r
    ensures *r == self.email,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::pass_crypt ret=r
    ensures *r == self.pass_crypt,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::creation_time ret=r
    ensures *r == self.creation_time,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::display_name ret=r
    ensures *r == self.display_name,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::data_public ret=r
    ensures r == self.data_public,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::description ret=r
    ensures *r == self.description,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::home_lat ret=r
    ensures r == self.home_lat,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::home_lon ret=r
    ensures r == self.home_lon,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::home_zoom ret=r
    ensures r == self.home_zoom,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::email_valid ret=r
    ensures r == self.email_valid,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::status ret=r
    ensures *r == self.status,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::terms_agreed ret=r
    ensures *r == self.terms_agreed,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::consider_pd ret=r
    ensures r == self.consider_pd,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::terms_seen ret=r
    ensures r == self.terms_seen,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::description_format ret=r
    ensures *r == self.description_format,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::changesets_count ret=r
    ensures r == self.changesets_count,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::traces_count ret=r
    ensures r == self.traces_count,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::diary_entries_count ret=r
    ensures r == self.diary_entries_count,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::image_use_gravatar ret=r
    ensures r == self.image_use_gravatar,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::home_tile ret=r
    ensures r == self.home_tile,
//@ end
//@ fn src/osm/apidb_dump/read/user_record.rs UserRecord::tou_agreed ret=r
    ensures *r == self.tou_agreed,
//@ end
//@ type src/osm/apidb_dump/read/node_relation.rs NodeRelation
//@ fn src/osm/apidb_dump/read/node_relation.rs NodeRelation::new ret=r
    ensures r == (NodeRelation { node, tags }),
//@ end
//@ fn src/osm/apidb_dump/read/node_relation.rs NodeRelation::node ret=r
    ensures *r == self.node,
//@ end
//@ fn src/osm/apidb_dump/read/node_relation.rs NodeRelation::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/apidb_dump/read/node_relation.rs NodeRelation::take_tags ret=r
    ensures r == old(self).tags, final(self).node == old(self).node,
//@ end
//@ type src/osm/apidb_dump/read/way_relation.rs WayRelation
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::new ret=r
    ensures r == (WayRelation { way, way_nodes, tags }),
//@ end
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::way ret=r
    ensures *r == self.way,
//@ end
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::way_nodes ret=r
    ensures *r == self.way_nodes,
//@ end
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::take_way_nodes ret=r
    ensures r == old(self).way_nodes, final(self).way == old(self).way, final(self).tags == old(self).tags,
//@ end
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/apidb_dump/read/way_relation.rs WayRelation::take_tags ret=r
    ensures r == old(self).tags, final(self).way == old(self).way, final(self).way_nodes == old(self).way_nodes,
//@ end
//@ type src/osm/apidb_dump/read/relation_relation.rs RelationRelation
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::new ret=r
    ensures r == (RelationRelation { relation, relation_members, tags }),
//@ end
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::relation ret=r
    ensures *r == self.relation,
//@ end
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::relation_members ret=r
    ensures *r == self.relation_members,
//@ end
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::take_relation_members ret=r
    ensures r == old(self).relation_members, final(self).relation == old(self).relation, final(self).tags == old(self).tags,
//@ end
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/apidb_dump/read/relation_relation.rs RelationRelation::take_tags ret=r
    ensures r == old(self).tags, final(self).relation == old(self).relation, final(self).relation_members == old(self).relation_members,
//@ end
//@ type src/osm/apidb_dump/read/table_record.rs TableRecord
}
