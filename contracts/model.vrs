verus! {
//@ type src/osm/model/tag.rs Tag
//@ type src/osm/model/coordinate.rs Coordinate
//@ type src/osm/model/node.rs Node
//@ type src/osm/model/way.rs Way
//@ type src/osm/model/relation.rs MemberData
//@ type src/osm/model/relation.rs Member
//@ type src/osm/model/relation.rs Relation
//@ type src/osm/model/element.rs Element
//@ fn src/osm/model/node.rs Node::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/model/node.rs Node::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/model/node.rs Node::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/model/node.rs Node::changeset ret=r
    ensures r == self.changeset,
//@ end
//@ fn src/osm/model/node.rs Node::uid ret=r
    ensures r == self.uid,
//@ end
//@ fn src/osm/model/node.rs Node::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/model/node.rs Node::user ret=r
    ensures *r == self.user,
//@ end
//@ fn src/osm/model/node.rs Node::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/model/node.rs Node::new ret=r
    ensures r == (Node { id, version, coordinate, timestamp, changeset, uid, user, visible, tags }),
//@ end
//@ fn src/osm/model/node.rs Node::take_user ret=r
    ensures r == old(self).user, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).tags == old(self).tags, final(self).coordinate == old(self).coordinate,
//@ end
//@ fn src/osm/model/node.rs Node::take_tags ret=r
    ensures r@ == old(self).tags@, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).user == old(self).user, final(self).coordinate == old(self).coordinate,
//@ end
//@ fn src/osm/model/way.rs Way::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/model/way.rs Way::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/model/way.rs Way::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/model/way.rs Way::changeset ret=r
    ensures r == self.changeset,
//@ end
//@ fn src/osm/model/way.rs Way::uid ret=r
    ensures r == self.uid,
//@ end
//@ fn src/osm/model/way.rs Way::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/model/way.rs Way::user ret=r
    ensures *r == self.user,
//@ end
//@ fn src/osm/model/way.rs Way::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/model/way.rs Way::refs ret=r
    ensures *r == self.refs,
//@ end
//@ fn src/osm/model/way.rs Way::new ret=r
    ensures r == (Way { id, version, timestamp, changeset, uid, user, visible, refs, tags }),
//@ end
//@ fn src/osm/model/way.rs Way::take_user ret=r
    ensures r == old(self).user, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).tags == old(self).tags, final(self).refs == old(self).refs,
//@ end
//@ fn src/osm/model/way.rs Way::take_tags ret=r
    ensures r@ == old(self).tags@, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).user == old(self).user, final(self).refs == old(self).refs,
//@ end
//@ fn src/osm/model/relation.rs Relation::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/model/relation.rs Relation::version ret=r
    ensures r == self.version,
//@ end
//@ fn src/osm/model/relation.rs Relation::timestamp ret=r
    ensures r == self.timestamp,
//@ end
//@ fn src/osm/model/relation.rs Relation::changeset ret=r
    ensures r == self.changeset,
//@ end
//@ fn src/osm/model/relation.rs Relation::uid ret=r
    ensures r == self.uid,
//@ end
//@ fn src/osm/model/relation.rs Relation::visible ret=r
    ensures r == self.visible,
//@ end
//@ fn src/osm/model/relation.rs Relation::user ret=r
    ensures *r == self.user,
//@ end
//@ fn src/osm/model/relation.rs Relation::tags ret=r
    ensures *r == self.tags,
//@ end
//@ fn src/osm/model/relation.rs Relation::members ret=r
    ensures *r == self.members,
//@ end
//@ fn src/osm/model/relation.rs Relation::new ret=r
    ensures r == (Relation { id, version, timestamp, changeset, uid, user, visible, members, tags }),
//@ end
//@ fn src/osm/model/relation.rs Relation::take_user ret=r
    ensures r == old(self).user, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).tags == old(self).tags, final(self).members == old(self).members,
//@ end
//@ fn src/osm/model/relation.rs Relation::take_tags ret=r
    ensures r@ == old(self).tags@, final(self).id == old(self).id, final(self).version == old(self).version, final(self).timestamp == old(self).timestamp, final(self).changeset == old(self).changeset, final(self).uid == old(self).uid, final(self).visible == old(self).visible, final(self).user == old(self).user, final(self).members == old(self).members,
//@ end
//@ fn src/osm/model/node.rs Node::coordinate ret=r
    ensures *r == self.coordinate,
//@ end
//@ fn src/osm/model/coordinate.rs Coordinate::lat ret=r
    ensures r == self.lat,
//@ end
//@ fn src/osm/model/coordinate.rs Coordinate::lon ret=r
    ensures r == self.lon,
//@ end
//@ fn src/osm/model/coordinate.rs Coordinate::new ret=r
    ensures r == (Coordinate { lat, lon }),
//@ end
//@ fn src/osm/model/tag.rs Tag::new ret=r
    ensures r == (Tag { k, v }),
//@ end
//@ fn src/osm/model/tag.rs Tag::k ret=r
    ensures *r == self.k,
//@ end
//@ fn src/osm/model/tag.rs Tag::v ret=r
    ensures *r == self.v,
//@ end
//@ fn src/osm/model/relation.rs MemberData::new ret=r
    ensures r == (MemberData { id, role }),
//@ end
//@ fn src/osm/model/relation.rs MemberData::id ret=r
    ensures r == self.id,
//@ end
//@ fn src/osm/model/relation.rs MemberData::role ret=r
    ensures *r == self.role,
//@ end
//@ fn src/osm/model/element.rs Element::is_node ret=r
    ensures r == (*self is Node),
//@ end
//@ fn src/osm/model/element.rs Element::is_way ret=r
    ensures r == (*self is Way),
//@ end
//@ fn src/osm/model/element.rs Element::is_relation ret=r
    ensures r == (*self is Relation),
//@ end
//@ fn src/osm/model/element.rs Element::is_sentinel ret=r
    ensures r == (*self is Sentinel),
//@ end
// derived Clone: field by field copies
impl Clone for Tag { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Coordinate { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MemberData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Member { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Way { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Relation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Element { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
