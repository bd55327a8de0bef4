verus! {
pub open spec fn rank(e: Element) -> int {
    match e { Element::Node { .. } => 0, Element::Way { .. } => 1, Element::Relation { .. } => 2, Element::Sentinel => 3 }
}
pub open spec fn eid(e: Element) -> int {
    match e { Element::Node { node } => node.id as int, Element::Way { way } => way.id as int, Element::Relation { relation } => relation.id as int, Element::Sentinel => 0 }
}
pub open spec fn ever(e: Element) -> int {
    match e { Element::Node { node } => node.version as int, Element::Way { way } => way.version as int, Element::Relation { relation } => relation.version as int, Element::Sentinel => 0 }
}
/// Type_then_ID, then version
pub open spec fn ord3(a: Element, b: Element) -> Ordering {
    if rank(a) < rank(b) { Ordering::Less } else if rank(a) > rank(b) { Ordering::Greater }
    else if eid(a) < eid(b) { Ordering::Less } else if eid(a) > eid(b) { Ordering::Greater }
    else if ever(a) < ever(b) { Ordering::Less } else if ever(a) > ever(b) { Ordering::Greater }
    else { Ordering::Equal }
}
//@ fn src/osm/model/element.rs Ord@Element::cmp ret=r
    ensures r == ord3(*self, *other),
//@ end
//@ fn src/osm/model/element.rs PartialOrd@Element::partial_cmp ret=r
    ensures r == Some(ord3(*self, *other)),
//@ end
//@ fn src/osm/model/element.rs PartialEq@Element::eq ret=r
    ensures r == (ord3(*self, *other) == Ordering::Equal),
//@ end
//@ fn src/osm/model/element.rs Element::same_type ret=r
    ensures r == (rank(*e1) == rank(*e2)),
//@ end
}
