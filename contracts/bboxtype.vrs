verus! {
//@ type src/osm/model/bounding_box.rs BoundingBox
}
