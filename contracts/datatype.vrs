verus! {
//@ type src/osm/pbf/osm_data.rs OsmData
}
