verus! {
//@ type src/osm/pbf/ways_group_builder.rs WaysGroupBuilder
//@ type src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder
}
//@ include bboxtype.vrs
//@ include datatype.vrs
