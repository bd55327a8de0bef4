verus! {
//@ fn src/osm/pbf/osm_data.rs OsmData::read_info ret=r
    requires info_ok(string_table@, *info_opt, date_granularity as int),
    ensures dec_info(string_table@, *info_opt, date_granularity as int, r.5, r.0, r.1, r.2, r.3, r.4),
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::read_ways copyiter=delta
    requires forall|i: int| 0 <= i < way_group@.len() ==> way_ok(string_table@, #[trigger] way_group@[i], date_granularity as int),
    ensures final(elements)@.len() == old(elements)@.len() + way_group@.len(),
        final(elements)@.take(old(elements)@.len() as int) == old(elements)@,
        forall|j: int| 0 <= j < old(elements)@.len() ==> #[trigger] final(elements)@[j] == old(elements)@[j],
        forall|i: int| 0 <= i < way_group@.len() ==> dec_way(string_table@, #[trigger] way_group@[i], date_granularity as int, final(elements)@[old(elements)@.len() + i]),
//@ loop 0 wi
        invariant forall|i: int| 0 <= i < way_group@.len() ==> way_ok(string_table@, #[trigger] way_group@[i], date_granularity as int),
            elements@.len() == old(elements)@.len() + wi.index@,
            elements@.take(old(elements)@.len() as int) == old(elements)@,
            forall|i: int| 0 <= i < wi.index@ ==> dec_way(string_table@, #[trigger] way_group@[i], date_granularity as int, elements@[old(elements)@.len() + i]),
//@ loopstart 0
        assert(*way == way_group@[wi.index@]);
        let ghost w0 = *way;
        let ghost e0 = elements@;
//@ loop 1 ri
            invariant *way == w0, sums_fit(w0.refs@), last_ref == psum(w0.refs@, ri.index@), dec_refs(w0.refs@, refs@, ri.index@),
//@ loopstart 1
            assert(*delta_ref == w0.refs@[ri.index@]);
            proof { assert(i64::MIN <= psum(w0.refs@, ri.index@ + 1) <= i64::MAX); }
//@ loop 2 ti
            invariant *way == w0, tags_ok(string_table@, w0.keys@, w0.vals@), dec_tags(string_table@, w0.keys@, w0.vals@, tags@, i as int),
//@ loopstart 2
            proof { assert(st_ok(string_table@, w0.keys@[i as int] as int)); }
//@ loopend 0
        proof {
            assert(elements@.take(old(elements)@.len() as int) =~= e0.take(old(elements)@.len() as int));
            assert forall|i: int| 0 <= i < wi.index@ + 1 implies dec_way(string_table@, #[trigger] way_group@[i], date_granularity as int, elements@[old(elements)@.len() + i]) by {
                if i < wi.index@ { assert(elements@[old(elements)@.len() + i] == e0[old(elements)@.len() + i]); }
            }
        }
//@ start:
    proof { assert(old(elements)@.take(old(elements)@.len() as int) =~= old(elements)@); }
//@ tail:
    proof { assert forall|j: int| 0 <= j < old(elements)@.len() implies #[trigger] elements@[j] == old(elements)@[j] by { assert(elements@.take(old(elements)@.len() as int)[j] == elements@[j]); } }
//@ end
//@ fn src/osm/pbf/osm_data.rs OsmData::read_relations
    requires forall|i: int| 0 <= i < relation_group@.len() ==> relation_ok(string_table@, #[trigger] relation_group@[i], date_granularity as int),
    ensures final(elements)@.len() == old(elements)@.len() + relation_group@.len(),
        final(elements)@.take(old(elements)@.len() as int) == old(elements)@,
        forall|j: int| 0 <= j < old(elements)@.len() ==> #[trigger] final(elements)@[j] == old(elements)@[j],
        forall|i: int| 0 <= i < relation_group@.len() ==> dec_relation(string_table@, #[trigger] relation_group@[i], date_granularity as int, final(elements)@[old(elements)@.len() + i]),
//@ loop 0 wi
        invariant forall|i: int| 0 <= i < relation_group@.len() ==> relation_ok(string_table@, #[trigger] relation_group@[i], date_granularity as int),
            elements@.len() == old(elements)@.len() + wi.index@,
            elements@.take(old(elements)@.len() as int) == old(elements)@,
            forall|i: int| 0 <= i < wi.index@ ==> dec_relation(string_table@, #[trigger] relation_group@[i], date_granularity as int, elements@[old(elements)@.len() + i]),
//@ loopstart 0
        assert(*relation == relation_group@[wi.index@]);
        let ghost w0 = *relation;
        let ghost e0 = elements@;
//@ loop 1 ri
            invariant *relation == w0, relation_ok(string_table@, w0, date_granularity as int), last_memid == psum(w0.memids@, i as int),
                dec_members(string_table@, w0.types@, w0.roles_sid@, w0.memids@, members@, i as int),
//@ loopstart 1
            proof {
                assert(i64::MIN <= psum(w0.memids@, i + 1) <= i64::MAX);
                assert(0 <= w0.types@[i as int] <= 2 && st_ok(string_table@, w0.roles_sid@[i as int] as int));
            }
//@ loop 2 ti
            invariant *relation == w0, tags_ok(string_table@, w0.keys@, w0.vals@), dec_tags(string_table@, w0.keys@, w0.vals@, tags@, i as int),
//@ loopstart 2
            proof { assert(st_ok(string_table@, w0.keys@[i as int] as int)); }
//@ loopend 0
        proof {
            assert(elements@.take(old(elements)@.len() as int) =~= e0.take(old(elements)@.len() as int));
            assert forall|i: int| 0 <= i < wi.index@ + 1 implies dec_relation(string_table@, #[trigger] relation_group@[i], date_granularity as int, elements@[old(elements)@.len() + i]) by {
                if i < wi.index@ { assert(elements@[old(elements)@.len() + i] == e0[old(elements)@.len() + i]); }
            }
        }
//@ start:
    proof { assert(old(elements)@.take(old(elements)@.len() as int) =~= old(elements)@); }
//@ tail:
    proof { assert forall|j: int| 0 <= j < old(elements)@.len() implies #[trigger] elements@[j] == old(elements)@[j] by { assert(elements@.take(old(elements)@.len() as int)[j] == elements@[j]); } }
//@ end
}
