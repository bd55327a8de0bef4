verus! {
//@ fn src/osm/pbf/ways_group_builder.rs WaysGroupBuilder::convert ret=r copyiter=r
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * way.tags@.len() + 1 <= i32::MAX,
        diffs_fit(way.refs@), date_granularity > 0,
    ensures enc_way(final(string_table_builder).table(), r, date_granularity as int, *way),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * way.tags@.len() + 1,
//@ loop 0 it
        invariant way.id == w.id, w.keys@.len() == 0, w.vals@.len() == 0, diffs_fit(way.refs@),
            w.refs@.len() == it.index@,
            last_ref == (if it.index@ == 0 { 0i64 } else { way.refs@[it.index@ - 1] }),
            forall|i: int| 0 <= i < it.index@ ==> psum(w.refs@, i + 1) == #[trigger] way.refs@[i],
//@ loopstart 0
        assert(*r_ref == way.refs@[it.index@]);
        let ghost d0 = w.refs@;
        proof { if it.index@ > 0 { assert(i64::MIN <= way.refs@[it.index@] - way.refs@[it.index@ - 1] <= i64::MAX); } }
//@ loopend 0
        proof {
            assert forall|i: int| 0 <= i < it.index@ + 1 implies psum(w.refs@, i + 1) == #[trigger] way.refs@[i] by {
                if i < it.index@ { lemma_psum_prefix(d0, w.refs@, i + 1); }
                else {
                    lemma_psum_prefix(d0, w.refs@, i);
                    if i > 0 { assert(psum(d0, (i - 1) + 1) == way.refs@[i - 1]); }
                }
            }
        }
//@ loop 1 it
        invariant way.id == w.id, w.refs@.len() == way.refs@.len(),
            forall|i: int| 0 <= i < way.refs@.len() ==> psum(w.refs@, i + 1) == #[trigger] way.refs@[i],
            enc_tags(string_table_builder.table(), w.keys@, w.vals@, way.tags@, it.index@),
            string_table_builder.wf(), prefix(old(string_table_builder).table(), string_table_builder.table()),
            string_table_builder.len() <= old(string_table_builder).len() + 2 * it.index@,
            old(string_table_builder).len() + 2 * way.tags@.len() + 1 <= i32::MAX,
//@ loopstart 1
        assert(*tag == way.tags@[it.index@]);
        let ghost t0 = string_table_builder.table();
        let ghost k0 = w.keys@;
        let ghost v0 = w.vals@;
//@ loopend 1
        proof {
            assert forall|i: int| 0 <= i < it.index@ + 1 implies at(string_table_builder.table(), w.keys@[i] as int, (#[trigger] way.tags@[i]).k) && at(string_table_builder.table(), w.vals@[i] as int, way.tags@[i].v) by {
                if i < it.index@ {
                    assert(w.keys@[i] == k0[i] && w.vals@[i] == v0[i]);
                    lemma_at_prefix(t0, string_table_builder.table(), k0[i] as int, way.tags@[i].k);
                    lemma_at_prefix(t0, string_table_builder.table(), v0[i] as int, way.tags@[i].v);
                }
            }
        }
//@ end
//@ fn src/osm/pbf/ways_group_builder.rs WaysGroupBuilder::new ret=r
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * way.tags@.len() + 1 <= i32::MAX,
        diffs_fit(way.refs@), date_granularity > 0,
    ensures r.ways is Some, r.ways->0@.len() == 1, enc_way(final(string_table_builder).table(), r.ways->0@[0], date_granularity as int, *way),
        r.date_granularity == date_granularity,
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * way.tags@.len() + 1,
//@ end
//@ fn src/osm/pbf/ways_group_builder.rs WaysGroupBuilder::add
    requires old(self).ways is Some, old(self).date_granularity > 0,
        old(string_table_builder).wf(), old(string_table_builder).len() + 2 * way.tags@.len() + 1 <= i32::MAX,
        diffs_fit(way.refs@),
    ensures final(self).ways is Some, final(self).date_granularity == old(self).date_granularity,
        final(self).ways->0@.len() == old(self).ways->0@.len() + 1,
        final(self).ways->0@.drop_last() == old(self).ways->0@,
        enc_way(final(string_table_builder).table(), final(self).ways->0@.last(), old(self).date_granularity as int, *way),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * way.tags@.len() + 1,
//@ tail:
    proof { assert(self.ways->0@.drop_last() =~= old(self).ways->0@); }
//@ end
//@ fn src/osm/pbf/ways_group_builder.rs WaysGroupBuilder::build ret=r
    requires old(self).ways is Some,
    ensures r.ways@ == old(self).ways->0@, r.nodes@.len() == 0, r.dense is None, r.relations@.len() == 0, r.changesets@.len() == 0,
//@ end
}
