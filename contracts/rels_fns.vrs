verus! {
//@ fn src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder::convert ret=res
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1 <= i32::MAX,
        mdiffs_fit(relation.members@), date_granularity > 0,
    ensures enc_relation(final(string_table_builder).table(), res, date_granularity as int, *relation),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1,
//@ loop 0 it
        invariant relation.id == r.id, r.keys@.len() == 0, r.vals@.len() == 0, mdiffs_fit(relation.members@),
            last_memid == (if it.index@ == 0 { 0i64 } else { mdata(relation.members@[it.index@ - 1]).id }),
            enc_members(string_table_builder.table(), r.types@, r.roles_sid@, r.memids@, relation.members@, it.index@),
            string_table_builder.wf(), prefix(old(string_table_builder).table(), string_table_builder.table()),
            string_table_builder.len() <= old(string_table_builder).len() + it.index@,
            old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1 <= i32::MAX,
//@ loopstart 0
        assert(*member == relation.members@[it.index@]);
        let ghost mm = *member;
        let ghost t0 = string_table_builder.table();
        let ghost d0 = r.memids@;
        let ghost y0 = r.types@;
        let ghost s0 = r.roles_sid@;
        proof { if it.index@ > 0 { assert(i64::MIN <= mdata(relation.members@[it.index@]).id - mdata(relation.members@[it.index@ - 1]).id <= i64::MAX); } }
//@ loopend 0
        proof {
            assert forall|i: int| 0 <= i < it.index@ + 1 implies r.types@[i] == mkind(#[trigger] relation.members@[i]) && at(string_table_builder.table(), r.roles_sid@[i] as int, mdata(relation.members@[i]).role) && psum(r.memids@, i + 1) == mdata(relation.members@[i]).id by {
                let m = relation.members@[i];
                if i < it.index@ {
                    lemma_psum_prefix(d0, r.memids@, i + 1);
                    assert(r.types@[i] == y0[i] && r.roles_sid@[i] == s0[i]);
                    lemma_at_prefix(t0, string_table_builder.table(), s0[i] as int, mdata(m).role);
                } else {
                    lemma_psum_prefix(d0, r.memids@, i);
                    if i > 0 { let p = relation.members@[i - 1]; assert(psum(d0, (i - 1) + 1) == mdata(p).id); }
                }
            }
        }
//@ loop 1 it
        invariant relation.id == r.id,
            enc_members(string_table_builder.table(), r.types@, r.roles_sid@, r.memids@, relation.members@, relation.members@.len() as int),
            enc_tags(string_table_builder.table(), r.keys@, r.vals@, relation.tags@, it.index@),
            string_table_builder.wf(), prefix(old(string_table_builder).table(), string_table_builder.table()),
            string_table_builder.len() <= old(string_table_builder).len() + relation.members@.len() + 2 * it.index@,
            old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1 <= i32::MAX,
//@ loopstart 1
        assert(*tag == relation.tags@[it.index@]);
        let ghost t0 = string_table_builder.table();
        let ghost k0 = r.keys@;
        let ghost v0 = r.vals@;
        let ghost r0 = r;
//@ loopend 1
        proof {
            lemma_enc_members_mono(t0, string_table_builder.table(), r.types@, r.roles_sid@, r.memids@, relation.members@, relation.members@.len() as int);
            assert forall|i: int| 0 <= i < it.index@ + 1 implies at(string_table_builder.table(), r.keys@[i] as int, (#[trigger] relation.tags@[i]).k) && at(string_table_builder.table(), r.vals@[i] as int, relation.tags@[i].v) by {
                if i < it.index@ {
                    assert(r.keys@[i] == k0[i] && r.vals@[i] == v0[i]);
                    lemma_at_prefix(t0, string_table_builder.table(), k0[i] as int, relation.tags@[i].k);
                    lemma_at_prefix(t0, string_table_builder.table(), v0[i] as int, relation.tags@[i].v);
                }
            }
        }
//@ afterloop 1
    let ghost t9 = string_table_builder.table();
    let ghost r9 = r;
//@ tail:
    proof {
        lemma_enc_members_mono(t9, string_table_builder.table(), r.types@, r.roles_sid@, r.memids@, relation.members@, relation.members@.len() as int);
        lemma_enc_tags_mono(t9, string_table_builder.table(), r.keys@, r.vals@, relation.tags@, relation.tags@.len() as int);
    }
//@ end
//@ fn src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder::new ret=r
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1 <= i32::MAX,
        mdiffs_fit(relation.members@), date_granularity > 0,
    ensures r.relations is Some, r.relations->0@.len() == 1, enc_relation(final(string_table_builder).table(), r.relations->0@[0], date_granularity as int, *relation),
        r.date_granularity == date_granularity,
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1,
//@ end
//@ fn src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder::add
    requires old(self).relations is Some, old(self).date_granularity > 0,
        old(string_table_builder).wf(), old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1 <= i32::MAX,
        mdiffs_fit(relation.members@),
    ensures final(self).relations is Some, final(self).date_granularity == old(self).date_granularity,
        final(self).relations->0@.len() == old(self).relations->0@.len() + 1,
        final(self).relations->0@.drop_last() == old(self).relations->0@,
        enc_relation(final(string_table_builder).table(), final(self).relations->0@.last(), old(self).date_granularity as int, *relation),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * relation.tags@.len() + relation.members@.len() + 1,
//@ tail:
    proof { assert(self.relations->0@.drop_last() =~= old(self).relations->0@); }
//@ end
//@ fn src/osm/pbf/relations_group_builder.rs RelationsGroupBuilder::build ret=r
    requires old(self).relations is Some,
    ensures r.relations@ == old(self).relations->0@, r.nodes@.len() == 0, r.dense is None, r.ways@.len() == 0, r.changesets@.len() == 0,
//@ end
}
