// shared: reading dense nodes (needs dense_spec)
use vstd::std_specs::iter::IteratorSpec;
verus! {
/// the iterator is at place `p`
#[verifier::prophetic]
pub open spec fn kv_at(rem: Seq<&i32>, kv: Seq<i32>, p: int) -> bool { rem.len() == kv.len() - p && forall|j: int| 0 <= j < rem.len() ==> *(#[trigger] rem[j]) == kv[p + j] }
//@ fn src/osm/pbf/osm_data.rs OsmData::read_dense copyiter=id
    requires *dense_group is Some ==> dense_ok(string_table@, dense_group->0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int),
    ensures
        *dense_group is None ==> final(elements)@ == old(elements)@,
        *dense_group is Some ==> final(elements)@.len() == old(elements)@.len() + dense_group->0.id@.len(),
        final(elements)@.take(old(elements)@.len() as int) == old(elements)@,
        forall|j: int| 0 <= j < old(elements)@.len() ==> #[trigger] final(elements)@[j] == old(elements)@[j],
        *dense_group is Some ==> forall|i: int| 0 <= i < dense_group->0.id@.len() ==> #[trigger] dec_dense(string_table@, dense_group->0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, i, final(elements)@[old(elements)@.len() + i]),
//@ attr:
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(60)]
//@ start:
    let ghost e00 = elements@;
    let ghost d0 = dense_group->0;
    let ghost n = d0.id@.len() as int;
    let ghost kv = d0.keys_vals@;
    let ghost mut pos: int = 0;
    let ghost st = string_table@;
    proof { assert(d0.id.len() == n); }
    proof { assert(old(elements)@.take(old(elements)@.len() as int) =~= old(elements)@); }
//@ loop 0 it
    invariant
        it.seq().len() == n, forall|j: int| 0 <= j < n ==> *(#[trigger] it.seq()[j]) == d0.id@[j],
        enum_0 == it.index@, pos == kv_start(kv, it.index@), 0 <= pos <= kv.len(), kv_at(key_val_iterator.remaining(), kv, pos),
        last_id == dsum(d0.id@, it.index@), last_lat == dsum(d0.lat@, it.index@), last_lon == dsum(d0.lon@, it.index@),
        d0.denseinfo is Some ==> last_timestamp == dsum(d0.denseinfo->0.timestamp@, it.index@) && last_changeset == dsum(d0.denseinfo->0.changeset@, it.index@) && uid == dsum32(d0.denseinfo->0.uid@, it.index@) && last_user_sid == dsum32(d0.denseinfo->0.user_sid@, it.index@),
        d0.denseinfo is None ==> timestamp == 0 && last_changeset == -1 && uid == -1 && visible,
        elements@.len() == e00.len() + it.index@, elements@.take(e00.len() as int) == e00,
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] dec_dense(st, d0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, i, elements@[e00.len() + i]),
//@ loopstart 0
    let ghost ix = it.index@;
    let ghost e0 = elements@;
    proof {
        assert(*it.seq()[ix] == d0.id@[ix]);
        assert(fits64(dsum(d0.id@, ix + 1)) && fits64(dsum(d0.lat@, ix + 1)) && fits64(dsum(d0.lon@, ix + 1)));
        assert(fits64(granularity * dsum(d0.lat@, ix + 1)) && fits64(nano(lat_offset as int, granularity as int, dsum(d0.lat@, ix + 1))));
        assert(fits64(granularity * dsum(d0.lon@, ix + 1)) && fits64(nano(lon_offset as int, granularity as int, dsum(d0.lon@, ix + 1))));
        if d0.denseinfo is Some {
            let f = d0.denseinfo->0;
            assert(fits64(dsum(f.timestamp@, ix + 1)) && fits64(dsum(f.timestamp@, ix + 1) * date_granularity));
            assert(fits64(dsum(f.changeset@, ix + 1)) && fits32(dsum32(f.uid@, ix + 1)) && fits32(dsum32(f.user_sid@, ix + 1)));
            assert(st_ok(st, dsum32(f.user_sid@, ix + 1)));
        }
        assert(kv_ok(st, kv, kv_start(kv, ix)));
    }
//@ beforeloop 1:
    let ghost p0 = pos;
    let ghost mut done: Seq<(i32, i32)> = seq![];
    proof { assert(done + pairs(kv, p0) =~= pairs(kv, p0)); }
//@ loop 1:
    invariant_except_break
        0 <= pos <= kv.len(), kv_at(key_val_iterator.remaining(), kv, pos), kv_ok(st, kv, pos), kv_end(kv, pos) == kv_end(kv, p0),
        done + pairs(kv, pos) == pairs(kv, p0), tagged(st, done, tags@),
    ensures
        kv_at(key_val_iterator.remaining(), kv, kv_end(kv, p0)), tagged(st, pairs(kv, p0), tags@),
    decreases kv.len() - pos,
//@ loopstart 1:
    let ghost q = pos;
    proof {
        if q >= kv.len() || kv[q] == 0 { assert(pairs(kv, q) =~= seq![]); assert(done + pairs(kv, q) =~= done); }
        else {
            let nd = done.push((kv[q], kv[q + 1]));
            assert(nd + pairs(kv, q + 2) =~= done + pairs(kv, q));
            done = nd;
            pos = q + 2;
        }
    }
//@ afterloop 1:
    proof { pos = kv_end(kv, p0); lemma_kv_end(kv, p0); assert(pos == kv_start(kv, ix + 1)); }
//@ loopend 0
    proof {
        assert(elements@.take(e00.len() as int) =~= e0.take(e00.len() as int));
        assert forall|i: int| 0 <= i < ix + 1 implies #[trigger] dec_dense(st, d0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, i, elements@[e00.len() + i]) by {
            if i < ix { assert(elements@[e00.len() + i] == e0[e00.len() + i]); assert(dec_dense(st, d0, granularity as int, date_granularity as int, lat_offset as int, lon_offset as int, i, e0[e00.len() + i])); }
        }
    }
//@ tail:
    proof { assert forall|j: int| 0 <= j < old(elements)@.len() implies #[trigger] elements@[j] == old(elements)@[j] by { assert(elements@.take(old(elements)@.len() as int)[j] == elements@[j]); } }
//@ end
}
