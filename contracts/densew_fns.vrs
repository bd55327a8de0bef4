// shared: writing dense nodes (needs dense_spec)
verus! {
//@ type src/osm/pbf/dense_group_builder.rs DenseGroupBuilder
/// a coordinate in units of `g` nanodegrees from `off`
pub open spec fn fixed(x: f64, g: int, off: int) -> i64 { f2i(fround(fsub(fdiv(fmul(x, 1E9f64), i2f(g as i64)), i2f(off as i64)))) }
/// key and value indices of `tags`, then a 0
pub open spec fn enc_seg(t: Seq<Vec<u8>>, kv: Seq<i32>, p: int, tags: Seq<Tag>) -> bool {
    &&& 0 <= p && p + 2 * tags.len() + 1 <= kv.len() && kv[p + 2 * tags.len()] == 0
    &&& enc_kv(t, kv, p, tags, tags.len() as int)
}
pub open spec fn enc_kv(t: Seq<Vec<u8>>, kv: Seq<i32>, p: int, tags: Seq<Tag>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> at(t, kv[p + 2 * j] as int, (#[trigger] tags[j]).k) && at(t, kv[p + 2 * j + 1] as int, tags[j].v)
}
impl DenseGroupBuilder {
    pub open spec fn f(self) -> DenseInfo { (self.dense->0).denseinfo->0 }
    /// every list has `n` entries
    pub open spec fn lists(self, n: int) -> bool {
        &&& self.dense is Some && (self.dense->0).denseinfo is Some && self.date_granularity > 0
        &&& (self.dense->0).id@.len() == n && (self.dense->0).lat@.len() == n && (self.dense->0).lon@.len() == n
        &&& self.f().timestamp@.len() == n && self.f().version@.len() == n && self.f().changeset@.len() == n && self.f().uid@.len() == n && self.f().user_sid@.len() == n && self.f().visible@.len() == n
    }
    /// the last values written are those of `node`
    pub open spec fn last_is(self, node: Node) -> bool {
        &&& self.last_id == node.id && self.last_uid == node.uid && self.last_changeset == node.changeset
        &&& self.last_lat == fixed(node.coordinate.lat, self.granularity as int, self.lat_offset as int)
        &&& self.last_lon == fixed(node.coordinate.lon, self.granularity as int, self.lon_offset as int)
        &&& self.last_timestamp == tdiv(node.timestamp as int, self.date_granularity as int)
    }
    /// the differences from the last values to those of `node` can be stored
    pub open spec fn step_ok(self, node: Node) -> bool {
        &&& fits64(node.id - self.last_id) && fits32(node.uid - self.last_uid) && fits64(node.changeset - self.last_changeset)
        &&& fits64(fixed(node.coordinate.lat, self.granularity as int, self.lat_offset as int) - self.last_lat)
        &&& fits64(fixed(node.coordinate.lon, self.granularity as int, self.lon_offset as int) - self.last_lon)
        &&& fits64(tdiv(node.timestamp as int, self.date_granularity as int) - self.last_timestamp)
    }
}
//@ fn src/osm/pbf/dense_group_builder.rs DenseGroupBuilder::new ret=r
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * node.tags@.len() + 1 <= i32::MAX,
        date_granularity > 0, node.timestamp > i64::MIN,
    ensures r.granularity == granularity, r.date_granularity == date_granularity, r.lat_offset == lat_offset, r.lon_offset == lon_offset,
        r.lists(1), r.last_is(*node),
        (r.dense->0).id@[0] == r.last_id, (r.dense->0).lat@[0] == r.last_lat, (r.dense->0).lon@[0] == r.last_lon,
        r.f().timestamp@[0] == r.last_timestamp, r.f().changeset@[0] == r.last_changeset, r.f().uid@[0] == r.last_uid, r.f().user_sid@[0] == r.last_sid,
        r.f().version@[0] == node.version, r.f().visible@[0] == node.visible,
        at(final(string_table_builder).table(), r.last_sid as int, node.user),
        (r.dense->0).keys_vals@.len() == 2 * node.tags@.len() + 1,
        enc_seg(final(string_table_builder).table(), (r.dense->0).keys_vals@, 0, node.tags@),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * node.tags@.len() + 1,
//@ attr:
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
//@ loop 0 it
    invariant
        dense is Some, (dense->0).denseinfo is Some,
        dense->0 == (DenseNodes { keys_vals: (dense->0).keys_vals, ..dn }),
        (dense->0).keys_vals@.len() == 2 * it.index@,
        enc_kv(string_table_builder.table(), (dense->0).keys_vals@, 0, node.tags@, it.index@),
        string_table_builder.wf(), prefix(old(string_table_builder).table(), string_table_builder.table()),
        at(string_table_builder.table(), last_sid as int, node.user),
        string_table_builder.len() <= old(string_table_builder).len() + 2 * it.index@ + 1,
//@ beforeloop 0
    let ghost dn = dense->0;
//@ loopstart 0
    assert(*tag == node.tags@[it.index@]);
    let ghost t0 = string_table_builder.table();
    let ghost k0 = (dense->0).keys_vals@;
//@ loopend 0
    proof {
        lemma_kv_grow(t0, string_table_builder.table(), k0, (dense->0).keys_vals@, 0, node.tags@, it.index@);
        lemma_at_prefix(t0, string_table_builder.table(), last_sid as int, node.user);
    }
//@ end
//@ fn src/osm/pbf/dense_group_builder.rs DenseGroupBuilder::add
    requires old(string_table_builder).wf(), old(string_table_builder).len() + 2 * node.tags@.len() + 1 <= i32::MAX,
        old(self).lists((old(self).dense->0).id@.len() as int), old(self).step_ok(*node), old(self).last_sid >= 0, node.timestamp > i64::MIN,
    ensures final(self).granularity == old(self).granularity, final(self).date_granularity == old(self).date_granularity, final(self).lat_offset == old(self).lat_offset, final(self).lon_offset == old(self).lon_offset,
        final(self).lists((old(self).dense->0).id@.len() as int + 1), final(self).last_is(*node),
        (final(self).dense->0).id@ == (old(self).dense->0).id@.push((final(self).last_id - old(self).last_id) as i64),
        (final(self).dense->0).lat@ == (old(self).dense->0).lat@.push((final(self).last_lat - old(self).last_lat) as i64),
        (final(self).dense->0).lon@ == (old(self).dense->0).lon@.push((final(self).last_lon - old(self).last_lon) as i64),
        final(self).f().timestamp@ == old(self).f().timestamp@.push((final(self).last_timestamp - old(self).last_timestamp) as i64),
        final(self).f().changeset@ == old(self).f().changeset@.push((final(self).last_changeset - old(self).last_changeset) as i64),
        final(self).f().uid@ == old(self).f().uid@.push((final(self).last_uid - old(self).last_uid) as i32),
        final(self).f().user_sid@ == old(self).f().user_sid@.push((final(self).last_sid - old(self).last_sid) as i32),
        final(self).f().version@ == old(self).f().version@.push(node.version), final(self).f().visible@ == old(self).f().visible@.push(node.visible),
        at(final(string_table_builder).table(), final(self).last_sid as int, node.user),
        (final(self).dense->0).keys_vals@.len() == (old(self).dense->0).keys_vals@.len() + 2 * node.tags@.len() + 1,
        (final(self).dense->0).keys_vals@.take((old(self).dense->0).keys_vals@.len() as int) == (old(self).dense->0).keys_vals@,
        enc_seg(final(string_table_builder).table(), (final(self).dense->0).keys_vals@, (old(self).dense->0).keys_vals@.len() as int, node.tags@),
        final(string_table_builder).wf(), prefix(old(string_table_builder).table(), final(string_table_builder).table()),
        final(string_table_builder).len() <= old(string_table_builder).len() + 2 * node.tags@.len() + 1,
//@ attr:
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
//@ loop 0 it
    invariant
        *self == (DenseGroupBuilder { dense: self.dense, ..bb }),
        self.dense is Some, (self.dense->0).denseinfo is Some,
        self.dense->0 == (DenseNodes { keys_vals: (self.dense->0).keys_vals, ..dn }),
        (self.dense->0).keys_vals@.len() == kk.len() + 2 * it.index@, (self.dense->0).keys_vals@.take(kk.len() as int) == kk,
        enc_kv(string_table_builder.table(), (self.dense->0).keys_vals@, kk.len() as int, node.tags@, it.index@),
        string_table_builder.wf(), prefix(old(string_table_builder).table(), string_table_builder.table()),
        at(string_table_builder.table(), self.last_sid as int, node.user),
        string_table_builder.len() <= old(string_table_builder).len() + 2 * it.index@ + 1,
//@ beforeloop 0
    let ghost bb = *self;
    let ghost dn = self.dense->0;
    let ghost kk = dn.keys_vals@;
    proof { assert(kk.take(kk.len() as int) =~= kk); }
//@ loopstart 0
    assert(*tag == node.tags@[it.index@]);
    let ghost t0 = string_table_builder.table();
    let ghost k0 = (self.dense->0).keys_vals@;
//@ loopend 0
    proof {
        lemma_kv_grow(t0, string_table_builder.table(), k0, (self.dense->0).keys_vals@, kk.len() as int, node.tags@, it.index@);
        lemma_at_prefix(t0, string_table_builder.table(), self.last_sid as int, node.user);
        assert((self.dense->0).keys_vals@.take(kk.len() as int) =~= k0.take(kk.len() as int));
    }
//@ tail:
    proof { assert((self.dense->0).keys_vals@.take(kk.len() as int) =~= kk); }
//@ end
//@ fn src/osm/pbf/dense_group_builder.rs DenseGroupBuilder::build ret=r
    requires old(self).dense is Some,
    ensures r.dense == Some(old(self).dense->0), r.nodes@.len() == 0, r.ways@.len() == 0, r.relations@.len() == 0, r.changesets@.len() == 0,
//@ end
proof fn lemma_kv_grow(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, a: Seq<i32>, b: Seq<i32>, p: int, tags: Seq<Tag>, n: int)
    requires enc_kv(t, a, p, tags, n), prefix(t, u), 0 <= n < tags.len(), 0 <= p, a.len() == p + 2 * n, b.len() == a.len() + 2, forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
        at(u, b[p + 2 * n] as int, tags[n].k), at(u, b[p + 2 * n + 1] as int, tags[n].v),
    ensures enc_kv(u, b, p, tags, n + 1),
{
    assert forall|j: int| 0 <= j < n + 1 implies at(u, b[p + 2 * j] as int, (#[trigger] tags[j]).k) && at(u, b[p + 2 * j + 1] as int, tags[j].v) by {
        if j < n { lemma_at_prefix(t, u, a[p + 2 * j] as int, tags[j].k); lemma_at_prefix(t, u, a[p + 2 * j + 1] as int, tags[j].v); }
    }
}
}
