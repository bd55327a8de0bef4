// shared: a group of dense nodes stands for the nodes it was built from (needs dense_spec, densew_fns)
verus! {
/// where the tags of node `i` start
pub open spec fn kpos(ns: Seq<Node>, i: int) -> int decreases i { if i <= 0 { 0 } else { kpos(ns, i - 1) + 2 * ns[i - 1].tags@.len() + 1 } }
/// N01: the first `n` entries of a group of dense nodes are the nodes `ns`
pub open spec fn enc_node(t: Seq<Vec<u8>>, d: DenseNodes, g: int, dg: int, la: int, lo: int, ns: Seq<Node>, i: int) -> bool {
    let f = d.denseinfo->0;
    &&& dsum(d.id@, i + 1) == ns[i].id
    &&& dsum(d.lat@, i + 1) == fixed(ns[i].coordinate.lat, g, la)
    &&& dsum(d.lon@, i + 1) == fixed(ns[i].coordinate.lon, g, lo)
    &&& dsum(f.timestamp@, i + 1) == tdiv(ns[i].timestamp as int, dg)
    &&& dsum(f.changeset@, i + 1) == ns[i].changeset
    &&& dsum32(f.uid@, i + 1) == ns[i].uid
    &&& at(t, dsum32(f.user_sid@, i + 1), ns[i].user)
    &&& f.version@[i] == ns[i].version
    &&& f.visible@[i] == ns[i].visible
    &&& enc_seg(t, d.keys_vals@, kpos(ns, i), ns[i].tags@)
}
pub open spec fn enc_dense(t: Seq<Vec<u8>>, d: DenseNodes, g: int, dg: int, la: int, lo: int, ns: Seq<Node>) -> bool {
    let n = ns.len() as int;
    &&& d.denseinfo is Some
    &&& d.id@.len() == n && d.lat@.len() == n && d.lon@.len() == n
    &&& (d.denseinfo->0).timestamp@.len() == n && (d.denseinfo->0).version@.len() == n && (d.denseinfo->0).changeset@.len() == n && (d.denseinfo->0).uid@.len() == n && (d.denseinfo->0).user_sid@.len() == n && (d.denseinfo->0).visible@.len() == n
    &&& d.keys_vals@.len() == kpos(ns, n)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] enc_node(t, d, g, dg, la, lo, ns, i)
}
/// what a builder with `ns` added to it holds
pub open spec fn building(t: Seq<Vec<u8>>, b: DenseGroupBuilder, ns: Seq<Node>) -> bool {
    &&& b.lists(ns.len() as int) && ns.len() > 0 && b.last_is(ns.last())
    &&& at(t, b.last_sid as int, ns.last().user) && b.last_sid == dsum32(b.f().user_sid@, ns.len() as int)
    &&& enc_dense(t, b.dense->0, b.granularity as int, b.date_granularity as int, b.lat_offset as int, b.lon_offset as int, ns)
}
proof fn lemma_dsum_prefix(a: Seq<i64>, b: Seq<i64>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures dsum(a, n) == dsum(b, n),
    decreases n
{ if n > 0 { lemma_dsum_prefix(a, b, n - 1); } }
proof fn lemma_dsum32_prefix(a: Seq<i32>, b: Seq<i32>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures dsum32(a, n) == dsum32(b, n),
    decreases n
{ if n > 0 { lemma_dsum32_prefix(a, b, n - 1); } }
proof fn lemma_kpos_prefix(a: Seq<Node>, b: Seq<Node>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures kpos(a, n) == kpos(b, n), kpos(a, n) >= 0,
    decreases n
{ if n > 0 { lemma_kpos_prefix(a, b, n - 1); } }
proof fn lemma_enc_seg_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, a: Seq<i32>, b: Seq<i32>, p: int, tags: Seq<Tag>)
    requires enc_seg(t, a, p, tags), prefix(t, u), a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures enc_seg(u, b, p, tags),
{
    assert forall|j: int| 0 <= j < tags.len() implies at(u, b[p + 2 * j] as int, (#[trigger] tags[j]).k) && at(u, b[p + 2 * j + 1] as int, tags[j].v) by {
        lemma_at_prefix(t, u, a[p + 2 * j] as int, tags[j].k); lemma_at_prefix(t, u, a[p + 2 * j + 1] as int, tags[j].v);
    }
}
proof fn lemma_kpos_le(ns: Seq<Node>, i: int, n: int)
    requires 0 <= i <= n <= ns.len(),
    ensures 0 <= kpos(ns, i) <= kpos(ns, n),
    decreases n
{ if i < n { lemma_kpos_le(ns, i, n - 1); } else { lemma_kpos_prefix(ns, ns, n); } }
/// the first node
proof fn lemma_building_new(t: Seq<Vec<u8>>, b: DenseGroupBuilder, node: Node)
    requires b.lists(1), b.last_is(node),
        (b.dense->0).id@[0] == b.last_id, (b.dense->0).lat@[0] == b.last_lat, (b.dense->0).lon@[0] == b.last_lon,
        b.f().timestamp@[0] == b.last_timestamp, b.f().changeset@[0] == b.last_changeset, b.f().uid@[0] == b.last_uid, b.f().user_sid@[0] == b.last_sid,
        b.f().version@[0] == node.version, b.f().visible@[0] == node.visible,
        at(t, b.last_sid as int, node.user),
        (b.dense->0).keys_vals@.len() == 2 * node.tags@.len() + 1,
        enc_seg(t, (b.dense->0).keys_vals@, 0, node.tags@),
    ensures building(t, b, seq![node]),
{
    let ns = seq![node];
    let d = b.dense->0;
    let f = b.f();
    reveal_with_fuel(dsum, 2);
    reveal_with_fuel(dsum32, 2);
    reveal_with_fuel(kpos, 2);
    assert(ns[0] == node && ns.last() == node);
    assert(dsum32(f.user_sid@, 1) == b.last_sid);
    assert(kpos(ns, 1) == 2 * node.tags@.len() + 1);
    assert(enc_node(t, d, b.granularity as int, b.date_granularity as int, b.lat_offset as int, b.lon_offset as int, ns, 0));
}
/// one more
proof fn lemma_building_add(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, a: DenseGroupBuilder, b: DenseGroupBuilder, ns: Seq<Node>, node: Node)
    requires building(t, a, ns), prefix(t, u), b.lists(ns.len() as int + 1), b.last_is(node), a.step_ok(node),
        b.granularity == a.granularity, b.date_granularity == a.date_granularity, b.lat_offset == a.lat_offset, b.lon_offset == a.lon_offset,
        (b.dense->0).id@ == (a.dense->0).id@.push((b.last_id - a.last_id) as i64),
        (b.dense->0).lat@ == (a.dense->0).lat@.push((b.last_lat - a.last_lat) as i64),
        (b.dense->0).lon@ == (a.dense->0).lon@.push((b.last_lon - a.last_lon) as i64),
        b.f().timestamp@ == a.f().timestamp@.push((b.last_timestamp - a.last_timestamp) as i64),
        b.f().changeset@ == a.f().changeset@.push((b.last_changeset - a.last_changeset) as i64),
        b.f().uid@ == a.f().uid@.push((b.last_uid - a.last_uid) as i32),
        b.f().user_sid@ == a.f().user_sid@.push((b.last_sid - a.last_sid) as i32),
        b.f().version@ == a.f().version@.push(node.version), b.f().visible@ == a.f().visible@.push(node.visible),
        at(u, b.last_sid as int, node.user), a.last_sid >= 0,
        (b.dense->0).keys_vals@.len() == (a.dense->0).keys_vals@.len() + 2 * node.tags@.len() + 1,
        (b.dense->0).keys_vals@.take((a.dense->0).keys_vals@.len() as int) == (a.dense->0).keys_vals@,
        enc_seg(u, (b.dense->0).keys_vals@, (a.dense->0).keys_vals@.len() as int, node.tags@),
    ensures building(u, b, ns.push(node)),
{
    let n = ns.len() as int;
    let ms = ns.push(node);
    let d = a.dense->0; let e = b.dense->0;
    let f = a.f(); let h = b.f();
    let (g, dg, la, lo) = (a.granularity as int, a.date_granularity as int, a.lat_offset as int, a.lon_offset as int);
    lemma_kpos_prefix(ns, ms, n);
    assert(ms[n] == node);
    assert(kpos(ms, n + 1) == kpos(ms, n) + 2 * ms[n].tags@.len() + 1);
    assert forall|i: int| 0 <= i < d.keys_vals@.len() implies d.keys_vals@[i] == e.keys_vals@[i] by { assert(e.keys_vals@.take(d.keys_vals@.len() as int)[i] == d.keys_vals@[i]); }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] enc_node(u, e, g, dg, la, lo, ms, i) by {
        if i < n {
            assert(enc_node(t, d, g, dg, la, lo, ns, i));
            assert(ms[i] == ns[i]);
            lemma_dsum_prefix(d.id@, e.id@, i + 1); lemma_dsum_prefix(d.lat@, e.lat@, i + 1); lemma_dsum_prefix(d.lon@, e.lon@, i + 1);
            lemma_dsum_prefix(f.timestamp@, h.timestamp@, i + 1); lemma_dsum_prefix(f.changeset@, h.changeset@, i + 1);
            lemma_dsum32_prefix(f.uid@, h.uid@, i + 1); lemma_dsum32_prefix(f.user_sid@, h.user_sid@, i + 1);
            lemma_at_prefix(t, u, dsum32(f.user_sid@, i + 1), ns[i].user);
            lemma_kpos_prefix(ns, ms, i);
            lemma_enc_seg_mono(t, u, d.keys_vals@, e.keys_vals@, kpos(ns, i), ns[i].tags@);
        } else {
            assert(enc_node(t, d, g, dg, la, lo, ns, n - 1));
            lemma_dsum_push(d.id@, e.id@[n], n); lemma_dsum_push(d.lat@, e.lat@[n], n); lemma_dsum_push(d.lon@, e.lon@[n], n);
            lemma_dsum_push(f.timestamp@, h.timestamp@[n], n); lemma_dsum_push(f.changeset@, h.changeset@[n], n);
            lemma_dsum32_push(f.uid@, h.uid@[n], n); lemma_dsum32_push(f.user_sid@, h.user_sid@[n], n);
        }
    }
    lemma_dsum32_push(f.user_sid@, h.user_sid@[n], n);
    assert(ms.last() == node);
}
// ---- and back
proof fn lemma_seg_read(t: Seq<Vec<u8>>, st: Seq<String>, kv: Seq<i32>, p: int, tags: Seq<Tag>, j: int)
    requires enc_seg(t, kv, p, tags), texts(t, st), 0 <= j <= tags.len(),
    ensures kv_end(kv, p + 2 * j) == p + 2 * tags.len() + 1, kv_ok(st, kv, p + 2 * j),
        pairs(kv, p + 2 * j).len() == tags.len() - j,
        forall|i: int| 0 <= i < tags.len() - j ==> #[trigger] pairs(kv, p + 2 * j)[i] == (kv[p + 2 * (j + i)], kv[p + 2 * (j + i) + 1]),
    decreases tags.len() - j,
{
    let q = p + 2 * j;
    if j < tags.len() {
        lemma_seg_read(t, st, kv, p, tags, j + 1);
        assert(at(t, kv[p + 2 * j] as int, tags[j].k) && at(t, kv[p + 2 * j + 1] as int, tags[j].v));
        assert(pairs(kv, q) =~= seq![(kv[q], kv[q + 1])] + pairs(kv, q + 2));
        assert forall|i: int| 0 <= i < tags.len() - j implies #[trigger] pairs(kv, q)[i] == (kv[p + 2 * (j + i)], kv[p + 2 * (j + i) + 1]) by {
            if i > 0 { assert(pairs(kv, p + 2 * (j + 1))[i - 1] == (kv[p + 2 * (j + 1 + (i - 1))], kv[p + 2 * (j + 1 + (i - 1)) + 1])); assert(pairs(kv, q)[i] == pairs(kv, q + 2)[i - 1]); }
        }
    }
}
proof fn lemma_kv_pos(t: Seq<Vec<u8>>, st: Seq<String>, d: DenseNodes, g: int, dg: int, la: int, lo: int, ns: Seq<Node>, i: int)
    requires enc_dense(t, d, g, dg, la, lo, ns), texts(t, st), 0 <= i <= ns.len(),
    ensures kv_start(d.keys_vals@, i) == kpos(ns, i),
    decreases i,
{
    if i > 0 {
        lemma_kv_pos(t, st, d, g, dg, la, lo, ns, i - 1);
        assert(enc_node(t, d, g, dg, la, lo, ns, i - 1));
        lemma_seg_read(t, st, d.keys_vals@, kpos(ns, i - 1), ns[i - 1].tags@, 0);
    }
}
proof fn lemma_tagged(t: Seq<Vec<u8>>, st: Seq<String>, kv: Seq<i32>, p: int, tags: Seq<Tag>, got: Seq<Tag>)
    requires enc_seg(t, kv, p, tags), texts(t, st), tagged(st, pairs(kv, p), got),
    ensures got == tags,
{
    lemma_seg_read(t, st, kv, p, tags, 0);
    assert forall|j: int| 0 <= j < tags.len() implies got[j] == tags[j] by {
        assert(at(t, kv[p + 2 * j] as int, tags[j].k) && at(t, kv[p + 2 * j + 1] as int, tags[j].v));
        assert(pairs(kv, p + 2 * 0)[j] == (kv[p + 2 * (0 + j)], kv[p + 2 * (0 + j) + 1]));
        lemma_text_inj(st[kv[p + 2 * j] as int], tags[j].k);
        lemma_text_inj(st[kv[p + 2 * j + 1] as int], tags[j].v);
        assert(got[j].k == st[pairs(kv, p)[j].0 as int]);
    }
    assert(got =~= tags);
}
/// the node itself, its timestamp cut to the date granularity and its position to the grid
pub open spec fn same_node(a: Node, b: Node, g: int, dg: int, la: int, lo: int) -> bool {
    &&& a.id == b.id && a.version == b.version && a.changeset == b.changeset && a.uid == b.uid && a.user == b.user && a.visible == b.visible
    &&& a.tags@ == b.tags@
    &&& b.timestamp == cut(a.timestamp as int, dg)
    &&& b.coordinate.lat == deg(nano(la, g, fixed(a.coordinate.lat, g, la) as int))
    &&& b.coordinate.lon == deg(nano(lo, g, fixed(a.coordinate.lon, g, lo) as int))
}
pub open spec fn grid_ok(x: f64, g: int, off: int) -> bool { fits64(g * fixed(x, g, off)) && fits64(nano(off, g, fixed(x, g, off) as int)) }
pub open spec fn node_ok(n: Node, g: int, la: int, lo: int) -> bool { n.timestamp > i64::MIN && grid_ok(n.coordinate.lat, g, la) && grid_ok(n.coordinate.lon, g, lo) }
proof fn lemma_nano_fits(off: int, g: int, v: int, x: f64)
    requires v == fixed(x, g, off), grid_ok(x, g, off),
    ensures fits64(v), fits64(g * v), fits64(nano(off, g, v)),
{ let w = fixed(x, g, off) as int; assert(fits64(g * w)); assert(v == w); }
/// N01: the elements decoded from an encoded group of dense nodes are those nodes
proof fn lemma_dense_roundtrip(t: Seq<Vec<u8>>, st: Seq<String>, d: DenseNodes, g: int, dg: int, la: int, lo: int, ns: Seq<Node>)
    requires enc_dense(t, d, g, dg, la, lo, ns), texts(t, st), t.len() <= i32::MAX, dg > 0, forall|i: int| 0 <= i < ns.len() ==> node_ok(#[trigger] ns[i], g, la, lo),
    ensures dense_ok(st, d, g, dg, la, lo),
        forall|i: int, e: Element| 0 <= i < ns.len() && #[trigger] dec_dense(st, d, g, dg, la, lo, i, e) ==> same_node(ns[i], e->node, g, dg, la, lo),
{
    let n = ns.len() as int;
    let f = d.denseinfo->0;
    assert forall|i: int| 0 < i <= n implies enc_node(t, d, g, dg, la, lo, ns, i - 1) && fits64(#[trigger] dsum(d.id@, i)) by { assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); }
    assert(sums64(d.id@, n));
    assert forall|i: int| 0 < i <= n implies fits64(#[trigger] dsum(d.lat@, i)) && fits64(g * dsum(d.lat@, i)) && fits64(nano(la, g, dsum(d.lat@, i))) by {
        assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); assert(node_ok(ns[i - 1], g, la, lo));
        lemma_nano_fits(la, g, dsum(d.lat@, i), ns[i - 1].coordinate.lat);
    }
    assert(sums64(d.lat@, n) && nanos_ok(la, g, d.lat@, n));
    assert forall|i: int| 0 < i <= n implies fits64(#[trigger] dsum(d.lon@, i)) && fits64(g * dsum(d.lon@, i)) && fits64(nano(lo, g, dsum(d.lon@, i))) by {
        assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); assert(node_ok(ns[i - 1], g, la, lo));
        lemma_nano_fits(lo, g, dsum(d.lon@, i), ns[i - 1].coordinate.lon);
    }
    assert(sums64(d.lon@, n) && nanos_ok(lo, g, d.lon@, n));
    assert forall|i: int| 0 <= i <= n implies fits64(#[trigger] dsum(f.timestamp@, i)) && (i > 0 ==> fits64(dsum(f.timestamp@, i) * dg)) by {
        if i > 0 { assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); assert(node_ok(ns[i - 1], g, la, lo)); lemma_cut(ns[i - 1].timestamp as int, dg); }
    }
    assert(sums64(f.timestamp@, n) && times_ok(f.timestamp@, dg, n));
    assert forall|i: int| 0 <= i <= n implies fits64(#[trigger] dsum(f.changeset@, i)) by { if i > 0 { assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); } }
    assert forall|i: int| 0 <= i <= n implies fits32(#[trigger] dsum32(f.uid@, i)) by { if i > 0 { assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); } }
    assert forall|i: int| 0 <= i <= n implies 0 <= (#[trigger] dsum32(f.user_sid@, i)) && (i > 0 ==> dsum32(f.user_sid@, i) < t.len()) by { if i > 0 { assert(enc_node(t, d, g, dg, la, lo, ns, i - 1)); } }
    assert(sids_ok(f.user_sid@, st, n));
    assert(sums32(f.user_sid@, n));
    assert forall|i: int| 0 <= i < n implies kv_ok(st, d.keys_vals@, #[trigger] kv_start(d.keys_vals@, i)) by {
        lemma_kv_pos(t, st, d, g, dg, la, lo, ns, i);
        assert(enc_node(t, d, g, dg, la, lo, ns, i));
        lemma_seg_read(t, st, d.keys_vals@, kpos(ns, i), ns[i].tags@, 0);
    }
    assert forall|i: int, e: Element| 0 <= i < ns.len() && #[trigger] dec_dense(st, d, g, dg, la, lo, i, e) implies same_node(ns[i], e->node, g, dg, la, lo) by {
        assert(enc_node(t, d, g, dg, la, lo, ns, i));
        assert(node_ok(ns[i], g, la, lo));
        lemma_kv_pos(t, st, d, g, dg, la, lo, ns, i);
        lemma_tagged(t, st, d.keys_vals@, kpos(ns, i), ns[i].tags@, e->node.tags@);
        lemma_cut(ns[i].timestamp as int, dg);
        lemma_text_inj(st[dsum32(f.user_sid@, i + 1)], ns[i].user);
    }
}
}
