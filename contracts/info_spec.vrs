verus! {
// ---------------- encoding: what the stored message says about the element
pub open spec fn enc_tags(t: Seq<Vec<u8>>, keys: Seq<u32>, vals: Seq<u32>, tags: Seq<Tag>, n: int) -> bool {
    &&& keys.len() == n && vals.len() == n && n <= tags.len()
    &&& forall|i: int| 0 <= i < n ==> at(t, keys[i] as int, (#[trigger] tags[i]).k) && at(t, vals[i] as int, tags[i].v)
}
pub open spec fn enc_info(t: Seq<Vec<u8>>, info: Option<osmpbf::Info>, dg: int, version: i32, timestamp: i64, changeset: i64, uid: i32, user: String, visible: bool) -> bool {
    &&& info is Some
    &&& (info->0).visible == Some(visible)
    &&& (info->0).uid == Some(uid)
    &&& (info->0).changeset == Some(changeset)
    &&& (info->0).timestamp == Some(tdiv(timestamp as int, dg) as i64)
    &&& (info->0).version == Some(version)
    &&& (info->0).user_sid is Some && at(t, ((info->0).user_sid->0) as int, user)
}
/// division that drops the fraction, as `/` on machine integers
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
/// the timestamp cut to the date granularity
pub open spec fn cut(a: int, b: int) -> int { tdiv(a, b) * b }
proof fn lemma_cut(a: int, b: int)
    requires b > 0, i64::MIN < a <= i64::MAX,
    ensures i64::MIN < cut(a, b) <= i64::MAX, i64::MIN < tdiv(a, b) <= i64::MAX,
{
    let x = if a >= 0 { a } else { -a };
    assert(0 <= x / b <= x && 0 <= (x / b) * b <= x) by (nonlinear_arith) requires x >= 0, b > 0;
    assert((-(x / b)) * b == -((x / b) * b)) by (nonlinear_arith);
}

// ---------------- decoding: the element a stored message stands for
pub open spec fn st_ok(st: Seq<String>, i: int) -> bool { 0 <= i < st.len() }
pub open spec fn tags_ok(st: Seq<String>, keys: Seq<u32>, vals: Seq<u32>) -> bool {
    &&& keys.len() == vals.len()
    &&& forall|i: int| 0 <= i < keys.len() ==> st_ok(st, (#[trigger] keys[i]) as int) && st_ok(st, vals[i] as int)
}
pub open spec fn dec_tags(st: Seq<String>, keys: Seq<u32>, vals: Seq<u32>, tags: Seq<Tag>, n: int) -> bool {
    &&& tags.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] tags[i]).k == st[keys[i] as int] && tags[i].v == st[vals[i] as int]
}
pub open spec fn oi64(o: Option<i64>, d: i64) -> i64 { match o { Some(x) => x, None => d } }
pub open spec fn oi32(o: Option<i32>, d: i32) -> i32 { match o { Some(x) => x, None => d } }
pub open spec fn ou32(o: Option<u32>, d: u32) -> u32 { match o { Some(x) => x, None => d } }
pub open spec fn info_ok(st: Seq<String>, info: Option<osmpbf::Info>, dg: int) -> bool {
    info is Some ==> i64::MIN <= oi64((info->0).timestamp, 0) * dg <= i64::MAX && st_ok(st, ou32((info->0).user_sid, 0) as int)
}
/// timestamp in units of the date granularity; a missing flag means visible; no info means no values
pub open spec fn dec_info(st: Seq<String>, info: Option<osmpbf::Info>, dg: int, version: i32, timestamp: i64, changeset: i64, uid: i32, user: String, visible: bool) -> bool {
    match info {
        Some(i) => {
            &&& timestamp == oi64(i.timestamp, 0) * dg
            &&& changeset == oi64(i.changeset, -1i64)
            &&& uid == oi32(i.uid, -1i32)
            &&& user == st[ou32(i.user_sid, 0) as int]
            &&& visible == (match i.visible { Some(b) => b, None => true })
            &&& version == oi32(i.version, -1i32)
        },
        None => timestamp == -1 && changeset == -1 && uid == -1 && user@.len() == 0 && visible && version == 0,
    }
}
/// every prefix sum fits
pub open spec fn sums_fit(d: Seq<i64>) -> bool {
    forall|n: int| 0 <= n <= d.len() ==> i64::MIN <= #[trigger] psum(d, n) <= i64::MAX
}
pub open spec fn dec_refs(d: Seq<i64>, refs: Seq<i64>, n: int) -> bool {
    refs.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] refs[i] == psum(d, i + 1)
}
// ---------------- ways
pub open spec fn diffs_fit(v: Seq<i64>) -> bool {
    &&& forall|i: int| 0 < i < v.len() ==> i64::MIN <= #[trigger] v[i] - v[i - 1] <= i64::MAX
}
pub open spec fn enc_way(t: Seq<Vec<u8>>, w: osmpbf::Way, dg: int, way: Way) -> bool {
    &&& w.id == way.id
    &&& w.refs@.len() == way.refs@.len()
    &&& forall|i: int| 0 <= i < way.refs@.len() ==> psum(w.refs@, i + 1) == #[trigger] way.refs@[i]
    &&& enc_tags(t, w.keys@, w.vals@, way.tags@, way.tags@.len() as int)
    &&& enc_info(t, w.info, dg, way.version, way.timestamp, way.changeset, way.uid, way.user, way.visible)
}
pub open spec fn way_ok(st: Seq<String>, w: osmpbf::Way, dg: int) -> bool {
    sums_fit(w.refs@) && tags_ok(st, w.keys@, w.vals@) && info_ok(st, w.info, dg)
}
pub open spec fn dec_way(st: Seq<String>, w: osmpbf::Way, dg: int, e: Element) -> bool {
    &&& e is Way
    &&& e->way.id == w.id
    &&& dec_refs(w.refs@, e->way.refs@, w.refs@.len() as int)
    &&& dec_tags(st, w.keys@, w.vals@, e->way.tags@, w.keys@.len() as int)
    &&& dec_info(st, w.info, dg, e->way.version, e->way.timestamp, e->way.changeset, e->way.uid, e->way.user, e->way.visible)
}
/// psum only depends on the first n entries
proof fn lemma_psum_prefix(a: Seq<i64>, b: Seq<i64>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures psum(a, n) == psum(b, n),
    decreases n
{ if n > 0 { lemma_psum_prefix(a, b, n - 1); } }
proof fn lemma_at_prefix(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, i: int, s: String)
    requires at(t, i, s), prefix(t, u),
    ensures at(u, i, s),
{ assert(t[i] == u[i]); }
pub broadcast proof fn lemma_at_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, i: int, s: String)
    requires #[trigger] at(t, i, s), #[trigger] prefix(t, u),
    ensures at(u, i, s),
{ assert(t[i] == u[i]); }
pub broadcast proof fn lemma_prefix_trans(a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, c: Seq<Vec<u8>>)
    requires #[trigger] prefix(a, b), #[trigger] prefix(b, c),
    ensures prefix(a, c),
{ }
proof fn lemma_way_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, w: osmpbf::Way, dg: int, way: Way)
    requires enc_way(t, w, dg, way), prefix(t, u),
    ensures enc_way(u, w, dg, way),
{
    lemma_at_prefix(t, u, ((w.info->0).user_sid->0) as int, way.user);
    assert forall|i: int| 0 <= i < way.tags@.len() implies at(u, w.keys@[i] as int, (#[trigger] way.tags@[i]).k) && at(u, w.vals@[i] as int, way.tags@[i].v) by {
        lemma_at_prefix(t, u, w.keys@[i] as int, way.tags@[i].k);
        lemma_at_prefix(t, u, w.vals@[i] as int, way.tags@[i].v);
    }
}
/// the way itself, its timestamp cut to the date granularity
pub open spec fn same_way(a: Way, b: Way, dg: int) -> bool {
    &&& a.id == b.id && a.version == b.version && a.changeset == b.changeset && a.uid == b.uid && a.user == b.user && a.visible == b.visible
    &&& a.refs@ == b.refs@ && a.tags@ == b.tags@
    &&& b.timestamp == cut(a.timestamp as int, dg)
}
/// N02: what is decoded from an encoded way is that way
proof fn lemma_way_roundtrip(t: Seq<Vec<u8>>, st: Seq<String>, w: osmpbf::Way, dg: int, way: Way)
    requires enc_way(t, w, dg, way), texts(t, st), dg > 0, way.timestamp > i64::MIN,
    ensures way_ok(st, w, dg), forall|e: Element| #[trigger] dec_way(st, w, dg, e) ==> same_way(way, e->way, dg),
{
    lemma_cut(way.timestamp as int, dg);
    lemma_info_roundtrip(t, st, w.info, dg, way.version, way.timestamp, way.changeset, way.uid, way.user, way.visible);
    lemma_tags_roundtrip(t, st, w.keys@, w.vals@, way.tags@);
    assert forall|n: int| 0 <= n <= w.refs@.len() implies i64::MIN <= #[trigger] psum(w.refs@, n) <= i64::MAX by {
        if n > 0 { assert(psum(w.refs@, (n - 1) + 1) == way.refs@[n - 1]); }
    }
    assert forall|e: Element| #[trigger] dec_way(st, w, dg, e) implies same_way(way, e->way, dg) by {
        assert(e->way.refs@ =~= way.refs@);
    }
}
proof fn lemma_tags_roundtrip(t: Seq<Vec<u8>>, st: Seq<String>, keys: Seq<u32>, vals: Seq<u32>, tags: Seq<Tag>)
    requires enc_tags(t, keys, vals, tags, tags.len() as int), texts(t, st),
    ensures tags_ok(st, keys, vals), forall|g: Seq<Tag>| #[trigger] dec_tags(st, keys, vals, g, tags.len() as int) ==> g == tags,
{
    assert forall|i: int| 0 <= i < keys.len() implies st_ok(st, (#[trigger] keys[i]) as int) && st_ok(st, vals[i] as int) && st[keys[i] as int] == tags[i].k && st[vals[i] as int] == tags[i].v by {
        assert(at(t, keys[i] as int, tags[i].k));
        lemma_text_inj(st[keys[i] as int], tags[i].k);
        lemma_text_inj(st[vals[i] as int], tags[i].v);
    }
    assert forall|g: Seq<Tag>| #[trigger] dec_tags(st, keys, vals, g, tags.len() as int) implies g == tags by {
        assert forall|i: int| 0 <= i < tags.len() implies g[i] == tags[i] by {
            assert(g[i].k == st[keys[i] as int]);
        }
        assert(g =~= tags);
    }
}
proof fn lemma_info_roundtrip(t: Seq<Vec<u8>>, st: Seq<String>, info: Option<osmpbf::Info>, dg: int, version: i32, timestamp: i64, changeset: i64, uid: i32, user: String, visible: bool)
    requires enc_info(t, info, dg, version, timestamp, changeset, uid, user, visible), texts(t, st), dg > 0, timestamp > i64::MIN,
    ensures info_ok(st, info, dg),
        forall|v: i32, ts: i64, cs: i64, u: i32, un: String, vi: bool| #[trigger] dec_info(st, info, dg, v, ts, cs, u, un, vi) ==> v == version && ts == cut(timestamp as int, dg) && cs == changeset && u == uid && un == user && vi == visible,
{
    lemma_cut(timestamp as int, dg);
    lemma_text_inj(st[((info->0).user_sid->0) as int], user);
}
}
verus! {
// ---------------- relations
pub open spec fn mdata(m: Member) -> MemberData {
    match m { Member::Node { member } => member, Member::Way { member } => member, Member::Relation { member } => member }
}
/// the member type numbers of the format: NODE = 0, WAY = 1, RELATION = 2
pub open spec fn mkind(m: Member) -> int {
    match m { Member::Node { .. } => 0, Member::Way { .. } => 1, Member::Relation { .. } => 2 }
}
proof fn lemma_member_ext(a: Member, b: Member)
    requires mkind(a) == mkind(b), mdata(a) == mdata(b),
    ensures a == b,
{ }
pub open spec fn mdiffs_fit(v: Seq<Member>) -> bool {
    forall|i: int| 0 < i < v.len() ==> i64::MIN <= mdata(#[trigger] v[i]).id - mdata(v[i - 1]).id <= i64::MAX
}
pub open spec fn enc_members(t: Seq<Vec<u8>>, types: Seq<i32>, roles: Seq<i32>, memids: Seq<i64>, ms: Seq<Member>, n: int) -> bool {
    &&& types.len() == n && roles.len() == n && memids.len() == n && n <= ms.len()
    &&& forall|i: int| 0 <= i < n ==> types[i] == mkind(#[trigger] ms[i]) && at(t, roles[i] as int, mdata(ms[i]).role) && psum(memids, i + 1) == mdata(ms[i]).id
}
pub open spec fn enc_relation(t: Seq<Vec<u8>>, r: osmpbf::Relation, dg: int, rel: Relation) -> bool {
    &&& r.id == rel.id
    &&& enc_members(t, r.types@, r.roles_sid@, r.memids@, rel.members@, rel.members@.len() as int)
    &&& enc_tags(t, r.keys@, r.vals@, rel.tags@, rel.tags@.len() as int)
    &&& enc_info(t, r.info, dg, rel.version, rel.timestamp, rel.changeset, rel.uid, rel.user, rel.visible)
}
pub open spec fn relation_ok(st: Seq<String>, r: osmpbf::Relation, dg: int) -> bool {
    &&& r.types@.len() == r.memids@.len() && r.roles_sid@.len() == r.memids@.len()
    &&& forall|i: int| 0 <= i < r.memids@.len() ==> 0 <= #[trigger] r.types@[i] <= 2 && st_ok(st, r.roles_sid@[i] as int)
    &&& sums_fit(r.memids@) && tags_ok(st, r.keys@, r.vals@) && info_ok(st, r.info, dg)
}
pub open spec fn dec_members(st: Seq<String>, types: Seq<i32>, roles: Seq<i32>, memids: Seq<i64>, ms: Seq<Member>, n: int) -> bool {
    &&& ms.len() == n
    &&& forall|i: int| 0 <= i < n ==> mkind(#[trigger] ms[i]) == types[i] && mdata(ms[i]).role == st[roles[i] as int] && mdata(ms[i]).id == psum(memids, i + 1)
}
pub open spec fn dec_relation(st: Seq<String>, r: osmpbf::Relation, dg: int, e: Element) -> bool {
    &&& e is Relation
    &&& e->relation.id == r.id
    &&& dec_members(st, r.types@, r.roles_sid@, r.memids@, e->relation.members@, r.memids@.len() as int)
    &&& dec_tags(st, r.keys@, r.vals@, e->relation.tags@, r.keys@.len() as int)
    &&& dec_info(st, r.info, dg, e->relation.version, e->relation.timestamp, e->relation.changeset, e->relation.uid, e->relation.user, e->relation.visible)
}
proof fn lemma_enc_tags_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, keys: Seq<u32>, vals: Seq<u32>, tags: Seq<Tag>, n: int)
    requires enc_tags(t, keys, vals, tags, n), prefix(t, u),
    ensures enc_tags(u, keys, vals, tags, n),
{
    assert forall|i: int| 0 <= i < n implies at(u, keys[i] as int, (#[trigger] tags[i]).k) && at(u, vals[i] as int, tags[i].v) by {
        lemma_at_prefix(t, u, keys[i] as int, tags[i].k);
        lemma_at_prefix(t, u, vals[i] as int, tags[i].v);
    }
}
proof fn lemma_enc_members_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, types: Seq<i32>, roles: Seq<i32>, memids: Seq<i64>, ms: Seq<Member>, n: int)
    requires enc_members(t, types, roles, memids, ms, n), prefix(t, u),
    ensures enc_members(u, types, roles, memids, ms, n),
{
    assert forall|i: int| 0 <= i < n implies types[i] == mkind(#[trigger] ms[i]) && at(u, roles[i] as int, mdata(ms[i]).role) && psum(memids, i + 1) == mdata(ms[i]).id by {
        lemma_at_prefix(t, u, roles[i] as int, mdata(ms[i]).role);
    }
}
proof fn lemma_relation_mono(t: Seq<Vec<u8>>, u: Seq<Vec<u8>>, r: osmpbf::Relation, dg: int, rel: Relation)
    requires enc_relation(t, r, dg, rel), prefix(t, u),
    ensures enc_relation(u, r, dg, rel),
{
    lemma_at_prefix(t, u, ((r.info->0).user_sid->0) as int, rel.user);
    lemma_enc_tags_mono(t, u, r.keys@, r.vals@, rel.tags@, rel.tags@.len() as int);
    lemma_enc_members_mono(t, u, r.types@, r.roles_sid@, r.memids@, rel.members@, rel.members@.len() as int);
}
pub open spec fn same_relation(a: Relation, b: Relation, dg: int) -> bool {
    &&& a.id == b.id && a.version == b.version && a.changeset == b.changeset && a.uid == b.uid && a.user == b.user && a.visible == b.visible
    &&& a.members@ == b.members@ && a.tags@ == b.tags@
    &&& b.timestamp == cut(a.timestamp as int, dg)
}
/// N02: what is decoded from an encoded relation is that relation
proof fn lemma_relation_roundtrip(t: Seq<Vec<u8>>, st: Seq<String>, r: osmpbf::Relation, dg: int, rel: Relation)
    requires enc_relation(t, r, dg, rel), texts(t, st), dg > 0, rel.timestamp > i64::MIN,
    ensures relation_ok(st, r, dg), forall|e: Element| #[trigger] dec_relation(st, r, dg, e) ==> same_relation(rel, e->relation, dg),
{
    lemma_info_roundtrip(t, st, r.info, dg, rel.version, rel.timestamp, rel.changeset, rel.uid, rel.user, rel.visible);
    lemma_tags_roundtrip(t, st, r.keys@, r.vals@, rel.tags@);
    let n = rel.members@.len() as int;
    assert forall|k: int| 0 <= k <= n implies i64::MIN <= #[trigger] psum(r.memids@, k) <= i64::MAX by {
        if k > 0 { let m = rel.members@[k - 1]; assert(psum(r.memids@, (k - 1) + 1) == mdata(m).id); }
    }
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] r.types@[i] <= 2 && st_ok(st, r.roles_sid@[i] as int) && st[r.roles_sid@[i] as int] == mdata(rel.members@[i]).role by {
        let m = rel.members@[i];
        assert(at(t, r.roles_sid@[i] as int, mdata(m).role));
        lemma_text_inj(st[r.roles_sid@[i] as int], mdata(m).role);
    }
    assert forall|e: Element| #[trigger] dec_relation(st, r, dg, e) implies same_relation(rel, e->relation, dg) by {
        assert forall|i: int| 0 <= i < n implies e->relation.members@[i] == rel.members@[i] by {
            let m = rel.members@[i];
            let x = e->relation.members@[i];
            assert(mkind(x) == r.types@[i] && mkind(m) == r.types@[i]);
            lemma_member_ext(x, m);
        }
        assert(e->relation.members@ =~= rel.members@);
    }
}
}
