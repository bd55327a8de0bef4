// shared: dense nodes (needs model, strtab, pbf, info_spec, ieee)
verus! {
pub open spec fn fits64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
pub open spec fn fits32(x: int) -> bool { i32::MIN <= x <= i32::MAX }
/// sum of the first `n` deltas, a missing one counting as 0
pub open spec fn dsum(d: Seq<i64>, n: int) -> int decreases n { if n <= 0 { 0 } else { dsum(d, n - 1) + (if n - 1 < d.len() { d[n - 1] as int } else { 0 }) } }
pub open spec fn dsum32(d: Seq<i32>, n: int) -> int decreases n { if n <= 0 { 0 } else { dsum32(d, n - 1) + (if n - 1 < d.len() { d[n - 1] as int } else { 0 }) } }
pub proof fn lemma_dsum_push(d: Seq<i64>, x: i64, n: int)
    requires 0 <= n <= d.len(),
    ensures dsum(d.push(x), n) == dsum(d, n), n == d.len() ==> dsum(d.push(x), n + 1) == dsum(d, n) + x,
    decreases n,
{ if n > 0 { lemma_dsum_push(d, x, n - 1); } }
pub proof fn lemma_dsum32_push(d: Seq<i32>, x: i32, n: int)
    requires 0 <= n <= d.len(),
    ensures dsum32(d.push(x), n) == dsum32(d, n), n == d.len() ==> dsum32(d.push(x), n + 1) == dsum32(d, n) + x,
    decreases n,
{ if n > 0 { lemma_dsum32_push(d, x, n - 1); } }
// ---- tags of dense nodes: key and value indices, a 0 after those of each node
/// the indices from `p` to the next 0
pub open spec fn pairs(kv: Seq<i32>, p: int) -> Seq<(i32, i32)>
    decreases kv.len() + 1 - p,
{ if p < 0 || p >= kv.len() || kv[p] == 0 { seq![] } else { seq![(kv[p], kv[p + 1])] + pairs(kv, p + 2) } }
/// the place after that 0
pub open spec fn kv_end(kv: Seq<i32>, p: int) -> int
    decreases kv.len() + 1 - p,
{ if p < 0 || p >= kv.len() { kv.len() as int } else if kv[p] == 0 { p + 1 } else { kv_end(kv, p + 2) } }
pub open spec fn kv_start(kv: Seq<i32>, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else { kv_end(kv, kv_start(kv, i - 1)) } }
pub open spec fn kv_ok(st: Seq<String>, kv: Seq<i32>, p: int) -> bool
    decreases kv.len() + 1 - p,
{ if p < 0 || p >= kv.len() || kv[p] == 0 { true } else { p + 1 < kv.len() && st_ok(st, kv[p] as int) && st_ok(st, kv[p + 1] as int) && kv_ok(st, kv, p + 2) } }
pub open spec fn tagged(st: Seq<String>, ps: Seq<(i32, i32)>, tags: Seq<Tag>) -> bool {
    tags.len() == ps.len() && forall|j: int| 0 <= j < ps.len() ==> (#[trigger] tags[j]).k == st[ps[j].0 as int] && tags[j].v == st[ps[j].1 as int]
}
pub open spec fn kv_all_ok(st: Seq<String>, kv: Seq<i32>, n: int) -> bool { forall|i: int| 0 <= i < n ==> kv_ok(st, kv, #[trigger] kv_start(kv, i)) }
pub proof fn lemma_kv_start(kv: Seq<i32>, i: int)
    ensures 0 <= kv_start(kv, i) <= kv.len(),
    decreases i,
{ if i > 0 { lemma_kv_start(kv, i - 1); lemma_kv_end(kv, kv_start(kv, i - 1)); } }
pub proof fn lemma_kv_end(kv: Seq<i32>, p: int)
    ensures 0 <= kv_end(kv, p) <= kv.len(),
    decreases kv.len() + 1 - p,
{ if !(p < 0 || p >= kv.len()) && kv[p] != 0 { lemma_kv_end(kv, p + 2); } }
// ---- decoding: what a dense group stands for
pub open spec fn sums64(d: Seq<i64>, n: int) -> bool { forall|i: int| 0 <= i <= n ==> fits64(#[trigger] dsum(d, i)) }
pub open spec fn sums32(d: Seq<i32>, n: int) -> bool { forall|i: int| 0 <= i <= n ==> fits32(#[trigger] dsum32(d, i)) }
/// offset + granularity * value, in nanodegrees
pub open spec fn nano(off: int, g: int, v: int) -> int { off + g * v }
pub open spec fn nanos_ok(off: int, g: int, d: Seq<i64>, n: int) -> bool { forall|i: int| 0 < i <= n ==> fits64(g * #[trigger] dsum(d, i)) && fits64(nano(off, g, dsum(d, i))) }
/// nanodegrees as degrees
pub open spec fn deg(x: int) -> f64 { fdiv(i2f(x as i64), 1000000000f64) }
pub open spec fn times_ok(d: Seq<i64>, dg: int, n: int) -> bool { forall|i: int| 0 < i <= n ==> fits64(#[trigger] dsum(d, i) * dg) }
pub open spec fn sids_ok(d: Seq<i32>, st: Seq<String>, n: int) -> bool { forall|i: int| 0 < i <= n ==> st_ok(st, #[trigger] dsum32(d, i)) }
pub open spec fn dense_ok(st: Seq<String>, d: DenseNodes, g: int, dg: int, la: int, lo: int) -> bool {
    let n = d.id@.len() as int;
    &&& d.lat@.len() >= n && d.lon@.len() >= n
    &&& sums64(d.id@, n) && sums64(d.lat@, n) && sums64(d.lon@, n)
    &&& nanos_ok(la, g, d.lat@, n) && nanos_ok(lo, g, d.lon@, n)
    &&& kv_all_ok(st, d.keys_vals@, n)
    &&& d.denseinfo is Some ==> ({
        let f = d.denseinfo->0;
        sums64(f.timestamp@, n) && times_ok(f.timestamp@, dg, n) && sums64(f.changeset@, n) && sums32(f.uid@, n) && sums32(f.user_sid@, n) && sids_ok(f.user_sid@, st, n)
    })
}
pub open spec fn dec_dense(st: Seq<String>, d: DenseNodes, g: int, dg: int, la: int, lo: int, i: int, e: Element) -> bool {
    &&& e is Node
    &&& e->node.id == dsum(d.id@, i + 1)
    &&& e->node.coordinate.lat == deg(nano(la, g, dsum(d.lat@, i + 1)))
    &&& e->node.coordinate.lon == deg(nano(lo, g, dsum(d.lon@, i + 1)))
    &&& tagged(st, pairs(d.keys_vals@, kv_start(d.keys_vals@, i)), e->node.tags@)
    &&& match d.denseinfo {
        Some(f) => {
            &&& e->node.timestamp == dsum(f.timestamp@, i + 1) * dg
            &&& e->node.changeset == dsum(f.changeset@, i + 1)
            &&& e->node.uid == dsum32(f.uid@, i + 1)
            &&& e->node.user == st[dsum32(f.user_sid@, i + 1)]
            &&& e->node.visible == (if i < f.visible@.len() { f.visible@[i] } else { true })
            &&& e->node.version == (if i < f.version@.len() { f.version@[i] } else { 0i32 })
        },
        None => e->node.timestamp == 0 && e->node.changeset == -1 && e->node.uid == -1 && e->node.user@.len() == 0 && e->node.visible && e->node.version == 0,
    }
}
}
