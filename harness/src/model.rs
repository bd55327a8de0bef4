//! The harness's own element model, conversions and generators.
use crate::ctx::Rng;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::model::node::Node;
use osm_io::osm::model::relation::{Member, MemberData, Relation};
use osm_io::osm::model::tag::Tag;
use osm_io::osm::model::way::Way;

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub kind: u8, // 0 node, 1 way, 2 relation, 3 sentinel
    pub id: i64,
    pub ver: i32,
    pub lat7: i64,
    pub lon7: i64,
    pub ts: i64, // milliseconds
    pub cs: i64,
    pub uid: i32,
    pub user: String,
    pub vis: bool,
    pub tags: Vec<(String, String)>,
    pub refs: Vec<i64>,
    pub members: Vec<(u8, i64, String)>,
    pub offgrid: bool,
}

impl El {
    pub fn sentinel() -> El {
        El { kind: 3, id: 0, ver: 0, lat7: 0, lon7: 0, ts: 0, cs: 0, uid: 0, user: String::new(), vis: true, tags: vec![], refs: vec![], members: vec![], offgrid: false }
    }
    pub fn node(id: i64) -> El {
        El { kind: 0, id, ver: 1, ..El::sentinel() }
    }
    pub fn of(kind: u8, id: i64, ver: i32) -> El {
        El { kind, id, ver, ..El::sentinel() }
    }
    /// as `of`, with every other field chosen from a hash of the key: code must not let them matter
    pub fn mix(kind: u8, id: i64, ver: i32) -> El {
        let mut e = El::of(kind, id, ver);
        if kind == 3 {
            return e;
        }
        let mut r = Rng::new((id as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((ver as u64) << 40) ^ kind as u64);
        e.vis = r.chance(2, 3);
        e.ts = r.range(0, 1_700_000) * 1000;
        e.cs = r.range(0, 50);
        e.uid = r.range(0, 9) as i32;
        e.user = format!("u{}", e.uid);
        for _ in 0..[0, 0, 1, 3][r.below(4)] {
            e.tags.push((format!("k{}", r.below(20)), format!("v{}", r.below(50))));
        }
        match kind {
            0 => {
                e.lat7 = r.range(-900_000_000, 900_000_000);
                e.lon7 = r.range(-1_800_000_000, 1_800_000_000);
            }
            1 => e.refs = (0..r.below(5)).map(|_| r.range(-9, 99)).collect(),
            _ => e.members = (0..r.below(4)).map(|_| (r.below(3) as u8, r.range(-9, 99), format!("r{}", r.below(4)))).collect(),
        }
        e
    }
    pub fn key(&self) -> (u8, i64, i32) {
        (self.kind, self.id, self.ver)
    }
    pub fn element(&self) -> Element {
        let tags: Vec<Tag> = self.tags.iter().map(|(k, v)| Tag::new(k.clone(), v.clone())).collect();
        match self.kind {
            0 => Element::Node { node: Node::new(self.id, self.ver, Coordinate::new(self.lat7 as f64 / 1e7, self.lon7 as f64 / 1e7), self.ts, self.cs, self.uid, self.user.clone(), self.vis, tags) },
            1 => Element::Way { way: Way::new(self.id, self.ver, self.ts, self.cs, self.uid, self.user.clone(), self.vis, self.refs.clone(), tags) },
            2 => Element::Relation {
                relation: Relation::new(
                    self.id, self.ver, self.ts, self.cs, self.uid, self.user.clone(), self.vis,
                    self.members.iter().map(|(t, id, r)| {
                        let member = MemberData::new(*id, r.clone());
                        match t { 0 => Member::Node { member }, 1 => Member::Way { member }, _ => Member::Relation { member } }
                    }).collect(),
                    tags,
                ),
            },
            _ => Element::Sentinel,
        }
    }
    pub fn from(e: &Element) -> El {
        fn tags(t: &[Tag]) -> Vec<(String, String)> {
            t.iter().map(|t| (t.k().clone(), t.v().clone())).collect()
        }
        match e {
            Element::Node { node } => {
                let lat7 = (node.coordinate().lat() * 1e7).round() as i64;
                let lon7 = (node.coordinate().lon() * 1e7).round() as i64;
                let offgrid = (node.coordinate().lat() - lat7 as f64 / 1e7).abs() > 1e-11 || (node.coordinate().lon() - lon7 as f64 / 1e7).abs() > 1e-11;
                El { kind: 0, id: node.id(), ver: node.version(), lat7, lon7, ts: node.timestamp(), cs: node.changeset(), uid: node.uid(), user: node.user().clone(), vis: node.visible(), tags: tags(node.tags()), refs: vec![], members: vec![], offgrid }
            }
            Element::Way { way } => El { kind: 1, id: way.id(), ver: way.version(), ts: way.timestamp(), cs: way.changeset(), uid: way.uid(), user: way.user().clone(), vis: way.visible(), tags: tags(way.tags()), refs: way.refs().clone(), ..El::sentinel() },
            Element::Relation { relation } => El {
                kind: 2, id: relation.id(), ver: relation.version(), ts: relation.timestamp(), cs: relation.changeset(), uid: relation.uid(), user: relation.user().clone(), vis: relation.visible(), tags: tags(relation.tags()),
                members: relation.members().iter().map(|m| match m {
                    Member::Node { member } => (0, member.id(), member.role().clone()),
                    Member::Way { member } => (1, member.id(), member.role().clone()),
                    Member::Relation { member } => (2, member.id(), member.role().clone()),
                }).collect(),
                ..El::sentinel()
            },
            Element::Sentinel => El::sentinel(),
        }
    }
    /// What a PBF round trip must yield.
    pub fn cut(&self) -> El {
        let mut e = self.clone();
        e.ts = e.ts / 1000 * 1000;
        e
    }
}

pub fn diff(exp: &[El], got: &[El]) -> Result<(), String> {
    for (i, (a, b)) in exp.iter().zip(got.iter()).enumerate() {
        if a != b {
            return Err(format!("element {i}: expected {a:?} got {b:?}"));
        }
    }
    if exp.len() != got.len() {
        return Err(format!("expected {} elements, got {}", exp.len(), got.len()));
    }
    Ok(())
}

pub const STRINGS: &[&str] = &[
    "", "a", "b", "name", "highway", "a b", " ", "  x ", "\t", "\n", "\r", "x\ty", "x\ny", "\\", "\\\\", "\\N", "\\.", "\\t", "a\\nb", "\u{8}", "\u{b}", "\u{c}", "\u{7}", "\u{1}", "\u{1f}", "\u{7f}",
    "\"", "'", "\"q\"", "日本語", "é", "ß\u{301}", "😀", "a,b", "{}", "$1", "\\x41", "\\101", "\\u0041", "\\b", "\\ ", "trailing\\", "\r\n", "NULL", "0", "1234567890123456789012345678901234567890",
    "\0", "a\0", "x\0y",
];

pub fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0..=5 => r.pick(STRINGS).to_string(),
        6..=7 => format!("{}{}", r.pick(STRINGS), r.pick(STRINGS)),
        8 => format!("k{}", r.below(1000)),
        _ => {
            let n = r.below(12);
            (0..n).map(|_| char::from_u32(match r.below(4) { 0 => r.below(127) as u32, 1 => 32 + r.below(95) as u32, 2 => 0xa0 + r.below(0x500) as u32, _ => 0x1F300 + r.below(200) as u32 }).unwrap_or('x')).collect()
        }
    }
}

pub fn tags(r: &mut Rng) -> Vec<(String, String)> {
    let n = if r.chance(1, 3) { 0 } else { r.below(5) };
    let mut t: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = text(r);
        // the formats allow a key to occur twice
        if t.iter().any(|(a, _)| *a == k) && !r.chance(1, 2) {
            continue;
        }
        t.push((k, text(r)));
    }
    if !t.is_empty() && r.chance(1, 12) {
        let (k, v) = r.pick(&t).clone();
        t.push((k, if r.bool() { v } else { text(r) }));
    }
    t
}

/// Counts around every small-integer boundary.
pub fn counts(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    for p in [5u32, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16] {
        let b = 1usize << p;
        v.extend([b - 1, b, b + 1]);
    }
    v.extend([100, 300, 1000, 2000, 2001, 5000, 8000, 8001, 20_000, 70_000]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// Elements with every number of tags, references and members in `counts`.
pub fn wide(r: &mut Rng, kind: u8, max_tags: usize, max_refs: usize) -> Vec<El> {
    let mut out = vec![];
    for n in counts(max_refs.max(max_tags)) {
        let mut e = El::mix(kind, out.len() as i64 + 1, 1);
        e.tags.clear();
        if n <= max_tags {
            e.tags = (0..n).map(|i| (format!("k{i}"), format!("v{}", i % 97))).collect();
        }
        if kind == 1 && n <= max_refs {
            e.refs = (0..n).map(|i| if i % 5 == 4 { 77 } else { r.range(-1_000_000, 12_000_000_000) }).collect();
        }
        if kind == 2 && n <= max_refs {
            e.members = (0..n).map(|i| (r.below(3) as u8, r.range(-1000, 12_000_000_000), format!("r{}", i % 211))).collect();
        }
        out.push(e);
    }
    out
}

/// Elements whose texts have every length in `counts`, in one- and three-byte characters.
pub fn long_texts(kind: u8, max: usize) -> Vec<El> {
    let mut out = vec![];
    for n in counts(max) {
        for ch in ["x", "日"] {
            let s = ch.repeat(n);
            let mut e = El::mix(kind, out.len() as i64 + 1, 1);
            e.uid = out.len() as i32 + 1;
            e.cs = out.len() as i64 + 1;
            e.user = s.clone();
            e.tags = vec![(format!("k{s}"), s.clone()), (format!("{s}2"), format!("{n}"))];
            if kind == 2 {
                e.members = vec![(0, 5, s.clone()), (1, 6, format!("{s}'"))];
            }
            out.push(e);
        }
    }
    out
}

/// `n` elements, all fields mixed, ids in no particular order.
pub fn crowd(r: &mut Rng, kind: u8, n: usize) -> Vec<El> {
    (0..n)
        .map(|i| {
            let mut e = El::mix(kind, if r.chance(1, 9) { big(r) } else { i as i64 * 3 - 50 }, 1 + r.below(3) as i32);
            if r.chance(1, 50) {
                e.ts = -1000 * r.range(0, 2_000_000_000);
            }
            e
        })
        .collect()
}

/// More than 65536 distinct strings in one block.
pub fn big_table(kind: u8) -> Vec<El> {
    (0..3500)
        .map(|i| {
            let mut e = El::mix(kind, i + 1, 1);
            e.tags = (0..10).map(|j| (format!("key{i}-{j}"), format!("value{i}-{j}"))).collect();
            e.user = format!("user{i}");
            if kind == 2 {
                e.members = (0..3).map(|j| (j as u8, i + j, format!("role{i}-{j}"))).collect();
            }
            e.uid = i as i32;
            e
        })
        .collect()
}

pub fn big(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, -1, 2, i64::MAX / 4, i64::MIN / 4, 1 << 32, -(1 << 32), i32::MAX as i64, i32::MIN as i64]),
        1 => r.range(-5, 5),
        2 => r.range(-1_000_000, 1_000_000),
        3 => r.range(i64::MIN / 4, i64::MAX / 4),
        _ => r.range(0, 12_000_000_000),
    }
}

/// Elements for PBF: every field arbitrary within representable differences.
pub fn pbf_el(r: &mut Rng, kind: u8, id: i64) -> El {
    let mut e = El::of(kind, id, *r.pick(&[0, 1, 2, 7, 100, i32::MAX, 3]));
    if kind == 0 {
        e.lat7 = match r.below(4) { 0 => *r.pick(&[0, 900_000_000, -900_000_000, 1, -1, 5, 123_456_789]), _ => r.range(-900_000_000, 900_000_000) };
        e.lon7 = match r.below(4) { 0 => *r.pick(&[0, 1_800_000_000, -1_800_000_000, 1, -1, 15, -123_456_789]), _ => r.range(-1_800_000_000, 1_800_000_000) };
    }
    e.ts = match r.below(4) { 0 => *r.pick(&[0, 999, 1000, 1001, 1_300_000_000_123, 253_402_300_799_000, -1000, -86_400_000, 2_147_483_647_000, 2_147_483_648_000, 4_294_967_296_500, 9_000_000_000_000_000]), _ => r.range(0, 2_000_000_000_000) };
    e.cs = match r.below(3) { 0 => *r.pick(&[0, -1, 1, i64::MAX / 4, 3]), _ => r.range(0, 150_000_000) };
    e.uid = match r.below(3) { 0 => *r.pick(&[0, -1, 1, i32::MAX / 2, i32::MIN / 2]), _ => r.range(0, 20_000_000) as i32 };
    e.user = text(r);
    e.vis = !r.chance(1, 4);
    e.tags = tags(r);
    if kind == 1 {
        let n = if r.chance(1, 5) { 0 } else { r.below(9) };
        for _ in 0..n {
            let x = if r.chance(1, 3) && !e.refs.is_empty() { *r.pick(&e.refs) } else { big(r) };
            e.refs.push(x);
        }
    }
    if kind == 2 {
        let n = if r.chance(1, 5) { 0 } else { r.below(9) };
        for _ in 0..n {
            let x = if r.chance(1, 3) && !e.members.is_empty() { e.members[r.below(e.members.len())].1 } else { big(r) };
            let role = text(r);
            e.members.push((r.below(3) as u8, x, role));
        }
    }
    e
}

/// Every special text in every text position, with growing versions.
pub fn special(kind: u8, id: i64) -> Vec<El> {
    let mut v = vec![];
    for (i, s) in STRINGS.iter().enumerate() {
        let mut e = El::mix(kind, id + i as i64, 1 + (i % 3) as i32);
        e.uid = i as i32 + 1;
        e.cs = i as i64 + 1;
        e.user = s.to_string();
        let o = STRINGS[(i + 5) % STRINGS.len()];
        e.tags = vec![(s.to_string(), o.to_string()), (format!("k{s}"), s.to_string()), (format!("m{s}"), format!("{o}{s}")), (format!("{s}--"), format!("{s} "))];
        if kind == 2 {
            e.members = vec![(0, 1, s.to_string()), (2, -1, "".into()), (1, 1, format!("{s}{o}")), (1, 2, s.to_string())];
        }
        v.push(e);
    }
    v
}

const EDGES: &[i64] = &[i64::MIN, i64::MIN + 1, -(1 << 53) - 1, -(1 << 33), -(1 << 32) - 1, -(1 << 32), -(1 << 31) - 1, -(1 << 31), -1, 0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, (1 << 53) + 1, i64::MAX - 1, i64::MAX];

/// Lists in which one field runs through the ends of its range, with differences that fit.
pub fn extremes(kind: u8) -> Vec<Vec<El>> {
    let mut out = vec![];
    let base = |i: usize| { let mut e = El::of(kind, i as i64 + 1, 1); e.user = "u".into(); e };
    for a in EDGES {
        for b in EDGES {
            if b.checked_sub(*a).is_none() {
                continue;
            }
            let (mut v, mut w) = (vec![base(0), base(1)], vec![base(0), base(1)]);
            v[0].id = *a;
            v[1].id = *b;
            w[0].cs = *a;
            w[1].cs = *b;
            if *a > i64::MIN / 2 && *b > i64::MIN / 2 {
                w[0].ts = *a;
                w[1].ts = *b;
            }
            if let (Ok(x), Ok(y)) = (i32::try_from(*a), i32::try_from(*b)) {
                v[0].ver = x;
                v[1].ver = y;
                if y.checked_sub(x).is_some() {
                    w[0].uid = x;
                    w[1].uid = y;
                }
            }
            if kind == 1 {
                v[0].refs = vec![*a, *b];
                v[1].refs = vec![*b];
            }
            if kind == 2 {
                v[0].members = vec![(0, *a, "r".into()), (2, *b, "".into())];
                v[1].members = vec![(1, *b, "r".into())];
            }
            out.push(v);
            out.push(w);
        }
    }
    out
}
