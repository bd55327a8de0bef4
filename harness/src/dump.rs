//! N17..N22: apidb dumps. The dump files are parsed and produced here independently of the crate.
use crate::ctx::{Ctx, Rng};
use crate::model::{text, El};
use osm_io::osm::apidb_dump::read::reader::Reader;
use osm_io::osm::apidb_dump::write::writer::Writer;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- COPY text format

/// PostgreSQL COPY text: one field, None = null.
pub fn pg_unescape(s: &str) -> Result<Option<String>, String> {
    if s == "\\N" {
        return Ok(None);
    }
    let b = s.as_bytes();
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        if i >= b.len() {
            return Err("a field ends in a lone backslash".into());
        }
        let oct = |x: u8| (b'0'..=b'7').contains(&x);
        match b[i] {
            b'b' => o.push(8),
            b'f' => o.push(12),
            b'n' => o.push(10),
            b'r' => o.push(13),
            b't' => o.push(9),
            b'v' => o.push(11),
            x if oct(x) => {
                let mut v = 0u32;
                let mut n = 0;
                while n < 3 && i < b.len() && oct(b[i]) {
                    v = v * 8 + (b[i] - b'0') as u32;
                    i += 1;
                    n += 1;
                }
                i -= 1;
                o.push((v & 0xff) as u8);
            }
            b'x' if i + 1 < b.len() && b[i + 1].is_ascii_hexdigit() => {
                let mut v = 0u32;
                let mut n = 0;
                i += 1;
                while n < 2 && i < b.len() && b[i].is_ascii_hexdigit() {
                    v = v * 16 + (b[i] as char).to_digit(16).unwrap();
                    i += 1;
                    n += 1;
                }
                i -= 1;
                o.push(v as u8);
            }
            x => o.push(x),
        }
        i += 1;
    }
    String::from_utf8(o).map(Some).map_err(|_| "a field is not UTF-8 after unescaping".into())
}

/// What pg_dump writes for a text value.
pub fn pg_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\t' => o.push_str("\\t"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\u{8}' => o.push_str("\\b"),
            '\u{b}' => o.push_str("\\v"),
            '\u{c}' => o.push_str("\\f"),
            c => o.push(c),
        }
    }
    o
}

pub fn sql_time(ms: i64) -> String {
    let s = ms.div_euclid(1000);
    let (d, t) = (s.div_euclid(86400), s.rem_euclid(86400));
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{y:04}-{m:02}-{day:02} {:02}:{:02}:{:02}", t / 3600, t / 60 % 60, t % 60)
}

// ---------------------------------------------------------------- reading a dump directory

pub struct Table {
    pub name: String,
    pub cols: Vec<String>,
    pub raw: Vec<Vec<String>>,
    pub rows: Vec<Vec<String>>,
}

impl Table {
    pub fn get<'a>(&self, row: &'a [String], col: &str) -> Result<&'a str, String> {
        let i = self.cols.iter().position(|c| c == col).ok_or(format!("{}: no column {col}", self.name))?;
        row.get(i).map(|s| s.as_str()).ok_or(format!("{}: short row", self.name))
    }
    pub fn project(&self, cols: &[&str]) -> Result<Vec<Vec<String>>, String> {
        self.rows.iter().map(|r| cols.iter().map(|c| self.get(r, c).map(|s| s.to_string())).collect()).collect()
    }
}

pub struct Dump {
    pub path: PathBuf,
    pub tables: HashMap<String, (Vec<String>, String)>,
    /// the writer, closed but not yet dropped
    pub writer: Option<Writer>,
}

fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    (from..h.len().saturating_sub(n.len() - 1)).find(|i| &h[*i..*i + n.len()] == n)
}

impl Dump {
    pub fn open(path: &Path) -> Result<Dump, String> {
        let toc = std::fs::read(path.join("toc.dat")).map_err(|e| format!("toc.dat: {e}"))?;
        let mut tables = HashMap::new();
        let mut i = 0;
        while let Some(a) = find(&toc, b"COPY public.", i) {
            let b = find(&toc, b" FROM stdin", a).ok_or("toc: no FROM stdin")?;
            let d = find(&toc, b".dat", b).ok_or("toc: no data file")?;
            let mut s = d;
            while s > 0 && toc[s - 1].is_ascii_digit() {
                s -= 1;
            }
            let stmt = String::from_utf8_lossy(&toc[a + 12..b]).to_string();
            let file = String::from_utf8_lossy(&toc[s..d + 4]).to_string();
            if let Some((name, cols)) = stmt.split_once(" (") {
                let cols: Vec<String> = cols.trim_end_matches(')').split(", ").map(|c| c.trim_matches('"').to_string()).collect();
                tables.insert(name.to_string(), (cols, file));
            }
            i = d;
        }
        Ok(Dump { path: path.to_path_buf(), tables, writer: None })
    }

    pub fn lines(&self, name: &str) -> Result<Vec<String>, String> {
        let (_, file) = self.tables.get(name).ok_or(format!("no table {name} in toc.dat"))?;
        let data = std::fs::read(self.path.join(file)).map_err(|e| format!("{name} ({file}): {e}"))?;
        let data = String::from_utf8(data).map_err(|_| format!("{name}: not UTF-8"))?;
        let body = data.strip_suffix("\\.\n").ok_or(format!("{name} ({file}) does not end with its terminator line"))?;
        if !body.is_empty() && !body.ends_with('\n') {
            return Err(format!("{name}: the terminator is not on a line of its own"));
        }
        let l: Vec<String> = body.split_terminator('\n').map(|s| s.to_string()).collect();
        if let Some(x) = l.iter().find(|x| *x == "\\.") {
            return Err(format!("{name}: end-of-data marker {x:?} inside the data"));
        }
        Ok(l)
    }

    pub fn table(&self, name: &str) -> Result<Table, String> {
        let cols = self.tables.get(name).ok_or(format!("no table {name} in toc.dat"))?.0.clone();
        let mut raw = vec![];
        let mut rows = vec![];
        for l in self.lines(name)? {
            if l.contains('\r') {
                return Err(format!("{name}: raw carriage return in {l:?}"));
            }
            let f: Vec<String> = l.split('\t').map(|s| s.to_string()).collect();
            if f.len() != cols.len() {
                return Err(format!("{name}: row {l:?} has {} columns, the table has {}", f.len(), cols.len()));
            }
            let mut u = vec![];
            for x in &f {
                u.push(pg_unescape(x).map_err(|e| format!("{name}: {e}: {l:?}"))?.unwrap_or("<NULL>".into()));
            }
            raw.push(f);
            rows.push(u);
        }
        Ok(Table { name: name.into(), cols, raw, rows })
    }

    pub fn remove(&self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

pub fn write_dump(c: &Ctx, els: &[El]) -> Result<Dump, String> {
    write_dump_to(c.path("dump"), els)
}

/// The dump is complete when the writer is closed, not only when it is gone.
fn write_dump_to(p: PathBuf, els: &[El]) -> Result<Dump, String> {
    let mut w = Writer::new(p.clone(), 0).map_err(|e| format!("Writer::new: {e:#}"))?;
    for e in els {
        w.write_element(e.element()).map_err(|x| format!("write_element({:?}): {x:#}", e.key()))?;
    }
    w.close().map_err(|e| format!("close: {e:#}"))?;
    let mut d = Dump::open(&p)?;
    d.writer = Some(w);
    Ok(d)
}

// ---------------------------------------------------------------- expected rows

const KIND: [&str; 3] = ["Node", "Way", "Relation"];

fn tf(b: bool) -> String {
    if b { "t".into() } else { "f".into() }
}

type Rows = Vec<Vec<String>>;

struct Spec {
    table: &'static str,
    cols: &'static [&'static str],
    rows: fn(&El) -> Rows,
    kind: u8,
    current: bool,
}

fn specs() -> Vec<Spec> {
    vec![
        Spec { table: "nodes", cols: &["node_id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "version", "redaction_id"], kind: 0, current: false,
            rows: |e| vec![vec![e.id.to_string(), e.lat7.to_string(), e.lon7.to_string(), e.cs.to_string(), tf(e.vis), sql_time(e.ts), e.ver.to_string(), "<NULL>".into()]] },
        Spec { table: "current_nodes", cols: &["id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "version"], kind: 0, current: true,
            rows: |e| vec![vec![e.id.to_string(), e.lat7.to_string(), e.lon7.to_string(), e.cs.to_string(), tf(e.vis), sql_time(e.ts), e.ver.to_string()]] },
        Spec { table: "node_tags", cols: &["node_id", "version", "k", "v"], kind: 0, current: false,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), e.ver.to_string(), k.clone(), v.clone()]).collect() },
        Spec { table: "current_node_tags", cols: &["node_id", "k", "v"], kind: 0, current: true,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), k.clone(), v.clone()]).collect() },
        Spec { table: "ways", cols: &["way_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"], kind: 1, current: false,
            rows: |e| vec![vec![e.id.to_string(), e.cs.to_string(), sql_time(e.ts), e.ver.to_string(), tf(e.vis), "<NULL>".into()]] },
        Spec { table: "current_ways", cols: &["id", "changeset_id", "timestamp", "visible", "version"], kind: 1, current: true,
            rows: |e| vec![vec![e.id.to_string(), e.cs.to_string(), sql_time(e.ts), tf(e.vis), e.ver.to_string()]] },
        Spec { table: "way_nodes", cols: &["way_id", "node_id", "version", "sequence_id"], kind: 1, current: false,
            rows: |e| e.refs.iter().enumerate().map(|(i, r)| vec![e.id.to_string(), r.to_string(), e.ver.to_string(), (i + 1).to_string()]).collect() },
        Spec { table: "current_way_nodes", cols: &["way_id", "node_id", "sequence_id"], kind: 1, current: true,
            rows: |e| e.refs.iter().enumerate().map(|(i, r)| vec![e.id.to_string(), r.to_string(), (i + 1).to_string()]).collect() },
        Spec { table: "way_tags", cols: &["way_id", "version", "k", "v"], kind: 1, current: false,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), e.ver.to_string(), k.clone(), v.clone()]).collect() },
        Spec { table: "current_way_tags", cols: &["way_id", "k", "v"], kind: 1, current: true,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), k.clone(), v.clone()]).collect() },
        Spec { table: "relations", cols: &["relation_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"], kind: 2, current: false,
            rows: |e| vec![vec![e.id.to_string(), e.cs.to_string(), sql_time(e.ts), e.ver.to_string(), tf(e.vis), "<NULL>".into()]] },
        Spec { table: "current_relations", cols: &["id", "changeset_id", "timestamp", "visible", "version"], kind: 2, current: true,
            rows: |e| vec![vec![e.id.to_string(), e.cs.to_string(), sql_time(e.ts), tf(e.vis), e.ver.to_string()]] },
        Spec { table: "relation_members", cols: &["relation_id", "member_type", "member_id", "member_role", "version", "sequence_id"], kind: 2, current: false,
            rows: |e| e.members.iter().enumerate().map(|(i, (t, m, r))| vec![e.id.to_string(), KIND[*t as usize].into(), m.to_string(), r.clone(), e.ver.to_string(), (i + 1).to_string()]).collect() },
        Spec { table: "current_relation_members", cols: &["relation_id", "member_type", "member_id", "member_role", "sequence_id"], kind: 2, current: true,
            rows: |e| e.members.iter().enumerate().map(|(i, (t, m, r))| vec![e.id.to_string(), KIND[*t as usize].into(), m.to_string(), r.clone(), (i + 1).to_string()]).collect() },
        Spec { table: "relation_tags", cols: &["relation_id", "version", "k", "v"], kind: 2, current: false,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), e.ver.to_string(), k.clone(), v.clone()]).collect() },
        Spec { table: "current_relation_tags", cols: &["relation_id", "k", "v"], kind: 2, current: true,
            rows: |e| e.tags.iter().map(|(k, v)| vec![e.id.to_string(), k.clone(), v.clone()]).collect() },
    ]
}

fn same_rows(table: &str, mut exp: Rows, mut got: Rows) -> Result<(), String> {
    exp.sort();
    got.sort();
    if exp == got {
        return Ok(());
    }
    for r in &got {
        let (a, b) = (exp.iter().filter(|x| *x == r).count(), got.iter().filter(|x| *x == r).count());
        if a != b {
            return Err(format!("{table}: row {r:?} is written {b} times, expected {a} times ({} rows expected, {} written)", exp.len(), got.len()));
        }
    }
    let r = exp.iter().find(|r| !got.contains(r));
    Err(format!("{table}: row {r:?} is missing ({} rows expected, {} written)", exp.len(), got.len()))
}

/// last version of every element, if visible
fn latest(els: &[El]) -> Vec<El> {
    let mut m: BTreeMap<(u8, i64), El> = BTreeMap::new();
    for e in els {
        if e.kind < 3 {
            let k = (e.kind, e.id);
            if m.get(&k).map_or(true, |o| o.ver <= e.ver) {
                m.insert(k, e.clone());
            }
        }
    }
    m.into_values().filter(|e| e.vis).collect()
}

fn check_tables(d: &Dump, els: &[El], current: bool) -> Result<(), String> {
    let cur = latest(els);
    for s in specs() {
        if s.current != current {
            continue;
        }
        let src: &[El] = if s.current { &cur } else { els };
        let exp: Rows = src.iter().filter(|e| e.kind == s.kind).flat_map(|e| (s.rows)(e)).collect();
        same_rows(s.table, exp, d.table(s.table)?.project(s.cols)?)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

const PLAIN: &[&str] = &["a", "b", "name", "highway", "x:y", "日本語", "é", "A1", "residential", "route", "z_z", "k"];

fn plain(r: &mut Rng) -> String {
    if r.chance(1, 4) { format!("{}{}", r.pick(PLAIN), r.below(50)) } else { r.pick(PLAIN).to_string() }
}

pub struct GenOpt {
    pub texts: bool,
    pub max: usize,
    pub kinds: [bool; 3],
    pub negative: bool,
}

/// A sorted history whose changesets and users are consistent.
pub fn history(r: &mut Rng, o: &GenOpt) -> Vec<El> {
    let txt = |r: &mut Rng| if o.texts && r.chance(2, 3) { text(r) } else { plain(r) };
    let nu = 1 + r.below(4);
    let ubase = *r.pick(&[1, 1, 1, 0, -8]);
    let users: Vec<(i32, String)> = (0..nu).map(|i| (i as i32 * 7 + ubase + if ubase == 0 && i == 0 { 0 } else { r.below(3) as i32 }, txt(r))).collect();
    let small = 1 + r.below(100) as i64;
    let csbase = *r.pick(&[small, 0, -5, i32::MAX as i64 - 3, 1 << 33]);
    let mut v = vec![];
    for kind in 0..3u8 {
        if !o.kinds[kind as usize] {
            continue;
        }
        let mut id = if o.negative && r.chance(1, 3) { r.range(-20, 0) } else { r.range(1, 12) };
        for _ in 0..r.below(o.max + 1) {
            id += *r.pick(&[1, 1, 1, 2, 7, 1000, 1 << 33]);
            let nv = *r.pick(&[1, 1, 1, 2, 3, 4]);
            let mut ver = if r.chance(1, 6) { 1 + r.below(9) as i32 } else { 1 };
            for _ in 0..nv {
                let mut e = El::of(kind, id, ver);
                ver += if r.chance(1, 5) { 1 + r.below(9) as i32 } else { 1 };
                let u = r.below(nu);
                e.uid = users[u].0;
                e.user = users[u].1.clone();
                e.cs = csbase + (u as i64) + nu as i64 * r.below(4) as i64;
                e.ts = r.range(0, 4_000_000_000) * 1000 + if r.chance(1, 3) { r.range(0, 999) } else { 0 };
                e.vis = !r.chance(1, 3);
                if kind == 0 {
                    e.lat7 = *r.pick(&[0, 1, -1, 900_000_000, -900_000_000, 123_456_789, -345_678_901]) ;
                    e.lon7 = r.range(-1_800_000_000, 1_800_000_000);
                }
                let mut keys = BTreeSet::new();
                for _ in 0..*r.pick(&[0, 0, 1, 2, 3]) {
                    let k = txt(r);
                    if keys.insert(k.clone()) {
                        let v = txt(r);
                        e.tags.push((k, v));
                    }
                }
                if kind == 1 {
                    for _ in 0..*r.pick(&[0, 0, 1, 2, 5, 12]) {
                        let x = if !e.refs.is_empty() && r.chance(1, 4) { *r.pick(&e.refs) } else { r.range(1, 3000) };
                        e.refs.push(x);
                    }
                }
                if kind == 2 {
                    for _ in 0..*r.pick(&[0, 0, 1, 2, 5, 12]) {
                        let role = if r.chance(1, 3) { String::new() } else { txt(r) };
                        e.members.push((r.below(3) as u8, r.range(1, 300), role));
                    }
                }
                v.push(e);
            }
        }
    }
    v
}

/// Ids and versions whose order as text differs from their order as numbers.
const ODD_IDS: &[i64] = &[-1000, -999, -100, -11, -10, -9, -2, -1, 0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 999, 1000, 1001, 9_999, 10_000, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 53) + 1, (1 << 53) + 2, 1 << 62];

fn dress(r: &mut Rng, e: &mut El, nu: usize) {
    let u = r.below(nu);
    e.uid = u as i32;
    e.user = format!("user {u}");
    let k = r.below(8) as i64 - 2;
    e.cs = u as i64 + nu as i64 * if k == 5 { 5 << 33 } else { k };
    e.ts = r.range(1_000_000_000, 1_700_000_000) * 1000;
}

/// Every id of ODD_IDS in several versions, of every kind.
fn odd_ids(r: &mut Rng) -> Vec<El> {
    let mut v = vec![];
    for kind in 0..3u8 {
        for id in ODD_IDS {
            for ver in [1, 2, 9, 10, 11, 100] {
                if r.chance(1, 2) {
                    continue;
                }
                let mut e = El::mix(kind, *id, ver);
                e.refs.iter_mut().for_each(|x| *x = x.abs() + 1);
                dress(r, &mut e, 7);
                v.push(e);
            }
        }
    }
    v
}

/// A large consistent history: many elements, users and changesets.
fn large(r: &mut Rng, n: usize, nu: usize) -> Vec<El> {
    let mut v = vec![];
    for kind in 0..3u8 {
        for i in 0..n {
            for ver in 1..=1 + r.below(3) as i32 {
                let mut e = El::mix(kind, i as i64 + 1, ver);
                dress(r, &mut e, nu);
                v.push(e);
            }
        }
    }
    v
}

/// Elements with up to thousands of child rows and texts of any length.
fn wide(r: &mut Rng, kind: u8) -> Vec<El> {
    let mut v = crate::model::wide(r, kind, 600, 70_000);
    v.extend(crate::model::long_texts(kind, 70_000));
    for (i, e) in v.iter_mut().enumerate() {
        let user = e.user.clone();
        e.id = i as i64 + 1;
        dress(r, e, 3);
        e.user = user;
        e.uid = i as i32 + 1;
        e.cs = i as i64 + 1;
        e.vis = i % 7 != 3;
        e.refs.iter_mut().for_each(|x| *x = x.abs() + 1);
    }
    v
}

fn brief(els: &[El]) -> String {
    format!("{} elements {:?}", els.len(), els.iter().take(4).collect::<Vec<_>>())
}

fn exhaustive_visibility() -> Vec<Vec<El>> {
    // all visibility patterns of two elements with up to 3 versions each, per kind
    let mut out = vec![];
    for kind in 0..3u8 {
        for n1 in 1..=3usize {
            for n2 in 0..=3usize {
                for bits in 0..(1u32 << (n1 + n2)) {
                    let mut v = vec![];
                    for i in 0..n1 + n2 {
                        let (id, ver) = if i < n1 { (5, i as i32 + 1) } else { (6, (i - n1) as i32 + 1) };
                        let mut e = El::of(kind, id, ver);
                        e.vis = bits >> i & 1 == 1;
                        e.cs = 3;
                        e.uid = 4;
                        e.user = "u".into();
                        e.ts = 1_500_000_000_000 + i as i64 * 1000;
                        if i % 2 == 0 {
                            e.tags.push(("k".into(), format!("v{i}")));
                        }
                        if kind == 1 && i % 3 != 1 {
                            e.refs = vec![i as i64 + 1, 9];
                        }
                        if kind == 2 && i % 3 != 1 {
                            e.members = vec![(i as u8 % 3, i as i64 + 1, "r".into()), (1, 9, "".into())];
                        }
                        v.push(e);
                    }
                    out.push(v);
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- N17, N18

/// Versions at the ends of their type, growing.
fn edge_versions(k: u8) -> Vec<El> {
    let mut v = vec![];
    for id in 1..=3i64 {
        for ver in [-1, 0, 1, 2, 9, 10, 127, 128, 32_767, 32_768, 65_536, i32::MAX - 1, i32::MAX] {
            if id == 2 && ver > 10 { continue; }
            let mut e = El::mix(k, id, ver);
            e.refs.iter_mut().for_each(|x| *x = x.abs() + 1);
            e.cs = 3;
            e.uid = 4;
            e.user = "u".into();
            e.vis = true;
            e.tags = vec![("a".into(), format!("{ver}")), ("b".into(), "".into())];
            if k == 1 { e.refs = vec![5, 6, 5]; }
            if k == 2 { e.members = vec![(0, 5, "r".into()), (1, 5, "".into()), (2, 6, "r".into())]; }
            v.push(e);
        }
    }
    v
}

/// One element with `n` tags, references and members, in `vers` versions.
fn heavy(k: u8, id: i64, n: usize, vers: i32) -> Vec<El> {
    (1..=vers)
        .map(|ver| {
            let mut e = El::of(k, id, ver);
            e.cs = 3;
            e.uid = 4;
            e.user = "u".into();
            e.ts = 1_500_000_000_000;
            e.tags = (0..n).map(|i| (format!("k{i}"), format!("v{ver}.{i}"))).collect();
            if k == 1 { e.refs = (0..n as i64).map(|i| 1 + i * 7919 % 10_007 + ver as i64).collect(); }
            if k == 2 { e.members = (0..n as i64).map(|i| ((i % 3) as u8, 1 + i * 7919 % 10_007 + ver as i64, format!("r{i}"))).collect(); }
            e
        })
        .collect()
}

pub fn n17(c: &Ctx) -> String {
    let run = |name: &str, els: &[El]| {
        c.case(name, "history", || brief(els), || {
            let p = c.path("dump");
            if name.starts_with("again") {
                // an older, longer dump lies in the directory
                let mut q = Rng::new(17);
                drop(write_dump_to(p.clone(), &large(&mut q, 300, 40))?);
            }
            let d = write_dump_to(p, els)?;
            check_tables(&d, els, false)?;
            let names: Vec<String> = d.tables.keys().cloned().collect();
            for t in &names {
                d.lines(t)?;
            }
            // users and changesets: one row per id
            let mut users: BTreeMap<i64, Vec<String>> = BTreeMap::new();
            let mut css: BTreeMap<i64, Vec<String>> = BTreeMap::new();
            for e in els.iter().filter(|e| e.kind < 3) {
                users.entry(e.uid as i64).or_default().push(e.user.clone());
                css.entry(e.cs).or_default().push(e.uid.to_string());
            }
            let t = d.table("users")?;
            for (what, t, exp, idc, valc) in [("users", &t, &users, "id", "display_name"), ("changesets", &d.table("changesets")?, &css, "id", "user_id")] {
                let mut seen = BTreeSet::new();
                for r in &t.rows {
                    let id: i64 = t.get(r, idc)?.parse().map_err(|_| format!("{what}: id {:?}", t.get(r, idc)))?;
                    if !seen.insert(id) {
                        return Err(format!("{what}: two rows for {id}"));
                    }
                    let v = t.get(r, valc)?;
                    match exp.get(&id) {
                        None => return Err(format!("{what}: row for {id}, which no element refers to")),
                        Some(a) if a.last().map(|x| x.as_str()) != Some(v) => return Err(format!("{what}: {valc} of {id} is {v:?}, the elements say {a:?}")),
                        _ => {}
                    }
                }
                if seen.len() != exp.len() {
                    let m: Vec<&i64> = exp.keys().filter(|k| !seen.contains(k)).collect();
                    return Err(format!("{what}: no row for {m:?}"));
                }
            }
            for r in &t.rows {
                for (col, v) in [("data_public", "t"), ("status", "pending"), ("description_format", "markdown"), ("terms_seen", "f")] {
                    if t.get(r, col)? != v {
                        return Err(format!("users.{col} is {:?}", t.get(r, col)));
                    }
                }
            }
            d.remove();
            Ok(())
        });
    };
    run("empty", &[]);
    run("again-empty", &[]);
    for k in 0..3u8 {
        run(&format!("times-{k}"), &all_times(k));
    }
    let mut r = Rng::new(c.seed);
    for k in 0..3u8 {
        run(&format!("edge-versions-{k}"), &edge_versions(k));
        run(&format!("again-{k}"), &heavy(k, 5, 3, 2));
        run(&format!("heavy-{k}"), &heavy(k, 5, 5000, 2));
        run(&format!("many-users-{k}"), &many_users(k, [25_000, 11_000, 11_000][k as usize]));
    }
    run("odd-ids", &odd_ids(&mut r));
    run("large", &large(&mut r, 3000, 6000));
    for k in 0..3u8 {
        run(&format!("special-{k}"), &crate::model::special(k, 1));
        run(&format!("wide-{k}"), &wide(&mut r, k));
        let mut only: Vec<El> = large(&mut r, 9000, 5).into_iter().filter(|e| e.kind == k).collect();
        run(&format!("only-{k}"), &only);
        only.truncate(1);
        run(&format!("single-{k}"), &only);
    }
    let mut i = 0;
    while (i < 400 || c.thorough) && c.time_left() && !c.too_many() {
        let mut els = history(&mut r, &GenOpt { texts: i % 3 == 2, max: 8, kinds: [i % 7 != 1, i % 7 != 2, i % 7 != 3], negative: true });
        if i % 5 == 4 {
            r.shuffle(&mut els); // history tables do not depend on the order
        }
        if i % 3 == 1 && !els.is_empty() {
            let k = r.below(els.len());
            els.insert(k, El::sentinel());
        }
        run(&format!("rand-{i}"), &els);
        i += 1;
    }
    // one user renamed between elements: still one row
    let mut a = El::node(1);
    a.uid = 5;
    a.cs = 8;
    a.user = "old".into();
    a.ts = 1_000_000_000_000;
    let mut b = a.clone();
    b.id = 2;
    b.user = "new".into();
    run("renamed", &[a, b]);
    "random histories of up to 8 elements per kind and 4 versions each, every history table compared row by row with an independent formatter; empty stream; every table file's terminator".into()
}

pub fn n18(c: &Ctx) -> String {
    let run = |name: &str, els: &[El]| {
        c.case(name, "current", || brief(els), || {
            let d = write_dump(c, els)?;
            check_tables(&d, els, true)?;
            d.remove();
            Ok(())
        });
    };
    // exhaustive visibility patterns; several independent ones share a dump by shifting ids
    let all = exhaustive_visibility();
    for kind in 0..3u8 {
        let ks: Vec<&Vec<El>> = all.iter().filter(|v| v[0].kind == kind).collect();
        // alone: the last element of a kind; chained: every pattern follows another one
        for (i, v) in ks.iter().enumerate() {
            if c.time_left() && (c.thorough || i % 5 == (c.seed as usize) % 5 || v.len() <= 3) {
                run(&format!("vis-{kind}-{i}"), v);
            }
        }
        let mut chain = vec![];
        for (i, v) in ks.iter().enumerate() {
            for e in v.iter() {
                let mut e = e.clone();
                e.id += 10 * i as i64;
                chain.push(e);
            }
        }
        run(&format!("chain-{kind}"), &chain);
    }
    let mut r = Rng::new(c.seed ^ 0x18);
    run("odd-ids", &odd_ids(&mut r));
    run("large", &large(&mut r, 3000, 6000));
    for k in 0..3u8 {
        run(&format!("special-{k}"), &crate::model::special(k, 1));
        run(&format!("wide-{k}"), &wide(&mut r, k));
        run(&format!("edge-versions-{k}"), &edge_versions(k));
        run(&format!("heavy-{k}"), &heavy(k, 5, 5000, 1));
        run(&format!("heavy-2-{k}"), &[heavy(k, 4, 40_000, 1), heavy(k, 5, 3000, 3)].concat());
        // many versions of few elements
        let mut v = vec![];
        for id in 1..=6i64 {
            for ver in 1..=*r.pick(&[1, 9, 30, 300]) {
                let mut e = El::mix(k, id, ver);
                dress(&mut r, &mut e, 4);
                v.push(e);
            }
        }
        run(&format!("versions-{k}"), &v);
    }
    let mut i = 0;
    while (i < 400 || c.thorough) && c.time_left() && !c.too_many() {
        let els = history(&mut r, &GenOpt { texts: i % 3 == 2, max: 8, kinds: [i % 7 != 1, i % 7 != 2, i % 7 != 3], negative: true });
        run(&format!("rand-{i}"), &els);
        i += 1;
    }
    "all visibility patterns of two consecutive elements with up to three versions each, per kind, alone and chained; random histories; every current_* table compared row by row".into()
}

// ---------------------------------------------------------------- writing dumps for the reader

const COLS: &[(&str, &[&str])] = &[
    ("nodes", &["node_id", "latitude", "longitude", "changeset_id", "visible", "timestamp", "tile", "version", "redaction_id"]),
    ("node_tags", &["node_id", "version", "k", "v"]),
    ("ways", &["way_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"]),
    ("way_nodes", &["way_id", "node_id", "version", "sequence_id"]),
    ("way_tags", &["way_id", "k", "v", "version"]),
    ("relations", &["relation_id", "changeset_id", "timestamp", "version", "visible", "redaction_id"]),
    ("relation_members", &["relation_id", "member_type", "member_id", "member_role", "version", "sequence_id"]),
    ("relation_tags", &["relation_id", "k", "v", "version"]),
    ("changesets", &["id", "user_id", "created_at", "min_lat", "max_lat", "min_lon", "max_lon", "closed_at", "num_changes"]),
    ("users", &["email", "id", "pass_crypt", "creation_time", "display_name", "data_public", "description", "home_lat", "home_lon", "home_zoom", "pass_salt", "email_valid", "new_email", "creation_ip", "languages", "status", "terms_agreed", "consider_pd", "auth_uid", "preferred_editor", "terms_seen", "description_format", "changesets_count", "traces_count", "diary_entries_count", "image_use_gravatar", "auth_provider", "home_tile", "tou_agreed"]),
];

pub struct DumpOpt {
    pub permute: bool,
    pub shuffle: bool,
    pub extra: bool,
    /// columns this library does not know, per table
    pub more: usize,
    /// bytes of other entries before each table in toc.dat
    pub filler: usize,
    pub odd_stmt: bool,
    pub drop_col: Option<(String, String)>,
    pub drop_table: Option<String>,
    pub base: usize,
    pub millis: bool,
}

fn pg_string(o: &mut Vec<u8>, s: &str) {
    o.push(0);
    o.extend((s.len() as u32).to_le_bytes());
    o.extend(s.as_bytes());
}

/// Row values by column name, already in COPY text form.
fn row_values(table: &str, els: &[El], millis: bool) -> Vec<HashMap<&'static str, String>> {
    let mut out: Vec<HashMap<&'static str, String>> = vec![];
    let p = |o: &mut Vec<HashMap<&'static str, String>>, kv: Vec<(&'static str, String)>| o.push(kv.into_iter().collect());
    // PostgreSQL prints no trailing zeros and up to six digits
    let time = |e: &El| match (millis && e.ts % 1000 != 0, e.id.rem_euclid(3)) {
        (false, _) => sql_time(e.ts),
        (true, 0) => format!("{}.{:03}{:03}", sql_time(e.ts), e.ts.rem_euclid(1000), 1 + e.ver.rem_euclid(998)),
        (true, _) => format!("{}.{:03}", sql_time(e.ts), e.ts.rem_euclid(1000)).trim_end_matches('0').to_string(),
    };
    let mut seen = BTreeSet::new();
    for e in els {
        let (id, ver) = (e.id.to_string(), e.ver.to_string());
        let idc = ["node_id", "way_id", "relation_id"].get(e.kind as usize).copied().unwrap_or("");
        match (table, e.kind) {
            ("nodes", 0) => p(&mut out, vec![("node_id", id), ("latitude", e.lat7.to_string()), ("longitude", e.lon7.to_string()), ("changeset_id", e.cs.to_string()), ("visible", tf(e.vis)), ("timestamp", time(e)), ("tile", "3221225472".into()), ("version", ver), ("redaction_id", if e.id % 3 == 0 { "17".into() } else { "\\N".into() })]),
            ("ways", 1) | ("relations", 2) => p(&mut out, vec![(idc, id), ("changeset_id", e.cs.to_string()), ("timestamp", time(e)), ("version", ver), ("visible", tf(e.vis)), ("redaction_id", if e.id % 3 == 0 { "17".into() } else { "\\N".into() })]),
            ("node_tags", 0) | ("way_tags", 1) | ("relation_tags", 2) => {
                for (k, v) in &e.tags {
                    p(&mut out, vec![(idc, id.clone()), ("version", ver.clone()), ("k", pg_escape(k)), ("v", pg_escape(v))]);
                }
            }
            ("way_nodes", 1) => {
                for (i, x) in e.refs.iter().enumerate() {
                    p(&mut out, vec![("way_id", id.clone()), ("node_id", x.to_string()), ("version", ver.clone()), ("sequence_id", (i + 1).to_string())]);
                }
            }
            ("relation_members", 2) => {
                for (i, (t, m, ro)) in e.members.iter().enumerate() {
                    p(&mut out, vec![("relation_id", id.clone()), ("member_type", KIND[*t as usize].into()), ("member_id", m.to_string()), ("member_role", pg_escape(ro)), ("version", ver.clone()), ("sequence_id", (i + 1).to_string())]);
                }
            }
            ("changesets", _) if e.kind < 3 => {
                if seen.insert(e.cs) {
                    p(&mut out, vec![("id", e.cs.to_string()), ("user_id", e.uid.to_string()), ("created_at", "2020-01-01 00:00:00.123456".into()), ("min_lat", if e.cs % 4 == 0 { "\\N".into() } else { "-900000000".into() }), ("max_lat", "900000000".into()), ("min_lon", "-1800000000".into()), ("max_lon", "\\N".into()), ("closed_at", "2020-01-01 01:00:00".into()), ("num_changes", "3".into())]);
                }
            }
            ("users", _) if e.kind < 3 => {
                if seen.insert(e.uid as i64) {
                    let v = (e.uid as i64 * 7 + e.cs).rem_euclid(60) as usize;
                    let b = |k: usize| -> String { if v % k == 0 { "t".into() } else { "f".into() } };
                    let opt = |k: usize, x: &str| -> String { if v % k == 0 { x.into() } else { "\\N".into() } };
                    p(&mut out, vec![("email", format!("u{}@example.com", e.uid)), ("id", e.uid.to_string()), ("pass_crypt", "00".into()), ("creation_time", if v % 2 == 0 { "2010-05-06 07:08:09".into() } else { "2010-05-06 07:08:09.5".into() }), ("display_name", pg_escape(&e.user)), ("data_public", b(2)), ("description", opt(1, ["about\\nme", "", "a\\tb"][v % 3])), ("home_lat", opt(2, "-0.5")), ("home_lon", opt(3, "1.5")), ("home_zoom", opt(4, "3")), ("pass_salt", opt(3, "salt!1")), ("email_valid", b(3)), ("new_email", opt(4, "x@example.com")), ("creation_ip", opt(5, "127.0.0.1")), ("languages", opt(2, "en,de")), ("status", ["active", "pending", "confirmed", "suspended", "deleted"][v % 5].into()), ("terms_agreed", opt(4, "2011-01-01 00:00:00")), ("consider_pd", b(5)), ("auth_uid", opt(3, "9")), ("preferred_editor", opt(4, "id")), ("terms_seen", b(2)), ("description_format", ["markdown", "html", "text"][v % 3].into()), ("changesets_count", (v * 1000).to_string()), ("traces_count", (v % 4).to_string()), ("diary_entries_count", (v % 7).to_string()), ("image_use_gravatar", b(4)), ("auth_provider", opt(5, "openid")), ("home_tile", opt(6, "3221225472")), ("tou_agreed", opt(3, "2018-01-01 00:00:00"))]);
                }
            }
            _ => {}
        }
    }
    out
}

pub fn make_dump(c: &Ctx, r: &mut Rng, els: &[El], o: &DumpOpt) -> Result<PathBuf, String> {
    let dir = c.path("in");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut toc: Vec<u8> = b"PGDMP\x01\x0e\x00\x04\x08\x03\x01\x01\x00\x00\x00\x00".to_vec();
    pg_string(&mut toc, "openstreetmap");
    let mut order: Vec<usize> = (0..COLS.len()).collect();
    if o.permute {
        r.shuffle(&mut order);
    }
    let mut num = o.base;
    let mut entry = |toc: &mut Vec<u8>, r: &mut Rng, stmt: &str, tag: &str| -> String {
        num += 1 + r.below(3);
        let f = format!("{num}.dat");
        toc.extend((num as u32).to_le_bytes());
        toc.extend([1, 0, 0, 0, 255, 254]);
        pg_string(toc, tag);
        pg_string(toc, "TABLE DATA");
        pg_string(toc, "");
        pg_string(toc, stmt);
        pg_string(toc, "public");
        pg_string(toc, "openstreetmap");
        pg_string(toc, "215");
        toc.extend([1, 1, 0, 0, 0]);
        pg_string(toc, &f);
        f
    };
    for i in order {
        let (t, cols) = COLS[i];
        for k in 0..o.filler / 100 {
            toc.extend((k as u32).to_le_bytes());
            pg_string(&mut toc, &format!("CREATE INDEX index_{k} ON public.{t} USING btree (c{k});"));
            pg_string(&mut toc, "openstreetmap");
        }
        if o.extra && r.chance(1, 2) {
            let f = entry(&mut toc, r, &format!("COPY public.current_{t} (id, k, v) FROM stdin;\n"), "current");
            std::fs::write(dir.join(f), "1\tx\ty\n\\.\n").map_err(|e| e.to_string())?;
            // tables whose names contain the name of a required one
            for name in [format!("public.{t}_archive"), format!("public.old_{t}"), format!("audit.{t}"), format!("audit.public.{t}"), format!("publicX{t}"), format!("public.{}", &t[..t.len() - 1])] {
                if r.chance(1, 3) {
                    let f = entry(&mut toc, r, &format!("COPY {name} ({}) FROM stdin;\n", cols.join(", ")), &name);
                    let row: Vec<String> = cols.iter().enumerate().map(|(i, c)| if *c == "timestamp" { "2001-01-01 00:00:00".into() } else { format!("{}", 7 + i) }).collect();
                    std::fs::write(dir.join(f), format!("{}\n\\.\n", row.join("\t"))).map_err(|e| e.to_string())?;
                }
            }
        }
        if o.odd_stmt && r.chance(1, 2) {
            let f = entry(&mut toc, r, "COPY public.spatial_ref_sys FROM stdin;\n", "odd");
            std::fs::write(dir.join(f), "\\.\n").map_err(|e| e.to_string())?;
        }
        if o.drop_table.as_deref() == Some(t) {
            continue;
        }
        let mut cs: Vec<&str> = cols.to_vec();
        let more: Vec<String> = (0..o.more).map(|k| { let n = cols[k % cols.len()]; match k % 4 { 0 => format!("{n}_{k}"), 1 => format!("old_{k}_{n}"), 2 => format!("{n}{k}"), _ => format!("x{k}") } }).collect();
        cs.extend(more.iter().map(|x| x.as_str()));
        if o.permute {
            r.shuffle(&mut cs);
        }
        if let Some((dt, dc)) = &o.drop_col {
            if dt == t {
                cs.retain(|x| x != dc);
            }
        }
        let names: Vec<String> = cs.iter().map(|x| if *x == "timestamp" { "\"timestamp\"".to_string() } else { x.to_string() }).collect();
        let f = entry(&mut toc, r, &format!("COPY public.{t} ({}) FROM stdin;\n", names.join(", ")), t);
        let mut rows = row_values(t, els, o.millis);
        if o.extra && (t == "users" || t == "changesets") && !rows.is_empty() {
            // rows nobody refers to
            let used: BTreeSet<String> = rows.iter().map(|x| x["id"].clone()).collect();
            let uids: Vec<i64> = els.iter().filter(|e| e.kind < 3).map(|e| e.uid as i64).collect();
            for k in 0..40i64 {
                let id = (1_000_000 + 37 * k).to_string();
                if !used.contains(&id) {
                    let mut x = rows[0].clone();
                    x.insert("id", id);
                    if t == "users" { x.insert("display_name", format!("nobody {k}")); } else { x.insert("user_id", uids[k as usize % uids.len()].to_string()); }
                    let at = r.below(rows.len() + 1);
                    rows.insert(at, x);
                }
            }
        }
        if o.shuffle {
            r.shuffle(&mut rows);
        }
        let mut body = String::new();
        for row in &rows {
            let v: Vec<&str> = cs.iter().map(|k| row.get(k).map(|s| s.as_str()).unwrap_or("\\N")).collect();
            body.push_str(&v.join("\t"));
            body.push('\n');
        }
        body.push_str("\\.\n\n\n");
        std::fs::write(dir.join(f), body).map_err(|e| e.to_string())?;
    }
    std::fs::write(dir.join("toc.dat"), toc).map_err(|e| e.to_string())?;
    Ok(dir)
}

/// What the reader must deliver for a dump holding these elements.
fn expected(els: &[El], millis: bool) -> Vec<El> {
    let mut v: Vec<El> = els.iter().filter(|e| e.kind < 3).cloned().collect();
    v.sort_by_key(|e| e.key());
    let mut out = vec![];
    for k in 0..3 {
        for e in v.iter().filter(|e| e.kind == k) {
            let mut e = e.clone();
            if !millis {
                e.ts = e.ts.div_euclid(1000) * 1000;
            }
            e.tags.sort();
            out.push(e);
        }
        out.push(El::sentinel());
    }
    out
}

fn read_dump(c: &Ctx, dir: &Path) -> Result<Vec<El>, String> {
    let tmp = c.path("tmp");
    let r = read_dump_with(dir, &tmp);
    let _ = std::fs::remove_dir_all(&tmp);
    r
}

fn read_dump_with(dir: &Path, tmp: &Path) -> Result<Vec<El>, String> {
    std::fs::create_dir_all(tmp).map_err(|e| e.to_string())?;
    (|| {
        let rd = Reader::new(dir.to_path_buf(), tmp.to_path_buf()).map_err(|e| format!("ERR Reader::new: {e:#}"))?;
        let mut it = rd.elements().map_err(|e| format!("ERR elements: {e:#}"))?;
        let mut v = vec![];
        while let Some(e) = it.next() {
            let mut e = El::from(&e);
            e.tags.sort();
            v.push(e);
            if v.len() > 2_000_000 {
                return Err("the iteration does not end".into());
            }
        }
        for _ in 0..3 {
            if let Some(e) = it.next() {
                return Err(format!("after the end the iterator yields {:?}", El::from(&e)));
            }
        }
        Ok(v)
    })()
}

/// Several dumps read one after the other, each twice, with the same directory for temporary files.
fn same_tmp(c: &Ctx, name: &str, key: &str, lists: &[Vec<El>]) {
    c.case(name, key, || format!("{} dumps read in turn, one temporary directory: {}", lists.len(), lists.iter().map(|l| brief(l)).collect::<Vec<_>>().join("; ")), || {
        let tmp = c.path("tmp");
        for (i, els) in lists.iter().enumerate() {
            let dir = make_dump(c, &mut Rng::new(5), els, &DumpOpt { shuffle: false, ..opt() })?;
            for _ in 0..2 {
                crate::model::diff(&expected(els, false), &read_dump_with(&dir, &tmp)?).map_err(|e| format!("dump {i}: {e}"))?;
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
        let _ = std::fs::remove_dir_all(&tmp);
        Ok(())
    });
}

fn opt() -> DumpOpt {
    DumpOpt { permute: false, shuffle: true, extra: false, more: 0, filler: 0, odd_stmt: false, drop_col: None, drop_table: None, base: 3800, millis: false }
}

// ---------------------------------------------------------------- N19

pub fn n19(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 0x19);
    let carrier = |s: &[String]| -> Vec<El> {
        // every string as key, value, role and user name
        let mut v = vec![];
        for kind in 0..3u8 {
            for (i, x) in s.iter().enumerate() {
                let mut e = El::of(kind, i as i64 + 1, 1);
                e.uid = i as i32 + 1;
                e.cs = i as i64 + 1;
                e.user = x.clone();
                e.ts = 1_400_000_000_000;
                e.tags = vec![(x.clone(), s[(i + 1) % s.len()].clone())];
                if s.len() > 1 {
                    let k2 = format!("v:{}", x);
                    e.tags.push((k2, x.clone()));
                }
                if kind == 1 {
                    e.refs = vec![4];
                }
                if kind == 2 {
                    e.members = vec![(0, 3, x.clone()), (1, 4, format!("{x}{x}"))];
                }
                v.push(e);
            }
        }
        v
    };
    let run = |name: &str, s: &[String], r: &mut Rng| {
        let els = carrier(s);
        let desc = || format!("{:?}", s);
        c.case(&format!("{name}-write"), "escape", desc, || {
            let d = write_dump(c, &els)?;
            check_tables(&d, &els, false)?;
            check_tables(&d, &els, true)?;
            let t = d.table("users")?;
            let got = t.project(&["id", "display_name"])?;
            let exp: Rows = s.iter().enumerate().map(|(i, x)| vec![(i + 1).to_string(), x.clone()]).collect();
            same_rows("users", exp, got)?;
            // the marker is never written for a value
            for (tb, cols) in [("node_tags", vec!["k", "v"]), ("way_tags", vec!["k", "v"]), ("relation_tags", vec!["k", "v"]), ("relation_members", vec!["member_role"]), ("users", vec!["display_name"])] {
                let t = d.table(tb)?;
                for row in &t.raw {
                    for col in &cols {
                        if t.get(row, col)? == "\\N" {
                            return Err(format!("{tb}.{col}: a value is written as the null marker"));
                        }
                    }
                }
            }
            // and read back by the crate's own reader
            let got = read_dump(c, &d.path)?;
            crate::model::diff(&expected(&els, false), &got)?;
            d.remove();
            Ok(())
        });
        c.case(&format!("{name}-read"), "unescape", desc, || {
            for permute in [false, true, true] {
                let dir = make_dump(c, r, &els, &DumpOpt { permute, ..opt() })?;
                let got = read_dump(c, &dir)?;
                crate::model::diff(&expected(&els, false), &got).map_err(|e| if permute { format!("columns in another order: {e}") } else { e })?;
                let _ = std::fs::remove_dir_all(&dir);
            }
            Ok(())
        });
    };
    // every ASCII character alone, and every pair of special characters, one by one only when a batch fails
    let mut singles: Vec<String> = (1u8..=127).map(|b| (b as char).to_string()).collect();
    singles.push(String::new());
    run("ascii", &singles, &mut r);
    let sp = ['\\', '\t', '\n', '\r', 'n', 't', 'N', '.', ' ', '"', '\'', 'x', 'u', '1', '\u{8}', '\u{b}', '\u{c}', 'é', '{', '$'];
    let mut pairs = vec![];
    for a in sp {
        for b in sp {
            pairs.push(format!("{a}{b}"));
            if c.thorough {
                for d in sp {
                    pairs.push(format!("{a}{b}{d}"));
                }
            }
        }
    }
    for (i, ch) in pairs.chunks(400).enumerate() {
        if c.time_left() {
            run(&format!("pairs-{i}"), ch, &mut r);
        }
    }
    // every other character of the basic plane (and some beyond), in runs and alone between letters
    let bmp: Vec<char> = (0x80u32..0x10000).filter_map(char::from_u32).chain((0x10000..0x11000).filter_map(char::from_u32)).chain(['\u{e0001}', '\u{10fffd}', '\u{10ffff}']).collect();
    let runs: Vec<String> = bmp.chunks(256).map(|c| c.iter().collect()).collect();
    run("unicode-runs", &runs, &mut r);
    let special: Vec<String> = bmp.iter().filter(|c| c.is_whitespace() || c.is_control() || matches!(**c as u32, 0x80..=0x2ff | 0x2000..=0x20ff | 0xfe00..=0xfeff | 0xfff0..=0xffff)).flat_map(|c| [format!("{c}"), format!("a{c}b")]).collect();
    for (i, ch) in special.chunks(600).enumerate() {
        run(&format!("unicode-{i}"), ch, &mut r);
    }
    run("fixed", &crate::model::STRINGS.iter().map(|s| s.to_string()).collect::<Vec<_>>(), &mut r);
    for (i, s) in ["plain", "a b", "tab\there", "nl\nx", "cr\rx", "back\\slash", "\\N", "\\.", "q\"q", "日本語", "\u{b}", "\\x41", "a'b"].iter().enumerate() {
        run(&format!("one-{i}"), &[s.to_string()], &mut r);
    }
    let long: Vec<String> = sp.iter().flat_map(|a| [127usize, 128, 255, 256, 1000, 4096, 5000].map(|n| a.to_string().repeat(n))).chain((0..60).map(|_| (0..r.below(2000)).map(|_| *r.pick(&sp)).collect())).collect::<BTreeSet<String>>().into_iter().collect();
    run("long", &long, &mut r);
    let mut i = 0;
    while (i < 40 || c.thorough) && c.time_left() && !c.too_many() {
        let mut set = BTreeSet::new();
        for _ in 0..40 {
            set.insert(text(&mut r));
        }
        let v: Vec<String> = set.into_iter().collect();
        run(&format!("rand-{i}"), &v, &mut r);
        i += 1;
    }
    "every ASCII character alone, all pairs (thorough: triples) of 20 special characters, a fixed list and random strings, as tag key, tag value, member role and user name: written and parsed by an independent COPY parser, written and read back, and read from an independently written dump".into()
}

// ---------------------------------------------------------------- N20..N22

fn read_case(c: &Ctx, name: &str, key: &str, els: &[El], o: DumpOpt, r: &mut Rng) {
    c.case(name, key, || brief(els), || {
        let dir = make_dump(c, r, els, &o)?;
        let got = read_dump(c, &dir)?;
        crate::model::diff(&expected(els, o.millis), &got)?;
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    });
}

/// Every special text in every text column.
fn special_rows(kind: u8) -> Vec<El> {
    let mut v = crate::model::special(kind, 1);
    for e in v.iter_mut() {
        e.refs.iter_mut().for_each(|x| *x = x.abs() + 1);
        // PostgreSQL text holds no NUL
        let clean = |s: &String| s.replace('\0', "~");
        e.user = clean(&e.user);
        e.tags = e.tags.iter().map(|(k, v)| (clean(k), clean(v))).collect();
        e.members = e.members.iter().map(|(t, i, ro)| (*t, *i, clean(ro))).collect();
        let mut seen = BTreeSet::new();
        e.tags.retain(|t| seen.insert(t.0.clone()));
    }
    v
}

/// All patterns of present and absent child rows over `n` consecutive elements.
fn pattern(kind: u8, n: usize, bits: u64, versions: bool) -> Vec<El> {
    let per = if kind == 0 { 1 } else { 2 };
    let mut v = vec![];
    for i in 0..n {
        let (id, ver) = if versions { (7, i as i32 + 1) } else { (i as i64 + 1, 1) };
        let mut e = El::of(kind, id, ver);
        e.uid = 1;
        e.cs = 1;
        e.user = "u".into();
        e.ts = 1_400_000_000_000;
        let b = bits >> (i * per);
        if b & 1 == 1 {
            e.tags = vec![("a".into(), format!("{i}")), ("b".into(), format!("{i}"))];
        }
        if per == 2 && b >> 1 & 1 == 1 {
            if kind == 1 {
                e.refs = vec![30 + i as i64, 20, 10 + i as i64];
            } else {
                e.members = vec![(2, 30 + i as i64, "z".into()), (0, 20, "m".into()), (1, 10, "a".into())];
            }
        }
        v.push(e);
    }
    v
}

pub fn n20(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 0x20);
    // The patterns of one kind are laid next to each other with growing ids, so every one follows every shape.
    for kind in 0..3u8 {
        for versions in [false, true] {
            let (n, max) = if kind == 0 { (6, 64u64) } else { (3, 64) };
            let mut els = vec![];
            for bits in 0..max {
                for mut e in pattern(kind, n, bits, versions) {
                    e.id += 100 * bits as i64;
                    els.push(e);
                }
            }
            read_case(c, &format!("patterns-{kind}-{versions}"), "join", &els, opt(), &mut r);
            let mut rev = opt();
            rev.shuffle = false;
            els.reverse();
            read_case(c, &format!("patterns-rev-{kind}-{versions}"), "join", &els, rev, &mut r);
        }
        for bits in 0..if c.thorough { 16u64 } else { 8 } {
            if c.time_left() {
                read_case(c, &format!("small-{kind}-{bits}"), "join", &pattern(kind, if kind == 0 { 4 } else { 2 }, bits, bits % 2 == 1), opt(), &mut r);
            }
        }
    }
    let v = odd_ids(&mut r);
    read_case(c, "odd-ids", "join", &v, opt(), &mut r);
    let v = large(&mut r, 3000, 6000);
    read_case(c, "large", "join", &v, opt(), &mut r);
    for k in 0..3u8 {
        let v = wide(&mut r, k);
        read_case(c, &format!("wide-{k}"), "join", &v, opt(), &mut r);
    }
    for k in 0..3u8 {
        let v = special_rows(k);
        read_case(c, &format!("special-{k}"), "join", &v, opt(), &mut r);
        read_case(c, &format!("special-permuted-{k}"), "join", &v, DumpOpt { permute: true, ..opt() }, &mut r);
    }
    for k in 0..3u8 {
        let v = [heavy(k, 7, 150, 4), heavy(k, 8, 2, 1), heavy(k, 9, 2500, 2), heavy(k, 10, 0, 2)].concat();
        read_case(c, &format!("heavy-{k}"), "join", &v, opt(), &mut r);
        same_tmp(c, &format!("same-tmp-{k}"), "join", &[heavy(k, 7, 30, 4), heavy(k, 3, 5, 2), [heavy(k, 1, 2, 2), heavy(k, 7, 60, 3)].concat()]);
    }
    // member and way node order is the stored sequence
    for n in [2usize, 3, 11, 130, 1200, 12_000] {
        let mut e = El::of(2, 5, 1);
        e.uid = 1;
        e.cs = 1;
        e.user = "u".into();
        e.ts = 1_400_000_000_000;
        for i in 0..n {
            e.members.push((r.below(3) as u8, r.range(1, 50), plain(&mut r)));
            let _ = i;
        }
        let mut w = El::of(1, 5, 1);
        w.uid = 1;
        w.cs = 1;
        w.user = "u".into();
        w.ts = e.ts;
        w.refs = (0..n).map(|_| r.range(1, 50)).collect();
        read_case(c, &format!("sequence-{n}"), "member-order", &[w, e], opt(), &mut r);
    }
    let mut i = 0;
    while (i < 150 || c.thorough) && c.time_left() && !c.too_many() {
        let els = history(&mut r, &GenOpt { texts: i % 3 == 2, max: 10, kinds: [i % 7 != 1, i % 7 != 2, i % 7 != 3], negative: true });
        read_case(c, &format!("rand-{i}"), "join", &els, opt(), &mut r);
        i += 1;
    }
    "all patterns of present and absent tags, way nodes and members over up to six neighbouring elements or versions, rows shuffled and reversed; random histories; every element compared with all its child rows".into()
}

/// every element has a user and a changeset of its own
fn many_users(k: u8, n: usize) -> Vec<El> {
    (0..n).map(|i| { let mut e = El::of(k, i as i64 + 1, 1); e.uid = (i * 7919 % n) as i32 + 1; e.cs = (i * 104_729 % n) as i64 + 5; e.user = format!("user {}", e.uid); e.ts = 1_234_567_890_000; e }).collect()
}

/// years 1 to 9999, leap days, both sides of 1970 and 2038, every number of digits of a second
fn all_times(k: u8) -> Vec<El> {
    let t = [0i64, 1000, -1000, -1, -500, 999, 100, 120, 123, 951_782_400_000, 951_868_799_999, 951_868_800_000, 2_147_483_647_000, 2_147_483_648_000, 4_294_967_296_000, 4_107_542_399_000, 4_107_542_400_000, 1_709_164_800_001, -2_208_988_800_000, -62_135_596_800_000, 253_402_300_799_999, 1_583_020_800_010, 1_577_836_799_990];
    t.iter().enumerate().map(|(i, t)| { let mut e = El::mix(k, i as i64 + 1, 1); e.refs.iter_mut().for_each(|x| *x = x.abs() + 1); e.cs = 3; e.uid = 4; e.user = "u".into(); e.ts = *t; e }).collect()
}

pub fn n21(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 0x21);
    for k in 0..8usize {
        let kinds = [k & 1 != 0, k & 2 != 0, k & 4 != 0];
        let mut els = history(&mut r, &GenOpt { texts: false, max: 4, kinds, negative: false });
        if els.is_empty() && k != 0 {
            for kind in 0..3u8 {
                if kinds[kind as usize] {
                    let mut e = El::of(kind, 3, 1);
                    e.cs = 2;
                    e.uid = 2;
                    e.user = "x".into();
                    els.push(e);
                }
            }
        }
        read_case(c, &format!("kinds-{k}"), "stream", &els, opt(), &mut r);
    }
    let v = odd_ids(&mut r);
    read_case(c, "odd-ids", "stream", &v, DumpOpt { millis: true, extra: true, permute: true, ..opt() }, &mut r);
    let v = large(&mut r, 4000, 6000);
    read_case(c, "large", "stream", &v, opt(), &mut r);
    for k in 0..3u8 {
        let v: Vec<El> = large(&mut r, 6000, 3).into_iter().filter(|e| e.kind == k).collect();
        read_case(c, &format!("only-{k}"), "stream", &v, opt(), &mut r);
    }
    {
        // ids of users and changesets at the edges of their types
        let mut v = vec![];
        for (i, (uid, cs)) in [(1, 1), (i32::MAX, i64::MAX / 2), (i32::MAX - 1, 1 << 32), (0, 0), (9, 9), (10, 10), (99, 100), (100, 99), (9, 1 << 31), (10, (1 << 53) + 1)].iter().enumerate() {
            for k in 0..3u8 {
                let mut e = El::mix(k, i as i64 + 1, 1);
                e.refs.iter_mut().for_each(|x| *x = x.abs() + 1);
                e.uid = *uid;
                e.user = format!("user {uid}");
                e.cs = *cs;
                v.push(e);
            }
        }
        read_case(c, "edge-users", "stream", &v, opt(), &mut r);
    }
    same_tmp(c, "same-tmp", "stream", &[large(&mut r, 60, 9), large(&mut r, 20, 3), vec![], large(&mut r, 40, 30)]);
    for k in 0..3u8 {
        // user names of any length
        let v: Vec<El> = [1usize, 2, 63, 64, 255, 256, 257, 300, 1024, 4097, 5000, 65_537].iter().flat_map(|n| ["x", "日"].map(|ch| (ch, *n))).enumerate().map(|(i, (ch, n))| { let mut e = El::mix(k, i as i64 + 1, 1); e.refs.iter_mut().for_each(|x| *x = x.abs() + 1); e.uid = i as i32; e.cs = i as i64; e.user = ch.repeat(n); e }).collect();
        read_case(c, &format!("user-names-{k}"), "stream", &v, opt(), &mut r);
        let v = special_rows(k);
        read_case(c, &format!("special-{k}"), "stream", &v, DumpOpt { permute: k == 1, ..opt() }, &mut r);
        // versions up to the end of their type
        let v: Vec<El> = [1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, 1 << 24, i32::MAX - 1, i32::MAX].iter().map(|ver| { let mut e = El::mix(k, 7, *ver); e.refs.iter_mut().for_each(|x| *x = x.abs() + 1); e.cs = 3; e.uid = 4; e.user = "u".into(); e }).collect();
        read_case(c, &format!("versions-{k}"), "stream", &v, opt(), &mut r);
    }
    for k in 0..3u8 {
        read_case(c, &format!("many-users-{k}"), "stream", &many_users(k, 11_000), opt(), &mut r);
        read_case(c, &format!("times-{k}"), "values", &all_times(k), DumpOpt { millis: true, ..opt() }, &mut r);
    }
    // every coordinate value class, every timestamp resolution
    let mut els = vec![];
    for (i, (la, lo)) in [(0, 0), (900_000_000, 1_800_000_000), (-900_000_000, -1_800_000_000), (1, -1), (123_456_789, -1_234_567_891), (-5, 5), (899_999_999, 1_799_999_999)].iter().enumerate() {
        let mut e = El::node(i as i64 + 1);
        e.ver = i as i32 + 1;
        e.lat7 = *la;
        e.lon7 = *lo;
        e.ts = 1_234_567_890_000 + 123 * i as i64;
        e.vis = i % 2 == 0;
        e.cs = 10 - i as i64;
        e.uid = 20 + i as i32;
        e.user = format!("user {i}");
        els.push(e);
    }
    let mut o = opt();
    o.millis = true;
    read_case(c, "values", "values", &els, o, &mut r);
    let mut i = 0;
    while (i < 150 || c.thorough) && c.time_left() && !c.too_many() {
        let els = history(&mut r, &GenOpt { texts: i % 2 == 1, max: 6, kinds: [i % 7 != 1, i % 7 != 2, i % 7 != 3], negative: true });
        let mut o = opt();
        o.millis = i % 2 == 0;
        o.extra = i % 3 == 0;
        read_case(c, &format!("rand-{i}"), "stream", &els, o, &mut r);
        i += 1;
    }
    "all combinations of empty and non-empty element tables, boundary coordinates and timestamps with milliseconds, random consistent dumps; the whole stream with sentinels and attribution compared, and next called again after the end".into()
}

pub fn n22(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed ^ 0x22);
    let base = |r: &mut Rng| loop {
        let texts = r.bool();
        let h = history(r, &GenOpt { texts, max: 4, kinds: [true; 3], negative: false });
        if (0..3).all(|k| h.iter().any(|e| e.kind == k)) && h.iter().any(|e| !e.members.is_empty()) {
            return h;
        }
    };
    let n = if c.thorough { 100000 } else { 45 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let els = base(&mut r);
        let o = DumpOpt { permute: true, shuffle: i % 2 == 0, extra: i % 3 != 0, base: *r.pick(&[1, 8, 95, 3800, 99990]), ..opt() };
        read_case(c, &format!("perm-{i}"), "columns", &els, o, &mut r);
    }
    // columns and toc entries of other versions of the schema
    for (k, more) in [1usize, 2, 5, 12, 40, 300].into_iter().enumerate() {
        let els = base(&mut r);
        read_case(c, &format!("more-columns-{more}"), "columns", &els, DumpOpt { more, permute: true, extra: k % 2 == 0, ..opt() }, &mut r);
    }
    for filler in [3000usize, 70_000, 300_000] {
        let els = base(&mut r);
        read_case(c, &format!("large-toc-{filler}"), "columns", &els, DumpOpt { filler, permute: true, extra: true, ..opt() }, &mut r);
    }
    let els = base(&mut r);
    read_case(c, "no-column-list", "unrelated-statement", &els, DumpOpt { odd_stmt: true, permute: true, ..opt() }, &mut r);
    read_case(c, "no-column-list-2", "unrelated-statement", &els, DumpOpt { odd_stmt: true, ..opt() }, &mut r);
    // a missing table or column is an error
    for (t, cols) in COLS {
        c.case(&format!("table-{t}"), "missing-table", || format!("a dump without table public.{t}"), || {
            let mut r = Rng::new(5);
            let dir = make_dump(c, &mut r, &els, &DumpOpt { drop_table: Some(t.to_string()), permute: true, ..opt() })?;
            match read_dump(c, &dir) {
                Err(e) if e.starts_with("ERR ") => Ok(()),
                Err(e) => Err(e),
                Ok(v) => Err(format!("opened and iterated, yielding {} elements", v.len())),
            }
        });
        for col in cols.iter() {
            if c.time_left() {
                c.case(&format!("column-{t}-{col}"), "missing-column", || format!("a dump whose public.{t} lacks column {col}"), || {
                    let mut r = Rng::new(5);
                    let dir = make_dump(c, &mut r, &els, &DumpOpt { drop_col: Some((t.to_string(), col.to_string())), permute: true, ..opt() })?;
                    match read_dump(c, &dir) {
                        Err(e) if e.starts_with("ERR ") => Ok(()),
                        Err(e) => Err(e),
                        Ok(v) => Err(format!("opened and iterated, yielding {} elements", v.len())),
                    }
                });
            }
        }
    }
    "random permutations of the columns of all ten tables, of the order of the tables in toc.dat and of the file numbers, with unrelated tables in between; additional columns of unknown names, large tables of contents; each table and each column left out in turn".into()
}
