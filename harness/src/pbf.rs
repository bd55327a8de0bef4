//! N01-N04, N06-N11: blocks, framing, header, sequential reading and writing.
use crate::ctx::{guard, Ctx, Rng};
use crate::model::{self, diff, El};
use crate::raw::{self, osmpbf, Enc, Opt};
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::pbf::compression_type::CompressionType;
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::writer::Writer;
use prost::Message;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub fn comp(z: bool) -> CompressionType {
    if z { CompressionType::Zlib } else { CompressionType::Uncompressed }
}

fn es<T: std::fmt::Display>(e: T) -> String {
    format!("{e:#}")
}

/// Write blocks with the crate's writer; returns the file and its independently parsed blobs.
pub fn write_blocks(path: &Path, blocks: &[Vec<El>], z: bool) -> Result<Vec<raw::RawBlob>, String> {
    let mut w = Writer::from_file_info(path.to_path_buf(), FileInfo::default(), comp(z)).map_err(es)?;
    w.write_header().map_err(es)?;
    for b in blocks {
        w.write_elements(b.iter().map(|e| e.element()).collect()).map_err(es)?;
    }
    w.close().map_err(es)?;
    raw::parse(&std::fs::read(path).map_err(es)?)
}

pub fn data_groups(b: &raw::RawBlob) -> Result<Vec<Vec<El>>, String> {
    if b.typ != "OSMData" {
        return Err(format!("expected OSMData, found {}", b.typ));
    }
    let pb = osmpbf::PrimitiveBlock::decode(&b.payload[..]).map_err(|e| format!("primitive block: {e}"))?;
    if pb.stringtable.s.first().map(|s| s.is_empty()) != Some(true) {
        return Err("string table entry 0 is not the empty string".into());
    }
    raw::groups(&pb)
}

pub fn data_elements(b: &raw::RawBlob) -> Result<Vec<El>, String> {
    Ok(data_groups(b)?.into_iter().flatten().collect())
}

/// Read a file with the crate's sequential iterator (a panic is turned into Err).
pub fn read_seq(path: &Path) -> Result<Vec<El>, String> {
    guard(|| -> Result<Vec<El>, String> {
        let r = Reader::new(path).map_err(es)?;
        let mut v = vec![];
        for e in r.elements().map_err(es)? {
            v.push(El::from(&e));
        }
        Ok(v)
    })
    .unwrap_or_else(|p| Err(format!("panicked: {p}")))
}

/// Read with parallel_for_each on one task; None in the list is a sentinel.
pub fn read_par(path: &Path, tasks: usize) -> Result<Vec<El>, String> {
    let acc: Arc<Mutex<Vec<El>>> = Arc::new(Mutex::new(vec![]));
    let a2 = acc.clone();
    let r = Reader::new(path).map_err(es)?;
    r.parallel_for_each(tasks, move |e| {
        a2.lock().unwrap().push(El::from(&e));
        Ok(())
    })
    .map_err(es)?;
    let v = acc.lock().unwrap().clone();
    Ok(v)
}

pub fn file_of(header: &osmpbf::HeaderBlock, blocks: &[osmpbf::PrimitiveBlock], enc: Enc) -> Vec<u8> {
    let mut out = vec![];
    raw::push_header(&mut out, header, enc);
    for b in blocks {
        raw::push_block(&mut out, b, enc);
    }
    out
}

fn roundtrip(c: &Ctx, id: &str, blocks: Vec<Vec<El>>, z: bool) {
    c.case(id, "roundtrip", || format!("zlib={z} blocks={blocks:?}"), || {
        let p = c.path("pbf");
        let blobs = write_blocks(&p, &blocks, z)?;
        if blobs.len() != blocks.len() + 1 {
            return Err(format!("{} blobs for {} blocks", blobs.len(), blocks.len()));
        }
        for (b, r) in blocks.iter().zip(&blobs[1..]) {
            let exp: Vec<El> = b.iter().map(|e| e.cut()).collect();
            diff(&exp, &data_elements(r)?).map_err(|e| format!("written block: {e}"))?;
        }
        let exp: Vec<El> = blocks.iter().flatten().map(|e| e.cut()).collect();
        diff(&exp, &read_seq(&p)?).map_err(|e| format!("read back: {e}"))?;
        let _ = std::fs::remove_file(&p);
        Ok(())
    });
}

fn kind_list(r: &mut Rng, kind: u8, n: usize) -> Vec<El> {
    let mut v = vec![];
    let mut id = model::big(r);
    for _ in 0..n {
        id = match r.below(5) { 0 => id, 1 => id.saturating_sub(r.range(0, 50)), 2 => model::big(r), _ => id + r.range(1, 1000) };
        let mut e = model::pbf_el(r, kind, id);
        if let Some(l) = v.last() {
            // share users and tags with the previous element now and then
            let l: &El = l;
            if r.chance(1, 3) {
                e.user = l.user.clone();
                e.uid = l.uid;
            } else if r.chance(1, 8) {
                e.uid = l.uid;
            } else if r.chance(1, 8) {
                e.user = l.user.clone();
            }
            if r.chance(1, 8) {
                e.cs = l.cs;
                e.ts = l.ts;
            }
            if r.chance(1, 12) {
                (e.lat7, e.lon7) = (l.lat7, l.lon7);
            }
            if r.chance(1, 4) {
                e.tags = l.tags.clone();
            }
        }
        v.push(e);
    }
    v
}

fn many_strings(kind: u8, n: usize) -> Vec<El> {
    (0..n)
        .map(|i| {
            let mut e = El::of(kind, i as i64 + 1, 1);
            e.user = format!("user{}", i % 300);
            e.uid = (i % 300) as i32;
            e.tags = vec![(format!("k{}", i % 7), format!("v{i}"))];
            if kind == 1 {
                e.refs = vec![i as i64, 5, -3];
            }
            if kind == 2 {
                e.members = vec![((i % 3) as u8, i as i64, format!("role{i}"))];
            }
            e
        })
        .collect()
}

fn n0102(c: &Ctx, kinds: &[u8]) {
    let mut r = Rng::new(c.seed);
    for &k in kinds {
        roundtrip(c, &format!("one-{k}"), vec![vec![El::of(k, 1, 1)]], true);
        roundtrip(c, &format!("strings-{k}"), vec![many_strings(k, 3000)], k == 0);
        // every special string in every text position
        let mut v = vec![];
        for (i, s) in model::STRINGS.iter().enumerate() {
            let mut e = El::of(k, i as i64 + 1, 1);
            e.user = s.to_string();
            e.tags = vec![(s.to_string(), model::STRINGS[(i + 5) % model::STRINGS.len()].to_string()), ("k".into(), s.to_string())];
            if k == 2 {
                e.members = vec![(0, 1, s.to_string()), (2, -1, "".into()), (1, 1, s.to_string())];
            }
            v.push(e);
        }
        roundtrip(c, &format!("special-{k}"), vec![v], true);
        roundtrip(c, &format!("wide-{k}"), vec![model::wide(&mut r, k, 5000, 70_000)], true);
        roundtrip(c, &format!("long-texts-{k}"), vec![model::long_texts(k, 70_000)], false);
        roundtrip(c, &format!("crowd-{k}"), vec![model::crowd(&mut r, k, 9000), model::crowd(&mut r, k, 300)], true);
        roundtrip(c, &format!("big-table-{k}"), vec![model::big_table(k)], false);
        roundtrip(c, &format!("extremes-{k}"), model::extremes(k), false);
        // exactly one element differs from all the others
        for n in [2usize, 3, 9, 40] {
            for at in [0, n / 2, n - 1] {
                let mut v: Vec<El> = (0..n).map(|i| { let mut e = El::of(k, i as i64 + 1, 1); e.user = "u".into(); e.uid = 3; e.cs = 4; e }).collect();
                roundtrip(c, &format!("odd-tag-{k}-{n}-{at}"), vec![{ let mut w = v.clone(); w[at].tags = vec![("a".into(), "b".into()), ("".into(), "".into())]; w }], true);
                roundtrip(c, &format!("odd-vis-{k}-{n}-{at}"), vec![{ let mut w = v.clone(); w[at].vis = false; w }], true);
                roundtrip(c, &format!("odd-user-{k}-{n}-{at}"), vec![{ let mut w = v.clone(); w[at].user = String::new(); w }], true);
                for (i, e) in v.iter_mut().enumerate() { if i != at { e.vis = false; e.tags = vec![("k".into(), "v".into())]; } }
                roundtrip(c, &format!("odd-rest-{k}-{n}-{at}"), vec![v], false);
            }
        }
    }
    let n = if c.thorough { 40000 } else { 4000 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let blocks: Vec<Vec<El>> = (0..1 + r.below(3)).map(|_| { let k = *r.pick(kinds); let m = if r.chance(1, 6) { 40 } else { 6 }; let n = 1 + r.below(m); kind_list(&mut r, k, n) }).collect();
        let z = r.bool();
        roundtrip(c, &format!("random-{i}"), blocks, z);
    }
}

pub fn n01(c: &Ctx) -> String {
    n0102(c, &[0]);
    // dense coordinate sweep: every residue of the 1e-7 grid near interesting points
    let mut v = vec![];
    for base in [0i64, 1, 899_999_990, -899_999_990, 123_456_780, -511_111_111] {
        for d in -9..=9 {
            let mut e = El::node(v.len() as i64 + 1);
            e.lat7 = (base + d).clamp(-900_000_000, 900_000_000);
            e.lon7 = (2 * base + d).clamp(-1_800_000_000, 1_800_000_000);
            v.push(e);
        }
    }
    roundtrip(c, "grid", vec![v], true);
    if c.thorough {
        let mut r = Rng::new(c.seed + 77);
        for i in 0..40 {
            if !c.time_left() { break; }
            let v: Vec<El> = (0..8000).map(|j| { let mut e = El::node(j + 1); e.lat7 = r.range(-900_000_000, 900_000_000); e.lon7 = r.range(-1_800_000_000, 1_800_000_000); e }).collect();
            roundtrip(c, &format!("coords-{i}"), vec![v], true);
        }
    }
    "node blocks written by pbf::writer::Writer, decoded by an independent PBF decoder and by Reader::elements, compared field by field; distinct = distinct block lists".into()
}

pub fn n02(c: &Ctx) -> String {
    n0102(c, &[1, 2]);
    "way and relation blocks written by pbf::writer::Writer, decoded by an independent PBF decoder and by Reader::elements; distinct = distinct block lists".into()
}

/// What the format defines for one element encoded with options `o` in a block with `b`'s parameters.
struct Want {
    kind: u8,
    id: i64,
    nlat: i128,
    nlon: i128,
    ver: Option<i32>,
    ts: Option<i64>,
    cs: Option<i64>,
    uid: Option<i32>,
    user: Option<String>,
    vis: bool,
    tags: Vec<(String, String)>,
    refs: Vec<i64>,
    members: Vec<(u8, i64, String)>,
    /// values of absent version, timestamp, changeset and uid
    absent: [i64; 4],
}

fn wants(runs: &[(Vec<El>, Opt)], b: &osmpbf::PrimitiveBlock) -> Vec<Want> {
    let mut out = vec![];
    let dg = b.date_granularity.unwrap_or(1000) as i64;
    for (els, o) in runs {
        let mut order: Vec<&El> = els.iter().filter(|e| e.kind == 0).collect();
        order.extend(els.iter().filter(|e| e.kind == 1));
        order.extend(els.iter().filter(|e| e.kind == 2));
        for e in order {
            let dense = e.kind == 0 && o.dense;
            let mask = if !o.info { 0 } else if dense { if o.dense_visible { 63 } else { 31 } } else { o.mask };
            let has = |bit: u32| mask & bit != 0;
            out.push(Want {
                kind: e.kind, id: e.id,
                nlat: raw::nano(b, e.lat7, true), nlon: raw::nano(b, e.lon7, false),
                ver: has(1).then_some(e.ver), ts: has(2).then_some(e.ts / o.dgran * dg), cs: has(4).then_some(e.cs), uid: has(8).then_some(e.uid),
                user: has(16).then(|| e.user.clone()), vis: if has(32) { e.vis } else { true },
                tags: e.tags.clone(), refs: e.refs.clone(), members: e.members.clone(),
                absent: match (o.info, dense) { (true, true) => [0; 4], (true, false) => [-1, 0, -1, -1], (false, true) => [0, 0, -1, -1], (false, false) => [0, -1, -1, -1] },
            });
        }
    }
    out
}

fn check_wants(ws: &[Want], path: &Path) -> Result<(), String> {
    use osm_io::osm::model::element::Element;
    let r = Reader::new(path).map_err(es)?;
    let got: Vec<Element> = r.elements().map_err(es)?.collect();
    if got.len() != ws.len() {
        return Err(format!("expected {} elements, got {}", ws.len(), got.len()));
    }
    for (i, (w, e)) in ws.iter().zip(&got).enumerate() {
        let g = El::from(e);
        let bad = |what: &str, a: String, b: String| -> Result<(), String> { if a == b { Ok(()) } else { Err(format!("element {i} (kind {} id {}): {what} expected {a} got {b}", w.kind, w.id)) } };
        bad("kind", w.kind.to_string(), g.kind.to_string())?;
        bad("id", w.id.to_string(), g.id.to_string())?;
        bad("visible", w.vis.to_string(), g.vis.to_string())?;
        bad("tags", format!("{:?}", w.tags), format!("{:?}", g.tags))?;
        bad("refs", format!("{:?}", w.refs), format!("{:?}", g.refs))?;
        bad("members", format!("{:?}", w.members), format!("{:?}", g.members))?;
        for (name, want, got) in [
            ("version", w.ver.map(|x| x.to_string()), g.ver.to_string()),
            ("timestamp", w.ts.map(|x| x.to_string()), g.ts.to_string()),
            ("changeset", w.cs.map(|x| x.to_string()), g.cs.to_string()),
            ("uid", w.uid.map(|x| x.to_string()), g.uid.to_string()),
            ("user", w.user.clone(), g.user.clone()),
        ] {
            match want {
                Some(x) => bad(name, x, got)?,
                None => {
                    if name == "user" {
                        bad("user (absent)", "".into(), got)?;
                    } else {
                        let k = ["version", "timestamp", "changeset", "uid"].iter().position(|x| *x == name).unwrap();
                        bad(&format!("{name} (absent)"), w.absent[k].to_string(), got)?;
                    }
                }
            }
        }
        if let Element::Node { node } = e {
            for (name, want, got) in [("lat", w.nlat, node.coordinate().lat()), ("lon", w.nlon, node.coordinate().lon())] {
                if (want as f64 / 1e9 - got).abs() > 4e-10 {
                    return Err(format!("element {i} id {}: {name} expected {want} nanodegrees got {got}", w.id));
                }
            }
        }
    }
    Ok(())
}

pub fn n03(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 20000 } else { 1000 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let mut blocks = vec![];
        let mut want_parts: Vec<(Vec<(Vec<El>, Opt)>, usize)> = vec![];
        for _ in 0..1 + r.below(3) {
            let mut o = Opt::default();
            let explicit = r.bool();
            if r.chance(2, 3) {
                o.gran = *r.pick(&[1, 10, 100, 1000, 100, 7, 123, 10_000_000]);
                o.dgran = *r.pick(&[1000, 1, 1000, 60_000, 7, 500]);
                if r.bool() {
                    o.lat_off = *r.pick(&[0, 1, -1, 50, 1_000_000_000, -45_000_000_123]);
                    o.lon_off = *r.pick(&[0, -1, 99, -90_000_000_000, 13_000_000_777]);
                }
            }
            let mut runs = vec![];
            for _ in 0..r.below(4) {
                let mut go = o.clone();
                go.dense = r.bool();
                go.info = r.chance(4, 5);
                go.mask = if r.bool() { 63 } else { r.below(64) as u32 };
                go.dense_visible = r.bool();
                go.drop_empty_kv = r.bool();
                let k = r.below(4) as u8;
                let els: Vec<El> = (0..r.below(5))
                    .map(|j| {
                        let kind = if k == 3 { r.below(3) as u8 } else { k };
                        let id = model::big(&mut r);
                        let mut e = model::pbf_el(&mut r, kind, id);
                        if kind == 0 {
                            let lim = 90_000_000_000 / o.gran;
                            e.lat7 = r.range(-lim, lim);
                            e.lon7 = r.range(-2 * lim, 2 * lim);
                        }
                        if j > 0 && r.chance(1, 3) {
                            e.tags.clear();
                        }
                        e
                    })
                    .collect();
                runs.push((els, go));
            }
            blocks.push(raw::block(&runs, &o, explicit));
            want_parts.push((runs, blocks.len() - 1));
        }
        let enc = if r.bool() { Enc::Raw } else { Enc::Zlib };
        c.case(&format!("random-{i}"), "decode", || format!("{:?}", want_parts), || {
            let p = c.path("pbf");
            std::fs::write(&p, file_of(&raw::default_header(), &blocks, enc)).map_err(es)?;
            let ws: Vec<Want> = want_parts.iter().flat_map(|(runs, bi)| wants(runs, &blocks[*bi])).collect();
            check_wants(&ws, &p)?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    // sizes: elements, tags, references, members, strings and groups far beyond the usual
    {
        let mut sized: Vec<(String, Vec<(Vec<El>, Opt)>)> = vec![];
        for k in 0..3u8 {
            for dense in if k == 0 { vec![true, false] } else { vec![true] } {
                let o = Opt { dense, ..Opt::default() };
                sized.push((format!("wide-{k}-{dense}"), vec![(model::wide(&mut r, k, 3000, if k == 2 { 70_000 } else { 20_000 }), o.clone())]));
                sized.push((format!("long-texts-{k}-{dense}"), vec![(model::long_texts(k, 70_000), o.clone())]));
                sized.push((format!("crowd-{k}-{dense}"), vec![(model::crowd(&mut r, k, 9000), o.clone())]));
                sized.push((format!("huge-crowd-{k}-{dense}"), vec![(model::crowd(&mut r, k, 40_000), o.clone())]));
                sized.push((format!("big-table-{k}-{dense}"), vec![(model::big_table(k), o.clone())]));
                sized.push((format!("many-groups-{k}-{dense}"), (0..600).map(|g| (model::crowd(&mut r, if g % 7 == 3 { (k + 1) % 3 } else { k }, g % 4), Opt { dense: dense ^ (g % 11 == 5), info: g % 5 != 2, dense_visible: g % 3 != 1, drop_empty_kv: true, mask: if g % 2 == 0 { 63 } else { (g % 64) as u32 }, ..Opt::default() })).collect()));
            }
        }
        for (id, runs) in sized {
            c.case(&id, "decode", || format!("{id}: {} groups, {} elements", runs.len(), runs.iter().map(|x| x.0.len()).sum::<usize>()), || {
                let p = c.path("pbf");
                let b = raw::block(&runs, &Opt::default(), false);
                std::fs::write(&p, file_of(&raw::default_header(), &[b.clone(), b.clone()], Enc::Zlib)).map_err(es)?;
                let mut ws = wants(&runs, &b);
                ws.extend(wants(&runs, &b));
                check_wants(&ws, &p)?;
                let _ = std::fs::remove_file(&p);
                Ok(())
            });
        }
    }
    // dense info with only some of its arrays (what writers with reduced metadata produce)
    for mask in 0..32u32 {
        c.case(&format!("dense-partial-{mask}"), "dense-partial", || format!("DenseInfo with fields {mask:05b} of version,timestamp,changeset,uid,user_sid"), || {
            let mut els = vec![];
            for j in 0..3 {
                let mut e = El::node(10 + j);
                e.ver = 3 + j as i32;
                e.ts = 5000 * (j + 1);
                e.cs = 70 + j;
                e.uid = 8 + j as i32;
                e.user = format!("u{j}");
                e.vis = j != 1;
                els.push(e);
            }
            let mut b = raw::simple(&els);
            let di = b.primitivegroup[0].dense.as_mut().unwrap().denseinfo.as_mut().unwrap();
            if mask & 1 == 0 { di.version.clear(); }
            if mask & 2 == 0 { di.timestamp.clear(); }
            if mask & 4 == 0 { di.changeset.clear(); }
            if mask & 8 == 0 { di.uid.clear(); }
            if mask & 16 == 0 { di.user_sid.clear(); }
            let mut ws = wants(&[(els.clone(), Opt::default())], &b);
            for w in ws.iter_mut() {
                if mask & 1 == 0 { w.ver = None; }
                if mask & 2 == 0 { w.ts = None; }
                if mask & 4 == 0 { w.cs = None; }
                if mask & 8 == 0 { w.uid = None; }
                if mask & 16 == 0 { w.user = None; }
            }
            let p = c.path("pbf");
            std::fs::write(&p, file_of(&raw::default_header(), &[b], Enc::Zlib)).map_err(es)?;
            check_wants(&ws, &p)
        });
    }
    // a visible list that ends early: the flag of the later nodes is missing
    for n in 0..5usize {
        c.case(&format!("visible-short-{n}"), "dense-partial", || format!("5 dense nodes, {n} visible flags"), || {
            let els: Vec<El> = (0..5).map(|j| { let mut e = El::node(10 + j); e.vis = j % 2 == 0 && n % 2 == 0; e.user = "u".into(); e }).collect();
            let mut b = raw::simple(&els);
            b.primitivegroup[0].dense.as_mut().unwrap().denseinfo.as_mut().unwrap().visible.truncate(n);
            b.primitivegroup[0].dense.as_mut().unwrap().denseinfo.as_mut().unwrap().version.truncate(n);
            let mut ws = wants(&[(els.clone(), Opt::default())], &b);
            ws.iter_mut().skip(n).for_each(|w| (w.vis, w.ver) = (true, None));
            let p = c.path("pbf");
            std::fs::write(&p, file_of(&raw::default_header(), &[b], Enc::Raw)).map_err(es)?;
            check_wants(&ws, &p)
        });
    }
    "PBF files built by an independent encoder (granularities, offsets, date granularities, several groups, dense and plain nodes, every subset of optional fields) read with Reader::elements; distinct = distinct block descriptions".into()
}

pub fn n04(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 20000 } else { 800 };
    let run = |id: String, els: Vec<El>, z: bool| {
        c.case(&id, "mixed", || format!("zlib={z} {els:?}"), || {
            let p = c.path("pbf");
            let blobs = write_blocks(&p, &[els.clone()], z)?;
            if blobs.len() != 2 {
                return Err(format!("{} blobs", blobs.len()));
            }
            let got = data_elements(&blobs[1])?;
            let back = read_seq(&p)?;
            for k in 0..3u8 {
                let exp: Vec<El> = els.iter().filter(|e| e.kind == k).map(|e| e.cut()).collect();
                let g: Vec<El> = got.iter().filter(|e| e.kind == k).cloned().collect();
                diff(&exp, &g).map_err(|e| format!("block, kind {k}: {e}"))?;
                let g: Vec<El> = back.iter().filter(|e| e.kind == k).cloned().collect();
                diff(&exp, &g).map_err(|e| format!("read back, kind {k}: {e}"))?;
            }
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    };
    for bits in 0..64u32 {
        // every pattern of up to three elements of any kind
        let ks: Vec<u8> = [(bits & 3) as u8, (bits >> 2 & 3) as u8, (bits >> 4 & 3) as u8].to_vec();
        let els: Vec<El> = ks.iter().enumerate().filter(|(_, k)| **k < 3).map(|(i, k)| model::pbf_el(&mut r, *k, i as i64 + 1)).collect();
        if !els.is_empty() {
            run(format!("pattern-{bits}"), els, bits % 2 == 0);
        }
    }
    for i in 0..24u64 {
        let mut els: Vec<El> = (0..6).map(|j| model::pbf_el(&mut r, if i % 2 == 0 { (j % 3) as u8 } else { j as u8 / 2 }, j + 1)).collect();
        for _ in 0..1 + i % 3 {
            els.insert(r.below(els.len() + 1), El::sentinel());
        }
        run(format!("sentinels-{i}"), els, i % 4 < 2);
    }
    let mut all = many_strings(0, 700);
    all.extend(many_strings(1, 700));
    all.extend(many_strings(2, 700));
    r.shuffle(&mut all);
    run("strings".into(), all, true);
    for k in 0..4u8 {
        let mk = |r: &mut Rng, f: &mut dyn FnMut(&mut Rng, u8) -> Vec<El>| -> Vec<El> {
            let mut v: Vec<El> = (0..3).filter(|x| k == 3 || k == *x).flat_map(|x| f(r, x)).collect();
            if k == 3 { r.shuffle(&mut v); }
            v
        };
        let v = mk(&mut r, &mut |r, x| model::wide(r, x, 2000, 9000));
        run(format!("wide-{k}"), v, true);
        let v = mk(&mut r, &mut |_, x| model::long_texts(x, 70_000));
        run(format!("long-texts-{k}"), v, true);
        let v = mk(&mut r, &mut |r, x| model::crowd(r, x, 8500));
        run(format!("crowd-{k}"), v, false);
        let v = mk(&mut r, &mut |_, x| model::big_table(x));
        run(format!("big-table-{k}"), v, true);
    }
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let single = r.below(4) as u8;
        let m = 1 + r.below(8);
        let els: Vec<El> = (0..m).map(|_| { let k = if single < 3 { single } else { r.below(3) as u8 }; let id = model::big(&mut r); model::pbf_el(&mut r, k, id) }).collect();
        let z = r.bool();
        run(format!("random-{i}"), els, z);
    }
    "element lists (single-kind and mixed) handed to Writer::write_elements; the data block is decoded independently, every string index is resolved, and each kind must appear complete and in order; distinct = distinct lists".into()
}

fn stream(counts: [usize; 3], sentinels: bool) -> Vec<El> {
    let mut v = vec![];
    for k in 0..3u8 {
        for i in 0..counts[k as usize] {
            if sentinels && i % 1000 == 3 {
                v.push(El::sentinel());
            }
            // sorted by type; the writer does not ask for more
            let id = if counts[0] % 2 == 0 { i as i64 + 1 } else { (i as i64 * 7919) % 10_007 - 5000 };
            v.push(El::mix(k, id, 1 + (i % 3) as i32));
        }
        if sentinels {
            v.push(El::sentinel());
        }
    }
    v
}

pub fn n06(c: &Ctx) -> String {
    let sizes: &[usize] = if c.thorough { &[0, 1, 2, 7999, 8000, 8001, 15999, 16000, 16001, 24000] } else { &[0, 1, 7999, 8000, 8001, 16001] };
    let mut combos: Vec<[usize; 3]> = vec![];
    for &s in sizes {
        combos.push([s, 0, 0]);
        combos.push([0, s, 0]);
        combos.push([0, 0, s]);
        combos.push([s, 1, 0]);
        combos.push([1, s, 1]);
        combos.push([0, 2, s]);
        combos.push([s, 0, 2]);
        combos.push([s.min(8000), 0, s]);
        combos.push([s, s.min(8001), 1]);
    }
    for m in 0..27usize {
        combos.push([m % 3, m / 3 % 3, m / 9]);
    }
    combos.sort_by_key(|a| a.iter().sum::<usize>());
    combos.dedup();
    for cnt in combos {
        if !c.time_left() || c.too_many() {
            break;
        }
        for s in [false, true] {
            c.case(&format!("stream-{}-{}-{}-{}", cnt[0], cnt[1], cnt[2], s), "split", || format!("{} nodes, {} ways, {} relations, sentinels={s}", cnt[0], cnt[1], cnt[2]), || {
                let p = if s { c.same_path("pbf", 3_000_000) } else { c.path("pbf") };
                let els = stream(cnt, s);
                let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), comp(false)).map_err(es)?;
                w.write_header().map_err(es)?;
                for e in &els {
                    w.write_element(e.element()).map_err(es)?;
                }
                w.close().map_err(es)?;
                w.close().map_err(es)?;
                let blobs = raw::parse(&std::fs::read(&p).map_err(es)?)?;
                let exp: Vec<El> = els.into_iter().filter(|e| e.kind != 3).collect();
                check_blocks(&blobs, &exp, 8000, true)?;
                diff(&exp, &read_seq(&p)?).map_err(|e| format!("read back: {e}"))?;
                let _ = std::fs::remove_file(&p);
                Ok(())
            });
        }
    }
    // refusal of elements of an earlier kind
    for (name, first, late) in [("way-node", 1u8, 0u8), ("rel-node", 2, 0), ("rel-way", 2, 1)] {
        for cnt in [1usize, 7999, 8000, 8001] {
            for with_lower in [false, true] {
                c.case(&format!("late-{name}-{cnt}-{with_lower}"), "late", || format!("{cnt} elements of kind {first}, then one of kind {late} (earlier kinds present: {with_lower})"), || {
                    let p = c.path("pbf");
                    let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), comp(false)).map_err(es)?;
                    w.write_header().map_err(es)?;
                    if with_lower {
                        for k in 0..first {
                            w.write_element(El::mix(k, 1, 1).element()).map_err(es)?;
                        }
                    }
                    for i in 0..cnt {
                        w.write_element(El::mix(first, i as i64 + 1, 1).element()).map_err(es)?;
                    }
                    let refused = !matches!(guard(|| w.write_element(El::mix(late, 999_999, 1).element())), Ok(Ok(())));
                    let _ = guard(|| w.close());
                    let blobs = raw::parse(&std::fs::read(&p).map_err(es)?)?;
                    let before = cnt + if with_lower { first as usize } else { 0 };
                    let mut kinds = vec![];
                    for b in &blobs[1..] {
                        for e in data_elements(b)? {
                            kinds.push(e.kind);
                            if e.id == 999_999 {
                                return Err("the late element was written".into());
                            }
                        }
                    }
                    if kinds.windows(2).any(|w| w[0] > w[1]) {
                        return Err("the file is out of order".into());
                    }
                    if !refused {
                        return Err("the late element was accepted and silently dropped".into());
                    }
                    if kinds.len() != before {
                        return Err(format!("{} of the {before} elements written before the refused one are in the file", kinds.len()));
                    }
                    Ok(())
                });
            }
        }
    }
    "streams per kind count around the block size, with and without sentinels, through Writer::write_element/close; blocks parsed independently; distinct = distinct streams".into()
}

/// header, then non-empty single-kind blocks of at most `max` elements concatenating to `exp`
pub fn check_blocks(blobs: &[raw::RawBlob], exp: &[El], max: usize, full: bool) -> Result<(), String> {
    if blobs.first().map(|b| b.typ.as_str()) != Some("OSMHeader") {
        return Err("first blob is not the header".into());
    }
    let mut got = vec![];
    for (i, b) in blobs[1..].iter().enumerate() {
        let els = data_elements(b)?;
        if els.is_empty() {
            return Err(format!("block {i} is empty"));
        }
        if els.len() > max {
            return Err(format!("block {i} has {} elements", els.len()));
        }
        if els.iter().any(|e| e.kind != els[0].kind) {
            return Err(format!("block {i} mixes kinds"));
        }
        got.extend(els);
    }
    if full {
        diff(exp, &got)?;
    } else {
        let a: Vec<_> = exp.iter().map(|e| e.key()).collect();
        let b: Vec<_> = got.iter().map(|e| e.key()).collect();
        if a != b {
            return Err(format!("expected {} elements {:?}.., got {} {:?}..", a.len(), &a[..a.len().min(12)], b.len(), &b[..b.len().min(12)]));
        }
    }
    Ok(())
}

pub fn n07(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 5000 } else { 150 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        // writing: arbitrary header and body bytes
        let blobs: Vec<(Vec<u8>, Vec<u8>)> = (0..r.below(6))
            .map(|_| {
                let hl = *r.pick(&[0usize, 1, 2, 13, 127, 128, 255, 256, 300, 65535, 65536]);
                let bl = *r.pick(&[0usize, 1, 5, 127, 128, 4096, 70000]);
                let x = r.next() as u8;
                ((0..hl).map(|j| x.wrapping_add(j as u8)).collect(), (0..bl).map(|j| x.wrapping_mul(3).wrapping_sub(j as u8)).collect())
            })
            .collect();
        c.case(&format!("write-{i}"), "write", || format!("blob sizes {:?}", blobs.iter().map(|b| (b.0.len(), b.1.len())).collect::<Vec<_>>()), || {
            let p = if i % 3 == 0 { c.same_path("pbf", 600_000) } else { c.path("pbf") };
            let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), comp(true)).map_err(es)?;
            let mut exp = vec![];
            for (h, b) in &blobs {
                w.write_blob(h.clone(), b.clone()).map_err(es)?;
                exp.extend_from_slice(&(h.len() as u32).to_be_bytes());
                exp.extend_from_slice(h);
                exp.extend_from_slice(b);
            }
            w.close().map_err(es)?;
            let got = std::fs::read(&p).map_err(es)?;
            let _ = std::fs::remove_file(&p);
            if got != exp {
                let at = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
                return Err(format!("file differs from the laid down bytes at offset {at} ({} vs {} bytes)", got.len(), exp.len()));
            }
            Ok(())
        });
        // reading: files with index data of any size in the headers, any body sizes
        let m = 1 + r.below(7);
        let mut blocks = vec![];
        let mut kinds = vec![];
        for j in 0..m {
            let els: Vec<El> = (0..r.below(4)).map(|k| { let mut e = El::node((i * 1000 + j * 10 + k) as i64); e.user = "x".repeat(*r.pick(&[0usize, 1, 100, 5000])); e }).collect();
            let ix = match r.below(5) { 0 => None, 1 => Some(vec![]), 2 => Some(vec![7; 100]), 3 => Some(vec![9; 300]), _ => Some(vec![1; 40000]) };
            kinds.push((els.len(), ix.as_ref().map(|x: &Vec<u8>| x.len())));
            blocks.push((els, ix));
        }
        c.case(&format!("read-{i}"), "read", || format!("blocks (elements, index data) {kinds:?}"), || {
            let mut out = vec![];
            let mut idx = r_index(&mut Rng::new(i as u64));
            let mut q = Rng::new(7 * i as u64 + 1);
            raw::frame_odd(&mut out, "OSMHeader", &raw::odd(raw::blob(&raw::odd(raw::default_header().encode_to_vec(), q.below(8)), Enc::Zlib).encode_to_vec(), q.below(8)), idx.take(), q.below(14));
            for (j, (els, ix)) in blocks.iter().enumerate() {
                raw::frame_odd(&mut out, "OSMData", &raw::odd(raw::blob(&raw::odd(raw::simple(els).encode_to_vec(), q.below(8)), if j % 2 == 0 { Enc::Raw } else { Enc::Zlib }).encode_to_vec(), q.below(8)), ix.clone(), q.below(14));
            }
            let p = c.path("pbf");
            std::fs::write(&p, &out).map_err(es)?;
            let r = Reader::new(&p).map_err(es)?;
            let mut n = 0;
            for (k, b) in r.blocks().map_err(es)?.enumerate() {
                use osm_io::osm::pbf::file_block::FileBlock;
                let d = format!("{b:?}");
                match b {
                    FileBlock::Header { .. } => {
                        if k != 0 {
                            return Err(format!("block {k} delivered as a header"));
                        }
                        if !d.contains("index: 0") {
                            return Err("the header's index is not 0".into());
                        }
                    }
                    FileBlock::Data { data, .. } => {
                        if k == 0 || k > blocks.len() {
                            return Err(format!("block {k} delivered as data"));
                        }
                        let got: Vec<El> = data.elements().iter().map(El::from).collect();
                        diff(&blocks[k - 1].0, &got).map_err(|e| format!("block {k}: {e}"))?;
                        if !d.contains(&format!("index: {k}")) {
                            return Err(format!("block {k} carries another index"));
                        }
                    }
                }
                n += 1;
            }
            if n != blocks.len() + 1 {
                return Err(format!("{n} blocks delivered, {} laid down", blocks.len() + 1));
            }
            let all: Vec<El> = blocks.iter().flat_map(|b| b.0.clone()).collect();
            diff(&all, &read_seq(&p)?)?;
            let mut got: Vec<El> = read_par(&p, 3)?.into_iter().filter(|e| e.kind != 3).collect();
            got.sort_by_key(|e| e.id);
            let mut all = all;
            all.sort_by_key(|e| e.id);
            diff(&all, &got).map_err(|e| format!("parallel: {e}"))?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    // many blobs
    c.case("write-many", "write", || "6000 blobs of 0 to 40 bytes".into(), || {
        let p = c.path("pbf");
        let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), comp(false)).map_err(es)?;
        let mut exp = vec![];
        for i in 0..6000usize {
            let (h, b) = (vec![i as u8; i % 41], vec![(i >> 8) as u8; (i * 7) % 37]);
            exp.extend_from_slice(&(h.len() as u32).to_be_bytes());
            exp.extend_from_slice(&h);
            exp.extend_from_slice(&b);
            w.write_blob(h, b).map_err(es)?;
        }
        w.close().map_err(es)?;
        let got = std::fs::read(&p).map_err(es)?;
        let _ = std::fs::remove_file(&p);
        if got != exp { Err(format!("file differs from the laid down bytes ({} vs {} bytes)", got.len(), exp.len())) } else { Ok(()) }
    });
    c.case("read-many", "read", || "5000 data blobs with index data of 0 to 600 bytes".into(), || {
        let mut out = vec![];
        raw::push_header(&mut out, &raw::default_header(), Enc::Zlib);
        for i in 0..5000usize {
            raw::frame_odd(&mut out, "OSMData", &raw::blob(&raw::simple(&[El::node(i as i64 + 1)]).encode_to_vec(), Enc::Raw).encode_to_vec(), (i % 3 != 0).then(|| vec![8; i % 601]), i % 7);
        }
        let p = c.path("pbf");
        std::fs::write(&p, &out).map_err(es)?;
        let exp: Vec<El> = (1..=5000).map(El::node).collect();
        diff(&exp, &read_seq(&p)?)?;
        let mut got: Vec<El> = read_par(&p, 4)?.into_iter().filter(|e| e.kind != 3).collect();
        got.sort_by_key(|e| e.id);
        diff(&exp, &got).map_err(|e| format!("parallel: {e}"))?;
        for (k, b) in Reader::new(&p).map_err(es)?.blocks().map_err(es)?.enumerate() {
            let d = format!("{b:?}");
            if !d.contains(&format!("index: {k}")) {
                return Err(format!("block {k} carries another index"));
            }
        }
        let _ = std::fs::remove_file(&p);
        Ok(())
    });
    // a blob without a body: refused as data, and the blobs after it are where they are
    c.case("read-bodyless", "read", || "a data blob, one with datasize 0, two more data blobs".into(), || {
        let mut out = vec![];
        raw::push_header(&mut out, &raw::default_header(), Enc::Zlib);
        let body = |i: i64| raw::blob(&raw::simple(&[El::node(i)]).encode_to_vec(), Enc::Raw).encode_to_vec();
        raw::frame(&mut out, "OSMData", &body(1), None);
        raw::frame(&mut out, "OSMData", &[], Some(vec![3; 9]));
        raw::frame(&mut out, "OSMData", &body(3), None);
        raw::frame(&mut out, "OSMData", &body(4), Some(vec![]));
        let p = c.path("pbf");
        std::fs::write(&p, &out).map_err(es)?;
        let mut it = Reader::new(&p).map_err(es)?.blocks().map_err(es)?;
        for k in 0..6usize {
            let b = guard(|| it.next());
            match (k, b) {
                (2, Err(_)) | (5, Ok(None)) => {}
                (2, Ok(x)) => return Err(format!("a blob without data delivered as {x:?}")),
                (0, Ok(Some(_))) => {}
                (1 | 3 | 4, Ok(Some(osm_io::osm::pbf::file_block::FileBlock::Data { data, metadata }))) => {
                    diff(&[El::node(k as i64)], &data.elements().iter().map(El::from).collect::<Vec<_>>())?;
                    if !format!("{metadata:?}").contains(&format!("index: {k}")) {
                        return Err(format!("block {k} carries another index: {metadata:?}"));
                    }
                }
                (_, x) => return Err(format!("blob {k}: {x:?}")),
            }
        }
        let _ = std::fs::remove_file(&p);
        Ok(())
    });
    // a file of more than 4 GiB: bodies of 31 MiB that consist of an unknown (sparse) field
    c.case("read-huge", "read", || "145 data blobs of 31 MiB each (a sparse file of 4.4 GiB)".into(), || {
        use std::io::{Seek, SeekFrom, Write};
        let p = c.path("pbf");
        let fill: usize = 31 << 20;
        let build = || -> std::io::Result<()> {
        let mut f = std::fs::File::create(&p)?;
        let mut head = vec![];
        raw::push_header(&mut head, &raw::default_header(), Enc::Zlib);
        f.write_all(&head)?;
        for i in 0..145i64 {
            let mut body = raw::blob(&raw::simple(&[El::node(i + 1)]).encode_to_vec(), Enc::Raw).encode_to_vec();
            body.extend([0xfa, 0x3e]);
            let mut n = fill;
            while n >= 0x80 {
                body.push(n as u8 | 0x80);
                n >>= 7;
            }
            body.push(n as u8);
            let h = osmpbf::BlobHeader { r#type: "OSMData".into(), indexdata: None, datasize: (body.len() + fill) as i32 }.encode_to_vec();
            f.write_all(&(h.len() as u32).to_be_bytes())?;
            f.write_all(&h)?;
            f.write_all(&body)?;
            let at = f.seek(SeekFrom::Current(fill as i64))?;
            f.set_len(at)?;
        }
        Ok(())
        };
        // where such a file cannot be made, nothing is checked
        if build().is_err() {
            let _ = std::fs::remove_file(&p);
            return Ok(());
        }
        let exp: Vec<El> = (1..=145).map(El::node).collect();
        diff(&exp, &read_seq(&p)?)?;
        let mut got: Vec<El> = read_par(&p, 2)?.into_iter().filter(|e| e.kind != 3).collect();
        got.sort_by_key(|e| e.id);
        diff(&exp, &got).map_err(|e| format!("parallel: {e}"))?;
        let _ = std::fs::remove_file(&p);
        Ok(())
    });
    "Writer::write_blob with arbitrary header and body bytes compared byte for byte; independently framed files with index data of many sizes iterated with Reader::blocks, elements and parallel_for_each; distinct = distinct layouts".into()
}

fn r_index(r: &mut Rng) -> Option<Vec<u8>> {
    match r.below(4) { 0 => None, 1 => Some(vec![3; 70]), 2 => Some(vec![0; 250]), _ => Some(vec![]) }
}

/// A file whose second data blob has the given frame type and body; the first data blob is sound.
fn bad_file(first: &[El], typ: &str, body: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    raw::push_header(&mut out, &raw::default_header(), Enc::Zlib);
    raw::push_block(&mut out, &raw::simple(first), Enc::Zlib);
    raw::frame(&mut out, typ, body, None);
    out
}

fn expect_refused(c: &Ctx, bytes: &[u8], good: &[El], allow: Option<&[El]>) -> Result<(), String> {
    let p = c.path("pbf");
    std::fs::write(&p, bytes).map_err(es)?;
    let seq = read_seq(&p);
    if let Ok(v) = &seq {
        match allow {
            Some(a) => {
                let mut exp = good.to_vec();
                exp.extend_from_slice(a);
                if *v != exp && v != good {
                    return Err(format!("sequential reading delivered other data: {v:?}"));
                }
                if v == good && !a.is_empty() {
                    return Err("sequential reading silently dropped the blob".into());
                }
            }
            None => return Err(format!("sequential reading ended without an error and delivered {} elements", v.len())),
        }
    }
    let par = read_par(&p, 2);
    if allow.is_none() {
        // panics are turned into a violation by Ctx::case
        if let Ok(b) = osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator::new(&p).calc() {
            return Err(format!("the bounding box calculator reported success with {b}"));
        }
    }
    let _ = std::fs::remove_file(&p);
    if let Ok(v) = par {
        let n = v.iter().filter(|e| e.kind != 3).count();
        match allow {
            Some(a) => {
                if n != good.len() + a.len() {
                    return Err(format!("parallel reading reported success with {n} elements"));
                }
            }
            None => return Err(format!("parallel reading reported success with {n} elements")),
        }
    }
    Ok(())
}

pub fn n08(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    // sound blocks, both compressions
    let n = if c.thorough { 4000 } else { 60 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let kk = r.below(3) as u8;
        let els: Vec<El> = if i < 12 {
            // incompressible and compressible payloads of growing size
            let n = [1usize << 10, 40_000, 65_000, 66_000, 300_000, 2_000_000][i / 2];
            let mut e = El::mix(kk, 1, 1);
            let mut q = Rng::new(i as u64);
            e.user = if r.bool() { "y".repeat(n) } else { (0..n).map(|_| (33 + q.below(90)) as u8 as char).collect() };
            vec![e]
        } else { vec![] };
        let els: Vec<El> = if !els.is_empty() { els } else { (0..1 + r.below(40)).map(|j| { let mut e = model::pbf_el(&mut r, kk, j as i64); if j % 5 == 0 { e.user = "abc".repeat(500) } e }).collect() };
        let z = i % 2 == 0;
        let mut fi = FileInfo::default();
        if r.bool() {
            let n = if i % 3 == 1 { *r.pick(&[5000usize, 17_000, 70_000, 900_000]) } else { r.below(400) };
            fi.with_writingprogram_str(&(0..n).map(|k| (b'a' + (k * k % 23) as u8) as char).collect::<String>());
        }
        c.case(&format!("sound-{i}"), "sound", || format!("zlib={z} {els:?}"), || {
            let p = c.path("pbf");
            let mut w = Writer::from_file_info(p.clone(), fi.clone(), comp(z)).map_err(es)?;
            w.write_header().map_err(es)?;
            w.write_elements(els.iter().map(|e| e.element()).collect()).map_err(es)?;
            w.close().map_err(es)?;
            let blobs = raw::parse(&std::fs::read(&p).map_err(es)?)?;
            if blobs.len() != 2 || blobs[0].typ != "OSMHeader" || blobs[1].typ != "OSMData" {
                return Err("wrong blob types".into());
            }
            for b in &blobs {
                if b.datasize as usize != b.body.len() {
                    return Err("datasize".into());
                }
                if b.raw_size != Some(b.payload.len() as i32) {
                    return Err(format!("raw_size {:?} but {} bytes uncompressed", b.raw_size, b.payload.len()));
                }
                if b.zlib != z {
                    return Err(format!("compression requested zlib={z}, written zlib={}", b.zlib));
                }
            }
            osmpbf::HeaderBlock::decode(&blobs[0].payload[..]).map_err(es)?;
            let exp: Vec<El> = els.iter().map(|e| e.cut()).collect();
            diff(&exp, &read_seq(&p)?)?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    // payloads close to the 32 MiB the format allows
    for (n, z) in [(17usize << 20, false), (17 << 20, true), (30 << 20, true), (30 << 20, false)] {
        c.case(&format!("large-{n}-{z}"), "sound", || format!("zlib={z}, one node whose user name has {n} bytes"), || {
            let mut e = El::node(1);
            e.user = "yz".repeat(n / 2);
            let p = c.path("pbf");
            let blobs = write_blocks(&p, &[vec![e.clone()]], z)?;
            for b in &blobs {
                if b.raw_size != Some(b.payload.len() as i32) || b.zlib != z || b.datasize as usize != b.body.len() {
                    return Err(format!("raw_size {:?} datasize {} zlib {} for a payload of {} bytes in a body of {}", b.raw_size, b.datasize, b.zlib, b.payload.len(), b.body.len()));
                }
            }
            let got = read_seq(&p)?;
            let _ = std::fs::remove_file(&p);
            if got.len() == 1 && got[0] == e { Ok(()) } else { Err(format!("{} elements were read, not the one written", got.len())) }
        });
    }
    // payloads of every length around powers of two
    for t in [1usize << 8, 1 << 12, 1 << 13, 1 << 15, 1 << 16] {
        for z in [false, true] {
            c.case(&format!("sizes-{t}-{z}"), "sound", || format!("zlib={z}, blocks of one node whose user name has {} to {t} characters", t - 120.min(t)), || {
                let blocks: Vec<Vec<El>> = (t - 120..=t).map(|n| { let mut e = El::node(n as i64); let mut q = Rng::new(n as u64); e.user = (0..n).map(|_| (33 + q.below(90)) as u8 as char).collect(); vec![e] }).collect();
                let p = c.path("pbf");
                let blobs = write_blocks(&p, &blocks, z)?;
                for b in &blobs {
                    if b.raw_size != Some(b.payload.len() as i32) || b.zlib != z || b.datasize as usize != b.body.len() {
                        return Err(format!("raw_size {:?} datasize {} zlib {} for a payload of {} bytes in a body of {}", b.raw_size, b.datasize, b.zlib, b.payload.len(), b.body.len()));
                    }
                }
                let exp: Vec<El> = blocks.into_iter().flatten().collect();
                diff(&exp, &read_seq(&p)?)?;
                let got = read_par(&p, 3)?.iter().filter(|e| e.kind != 3).count();
                let _ = std::fs::remove_file(&p);
                if got != exp.len() { Err(format!("parallel reading delivered {got} elements")) } else { Ok(()) }
            });
        }
    }
    // a file copied block by block
    for i in 0..if c.thorough { 600 } else { 60 } {
        if !c.time_left() || c.too_many() {
            break;
        }
        let blocks: Vec<Vec<El>> = (0..r.below(6)).map(|_| { let k = r.below(3) as u8; let n = r.below(20); kind_list(&mut r, k, n).iter().map(|e| e.cut()).collect() }).collect();
        let (z1, z2) = (i % 2 == 0, i % 4 < 2);
        c.case(&format!("copy-{i}"), "sound", || format!("from zlib={z1} to zlib={z2}: {blocks:?}"), || {
            let (p, q) = (c.path("pbf"), c.path("pbf"));
            let mut w = Writer::from_file_info(p.clone(), FileInfo::default(), comp(z1)).map_err(es)?;
            w.write_header().map_err(es)?;
            for b in &blocks {
                w.write_elements(b.iter().map(|e| e.element()).collect()).map_err(es)?;
            }
            w.close().map_err(es)?;
            let mut w = Writer::from_file_info(q.clone(), FileInfo::default(), comp(z2)).map_err(es)?;
            let mut n = 0;
            for b in Reader::new(&p).map_err(es)?.blocks().map_err(es)? {
                w.write_file_block(b).map_err(es)?;
                n += 1;
            }
            w.close().map_err(es)?;
            let blobs = raw::parse(&std::fs::read(&q).map_err(es)?)?;
            if blobs.len() != n || blobs.first().map(|b| b.typ.as_str()) != Some("OSMHeader") {
                return Err(format!("{n} blocks were written, the file holds {} blobs", blobs.len()));
            }
            for b in &blobs {
                if b.raw_size != Some(b.payload.len() as i32) || b.zlib != z2 || b.datasize as usize != b.body.len() {
                    return Err(format!("raw_size {:?} datasize {} zlib {} for a payload of {} bytes in a body of {}", b.raw_size, b.datasize, b.zlib, b.payload.len(), b.body.len()));
                }
            }
            let exp: Vec<El> = blocks.iter().flatten().cloned().collect();
            let mut got = vec![];
            for b in &blobs[1..] {
                got.extend(data_elements(b)?);
            }
            diff(&exp, &got)?;
            diff(&exp, &read_seq(&q)?)?;
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_file(&q);
            Ok(())
        });
    }
    for z in [false, true] {
        c.case(&format!("empty-header-{z}"), "empty-header", || format!("zlib={z}, file information with no features and no fields"), || {
            let p = c.path("pbf");
            let mut fi = FileInfo::default();
            fi.with_required_features(&[]);
            fi.with_optional_features(&[]);
            let mut w = Writer::from_file_info(p.clone(), fi, comp(z)).map_err(es)?;
            w.write_header().map_err(es)?;
            w.write_elements(vec![El::node(1).element()]).map_err(es)?;
            w.close().map_err(es)?;
            diff(&[El::node(1)], &read_seq(&p)?)
        });
    }
    // bad blobs
    let good: Vec<El> = (1..4).map(El::node).collect();
    let victim: Vec<El> = (10..40).map(|i| { let mut e = El::node(i); e.user = format!("u{i}"); e }).collect();
    let payload = raw::simple(&victim).encode_to_vec();
    let enc_blob = |data: Option<osmpbf::blob::Data>, rs: Option<i32>| osmpbf::Blob { raw_size: rs, data }.encode_to_vec();
    use osmpbf::blob::Data;
    let zl = raw::zlib(&payload);
    let mut cases: Vec<(String, Vec<u8>, bool)> = vec![
        ("no-data".into(), bad_file(&good, "OSMData", &enc_blob(None, Some(payload.len() as i32))), false),
        ("no-data-0".into(), bad_file(&good, "OSMData", &enc_blob(None, None)), false),
        ("lzma".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::LzmaData(payload.clone())), Some(payload.len() as i32))), false),
        ("bzip2".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ObsoleteBzip2Data(payload.clone())), Some(payload.len() as i32))), false),
        ("lz4".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::Lz4Data(payload.clone())), Some(payload.len() as i32))), false),
        ("zstd".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZstdData(payload.clone())), Some(payload.len() as i32))), false),
        ("lz4-empty".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::Lz4Data(vec![])), Some(0))), false),
        ("zstd-empty".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZstdData(vec![])), None)), false),
        ("lzma-empty".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::LzmaData(vec![])), Some(0))), false),
        ("bzip2-empty".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ObsoleteBzip2Data(vec![])), None)), false),
        ("lz4-zlib-inside".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::Lz4Data(zl.clone())), Some(payload.len() as i32))), false),
        ("zstd-zlib-inside".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZstdData(zl.clone())), Some(payload.len() as i32))), false),
        ("unknown-type".into(), bad_file(&good, "OSMDato", &enc_blob(Some(Data::Raw(payload.clone())), None)), false),
        ("empty-type".into(), bad_file(&good, "", &enc_blob(Some(Data::Raw(payload.clone())), None)), false),
        ("type-lowercase".into(), bad_file(&good, "osmdata", &enc_blob(Some(Data::Raw(payload.clone())), None)), false),
        ("not-a-blob".into(), bad_file(&good, "OSMData", &[0xff; 40]), false),
        ("zlib-garbage".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(vec![1, 2, 3, 4, 5, 6])), Some(payload.len() as i32))), false),
        ("zlib-empty".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(vec![])), Some(payload.len() as i32))), false),
        ("zlib-garbage-0".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(vec![1, 2, 3, 4, 5, 6])), Some(0))), false),
        ("zlib-empty-0".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(vec![])), Some(0))), false),
        ("zlib-sound-0".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(zl.clone())), Some(0))), false),
        ("zlib-cut-0".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(zl[..zl.len() - 6].to_vec())), Some(0))), false),
        ("zlib-no-raw-size".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(zl.clone())), None)), true),
    ];
    for t in ["OSMData ", " OSMData", "OSMData2", "OSMDat", "OSMDATA", "OSM", "OSMData\0", "OSMHeaderOSMData", "DataOSM", "osmHeader", "OSMChangeset", "\u{feff}OSMData"] {
        cases.push((format!("type-{t:?}"), bad_file(&good, t, &enc_blob(Some(Data::Raw(payload.clone())), Some(payload.len() as i32))), false));
    }
    // the same when the payload would be readable as a header block, or is empty
    let head = raw::default_header().encode_to_vec();
    for t in ["OSMheader", "OSMHEADER", "osmheader", "OSMHeader ", " OSMHeader", "OSMHeader2", "OSMHeade", "Header", "OSM Header", "OSMIndex", "OSMMetadata", "", "\0"] {
        cases.push((format!("header-type-{t:?}"), bad_file(&good, t, &enc_blob(Some(Data::Raw(head.clone())), Some(head.len() as i32))), false));
        cases.push((format!("no-payload-type-{t:?}"), bad_file(&good, t, &enc_blob(Some(Data::Raw(vec![])), Some(0))), false));
    }
    for d in [-1i32, 1, -10, 100, -(payload.len() as i32)] {
        cases.push((format!("raw-size{d:+}"), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(zl.clone())), Some(payload.len() as i32 + d))), false));
    }
    // a payload whose prefix is itself a sound block, with a raw_size that selects the prefix
    {
        let b1 = raw::simple(&victim[..1]).encode_to_vec();
        let mut two = b1.clone();
        two.extend(raw::simple(&victim[1..]).encode_to_vec());
        cases.push(("raw-size-selects-prefix".into(), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(raw::zlib(&two))), Some(b1.len() as i32))), false));
    }
    let step = if c.thorough { 1 } else { (zl.len() / 12).max(1) };
    for cut in (0..zl.len()).step_by(step).chain([zl.len() - 1, zl.len() - 4, zl.len() - 5]) {
        cases.push((format!("zlib-cut-{cut}"), bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(zl[..cut].to_vec())), Some(payload.len() as i32))), false));
    }
    for (id, bytes, allow) in &cases {
        c.case(id, "bad-blob", || format!("file with a bad second data blob: {id}"), || expect_refused(c, bytes, &good, if *allow { Some(&victim) } else { None }));
    }
    // bit flips in the compressed stream: refused unless an independent inflater gets the same payload
    let bits = zl.len() * 8;
    let bstep = if c.thorough { 3 } else { (bits / 60).max(1) };
    let tail: Vec<usize> = (bits.saturating_sub(40)..bits).step_by(3).collect();
    for bit in (0..bits).step_by(bstep).chain(tail) {
        if !c.time_left() { break; }
        c.case(&format!("flip-{bit}"), "flip", || format!("bit {bit} of the zlib stream flipped"), || {
            let mut q = zl.clone();
            q[bit / 8] ^= 1 << (bit % 8);
            let mut o = vec![];
            let same = std::io::Read::read_to_end(&mut flate2::read::ZlibDecoder::new(&q[..]), &mut o).is_ok() && o == payload;
            expect_refused(c, &bad_file(&good, "OSMData", &enc_blob(Some(Data::ZlibData(q)), Some(payload.len() as i32))), &good, if same { Some(&victim) } else { None })
        });
    }
    // the file ends inside a blob body
    let whole = bad_file(&good, "OSMData", &enc_blob(Some(Data::Raw(payload.clone())), None));
    let body_len = enc_blob(Some(Data::Raw(payload.clone())), None).len();
    for k in [1, 2, 10, body_len / 2, body_len - 1, body_len] {
        c.case(&format!("file-cut-{k}"), "file-cut", || format!("the file lacks the last {k} bytes of its last blob body"), || expect_refused(c, &whole[..whole.len() - k], &good, None));
    }
    // text that is not UTF-8
    c.case("not-utf8", "not-utf8", || "a string table entry that is not UTF-8".into(), || {
        let mut b = raw::simple(&victim);
        b.stringtable.s[1] = vec![0xff, 0xfe];
        expect_refused(c, &bad_file(&good, "OSMData", &enc_blob(Some(Data::Raw(b.encode_to_vec())), None)), &good, None)
    });
    // bad headers
    for (id, body) in [("header-lzma", enc_blob(Some(Data::LzmaData(vec![1])), Some(1))), ("header-none", enc_blob(None, None)), ("header-garbage", enc_blob(Some(Data::Raw(vec![0xff; 9])), None))] {
        c.case(id, "bad-header", || format!("file whose header blob is bad: {id}"), || {
            let mut out = vec![];
            raw::frame(&mut out, "OSMHeader", &body, None);
            raw::push_block(&mut out, &raw::simple(&good), Enc::Raw);
            let p = c.path("pbf");
            std::fs::write(&p, out).map_err(es)?;
            match guard(|| Reader::new(&p).is_ok()) {
                Ok(true) => Err("the reader opened it".into()),
                _ => Ok(()),
            }
        });
    }
    "sound blocks in both compressions parsed independently and read back; malformed blobs (every compression kind, wrong sizes, truncations, bit flips judged by an independent inflater, unknown types) read sequentially and in parallel; distinct = distinct inputs".into()
}

fn opt_text(r: &mut Rng) -> Option<String> {
    if r.chance(1, 3) { None } else { Some(model::text(r)) }
}

pub fn n09(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let supported = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"];
    let n = if c.thorough { 60000 } else { 1500 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let bbox: Option<[i64; 4]> = if r.chance(1, 4) {
            None
        } else {
            let lim = [180_000_000_000i64, 90_000_000_000, 180_000_000_000, 90_000_000_000];
            let mut b = [0i64; 4];
            for (j, l) in lim.iter().enumerate() {
                b[j] = match r.below(4) { 0 => *r.pick(&[0, *l, -*l, 1, -1, 999_999_999, -l + 1, 2 * l, -3 * l, 1_000_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_296]), 1 => r.range(-l / 100, l / 100) * 100, _ => r.range(-l, *l) };
            }
            match i % 40 {
                3 => b = [0; 4],
                13 => b = [b[0]; 4],
                23 => b[r.below(4)..].fill(0),
                33 => b = [b[2], b[3], b[0], b[1]],
                _ => {}
            }
            Some(b)
        };
        let req: Vec<String> = (0..r.below(6)).map(|_| r.pick(&supported).to_string()).collect();
        let nopt = if i % 50 == 7 { *r.pick(&[127usize, 128, 300, 3000]) } else { r.below(5) };
        let opt: Vec<String> = (0..nopt).map(|_| if r.chance(1, 4) { r.pick(&supported).to_string() } else { model::text(&mut r) }).collect();
        // the order the setters are called in, some of them twice, on values set before
        let dirty = i % 3 == 1;
        let mut order: Vec<usize> = (0..8).collect();
        r.shuffle(&mut order);
        if dirty { let again: Vec<usize> = (0..r.below(5)).map(|_| r.below(8)).collect(); order.extend(again); }
        let (mut wp, mut src, mut url) = (opt_text(&mut r), opt_text(&mut r), opt_text(&mut r));
        if i % 40 == 9 {
            let long = r.pick(&["w", "日"]).repeat(*r.pick(&[127usize, 128, 255, 256, 5000, 65_536, 100_000]));
            *[&mut wp, &mut src, &mut url][r.below(3)] = Some(long);
        }
        let ts = if r.chance(1, 3) { None } else { Some(*r.pick(&[0, -1, 1, i64::MAX, i64::MIN, 1_600_000_000, 2_147_483_648, 1_600_000_000_000, 4_294_967_297])) };
        let seq = if r.chance(1, 3) { None } else { Some(*r.pick(&[0, -1, 7, i64::MAX, i64::MIN, 4_000_000_000])) };
        let ctor = if i % 12 == 5 { 3 } else { r.below(3) };
        let z = r.bool();
        c.case(&format!("random-{i}"), "metadata", || format!("bbox(nano l,b,r,t)={bbox:?} req={req:?} opt={opt:?} wp={wp:?} src={src:?} ts={ts:?} seq={seq:?} url={url:?} via={ctor} zlib={z}"), || {
            let bb = bbox.map(|b| BoundingBox::new(b[0] as f64 / 1e9, b[1] as f64 / 1e9, b[2] as f64 / 1e9, b[3] as f64 / 1e9));
            let p = if i % 5 == 0 { c.same_path("pbf", 300_000) } else { c.path("pbf") };
            let (mut ereq, mut eopt, mut ewp, mut esrc) = (req.clone(), opt.clone(), wp.clone(), src.clone());
            if ctor == 3 {
                let mut w = osm_io::osm::pbf::parallel_writer::ParallelWriter::from_file_info(10, 5, p.clone(), FileInfo::new(bb.clone(), req.clone(), opt.clone(), wp.clone(), src.clone(), ts, seq, url.clone()), comp(z)).map_err(es)?;
                w.write_header().map_err(es)?;
                w.close().map_err(es)?;
            }
            let mut w = match ctor {
                3 => Writer::from_file_info(c.path("pbf"), FileInfo::default(), comp(z)).map_err(es)?,
                0 => Writer::from_file_info(p.clone(), FileInfo::new(bb, req.clone(), opt.clone(), wp.clone(), src.clone(), ts, seq, url.clone()), comp(z)).map_err(es)?,
                1 => {
                    let mut f = if dirty {
                        FileInfo::new(Some(BoundingBox::new(-170.0, -80.0, 170.5, 80.5)), vec!["Other".into(), "DenseNodes".into()], vec!["LocationsOnWays".into()], Some("before".into()), Some("before".into()), Some(77), Some(78), Some("before".into()))
                    } else {
                        FileInfo::default()
                    };
                    for k in &order {
                        match k {
                            0 => f.with_bounding_box(&bb),
                            1 => f.with_required_features(&req),
                            2 => f.with_optional_features(&opt),
                            3 => match &wp { Some(s) if i % 2 == 0 => f.with_writingprogram_str(s), _ => f.with_writingprogram(&wp) },
                            4 => f.with_source(&src),
                            5 => f.with_osmosis_replication_timestamp(&ts),
                            6 => f.with_osmosis_replication_sequence_number(&seq),
                            _ => f.with_osmosis_replication_base_url(&url),
                        }
                    }
                    Writer::from_file_info(p.clone(), f, comp(z)).map_err(es)?
                }
                _ => {
                    let hist = i % 2 == 0;
                    ereq = vec!["OsmSchema-V0.6".into(), "DenseNodes".into()];
                    if hist {
                        ereq.push("HistoricalInformation".into());
                    }
                    eopt = vec!["Sort.Type_then_ID".into()];
                    ewp = Some(wp.clone().unwrap_or_default());
                    esrc = Some(src.clone().unwrap_or_default());
                    Writer::new(p.clone(), ewp.as_deref().unwrap(), esrc.as_deref().unwrap(), ts, seq, url.clone(), comp(z), bb, hist).map_err(es)?
                }
            };
            w.write_header().map_err(es)?;
            w.close().map_err(es)?;
            let blobs = raw::parse(&std::fs::read(&p).map_err(es)?)?;
            if blobs.len() != 1 {
                return Err(format!("a header alone was written, the file holds {} blobs", blobs.len()));
            }
            let h = osmpbf::HeaderBlock::decode(&blobs[0].payload[..]).map_err(es)?;
            let rd = Reader::new(&p).map_err(es)?;
            let _ = std::fs::remove_file(&p);
            let f = rd.info();
            let same = |what: &str, a: String, b: String, d: String| -> Result<(), String> {
                if a != b { return Err(format!("{what}: given {a}, in the file {b}")); }
                if a != d { return Err(format!("{what}: given {a}, reported {d}")); }
                Ok(())
            };
            same("required features", format!("{ereq:?}"), format!("{:?}", h.required_features), format!("{:?}", f.required_features()))?;
            same("optional features", format!("{eopt:?}"), format!("{:?}", h.optional_features), format!("{:?}", f.optional_features()))?;
            same("writing program", format!("{ewp:?}"), format!("{:?}", h.writingprogram), format!("{:?}", f.writingprogram()))?;
            same("source", format!("{esrc:?}"), format!("{:?}", h.source), format!("{:?}", f.source()))?;
            same("replication timestamp", format!("{ts:?}"), format!("{:?}", h.osmosis_replication_timestamp), format!("{:?}", f.osmosis_replication_timestamp()))?;
            same("replication sequence number", format!("{seq:?}"), format!("{:?}", h.osmosis_replication_sequence_number), format!("{:?}", f.osmosis_replication_sequence_number()))?;
            same("replication base url", format!("{url:?}"), format!("{:?}", h.osmosis_replication_base_url), format!("{:?}", f.osmosis_replication_base_url()))?;
            match (bbox, &h.bbox, f.bounding_box()) {
                (None, None, None) => {}
                (Some(b), Some(hb), Some(fb)) => {
                    if [hb.left, hb.bottom, hb.right, hb.top] != b {
                        return Err(format!("bounding box: given {b:?}, in the file {:?}", [hb.left, hb.bottom, hb.right, hb.top]));
                    }
                    let got = [fb.left(), fb.bottom(), fb.right(), fb.top()];
                    for j in 0..4 {
                        if (got[j] - b[j] as f64 / 1e9).abs() > 1e-13 {
                            return Err(format!("bounding box side {j}: given {}e-9, reported {}", b[j], got[j]));
                        }
                    }
                }
                _ => return Err("bounding box appeared or disappeared".into()),
            }
            for s in &ereq {
                if !f.required(s) { return Err(format!("required({s}) is false")); }
            }
            for s in &eopt {
                if !f.optional(s) { return Err(format!("optional({s:?}) is false")); }
            }
            Ok(())
        });
    }
    "file information written with Writer (both constructors and all setters), decoded independently and reported by Reader::info; distinct = distinct file informations".into()
}

pub fn n10(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let supported = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"];
    let run = |id: String, req: Vec<String>, opt: Vec<String>, enc: Enc| {
        c.case(&id, "features", || format!("required {req:?} optional {opt:?}"), || {
            let p = c.path("pbf");
            std::fs::write(&p, file_of(&raw::header(&req, &opt), &[raw::simple(&[El::node(1)])], enc)).map_err(es)?;
            let mut missing: Vec<String> = req.iter().filter(|f| !supported.contains(&f.as_str())).cloned().collect();
            missing.sort();
            missing.dedup();
            let res = Reader::new(&p);
            let _ = std::fs::remove_file(&p);
            match res {
                Ok(rd) => {
                    if !missing.is_empty() {
                        return Err(format!("opened although {missing:?} are not supported"));
                    }
                    let mut sf = rd.supported_features().clone();
                    sf.sort();
                    let mut ss: Vec<String> = supported.iter().map(|s| s.to_string()).collect();
                    ss.sort();
                    if sf != ss {
                        return Err(format!("the reader lists {sf:?} as supported"));
                    }
                    Ok(())
                }
                Err(e) => {
                    let t = format!("{e:#}");
                    if missing.is_empty() {
                        return Err(format!("refused although every required feature is supported: {t}"));
                    }
                    for m in &missing {
                        let k = t.matches(m.as_str()).count();
                        if k != 1 {
                            return Err(format!("the error names {m} {k} times: {t}"));
                        }
                    }
                    for s in supported {
                        if t.contains(&format!("\"{s}\"")) {
                            return Err(format!("the error names the supported feature {s}: {t}"));
                        }
                    }
                    for o in &opt {
                        if !req.contains(o) && t.contains(o.as_str()) {
                            return Err(format!("the error names the optional feature {o}: {t}"));
                        }
                    }
                    Ok(())
                }
            }
        });
    };
    let tok = |i: usize| format!("Feature<{i:05}>");
    run("none".into(), vec![], vec![], Enc::Raw);
    run("case".into(), vec!["osmschema-v0.6".into()], vec![], Enc::Zlib);
    run("prefix".into(), vec!["DenseNode".into()], vec![], Enc::Zlib);
    run("suffix".into(), vec!["DenseNodes".into(), "LocationsOnWays".into()], vec![], Enc::Zlib);
    run("many".into(), (0..300).map(tok).collect(), vec![], Enc::Zlib);
    run("many-more".into(), (0..3000).map(|i| if i % 3 == 0 { tok(i) } else { supported[i % 4].to_string() }).collect(), (5000..6000).map(tok).collect(), Enc::Zlib);
    run("many-dups".into(), (0..2000).map(|i| tok(i % 7)).collect(), vec![], Enc::Zlib);
    run("late-one".into(), (0..500).map(|i| if i == 499 { tok(1) } else { supported[i % 4].to_string() }).collect(), vec![], Enc::Raw);
    run("first-one".into(), (0..500).map(|i| if i == 0 { tok(1) } else { supported[i % 4].to_string() }).collect(), vec![], Enc::Raw);
    run("supported-often".into(), (0..500).map(|i| supported[i % 4].to_string()).collect(), (0..500).map(tok).collect(), Enc::Raw);
    for (i, x) in ["OsmSchema-V0.6 ", " DenseNodes", "OsmSchema-V0.7", "OsmSchema-V0.60", "HistoricalInformatioN", "Sort.Type_then_IDs", "Has_Metadata", "LocationsOnWays", "日本語", "Sort.Geographic", "DenseNodes,HistoricalInformation"].iter().enumerate() {
        // a name that differs little from a supported one, alone and among supported ones
        run(format!("near-{i}"), vec![x.to_string()], vec![], Enc::Raw);
        c.case(&format!("near-opt-{i}"), "features", || format!("optional {x:?}"), || {
            let p = c.path("pbf");
            std::fs::write(&p, file_of(&raw::header(&[], &[x.to_string()]), &[], Enc::Zlib)).map_err(es)?;
            let ok = Reader::new(&p).is_ok();
            let _ = std::fs::remove_file(&p);
            if ok { Ok(()) } else { Err("refused although nothing is required".into()) }
        });
    }
    c.case("empty-name", "features", || "a required feature with an empty name".into(), || {
        let p = c.path("pbf");
        std::fs::write(&p, file_of(&raw::header(&["".into()], &[]), &[], Enc::Zlib)).map_err(es)?;
        let ok = Reader::new(&p).is_ok();
        let _ = std::fs::remove_file(&p);
        if ok { Err("opened although a required feature is not supported".into()) } else { Ok(()) }
    });
    for m in 0..16usize {
        let req: Vec<String> = (0..4).filter(|j| m >> j & 1 == 1).map(|j| supported[j].to_string()).collect();
        run(format!("subset-{m}"), req.clone(), vec![tok(7)], Enc::Raw);
        let mut q = req.clone();
        q.insert(m % (q.len() + 1), tok(m));
        run(format!("subset-plus-{m}"), q.clone(), vec![], Enc::Raw);
        q.push(tok(m));
        q.push(tok(m + 100));
        run(format!("subset-dup-{m}"), q, vec![tok(3), tok(3)], Enc::Zlib);
    }
    let n = if c.thorough { 60000 } else { 400 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let miss = r.below(4);
        let req: Vec<String> = (0..r.below(9)).map(|_| if miss > 0 && r.chance(miss, 8) { tok(r.below(6)) } else { r.pick(&supported).to_string() }).collect();
        let opt: Vec<String> = (0..r.below(5)).map(|_| if r.bool() { tok(r.below(9)) } else { r.pick(&supported).to_string() }).collect();
        let enc = if r.bool() { Enc::Raw } else { Enc::Zlib };
        run(format!("random-{i}"), req, opt, enc);
    }
    // the first block is not a header
    let good = raw::simple(&[El::node(1)]);
    let mut a = vec![];
    raw::push_block(&mut a, &good, Enc::Raw);
    let mut b = a.clone();
    raw::push_header(&mut b, &raw::default_header(), Enc::Raw);
    for (id, bytes) in [("empty-file", vec![]), ("data-first", a), ("data-then-header", b), ("four-bytes", vec![0, 0, 0, 0]), ("text", b"this is not a pbf file".to_vec())] {
        c.case(id, "not-a-header", || format!("file: {id}"), || {
            let p = c.path("pbf");
            std::fs::write(&p, &bytes).map_err(es)?;
            match guard(|| Reader::new(&p).is_ok()) { Ok(true) => Err("the reader opened it".into()), _ => Ok(()) }
        });
    }
    "headers with every subset of the supported features, duplicates, orders and unsupported names; Reader::new must succeed or name exactly the missing features once; distinct = distinct headers".into()
}

/// A file in which data blocks of the least possible size surround two blocks with elements (ids 1 and 2, 3).
pub fn minimal_file(v: usize) -> (Vec<u8>, usize) {
    let small: [&[u8]; 4] = [&[0x0a, 0], &[0x0a, 2, 0x0a, 0], &[0x0a, 0, 0x12, 0], &[0x0a, 2, 0x0a, 0, 0x12, 0, 0x12, 0]];
    let mut out = vec![];
    raw::push_header(&mut out, &raw::default_header(), Enc::Raw);
    let mut n = 0;
    let empty = |out: &mut Vec<u8>, k: usize| {
        let data = Some(osmpbf::blob::Data::Raw(small[(v + k) % 4].to_vec()));
        raw::frame(out, "OSMData", &osmpbf::Blob { raw_size: if v / 4 % 2 == 0 { None } else { Some(small[(v + k) % 4].len() as i32) }, data }.encode_to_vec(), None);
    };
    for k in 0..1 + v % 3 { empty(&mut out, k); n += 1; }
    raw::push_block(&mut out, &raw::simple(&[El::node(1)]), Enc::Raw);
    for k in 0..2 { empty(&mut out, k + 1); n += 1; }
    raw::push_block(&mut out, &raw::simple(&[El::of(1, 2, 1), El::of(1, 3, 1)]), Enc::Zlib);
    for k in 0..v % 3 { empty(&mut out, k + 2); n += 1; }
    (out, n + 2)
}

pub fn n11(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    for v in 0..24 {
        c.case(&format!("minimal-{v}"), "sequence", || format!("two blocks with elements among blocks of a few bytes, variant {v}"), || {
            let p = c.path("pbf");
            std::fs::write(&p, minimal_file(v).0).map_err(es)?;
            diff(&[El::node(1), El::of(1, 2, 1), El::of(1, 3, 1)], &read_seq(&p)?)?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    let run = |id: String, blocks: Vec<Vec<El>>, enc: Enc, again: Option<usize>| {
        c.case(&id, if again.is_some() { "header-again" } else { "sequence" }, || format!("block sizes {:?}, extra header before block {again:?}", blocks.iter().map(|b| b.len()).collect::<Vec<_>>()), || {
            let mut out = vec![];
            raw::push_header(&mut out, &raw::default_header(), enc);
            for (i, b) in blocks.iter().enumerate() {
                if again == Some(i) {
                    raw::push_header(&mut out, &raw::default_header(), enc);
                }
                raw::push_block(&mut out, &raw::simple(b), enc);
            }
            let p = c.path("pbf");
            std::fs::write(&p, out).map_err(es)?;
            let rd = Reader::new(&p).map_err(es)?;
            let mut it = rd.elements().map_err(es)?;
            let mut got = vec![];
            let total: usize = blocks.iter().map(|b| b.len()).sum();
            for e in it.by_ref() {
                got.push(El::from(&e));
                if got.len() > total {
                    break;
                }
            }
            let exp: Vec<El> = blocks.iter().flatten().cloned().collect();
            diff(&exp, &got)?;
            for k in 0..4 {
                if it.next().is_some() {
                    return Err(format!("next() number {k} after the end returned an element"));
                }
            }
            // iterators of one reader are independent of each other
            let (mut a, mut b) = (rd.elements().map_err(es)?, rd.elements().map_err(es)?);
            let (mut va, mut vb) = (vec![], vec![]);
            for k in 0..3 * total + 6 {
                if k % 3 == 0 { vb.extend(b.next().map(|e| El::from(&e))); } else { va.extend(a.next().map(|e| El::from(&e))); }
            }
            drop(a);
            vb.extend(b.map(|e| El::from(&e)));
            diff(&exp, &va).map_err(|e| format!("first of two iterators: {e}"))?;
            diff(&exp, &vb).map_err(|e| format!("second of two iterators: {e}"))?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    };
    let el = |k: u8, i: usize| { let mut e = El::mix(k, i as i64, 1); e.user = format!("u{i}"); e };
    for m in 0..32usize {
        // which of five blocks are empty
        let blocks: Vec<Vec<El>> = (0..5).map(|j| if m >> j & 1 == 1 { vec![] } else { (0..3).map(|i| el((j / 2) as u8, j * 10 + i)).collect() }).collect();
        run(format!("empties-{m}"), blocks.clone(), Enc::Zlib, None);
        if m % 4 == 0 {
            for k in 0..5 {
                run(format!("again-{m}-{k}"), blocks.clone(), Enc::Raw, Some(k));
            }
        }
    }
    run("no-blocks".into(), vec![], Enc::Raw, None);
    // more blocks, and more elements in one block, than small counters hold
    for (nb, per) in [(255usize, 1usize), (256, 1), (257, 2), (512, 1), (1025, 1), (4200, 1)] {
        run(format!("blocks-{nb}-{per}"), (0..nb).map(|j| (0..per).map(|i| el(0, j * per + i)).collect()).collect(), Enc::Raw, None);
        run(format!("blocks-{nb}-{per}-gaps"), (0..nb).map(|j| if j % 3 == 1 { vec![] } else { (0..per).map(|i| el((j % 3) as u8, j * per + i)).collect() }).collect(), Enc::Raw, None);
    }
    for n in [255usize, 256, 257, 8191, 8192, 8193, 16_001, 65_535, 65_536, 65_537, 70_001] {
        run(format!("block-of-{n}"), vec![vec![El::node(1)], (0..n).map(|i| El::node(i as i64 + 2)).collect(), vec![El::node(1_000_000)]], Enc::Zlib, None);
    }
    if c.thorough {
        run("blocks-66000".into(), (0..66_000).map(|j| vec![El::node(j)]).collect(), Enc::Raw, None);
    }
    let mut id_next = 0usize;
    let n = if c.thorough { 6000 } else { 600 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let mut id = 0;
        let mut blocks: Vec<Vec<El>> = (0..r.below(12)).map(|_| (0..if r.chance(1, 3) { 0 } else { r.below(6) }).map(|_| { id += 1; el(r.below(3) as u8, id) }).collect()).collect();
        // raw::simple stores one group per kind: nodes, ways, relations
        blocks.iter_mut().for_each(|b| b.sort_by_key(|e| e.kind));
        let enc = if r.bool() { Enc::Raw } else { Enc::Zlib };
        run(format!("random-{i}"), blocks, enc, None);
    }
    // stored order inside a block: groups of any kind in any order, empty groups, large blocks
    for i in 0..if c.thorough { 2000 } else { 150 } {
        let blocks: Vec<Vec<(Vec<El>, Opt)>> = (0..1 + r.below(5))
            .map(|_| {
                (0..r.below(6))
                    .map(|_| {
                        let k = r.below(3) as u8;
                        let n = if i % 30 == 3 { *r.pick(&[0usize, 1, 8000, 8001, 12_000]) } else { r.below(5) };
                        ((0..n).map(|_| { id_next += 1; el(k, id_next) }).collect(), Opt { dense: r.bool(), ..Opt::default() })
                    })
                    .collect()
            })
            .collect();
        c.case(&format!("groups-{i}"), "sequence", || format!("{:?}", blocks.iter().map(|b| b.iter().map(|g| (g.0.first().map(|e| (e.kind, e.id)), g.0.len(), g.1.dense)).collect::<Vec<_>>()).collect::<Vec<_>>()), || {
            let p = c.path("pbf");
            let bs: Vec<_> = blocks.iter().map(|b| raw::block(b, &Opt::default(), i % 2 == 0)).collect();
            std::fs::write(&p, file_of(&raw::default_header(), &bs, if i % 3 == 0 { Enc::Zlib } else { Enc::Raw })).map_err(es)?;
            let exp: Vec<El> = blocks.iter().flatten().flat_map(|g| g.0.clone()).collect();
            diff(&exp, &read_seq(&p)?)?;
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    // long runs of empty blocks, in a child process with a small stack
    for (n, with_last) in [(2000usize, true), (20000, true), (20000, false)] {
        c.case(&format!("many-empty-{n}-{with_last}"), "many-empty", || format!("one node, {n} empty blocks{}", if with_last { ", one node" } else { "" }), || {
            let mut out = vec![];
            raw::push_header(&mut out, &raw::default_header(), Enc::Raw);
            raw::push_block(&mut out, &raw::simple(&[el(0, 1)]), Enc::Raw);
            for _ in 0..n {
                raw::push_block(&mut out, &raw::simple(&[]), Enc::Raw);
            }
            let mut want = 1;
            if with_last {
                raw::push_block(&mut out, &raw::simple(&[el(0, 2)]), Enc::Raw);
                want = 2;
            }
            let p = c.path("pbf");
            std::fs::write(&p, out).map_err(es)?;
            let o = std::process::Command::new(std::env::current_exe().map_err(es)?).args(["child", "n11"]).arg(&p).arg(want.to_string()).output().map_err(es)?;
            let _ = std::fs::remove_file(&p);
            if o.status.success() { Ok(()) } else { Err(format!("reading ended abnormally: {} {}", o.status, String::from_utf8_lossy(&o.stdout))) }
        });
    }
    "independently built files with every pattern of empty blocks, random block sizes, repeated headers and long runs of empty blocks, read with Reader::elements; distinct = distinct block layouts".into()
}

pub fn child(a: &[String]) -> i32 {
    if a.first().map(|s| s.as_str()) == Some("n13") {
        return crate::par::child(&a[1..]);
    }
    if a.first().map(|s| s.as_str()) == Some("n11") {
        let path = PathBuf::from(&a[1]);
        let want: usize = a[2].parse().unwrap_or(0);
        let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let rd = Reader::new(&path).unwrap();
            rd.elements().unwrap().count()
        });
        return match h.unwrap().join() {
            Ok(n) if n == want => 0,
            Ok(n) => {
                println!("{n} elements instead of {want}");
                1
            }
            Err(_) => 3,
        };
    }
    2
}
