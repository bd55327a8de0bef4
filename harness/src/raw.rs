//! An independent PBF codec, written from the file format description.
use crate::model::El;
use prost::Message;
use std::collections::HashMap;
use std::io::{Read, Write};

#[allow(dead_code, clippy::all)]
pub mod osmpbf {
    include!("prost-osmpbf.rs");
}
use osmpbf::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc {
    Raw,
    Zlib,
}

pub fn zlib(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn blob(payload: &[u8], enc: Enc) -> Blob {
    match enc {
        Enc::Raw => Blob { raw_size: None, data: Some(blob::Data::Raw(payload.to_vec())) },
        Enc::Zlib => Blob { raw_size: Some(payload.len() as i32), data: Some(blob::Data::ZlibData(zlib(payload))) },
    }
}

pub fn frame(out: &mut Vec<u8>, typ: &str, body: &[u8], indexdata: Option<Vec<u8>>) {
    let h = BlobHeader { r#type: typ.to_string(), indexdata, datasize: body.len() as i32 };
    let hb = h.encode_to_vec();
    out.extend_from_slice(&(hb.len() as u32).to_be_bytes());
    out.extend_from_slice(&hb);
    out.extend_from_slice(body);
}

/// the same message in another legal encoding: unknown fields before or after the known ones
pub fn odd(m: Vec<u8>, v: usize) -> Vec<u8> {
    let extra = |n: u8| -> Vec<u8> { [vec![0xfa, 0x3e, n], vec![5; n as usize], vec![0x90, 0x4e, 0x95, 0x01]].concat() };
    match v % 4 {
        1 => [m, extra(9)].concat(),
        2 => [extra(20), m].concat(),
        3 => [extra(1), m, extra(100)].concat(),
        _ => m,
    }
}

/// a frame whose header is one of several legal encodings of the same header
pub fn frame_odd(out: &mut Vec<u8>, typ: &str, body: &[u8], indexdata: Option<Vec<u8>>, v: usize) {
    let varint = |mut n: usize, pad: bool| -> Vec<u8> {
        let mut o = vec![];
        while n >= 0x80 {
            o.push(n as u8 | 0x80);
            n >>= 7;
        }
        if pad {
            o.push(n as u8 | 0x80);
            o.push(0x80);
            o.push(0);
        } else {
            o.push(n as u8);
        }
        o
    };
    let t = [vec![0x0a, typ.len() as u8], typ.as_bytes().to_vec()].concat();
    let i = indexdata.as_ref().map_or(vec![], |x| [vec![0x12], varint(x.len(), false), x.clone()].concat());
    let d = [vec![0x18], varint(body.len(), v == 5)].concat();
    let hb = match v {
        1..=3 => odd([t, i, d].concat(), v),
        4 => [d, i, t].concat(),
        6 => [vec![0x18, 3], t, i, d].concat(),
        _ => [t, i, d].concat(),
    };
    out.extend_from_slice(&(hb.len() as u32).to_be_bytes());
    out.extend_from_slice(&hb);
    out.extend_from_slice(body);
}

pub fn header(required: &[String], optional: &[String]) -> HeaderBlock {
    HeaderBlock { required_features: required.to_vec(), optional_features: optional.to_vec(), ..Default::default() }
}

pub fn default_header() -> HeaderBlock {
    header(&["OsmSchema-V0.6".into(), "DenseNodes".into()], &[])
}

pub fn push_header(out: &mut Vec<u8>, h: &HeaderBlock, enc: Enc) {
    frame(out, "OSMHeader", &blob(&h.encode_to_vec(), enc).encode_to_vec(), None);
}

pub fn push_block(out: &mut Vec<u8>, b: &PrimitiveBlock, enc: Enc) {
    frame(out, "OSMData", &blob(&b.encode_to_vec(), enc).encode_to_vec(), None);
}

pub struct RawBlob {
    pub typ: String,
    pub datasize: i32,
    pub body: Vec<u8>,
    pub raw_size: Option<i32>,
    pub zlib: bool,
    pub payload: Vec<u8>,
}

/// Parse a whole file; any deviation from the framing is an error.
pub fn parse(bytes: &[u8]) -> Result<Vec<RawBlob>, String> {
    let mut i = 0;
    let mut v = vec![];
    while i < bytes.len() {
        if bytes.len() < i + 4 {
            return Err(format!("truncated header length at {i}"));
        }
        let n = u32::from_be_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]) as usize;
        i += 4;
        if bytes.len() < i + n {
            return Err(format!("truncated header at {i}"));
        }
        let h = BlobHeader::decode(&bytes[i..i + n]).map_err(|e| format!("bad header at {i}: {e}"))?;
        i += n;
        let d = h.datasize as usize;
        if h.datasize < 0 || bytes.len() < i + d {
            return Err(format!("datasize {} does not fit at {i}", h.datasize));
        }
        let body = bytes[i..i + d].to_vec();
        i += d;
        let b = Blob::decode(&body[..]).map_err(|e| format!("bad blob: {e}"))?;
        let (z, payload) = match b.data {
            Some(blob::Data::Raw(r)) => (false, r),
            Some(blob::Data::ZlibData(z)) => {
                let mut p = vec![];
                flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut p).map_err(|e| format!("zlib: {e}"))?;
                (true, p)
            }
            None => return Err("blob without data".into()),
            _ => return Err("unexpected compression".into()),
        };
        v.push(RawBlob { typ: h.r#type, datasize: h.datasize, body, raw_size: b.raw_size, zlib: z, payload });
    }
    Ok(v)
}

/// Decode the elements of a primitive block (coordinates must be on the 1e-7 grid).
pub fn elements(b: &PrimitiveBlock) -> Result<Vec<El>, String> {
    Ok(groups(b)?.into_iter().flatten().collect())
}

pub fn nano(b: &PrimitiveBlock, v: i64, lat: bool) -> i128 {
    let off = if lat { b.lat_offset.unwrap_or(0) } else { b.lon_offset.unwrap_or(0) };
    off as i128 + b.granularity.unwrap_or(100) as i128 * v as i128
}

pub fn groups(b: &PrimitiveBlock) -> Result<Vec<Vec<El>>, String> {
    let dg = b.date_granularity.unwrap_or(1000) as i64;
    let st = |i: usize| -> Result<String, String> {
        let s = b.stringtable.s.get(i).ok_or(format!("string index {i} out of range"))?;
        String::from_utf8(s.clone()).map_err(|_| "utf8".to_string())
    };
    let to7 = |n: i128, e: &mut El| -> i64 {
        if n % 100 != 0 {
            e.offgrid = true;
        }
        (n as f64 / 100.0).round() as i64
    };
    let info = |e: &mut El, i: &Option<Info>| -> Result<(), String> {
        if let Some(i) = i {
            e.ver = i.version.unwrap_or(-1);
            e.ts = i.timestamp.unwrap_or(0) * dg;
            e.cs = i.changeset.unwrap_or(-1);
            e.uid = i.uid.unwrap_or(-1);
            e.user = st(i.user_sid.unwrap_or(0) as usize)?;
            e.vis = i.visible.unwrap_or(true);
        }
        Ok(())
    };
    let kv = |k: &[u32], v: &[u32]| -> Result<Vec<(String, String)>, String> {
        if k.len() != v.len() {
            return Err("keys and vals differ in length".into());
        }
        k.iter().zip(v).map(|(a, b)| if *a == 0 { Err("key index 0".to_string()) } else { Ok((st(*a as usize)?, st(*b as usize)?)) }).collect()
    };
    let mut out = vec![];
    for g in &b.primitivegroup {
        let mut els = vec![];
        if let Some(d) = &g.dense {
            let (mut id, mut lat, mut lon, mut ts, mut cs, mut uid, mut sid) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i32, 0i32);
            let mut kvi = 0;
            if d.lat.len() != d.id.len() || d.lon.len() != d.id.len() {
                return Err("dense lengths".into());
            }
            for i in 0..d.id.len() {
                id += d.id[i];
                lat += d.lat[i];
                lon += d.lon[i];
                let mut e = El::of(0, id, 0);
                e.lat7 = to7(nano(b, lat, true), &mut e);
                e.lon7 = to7(nano(b, lon, false), &mut e);
                if let Some(di) = &d.denseinfo {
                    ts += di.timestamp[i];
                    cs += di.changeset[i];
                    uid += di.uid[i];
                    sid += di.user_sid[i];
                    e.ver = di.version[i];
                    e.ts = ts * dg;
                    e.cs = cs;
                    e.uid = uid;
                    e.user = st(sid as usize)?;
                    e.vis = di.visible.get(i).copied().unwrap_or(true);
                }
                while kvi < d.keys_vals.len() {
                    let k = d.keys_vals[kvi];
                    kvi += 1;
                    if k == 0 {
                        break;
                    }
                    let v = *d.keys_vals.get(kvi).ok_or("odd keys_vals")?;
                    kvi += 1;
                    e.tags.push((st(k as usize)?, st(v as usize)?));
                }
                els.push(e);
            }
            if kvi != d.keys_vals.len() {
                return Err("keys_vals left over".into());
            }
        }
        for n in &g.nodes {
            let mut e = El::of(0, n.id, 0);
            e.lat7 = to7(nano(b, n.lat, true), &mut e);
            e.lon7 = to7(nano(b, n.lon, false), &mut e);
            info(&mut e, &n.info)?;
            e.tags = kv(&n.keys, &n.vals)?;
            els.push(e);
        }
        for w in &g.ways {
            let mut e = El::of(1, w.id, 0);
            info(&mut e, &w.info)?;
            e.tags = kv(&w.keys, &w.vals)?;
            let mut r = 0i64;
            for d in &w.refs {
                r += d;
                e.refs.push(r);
            }
            els.push(e);
        }
        for w in &g.relations {
            let mut e = El::of(2, w.id, 0);
            info(&mut e, &w.info)?;
            e.tags = kv(&w.keys, &w.vals)?;
            let mut r = 0i64;
            for (i, d) in w.memids.iter().enumerate() {
                r += d;
                e.members.push((w.types[i] as u8, r, st(w.roles_sid[i] as usize)?));
            }
            els.push(e);
        }
        out.push(els);
    }
    Ok(out)
}

#[derive(Default)]
pub struct Strings {
    pub s: Vec<Vec<u8>>,
    ix: HashMap<String, u32>,
    /// empty texts are entry 0
    pub zero: bool,
}
impl Strings {
    pub fn new() -> Strings {
        Strings { s: vec![vec![]], ix: HashMap::new(), zero: false }
    }
    /// a key is never entry 0, which ends a dense node's tags
    fn key(&mut self, x: &str) -> u32 {
        let z = std::mem::replace(&mut self.zero, false);
        let i = self.add(x);
        self.zero = z;
        i
    }
    pub fn add(&mut self, x: &str) -> u32 {
        if x.is_empty() && self.zero {
            return 0;
        }
        if let Some(i) = self.ix.get(x) {
            return *i;
        }
        self.s.push(x.as_bytes().to_vec());
        self.ix.insert(x.to_string(), self.s.len() as u32 - 1);
        self.s.len() as u32 - 1
    }
}

/// How a group of plain elements is encoded.
#[derive(Clone, Debug)]
pub struct Opt {
    pub dense: bool,
    pub info: bool,
    /// bit mask of present optional Info fields: version timestamp changeset uid user_sid visible
    pub mask: u32,
    pub gran: i64,
    pub dgran: i64,
    pub lat_off: i64,
    pub lon_off: i64,
    pub dense_visible: bool,
    pub drop_empty_kv: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { dense: true, info: true, mask: 63, gran: 100, dgran: 1000, lat_off: 0, lon_off: 0, dense_visible: true, drop_empty_kv: false }
    }
}

/// Encode a run of elements as one group. `lat7`/`lon7` are raw stored coordinate values when `gran != 100`.
pub fn group(els: &[El], st: &mut Strings, o: &Opt) -> PrimitiveGroup {
    let mut g = PrimitiveGroup::default();
    let info = |e: &El, st: &mut Strings| -> Option<Info> {
        if !o.info {
            return None;
        }
        Some(Info {
            version: (o.mask & 1 != 0).then_some(e.ver),
            timestamp: (o.mask & 2 != 0).then_some(e.ts / o.dgran),
            changeset: (o.mask & 4 != 0).then_some(e.cs),
            uid: (o.mask & 8 != 0).then_some(e.uid),
            user_sid: (o.mask & 16 != 0).then(|| st.add(&e.user)),
            visible: (o.mask & 32 != 0).then_some(e.vis),
        })
    };
    if o.dense && els.iter().any(|e| e.kind == 0) {
        let mut d = DenseNodes::default();
        let mut di = DenseInfo::default();
        let (mut id, mut lat, mut lon, mut ts, mut cs, mut uid, mut sid) = (0i64, 0i64, 0i64, 0i64, 0i64, 0i32, 0i32);
        for e in els.iter().filter(|e| e.kind == 0) {
            d.id.push(e.id - id);
            id = e.id;
            d.lat.push(e.lat7 - lat);
            lat = e.lat7;
            d.lon.push(e.lon7 - lon);
            lon = e.lon7;
            let t = e.ts / o.dgran;
            di.timestamp.push(t - ts);
            ts = t;
            di.changeset.push(e.cs - cs);
            cs = e.cs;
            di.uid.push(e.uid - uid);
            uid = e.uid;
            let s = st.add(&e.user) as i32;
            di.user_sid.push(s - sid);
            sid = s;
            di.version.push(e.ver);
            if o.dense_visible {
                di.visible.push(e.vis);
            }
            for (k, v) in &e.tags {
                d.keys_vals.push(st.key(k) as i32);
                d.keys_vals.push(st.add(v) as i32);
            }
            d.keys_vals.push(0);
        }
        if o.drop_empty_kv && els.iter().all(|e| e.tags.is_empty()) {
            d.keys_vals.clear();
        }
        if o.info {
            d.denseinfo = Some(di);
        }
        g.dense = Some(d);
    }
    for e in els {
        let (keys, vals): (Vec<u32>, Vec<u32>) = if e.kind == 3 || (e.kind == 0 && o.dense) { (vec![], vec![]) } else { e.tags.iter().map(|(k, v)| (st.key(k), st.add(v))).unzip() };
        match e.kind {
            0 if !o.dense => {
                let i = info(e, st);
                g.nodes.push(Node { id: e.id, keys, vals, info: i, lat: e.lat7, lon: e.lon7 });
            }
            1 => {
                let i = info(e, st);
                let mut last = 0;
                let refs = e.refs.iter().map(|r| { let d = r - last; last = *r; d }).collect();
                g.ways.push(Way { id: e.id, keys, vals, info: i, refs, ..Default::default() });
            }
            2 => {
                let i = info(e, st);
                let mut last = 0;
                let mut rr = Relation { id: e.id, keys, vals, info: i, ..Default::default() };
                for (t, id, role) in &e.members {
                    rr.types.push(*t as i32);
                    rr.memids.push(id - last);
                    last = *id;
                    rr.roles_sid.push(st.add(role) as i32);
                }
                g.relations.push(rr);
            }
            _ => {}
        }
    }
    g
}

pub fn block(runs: &[(Vec<El>, Opt)], o: &Opt, explicit: bool) -> PrimitiveBlock {
    let mut st = Strings::new();
    st.zero = explicit;
    let primitivegroup = runs.iter().map(|(els, go)| group(els, &mut st, go)).collect();
    PrimitiveBlock {
        stringtable: StringTable { s: st.s },
        primitivegroup,
        granularity: (explicit || o.gran != 100).then_some(o.gran as i32),
        lat_offset: (explicit || o.lat_off != 0).then_some(o.lat_off),
        lon_offset: (explicit || o.lon_off != 0).then_some(o.lon_off),
        date_granularity: (explicit || o.dgran != 1000).then_some(o.dgran as i32),
    }
}

/// A simple data block holding `els` with default options.
pub fn simple(els: &[El]) -> PrimitiveBlock {
    let runs: Vec<(Vec<El>, Opt)> = if els.is_empty() { vec![] } else { vec![(els.to_vec(), Opt::default())] };
    block(&runs, &Opt::default(), true)
}
