//! N05, N15, N16: ordering, bounding boxes, fixed-point coordinates and tiles.
use crate::ctx::{Ctx, Rng};
use crate::model::{self, El};
use crate::pbf::file_of;
use crate::raw::{self, Enc};
use osm_io::osm::model::bounding_box::BoundingBox;
use osm_io::osm::model::coordinate::Coordinate;
use osm_io::osm::model::element::Element;
use osm_io::osm::pbf::bounding_box_calculator::BoundingBoxCalculator;
use osm_io::osm::pbf::file_block::FileBlock;
use osm_io::osm::pbf::reader::Reader;
use std::cmp::Ordering;

fn es<T: std::fmt::Display>(e: T) -> String {
    format!("{e:#}")
}

pub fn n05(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let mut pool: Vec<El> = vec![];
    let ids = [i64::MIN, -2, -1, 0, 1, 2, 9, 10, i64::MAX];
    let vers = [i32::MIN, -1, 0, 1, 2, i32::MAX];
    for k in 0..3u8 {
        for id in ids {
            for v in vers {
                let mut e = El::of(k, id, v);
                // the other fields never matter
                e.user = format!("u{}", r.below(5));
                e.ts = r.range(0, 1_000_000);
                e.vis = r.bool();
                e.cs = r.range(0, 100);
                pool.push(e);
            }
        }
    }
    pool.push(El::sentinel());
    let kk = |e: &El| if e.kind == 3 { (3u8, 0i64, 0i32) } else { e.key() };
    let els: Vec<Element> = pool.iter().map(|e| e.element()).collect();
    for (i, a) in pool.iter().enumerate() {
        c.case(&format!("kind-{i}"), "kind", || format!("{:?}", a.key()), || {
            let e = &els[i];
            let got = (e.is_node(), e.is_way(), e.is_relation(), e.is_sentinel());
            let exp = (a.kind == 0, a.kind == 1, a.kind == 2, a.kind == 3);
            if got != exp { Err(format!("kind predicates {got:?} on kind {}", a.kind)) } else { Ok(()) }
        });
        for (j, b) in pool.iter().enumerate() {
            c.case(&format!("cmp-{i}-{j}"), "cmp", || format!("cmp of {:?} and {:?} (kind, id, version)", a.key(), b.key()), || {
                let exp = kk(a).cmp(&kk(b));
                let (x, y) = (&els[i], &els[j]);
                if x.cmp(y) != exp { return Err(format!("cmp is {:?}, the order demands {exp:?}", x.cmp(y))); }
                if y.cmp(x) != exp.reverse() { return Err("cmp is not antisymmetric".into()); }
                if x.partial_cmp(y) != Some(exp) { return Err("partial_cmp differs from cmp".into()); }
                if (x == y) != (exp == Ordering::Equal) { return Err("equality disagrees with cmp".into()); }
                if Element::same_type(x, y) != (a.kind == b.kind) { return Err("same_type disagrees with the variants".into()); }
                if (x < y) != (exp == Ordering::Less) || (x > y) != (exp == Ordering::Greater) { return Err("comparison operators disagree".into()); }
                if (x <= y) != (exp != Ordering::Greater) || (x >= y) != (exp != Ordering::Less) || (x != y) != (exp != Ordering::Equal) { return Err("comparison operators disagree".into()); }
                // of equal elements max returns the second, min and clamp the first
                let tag = |e: &Element| format!("{:?}", El::from(e));
                let top = if exp == Ordering::Greater { x } else { y };
                let low = if exp == Ordering::Greater { y } else { x };
                if (i * 7 + j) % 5 == 0 {
                    if tag(&x.clone().max(y.clone())) != tag(top) || tag(&x.clone().min(y.clone())) != tag(low) { return Err("max or min disagree with cmp".into()); }
                }
                Ok(())
            });
        }
    }
    let n = if c.thorough { 200_000 } else { 5000 };
    for i in 0..n {
        if !c.time_left() || c.too_many() { break; }
        let v: Vec<El> = (0..8).map(|_| { let k = r.below(4) as u8; if k == 3 { El::sentinel() } else { El::of(k, model::big(&mut r), r.range(-3, 9) as i32) } }).collect();
        c.case(&format!("sort-{i}"), "sort", || format!("{:?}", v.iter().map(|e| e.key()).collect::<Vec<_>>()), || {
            let mut s: Vec<Element> = v.iter().map(|e| e.element()).collect();
            s.sort();
            let got: Vec<_> = s.iter().map(|e| kk(&El::from(e))).collect();
            let mut exp: Vec<_> = v.iter().map(kk).collect();
            exp.sort();
            if got != exp { Err(format!("sorted to {got:?}")) } else { Ok(()) }
        });
    }
    "all pairs of a pool of kinds x boundary ids x boundary versions (and the sentinel) compared with cmp, partial_cmp, ==, <, > and the kind predicates; random sorts; distinct = distinct pairs".into()
}

type Bx = [f64; 4]; // left bottom right top

fn hull(pts: &[(f64, f64)]) -> Bx {
    let mut b = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for (lat, lon) in pts {
        b[0] = b[0].min(*lon);
        b[1] = b[1].min(*lat);
        b[2] = b[2].max(*lon);
        b[3] = b[3].max(*lat);
    }
    b
}

fn sides(b: &BoundingBox) -> Bx {
    [b.left(), b.bottom(), b.right(), b.top()]
}

pub fn n15(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 100_000 } else { 3000 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let m = 1 + r.below(if i % 40 == 0 { 400 } else { 9 });
        let style = r.below(5);
        let pts: Vec<(f64, f64)> = (0..m)
            .map(|_| match style {
                0 => (r.range(-3, 3) as f64, r.range(-3, 3) as f64),
                1 => (r.range(-90, -1) as f64, r.range(-180, -1) as f64),
                2 => (r.range(1, 90) as f64, r.range(1, 180) as f64),
                4 => (r.range(-1000, 1000) as f64, r.range(-1000, 1000) as f64),
                _ => (r.range(-900_000_000, 900_000_000) as f64 / 1e7, r.range(-1_800_000_000, 1_800_000_000) as f64 / 1e7),
            })
            .collect();
        // a random grouping: split points into boxes and merge the boxes
        let cuts: Vec<usize> = (0..m).map(|_| r.below(3)).collect();
        let mut order: Vec<usize> = (0..3).collect();
        r.shuffle(&mut order);
        c.case(&format!("merge-{i}"), "merge", || format!("points (lat,lon) {pts:?} groups {cuts:?} order {order:?}"), || {
            let mut boxes: Vec<Option<BoundingBox>> = vec![None, None, None];
            for (p, g) in pts.iter().zip(&cuts) {
                let co = Coordinate::new(p.0, p.1);
                match &mut boxes[*g] {
                    None => boxes[*g] = Some(BoundingBox::from_point(&co)),
                    Some(b) => b.merge_point(&co),
                }
            }
            for g in 0..3 {
                let pg: Vec<(f64, f64)> = pts.iter().zip(&cuts).filter(|(_, k)| **k == g).map(|(p, _)| *p).collect();
                if let Some(b) = &boxes[g] {
                    if sides(b) != hull(&pg) {
                        return Err(format!("points {pg:?} merged to {:?} instead of {:?}", sides(b), hull(&pg)));
                    }
                }
            }
            let mut all: Option<BoundingBox> = None;
            for g in &order {
                if let Some(b) = &boxes[*g] {
                    match &mut all {
                        None => all = Some(b.clone()),
                        Some(a) => a.merge_bounding_box(b),
                    }
                }
            }
            let got = sides(&all.unwrap());
            if got != hull(&pts) {
                return Err(format!("merged to {got:?} instead of {:?} (left, bottom, right, top)", hull(&pts)));
            }
            Ok(())
        });
    }
    // one node alone attains each side, anywhere in a large file
    for i in 0..if c.thorough { 400 } else { 48 } {
        if !c.time_left() || c.too_many() {
            break;
        }
        let (nb, per) = [(1usize, 9000usize), (300, 20), (40, 1), (5000, 1), (9, 3000), (64, 7)][i % 6];
        let seed = r.next();
        c.case(&format!("needle-{i}"), "file", || format!("{nb} blocks of {per} nodes, four of them outermost, seed {seed:x}"), || {
            let mut q = Rng::new(seed);
            let quad = q.below(7);
            let (la0, lo0) = [(0, 0), (500_000_000, 900_000_000), (-500_000_000, -900_000_000), (500_000_000, -900_000_000), (-500_000_000, 900_000_000), (1_500_000_000, 3_500_000_000), (-1_500_000_000, -3_500_000_000)][quad];
            let mut blocks: Vec<Vec<El>> = (0..nb)
                .map(|b| (0..per).map(|j| { let mut e = El::mix(0, (b * per + j) as i64, 1); e.lat7 = la0 + q.range(-1000, 1000); e.lon7 = lo0 + q.range(-1000, 1000); e.vis = true; e }).collect())
                .collect();
            for side in 0..4 {
                let (b, j) = match i % 4 { 0 => (0, 0), 1 => (nb - 1, per - 1), _ => (q.below(nb), q.below(per)) };
                let e = &mut blocks[b][j];
                let d = q.range(1001, 300_000_000);
                match side { 0 => e.lat7 = la0 + d, 1 => e.lat7 = la0 - d, 2 => e.lon7 = lo0 + d, _ => e.lon7 = lo0 - d }
            }
            if i % 5 == 4 {
                // elements of other kinds around them
                for b in blocks.iter_mut() {
                    b.push(El::mix(1, 5, 1));
                    b.push(El::mix(2, 6, 1));
                }
            }
            let p = c.path("pbf");
            let bs: Vec<_> = blocks.iter().map(|b| raw::simple(b)).collect();
            std::fs::write(&p, file_of(&raw::default_header(), &bs, Enc::Raw)).map_err(es)?;
            let res = BoundingBoxCalculator::new(&p).calc();
            let _ = std::fs::remove_file(&p);
            let g = sides(&res.map_err(es)?);
            let h = hull(&blocks.iter().flatten().filter(|e| e.kind == 0).map(|e| ((e.lat7 * 100) as f64 / 1e9, (e.lon7 * 100) as f64 / 1e9)).collect::<Vec<_>>());
            if (0..4).any(|k| (g[k] - h[k]).abs() > 1e-12) { Err(format!("box {g:?} instead of {h:?} (left, bottom, right, top)")) } else { Ok(()) }
        });
    }
    // zero, the poles, the date line and other special values as an extreme of their own
    const SP: &[(i64, i64)] = &[(0, 0), (0, 1), (1, 0), (0, -1), (-1, 0), (900_000_000, 0), (-900_000_000, 0), (0, 1_800_000_000), (0, -1_800_000_000), (900_000_000, 1_800_000_000), (-900_000_000, -1_800_000_000), (1, 1), (-1, -1), (10_000_000, 20_000_000)];
    for (i, a) in SP.iter().enumerate() {
        for (j, b) in SP.iter().enumerate() {
            if (i + j) % 3 != 0 && !c.thorough && i != 0 && j != 0 && i != j { continue; }
            let at = |p: &(i64, i64), id: i64| { let mut e = El::node(id); e.lat7 = p.0; e.lon7 = p.1; e };
            let lists: Vec<Vec<Vec<El>>> = vec![vec![vec![at(a, 1), at(b, 2)]], vec![vec![at(a, 1)], vec![El::mix(1, 7, 1), at(b, 2)], vec![El::mix(2, 7, 1)]], vec![vec![at(b, 1), at(b, 2), at(a, 3), at(b, 4)]]];
            c.case(&format!("special-{i}-{j}"), "file", || format!("nodes at {a:?} and {b:?} (1e-7 degrees)"), || {
                let p = c.path("pbf");
                let h = hull(&[a, b].iter().map(|e| ((e.0 * 100) as f64 / 1e9, (e.1 * 100) as f64 / 1e9)).collect::<Vec<_>>());
                let same = |g: &Bx, h: &Bx| (0..4).all(|k| (g[k] - h[k]).abs() <= 1e-12);
                for l in &lists {
                    let bs: Vec<_> = l.iter().map(|b| { let runs: Vec<_> = b.iter().map(|e| (vec![e.clone()], raw::Opt::default())).collect(); raw::block(&runs, &raw::Opt::default(), true) }).collect();
                    std::fs::write(&p, file_of(&raw::default_header(), &bs, Enc::Raw)).map_err(es)?;
                    let g = sides(&BoundingBoxCalculator::new(&p).calc().map_err(es)?);
                    if !same(&g, &h) { return Err(format!("box {g:?} instead of {h:?} (left, bottom, right, top)")); }
                    // the box of one block
                    for (k, b) in Reader::new(&p).map_err(es)?.blocks().map_err(es)?.skip(1).enumerate() {
                        let FileBlock::Data { data, .. } = b else { return Err("not a data block".into()) };
                        let pts: Vec<(f64, f64)> = l[k].iter().filter(|e| e.kind == 0).map(|e| ((e.lat7 * 100) as f64 / 1e9, (e.lon7 * 100) as f64 / 1e9)).collect();
                        match (data.recompute_bounding_box(), pts.is_empty()) {
                            (None, true) => {}
                            (Some(g), false) if same(&sides(&g), &hull(&pts)) => {}
                            (g, _) => return Err(format!("block {k} holds nodes at {pts:?}, its box is {g:?}")),
                        }
                    }
                }
                let _ = std::fs::remove_file(&p);
                Ok(())
            });
        }
    }
    // small blocks decoded at the same time, each with an extreme of its own
    for i in 0..if c.thorough { 20 } else { 2usize } {
        c.case(&format!("race-{i}"), "race", || "16 blocks of one node, each further out than the one before; the box computed again and again".into(), || {
            let nb = [16usize, 5][i % 2];
            let blocks: Vec<Vec<El>> = (0..nb).map(|b| { let mut e = El::node(b as i64 + 1); let d = 10_000_000 * (b as i64 / 4 + 1); match b % 4 { 0 => e.lat7 = d, 1 => e.lat7 = -d, 2 => e.lon7 = d, _ => e.lon7 = -d }; if b % 4 < 2 { e.lon7 = 0 } else { e.lat7 = 0 }; vec![e] }).collect();
            let p = c.path("pbf");
            let bs: Vec<_> = blocks.iter().map(|b| raw::simple(b)).collect();
            std::fs::write(&p, file_of(&raw::default_header(), &bs, Enc::Raw)).map_err(es)?;
            let h = hull(&blocks.iter().flatten().map(|e| ((e.lat7 * 100) as f64 / 1e9, (e.lon7 * 100) as f64 / 1e9)).collect::<Vec<_>>());
            for k in 0..if c.thorough { 4000 } else { 800 } {
                let g = sides(&BoundingBoxCalculator::new(&p).calc().map_err(es)?);
                if (0..4).any(|k| (g[k] - h[k]).abs() > 1e-12) {
                    return Err(format!("run {k}: box {g:?} instead of {h:?} (left, bottom, right, top)"));
                }
            }
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    let files = if c.thorough { 1500 } else { 250 };
    for i in 0..files {
        if !c.time_left() || c.too_many() {
            break;
        }
        let nb = r.below(12);
        let blocks: Vec<Vec<El>> = (0..nb)
            .map(|b| {
                let mode = r.below(5);
                (0..r.below(6))
                    .map(|j| {
                        let kind = match mode { 0 => 1, 1 => 2, 2 => r.below(3) as u8, _ => 0 };
                        let mut e = El::mix(kind, (b * 10 + j) as i64 + 1, 1 + r.below(3) as i32);
                        if kind == 0 {
                            e.lat7 = r.range(-900_000_000, 900_000_000) / if r.bool() { 1 } else { 1000 };
                            e.lon7 = r.range(-1_800_000_000, 1_800_000_000) / if r.bool() { 1 } else { 1000 };
                        }
                        e
                    })
                    .collect()
            })
            .collect();
        let mut r = Rng::new(r.next());
        c.case(&format!("file-{i}"), "file", || format!("blocks {:?}", blocks.iter().map(|b| b.iter().map(|e| (e.kind, e.lat7, e.lon7)).collect::<Vec<_>>()).collect::<Vec<_>>()), || {
            let p = c.path("pbf");
            // mixed blocks are stored as one group per run of a kind, in list order
            let bs: Vec<_> = blocks
                .iter()
                .map(|b| {
                    let mut runs: Vec<(Vec<El>, raw::Opt)> = vec![];
                    for e in b {
                        match runs.last_mut() {
                            Some((v, _)) if v[0].kind == e.kind => v.push(e.clone()),
                            _ => runs.push((vec![e.clone()], raw::Opt { dense: r.chance(2, 3), info: r.chance(4, 5), ..raw::Opt::default() })),
                        }
                    }
                    raw::block(&runs, &raw::Opt::default(), true)
                })
                .collect();
            std::fs::write(&p, file_of(&raw::default_header(), &bs, if i % 3 == 0 { Enc::Zlib } else { Enc::Raw })).map_err(es)?;
            let pts: Vec<(f64, f64)> = blocks.iter().flatten().filter(|e| e.kind == 0).map(|e| ((e.lat7 * 100) as f64 / 1e9, (e.lon7 * 100) as f64 / 1e9)).collect();
            let res = BoundingBoxCalculator::new(&p).calc();
            let _ = std::fs::remove_file(&p);
            match (res, pts.is_empty()) {
                (Err(_), true) => Ok(()),
                (Ok(b), true) => Err(format!("a file without nodes has the box {b}")),
                (Err(e), false) => Err(format!("failed: {e:#}")),
                (Ok(b), false) => {
                    let (g, h) = (sides(&b), hull(&pts));
                    if (0..4).any(|k| (g[k] - h[k]).abs() > 1e-12) { Err(format!("box {g:?} instead of {h:?} (left, bottom, right, top)")) } else { Ok(()) }
                }
            }
        });
    }
    "random point sets merged in random groupings through BoundingBox, and independently built files through BoundingBoxCalculator, against the exact hull; distinct = distinct inputs".into()
}

/// Nearest integer to x*1e7 computed exactly from the f64's bits; None near a tie.
fn exact7(x: f64) -> Option<i64> {
    let bits = x.abs().to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1 << 52) - 1)) | if e == 0 { 0 } else { 1 << 52 };
    let exp = if e == 0 { -1074 } else { e - 1075 };
    // x*1e7 = m * 1e7 * 2^exp
    let p = m as u128 * 10_000_000u128;
    let v = if exp >= 0 {
        p << exp.min(40)
    } else {
        let s = (-exp) as u32;
        if s > 120 {
            return Some(0);
        }
        let q = p >> s;
        let rem = p - (q << s);
        let half = 1u128 << (s - 1);
        // the product in f64 carries an error of at most one ulp: stay away from ties
        let d = rem.abs_diff(half);
        if s > 10 && d < (half >> 20).max(1) { return None; }
        q + if rem > half { 1 } else { 0 }
    };
    Some(if x < 0.0 { -(v as i64) } else { v as i64 })
}

pub fn n16(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    // grid points, in batches
    let batches = if c.thorough { 4000 } else { 60 };
    for i in 0..batches {
        if !c.time_left() || c.too_many() {
            break;
        }
        let start = match i {
            0 => -900_000_000,
            1 => -1_800_000_000,
            2 => 0,
            3 => 1_800_000_000 - 20_000,
            4 => 900_000_000 - 20_000,
            5 => -10_000,
            // a step over the antimeridian, and as far as the contract goes
            6 => 3_600_000_000,
            7 => -9_999_980_000,
            _ => r.range(-1_800_000_000, 1_800_000_000 - 20_000),
        };
        c.case(&format!("grid-{i}"), "grid", || format!("coordinates k/1e7 for k in {start}..{}", start + 20_000), || {
            for k in start..=start + 20_000 {
                for x in [k as f64 / 1e7, k as f64 * 1e-7, (k * 100) as f64 / 1e9] {
                    let co = Coordinate::new(x, -x);
                    if co.lat7() != k || co.lon7() != -k {
                        return Err(format!("coordinate {x}: lat7 {} lon7 {} instead of {k} {}", co.lat7(), co.lon7(), -k));
                    }
                    let y = Coordinate::new(-x, x);
                    if y.lat7() != -k || y.lon7() != k {
                        return Err(format!("coordinate {x}: lon7 {} instead of {k}", y.lon7()));
                    }
                }
            }
            Ok(())
        });
    }
    // the whole grid, in the thorough tier, as far as time allows
    if c.thorough {
        let step = 20_000_000i64;
        let mut k0 = -1_800_000_000i64;
        while k0 < 1_800_000_000 {
            if !c.time_left() { break; }
            c.case(&format!("sweep-{k0}"), "grid", || format!("coordinates k/1e7 for every k in {k0}..{}", k0 + step), || {
                for k in k0..k0 + step {
                    let co = Coordinate::new(k as f64 / 1e7, k as f64 / 1e7);
                    if co.lat7() != k || co.lon7() != k {
                        return Err(format!("coordinate {k}e-7: lat7 {} lon7 {}", co.lat7(), co.lon7()));
                    }
                }
                Ok(())
            });
            k0 += step;
        }
    }
    for i in 0..if c.thorough { 400 } else { 40 } {
        let seed = r.next();
        c.case(&format!("any-{i}"), "nearest", || format!("5000 arbitrary coordinates, seed {seed:x}"), || {
            let mut q = Rng::new(seed);
            for _ in 0..5000 {
                let x = (q.next() as f64 / u64::MAX as f64 * 2.0 - 1.0) * 10f64.powi(q.range(-9, 2) as i32) * 1.8;
                if let Some(e) = exact7(x) {
                    let co = Coordinate::new(x, x);
                    if co.lat7() != e || co.lon7() != e {
                        return Err(format!("coordinate {x:e}: lat7 {} lon7 {} nearest {e}", co.lat7(), co.lon7()));
                    }
                }
            }
            Ok(())
        });
    }
    // tiles, through the dump writer
    let scaled = |k: i64, off: i64, span: i64| -> Option<i64> {
        let num = (k + off) as i128 * 65535 * 2;
        let den = span as i128 * 2;
        let q = num / den;
        let rem = num - q * den;
        let half = den / 2;
        if rem != half && (rem - half).abs() <= den / 1_000_000 { None } else { Some((q + if rem >= half { 1 } else { 0 }) as i64) }
    };
    let mut pts: Vec<(i64, i64)> = vec![];
    for la in [-900_000_000i64, 900_000_000, 0, 1, -1, 899_999_999, -899_999_999, 515_000_000] {
        for lo in [-1_800_000_000i64, 1_800_000_000, 0, 1, -1, 1_799_999_999, -1_799_999_999, -1_230_000] {
            pts.push((la, lo));
        }
    }
    // each cell boundary region: values whose scaled form is near every power of two
    for b in 0..16 {
        for d in [-1i64, 0, 1] {
            let lo = ((1i64 << b) + d) * 3_600_000_000 / 65535 - 1_800_000_000;
            let la = ((1i64 << b) - d) * 1_800_000_000 / 65535 - 900_000_000;
            pts.push((la.clamp(-900_000_000, 900_000_000), lo.clamp(-1_800_000_000, 1_800_000_000)));
        }
    }
    // whole degrees; every sixth (twelfth) one lies exactly between two cells
    for d in -90..=90i64 {
        pts.push((d * 10_000_000, 2 * d * 10_000_000));
        pts.push((d * 10_000_000, (1 - 2 * d).clamp(-180, 180) * 10_000_000));
    }
    for _ in 0..if c.thorough { 200_000 } else { 4000 } {
        pts.push((r.range(-900_000_000, 900_000_000), r.range(-1_800_000_000, 1_800_000_000)));
    }
    for (ci, ch) in pts.chunks(1000).enumerate() {
        if !c.time_left() && ci > 1 { break; }
        c.case(&format!("tile-{ci}"), "tile", || format!("{} positions starting at (lat7, lon7) {:?}", ch.len(), ch[0]), || {
            let els: Vec<El> = ch.iter().enumerate().map(|(i, (la, lo))| { let mut e = El::node(i as i64 + 1); e.lat7 = *la; e.lon7 = *lo; e }).collect();
            let d = crate::dump::write_dump(c, &els)?;
            for table in ["nodes", "current_nodes"] {
                let t = d.table(table)?;
                let idc = if table == "nodes" { "node_id" } else { "id" };
                if t.rows.len() != els.len() {
                    return Err(format!("{} rows in {table}", t.rows.len()));
                }
                for row in &t.rows {
                    let id: usize = t.get(row, idc)?.parse().map_err(|_| "id")?;
                    let (la, lo) = ch[id - 1];
                    if t.get(row, "latitude")? != la.to_string() || t.get(row, "longitude")? != lo.to_string() {
                        return Err(format!("{table}: position {:?} written as {row:?}", (la, lo)));
                    }
                    if let (Some(x), Some(y)) = (scaled(lo, 1_800_000_000, 3_600_000_000), scaled(la, 900_000_000, 1_800_000_000)) {
                        let mut tile = 0u64;
                        for b in 0..16 {
                            tile |= ((x as u64 >> b) & 1) << (2 * b + 1);
                            tile |= ((y as u64 >> b) & 1) << (2 * b);
                        }
                        let got = t.get(row, "tile")?;
                        if got != tile.to_string() {
                            return Err(format!("{table}: tile of (lat7, lon7) {:?} is {got}, the interleave of x={x} y={y} is {tile}", (la, lo)));
                        }
                    }
                }
            }
            d.remove();
            Ok(())
        });
    }
    "Coordinate::lat7/lon7 on 1e-7 grid batches (whole grid in the thorough tier) and arbitrary values against exact arithmetic; tile column written by the apidb writer against an exact interleave; distinct = distinct batches".into()
}
