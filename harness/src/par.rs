//! N12-N14, N23: parallel reading and writing, thread-local accumulators.
use crate::ctx::{guard, Ctx, Rng};
use crate::model::El;
use crate::pbf::{check_blocks, comp, data_elements, file_of};
use crate::raw::{self, Enc};
use osm_io::osm::pbf::file_info::FileInfo;
use osm_io::osm::pbf::parallel_writer::ParallelWriter;
use osm_io::osm::pbf::reader::Reader;
use osm_io::osm::pbf::thread_local_accumulator::ThreadLocalAccumulator;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;

fn es<T: std::fmt::Display>(e: T) -> String {
    format!("{e:#}")
}

type Calls = Arc<Mutex<HashMap<ThreadId, Vec<El>>>>;

fn record(calls: &Calls, e: El) {
    calls.lock().unwrap().entry(std::thread::current().id()).or_default().push(e);
}

fn n12_file(c: &Ctx, blocks: &[Vec<El>]) -> Result<std::path::PathBuf, String> {
    let p = c.path("pbf");
    let bs: Vec<_> = blocks.iter().map(|b| raw::simple(b)).collect();
    std::fs::write(&p, file_of(&raw::default_header(), &bs, Enc::Raw)).map_err(es)?;
    Ok(p)
}

pub fn n12(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 5000 } else { 400 };
    let mut id = 0i64;
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let nb = if i == 0 { 1500 } else { r.below(14) };
        let blocks: Vec<Vec<El>> = (0..nb)
            .map(|_| {
                let k = r.below(4) as u8;
                (0..if r.chance(1, 4) { 0 } else { r.below(6) }).map(|_| { id += 1; El::mix(if k == 3 { r.below(3) as u8 } else { k }, id, 1) }).collect::<Vec<El>>()
            })
            .map(|mut b: Vec<El>| { b.sort_by_key(|e| e.kind); b })
            .collect();
        let tasks = 1 + r.below(8);
        let fail_at: Option<i64> = if r.chance(1, 3) && id > 0 { blocks.iter().flatten().map(|e| e.id).nth(r.below(20)) } else { None };
        let fail_on_sentinel = fail_at.is_none() && r.chance(1, 12) && nb > 0;
        c.case(&format!("random-{i}"), "parallel", || format!("tasks={tasks} blocks={:?} fail_at={fail_at:?} fail_on_first_sentinel={fail_on_sentinel}", blocks.iter().map(|b| b.iter().map(|e| (e.kind, e.id)).collect::<Vec<_>>()).collect::<Vec<_>>()), || {
            let p = n12_file(c, &blocks)?;
            let rd = Reader::new(&p).map_err(es)?;
            let calls: Calls = Default::default();
            let c2 = calls.clone();
            let done = Arc::new(AtomicBool::new(false));
            let late = Arc::new(AtomicUsize::new(0));
            let (d2, l2) = (done.clone(), late.clone());
            let once = Arc::new(AtomicBool::new(false));
            let res = rd.parallel_for_each(tasks, move |e| {
                if d2.load(Ordering::SeqCst) {
                    l2.fetch_add(1, Ordering::SeqCst);
                }
                let e = El::from(&e);
                let k = e.kind;
                let eid = e.id;
                if eid % 3 == 0 {
                    std::thread::yield_now();
                }
                record(&c2, e);
                if k != 3 && Some(eid) == fail_at {
                    return Err(anyhow::anyhow!("told to fail"));
                }
                if k == 3 && fail_on_sentinel && !once.swap(true, Ordering::SeqCst) {
                    return Err(anyhow::anyhow!("told to fail"));
                }
                Ok(())
            });
            done.store(true, Ordering::SeqCst);
            let calls = calls.lock().unwrap().clone();
            if fail_at.is_some() || fail_on_sentinel {
                if res.is_ok() {
                    return Err("the function failed but parallel_for_each returned success".into());
                }
                if let Some(f) = fail_at {
                    let b: Vec<i64> = blocks.iter().find(|b| b.iter().any(|e| e.id == f)).unwrap().iter().map(|e| e.id).collect();
                    let at = b.iter().position(|x| *x == f).unwrap();
                    for seq in calls.values() {
                        for e in seq {
                            if e.kind != 3 && b[at + 1..].contains(&e.id) {
                                return Err(format!("element {} of the failing block was visited after the failure at {f}", e.id));
                            }
                        }
                        // nor the sentinel of that block
                        if let Some(k) = seq.iter().position(|e| e.kind != 3 && e.id == f) {
                            if let Some(nx) = seq.get(k + 1) {
                                if nx.kind == 3 && !blocks.iter().any(|b| b.is_empty()) {
                                    return Err(format!("the sentinel of the failing block followed the failure at {f}"));
                                }
                            }
                        }
                    }
                }
                let _ = std::fs::remove_file(&p);
                return Ok(());
            }
            res.map_err(es)?;
            // every thread's calls are whole blocks, each closed by a sentinel
            let mut got: Vec<Vec<(u8, i64)>> = vec![];
            for seq in calls.values() {
                let mut cur = vec![];
                for e in seq {
                    if e.kind == 3 {
                        got.push(std::mem::take(&mut cur));
                    } else {
                        cur.push((e.kind, e.id));
                    }
                }
                if !cur.is_empty() {
                    return Err(format!("elements {cur:?} were not followed by a sentinel"));
                }
            }
            let mut exp: Vec<Vec<(u8, i64)>> = blocks.iter().map(|b| b.iter().map(|e| (e.kind, e.id)).collect()).collect();
            got.sort();
            exp.sort();
            if got != exp {
                return Err(format!("visited blocks {got:?}, stored {exp:?}"));
            }
            // the same reader again
            let again = Arc::new(AtomicUsize::new(0));
            let a2 = again.clone();
            rd.parallel_for_each(1 + i % 5, move |_| { a2.fetch_add(1, Ordering::SeqCst); Ok(()) }).map_err(es)?;
            let total = blocks.iter().map(|b| b.len() + 1).sum::<usize>();
            if again.load(Ordering::SeqCst) != total {
                return Err(format!("a second pass made {} calls instead of {total}", again.load(Ordering::SeqCst)));
            }
            let cnt = rd.count_objects().map_err(es)?;
            let k = |k: u8| blocks.iter().flatten().filter(|e| e.kind == k).count() as i64;
            if cnt != (k(0), k(1), k(2)) {
                return Err(format!("count_objects reported {cnt:?}, the file holds {:?}", (k(0), k(1), k(2))));
            }
            if late.load(Ordering::SeqCst) != 0 {
                return Err("the function was called after parallel_for_each had returned".into());
            }
            let _ = std::fs::remove_file(&p);
            Ok(())
        });
    }
    for v in 0..24 {
        c.case(&format!("minimal-{v}"), "parallel", || format!("two blocks with elements among blocks of a few bytes, variant {v}"), || {
            let (bytes, blocks) = crate::pbf::minimal_file(v);
            let p = c.path("pbf");
            std::fs::write(&p, bytes).map_err(es)?;
            let calls: Calls = Default::default();
            let c2 = calls.clone();
            let rd = Reader::new(&p).map_err(es)?;
            rd.parallel_for_each(1 + v % 4, move |e| { record(&c2, El::from(&e)); Ok(()) }).map_err(es)?;
            let all: Vec<El> = calls.lock().unwrap().values().flatten().cloned().collect();
            let mut ids: Vec<i64> = all.iter().filter(|e| e.kind != 3).map(|e| e.id).collect();
            ids.sort();
            let (s, cnt) = (all.iter().filter(|e| e.kind == 3).count(), rd.count_objects().map_err(es)?);
            let _ = std::fs::remove_file(&p);
            if ids != [1, 2, 3] || s != blocks { return Err(format!("elements {ids:?} and {s} sentinels for {blocks} blocks")); }
            if cnt != (1, 2, 0) { Err(format!("count_objects reported {cnt:?}")) } else { Ok(()) }
        });
    }
    // a slow call must be waited for
    for tasks in [1usize, 3, 8] {
        c.case(&format!("slow-{tasks}"), "wait", || format!("12 blocks, every call sleeps, {tasks} tasks"), || {
            let blocks: Vec<Vec<El>> = (0..12).map(|b| (0..2).map(|i| El::node(b * 10 + i + 1)).collect()).collect();
            let p = n12_file(c, &blocks)?;
            let n = Arc::new(AtomicUsize::new(0));
            let n2 = n.clone();
            Reader::new(&p).map_err(es)?.parallel_for_each(tasks, move |_| {
                std::thread::sleep(std::time::Duration::from_millis(3));
                n2.fetch_add(1, Ordering::SeqCst);
                Ok(())
            }).map_err(es)?;
            let k = n.load(Ordering::SeqCst);
            if k != 36 { Err(format!("{k} of 36 calls had finished on return")) } else { Ok(()) }
        });
    }
    // a caller that asks for no tasks at all gets its elements too
    c.case("tasks-0", "parallel", || "tasks=0, 5 blocks of two elements".into(), || {
        let blocks: Vec<Vec<El>> = (0..5).map(|b| (0..2).map(|i| El::node(b * 10 + i + 1)).collect()).collect();
        let p = n12_file(c, &blocks)?;
        let n = Arc::new(AtomicUsize::new(0));
        let n2 = n.clone();
        Reader::new(&p).map_err(es)?.parallel_for_each(0, move |_| { n2.fetch_add(1, Ordering::SeqCst); Ok(()) }).map_err(es)?;
        let _ = std::fs::remove_file(&p);
        let k = n.load(Ordering::SeqCst);
        if k != 15 { Err(format!("{k} of 15 calls were made")) } else { Ok(()) }
    });
    // large blocks, many blocks, many tasks
    for (tasks, sizes) in [(1usize, vec![8000usize, 1, 8001]), (4, vec![8000, 8000, 8000, 3]), (16, vec![12_000, 0, 1, 12_000]), (64, vec![1; 700]), (3, vec![70_000]), (2, vec![2; 4000]), (200, vec![3; 5])] {
        c.case(&format!("large-{tasks}-{}", sizes.len()), "parallel", || format!("tasks={tasks}, {} blocks of up to {:?} elements", sizes.len(), sizes.iter().max()), || {
            let mut id = 0;
            let blocks: Vec<Vec<El>> = sizes.iter().enumerate().map(|(b, n)| (0..*n).map(|_| { id += 1; El::mix((b % 3) as u8, id, 1) }).collect()).collect();
            let p = n12_file(c, &blocks)?;
            let calls: Calls = Default::default();
            let c2 = calls.clone();
            let rd = Reader::new(&p).map_err(es)?;
            rd.parallel_for_each(tasks, move |e| { record(&c2, El::from(&e)); Ok(()) }).map_err(es)?;
            let calls = calls.lock().unwrap().clone();
            let mut got: Vec<Vec<El>> = vec![];
            for seq in calls.values() {
                let mut cur = vec![];
                for e in seq {
                    if e.kind == 3 { got.push(std::mem::take(&mut cur)); } else { cur.push(e.clone()); }
                }
                if !cur.is_empty() {
                    return Err(format!("{} elements were not followed by a sentinel", cur.len()));
                }
            }
            got.sort_by_key(|b| b.first().map(|e| e.id));
            let mut exp = blocks.clone();
            exp.sort_by_key(|b| b.first().map(|e| e.id));
            if got.len() != exp.len() {
                return Err(format!("{} blocks visited, {} stored", got.len(), exp.len()));
            }
            for (a, b) in exp.iter().zip(&got) {
                crate::model::diff(a, b)?;
            }
            let k = |k: u8| blocks.iter().flatten().filter(|e| e.kind == k).count() as i64;
            let cnt = rd.count_objects().map_err(es)?;
            let _ = std::fs::remove_file(&p);
            if cnt != (k(0), k(1), k(2)) { Err(format!("count_objects reported {cnt:?}, the file holds {:?}", (k(0), k(1), k(2)))) } else { Ok(()) }
        });
    }
    // every worker is inside a call when the last block is handed out (more than 1024 workers are
    // the proof's: idle workers spin, and take minutes to get going here)
    for (tasks, ms) in [(2usize, 200u64), (9, 200), (40, 200), (120, 400)] {
        c.case(&format!("busy-{tasks}"), "parallel", || format!("tasks={tasks}, {tasks} blocks of one element; no call returns before every block is being visited (or {ms} ms have passed)"), || {
            let blocks: Vec<Vec<El>> = (0..tasks as i64).map(|i| vec![El::mix((i % 3) as u8, i, 1)]).collect();
            let p = n12_file(c, &blocks)?;
            let n = Arc::new(AtomicUsize::new(0));
            let gate = Arc::new((Mutex::new(0usize), std::sync::Condvar::new()));
            let (n2, g2) = (n.clone(), gate.clone());
            let r = Reader::new(&p).map_err(es)?.parallel_for_each(tasks, move |e| {
                if !e.is_sentinel() {
                    let (m, cv) = &*g2;
                    let mut k = m.lock().unwrap();
                    *k += 1;
                    if *k >= tasks {
                        cv.notify_all();
                    }
                    drop(cv.wait_timeout_while(k, std::time::Duration::from_millis(ms), |k| *k < tasks).unwrap());
                    // the main thread has handed out the last block and is about to stop the pool
                    std::thread::sleep(std::time::Duration::from_millis(300));
                }
                n2.fetch_add(1, Ordering::SeqCst);
                Ok(())
            });
            let _ = std::fs::remove_file(&p);
            r.map_err(es)?;
            let k = n.load(Ordering::SeqCst);
            if k != 2 * tasks { Err(format!("{k} of {} calls were made", 2 * tasks)) } else { Ok(()) }
        });
    }
    // deleted elements and later versions are elements too
    c.case("count-history", "count", || "deleted and visible elements of versions 0 to 9".into(), || {
        let blocks: Vec<Vec<El>> = (0..3u8).map(|k| (0..20 + k as i64).map(|i| { let mut e = El::mix(k, i / 4 + 1, (i % 10) as i32); e.vis = i % 3 != 0; e }).collect()).collect();
        let p = n12_file(c, &blocks)?;
        let cnt = Reader::new(&p).map_err(es)?.count_objects().map_err(es)?;
        let _ = std::fs::remove_file(&p);
        if cnt != (20, 21, 22) { Err(format!("count_objects reported {cnt:?}, the file holds 20, 21 and 22")) } else { Ok(()) }
    });
    // every element counted once, whatever the threads do at the same time
    c.case("count-many", "count", || "240 blocks of 250 nodes, ways or relations, counted 12 times".into(), || {
        let mut id = 0;
        let blocks: Vec<Vec<El>> = (0..240).map(|b| (0..250).map(|_| { id += 1; let mut e = El::of((b % 3) as u8, id, 1); e.tags.clear(); e.refs.clear(); e }).collect()).collect();
        let p = n12_file(c, &blocks)?;
        let rd = Reader::new(&p).map_err(es)?;
        for i in 0..if c.thorough { 100 } else { 12 } {
            let cnt = rd.count_objects().map_err(es)?;
            if cnt != (20_000, 20_000, 20_000) {
                return Err(format!("run {i}: count_objects reported {cnt:?}, the file holds 20000 of each kind"));
            }
        }
        let _ = std::fs::remove_file(&p);
        Ok(())
    });
    // one failing call, early or late, fast or slow, in any position, must surface
    for t in 0..if c.thorough { 2000 } else { 240 } {
        if !c.time_left() || c.too_many() {
            break;
        }
        let tasks = [1usize, 2, 3, 4, 8][t % 5];
        let nb = 1 + r.below(12);
        let per = 1 + r.below(4);
        let which = match t % 4 { 0 => nb - 1, 1 => 0, _ => r.below(nb) };
        let pos = match t % 3 { 0 => per, 1 => per - 1, _ => r.below(per + 1) }; // `per` is the sentinel
        let slow_fail = t % 2 == 0;
        let two = t % 7 == 6;
        c.case(&format!("fail-{t}"), "failure", || format!("tasks={tasks}, {nb} blocks of {per} ways, the call number {pos} of block {which} fails (slow: {slow_fail}, block 0 too: {two})"), || {
            let blocks: Vec<Vec<El>> = (0..nb).map(|b| (0..per).map(|i| El::of(1, (b * 10 + i + 1) as i64, 1)).collect()).collect();
            let p = n12_file(c, &blocks)?;
            let rd = Reader::new(&p).map_err(es)?;
            let after: Arc<Mutex<HashMap<ThreadId, i64>>> = Default::default();
            let bad = Arc::new(AtomicUsize::new(0));
            let (a2, b2) = (after.clone(), bad.clone());
            let res = rd.parallel_for_each(tasks, move |e| {
                let e = El::from(&e);
                let mut last = a2.lock().unwrap();
                let slot = last.entry(std::thread::current().id()).or_insert(-1);
                let block = if e.kind == 3 { *slot } else { (e.id - 1) / 10 };
                let at = if e.kind == 3 { per } else { ((e.id - 1) % 10) as usize };
                *slot = block;
                drop(last);
                let fails = (block as usize == which || (two && block == 0)) && at == pos;
                if (block as usize == which || (two && block == 0)) && at > pos && e.kind != 3 {
                    b2.fetch_add(1, Ordering::SeqCst);
                }
                if fails == slow_fail {
                    std::thread::sleep(std::time::Duration::from_micros(if fails { 3000 } else { 100 }));
                }
                if fails { Err(anyhow::anyhow!("told to fail")) } else { Ok(()) }
            });
            let _ = std::fs::remove_file(&p);
            if res.is_ok() {
                return Err("the function failed but parallel_for_each returned success".into());
            }
            if bad.load(Ordering::SeqCst) != 0 {
                return Err("an element of the failing block was visited after the failing one".into());
            }
            Ok(())
        });
    }
    // damaged block: an error, not success
    for nb in [1usize, 2, 5, 30] {
        for at in [0, nb / 2, nb - 1] {
            for (tasks, how) in [(1usize, 0u8), (2, 0), (8, 0), (1, 1), (4, 1), (1, 2), (4, 2)] {
                c.case(&format!("bad-block-{nb}-{at}-{tasks}-{how}"), "bad-block", || format!("block {at} of {nb} {}, {tasks} tasks", ["cannot be decoded", "has an empty body", "is of an unknown type"][how as usize]), || {
                    let mut out = vec![];
                    raw::push_header(&mut out, &raw::default_header(), Enc::Raw);
                    for b in 0..nb {
                        if b == at {
                            match how {
                                0 => raw::frame(&mut out, "OSMData", &[0xff; 20], None),
                                1 => raw::frame(&mut out, "OSMData", &[], None),
                                _ => raw::frame(&mut out, "OSMOther", &[0x08, 0x00, 0x0a, 0x00], None),
                            }
                        } else { raw::push_block(&mut out, &raw::simple(&[El::node(b as i64)]), Enc::Raw); }
                    }
                    let p = c.path("pbf");
                    std::fs::write(&p, out).map_err(es)?;
                    let rd = Reader::new(&p).map_err(es)?;
                    if rd.parallel_for_each(tasks, |_| Ok(())).is_ok() {
                        return Err("reported success".into());
                    }
                    if rd.count_objects().is_ok() {
                        return Err("count_objects reported success".into());
                    }
                    let _ = std::fs::remove_file(&p);
                    Ok(())
                });
            }
        }
    }
    "independently built files visited with parallel_for_each for 1-8 tasks; per-thread call sequences must split into exactly the stored blocks each closed by a sentinel; failing calls; count_objects; distinct = distinct (file, tasks, failure)".into()
}

#[derive(Clone, Debug)]
struct Plan {
    buffer: usize,
    block: usize,
    z: bool,
    /// chunks of elements; singles use write_element
    chunks: Vec<Vec<El>>,
}

/// Write the plan's elements to `p`.
fn write_plan(pl: &Plan, p: &std::path::Path) -> Result<Result<(), String>, String> {
    guard(|| -> Result<(), String> {
        let mut w = ParallelWriter::from_file_info(pl.buffer, pl.block, p.to_path_buf(), FileInfo::default(), comp(pl.z)).map_err(es)?;
        w.write_header().map_err(es)?;
        let mut res = Ok(());
        for ch in &pl.chunks {
            let r = if ch.len() == 1 { w.write_element(ch[0].element()) } else { w.write_elements(ch.iter().map(|e| e.element()).collect()) };
            if let Err(e) = r {
                res = Err(es(e));
                break;
            }
        }
        let cl = w.close().map_err(es);
        res.and(cl)
    })
}

/// `child n13 PLANFILE OUT`: run a plan of keys; exit 0 on success, 3 on a reported failure.
pub fn child(a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[0]).unwrap_or_default();
    let mut lines = t.lines();
    let head: Vec<usize> = lines.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
    let chunks = lines
        .map(|l| l.split(';').filter(|k| !k.is_empty()).map(|k| { let v: Vec<i64> = k.split(',').filter_map(|x| x.parse().ok()).collect(); if v[0] == 3 { El::sentinel() } else { El::mix(v[0] as u8, v[1], v[2] as i32) } }).collect())
        .collect();
    let pl = Plan { buffer: head[0], block: head[1], z: head[2] == 1, chunks };
    match write_plan(&pl, std::path::Path::new(&a[1])) {
        Ok(Ok(())) => 0,
        _ => 3,
    }
}

/// Ok(None): reported failure. Ok(Some(blobs)): success.
/// A writer that failed leaves its worker threads spinning, so plans that may fail run in a process of their own.
fn run_plan(c: &Ctx, pl: &Plan, isolate: bool) -> Result<Option<Vec<raw::RawBlob>>, String> {
    // a third of the plans replace an older, longer file
    let p = if pl.chunks.len() % 3 == 1 { c.used_path("pbf", 400_000) } else { c.path("pbf") };
    let r = if isolate {
        let f = c.path("plan");
        let mut t = format!("{} {} {}\n", pl.buffer, pl.block, pl.z as u8);
        for ch in &pl.chunks {
            t.push_str(&ch.iter().map(|e| format!("{},{},{}", e.kind, e.id, e.ver)).collect::<Vec<_>>().join(";"));
            t.push('\n');
        }
        std::fs::write(&f, t).map_err(es)?;
        let st = std::process::Command::new(std::env::current_exe().map_err(es)?).args(["child", "n13"]).arg(&f).arg(&p).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(es)?;
        let _ = std::fs::remove_file(&f);
        match st.code() {
            Some(0) => Ok(Ok(())),
            _ => Ok(Err("failed".to_string())),
        }
    } else {
        write_plan(pl, &p)
    };
    match r {
        Ok(Ok(())) => {
            let b = raw::parse(&std::fs::read(&p).map_err(es)?)?;
            let _ = std::fs::remove_file(&p);
            Ok(Some(b))
        }
        _ => {
            let _ = std::fs::remove_file(&p);
            Ok(None)
        }
    }
}

fn sorted(chunks: &[Vec<El>]) -> Vec<El> {
    let mut v: Vec<El> = chunks.iter().flatten().filter(|e| e.kind != 3).cloned().collect();
    v.sort_by_key(|e| e.key());
    v
}

fn check_plan(c: &Ctx, pl: &Plan, must_succeed: bool) -> Result<(), String> {
    match run_plan(c, pl, !must_succeed)? {
        None => {
            if must_succeed {
                Err("the writer reported failure although the order could be restored".into())
            } else {
                Ok(())
            }
        }
        Some(blobs) => check_blocks(&blobs, &sorted(&pl.chunks), pl.block, false),
    }
}

fn base_stream(r: &mut Rng, n: [usize; 3]) -> Vec<El> {
    let mut v = vec![];
    for k in 0..3u8 {
        let mut id = r.range(-20, 20);
        let mut ver = 1;
        for _ in 0..n[k as usize] {
            if r.chance(1, 4) { ver += 1 } else { id += r.range(1, 5); ver = 1 }
            v.push(El::mix(k, id, ver));
        }
    }
    v
}

fn chunked(r: &mut Rng, v: Vec<El>, max: usize) -> Vec<Vec<El>> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let n = (1 + r.below(max)).min(v.len() - i);
        out.push(v[i..i + n].to_vec());
        i += n;
    }
    out
}

pub fn n13(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let go = |id: String, key: &str, pl: Plan, must: bool| {
        c.case(&id, key, || format!("buffer={} block={} zlib={} chunks={:?} must_succeed={must}", pl.buffer, pl.block, pl.z, pl.chunks.iter().map(|c| c.iter().map(|e| e.key()).collect::<Vec<_>>()).collect::<Vec<_>>()), || check_plan(c, &pl, must));
    };
    // sorted streams, sentinels allowed
    let n = if c.thorough { 1500 } else { 250 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let counts = [r.below(60), if r.chance(1, 3) { 0 } else { r.below(40) }, if r.chance(1, 3) { 0 } else { r.below(30) }];
        let buffer = *r.pick(&[0usize, 1, 2, 5, 10, 20, 50, 1000]);
        let block = *r.pick(&[1usize, 2, 3, 7, 10, 20, 8000]);
        let mut v = base_stream(&mut r, counts);
        let mode = r.below(5);
        match mode {
            0 => {
                let mut s = v.clone();
                let mut k = 0;
                while k < s.len() {
                    if r.chance(1, 6) {
                        s.insert(k, El::sentinel());
                        k += 1;
                    }
                    k += 1;
                }
                s.push(El::sentinel());
                let chunks = chunked(&mut r, s, 6);
                go(format!("sentinels-{i}"), "sentinel", Plan { buffer, block, z: r.bool(), chunks }, true);
            }
            1 => {
                let chunks = chunked(&mut r, v, 6);
                go(format!("sorted-{i}"), "sorted", Plan { buffer, block, z: r.bool(), chunks }, true);
            }
            2 => {
                // disorder within windows small enough for the buffer, delivered one by one
                let (buffer, block) = (10 + r.below(30), 1 + r.below(8));
                let w = (buffer + 1).saturating_sub(block).max(1);
                for ch in v.chunks_mut(w) {
                    r.shuffle(ch);
                }
                let chunks = v.into_iter().map(|e| vec![e]).collect();
                go(format!("window-{i}"), "window", Plan { buffer, block, z: r.bool(), chunks }, true);
            }
            3 => {
                // everything fits the buffer: any order must be restored
                r.shuffle(&mut v);
                let chunks = chunked(&mut r, v, 9);
                go(format!("all-buffered-{i}"), "buffered", Plan { buffer: 100_000, block, z: r.bool(), chunks }, true);
            }
            _ => {
                // arbitrary order: restored or refused
                for _ in 0..1 + r.below(4) {
                    if v.len() > 1 {
                        let a = r.below(v.len());
                        let b = (a + r.below(40)).min(v.len() - 1);
                        v.swap(a, b);
                    }
                }
                let chunks = chunked(&mut r, v, 4);
                go(format!("disorder-{i}"), "late", Plan { buffer, block, z: r.bool(), chunks }, false);
            }
        }
    }
    // big streams: many blocks, block sizes above and below the buffer, equal keys, descending order
    for (t, (n, buffer, block)) in [(20_000usize, 9000usize, 8000usize), (20_000, 100, 8000), (9000, 8000, 10), (3000, 3000, 1), (5000, 50, 7), (16_001, 0, 8000), (8001, 8001, 8001)].into_iter().enumerate() {
        let v: Vec<El> = (0..n).map(|i| El::of([0u8, 0, 1, 1, 2][i * 5 / n], (i / 3) as i64, (i % 3) as i32)).collect();
        go(format!("big-{t}"), "sorted", Plan { buffer, block, z: t % 2 == 0, chunks: v.chunks([1usize, 10, 977, 30_000][t % 4]).map(|c| c.to_vec()).collect() }, true);
        let mut w = v.clone();
        w.reverse();
        go(format!("big-reverse-{t}"), "buffered", Plan { buffer: n + 1, block, z: false, chunks: w.chunks(333).map(|c| c.to_vec()).collect() }, true);
        let mut w = v.clone();
        for i in (1..w.len()).step_by(2) {
            w.swap(i - 1, i);
        }
        go(format!("big-swapped-{t}"), "window", Plan { buffer, block, z: false, chunks: w.into_iter().map(|e| vec![e]).collect() }, buffer > block);
    }
    for t in 0..12usize {
        let mut v = vec![];
        for i in 0..120i64 {
            for k in 0..1 + (i as usize + t) % 3 {
                let mut e = El::of((i / 50) as u8, i, 1);
                e.cs = k as i64;
                v.push(e);
            }
        }
        go(format!("equal-keys-{t}"), "sorted", Plan { buffer: [0usize, 1, 7, 40][t % 4], block: [1usize, 2, 5, 50][t / 3], z: false, chunks: v.chunks(1 + t % 5).map(|c| c.to_vec()).collect() }, true);
    }
    // an element that arrives after a greater one was emitted
    for (buffer, block, late, at) in [(10usize, 5usize, 3i64, 25usize), (10, 5, 1, 16), (4, 4, 2, 9), (0, 1, 1, 3), (20, 7, 6, 60), (10, 5, 4, 11), (3, 2, 2, 6)] {
        for ways in [false, true] {
            let k = if ways { 1u8 } else { 0 };
            let mut v: Vec<El> = (1..=80i64).filter(|i| *i != late).map(|i| El::mix(k, i, 1)).collect();
            v.insert(at.min(v.len()), El::mix(k, late, 1));
            let chunks = v.into_iter().map(|e| vec![e]).collect();
            go(format!("late-{buffer}-{block}-{late}-{at}-{ways}"), "late", Plan { buffer, block, z: false, chunks }, false);
        }
    }
    // a late element of each kind, at any position of a large batch
    for k in 0..3u8 {
        for (batch, at) in [(1usize, 300usize), (50, 349), (200, 399), (200, 260), (500, 799), (500, 999)] {
            let mut v: Vec<El> = (0..if k == 0 { 0 } else { 20i64 }).map(|i| El::mix(0, i, 1)).collect();
            v.extend((0..1000i64).map(|i| El::mix(k, 2 * i, 1)));
            v.insert(at.max(v.len() - 1000 + 30), El::mix(k, 1, 1));
            let mut chunks: Vec<Vec<El>> = v.chunks(batch).map(|c| c.to_vec()).collect();
            // single elements first, so that blocks are emitted before the batch
            let first: Vec<El> = chunks.remove(0);
            for (i, e) in first.into_iter().enumerate() { chunks.insert(i, vec![e]); }
            go(format!("late-batch-{k}-{batch}-{at}"), "late", Plan { buffer: 4, block: 2, z: false, chunks }, false);
        }
        // late by one place within the last block emitted
        for block in [2usize, 3, 10] {
            let mut v: Vec<El> = (0..4 * block as i64).map(|i| El::mix(k, 2 * i, 1)).collect();
            // with no buffer, the first blocks are out once they are full
            v.push(El::mix(k, 6 * block as i64 + 1, 1));
            v.extend((4 * block as i64..40).map(|i| El::mix(k, 2 * i, 1)));
            go(format!("late-in-last-{k}-{block}"), "late", Plan { buffer: block - 1, block, z: false, chunks: v.into_iter().map(|e| vec![e]).collect() }, false);
        }
    }
    // one very large batch
    {
        let v: Vec<El> = (0..70_000i64).map(|i| El::of((i / 30_000) as u8, i, 1)).collect();
        go("big-batch".into(), "sorted", Plan { buffer: 10, block: 8000, z: true, chunks: vec![v] }, true);
    }
    // a node after ways were emitted, delivered in a batch
    for batch in [1usize, 3] {
        let mut v: Vec<El> = (1..=10i64).map(|i| El::mix(0, i, 1)).collect();
        v.extend((1..=60i64).map(|i| El::mix(1, i, 1)));
        v.push(El::mix(0, 11, 1));
        v.extend((61..=90i64).map(|i| El::mix(1, i, 1)));
        let chunks = v.chunks(batch).map(|c| c.to_vec()).collect();
        go(format!("late-node-{batch}"), "late", Plan { buffer: 8, block: 4, z: false, chunks }, false);
    }
    // a long late stream must end in an error too, not in a stuck queue
    {
        let mut v: Vec<El> = (1..=50i64).map(|i| El::mix(0, i, 1)).collect();
        v.push(El::mix(0, 1, 1));
        v.extend((51..=900i64).map(|i| El::mix(0, i, 1)));
        let chunks = v.into_iter().map(|e| vec![e]).collect();
        go("late-then-long".into(), "late", Plan { buffer: 10, block: 5, z: false, chunks }, false);
    }
    // several writers at once do not mix
    c.case("two-writers", "two-writers", || "two parallel writers used alternately".into(), || {
        let mk = |base: i64| -> Vec<El> { (0..60).map(|i| El::mix(0, base + i, 1)).collect() };
        let (pa, pb) = (c.path("pbf"), c.path("pbf"));
        let mut a = ParallelWriter::from_file_info(10, 4, pa.clone(), FileInfo::default(), comp(true)).map_err(es)?;
        let mut b = ParallelWriter::from_file_info(7, 9, pb.clone(), FileInfo::default(), comp(false)).map_err(es)?;
        a.write_header().map_err(es)?;
        b.write_header().map_err(es)?;
        for (x, y) in mk(0).iter().zip(mk(1000).iter()) {
            a.write_element(x.element()).map_err(es)?;
            b.write_element(y.element()).map_err(es)?;
        }
        a.close().map_err(es)?;
        b.close().map_err(es)?;
        check_blocks(&raw::parse(&std::fs::read(&pa).map_err(es)?)?, &mk(0), 4, false)?;
        check_blocks(&raw::parse(&std::fs::read(&pb).map_err(es)?)?, &mk(1000), 9, false)
    });
    "element streams (sorted, with sentinels, disordered within and beyond the buffer, late) through ParallelWriter for many buffer and block sizes; the file is parsed independently and must be sorted, cut and complete, or failure reported; distinct = distinct plans".into()
}

pub fn n14(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 400 } else { 25 };
    // one block takes far longer to encode than hundreds of later ones
    for (k, heavy_at) in [0usize, 40].into_iter().enumerate() {
        let nblocks = 330;
        c.case(&format!("giant-{k}"), "giant", || format!("{nblocks} blocks of 2 nodes, block {heavy_at} with 1.4 MB of text, zlib"), || {
            let mut rr = Rng::new(c.seed + k as u64);
            let mut els = vec![];
            for b in 0..nblocks {
                for j in 0..2 {
                    let mut e = El::node((b * 2 + j) as i64 + 1);
                    if b == heavy_at {
                        e.tags = (0..25_000).map(|t| (format!("key{t}"), format!("{:x}", rr.next()))).collect();
                    }
                    els.push(e);
                }
            }
            let pl = Plan { buffer: 2, block: 2, z: true, chunks: els.iter().map(|e| vec![e.clone()]).collect() };
            let blobs = run_plan(c, &pl, false)?.ok_or("the writer reported failure")?;
            check_blocks(&blobs, &els, 2, true)?;
            if blobs.len() != nblocks + 1 {
                return Err(format!("{} data blocks written, {} cut", blobs.len() - 1, nblocks));
            }
            Ok(())
        });
    }
    // more blocks than any counter narrower than 32 bits can number
    c.case("many-blocks", "order", || "70000 blocks of one node".into(), || {
        let els: Vec<El> = (1..=70_000).map(El::node).collect();
        let pl = Plan { buffer: 1000, block: 1, z: false, chunks: els.chunks(50).map(|x| x.to_vec()).collect() };
        let blobs = run_plan(c, &pl, false)?.ok_or("the writer reported failure")?;
        check_blocks(&blobs, &els, 1, true)?;
        if blobs.len() != els.len() + 1 {
            return Err(format!("{} data blocks written, {} cut", blobs.len() - 1, els.len()));
        }
        Ok(())
    });
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        // blocks of very different encoding cost so that encoders finish out of order
        let block = 1 + r.below(6);
        let nblocks = 3 + r.below(if i % 5 == 0 { 300 } else { 40 });
        let seed = r.next();
        let mut els = vec![];
        let mut rr = Rng::new(seed);
        for b in 0..nblocks {
            let heavy = rr.chance(1, 3);
            for j in 0..block {
                let mut e = El::node((b * block + j) as i64 + 1);
                if heavy {
                    e.tags = (0..60).map(|t| (format!("key{t}"), format!("{:x}", rr.next()))).collect();
                    e.user = "x".repeat(2000);
                }
                els.push(e);
            }
        }
        let z = r.chance(3, 4);
        c.case(&format!("run-{i}"), "order", || format!("{nblocks} blocks of {block} nodes, seed {seed:x}, zlib={z}"), || {
            let pl = Plan { buffer: 2 * block, block, z, chunks: els.iter().map(|e| vec![e.clone()]).collect() };
            let blobs = run_plan(c, &pl, false)?.ok_or("the writer reported failure")?;
            check_blocks(&blobs, &els, block, true)?;
            if blobs.len() != nblocks + 1 {
                return Err(format!("{} data blocks written, {} cut", blobs.len() - 1, nblocks));
            }
            for (k, b) in blobs[1..].iter().enumerate() {
                // the bytes of each block are those its own elements encode to
                let exp = crate::pbf::write_blocks(&c.path("pbf"), &[els[k * block..(k + 1) * block].to_vec()], z)?;
                if exp[1].body != b.body {
                    // identical content is required, identical bytes up to string table order
                    crate::model::diff(&data_elements(&exp[1])?, &data_elements(b)?)?;
                }
                if k > 40 {
                    break;
                }
            }
            Ok(())
        });
    }
    "ParallelWriter runs whose blocks differ strongly in encoding cost; block order, count and content of the file checked against the cut of the sorted stream; schedules are those the machine produced; distinct = distinct streams".into()
}

pub fn n23(c: &Ctx) -> String {
    let mut r = Rng::new(c.seed);
    let n = if c.thorough { 20000 } else { 1500 };
    for i in 0..n {
        if !c.time_left() || c.too_many() {
            break;
        }
        let accs = 1 + r.below(5);
        let len = if i % 100 == 3 { 3000 } else { 40 };
        let ops: Vec<(usize, bool)> = (0..r.below(len)).map(|_| (r.below(accs), r.chance(1, 4))).collect();
        let caps: Vec<usize> = (0..accs).map(|_| *r.pick(&[0usize, 1, 2, 5, 8000])).collect();
        let threads = if r.chance(1, 10) { 1 + r.below(3) } else { 0 };
        c.case(&format!("random-{i}"), "accumulate", || format!("capacities {caps:?} operations (accumulator, take?) {ops:?} in {} thread(s)", threads.max(1)), || {
            let a: Vec<ThreadLocalAccumulator> = caps.iter().map(|c| ThreadLocalAccumulator::new(*c)).collect();
            let a = Arc::new(a);
            let body = |a: &[ThreadLocalAccumulator], base: i64, ops: &[(usize, bool)]| -> Result<(), String> {
                let mut m: Vec<Vec<i64>> = vec![vec![]; a.len()];
                let mut id = base;
                let take = |k: usize, m: &mut Vec<Vec<i64>>| -> Result<(), String> {
                    let got: Vec<i64> = a[k].elements().iter().map(|e| El::from(e).id).collect();
                    let exp = std::mem::take(&mut m[k]);
                    if got != exp { Err(format!("accumulator {k}: expected {exp:?} got {got:?}")) } else { Ok(()) }
                };
                for (k, t) in ops {
                    if *t {
                        take(*k, &mut m)?;
                        take(*k, &mut m)?;
                    } else {
                        id += 1;
                        m[*k].push(id);
                        let kind = (id % 4) as u8;
                        let mut e = El::mix(if kind == 3 { 0 } else { kind }, id, 1);
                        e.user = "u".into();
                        a[*k].add(e.element());
                    }
                }
                for k in 0..a.len() {
                    take(k, &mut m)?;
                    take(k, &mut m)?;
                }
                Ok(())
            };
            if threads == 0 {
                return body(&a, 0, &ops);
            }
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads).map(|t| { let a = a.clone(); let ops = ops.clone(); let body = &body; s.spawn(move || body(&a, 1_000_000 * t as i64, &ops)) }).collect();
                for h in hs {
                    h.join().map_err(|_| "thread panicked".to_string())??;
                }
                Ok(())
            })
        });
    }
    c.case("beyond-capacity", "capacity", || "20000 elements in accumulators of capacity 0, 1, 100 and 8000".into(), || {
        let a: Vec<ThreadLocalAccumulator> = [0usize, 1, 100, 8000].iter().map(|n| ThreadLocalAccumulator::new(*n)).collect();
        for round in 0..2 {
            for i in 0..20_000i64 {
                for x in &a {
                    x.add(El::node(i + round).element());
                }
            }
            for (k, x) in a.iter().enumerate() {
                let g: Vec<i64> = x.elements().iter().map(|e| El::from(e).id).collect();
                if g != (round..20_000 + round).collect::<Vec<i64>>() {
                    return Err(format!("accumulator {k} returned {} elements in round {round}", g.len()));
                }
            }
        }
        Ok(())
    });
    c.case("very-long", "capacity", || "300000 elements, then one more, in one accumulator".into(), || {
        let x = ThreadLocalAccumulator::new(8000);
        for i in 0..300_000i64 {
            x.add(osm_io::osm::model::element::Element::Sentinel);
            if i % 50_000 == 49_999 {
                x.add(El::node(i).element());
            }
        }
        let n = x.elements().len();
        if n != 300_006 {
            return Err(format!("{n} elements returned of 300006"));
        }
        x.add(El::node(7).element());
        let g: Vec<i64> = x.elements().iter().map(|e| El::from(e).id).collect();
        if g != [7] { Err(format!("then {} elements instead of one", g.len())) } else { Ok(()) }
    });
    c.case("recreated", "distinct", || "accumulators created, filled and dropped again and again".into(), || {
        let keep = ThreadLocalAccumulator::new(4);
        for i in 0..200i64 {
            let x = ThreadLocalAccumulator::new(3);
            let y = ThreadLocalAccumulator::new(3);
            if !x.elements().is_empty() || !y.elements().is_empty() {
                return Err(format!("accumulator number {i} was not empty when created"));
            }
            x.add(El::node(i).element());
            keep.add(El::node(1000 + i).element());
            if i % 3 == 0 {
                y.add(El::node(-i).element());
                drop(y);
            }
            if i % 2 == 0 {
                let g = x.elements();
                if g.len() != 1 || El::from(&g[0]).id != i {
                    return Err(format!("accumulator number {i} returned {} elements", g.len()));
                }
            }
        }
        let g: Vec<i64> = keep.elements().iter().map(|e| El::from(e).id).collect();
        if g != (1000..1200).collect::<Vec<i64>>() { Err(format!("the kept accumulator returned {g:?}")) } else { Ok(()) }
    });
    for t in 0..if c.thorough { 500 } else { 40usize } {
        c.case(&format!("made-on-threads-{t}"), "distinct", || "8 threads create 25 accumulators each at the same time; all are used on this thread and on the thread that made them".into(), || {
            let bar = Arc::new(std::sync::Barrier::new(8));
            let hs: Vec<_> = (0..8i64).map(|k| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); (0..25i64).map(|i| { let a = ThreadLocalAccumulator::new(2); a.add(El::node(-k * 100 - i).element()); let g = a.elements(); (a, g.len() == 1 && El::from(&g[0]).id == -k * 100 - i) }).collect::<Vec<_>>() }) }).collect();
            let mut all = vec![];
            for h in hs {
                all.extend(h.join().map_err(|_| "a thread panicked".to_string())?);
            }
            for (i, (a, ok)) in all.iter().enumerate() {
                if !ok {
                    return Err(format!("accumulator {i} lost its element on the thread that made it"));
                }
                a.add(El::node(i as i64).element());
            }
            for (i, (a, _)) in all.iter().enumerate() {
                let g: Vec<i64> = a.elements().iter().map(|e| El::from(e).id).collect();
                if g != vec![i as i64] {
                    return Err(format!("accumulator {i} returned {g:?}"));
                }
            }
            Ok(())
        });
    }
    c.case("many-accumulators", "distinct", || "300 accumulators on one thread, one element each".into(), || {
        let a: Vec<ThreadLocalAccumulator> = (0..300).map(|_| ThreadLocalAccumulator::new(1)).collect();
        for (i, x) in a.iter().enumerate() {
            x.add(El::node(i as i64).element());
        }
        for (i, x) in a.iter().enumerate() {
            let g: Vec<i64> = x.elements().iter().map(|e| El::from(e).id).collect();
            if g != vec![i as i64] {
                return Err(format!("accumulator {i} returned {g:?}"));
            }
        }
        Ok(())
    });
    "random add/elements sequences over several accumulators on one and several threads against a list model; distinct = distinct sequences".into()
}
