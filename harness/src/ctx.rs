//! Run control: cases, evidence counters, watchdog, JSON.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        let span = (b as i128 - a as i128 + 1) as u128;
        (a as i128 + (self.next() as u128 % span) as i128) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone)]
pub struct Violation {
    pub key: String,
    pub case: String,
    pub input: String,
    pub detail: String,
}

#[derive(Default)]
struct Shared {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    current: Option<(String, String, Instant)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub dir: PathBuf,
    pub only: Option<String>,
    pub deadline: Instant,
    sh: Arc<Mutex<Shared>>,
    n: AtomicU64,
    pub started: Instant,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}

fn report(prop: &str, out: &PathBuf, sh: &Shared, wall: f64, rule: &str) {
    let vs: Vec<String> = sh
        .violations
        .iter()
        .map(|v| format!("{{\"key\": {}, \"case\": {}, \"input\": {}, \"detail\": {}}}", esc(&v.key), esc(&v.case), esc(&cut(&v.input, 6000)), esc(&cut(&v.detail, 3000))))
        .collect();
    let ss: Vec<String> = sh.samples.iter().map(|s| esc(&cut(s, 300))).collect();
    let t = format!(
        "{{\"property\": {}, \"evaluations\": {}, \"distinct\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}, \"violations\": [{}]}}\n",
        esc(prop), sh.evals, sh.distinct.len(), esc(rule), ss.join(", "), wall, vs.join(", ")
    );
    let _ = std::fs::write(out, t);
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, dir: PathBuf, only: Option<String>, out: PathBuf, budget: u64) -> Ctx {
        let sh = Arc::new(Mutex::new(Shared::default()));
        let started = Instant::now();
        let s2 = sh.clone();
        let p2 = prop.to_string();
        let d2 = dir.clone();
        // watchdog: a case of the code under test that never returns is reported, not waited for
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut g = match s2.lock() { Ok(g) => g, Err(e) => e.into_inner() };
            let total = started.elapsed().as_secs();
            // with a violation in hand there is nothing to wait for; without one, a slow machine ends the search early
            if (!g.violations.is_empty() && total > 150) || total > if thorough { 700 } else { 450 } {
                for v in g.violations.iter().take(5) { println!("FAIL key={} case={} input={} :: {}", v.key, v.case, cut(&v.input, 400), cut(&v.detail, 600)); }
                report(&p2, &out, &g, started.elapsed().as_secs_f64(), "search stopped by its clock");
                let _ = std::fs::remove_dir_all(&d2);
                std::process::exit(if g.violations.is_empty() { 0 } else { 1 });
            }
            if let Some((case, input, t)) = g.current.clone() {
                if t.elapsed() > Duration::from_secs(if thorough { 90 } else { 40 }) {
                    g.violations.push(Violation { key: "hang".into(), case, input, detail: "the call did not return".into() });
                    for v in g.violations.iter().rev().take(5) { println!("FAIL key={} case={} input={} :: {}", v.key, v.case, cut(&v.input, 400), cut(&v.detail, 600)); }
                    report(&p2, &out, &g, started.elapsed().as_secs_f64(), "watchdog");
                    let _ = std::fs::remove_dir_all(&d2);
                    std::process::exit(1);
                }
            }
        });
        Ctx { prop: prop.into(), thorough, seed, dir, only, deadline: started + Duration::from_secs(budget), sh, n: AtomicU64::new(0), started }
    }

    pub fn path(&self, ext: &str) -> PathBuf {
        self.dir.join(format!("f{}.{}", self.n.fetch_add(1, Ordering::SeqCst), ext))
    }

    /// A path at which an older, longer file lies already.
    pub fn used_path(&self, ext: &str, len: usize) -> PathBuf {
        let p = self.path(ext);
        let _ = std::fs::write(&p, vec![0x0au8; len]);
        p
    }

    /// The same path every time, holding whatever was written there last, longer than before.
    pub fn same_path(&self, ext: &str, len: usize) -> PathBuf {
        let p = self.dir.join(format!("same.{ext}"));
        let mut b = std::fs::read(&p).unwrap_or_default();
        if b.len() < len { b.resize(len, 0x0a); }
        let _ = std::fs::write(&p, b);
        p
    }

    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }

    pub fn too_many(&self) -> bool {
        let g = self.sh.lock().unwrap();
        g.violations.len() >= 40 || (!g.violations.is_empty() && self.started.elapsed() > Duration::from_secs(60))
    }

    /// Run one case. `id` identifies it for replay, `input` describes it.
    pub fn case(&self, id: &str, key: &str, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != id {
                return;
            }
        }
        if self.too_many() {
            return;
        }
        let desc = input();
        {
            let mut g = self.sh.lock().unwrap();
            g.evals += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if g.distinct.insert(h.finish()) && g.samples.len() < 6 && (g.evals % 7 == 1) {
                g.samples.push(format!("{id}: {desc}"));
            }
            g.current = Some((id.to_string(), desc.clone(), Instant::now()));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let mut g = self.sh.lock().unwrap();
        g.current = None;
        let res = match r {
            Ok(Ok(())) => return,
            Ok(Err(d)) => d,
            Err(p) => format!("panicked: {}", panic_text(&p)),
        };
        g.violations.push(Violation { key: key.to_string(), case: id.to_string(), input: desc, detail: res });
    }

    pub fn finish(&self, out: &PathBuf, rule: &str) -> i32 {
        let g = self.sh.lock().unwrap();
        report(&self.prop, out, &g, self.started.elapsed().as_secs_f64(), rule);
        for v in g.violations.iter().take(5) {
            println!("FAIL key={} case={} input={} :: {}", v.key, v.case, cut(&v.input, 400), cut(&v.detail, 600));
        }
        println!("{}: {} evaluations, {} distinct, {} violations, {:.1} s", self.prop, g.evals, g.distinct.len(), g.violations.len(), self.started.elapsed().as_secs_f64());
        if g.violations.is_empty() { 0 } else { 1 }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

/// Ok(value) or the text of the panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| panic_text(&p))
}
