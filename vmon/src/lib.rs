//! Shared monitor runtime: seeded generators, panic trapping, parallel case
//! execution, verdicts, replay files and evidence.  No dependencies.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod clock;
pub mod rng;
pub use rng::Rng;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let in_case = LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some((msg.clone(), loc.clone()));
        });
        let _ = in_case;
        if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            eprintln!("[panic] {msg} at {loc}");
        }
        let mut g = ALL_PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 200 {
            g.push((msg, loc));
        }
    }));
}

/// Every panic seen by the process (bounded), including ones on worker threads.
static ALL_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

/// Panics whose location lies in the repository under test (not in harness code).
pub fn repo_panics() -> Vec<(String, String)> {
    ALL_PANICS
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .iter()
        .filter(|(_, l)| !is_harness_loc(l))
        .cloned()
        .collect()
}

fn is_harness_loc(loc: &str) -> bool {
    // Harness sources compile with relative paths ("src/...") or live below /verif.
    loc.starts_with("/verif") || loc.starts_with("src/") || loc.starts_with("../vmon") || loc.contains("/verif/")
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

/// Run code under test; a panic is turned into a value.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic".into(), "?".into()));
            Err(Panicked { msg, loc })
        }
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub stream: String,
    pub index: u64,
}

/// What one case observed.
#[derive(Default)]
pub struct Rec {
    pub evals: u64,
    keys: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<Violation>,
    stream: String,
    index: u64,
    sample_budget: usize,
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // FNV-1a: stable across runs.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl Rec {
    /// Count one evaluated case; `key` identifies it for distinctness (None: trivial).
    pub fn eval<T: std::hash::Hash + ?Sized>(&mut self, key: Option<&T>) {
        self.evals += 1;
        if let Some(k) = key {
            self.keys.insert(hash64(k));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(name.into(), n);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.sample_budget {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, key: &str, detail: impl Into<String>) {
        if self.viols.iter().filter(|v| v.key == key).count() < 3 {
            self.viols.push(Violation {
                key: key.into(),
                detail: detail.into(),
                stream: self.stream.clone(),
                index: self.index,
            });
        }
        self.count("raw_violations", 1);
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(key, detail());
        }
        ok
    }
    /// Run code under test, recording a panic raised by it as a violation.
    pub fn guard<T>(&mut self, what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(p) => {
                if is_harness_loc(&p.loc) {
                    HARNESS_ERRORS.fetch_add(1, Ordering::Relaxed);
                    eprintln!("harness panic: {} at {} during {what} on {}", p.msg, p.loc, input());
                } else {
                    self.violate(&format!("panic:{what}"), format!("{what} panicked: {} at {} on input {}", p.msg, p.loc, input()));
                }
                None
            }
        }
    }
    pub fn merge(&mut self, o: Rec) {
        self.evals += o.evals;
        self.keys.extend(o.keys);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.viols.extend(o.viols);
    }
}

static HARNESS_ERRORS: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    rule: String,
    assumptions: Vec<String>,
    start: Instant,
    rec: Rec,
    threads: usize,
    replay: Option<(String, u64, u64)>,
    streams: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn new(prop: &str, rule: &str) -> Ctx {
        install_hook();
        clock::touch();
        clock::real_now();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough".to_string(),
            _ => "quick".to_string(),
        };
        let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let replay = std::env::var("VERIF_REPLAY").ok().map(|p| {
            let t = std::fs::read_to_string(&p).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.to_string()));
            (
                get("stream").expect("stream"),
                get("index").and_then(|s| s.parse().ok()).expect("index"),
                get("seed").and_then(|s| s.parse().ok()).expect("seed"),
            )
        });
        if let Some((_, _, s)) = &replay {
            seed = *s;
        }
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            rule: rule.into(),
            assumptions: vec![],
            start: Instant::now(),
            rec: Rec { sample_budget: 12, ..Default::default() },
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            replay,
            streams: BTreeMap::new(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// Run `n` cases on all cores; each case gets its own generator.
    pub fn run(&mut self, stream: &str, n: u64, f: impl Fn(&mut Rng, &mut Rec) + Sync) {
        self.run_on(self.threads, stream, n, f)
    }
    /// Run cases one after another on the calling thread.
    pub fn run_seq(&mut self, stream: &str, n: u64, f: impl Fn(&mut Rng, &mut Rec) + Sync) {
        self.run_on(1, stream, n, f)
    }
    pub fn run_on(&mut self, threads: usize, stream: &str, n: u64, f: impl Fn(&mut Rng, &mut Rec) + Sync) {
        let (lo, hi) = match &self.replay {
            Some((s, i, _)) => {
                if s != stream {
                    return;
                }
                (*i, *i + 1)
            }
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let out: Mutex<Vec<Rec>> = Mutex::new(vec![]);
        let seed = self.seed;
        let threads = threads.min((hi - lo).max(1) as usize).max(1);
        let chunk = ((hi - lo) / (threads as u64 * 16)).clamp(1, 256);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let out = &out;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut rec = Rec {
                            stream: stream.to_string(),
                            sample_budget: if t == 0 { 3 } else { 0 },
                            ..Default::default()
                        };
                        loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= hi {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                rec.index = i;
                                let mut r = Rng::for_case(seed, stream, i);
                                if let Err(p) = catch(|| f(&mut r, &mut rec)) {
                                    if is_harness_loc(&p.loc) {
                                        HARNESS_ERRORS.fetch_add(1, Ordering::Relaxed);
                                        eprintln!("harness panic: {} at {} (stream {stream} case {i})", p.msg, p.loc);
                                    } else {
                                        rec.violate("panic", format!("code under test panicked: {} at {}", p.msg, p.loc));
                                    }
                                }
                            }
                        }
                        out.lock().unwrap_or_else(|e| e.into_inner()).push(rec);
                    })
                    .expect("spawn");
            }
        });
        let before = self.rec.evals;
        for r in out.into_inner().unwrap_or_else(|e| e.into_inner()) {
            self.rec.merge(r);
        }
        *self.streams.entry(stream.into()).or_default() += self.rec.evals - before;
    }
    pub fn elapsed(&self) -> f64 {
        clock::real_elapsed(self.start)
    }
    /// Write evidence, print verdict lines, exit.
    pub fn finish(mut self) -> ! {
        let wall = self.elapsed();
        let known = load_known(&self.prop);
        let mut seen_known: HashSet<String> = HashSet::new();
        let mut real: BTreeMap<String, Violation> = BTreeMap::new();
        self.rec.viols.sort_by(|a, b| (&a.key, a.index).cmp(&(&b.key, b.index)));
        for v in &self.rec.viols {
            if known.iter().any(|(k, _)| k == &v.key) {
                seen_known.insert(v.key.clone());
            } else {
                real.entry(v.key.clone()).or_insert_with(|| v.clone());
            }
        }
        for (k, what) in &known {
            if seen_known.contains(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
            } else if self.replay.is_none() {
                eprintln!("note: known finding {k} was not observed in this run");
            }
        }
        let dir = "/verif/evidence";
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let mut lines = vec![];
        for (i, (k, v)) in real.iter().enumerate().take(10) {
            let path = format!("{dir}/replay/{}-{}.txt", self.prop, i);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nseed: {}\nstream: {}\nindex: {}\nkey: {}\ndetail: {}\n",
                    self.prop, self.seed, v.stream, v.index, k, v.detail
                ),
            );
            lines.push((path, v.clone()));
        }
        let harness = HARNESS_ERRORS.load(Ordering::Relaxed);
        if self.replay.is_none() {
            let mut j = String::new();
            j.push_str(&format!(
                "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{",
                js(&self.prop),
                js(&self.tier),
                self.seed
            ));
            j.push_str(&format!(
                "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
                self.rec.evals,
                self.rec.keys.len(),
                js(&self.rule),
                self.rec.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            ));
            j.push_str(&format!(
                ",\"per_workload\":{{{}}}",
                self.streams.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
            ));
            j.push_str(&format!(
                ",\"observed\":{{{}}}",
                self.rec.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
            ));
            j.push_str(&format!(
                "}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
                self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                wall,
                real.len()
            ));
            if std::fs::write(format!("{dir}/{}.json", self.prop), j).is_err() {
                eprintln!("cannot write evidence");
                std::process::exit(3);
            }
        }
        for (path, v) in &lines {
            println!("VIOLATION property={} replay={}", self.prop, path);
            let mut d = v.detail.clone();
            if d.len() > 2000 {
                let mut n = 2000;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            println!("  [{}] {}", v.key, d);
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {} harness errors, {:.1}s",
            self.prop,
            self.rec.evals,
            self.rec.keys.len(),
            real.len(),
            harness,
            wall
        );
        if !real.is_empty() {
            exit_now(1);
        }
        if harness > 0 {
            exit_now(2);
        }
        exit_now(0)
    }
}

fn exit_now(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// known_findings.txt: `KNOWN property=<id> key=<key> <what fails>`
fn load_known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("KNOWN property=") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
            let w = it.next().unwrap_or("");
            if p == prop && !k.is_empty() {
                out.push((k.to_string(), w.to_string()));
            }
        }
    }
    out
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
