//! The generated-input search engine: every property is decided by sub-checks, each a
//! generator (proptest strategy) plus an oracle. Work is fixed, not timed, and the same
//! for the same VERIF_SEED. Failures are shrunk and written to a replay file.
use crate::fuel;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// what a passing case was worth
pub struct Info { pub nontrivial: bool, pub labels: Vec<String> }
pub type Res = Result<Info, String>;

pub fn ok(nontrivial: bool) -> Res { Ok(Info { nontrivial, labels: vec![] }) }
pub fn okl(nontrivial: bool, l: &str) -> Res { Ok(Info { nontrivial, labels: vec![l.to_string()] }) }
pub fn okls(nontrivial: bool, l: Vec<String>) -> Res { Ok(Info { nontrivial, labels: l }) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) }; }

const SHARDS: usize = 16;

struct Failure { shard: usize, case: Value, message: String, original: Value, shrinks: usize }

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

struct Shared { stop_after: AtomicUsize, any: Arc<AtomicBool>, keep_going: bool }

trait Job: Send + Sync {
    fn run(&self, seed: [u8; 32], shard: usize, cases: u32, sh: &Shared, known: &[Known]) -> (Stats, Option<Failure>);
    fn replay(&self, v: &Value) -> Result<Res, String>;
}

struct Sub { name: String, quick: u32, thorough: u32, rule: String, job: Box<dyn Job>, require: Vec<(String, u64)> }

#[derive(Clone)]
struct Known { sub: String, pat: String, what: String }

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

struct Heart { started: Mutex<Option<(Instant, String, String)>> }
thread_local! { static HEART: RefCell<Option<Arc<Heart>>> = RefCell::new(None); }

/// a violation message with its first line only, for matching and display
fn guarded<T: std::fmt::Debug>(test: &dyn Fn(&T) -> Res, v: &T, sub: &str) -> Res {
    HEART.with(|h| if let Some(h) = h.borrow().as_ref() {
        let mut d = format!("{:?}", v);
        if d.len() > 2000 { let mut k = 2000; while !d.is_char_boundary(k) { k -= 1; } d.truncate(k); }
        *h.started.lock().unwrap() = Some((Instant::now(), sub.to_string(), d));
    });
    fuel::fuel(fuel::CASE);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| test(v)));
    fuel::fuel(u64::MAX);
    HEART.with(|h| if let Some(h) = h.borrow().as_ref() { *h.started.lock().unwrap() = None; });
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h ^ (b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15)
}

struct TypedJob<T, S, M, F> { name: String, mk: M, test: F, _p: std::marker::PhantomData<fn() -> (T, S)> }

impl<T, S, M, F> Job for TypedJob<T, S, M, F>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
    S: Strategy<Value = T>,
    M: Fn() -> S + Send + Sync,
    F: Fn(&T) -> Res + Send + Sync,
{
    fn run(&self, seed: [u8; 32], shard: usize, cases: u32, sh: &Shared, known: &[Known]) -> (Stats, Option<Failure>) {
        let mut st = Stats::default();
        let strat = (self.mk)();
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        for i in 0..cases {
            if sh.stop_after.load(Ordering::Relaxed) < shard { break; }
            if !sh.keep_going && sh.any.load(Ordering::Relaxed) { break; }
            let mut tree = match strat.new_tree(&mut runner) { Ok(t) => t, Err(e) => panic!("generator: {}", e) };
            let v = tree.current();
            st.cases += 1;
            match guarded(&self.test, &v, &self.name) {
                Ok(info) => {
                    for l in info.labels { *st.labels.entry(l).or_insert(0) += 1; }
                    if info.nontrivial {
                        st.nontrivial += 1;
                        let s = serde_json::to_vec(&v).unwrap();
                        st.distinct.insert(fnv(&s));
                        if shard == 0 && st.samples.len() < 2 && i % 7 == 3 && s.len() < 1500 {
                            st.samples.push(serde_json::to_value(&v).unwrap());
                        }
                    }
                }
                Err(msg) => {
                    if let Some(k) = known.iter().find(|k| k.sub == self.name && msg.contains(&k.pat)) {
                        *st.known.entry(k.what.clone()).or_insert(0) += 1;
                        continue;
                    }
                    sh.stop_after.fetch_min(shard, Ordering::Relaxed);
                    let original = serde_json::to_value(&v).unwrap();
                    let mut best = (original.clone(), msg);
                    let t0 = Instant::now();
                    let mut iters = 0;
                    if tree.simplify() {
                        loop {
                            if iters >= 3000 || t0.elapsed() > Duration::from_secs(20) { break; }
                            iters += 1;
                            let c = tree.current();
                            match guarded(&self.test, &c, &self.name) {
                                Err(m) if !known.iter().any(|k| k.sub == self.name && m.contains(&k.pat)) => {
                                    best = (serde_json::to_value(&c).unwrap(), m);
                                    if !tree.simplify() { break; }
                                }
                                _ => if !tree.complicate() { break; },
                            }
                        }
                    }
                    return (st, Some(Failure { shard, case: best.0, message: best.1, original, shrinks: iters }));
                }
            }
        }
        (st, None)
    }
    fn replay(&self, v: &Value) -> Result<Res, String> {
        let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(&self.test, &t, &self.name))
    }
}

pub struct Run {
    prop: String,
    tier: String,
    seed: u64,
    subs: Vec<Sub>,
    replay: Option<String>,
    only: Option<String>,
    scale: f64,
    part: Option<String>,
    peer: Option<(String, String)>,
    root: std::path::PathBuf,
    assumptions: Vec<String>,
    t0: Instant,
}

impl Run {
    pub fn new(prop: &str) -> Run {
        let args: Vec<String> = std::env::args().collect();
        let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
        let tier = match std::env::var("VERIF_TIER").ok().as_deref() { Some("thorough") => "thorough", _ => "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        Run {
            prop: prop.to_string(), tier, seed, subs: vec![], replay: arg("--replay"), only: arg("--only"),
            scale: arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0), part: arg("--part"), peer: None,
            root: root.into(), assumptions: vec![], t0: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    pub fn part(&self) -> Option<&str> { self.part.as_deref() }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()); }
    /// another build of this same check, run as part of it
    pub fn peer(&mut self, name: &str, path: &str) { self.peer = Some((name.to_string(), path.to_string())); }

    pub fn sub<T, S, M, F>(&mut self, name: &str, quick: u32, thorough: u32, rule: &str, mk: M, test: F) -> &mut Run
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
        S: Strategy<Value = T> + 'static,
        M: Fn() -> S + Send + Sync + 'static,
        F: Fn(&T) -> Res + Send + Sync + 'static,
    {
        self.subs.push(Sub {
            name: name.to_string(), quick, thorough, rule: rule.to_string(), require: vec![],
            job: Box::new(TypedJob { name: name.to_string(), mk, test, _p: std::marker::PhantomData }),
        });
        self
    }
    /// the last sub-check must have met this label at least min times, or the run is an error
    pub fn require(&mut self, labels: &[&str], min: u64) -> &mut Run {
        let s = self.subs.last_mut().unwrap();
        for l in labels { s.require.push((l.to_string(), min)); }
        self
    }

    fn known(&self) -> Vec<Known> {
        let mut v = vec![];
        if let Ok(t) = std::fs::read_to_string(self.root.join("known-findings.txt")) {
            for l in t.lines() {
                // known: property=<id> sub=<sub> match=<text> :: <what fails>
                let l = match l.strip_prefix("known: ") { Some(l) => l, None => continue };
                let (head, what) = match l.split_once(" :: ") { Some(x) => x, None => continue };
                let p = format!("property={} sub=", self.prop);
                if let Some(rest) = head.strip_prefix(&p) {
                    if let Some((sub, pat)) = rest.split_once(" match=") {
                        v.push(Known { sub: sub.to_string(), pat: pat.to_string(), what: what.to_string() });
                    }
                }
            }
        }
        v
    }

    pub fn finish(self) -> ! {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
        }));
        if let Some(p) = self.replay.clone() { self.do_replay(&p); }
        let known = self.known();
        let any = Arc::new(AtomicBool::new(false));
        let keep = std::env::var("VERIF_KEEP_GOING").is_ok();
        let shared: Vec<Shared> = self.subs.iter().map(|_| Shared { stop_after: AtomicUsize::new(usize::MAX), any: any.clone(), keep_going: keep }).collect();
        let mut jobs = vec![];
        for shard in 0..SHARDS {
            for i in 0..self.subs.len() {
                if let Some(o) = &self.only { if !self.subs[i].name.contains(o.as_str()) { continue; } }
                jobs.push((i, shard));
            }
        }
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<(usize, usize, Stats, Option<Failure>)>> = Mutex::new(vec![]);
        let cost: Vec<Mutex<f64>> = self.subs.iter().map(|_| Mutex::new(0.0)).collect();
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let hearts: Vec<Arc<Heart>> = (0..nthreads).map(|_| Arc::new(Heart { started: Mutex::new(None) })).collect();
        let limit = Duration::from_secs(if self.thorough() { 6 * 3600 } else { 860 });
        let case_limit = Duration::from_secs(300);
        {
            let hearts = hearts.clone();
            let t0 = self.t0;
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                for h in &hearts {
                    if let Some((t, s, d)) = h.started.lock().unwrap().as_ref() {
                        if t.elapsed() > case_limit || t0.elapsed() > limit {
                            eprintln!("ERROR: watchdog: sub-check {} still in one case after {:?} (whole run {:?}): {}", s, t.elapsed(), t0.elapsed(), d);
                            std::process::exit(3);
                        }
                    }
                }
                if t0.elapsed() > limit { eprintln!("ERROR: watchdog: run exceeded {:?}", limit); std::process::exit(3); }
            });
        }
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (next, jobs, results, shared, known, this, hearts, cost) = (&next, &jobs, &results, &shared, &known, &self, &hearts, &cost);
                let b = std::thread::Builder::new().stack_size(256 << 20);
                b.spawn_scoped(sc, move || {
                    HEART.with(|h| *h.borrow_mut() = Some(hearts[t].clone()));
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() { break; }
                        let (i, shard) = jobs[j];
                        let sub = &this.subs[i];
                        let total = ((if this.thorough() { sub.thorough } else { sub.quick }) as f64 * this.scale).ceil() as u32;
                        let cases = total / SHARDS as u32 + if (shard as u32) < total % SHARDS as u32 { 1 } else { 0 };
                        let seed = derive(this.seed, &format!("{}{}", this.prop, this.part.as_deref().unwrap_or("")), &sub.name, shard);
                        let t1 = Instant::now();
                        let (st, f) = sub.job.run(seed, shard, cases, &shared[i], known);
                        *cost[i].lock().unwrap() += t1.elapsed().as_secs_f64();
                        if f.is_some() { shared[i].any.store(true, Ordering::SeqCst); }
                        results.lock().unwrap().push((i, shard, st, f));
                    }
                }).unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| (r.0, r.1));
        let mut per = BTreeMap::new();
        let (mut evals, mut dist) = (0u64, 0u64);
        let mut samples = vec![];
        let mut violations: Vec<(String, Failure)> = vec![];
        let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
        let mut errors = vec![];
        for (i, sub) in self.subs.iter().enumerate() {
            let mut st = Stats::default();
            let mut fl: Option<Failure> = None;
            let mut ran = false;
            for r in results.iter_mut().filter(|r| r.0 == i) {
                ran = true;
                st.cases += r.2.cases;
                st.nontrivial += r.2.nontrivial;
                st.distinct.extend(r.2.distinct.drain());
                for (k, v) in &r.2.labels { *st.labels.entry(k.clone()).or_insert(0) += v; }
                for (k, v) in &r.2.known { *knowns.entry(k.clone()).or_insert(0) += v; }
                for s in r.2.samples.drain(..) { samples.push(json!({"sub": sub.name, "case": s})); }
                if let Some(f) = r.3.take() { if fl.as_ref().map_or(true, |g| f.shard < g.shard) { fl = Some(f); } }
            }
            if !ran { continue; }
            evals += st.cases;
            dist += st.distinct.len() as u64;
            per.insert(sub.name.clone(), json!({"cases": st.cases, "nontrivial": st.nontrivial, "distinct_nontrivial": st.distinct.len(),
                "labels": st.labels, "rule": sub.rule, "cpu_s": (*cost[i].lock().unwrap() * 10.0).round() / 10.0}));
            if fl.is_none() && !any.load(Ordering::SeqCst) && self.scale >= 1.0 {
                for (l, min) in &sub.require {
                    let n = st.labels.get(l).copied().unwrap_or(0);
                    if n < *min { errors.push(format!("sub-check {}: only {} cases of class '{}' (want {})", sub.name, n, l, min)); }
                }
            }
            if let Some(f) = fl { violations.push((sub.name.clone(), f)); }
        }
        let rdir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let tag = self.part.as_ref().map(|p| format!("{}-", p)).unwrap_or_default();
        let mut lines = vec![];
        for (sub, f) in &violations {
            let path = rdir.join(format!("{}-{}{}.json", self.prop, tag, sub.replace('/', "_")));
            let doc = json!({"property": self.prop, "sub": sub, "part": self.part, "seed": self.seed, "tier": self.tier, "message": f.message, "case": f.case,
                "original_case": f.original, "shard": f.shard, "shrink_steps": f.shrinks});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            let mut m = f.message.replace('\n', " ");
            if m.len() > 600 { let mut k = 600; while !m.is_char_boundary(k) { k -= 1; } m.truncate(k); }
            lines.push(format!("{}{}: {}", tag, sub, m));
            lines.push(format!("VIOLATION property={} replay={}", self.prop, path.display()));
        }
        for (w, n) in &knowns { lines.push(format!("KNOWN-FINDING: property={} {} ({} cases)", self.prop, w, n)); }
        let mut nviol = violations.len();

        if self.part.is_some() {
            // machine-readable summary for the parent run
            println!("{}", json!({"evaluations": evals, "distinct": dist, "per": per, "samples": samples, "lines": lines, "violations": nviol, "errors": errors}));
            std::process::exit(0);
        }
        if let Some((name, path)) = &self.peer {
            let args: Vec<String> = std::env::args().skip(1).collect();
            match std::process::Command::new(path).args(&args).arg("--part").arg(name).output() {
                Ok(o) => match serde_json::from_str::<Value>(String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("")) {
                    Ok(v) if o.status.success() => {
                        evals += v["evaluations"].as_u64().unwrap_or(0);
                        dist += v["distinct"].as_u64().unwrap_or(0);
                        for (k, x) in v["per"].as_object().unwrap() { per.insert(format!("{}/{}", name, k), x.clone()); }
                        for s in v["samples"].as_array().unwrap() { let mut s = s.clone(); s["build"] = json!(name); samples.push(s); }
                        for l in v["lines"].as_array().unwrap() { lines.push(l.as_str().unwrap().to_string()); }
                        for e in v["errors"].as_array().unwrap() { errors.push(e.as_str().unwrap().to_string()); }
                        nviol += v["violations"].as_u64().unwrap_or(0) as usize;
                    }
                    _ => errors.push(format!("{} build of the check failed: {:?} {}", name, o.status, String::from_utf8_lossy(&o.stderr))),
                },
                Err(e) => errors.push(format!("{}: {}", path, e)),
            }
        }
        let wall = self.t0.elapsed().as_secs_f64();
        if self.only.is_none() && self.scale >= 1.0 {
            let edir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&edir);
            let rules: Vec<String> = self.subs.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect();
            let doc = json!({
                "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
                "coverage": {"evaluations": evals, "distinct_nontrivial": dist,
                    "rule": format!("Cases are drawn by proptest from ChaCha seeded with (seed, property, sub-check, shard); each is decided by the stated oracle; distinct by hash of the serialised case, non-trivial per sub-check: {}", rules.join(" ")),
                    "samples": samples, "sub_checks": per, "known_findings": knowns},
                "assumptions": self.assumptions, "wall_s": (wall * 100.0).round() / 100.0, "violations": nviol});
            if let Err(e) = std::fs::write(edir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&doc).unwrap()) {
                errors.push(format!("evidence: {}", e));
            }
        }
        println!("{} {} seed={} cases={} distinct_nontrivial={} wall={:.1}s", self.prop, self.tier, self.seed, evals, dist, wall);
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (k, v) in &per { println!("  {:<28} cases={} distinct={} cpu={}s labels={}", k, v["cases"], v["distinct_nontrivial"], v["cpu_s"], v["labels"]); }
        }
        for l in &lines { println!("{}", l); }
        if nviol > 0 { std::process::exit(1); }
        if !errors.is_empty() {
            for e in &errors { eprintln!("ERROR: {}", e); }
            std::process::exit(4);
        }
        std::process::exit(0);
    }

    fn do_replay(&self, path: &str) -> ! {
        let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("ERROR: {}: {}", path, e); std::process::exit(2) } };
        let v: Value = match serde_json::from_str(&t) { Ok(v) => v, Err(e) => { eprintln!("ERROR: {}: {}", path, e); std::process::exit(2) } };
        if self.part.is_none() && v["part"].is_string() {
            if let Some((_, p)) = &self.peer {
                let s = std::process::Command::new(p).args(["--replay", path, "--part", v["part"].as_str().unwrap()]).status();
                std::process::exit(s.ok().and_then(|s| s.code()).unwrap_or(2));
            }
        }
        for s in &self.subs {
            if v["sub"] == s.name.as_str() {
                // the same stack as a worker thread
                let code = std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || match s.job.replay(&v["case"]) {
                    Err(e) => { eprintln!("ERROR: {}", e); 2 }
                    Ok(Ok(_)) => { println!("replay: property={} sub={} holds", self.prop, s.name); 0 }
                    Ok(Err(m)) => { println!("replay: {}", m); println!("VIOLATION property={} replay={}", self.prop, path); 1 }
                }).unwrap().join().unwrap());
                std::process::exit(code);
            }
        }
        eprintln!("ERROR: no sub-check named {}", v["sub"]);
        std::process::exit(2);
    }
}

fn derive(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
    let s = format!("{}/{}/{}/{}", seed, prop, sub, shard);
    let d = crate::hash::Alg::Sha256.digest(s.as_bytes());
    let mut o = [0u8; 32];
    o.copy_from_slice(&d);
    o
}
