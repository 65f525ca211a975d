//! Case generation, bookkeeping, shrinking, replay files and evidence.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Where this harness lives: the directory above the crate.
pub fn home() -> &'static str {
    env!("CARGO_MANIFEST_DIR").rsplit_once('/').unwrap().0
}

/// What one executed case showed.
#[derive(Default, Debug, Clone)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// a case of many: how many they are, and those that are not trivial
    many: Option<(u64, Vec<String>)>,
}

impl Obs {
    pub fn new(nontrivial: bool) -> Self {
        Obs { nontrivial, labels: vec![], many: None }
    }
    pub fn many(cases: usize, nontrivial: Vec<String>) -> Self {
        Obs { nontrivial: !nontrivial.is_empty(), labels: vec![], many: Some((cases as u64, nontrivial)) }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c {
            self.label(l)
        } else {
            self
        }
    }
}

pub type TestResult = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c { return Err(format!($($arg)+)); }
    };
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static QUIET: AtomicBool = AtomicBool::new(false);

struct Current {
    sub: String,
    case: String,
    since: Instant,
    limit: Duration,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if !QUIET.load(Ordering::Relaxed) && std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 32 {
                p.push(format!("panic '{msg}' at {loc}"));
            }
        }
    }));
}

#[derive(Default)]
struct SubStats {
    rule: String,
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failed: Option<Value>,
    unconfirmed: u64,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    subs: Vec<(String, SubStats)>,
    replay: Option<(String, Value)>,
    journal: Option<PathBuf>,
    started: Instant,
    pub violated: Option<String>,
    known: Vec<Value>,
    pub known_hits: Vec<String>,
    pub assumptions: Vec<String>,
    only_sub: Option<String>,
    pub replayed: u32,
    pub case_limit: Duration,
}

/// How a sub-check is run.
pub struct Plan {
    pub quick: u32,
    pub thorough: u32,
    /// Outcome may depend on wall-clock scheduling: a failure must reproduce before it is reported.
    pub timing: bool,
    pub max_shrink: u32,
}

impl Plan {
    pub fn new(quick: u32, thorough: u32) -> Self {
        Plan { quick, thorough, timing: false, max_shrink: 4096 }
    }
    pub fn timing(mut self) -> Self {
        self.timing = true;
        self.max_shrink = 60;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.max_shrink = n;
        self
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn clip(v: &Value, max: usize) -> Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        let mut end = max;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{} ... ({} chars)", &s[..end], s.len()))
    }
}

impl Ctx {
    pub fn new(id: &str, replay: Option<(String, Value)>) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let known = std::fs::read_to_string(format!("{}/known_findings.json", home()))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v.get("findings").and_then(|f| f.as_array().cloned()))
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f["property"] == id && f["status"] == "known")
            .collect();
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            subs: vec![],
            replay,
            journal: std::env::var_os("VERIF_JOURNAL").map(PathBuf::from),
            started: Instant::now(),
            violated: None,
            known,
            known_hits: vec![],
            assumptions: vec![],
            only_sub: std::env::var("VERIF_SUB").ok(),
            replayed: 0,
            case_limit: Duration::from_secs(90),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Is a finding with this key listed (and not repaired)?
    pub fn known(&self, key: &str) -> bool {
        self.known.iter().any(|f| f["key"] == key)
    }

    pub fn known_text(&self, key: &str) -> Option<String> {
        self.known
            .iter()
            .find(|f| f["key"] == key)
            .map(|f| f["what"].as_str().unwrap_or("").to_string())
    }

    fn run_one<V: Serialize>(
        &self,
        sub: &str,
        v: &V,
        test: &dyn Fn(&V) -> TestResult,
    ) -> (TestResult, String) {
        let case = serde_json::to_string(v).unwrap();
        if let Some(j) = &self.journal {
            let _ = std::fs::write(
                j,
                json!({"property": self.id, "sub": sub, "case": serde_json::from_str::<Value>(&case).unwrap()})
                    .to_string(),
            );
        }
        *CURRENT.lock().unwrap() = Some(Current {
            sub: sub.to_string(),
            case: case.clone(),
            since: Instant::now(),
            limit: self.case_limit,
        });
        take_panics();
        let res = catch_unwind(AssertUnwindSafe(|| test(v)));
        let panics = take_panics();
        *CURRENT.lock().unwrap() = None;
        let res = match res {
            Err(_) => Err(panics.first().cloned().unwrap_or_else(|| "panic".into())),
            Ok(Err(e)) if panics.is_empty() => Err(e),
            Ok(Err(e)) => Err(format!("{e} [{}]", panics.join("; "))),
            Ok(Ok(_)) if !panics.is_empty() => {
                Err(format!("background task: {}", panics.join("; ")))
            }
            Ok(Ok(o)) => Ok(o),
        };
        (res, case)
    }

    /// Search `strategy` for a case on which `test` fails.
    pub fn check<S, F>(&mut self, sub: &str, rule: &str, plan: Plan, strategy: S, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Debug,
        F: Fn(&S::Value) -> TestResult,
    {
        if self.violated.is_some() {
            return;
        }
        if let Some((rsub, case)) = self.replay.clone() {
            if rsub != sub {
                return;
            }
            let v: S::Value = serde_json::from_value(case).expect("replay case does not parse");
            let (r, _) = self.run_one(sub, &v, &test);
            self.replayed += 1;
            match r {
                Ok(o) => println!("replay: the property holds on this case ({o:?})"),
                Err(e) => {
                    println!("replay: {e}");
                    self.violated = Some("replayed".into());
                }
            }
            return;
        }
        if self.only_sub.as_deref().map(|s| s != sub).unwrap_or(false) {
            return;
        }

        let t0 = Instant::now();
        let cases = if self.thorough { plan.thorough } else { plan.quick };
        let mut seed = [0u8; 32];
        for (i, c) in seed.chunks_mut(8).enumerate() {
            c.copy_from_slice(
                &hash_str(&format!("{}/{}/{}/{}", self.seed, self.id, sub, i)).to_le_bytes(),
            );
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: plan.max_shrink,
            max_shrink_time: 60_000,
            max_global_rejects: 0,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let stats = std::cell::RefCell::new(SubStats { rule: rule.into(), ..Default::default() });
        let first_fail: std::cell::RefCell<Option<(S::Value, String)>> = Default::default();
        let me = &*self;

        let outcome = runner.run(&strategy, |v| {
            // timing-dependent failures are re-tried before they count
            let (mut r, case) = me.run_one(sub, &v, &test);
            if plan.timing && r.is_err() && first_fail.borrow().is_none() {
                let mut again = 0;
                let mut last = r.clone();
                for _ in 0..6 {
                    std::thread::sleep(Duration::from_millis(50));
                    let (r2, _) = me.run_one(sub, &v, &test);
                    if r2.is_err() {
                        again += 1;
                        last = r2;
                    }
                    if again >= 2 {
                        break;
                    }
                }
                if again >= 2 {
                    r = last;
                } else {
                    stats.borrow_mut().unconfirmed += 1;
                    eprintln!("note: {} {sub}: did not reproduce: {:?}", me.id, r.unwrap_err());
                    return Ok(());
                }
            }
            match r {
                Ok(o) => {
                    if first_fail.borrow().is_none() {
                        let mut s = stats.borrow_mut();
                        let (cases, nontrivial) = o.many.unwrap_or((1, if o.nontrivial { vec![case] } else { vec![] }));
                        s.evaluations += cases;
                        for l in o.labels {
                            *s.labels.entry(l).or_default() += 1;
                        }
                        for case in nontrivial {
                            let fresh = s.distinct.insert(hash_str(&case));
                            let n = s.distinct.len();
                            if fresh && (n == 1 || n == 17 || n == 101) {
                                s.samples.push(clip(&serde_json::from_str(&case).unwrap(), 1200));
                            }
                        }
                    }
                    Ok(())
                }
                Err(e) => {
                    let mut f = first_fail.borrow_mut();
                    if f.is_none() {
                        stats.borrow_mut().evaluations += 1;
                        *f = Some((v, e.clone()));
                    }
                    Err(TestCaseError::fail(e))
                }
            }
        });

        let mut stats = stats.into_inner();
        match outcome {
            Ok(()) => {}
            Err(TestError::Abort(r)) => {
                eprintln!("harness error: {} {sub}: {r}", self.id);
                std::process::exit(3);
            }
            Err(TestError::Fail(reason, v)) => {
                let (fv, fe) = first_fail.into_inner().unwrap();
                // prefer the shrunk case; fall back to the case first seen
                let (mut case, mut why) = (v.clone(), reason.message().to_string());
                if plan.timing {
                    let (mut hits, mut misses) = (0, 0);
                    while hits < 2 && misses < 2 {
                        match self.run_one(sub, &v, &test).0 {
                            Err(_) => hits += 1,
                            Ok(_) => misses += 1,
                        }
                    }
                    if hits < 2 {
                        case = fv;
                        why = fe;
                    }
                }
                let cj = serde_json::to_value(&case).unwrap();
                let path = self.save_replay(sub, &cj, &why);
                stats.failed = Some(json!({"case": clip(&cj, 2000), "why": why}));
                println!("{}: {} failed: {}", self.id, sub, clip(&Value::String(why.clone()), 1500));
                println!("  case: {}", clip(&cj, 1500));
                self.violated = Some(path);
            }
        }
        eprintln!(
            "{} {sub}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
            self.id,
            stats.evaluations,
            stats.distinct.len(),
            t0.elapsed().as_secs_f64(),
            stats.labels
        );
        self.subs.push((sub.to_string(), stats));
    }

    /// A listed finding: run its recorded input; say so if it still fails.
    pub fn known_case<V, F>(&mut self, key: &str, case: V, test: F)
    where
        V: Serialize,
        F: Fn(&V) -> TestResult,
    {
        if self.replay.is_some() || self.violated.is_some() || self.only_sub.is_some() {
            return;
        }
        let Some(text) = self.known_text(key) else { return };
        let (r, _) = self.run_one(key, &case, &test);
        if r.is_err() {
            self.known_hits.push(text);
        }
    }

    fn save_replay(&self, sub: &str, case: &Value, why: &str) -> String {
        save_replay(&self.id, sub, case, why)
    }

    pub fn finish(&mut self) -> i32 {
        if self.replay.is_some() {
            if self.replayed == 0 {
                eprintln!("replay: no such sub-check");
                return 3;
            }
            return if self.violated.is_some() { 1 } else { 0 };
        }
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut rules = vec![];
        let mut subs = serde_json::Map::new();
        for (name, s) in &self.subs {
            evals += s.evaluations;
            distinct += s.distinct.len() as u64;
            for c in s.samples.iter().take(2) {
                samples.push(json!({"sub": name, "case": c}));
            }
            rules.push(format!("{name}: {}", s.rule));
            let mut o = json!({
                "evaluations": s.evaluations,
                "distinct_nontrivial": s.distinct.len(),
                "labels": s.labels,
            });
            if s.unconfirmed > 0 {
                o["not_reproduced"] = json!(s.unconfirmed);
            }
            if let Some(f) = &s.failed {
                o["failed"] = f.clone();
            }
            subs.insert(name.clone(), o);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": rules.join(" | "),
                "samples": samples,
                "sub_checks": subs,
                "known_findings_hit": self.known_hits,
            },
            "assumptions": self.assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": if self.violated.is_some() { 1 } else { 0 },
        });
        write_evidence(&self.id, &ev);
        for k in &self.known_hits {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        if let Some(p) = &self.violated {
            println!("VIOLATION property={} replay={}", self.id, p);
            return 1;
        }
        println!("{}: held on {evals} cases ({distinct} distinct non-trivial)", self.id);
        0
    }
}

pub fn write_evidence(id: &str, ev: &Value) {
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{id}.tmp");
    std::fs::write(&tmp, serde_json::to_string_pretty(ev).unwrap()).unwrap();
    std::fs::rename(&tmp, format!("{dir}/{id}.json")).unwrap();
}

pub fn save_replay(id: &str, sub: &str, case: &Value, why: &str) -> String {
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": id, "sub": sub, "why": why, "case": case});
    let path = format!("{dir}/{id}-{sub}-{:08x}.json", hash_str(&case.to_string()) as u32);
    let mut f = std::fs::File::create(&path).unwrap();
    f.write_all(serde_json::to_string_pretty(&body).unwrap().as_bytes()).unwrap();
    path
}

/// A case that does not come back is a failure too: report it from a thread of its own.
pub fn start_watchdog(id: String, replaying: bool) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let Ok(cur) = CURRENT.lock() else { continue };
        if let Some(c) = &*cur {
            if c.since.elapsed() > c.limit {
                let case: Value = serde_json::from_str(&c.case).unwrap_or(Value::Null);
                let why = format!("no answer within {:?}", c.limit);
                limit_files(u64::MAX);
                if !replaying {
                    let path = save_replay(&id, &c.sub, &case, &why);
                    write_evidence(
                        &id,
                        &json!({
                            "property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                            "level": "exploration",
                            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "case that hung", "samples": [clip(&case, 2000)]},
                            "wall_s": c.limit.as_secs_f64(), "violations": 1,
                        }),
                    );
                    println!("{id}: {} hung: {}", c.sub, clip(&case, 1500));
                    println!("VIOLATION property={id} replay={path}");
                } else {
                    println!("replay: {why}");
                }
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(1) };
            }
        }
    });
}

/// Scratch directory of this process, removed on drop.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Self {
        use std::sync::atomic::AtomicU64;
        static N: AtomicU64 = AtomicU64::new(0);
        let base = scratch_base();
        let p = base.join(format!("{tag}{}", N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

pub fn scratch_base() -> PathBuf {
    let root = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{root}/nargun-verif-{}", unsafe { libc::getpid() }))
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Deterministic filler bytes.
pub fn fill(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(len);
    v
}

/// Run a future on a fresh single-threaded runtime whose clock is virtual.
pub fn paused<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    let out = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_secs(5));
    out
}

/// Run a future on a fresh single-threaded runtime with the real clock.
pub fn live<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let out = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_secs(5));
    out
}

/// From now on no file can grow beyond that; what tries is told so and not killed.
pub fn limit_files(at: u64) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut l = std::mem::zeroed::<libc::rlimit>();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0);
        l.rlim_cur = at.min(l.rlim_max);
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
    }
}
