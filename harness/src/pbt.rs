//! A thin layer over proptest: seeded multi-worker runs, classification of
//! cases, shrinking, JSON replay files, evidence files, crash supervision.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a passing case reports about itself.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Seen {
    pub fn new(nontrivial: bool) -> Self {
        Seen { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c {
            self.label(l)
        } else {
            self
        }
    }
}

/// A failing case: a message, and a signature if it may be a known finding.
#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub signature: Option<String>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, signature: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.into(), signature: None }
    }
}
impl Fail {
    pub fn known(signature: &str, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), signature: Some(signature.into()) }
    }
}
pub type TestResult = Result<Seen, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err($crate::pbt::Fail::from(format!($($a)*))); }
    };
}

#[derive(Default, Clone)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

pub struct Found {
    pub case: Value,
    pub msg: String,
}

struct FacetRun {
    stats: Stats,
    found: Option<Found>,
    truncated: bool,
    wall: f64,
}

pub struct RunCfg {
    property: String,
    tier: Tier,
    seed: u64,
    scale: f64,
    crumbs: PathBuf,
    deadline: Instant,
    known: HashSet<String>,
}

type RunFn = Box<dyn Fn(&RunCfg) -> Result<FacetRun, String>>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<TestResult, String>>;

pub struct Facet {
    pub name: &'static str,
    pub rule: &'static str,
    run: RunFn,
    replay: ReplayFn,
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub facets: Vec<Facet>,
}

pub fn workers() -> usize {
    std::env::var("PBT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// Cases in progress: worker key -> (since, facet, case).
static RUNNING: Mutex<BTreeMap<String, (Instant, String, String)>> = Mutex::new(BTreeMap::new());
/// A case that takes this long counts as a hang (the slowest take seconds).
fn hang_limit() -> Duration {
    Duration::from_secs(std::env::var("PBT_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(200))
}
fn watch(property: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let hung = {
            let g = RUNNING.lock().unwrap_or_else(|e| e.into_inner());
            g.values().find(|v| v.0.elapsed() > hang_limit()).cloned()
        };
        if let Some((t, facet, text)) = hung {
            let case: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            report_violation(&property, &facet, env_seed(), &case, &format!("no answer after {} s", t.elapsed().as_secs()));
            crash_evidence(&property, &facet, &case);
            std::process::exit(1);
        }
    });
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let m = format!(
            "{} at {}",
            m.chars().take(300).collect::<String>(),
            info.location().map(|l| l.to_string()).unwrap_or_default()
        );
        if std::env::var("PBT_PANICS").is_ok() {
            eprintln!("panic: {m}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = m.clone());
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = m;
        }
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.is_empty() {
                m = ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
            }
            Err(m)
        }
    }
}

fn run_case<T>(test: &dyn Fn(&T) -> TestResult, case: &T) -> TestResult {
    match no_panic(|| test(case)) {
        Ok(r) => r,
        Err(m) => Err(Fail::from(format!("panic: {m}"))),
    }
}

fn hash64(b: &[u8]) -> u64 {
    let d = Sha256::digest(b);
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

fn truncate_value(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        Value::String(format!("{}... ({} bytes of JSON)", &s.chars().take(1400).collect::<String>(), s.len()))
    }
}

/// Builds a facet: a strategy for cases, a number of cases per tier, a test.
pub fn facet<T, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: S,
    test: fn(&T) -> TestResult,
) -> Facet
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<T> + Send + Sync + 'static,
{
    facet_w(name, rule, quick, thorough, usize::MAX, strategy, test)
}

/// As `facet`, with at most `max_workers` workers.
pub fn facet_w<T, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    max_workers: usize,
    strategy: S,
    test: fn(&T) -> TestResult,
) -> Facet
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    S: Fn(Tier) -> BoxedStrategy<T> + Send + Sync + 'static,
{
    let run: RunFn = Box::new(move |cfg| {
        let total = match cfg.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        let total = ((total as f64 * cfg.scale).ceil() as u32).max(1);
        let w = workers().min(max_workers).min(total as usize).max(1);
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let truncated = AtomicBool::new(false);
        let results: Mutex<Vec<(usize, Stats, Option<Found>, Option<String>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for wi in 0..w {
                let n = total / w as u32 + u32::from((wi as u32) < total % w as u32);
                let (stop, truncated, results, strategy) = (&stop, &truncated, &results, &strategy);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let r = worker(cfg, name, wi, n, strategy(cfg.tier), test, stop, truncated);
                        results.lock().unwrap().push((wi, r.0, r.1, r.2));
                    })
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut stats = Stats::default();
        let mut found = None;
        for (_, s, f, e) in rs {
            if let Some(e) = e {
                return Err(e);
            }
            stats.merge(s);
            if found.is_none() {
                found = f;
            }
        }
        Ok(FacetRun {
            stats,
            found,
            truncated: truncated.load(Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
        })
    });
    let replay: ReplayFn = Box::new(move |v| {
        let case: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(run_case(&test, &case))
    });
    Facet { name, rule, run, replay }
}

#[allow(clippy::too_many_arguments)]
fn worker<T>(
    cfg: &RunCfg,
    facet: &'static str,
    wi: usize,
    cases: u32,
    strategy: BoxedStrategy<T>,
    test: fn(&T) -> TestResult,
    stop: &AtomicBool,
    truncated: &AtomicBool,
) -> (Stats, Option<Found>, Option<String>)
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    let mut h = Sha256::new();
    h.update(cfg.seed.to_le_bytes());
    h.update(cfg.property.as_bytes());
    h.update(facet.as_bytes());
    h.update((wi as u64).to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &h.finalize());
    let config = Config {
        cases,
        max_shrink_iters: 400,
        max_shrink_time: 90_000,
        failure_persistence: None,
        max_local_rejects: 1_000_000,
        max_global_rejects: 1_000_000,
        verbose: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng);
    let stats = RefCell::new(Stats::default());
    let failing = RefCell::new(false);
    let crumb = cfg.crumbs.join(format!("{facet}.{wi}.json"));
    let res = runner.run(&strategy, |case| {
        if stop.load(Ordering::Relaxed) && !*failing.borrow() {
            return Ok(());
        }
        if Instant::now() > cfg.deadline {
            truncated.store(true, Ordering::Relaxed);
            return Ok(());
        }
        let text = serde_json::to_string(&case).unwrap();
        let _ = std::fs::write(&crumb, &text);
        let key = format!("{facet}.{wi}");
        RUNNING.lock().unwrap().insert(key.clone(), (Instant::now(), facet.to_string(), text.clone()));
        let r = run_case(&test, &case);
        RUNNING.lock().unwrap().remove(&key);
        let mut st = stats.borrow_mut();
        match r {
            Ok(seen) => {
                if !*failing.borrow() {
                    st.evaluations += 1;
                    for l in seen.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    if seen.nontrivial {
                        st.nontrivial += 1;
                        st.distinct.insert(hash64(text.as_bytes()));
                        if st.samples.is_empty() && wi < 2 {
                            st.samples.push(truncate_value(&serde_json::to_value(&case).unwrap()));
                        }
                    }
                }
                Ok(())
            }
            Err(f) => {
                if let Some(sig) = &f.signature {
                    if cfg.known.contains(sig) {
                        st.known.insert(sig.clone(), f.msg.clone());
                        st.evaluations += 1;
                        return Ok(());
                    }
                }
                if !*failing.borrow() {
                    st.evaluations += 1;
                    *failing.borrow_mut() = true;
                    stop.store(true, Ordering::Relaxed);
                }
                Err(TestCaseError::fail(f.msg))
            }
        }
    });
    let _ = std::fs::remove_file(&crumb);
    match res {
        Ok(()) => (stats.into_inner(), None, None),
        Err(TestError::Fail(reason, case)) => (
            stats.into_inner(),
            Some(Found {
                case: serde_json::to_value(&case).unwrap(),
                msg: reason.message().to_string(),
            }),
            None,
        ),
        Err(TestError::Abort(reason)) => {
            (stats.into_inner(), None, Some(format!("generator aborted: {}", reason.message())))
        }
    }
}

pub fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn work_dir() -> PathBuf {
    let d = verif_root().join("work");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Known findings: /verif/known_findings.json holds a list of objects with
/// `property`, `signature`, `what`.  Entries under "fixed" suppress nothing.
fn known_findings(property: &str) -> Vec<(String, String)> {
    let p = verif_root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&t) else { return vec![] };
    v["known"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == property)
                .map(|e| {
                    (
                        e["signature"].as_str().unwrap_or("").to_string(),
                        e["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn write_replay(property: &str, facet: &str, seed: u64, case: &Value, msg: &str) -> PathBuf {
    let dir = work_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": property, "facet": facet, "seed": seed, "message": msg, "case": case});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let p = dir.join(format!("{property}-{facet}-{:016x}.json", hash64(text.as_bytes())));
    let _ = std::fs::write(&p, text);
    p
}

fn report_violation(property: &str, facet: &str, seed: u64, case: &Value, msg: &str) {
    let p = write_replay(property, facet, seed, case, msg);
    println!("facet {facet}: {}", msg.chars().take(2000).collect::<String>());
    println!("case: {}", case.to_string().chars().take(2000).collect::<String>());
    println!("VIOLATION property={property} replay={}", p.display());
    let _ = std::io::stdout().flush();
}

fn write_evidence(prop: &Property, cfg: &RunCfg, runs: &[(&Facet, FacetRun)], wall: f64, violations: u64) {
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut rule = String::new();
    for (f, r) in runs {
        evaluations += r.stats.evaluations;
        distinct += r.stats.distinct.len() as u64;
        for s in r.stats.samples.iter().take(2) {
            samples.push(json!({"facet": f.name, "case": s}));
        }
        rule.push_str(&format!("[{}] {} ", f.name, f.rule));
        per.insert(
            f.name.to_string(),
            json!({
                "evaluations": r.stats.evaluations,
                "nontrivial": r.stats.nontrivial,
                "distinct_nontrivial": r.stats.distinct.len(),
                "classes": r.stats.labels,
                "stopped_early_by_time_limit": r.truncated,
                "wall_s": (r.wall * 100.0).round() / 100.0,
            }),
        );
    }
    let ev = json!({
        "property": prop.id,
        "tier": cfg.tier.name(),
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule.trim(),
            "samples": samples,
            "facets": per,
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
}

/// The child's work: runs every facet of one property in turn.
fn check(props: &[Property], id: &str, only: Option<&str>, crumbs: &Path) -> i32 {
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = env_tier();
    let limit = std::env::var("PBT_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420u64,
        Tier::Thorough => 6 * 3600,
    });
    let known = known_findings(id);
    let cfg = RunCfg {
        property: id.to_string(),
        tier,
        seed: env_seed(),
        scale: std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        crumbs: crumbs.to_path_buf(),
        deadline: Instant::now() + Duration::from_secs(limit),
        known: known.iter().map(|k| k.0.clone()).collect(),
    };
    watch(id.to_string());
    let t0 = Instant::now();
    let mut runs = vec![];
    let mut violations = 0;
    for f in &prop.facets {
        if let Some(o) = only {
            if o != f.name {
                continue;
            }
        }
        match (f.run)(&cfg) {
            Err(e) => {
                eprintln!("error in facet {}: {e}", f.name);
                return 2;
            }
            Ok(r) => {
                println!(
                    "{} {}: {} cases, {} distinct non-trivial, {:.1}s{}",
                    id,
                    f.name,
                    r.stats.evaluations,
                    r.stats.distinct.len(),
                    r.wall,
                    if r.truncated { " (time limit)" } else { "" }
                );
                for (k, v) in &r.stats.labels {
                    println!("    {k}: {v}");
                }
                let _ = std::io::stdout().flush();
                let found = r.found.as_ref().map(|x| (x.case.clone(), x.msg.clone()));
                runs.push((f, r));
                if let Some((case, msg)) = found {
                    violations += 1;
                    report_violation(id, f.name, cfg.seed, &case, &msg);
                    break;
                }
            }
        }
    }
    for (sig, what) in &known {
        if runs.iter().any(|(_, r)| r.stats.known.contains_key(sig)) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    write_evidence(prop, &cfg, &runs, t0.elapsed().as_secs_f64(), violations);
    i32::from(violations > 0)
}

fn replay(props: &[Property], file: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| {
        serde_json::from_str(&t).map_err(|e| e.to_string())
    }) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let (pid, fname) = (v["property"].as_str().unwrap_or(""), v["facet"].as_str().unwrap_or(""));
    let Some(f) = props
        .iter()
        .find(|p| p.id == pid)
        .and_then(|p| p.facets.iter().find(|f| f.name == fname))
    else {
        eprintln!("no such facet: {pid}/{fname}");
        return 2;
    };
    watch(pid.to_string());
    RUNNING.lock().unwrap().insert("replay".into(), (Instant::now(), fname.to_string(), v["case"].to_string()));
    match (f.replay)(&v["case"]) {
        Err(e) => {
            eprintln!("bad case: {e}");
            2
        }
        Ok(Ok(_)) => {
            println!("replay passes: property={pid} facet={fname}");
            0
        }
        Ok(Err(f)) => {
            println!("replay fails: {}", f.msg);
            println!("VIOLATION property={pid} replay={file}");
            1
        }
    }
}

/// Entry point of every check binary.
///   <bin> check <id> [facet]      <bin> replay <file>      <bin> list
pub fn main(build: fn() -> Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    install_panic_hook();
    let code = match cmd {
        "list" => {
            for p in build() {
                for f in p.facets {
                    println!("{} {}", p.id, f.name);
                }
            }
            0
        }
        "replay" if args.len() == 3 => {
            // In a child, so that a crash of the code under test is reported too.
            if std::env::var("PBT_CHILD").is_ok() {
                replay(&build(), &args[2])
            } else {
                let st = spawn_self(&args[1..], &std::env::temp_dir());
                match st {
                    ChildEnd::Exit(c) => c,
                    ChildEnd::Signal(s) => {
                        let v: Value = std::fs::read_to_string(&args[2])
                            .ok()
                            .and_then(|t| serde_json::from_str(&t).ok())
                            .unwrap_or(Value::Null);
                        println!("replay fails: process killed by signal {s}");
                        println!(
                            "VIOLATION property={} replay={}",
                            v["property"].as_str().unwrap_or("?"),
                            args[2]
                        );
                        1
                    }
                }
            }
        }
        "check" if args.len() >= 3 => {
            let id = args[2].clone();
            if let Ok(dir) = std::env::var("PBT_CHILD") {
                // A panic outside a test is the harness's own mistake.
                catch_unwind(|| check(&build(), &id, args.get(3).map(|s| s.as_str()), Path::new(&dir))).unwrap_or_else(|_| {
                    eprintln!("the harness panicked: {}", ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default());
                    2
                })
            } else {
                supervise(&args, &id)
            }
        }
        _ => {
            eprintln!("usage: {} check ID [FACET] | replay FILE | list", args[0]);
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

enum ChildEnd {
    Exit(i32),
    Signal(i32),
}

fn spawn_self(args: &[String], crumbs: &Path) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .args(args)
        .env("PBT_CHILD", crumbs)
        .status()
        .expect("spawn");
    match st.code() {
        Some(c) => ChildEnd::Exit(c),
        None => ChildEnd::Signal(st.signal().unwrap_or(0)),
    }
}

/// Runs the check in a child process.  If the code under test kills the
/// process (abort, invalid memory access), finds the case that did it among
/// the cases that were being run, confirms it, and reports it.
fn supervise(args: &[String], id: &str) -> i32 {
    let crumbs = work_dir().join(format!("crumbs-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&crumbs);
    let end = spawn_self(&args[1..], &crumbs);
    let code = match end {
        ChildEnd::Exit(c) => c,
        ChildEnd::Signal(sig) => {
            eprintln!("check process ended by signal {sig}");
            let mut code = 2;
            // SIGKILL is the memory limit or a watchdog, never a violation.
            if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT {
                let mut files: Vec<_> = std::fs::read_dir(&crumbs)
                    .map(|d| d.flatten().map(|e| e.path()).collect())
                    .unwrap_or_default();
                files.sort();
                for f in files {
                    let stem = f.file_stem().unwrap().to_string_lossy().to_string();
                    let facet = stem.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(stem);
                    let Some(case) = std::fs::read_to_string(&f)
                        .ok()
                        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
                    else {
                        continue;
                    };
                    let p = write_replay(id, &facet, env_seed(), &case, "process crash");
                    let r = spawn_self(
                        &["replay".to_string(), p.display().to_string()],
                        &crumbs,
                    );
                    if let ChildEnd::Signal(s2) = r {
                        if s2 != libc::SIGKILL {
                            println!("facet {facet}: the process is killed by signal {s2}");
                            println!("VIOLATION property={id} replay={}", p.display());
                            crash_evidence(id, &facet, &case);
                            code = 1;
                            break;
                        }
                    } else if let ChildEnd::Exit(1) = r {
                        crash_evidence(id, &facet, &case);
                        code = 1;
                        break;
                    } else {
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            code
        }
    };
    let _ = std::fs::remove_dir_all(&crumbs);
    code
}

fn crash_evidence(id: &str, facet: &str, case: &Value) {
    let ev = json!({
        "property": id, "tier": env_tier().name(), "seed": env_seed(), "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
            "rule": "the run was cut short by a crash of the process; the one case counted is the crashing case, run again on its own",
            "samples": [{"facet": facet, "case": truncate_value(case)}]},
        "wall_s": 0.0, "violations": 1});
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{id}.json")), ev.to_string());
}

/// Shared helper: a value made once per thread (contexts and the like).
pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}

pub type Shared<T> = Arc<T>;
