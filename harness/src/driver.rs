//! Sharded proptest runner: fixed work per tier, every random choice from
//! VERIF_SEED, shrinking, JSON replay files, evidence.
//!
//! Exit codes: 0 held, 1 violation (with a VIOLATION line), anything else is an
//! error of the check (watchdog, harness failure).

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// After this many seconds a family only runs its first `LEAST_CASES` cases per shard, so that a
/// check ends in time on a slow machine; the evidence counts the cases which ran.
const TIME_LIMIT_S: u64 = 690;
const LEAST_CASES: u64 = 400;

pub const SHARDS: u64 = 8;
const CASE_LIMIT_S: u64 = 40;
const HUNG: i32 = 3;
/// Steps (source polls, lock and atomic operations) after which a case counts as a livelock.
const TICK_LIMIT: u64 = 100_000_000;

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Counts a step of the case; a case which never ends is cut off by a panic.
pub fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > TICK_LIMIT && !std::thread::panicking() {
            t.set(0);
            panic!("livelock: more than {TICK_LIMIT} steps in one case");
        }
    });
}

pub fn reset_ticks() {
    TICKS.with(|t| t.set(0));
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Obs {
    counts: BTreeMap<&'static str, u64>,
    nontrivial: bool,
}

impl Obs {
    /// Classifies the case (counted once per case and label).
    pub fn label(&mut self, label: &'static str) {
        *self.counts.entry(label).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, cond: bool, label: &'static str) {
        if cond {
            self.label(label)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        if cond {
            self.nontrivial = true
        }
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

#[derive(Default)]
struct Family {
    name: String,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    family: String,
    message: String,
    seed: u64,
    case: serde_json::Value,
}

pub struct Runner {
    id: &'static str,
    rule: &'static str,
    level: &'static str,
    seed: u64,
    thorough: bool,
    replay: Option<Replay>,
    trace: Option<PathBuf>,
    only: Option<String>,
    scale: f64,
    families: Vec<Family>,
    violation: Option<(String, String, String)>,
    start: Instant,
    time_limit: u64,
    clock: Arc<Clock>,
}

struct Clock {
    t0: Instant,
    started: Vec<AtomicU64>,
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn mix(seed: u64, parts: &[&str], shard: u64) -> [u8; 32] {
    // FNV-1a over the parts, expanded by splitmix64
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |b: u8| {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    };
    for p in parts {
        p.bytes().for_each(&mut eat);
        eat(0xff);
    }
    seed.to_le_bytes().into_iter().for_each(&mut eat);
    shard.to_le_bytes().into_iter().for_each(&mut eat);
    let mut out = [0; 32];
    let mut s = h;
    for chunk in out.chunks_mut(8) {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

/// The hook of single-threaded cases: a lock which cannot be acquired can never be.
struct Alone;

impl futures_signals::verif::Hook for Alone {
    fn operation(&self) {
        tick();
    }
    fn blocked(&self) {
        if std::thread::panicking() {
            eprintln!("deadlock while unwinding");
            std::process::abort();
        }
        panic!("deadlock: a thread waits for a lock which it holds itself");
    }
}

/// Runs `f` with another hook installed.
pub fn guarded_section<R>(hook: std::rc::Rc<dyn futures_signals::verif::Hook>, f: impl FnOnce() -> R) -> R {
    futures_signals::verif::set_hook(Some(hook));
    let r = f();
    futures_signals::verif::set_hook(Some(std::rc::Rc::new(Alone)));
    r
}

/// Runs one case, turning panics into failures.
pub fn guarded<F: FnOnce() -> Outcome>(f: F) -> Outcome {
    reset_ticks();
    futures_signals::verif::set_hook(Some(std::rc::Rc::new(Alone)));
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            drop(e);
            Err(format!("panic: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))
        }
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{msg} at {loc}"));
            }
        });
    }));
}

/// Message of the last panic of this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

impl Runner {
    /// `rule` describes how cases are made and what makes one non-trivial.
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = None;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--replay" => {
                    let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                    replay = Some(serde_json::from_str(&text).expect("replay json"));
                    i += 1;
                }
                "--family" => {
                    only = Some(args[i + 1].clone());
                    i += 1;
                }
                a => {
                    eprintln!("unknown argument {a}");
                    std::process::exit(2)
                }
            }
            i += 1;
        }
        if std::env::var_os("VERIF_CHILD").is_none() {
            std::process::exit(parent(id, replay.is_some()));
        }
        limit_memory();
        let blocks = crate::fine::init();
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            println!("{blocks} basic blocks of the library are points of preemption");
        }
        install_panic_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let clock = Arc::new(Clock { t0: Instant::now(), started: (0..SHARDS).map(|_| AtomicU64::new(0)).collect() });
        {
            let clock = clock.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = clock.t0.elapsed().as_secs();
                for s in &clock.started {
                    let at = s.load(Ordering::Relaxed);
                    if at != 0 && now > at + CASE_LIMIT_S {
                        println!("a case ran for more than {CASE_LIMIT_S} s");
                        std::process::exit(HUNG);
                    }
                }
            });
        }
        Self {
            id,
            rule,
            level: "exploration",
            seed,
            thorough,
            replay,
            trace: std::env::var_os("VERIF_TRACE").map(PathBuf::from),
            only,
            scale,
            families: vec![],
            violation: None,
            start: Instant::now(),
            time_limit: std::env::var("VERIF_TIME_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(TIME_LIMIT_S),
            clock,
        }
    }

    pub fn thorough(&self) -> bool {
        self.thorough
    }

    /// Explores one family of cases: `quick` (or `thorough`) generated cases.
    pub fn family<C, S, M, R>(&mut self, name: &str, quick: u64, thorough: u64, strategy: M, run: R)
    where
        C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        S: Strategy<Value = C> + 'static,
        M: Fn() -> S + Sync,
        R: Fn(&C, &mut Obs) -> Outcome + Sync,
    {
        if let Some(r) = &self.replay {
            if r.family == name {
                let case: C = serde_json::from_value(r.case.clone()).expect("case of the replay file");
                let mut obs = Obs::default();
                self.clock.started[0].store(self.clock.t0.elapsed().as_secs().max(1), Ordering::Relaxed);
                let outcome = guarded(|| run(&case, &mut obs));
                self.clock.started[0].store(0, Ordering::Relaxed);
                println!("replaying {} {}: {:?}", self.id, name, case);
                match outcome {
                    Ok(()) => println!("held"),
                    Err(m) => {
                        println!("failed: {m}");
                        self.violation = Some((name.into(), m, "".into()));
                    }
                }
            }
            return;
        }
        if self.violation.is_some() || self.only.as_deref().map_or(false, |o| o != name) {
            return;
        }
        let total = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).max(1.0) as u64;
        let abort = AtomicBool::new(false);
        let failure: Mutex<Option<(u64, String, C)>> = Mutex::new(None);
        let merged: Mutex<Family> = Mutex::new(Family { name: name.into(), ..Default::default() });
        std::thread::scope(|scope| {
            for shard in 0..SHARDS {
                let (abort, failure, merged, run, strategy) = (&abort, &failure, &merged, &run, &strategy);
                let cases = total / SHARDS + u64::from(shard < total % SHARDS);
                if cases == 0 {
                    continue;
                }
                let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(self.seed, &[self.id, name], shard));
                let id = self.id;
                let seed = self.seed;
                let clock = self.clock.clone();
                let (started, limit) = (self.start, self.time_limit);
                let trace = self.trace.as_ref().map(|d| d.join(format!("{name}-{shard}.json")));
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                cases: cases as u32,
                                failure_persistence: None,
                                max_shrink_iters: 30_000,
                                max_shrink_time: 40_000,
                                max_global_rejects: 1,
                                ..Config::default()
                            },
                            rng,
                        );
                        let local: RefCell<Family> = RefCell::default();
                        let (failed, stopped) = (Cell::new(false), Cell::new(false));
                        let result = runner.run(&strategy(), |case: C| {
                            // stop when another shard failed, or when time runs out (a slow machine)
                            if !failed.get() && (abort.load(Ordering::Relaxed) || (started.elapsed().as_secs() >= limit && local.borrow().evaluations >= LEAST_CASES)) {
                                stopped.set(true);
                                return Err(TestCaseError::reject("stopped"));
                            }
                            let json = serde_json::to_vec(&case).expect("case serialises");
                            if let Some(trace) = &trace {
                                let r = Replay {
                                    property: id.into(),
                                    family: name.into(),
                                    message: "crash".into(),
                                    seed,
                                    case: serde_json::to_value(&case).unwrap(),
                                };
                                std::fs::write(trace, serde_json::to_vec(&r).unwrap()).unwrap();
                            }
                            clock.started[shard as usize].store(clock.t0.elapsed().as_secs().max(1), Ordering::Relaxed);
                            let mut obs = Obs::default();
                            let outcome = guarded(|| run(&case, &mut obs));
                            clock.started[shard as usize].store(0, Ordering::Relaxed);
                            if !failed.get() {
                                let mut l = local.borrow_mut();
                                l.evaluations += 1;
                                for k in obs.counts.keys() {
                                    *l.labels.entry(k).or_insert(0) += 1;
                                }
                                if obs.nontrivial {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    json.hash(&mut h);
                                    l.nontrivial.insert(h.finish());
                                    if shard == 0 && json.len() < 1500 && (l.samples.is_empty() || (l.samples.len() < 2 && l.evaluations > cases / 2)) {
                                        l.samples.push(serde_json::json!({"family": name, "case": serde_json::to_value(&case).unwrap()}));
                                    }
                                }
                            }
                            match outcome {
                                Ok(()) => Ok(()),
                                Err(m) => {
                                    failed.set(true);
                                    abort.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        {
                            let l = local.into_inner();
                            let mut m = merged.lock().unwrap();
                            m.evaluations += l.evaluations;
                            m.nontrivial.extend(l.nontrivial);
                            for (k, v) in l.labels {
                                *m.labels.entry(k).or_insert(0) += v;
                            }
                            m.samples.extend(l.samples);
                        }
                        match result {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |(s, _, _)| *s > shard) {
                                    *f = Some((shard, reason.message().to_string(), case));
                                }
                            }
                            Err(TestError::Abort(_)) if stopped.get() => {}
                            Err(TestError::Abort(reason)) => {
                                println!("ERROR: generator aborted: {reason}");
                                std::process::exit(2);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let merged = merged.into_inner().unwrap();
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            println!(
                "{} {name}: {} cases, {} distinct non-trivial, {:.1}s, {:?}",
                self.id,
                merged.evaluations,
                merged.nontrivial.len(),
                self.start.elapsed().as_secs_f64(),
                merged.labels
            );
        }
        self.families.push(merged);
        if let Some((_, message, case)) = failure.into_inner().unwrap() {
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}.json", self.id, name.replace(['/', ' '], "_")));
            let replay = Replay {
                property: self.id.into(),
                family: name.into(),
                message: message.clone(),
                seed: self.seed,
                case: serde_json::to_value(&case).unwrap(),
            };
            std::fs::write(&path, serde_json::to_vec_pretty(&replay).unwrap()).expect("write replay");
            let short = |s: &str| match s.char_indices().nth(3000) {
                Some((i, _)) => format!("{} ...", &s[..i]),
                None => s.to_string(),
            };
            println!("{} {name}: {}", self.id, short(&message));
            println!("  minimal case: {}", short(&format!("{case:?}")));
            self.violation = Some((name.into(), message, path.display().to_string()));
        }
    }

    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            std::process::exit(if self.violation.is_some() { 1 } else { 0 });
        }
        let evaluations: u64 = self.families.iter().map(|f| f.evaluations).sum();
        let nontrivial: usize = self.families.iter().map(|f| f.nontrivial.len()).sum();
        let samples: Vec<_> = self.families.iter().flat_map(|f| f.samples.iter().cloned()).collect();
        let families: BTreeMap<_, _> = self
            .families
            .iter()
            .map(|f| {
                (
                    f.name.clone(),
                    serde_json::json!({"evaluations": f.evaluations, "distinct_nontrivial": f.nontrivial.len(), "classes": f.labels}),
                )
            })
            .collect();
        let evidence = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": self.rule,
                "samples": samples,
                "families": families,
            },
            "assumptions": [
                "the reference models in /verif/harness state the property",
                "sizes and case counts as in DESIGN.md; nothing is claimed beyond the cases run",
                "lock and atomic operations behave sequentially consistently (no weak-memory effects are explored)"
            ],
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": self.violation.is_some() as u32,
        });
        write_evidence(self.id, &evidence);
        match self.violation {
            Some((_, _, path)) => {
                println!("VIOLATION property={} replay={}", self.id, path);
                std::process::exit(1)
            }
            None => {
                println!("{}: held on {evaluations} cases ({nontrivial} distinct non-trivial)", self.id);
                std::process::exit(0)
            }
        }
    }
}

fn write_evidence(id: &str, evidence: &serde_json::Value) {
    if std::env::var_os("VERIF_NO_EVIDENCE").is_some() {
        return;
    }
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_vec_pretty(evidence).unwrap()).expect("write evidence");
}

/// A case which allocates without end aborts the process (which is found and reproduced like
/// any crash) instead of taking all the memory of the machine. The checks need some 200 MB.
fn limit_memory() {
    let limit = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &limit);
    }
}

/// Runs the check in a child process, so that a crash of the code under test
/// (double free, stack overflow) is found and reproduced instead of ending the check.
fn parent(id: &'static str, replaying: bool) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let args: Vec<_> = std::env::args_os().skip(1).collect();
    let status = std::process::Command::new(&exe).args(&args).env("VERIF_CHILD", "1").status().expect("child");
    // a crash, or a case which never finishes
    let fatal = |s: std::process::ExitStatus| match s.code() {
        Some(code) => code == HUNG,
        None => matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11)),
    };
    if !fatal(status) {
        return status.code().unwrap_or(2);
    }
    println!("{id}: the check was ended: {status}");
    if replaying {
        return 1;
    }
    let dir = root().join("replays").join(format!("{id}-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace dir");
    let _ = std::process::Command::new(&exe)
        .args(&args)
        .env("VERIF_CHILD", "1")
        .env("VERIF_TRACE", &dir)
        .env("VERIF_NO_EVIDENCE", "1")
        .stdout(std::process::Stdio::null())
        .status();
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let mut found: Option<PathBuf> = None;
    for f in &files {
        let s = std::process::Command::new(&exe)
            .arg("--replay")
            .arg(f)
            .env("VERIF_CHILD", "1")
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if let Ok(s) = s {
            if fatal(s) {
                let to = root().join("replays").join(format!("{id}-crash.json"));
                let _ = std::fs::copy(f, &to);
                found = Some(to);
                break;
            }
        }
    }
    cleanup(&dir, &files);
    match found {
        Some(path) => {
            let case: serde_json::Value = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
            write_evidence(
                id,
                &serde_json::json!({"property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                    "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                    "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was cut short by a crash or a hang of the code under test", "samples": [case]},
                    "wall_s": 0.0, "violations": 1}),
            );
            println!("the process crashes, or never finishes, on this case");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
        None => 2,
    }
}

fn cleanup(dir: &Path, files: &[PathBuf]) {
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    let _ = std::fs::remove_dir(dir);
}

pub fn boxed<T: Debug, S: Strategy<Value = T> + 'static>(s: S) -> BoxedStrategy<T> {
    s.boxed()
}
