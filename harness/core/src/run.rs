use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::Command,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::Strategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::{alloc, journal};

const SHARDS: usize = 8;
/// How many times as many cases as it names a random facet tries (at most those of the thorough
/// tier)
const QUICK_FACTOR: u64 = 4;
/// No single case needs more than a small fraction of this (they take well under a second).
const HANG_LIMIT: Duration = Duration::from_secs(90);
const CASE_MEMORY: isize = 1 << 30;
const MAX_DISTINCT_PER_SHARD: usize = 4_000_000;
const EXIT_HANG: i32 = 97;
const EXIT_USAGE: i32 = 2;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case observed about itself (used for the evidence, never for the verdict)
#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
}

impl Obs {
    /// Tag this case
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
    /// Mark this case as non-trivial according to the rule stated by the facet
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    exhaustive: bool,
}

struct Failure {
    facet: usize,
    case: String,
    message: String,
    shrunk: bool,
}

struct Shard<'a> {
    index: usize,
    tier: Tier,
    seed: u64,
    scale: f64,
    facet_index: usize,
    stats: Stats,
    distinct: &'a mut HashSet<u64>,
    journal: journal::Journal,
    started: Arc<AtomicU64>,
    epoch: Instant,
    stop: &'a AtomicBool,
    buf: Vec<u8>,
}

impl Shard<'_> {
    fn run_one<T: Serialize>(
        &mut self,
        case: &T,
        record: bool,
        check: &dyn Fn(&T, &mut Obs) -> Result<(), String>,
    ) -> Result<(), String> {
        self.buf.clear();
        serde_json::to_writer(&mut self.buf, case).expect("case must serialise");
        self.journal.put(self.facet_index, &self.buf);
        self.started
            .store(self.epoch.elapsed().as_millis() as u64 + 1, SeqCst);
        let mut obs = Obs::default();
        let res = guarded(|| check(case, &mut obs));
        self.started.store(0, SeqCst);
        self.journal.clear();
        if record {
            self.stats.evaluations += 1;
            for l in &obs.labels {
                *self.stats.labels.entry(l).or_default() += 1;
            }
            if obs.nontrivial {
                self.stats.nontrivial += 1;
                if self.distinct.len() < MAX_DISTINCT_PER_SHARD {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (self.facet_index, &self.buf).hash(&mut h);
                    self.distinct.insert(h.finish());
                }
                // Keep the first few non-trivial cases, then a thinning selection of later ones
                let n = self.stats.nontrivial;
                if self.index == 0
                    && (n <= 1 || (n.is_power_of_two() && self.stats.samples.len() < 4))
                {
                    let mut s = String::from_utf8_lossy(&self.buf).into_owned();
                    if s.len() > 400 {
                        let mut cut = 400;
                        while !s.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        s.truncate(cut);
                        s.push_str("...");
                    }
                    self.stats.samples.push(s);
                }
            }
        }
        res
    }
}

trait Runnable: Send + Sync {
    fn run(&self, shard: &mut Shard) -> Option<Failure>;
    fn replay(&self, json: &str) -> Result<(), String>;
}

/// One generator paired with one oracle
pub struct Facet {
    name: &'static str,
    rule: &'static str,
    inner: Box<dyn Runnable>,
}

struct Random<T, S> {
    quick: u64,
    thorough: u64,
    strategy: Box<dyn Fn(Tier) -> S + Send + Sync>,
    check: Box<dyn Fn(&T, &mut Obs) -> Result<(), String> + Send + Sync>,
}

struct Enumerated<T> {
    cases: Box<dyn Fn(Tier) -> Box<dyn Iterator<Item = T>> + Send + Sync>,
    check: Box<dyn Fn(&T, &mut Obs) -> Result<(), String> + Send + Sync>,
}

impl Facet {
    /// A facet whose cases are drawn from a generator
    pub fn random<T, S>(
        name: &'static str,
        quick: u64,
        thorough: u64,
        rule: &'static str,
        strategy: impl Fn(Tier) -> S + Send + Sync + 'static,
        check: impl Fn(&T, &mut Obs) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self
    where
        T: Debug + Clone + Serialize + DeserializeOwned + 'static,
        S: Strategy<Value = T> + 'static,
    {
        Self {
            name,
            rule,
            inner: Box::new(Random {
                quick: (QUICK_FACTOR * quick).min(thorough),
                thorough,
                strategy: Box::new(strategy),
                check: Box::new(check),
            }),
        }
    }

    /// A facet whose cases are enumerated completely (smallest first)
    pub fn enumerated<T>(
        name: &'static str,
        rule: &'static str,
        cases: impl Fn(Tier) -> Box<dyn Iterator<Item = T>> + Send + Sync + 'static,
        check: impl Fn(&T, &mut Obs) -> Result<(), String> + Send + Sync + 'static,
    ) -> Self
    where
        T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    {
        Self {
            name,
            rule,
            inner: Box::new(Enumerated {
                cases: Box::new(cases),
                check: Box::new(check),
            }),
        }
    }
}

impl<T, S> Runnable for Random<T, S>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Strategy<Value = T> + 'static,
{
    fn run(&self, shard: &mut Shard) -> Option<Failure> {
        let total = match shard.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = (total as f64 * shard.scale) as u64;
        let cases = (total / SHARDS as u64).max(1) as u32;
        let mut seed = [0u8; 32];
        seed[0..8].copy_from_slice(&shard.seed.to_le_bytes());
        seed[8..16].copy_from_slice(&(shard.index as u64).to_le_bytes());
        seed[16..24].copy_from_slice(&(shard.facet_index as u64).to_le_bytes());
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 40_000,
            max_shrink_time: 45_000,
            max_global_rejects: cases.saturating_mul(4).max(4096),
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strategy = (self.strategy)(shard.tier);
        let check = &self.check;
        let cell = RefCell::new((shard, false));
        let result = runner.run(&strategy, |case| {
            let mut guard = cell.borrow_mut();
            let (shard, failing) = &mut *guard;
            if !*failing && shard.stop.load(SeqCst) {
                return Ok(()); // Another shard already has a failure
            }
            let res = shard.run_one(&case, !*failing, &**check);
            if res.is_err() {
                *failing = true;
                shard.stop.store(true, SeqCst);
            }
            res.map_err(TestCaseError::fail)
        });
        let (shard, _) = cell.into_inner();
        match result {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => {
                let message = shard
                    .run_one(&case, false, &**check)
                    .err()
                    .unwrap_or_else(|| {
                        format!("{} (did not fail again when the case was re-run)", reason)
                    });
                Some(Failure {
                    facet: shard.facet_index,
                    case: serde_json::to_string(&case).unwrap(),
                    message,
                    shrunk: true,
                })
            }
            Err(TestError::Abort(reason)) => {
                eprintln!("generator error: {}", reason);
                std::process::exit(EXIT_USAGE);
            }
        }
    }

    fn replay(&self, json: &str) -> Result<(), String> {
        let case: T = serde_json::from_str(json).expect("replay case must deserialise");
        guarded(|| (self.check)(&case, &mut Obs::default()))
    }
}

impl<T> Runnable for Enumerated<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    fn run(&self, shard: &mut Shard) -> Option<Failure> {
        shard.stats.exhaustive = true;
        for (i, case) in (self.cases)(shard.tier).enumerate() {
            if i % SHARDS != shard.index {
                continue;
            }
            if shard.stop.load(SeqCst) {
                return None;
            }
            if let Err(message) = shard.run_one(&case, true, &*self.check) {
                shard.stop.store(true, SeqCst);
                return Some(Failure {
                    facet: shard.facet_index,
                    case: serde_json::to_string(&case).unwrap(),
                    message,
                    shrunk: false,
                });
            }
        }
        None
    }

    fn replay(&self, json: &str) -> Result<(), String> {
        let case: T = serde_json::from_str(json).expect("replay case must deserialise");
        guarded(|| (self.check)(&case, &mut Obs::default()))
    }
}

/////////////////////
// PANIC SUPPORT   //
/////////////////////

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

thread_local! {
    /// How many calls of `panics` are running on this thread
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Panics are reported through `panics`, not printed
pub fn quiet() {
    install_hook()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if DEPTH.with(|d| d.get()) == 0 {
            eprintln!("the check itself panicked: {} ({})", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}

fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_owned()
    }
}

/// Run `f`, returning `Err(message)` if it panics.  Used where the contract is that a call panics,
/// or that it must not.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    DEPTH.with(|d| d.set(d.get() - 1));
    r
}

fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    alloc::begin_case(CASE_MEMORY);
    let r = match panics(f) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    };
    alloc::end_case();
    r
}

/////////////////////
// ENTRY POINT     //
/////////////////////

pub struct Property {
    pub id: &'static str,
    pub facets: Vec<Facet>,
    pub assumptions: Vec<&'static str>,
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|v| v.trim().parse().ok())
        .unwrap_or(default)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned()))
}

pub fn main(p: Property) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        None => parent(&p),
        Some("--child") => child(&p, Path::new(&args[2])),
        Some("--replay") => replay(&p, Path::new(&args[2])),
        Some(other) => {
            eprintln!("unknown argument {}", other);
            EXIT_USAGE
        }
    };
    std::process::exit(code)
}

/// Set by a check whose subject prints to the standard output as it works
pub static CHATTY: AtomicBool = AtomicBool::new(false);

/// Run something, with the standard output going nowhere if the subject is chatty
fn silenced<T>(f: impl FnOnce() -> T) -> T {
    if !CHATTY.load(SeqCst) {
        return f();
    }
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_WRONLY);
        libc::dup2(null, 1);
        let out = f();
        let _ = std::io::Write::flush(&mut std::io::stdout());
        libc::dup2(saved, 1);
        libc::close(saved);
        libc::close(null);
        out
    }
}

fn replay(p: &Property, file: &Path) -> i32 {
    install_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay file must be JSON");
    let name = v["facet"].as_str().expect("replay file names a facet");
    let f = p
        .facets
        .iter()
        .find(|f| f.name == name)
        .expect("unknown facet in replay file");
    // A hang is reported by the watchdog's exit code
    std::thread::spawn(|| {
        std::thread::sleep(HANG_LIMIT);
        std::process::exit(EXIT_HANG);
    });
    let case = v["case"].to_string();
    // Run on a thread with the same stack as the shards had
    let res = silenced(|| {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || f.inner.replay(&case))
                .unwrap()
                .join()
                .unwrap()
        })
    });
    match res {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        Err(m) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
    }
}

/// Messages about very large values are cut
fn shortened(s: &str) -> String {
    match s.char_indices().nth(4000) {
        Some((i, _)) => format!("{}...", &s[..i]),
        None => s.to_owned(),
    }
}

fn write_replay(p: &Property, facet: usize, case: &str, message: &str, shrunk: bool) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", p.id, p.facets[facet].name));
    let case: Value = serde_json::from_str(case).unwrap_or(Value::Null);
    let v = json!({
        "property": p.id, "facet": p.facets[facet].name, "case": case, "message": shortened(message),
        "minimised": shrunk,
        "how_to_replay": format!("/verif/run.sh {} --replay {}", p.id, path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
    path
}

struct Outcome {
    failure: Option<Failure>,
    stats: Vec<Stats>,
    distinct: usize,
}

fn run_all(p: &Property, dir: &Path) -> Outcome {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = env_u64("VERIF_SEED", 1);
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("VERIF_FACET").ok();
    let stop = AtomicBool::new(false);
    let epoch = Instant::now();
    let started: Vec<Arc<AtomicU64>> = (0..SHARDS).map(|_| Arc::new(AtomicU64::new(0))).collect();

    // Watchdog: a case which runs far beyond its normal time ends the process
    {
        let started = started.clone();
        let dir = dir.to_owned();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = epoch.elapsed().as_millis() as u64 + 1;
            for (i, s) in started.iter().enumerate() {
                let t = s.load(SeqCst);
                if t != 0 && now > t + HANG_LIMIT.as_millis() as u64 {
                    let _ = std::fs::write(dir.join("hang"), i.to_string());
                    unsafe { libc::_exit(EXIT_HANG) };
                }
            }
        });
    }

    type ShardOut = (Vec<Stats>, Option<Failure>, HashSet<u64>);
    let outs: Vec<ShardOut> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..SHARDS)
            .map(|index| {
                let started = started[index].clone();
                let (stop, only) = (&stop, &only);
                let path = dir.join(format!("shard{}", index));
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut all = Vec::new();
                        let mut failure = None;
                        let mut distinct = HashSet::new();
                        let mut shard = Shard {
                            index,
                            tier,
                            seed,
                            scale,
                            facet_index: 0,
                            stats: Stats::default(),
                            distinct: &mut distinct,
                            journal: journal::Journal::create(&path),
                            started,
                            epoch,
                            stop,
                            buf: Vec::new(),
                        };
                        for (i, f) in p.facets.iter().enumerate() {
                            shard.facet_index = i;
                            shard.stats = Stats::default();
                            let skip = only.as_ref().map_or(false, |o| o != f.name);
                            if !skip && failure.is_none() && !stop.load(SeqCst) {
                                failure = f.inner.run(&mut shard);
                            }
                            all.push(std::mem::take(&mut shard.stats));
                        }
                        drop(shard);
                        (all, failure, distinct)
                    })
                    .unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });

    let mut stats: Vec<Stats> = p.facets.iter().map(|_| Stats::default()).collect();
    let mut failure: Option<Failure> = None;
    let mut distinct = HashSet::new();
    for (all, f, d) in outs {
        for (t, s) in stats.iter_mut().zip(all) {
            t.evaluations += s.evaluations;
            t.nontrivial += s.nontrivial;
            t.exhaustive |= s.exhaustive;
            t.samples.extend(s.samples);
            for (l, n) in s.labels {
                *t.labels.entry(l).or_default() += n;
            }
        }
        distinct.extend(d);
        // Prefer the smallest failing case
        if let Some(f) = f {
            if failure
                .as_ref()
                .map_or(true, |g| (f.facet, f.case.len()) < (g.facet, g.case.len()))
            {
                failure = Some(f);
            }
        }
    }
    Outcome {
        failure,
        stats,
        distinct: distinct.len(),
    }
}

fn write_evidence(p: &Property, out: Option<&Outcome>, wall: f64, violations: u64, note: &str) {
    let mut facets = serde_json::Map::new();
    let mut samples = Vec::new();
    let (mut evals, mut distinct) = (0, 0);
    if let Some(out) = out {
        distinct = out.distinct;
        for (f, s) in p.facets.iter().zip(&out.stats) {
            evals += s.evaluations;
            facets.insert(
                f.name.to_owned(),
                json!({"evaluations": s.evaluations, "nontrivial": s.nontrivial,
                       "enumerated_completely": s.exhaustive, "rule": f.rule, "labels": s.labels}),
            );
            for c in s.samples.iter().take(3) {
                samples.push(json!({"facet": f.name, "case": c}));
            }
        }
    }
    let rule = format!(
        "Cases are drawn by seeded structured generators (or enumerated, where marked), per facet; non-trivial means: {}",
        p.facets
            .iter()
            .map(|f| format!("[{}] {}", f.name, f.rule))
            .collect::<Vec<_>>()
            .join("; ")
    );
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
    if !note.is_empty() {
        assumptions.push(note.to_owned());
    }
    let v = json!({
        "property": p.id, "tier": tier, "seed": env_u64("VERIF_SEED", 1), "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule,
            "samples": samples, "facets": facets,
        },
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&v).unwrap() + "\n",
    )
    .expect("write evidence");
}

fn child(p: &Property, dir: &Path) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let out = silenced(|| run_all(p, dir));
    let wall = t0.elapsed().as_secs_f64();
    let evals: u64 = out.stats.iter().map(|s| s.evaluations).sum();
    write_evidence(p, Some(&out), wall, out.failure.is_some() as u64, "");
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id, evals, out.distinct, wall
    );
    match out.failure {
        None => 0,
        Some(f) => {
            let path = write_replay(p, f.facet, &f.case, &f.message, f.shrunk);
            println!(
                "facet {}: {}",
                p.facets[f.facet].name,
                shortened(&f.message)
            );
            println!("case: {}", f.case);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}

/// Runs the checks in a child process, so that an abort, segfault, stack overflow, runaway
/// allocation or endless loop caused by one case is attributed to that case.
fn parent(p: &Property) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let t0 = Instant::now();
    let status = Command::new(&exe).arg("--child").arg(&dir).status();
    let code = match status {
        Err(e) => {
            eprintln!("could not start the child process: {}", e);
            EXIT_USAGE
        }
        Ok(s) => match s.code() {
            Some(c) if c != EXIT_HANG => c,
            _ => post_mortem(p, &exe, &dir, s, t0),
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn post_mortem(
    p: &Property,
    exe: &Path,
    dir: &Path,
    status: std::process::ExitStatus,
    t0: Instant,
) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let sig = status.signal();
    if sig == Some(libc::SIGKILL) || sig == Some(libc::SIGTERM) || sig == Some(libc::SIGINT) {
        eprintln!(
            "{}: the run was ended from outside (signal {:?})",
            p.id, sig
        );
        return EXIT_USAGE;
    }
    let hung: Option<usize> = std::fs::read_to_string(dir.join("hang"))
        .ok()
        .and_then(|s| s.parse().ok());
    let shards: Vec<usize> = match hung {
        Some(i) => vec![i],
        None => (0..SHARDS).collect(),
    };
    for i in shards {
        if let Some((facet, case)) = journal::read(&dir.join(format!("shard{}", i))) {
            let what = match hung {
                Some(_) => format!("did not finish within {} s", HANG_LIMIT.as_secs()),
                None => format!("killed the process ({})", status),
            };
            let path = write_replay(p, facet, &case, &what, false);
            let again = Command::new(exe).arg("--replay").arg(&path).output();
            let confirmed = match &again {
                Ok(o) => !o.status.success() && o.status.signal() != Some(libc::SIGKILL),
                Err(_) => false,
            };
            if confirmed {
                write_evidence(
                    p,
                    None,
                    t0.elapsed().as_secs_f64(),
                    1,
                    "the run ended early: one case killed or hung the process, so no counts were collected",
                );
                println!("facet {}: the case {}", p.facets[facet].name, what);
                println!("case: {}", case);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                return 1;
            }
            let _ = std::fs::remove_file(&path);
        }
    }
    eprintln!(
        "{}: child ended with {} and no case reproduces it",
        p.id, status
    );
    EXIT_USAGE
}
