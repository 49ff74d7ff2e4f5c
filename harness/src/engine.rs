//! Drives a property: generates cases from proptest strategies (each a pure function of seed, property and index),
//! evaluates them on worker threads, confirms and shrinks failures, writes the replay file and the evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// For the strategies: histories of hundreds of steps. A few of them are part of each check.
    Long,
}

/// Why a case failed. `Soft` failures (an unexpected error or absence) must reproduce to be believed.
#[derive(Debug, Clone)]
pub enum Bad {
    Hard(String),
    Soft(String),
}
pub type R<T = ()> = Result<T, Bad>;
pub fn hard<T>(s: impl Into<String>) -> R<T> {
    Err(Bad::Hard(s.into()))
}
pub fn soft<T>(s: impl Into<String>) -> R<T> {
    Err(Bad::Soft(s.into()))
}

#[derive(Debug, Clone)]
pub enum Out {
    Pass,
    Fail(Bad),
    Hang(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rt {
    Current,
    Multi(usize),
}

/// Per-case context: a private loopback address space and the panics seen while the case ran.
#[derive(Clone)]
pub struct Ctx {
    pub token: u64,
}

static ADDR: AtomicU32 = AtomicU32::new(1);
impl Ctx {
    /// A loopback address no other live case uses.
    pub fn addr(&self) -> std::net::SocketAddr {
        let n = ADDR.fetch_add(1, Ordering::Relaxed);
        let a = 16 + (std::process::id() % 200) as u8;
        let (b, c) = (((n >> 8) & 0xff) as u8, (n & 0xff) as u8);
        let port = 7001 + ((n >> 16) & 0x3ff) as u16;
        std::net::SocketAddr::new(std::net::Ipv4Addr::new(127, a, b, c).into(), port)
    }
    pub fn panics(&self) -> Vec<String> {
        PANICS.lock().unwrap().get(&self.token).cloned().unwrap_or_default()
    }
}

thread_local! { static TOKEN: RefCell<u64> = const { RefCell::new(0) }; }
static PANICS: Mutex<std::collections::BTreeMap<u64, Vec<String>>> = Mutex::new(BTreeMap::new());
static TOKENS: AtomicU64 = AtomicU64::new(1);

fn install_panic_hook() {
    install_logger();
    std::panic::set_hook(Box::new(|info| {
        let tok = TOKEN.with(|t| *t.borrow());
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if msg == crate::props::EXPECTED_PANIC {
            return;
        }
        if tok == 0 || loc.starts_with("src/") {
            eprintln!("harness {text}");
        }
        PANICS.lock().unwrap().entry(tok).or_default().push(text);
    }));
}

pub trait Prop: Sync + Send + 'static {
    type C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    /// Any panic in the process while the case runs is a failure.
    const NO_PANIC: bool = false;
    const DEADLINE: u64 = 12;
    /// Where cases move the clock: how long they take at most.
    const REAL: u64 = u64::MAX;
    /// Cases evaluated at a time: more where they mostly sleep.
    const THREADS: usize = 8;
    /// Long cases of a quick check.
    const LONG: usize = 0;
    fn cases(&self, tier: Tier) -> usize;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::C>;
    /// Non-trivial by RULE, and class labels.
    fn describe(&self, c: &Self::C) -> (bool, Vec<String>);
    fn rt(&self, _c: &Self::C) -> Rt {
        Rt::Current
    }
    fn run(&self, c: Self::C, ctx: Ctx) -> Pin<Box<dyn Future<Output = R> + Send>>;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

/// The cases being evaluated: since when, for how long at most, and what they are.
type Running = BTreeMap<u64, (Instant, Duration, Box<dyn Fn() -> serde_json::Value + Send>)>;
static RUNNING: Mutex<Running> = Mutex::new(BTreeMap::new());
/// How long past its deadline a case is taken for stuck: its runtime does not even run its timer.
const STUCK: Duration = Duration::from_secs(40);

/// Calls `report` with a case that got stuck, if any does: blocked or looping without end, so that no timeout fires.
fn watch(report: impl Fn(serde_json::Value, String) -> i32 + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let running = RUNNING.lock().unwrap();
        if let Some((since, limit, case)) = running.values().find(|(s, l, _)| s.elapsed() > *l + STUCK) {
            let text = format!("stuck: not even timers fire, {:?} after it began (deadline {limit:?})", since.elapsed());
            std::process::exit(report(case(), text));
        }
    });
}

thread_local! { static LOGS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static SAVED: OnceLock<HashSet<u64>> = OnceLock::new();
static ALWAYS_LOG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Writes log messages to nowhere, which takes formatting them.
struct Logger;
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGS.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOGS.with(|l| l.get()) {
            let _ = std::fmt::Write::write_fmt(&mut Nowhere, *r.args());
        }
    }
    fn flush(&self) {}
}
fn install_logger() {
    if log::set_logger(&Logger).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
/// One case in eight runs with all logging enabled, but none of the saved ones: some are huge.
fn logged<C: Serialize>(c: &C) -> bool {
    let h = serde_json::to_string(c).map(|s| hash_of(&s)).unwrap_or(1);
    ALWAYS_LOG.load(Ordering::Relaxed) || (h % 8 == 0 && !SAVED.get().is_some_and(|s| s.contains(&h)))
}

pub fn eval<P: Prop>(p: &P, c: &P::C, deadline: Duration) -> Out {
    let token = TOKENS.fetch_add(1, Ordering::Relaxed);
    {
        let c = c.clone();
        let case = Box::new(move || serde_json::to_value(&c).unwrap());
        RUNNING.lock().unwrap().insert(token, (Instant::now(), deadline.min(Duration::from_secs(P::REAL)), case));
    }
    let out = eval_token(p, c, deadline, token);
    RUNNING.lock().unwrap().remove(&token);
    out
}

fn eval_token<P: Prop>(p: &P, c: &P::C, deadline: Duration, token: u64) -> Out {
    let old = TOKEN.with(|t| std::mem::replace(&mut *t.borrow_mut(), token));
    let logs = logged(c);
    LOGS.with(|l| l.set(logs));
    let ctx = Ctx { token };
    let delay = run_delay();
    let rt = match p.rt(c) {
        Rt::Current => tokio::runtime::Builder::new_current_thread().enable_all().build(),
        Rt::Multi(n) => tokio::runtime::Builder::new_multi_thread()
            .worker_threads(n)
            .on_thread_start(move || {
                TOKEN.with(|t| *t.borrow_mut() = token);
                LOGS.with(|l| l.set(logs));
            })
            .enable_all()
            .build(),
    }
    .expect("runtime");
    crate::clock::reset();
    let fut = p.run(c.clone(), ctx.clone());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async { tokio::time::timeout(deadline, fut).await })
    }));
    crate::clock::reset();
    DELAYED.with(|d| d.set(run_delay().saturating_sub(delay)));
    rt.shutdown_timeout(Duration::from_millis(500));
    TOKEN.with(|t| *t.borrow_mut() = old);
    LOGS.with(|l| l.set(false));
    let panics = PANICS.lock().unwrap().remove(&token).unwrap_or_default();
    let note = if panics.is_empty() { String::new() } else { format!(" [{}]", panics.join("; ")) };
    match res {
        Err(_) => Out::Fail(Bad::Hard(format!("case body panicked{note}"))),
        Ok(_) if P::NO_PANIC && !panics.is_empty() => Out::Fail(Bad::Hard(panics.join("; "))),
        Ok(Ok(Ok(()))) => Out::Pass,
        Ok(Ok(Err(Bad::Hard(s)))) => Out::Fail(Bad::Hard(s + &note)),
        Ok(Ok(Err(Bad::Soft(s)))) => Out::Fail(Bad::Soft(s + &note)),
        Ok(Err(_)) => Out::Hang(format!("no completion within {deadline:?}{note}")),
    }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

fn runner(id: &str, seed: u64, index: u64) -> TestRunner {
    let mut s = [0u8; 32];
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ mix(index));
    for i in 0..4 {
        s[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
        h = mix(h);
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T, long: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Long => long,
        }
    }
    /// The number of steps of a history: as given, or long.
    pub fn steps(self, n: std::ops::RangeInclusive<usize>, long: std::ops::RangeInclusive<usize>) -> std::ops::RangeInclusive<usize> {
        if self == Tier::Long { long } else { n }
    }
    /// Histories of groups: as given, or long, or of few large groups.
    pub fn groups<T: Debug + Clone + 'static>(
        self,
        one: BoxedStrategy<T>,
        size: std::ops::RangeInclusive<usize>,
        n: std::ops::RangeInclusive<usize>,
        long: std::ops::RangeInclusive<usize>,
        large: std::ops::RangeInclusive<usize>,
    ) -> BoxedStrategy<Vec<Vec<T>>> {
        use proptest::collection::vec;
        let deep = vec(vec(one.clone(), size), self.steps(n, long));
        if self == Tier::Long { proptest::prop_oneof![deep, vec(vec(one, large), 1..=4)].boxed() } else { deep.boxed() }
    }
    /// Indices from LONG on are those of long cases.
    fn of(self, index: i64) -> Tier {
        if index >= LONG { Tier::Long } else { self }
    }
}
const LONG: i64 = 1 << 36;
fn deadline<P: Prop>(index: i64) -> Duration {
    Duration::from_secs(if index >= LONG { P::DEADLINE + 60 } else { P::DEADLINE })
}

fn root() -> PathBuf {
    std::env::var_os("TCV_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

thread_local! {
    /// Whether threads' delays are looked at.
    static WATCHES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// How long the threads of the last case waited for a processor, while they could have run.
    static DELAYED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// In ns, for all threads of this process.
fn run_delay() -> u64 {
    if !WATCHES.with(|w| w.get()) {
        return 0;
    }
    let of = |e: std::fs::DirEntry| std::fs::read_to_string(e.path().join("schedstat")).ok()?.split_whitespace().nth(1)?.parse::<u64>().ok();
    std::fs::read_dir("/proc/self/task").map(|d| d.flatten().filter_map(of).sum()).unwrap_or(0)
}
/// Evaluates a case while nothing else is; what fails on a machine too busy to say does not count.
fn again<P: Prop>(p: &P, c: &P::C, limit: Duration) -> Out {
    WATCHES.with(|w| w.set(true));
    static LATE: AtomicUsize = AtomicUsize::new(0);
    let mut out;
    loop {
        out = eval(p, c, limit);
        let late = Duration::from_nanos(DELAYED.with(|d| d.get()));
        if matches!(out, Out::Pass | Out::Fail(Bad::Hard(_))) || late < Duration::from_millis(1500) {
            break;
        }
        eprintln!("{}: too little processor time ({late:?} late): {}", P::ID, text(&out));
        out = Out::Pass;
        if LATE.fetch_add(1, Ordering::SeqCst) >= 15 {
            break;
        }
        std::thread::sleep(Duration::from_secs(2));
    }
    WATCHES.with(|w| w.set(false));
    out
}

/// Re-runs a failing case. Returns the failure to report, or None if it is not to be believed.
fn confirm<P: Prop>(p: &P, c: &P::C, first: &Out, limit: Duration, slow: bool) -> Option<Out> {
    match first {
        Out::Pass => None,
        Out::Fail(Bad::Hard(_)) => Some(first.clone()),
        Out::Fail(Bad::Soft(_)) => {
            for _ in 0..10 {
                match again(p, c, limit) {
                    Out::Pass => {}
                    o => return Some(o),
                }
            }
            None
        }
        Out::Hang(_) => {
            let d = if slow { limit + Duration::from_secs(6) } else { limit };
            for _ in 0..20 {
                match again(p, c, d) {
                    Out::Pass => {}
                    o => return Some(o),
                }
            }
            None
        }
    }
}

struct Failure<C> {
    index: i64,
    case: C,
    out: Out,
    shrinks: usize,
}

fn text(o: &Out) -> String {
    match o {
        Out::Pass => "pass".into(),
        Out::Fail(Bad::Hard(s)) => s.clone(),
        Out::Fail(Bad::Soft(s)) => format!("{s} (reproduced)"),
        Out::Hang(s) => format!("hang: {s} (reproduced)"),
    }
}

fn shrink<P: Prop>(p: &P, tier: Tier, seed: u64, index: i64, first: &Out, budget: Duration) -> (Option<P::C>, usize, Option<Out>) {
    let mut r = runner(P::ID, seed, index as u64);
    let strat = p.strategy(tier.of(index));
    let Ok(mut tree) = strat.new_tree(&mut r) else { return (None, 0, None) };
    let start = Instant::now();
    let fast = match first {
        Out::Hang(_) => Duration::from_secs(3),
        _ => deadline::<P>(index),
    };
    let (mut best, mut best_out, mut n) = (None, None, 0);
    if !tree.simplify() {
        return (None, 0, None);
    }
    while start.elapsed() < budget && n < 3000 {
        n += 1;
        let c = tree.current();
        let mut out = eval(p, &c, fast);
        if matches!(out, Out::Pass) && !matches!(first, Out::Hang(_)) {
            out = eval(p, &c, fast);
        }
        if !matches!(out, Out::Pass) {
            best = Some(c);
            best_out = Some(out);
            if !tree.simplify() {
                break;
            }
        } else if !tree.complicate() {
            break;
        }
    }
    (best, n, best_out)
}

/// Notes in the file named by TCV_INFLIGHT which case a worker is about to evaluate, should the process die of it.
fn note(slot: usize, index: i64) {
    static FILE: OnceLock<Option<std::fs::File>> = OnceLock::new();
    let f = FILE.get_or_init(|| std::env::var_os("TCV_INFLIGHT").and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()));
    if let Some(f) = f {
        let _ = std::os::unix::fs::FileExt::write_all_at(f, &(index + SHIFT).to_le_bytes(), slot as u64 * 8);
    }
}
/// So that zero means none.
const SHIFT: i64 = 1 << 40;
const NONE: i64 = -SHIFT;

/// Runs a check in a process of its own, to survive what kills it: an abort, a stack overflow, memory without end.
pub fn supervise(id: &str, tier: Tier, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let dir = root().join("target");
    let _ = std::fs::create_dir_all(&dir);
    let notes = dir.join(format!(".inflight-{}", std::process::id()));
    let dump = dir.join(format!(".case-{}", std::process::id()));
    let mut code = 2;
    for round in 0..2 {
        let _ = std::fs::write(&notes, b"");
        let st = std::process::Command::new(&exe).args(["check-here", id]).env("TCV_INFLIGHT", &notes).status().expect("run the check");
        if let Some(c) = st.code() {
            code = c;
            break;
        }
        let sig = st.signal().unwrap_or(0);
        eprintln!("{id}: the process was ended by signal {sig}, looking for the case");
        let raw = std::fs::read(&notes).unwrap_or_default();
        let list: Vec<i64> = raw.chunks_exact(8).map(|b| i64::from_le_bytes(b.try_into().unwrap())).filter(|v| *v > 0).map(|v| v - SHIFT).collect();
        let mut culprit = None;
        for i in &list {
            let _ = std::fs::remove_file(&dump);
            let st = std::process::Command::new(&exe).args(["one", id, &i.to_string()]).arg(&dump).status().expect("run a case");
            let case = || std::fs::read(&dump).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()).unwrap_or_default();
            match st.code() {
                None => culprit = Some((*i, case(), format!("the process was ended by signal {}", st.signal().unwrap_or(0)))),
                Some(1) => culprit = Some((*i, case(), "fails".to_string())),
                _ => continue,
            }
            break;
        }
        // Ended from outside twice (SIGKILL: out of memory?): no answer. Crashed twice: that is one.
        if culprit.is_none() && round == 1 && sig != libc::SIGKILL && !list.is_empty() {
            culprit = Some((list[0], serde_json::Value::Null, format!("the process was ended by signal {sig}, twice, in one of the cases {list:?}")));
        }
        if let Some((i, case, text)) = culprit {
            let path = write_replay(id, seed, i, &text, case);
            println!("{id} failed on case {i}: {text}");
            println!("VIOLATION property={id} replay={}", path.display());
            let ev = serde_json::json!({"property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process died", "samples": []},
                "assumptions": [], "wall_s": 0.0, "violations": 1});
            let _ = std::fs::create_dir_all(root().join("evidence"));
            let _ = std::fs::write(root().join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap());
            code = 1;
            break;
        }
    }
    let _ = std::fs::remove_file(&notes);
    let _ = std::fs::remove_file(&dump);
    code
}
pub fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}
/// Evaluates one case; its text goes to the file first.
pub fn one<P: Prop>(p: P, tier: Tier, seed: u64, index: i64, dump: &Path) -> i32 {
    install_panic_hook();
    let c = if index < 0 {
        match saved::<P>().into_iter().nth((-index - 1) as usize) {
            Some((_, c)) => c,
            None => return 2,
        }
    } else {
        match p.strategy(tier.of(index)).new_tree(&mut runner(P::ID, seed, index as u64)) {
            Ok(t) => t.current(),
            Err(_) => return 2,
        }
    };
    let _ = std::fs::write(dump, serde_json::to_vec(&c).unwrap());
    watch(|_, text| {
        eprintln!("{text}");
        1
    });
    for _ in 0..5 {
        let o = eval(&p, &c, deadline::<P>(index));
        if confirm(&p, &c, &o, deadline::<P>(index), true).is_some() {
            return 1;
        }
    }
    0
}
fn write_replay(id: &str, seed: u64, index: i64, detail: &str, case: serde_json::Value) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", hash_of(&case.to_string())));
    let js = serde_json::json!({"property": id, "seed": seed, "index": index, "detail": detail, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap()).expect("write replay");
    path
}
/// Saved regression cases.
fn saved<P: Prop>() -> Vec<(String, P::C)> {
    let dir = root().join("corpus").join(P::ID);
    let mut saved = vec![];
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect();
        files.sort();
        for f in files {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap_or_default();
            match serde_json::from_value::<P::C>(v["case"].clone()) {
                Ok(c) => saved.push((f.display().to_string(), c)),
                Err(e) => eprintln!("ignoring corpus file {}: {e}", f.display()),
            }
        }
    }
    saved
}

struct Stats {
    n: usize,
    long: usize,
    seen: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<(usize, String)>,
}

fn write_evidence<P: Prop>(tier: Tier, seed: u64, st: &Stats, n_saved: usize, inc: &[String], assumptions: Vec<String>, wall: f64, violations: usize) {
    let mut samples: Vec<serde_json::Value> = st.samples.iter().map(|(k, s)| serde_json::json!({"index": k, "case": serde_json::from_str::<serde_json::Value>(s).unwrap()})).collect();
    samples.truncate(6);
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.n,
            "distinct_nontrivial": st.seen.len(),
            "rule": P::RULE,
            "classes": st.classes,
            "saved_cases_replayed": n_saved,
            "long_cases": st.long,
            "inconclusive": inc,
            "samples": samples,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
}

pub fn check<P: Prop>(p: P, tier: Tier, seed: u64) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let p = Arc::new(p);
    let scale: f64 = std::env::var("TCV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((p.cases(tier) as f64) * scale).ceil() as usize;
    let limit = Duration::from_secs(if tier == Tier::Quick { 420 } else { 3 * 3600 });
    let n_long = std::env::var("TCV_LONG").ok().and_then(|s| s.parse().ok()).unwrap_or(P::LONG * tier.pick(1, 25, 1));
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(i64, P::C, Out)>> = Mutex::new(vec![]);
    let stats = Arc::new(Mutex::new(Stats { n: 0, long: 0, seen: HashSet::new(), classes: BTreeMap::new(), samples: vec![] }));
    {
        let (stats, p) = (stats.clone(), p.clone());
        watch(move |case, text| {
            let path = write_replay(P::ID, seed, -1, &text, case);
            println!("{} failed: {text}", P::ID);
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            write_evidence::<P>(tier, seed, &stats.lock().unwrap(), 0, &[], p.assumptions(), start.elapsed().as_secs_f64(), 1);
            1
        });
    }
    // Saved regression cases first.
    let saved = saved::<P>();
    let _ = SAVED.set(saved.iter().filter_map(|c| serde_json::to_string(&c.1).ok()).map(|s| hash_of(&s)).collect());
    let n_saved = saved.len();
    let inconclusive = Mutex::new(Vec::<String>::new());
    let mut rounds = 0;
    let failure: Option<Failure<P::C>> = loop {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8) * P::THREADS / 8;
        std::thread::scope(|s| {
            for slot in 0..threads {
                let (p, next, stop, found, stats, saved) = (&p, &next, &stop, &found, &stats, &saved);
                s.spawn(move || {
                    let (strat, long) = (p.strategy(tier), p.strategy(if n_long > 0 { Tier::Long } else { tier }));
                    loop {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > limit {
                            return;
                        }
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= total + n_saved + n_long {
                            return;
                        }
                        let (index, c) = if k < n_saved {
                            (-(k as i64) - 1, saved[k].1.clone())
                        } else {
                            // Long ones last: the others fail with less to shrink.
                            let (i, strat) = match k - n_saved {
                                k if k < total => (k as i64, &strat),
                                k => ((k - total) as i64 + LONG, &long),
                            };
                            let mut r = runner(P::ID, seed, i as u64);
                            match strat.new_tree(&mut r) {
                                Ok(t) => (i, t.current()),
                                Err(_) => continue,
                            }
                        };
                        let (nt, classes) = p.describe(&c);
                        let js = serde_json::to_string(&c).unwrap();
                        {
                            let mut st = stats.lock().unwrap();
                            st.n += 1;
                            st.long += (index >= LONG) as usize;
                            if nt {
                                st.seen.insert(hash_of(&js));
                            }
                            for c in classes {
                                *st.classes.entry(c).or_default() += 1;
                            }
                            if nt && js.len() < 6000 && (st.samples.len() < 6 || (k % (total / 6 + 1) == 0 && st.samples.len() < 12)) {
                                st.samples.push((k, js));
                            }
                        }
                        note(slot + 1, index);
                        let out = eval(&**p, &c, deadline::<P>(index));
                        note(slot + 1, NONE);
                        if !matches!(out, Out::Pass) {
                            stop.store(true, Ordering::SeqCst);
                            found.lock().unwrap().push((index, c, out));
                            return;
                        }
                    }
                });
            }
        });
        let mut fs = std::mem::take(&mut *found.lock().unwrap());
        if fs.is_empty() {
            break None;
        }
        // Hard failures first: they need no confirmation.
        fs.sort_by_key(|(i, _, o)| (match o { Out::Fail(Bad::Hard(_)) => 0, Out::Fail(_) => 1, _ => 2 }, *i));
        let mut confirmed = None;
        for (i, c, o) in fs {
            eprintln!("{}: case {i} failed: {} - confirming", P::ID, text(&o));
            note(0, i);
            if let Some(o) = confirm(&*p, &c, &o, deadline::<P>(i), true) {
                confirmed = Some(Failure { index: i, case: c, out: o, shrinks: 0 });
                break;
            }
            note(0, NONE);
            eprintln!("{}: case {i} did not fail again: inconclusive", P::ID);
            inconclusive.lock().unwrap().push(format!("case {i}: {}", text(&o)));
        }
        if confirmed.is_some() {
            break confirmed;
        }
        rounds += 1;
        if rounds > 25 {
            break None;
        }
        stop.store(false, Ordering::SeqCst);
    };

    let failure = failure.map(|mut f| {
        if f.index >= 0 {
            // What fails may be a log message: then only a replay of the case itself, or one that logs always, shows it.
            ALWAYS_LOG.store(logged(&f.case), Ordering::SeqCst);
            let (c, n, o) = shrink(&*p, tier, seed, f.index, &f.out, Duration::from_secs(60));
            f.shrinks = n;
            if let (Some(c), Some(o)) = (c, o) {
                let conf = if matches!(o, Out::Hang(_)) { confirm(&*p, &c, &o, deadline::<P>(f.index), false) } else { Some(o) };
                if let Some(o) = conf {
                    f.case = c;
                    f.out = o;
                }
            }
        }
        f
    });

    let mut code = 0;
    if let Some(f) = &failure {
        let path = write_replay(P::ID, seed, f.index, &text(&f.out), serde_json::to_value(&f.case).unwrap());
        println!("{} failed on case {} ({} shrink runs): {}", P::ID, f.index, f.shrinks, text(&f.out));
        println!("VIOLATION property={} replay={}", P::ID, path.display());
        code = 1;
    }
    let st = stats.lock().unwrap();
    let inc = inconclusive.into_inner().unwrap();
    if code == 0 && rounds > 25 {
        eprintln!("{}: too many inconclusive cases", P::ID);
        code = 2;
    }
    if code == 0 && st.n < total + n_saved + n_long {
        // Slow machine: what was explored held.
        eprintln!("{}: time limit reached after {} of {} cases", P::ID, st.n, total + n_saved + n_long);
    }
    write_evidence::<P>(tier, seed, &st, n_saved, &inc, p.assumptions(), start.elapsed().as_secs_f64(), (code == 1) as usize);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1} s",
        P::ID,
        if code == 0 { "held" } else { "FAILED" },
        st.n,
        st.seen.len(),
        inc.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("TCV_CLASSES").is_ok() {
        for (k, v) in &st.classes {
            println!("  {k}: {v}");
        }
    }
    code
}

pub fn replay<P: Prop>(p: P, case: serde_json::Value) -> i32 {
    install_panic_hook();
    let c: P::C = serde_json::from_value(case).expect("case");
    watch(|_, text| {
        println!("{text}");
        1
    });
    println!("{} replaying {}", P::ID, serde_json::to_string(&c).unwrap().chars().take(600).collect::<String>());
    for i in 0..6 {
        ALWAYS_LOG.store(i % 2 == 1, Ordering::SeqCst);
        let o = eval(&p, &c, Duration::from_secs(P::DEADLINE));
        println!("run {i}: {}", text(&o));
        if !matches!(o, Out::Pass) {
            return 1;
        }
    }
    0
}

#[allow(dead_code)]
pub type Counts = HashMap<String, usize>;
