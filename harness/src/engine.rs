//! Runs campaigns (random, shrinking) and sweeps (enumerated) and writes evidence and replays.
use crate::watch;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::Instant;

pub const WORKERS: usize = 8;
pub type Outcome = Result<(), String>;

pub struct Failure {
    pub test: String,
    pub case: Value,
    pub message: String,
    /// The failing case as first generated, before shrinking.
    pub first: Option<Value>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<Value>,
    pub classes: BTreeMap<String, u64>,
    pub campaigns: Vec<Value>,
}

/// What a classifier says about a case.
#[derive(Default)]
pub struct Tags {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Tags {
    pub fn new(nontrivial: bool) -> Tags {
        Tags { nontrivial, labels: Vec::new() }
    }
    pub fn tag(mut self, on: bool, label: &'static str) -> Tags {
        if on {
            self.labels.push(label);
        }
        self
    }
}

enum Mode {
    Run,
    Replay { test: String, case: Value, outcome: Option<Outcome> },
    /// Names the campaigns and their sizes, and runs nothing.
    List(Vec<(String, u64)>),
    /// Runs one campaign on cases decoded from the bytes a fuzzer gives.
    Fuzz { test: String, driver: Driver },
}

/// Calls its argument with one input after another; true means that a failure was found and
/// recorded, and that it can stop.
pub type Driver = fn(&mut dyn FnMut(&[u8]) -> bool);

pub struct Session {
    pub id: &'static str,
    pub seed: u64,
    /// Multiplier for campaign sizes.
    pub scale: f64,
    pub thorough: bool,
    pub stats: Stats,
    pub failures: Vec<Failure>,
    mode: Mode,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub(crate) fn rng_for(seed: u64, id: &str, name: &str, worker: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    for (i, chunk) in bytes.chunks_mut(8).enumerate() {
        let mut x = 0xcbf2_9ce4_8422_2325u64 ^ (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let label = format!("{seed}/{id}/{name}/{worker}/{i}");
        for b in label.bytes() {
            x = (x ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        x ^= x >> 32;
        chunk.copy_from_slice(&x.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics inside `guard` are results, not news; any other panic is a harness error and is shown.
pub fn quiet_guarded_panics() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !GUARDED.with(std::cell::Cell::get) {
            default(info);
        }
    }));
}

/// Runs `f`; a panic is an `Err`.
pub fn guard<F: FnOnce() -> Outcome>(f: F) -> Outcome {
    GUARDED.with(|g| g.set(true));
    let result = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    match result {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_else(|| "unknown payload".into());
            Err(format!("panicked: {m}"))
        }
    }
}

impl Session {
    pub fn run(id: &'static str, seed: u64, scale: f64, thorough: bool) -> Session {
        Session { id, seed, scale, thorough, stats: Stats::default(), failures: Vec::new(), mode: Mode::Run }
    }
    pub fn replay(id: &'static str, test: String, case: Value) -> Session {
        let mut s = Session::run(id, 0, 1.0, false);
        s.mode = Mode::Replay { test, case, outcome: None };
        s
    }
    pub fn replay_outcome(self) -> Option<Outcome> {
        match self.mode {
            Mode::Replay { outcome, .. } => outcome,
            _ => None,
        }
    }
    pub fn list(id: &'static str) -> Session {
        let mut s = Session::run(id, 0, 1.0, false);
        s.mode = Mode::List(Vec::new());
        s
    }
    pub fn listed(self) -> Vec<(String, u64)> {
        match self.mode {
            Mode::List(names) => names,
            _ => Vec::new(),
        }
    }
    pub fn fuzz(id: &'static str, test: String, driver: Driver) -> Session {
        let mut s = Session::run(id, 0, 1.0, false);
        s.mode = Mode::Fuzz { test, driver };
        s
    }
    pub fn replaying(&self) -> bool {
        matches!(self.mode, Mode::Replay { .. })
    }
    /// A test that another program runs: all this one can do is have a saved case replayed.
    pub fn elsewhere(&mut self, name: &str, replay: impl FnOnce() -> Outcome) {
        if let Mode::Replay { test, outcome, .. } = &mut self.mode {
            if test == name {
                *outcome = Some(replay());
            }
        }
    }
    fn try_replay<C: DeserializeOwned + Serialize>(&mut self, name: &str, run: &dyn Fn(&C) -> Outcome) -> bool {
        let id = self.id;
        if let Mode::Replay { test, case, outcome } = &mut self.mode {
            if test == name {
                let c: C = serde_json::from_value(case.clone())
                    .unwrap_or_else(|e| panic!("replay file does not fit {id}/{name}: {e}"));
                watch::worker(watch::REPLAY_SLOT.get(), id, name);
                let running = watch::running(&c);
                *outcome = Some(guard(|| run(&c)));
                drop(running);
            }
            return true;
        }
        false
    }

    /// Fuzzing and listing: true when there is nothing else to do.
    fn try_fuzz<C, S>(
        &mut self,
        name: &str,
        cases: u64,
        strategy: &dyn Fn() -> S,
        classify: &dyn Fn(&C) -> Tags,
        test: &dyn Fn(&C) -> Outcome,
    ) -> bool
    where
        C: Debug + Clone + Hash + Serialize,
        S: Strategy<Value = C>,
    {
        match &mut self.mode {
            Mode::List(names) => names.push((name.to_string(), cases)),
            Mode::Fuzz { test: wanted, driver } => {
                if wanted == name {
                    let strat = strategy();
                    let mut seen = HashSet::new();
                    driver(&mut |bytes| one_input(&strat, bytes, classify, test, &mut seen));
                }
            }
            _ => return false,
        }
        true
    }

    /// Random search: `cases` cases over `WORKERS` threads, failures shrunk by proptest.
    pub fn campaign<C, S>(
        &mut self,
        name: &str,
        cases: u64,
        strategy: impl Fn() -> S + Sync,
        classify: impl Fn(&C) -> Tags + Sync,
        test: impl Fn(&C) -> Outcome + Sync,
    ) where
        C: Debug + Clone + Hash + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = C>,
    {
        if self.try_replay::<C>(name, &test) || self.try_fuzz(name, cases, &strategy, &classify, &test) {
            return;
        }
        let started = Instant::now();
        let total = (cases as f64 * self.scale).max(WORKERS as f64) as u64;
        let per = total.div_ceil(WORKERS as u64) as u32;
        let (seed, id) = (self.seed, self.id);
        struct Worker<C> {
            evaluations: u64,
            seen: HashSet<u64>,
            classes: BTreeMap<&'static str, u64>,
            samples: Vec<C>,
            failure: Option<(C, String)>,
            first: Option<C>,
        }
        let (strategy, classify, test) = (&strategy, &classify, &test);
        let results: Vec<Worker<C>> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..WORKERS)
                .map(|w| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            watch::worker(w, id, name);
                            let cell = RefCell::new(Worker {
                                evaluations: 0,
                                seen: HashSet::new(),
                                classes: BTreeMap::new(),
                                samples: Vec::new(),
                                failure: None,
                                first: None,
                            });
                            let failing = std::cell::Cell::new(false);
                            let config = Config {
                                cases: per,
                                failure_persistence: None,
                                max_shrink_iters: 30_000,
                                max_shrink_time: 40_000,
                                max_global_rejects: 1_000_000,
                                ..Config::default()
                            };
                            let mut runner = TestRunner::new_with_rng(config, rng_for(seed, id, name, w));
                            let strat = strategy();
                            let result = runner.run(&strat, |c| {
                                if !failing.get() {
                                    let mut st = cell.borrow_mut();
                                    st.evaluations += 1;
                                    let tags = classify(&c);
                                    for l in tags.labels {
                                        *st.classes.entry(l).or_default() += 1;
                                    }
                                    if tags.nontrivial && st.seen.insert(hash64(&c)) && st.samples.len() < 2 {
                                        st.samples.push(c.clone());
                                    }
                                }
                                let running = watch::running(&c);
                                let result = guard(|| test(&c));
                                drop(running);
                                result.map_err(|m| {
                                    if !failing.replace(true) {
                                        cell.borrow_mut().first = Some(c.clone());
                                    }
                                    TestCaseError::fail(m)
                                })
                            });
                            let mut out = cell.into_inner();
                            match result {
                                Ok(()) => {}
                                Err(TestError::Fail(why, c)) => out.failure = Some((c, why.message().to_string())),
                                Err(TestError::Abort(why)) => panic!("generator problem in {id}/{name}: {why}"),
                            }
                            out
                        })
                        .expect("spawn")
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut evaluations = 0;
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut best: Option<(usize, Failure)> = None;
        for (w, r) in results.into_iter().enumerate() {
            evaluations += r.evaluations;
            distinct.extend(r.seen);
            for (k, v) in r.classes {
                *classes.entry(k).or_default() += v;
            }
            if w == 0 {
                for c in r.samples {
                    self.stats.samples.push(json!({"test": name, "case": cut(&c)}));
                }
            }
            if let Some((c, message)) = r.failure {
                let case = serde_json::to_value(&c).expect("serializable case");
                let size = case.to_string().len();
                if best.as_ref().is_none_or(|b| size < b.0) {
                    let first = r.first.and_then(|f| serde_json::to_value(&f).ok());
                    best = Some((size, Failure { test: name.into(), case, message, first }));
                }
            }
        }
        self.failures.extend(best.map(|b| b.1));
        self.stats.evaluations += evaluations;
        self.stats.nontrivial += distinct.len() as u64;
        for (k, v) in &classes {
            *self.stats.classes.entry(format!("{name}: {k}")).or_default() += v;
        }
        self.stats.campaigns.push(json!({
            "test": name, "kind": "random", "evaluations": evaluations, "distinct_nontrivial": distinct.len(),
            "wall_s": started.elapsed().as_secs_f64(),
        }));
    }

    /// Enumerated search: `n` items dealt to the workers, each of which makes any number of
    /// distinct cases. `test` returns the cases run and the non-trivial ones, or the failing case.
    pub fn sweep<C>(
        &mut self,
        name: &str,
        n: usize,
        each: impl Fn(usize, &mut Sink<'_, C>) + Sync,
        test: impl Fn(&C) -> Outcome + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send,
    {
        if self.try_replay::<C>(name, &test) || !matches!(self.mode, Mode::Run) {
            return;
        }
        let started = Instant::now();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let (each, test, next, id) = (&each, &test, &next, self.id);
        let results: Vec<_> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..WORKERS)
                .map(|w| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            watch::worker(w, id, name);
                            let mut sink = Sink {
                                test,
                                evaluations: 0,
                                nontrivial: 0,
                                sample: None,
                                failure: None,
                                item: 0,
                            };
                            loop {
                                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                if i >= n || sink.failure.is_some() {
                                    break;
                                }
                                sink.item = i;
                                each(i, &mut sink);
                            }
                            (sink.evaluations, sink.nontrivial, sink.sample, sink.failure)
                        })
                        .expect("spawn")
                })
                .collect();
            handles.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        let mut evaluations = 0;
        let mut nontrivial = 0;
        let mut sample: Option<(usize, C)> = None;
        let mut failure: Option<(usize, C, String)> = None;
        for (e, nt, s, f) in results {
            evaluations += e;
            nontrivial += nt;
            if let Some(s) = s {
                if sample.as_ref().is_none_or(|x| s.0 < x.0) {
                    sample = Some(s);
                }
            }
            if let Some(f) = f {
                if failure.as_ref().is_none_or(|x| f.0 < x.0) {
                    failure = Some(f);
                }
            }
        }
        if let Some((_, c)) = sample {
            self.stats.samples.push(json!({"test": name, "case": cut(&c)}));
        }
        if let Some((_, c, message)) = failure {
            self.failures.push(Failure {
                test: name.into(),
                case: serde_json::to_value(&c).expect("serializable case"),
                message,
                first: None,
            });
        }
        self.stats.evaluations += evaluations;
        self.stats.nontrivial += nontrivial;
        self.stats.campaigns.push(json!({
            "test": name, "kind": "enumerated", "evaluations": evaluations, "distinct_nontrivial": nontrivial,
            "wall_s": started.elapsed().as_secs_f64(),
        }));
    }
}

/// What a fuzzing process has done so far; written out when it ends.
#[derive(Default, Serialize, serde::Deserialize)]
pub struct Fuzzed {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub sample: Option<Value>,
    /// The shrunk case, its message, and the case as decoded.
    pub failure: Option<(Value, String, Value)>,
}
pub static FUZZED: std::sync::Mutex<Fuzzed> =
    std::sync::Mutex::new(Fuzzed { evaluations: 0, nontrivial: Vec::new(), sample: None, failure: None });

/// One fuzzer input: the bytes are the random choices of the campaign's generator.
fn one_input<C, S>(
    strat: &S,
    bytes: &[u8],
    classify: &dyn Fn(&C) -> Tags,
    test: &dyn Fn(&C) -> Outcome,
    seen: &mut HashSet<u64>,
) -> bool
where
    C: Debug + Clone + Hash + Serialize,
    S: Strategy<Value = C>,
{
    let config = Config {
        failure_persistence: None,
        max_shrink_iters: 30_000,
        max_shrink_time: 40_000,
        max_local_rejects: 100,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::PassThrough, bytes));
    let Ok(tree) = strat.new_tree(&mut runner) else { return false };
    let c = tree.current();
    let mut stats = FUZZED.lock().expect("statistics");
    stats.evaluations += 1;
    if classify(&c).nontrivial && seen.insert(hash64(&c)) {
        stats.nontrivial.push(hash64(&c));
        // A late one: the first few are close to the seeds.
        if stats.sample.is_none() || seen.len().is_power_of_two() {
            stats.sample = Some(cut(&c));
        }
    }
    if std::env::var_os("UVH_DECODE").is_some() {
        println!("{}", serde_json::to_string(&c).expect("serializable case"));
        return true;
    }
    drop(stats);
    let Err(message) = guard(|| test(&c)) else { return false };
    let (case, message) = match runner.run_one(tree, |c| guard(|| test(&c)).map_err(TestCaseError::fail)) {
        Err(TestError::Fail(why, small)) => (serde_json::to_value(&small), why.message().to_string()),
        // It did not happen again; the case is reported as it was.
        _ => (serde_json::to_value(&c), format!("{message} (after other cases in the same process)")),
    };
    let first = serde_json::to_value(&c).expect("serializable case");
    FUZZED.lock().expect("statistics").failure = Some((case.expect("serializable case"), message, first));
    true
}

pub struct Sink<'a, C> {
    test: &'a (dyn Fn(&C) -> Outcome + Sync),
    evaluations: u64,
    nontrivial: u64,
    sample: Option<(usize, C)>,
    failure: Option<(usize, C, String)>,
    item: usize,
}
impl<C: Clone + Serialize> Sink<'_, C> {
    /// Runs one case. Returns false once a failure has been recorded.
    #[inline]
    pub fn case(&mut self, nontrivial: bool, c: C) -> bool {
        if self.failure.is_some() {
            return false;
        }
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.sample.is_none() {
                self.sample = Some((self.item, c.clone()));
            }
        }
        let test = self.test;
        let running = watch::running(&c);
        let result = guard(|| test(&c));
        drop(running);
        if let Err(m) = result {
            self.failure = Some((self.item, c, m));
            return false;
        }
        true
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
}

fn cut<C: Serialize>(c: &C) -> Value {
    let v = serde_json::to_value(c).unwrap_or(Value::Null);
    let s = v.to_string();
    if s.len() > 600 {
        let short: String = s.chars().take(600).collect();
        Value::String(format!("{short}... ({} chars)", s.len()))
    } else {
        v
    }
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("UVH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Writes evidence and replays; returns the process exit code.
pub fn finish(s: Session, rule: &str, exhaustive: bool, assumptions: &[&str], wall: f64) -> i32 {
    let dir = verif();
    std::fs::create_dir_all(dir.join("evidence")).expect("evidence dir");
    std::fs::create_dir_all(dir.join("replays")).expect("replay dir");
    let mut samples = s.stats.samples;
    samples.truncate(12);
    let evidence = json!({
        "property": s.id,
        "tier": if s.thorough { "thorough" } else { "quick" },
        "seed": s.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.stats.evaluations,
            "distinct_nontrivial": s.stats.nontrivial,
            "rule": rule,
            "samples": samples,
            "exhaustive": exhaustive,
            "classes": s.stats.classes,
            "tests": s.stats.campaigns,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": s.failures.len(),
    });
    std::fs::write(
        dir.join("evidence").join(format!("{}.json", s.id)),
        serde_json::to_string_pretty(&evidence).expect("json") + "\n",
    )
    .expect("write evidence");
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
        s.id, s.stats.evaluations, s.stats.nontrivial, wall
    );
    for f in &s.failures {
        let path = dir.join("replays").join(format!("{}-{}.json", s.id, f.test.replace([' ', '/'], "_")));
        let body = json!({
            "property": s.id, "test": f.test, "case": f.case, "message": f.message, "unshrunk": f.first,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).expect("json") + "\n").expect("write replay");
        println!("  {}/{}: {}", s.id, f.test, f.message);
        println!("VIOLATION property={} replay={}", s.id, path.display());
    }
    i32::from(!s.failures.is_empty())
}
