//! Search framework: runs proptest strategies against an oracle on several
//! workers with seeds derived from VERIF_SEED, shrinks the first failure, writes
//! it as a replay file and reports evidence measured on the run.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- tiers

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Mode {
    Search,
    /// Coverage-guided search, in the instrumented build.
    Guided,
    Replay { sub: String, case: serde_json::Value },
    /// Find out which case a dead run was on: regenerate it and run it, and
    /// what it shrinks to, in processes of their own.
    Hunt(crate::supervise::Hunt),
}

/// What one evaluation of a case reports besides its verdict.
#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
}
impl Obs {
    /// Count this case in class `l`.
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// The case satisfies the check's non-triviality rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    corpus: u64,
    edges: usize,
}

pub struct SubReport {
    pub name: &'static str,
    stats: SubStats,
    exhaustive: bool,
}

pub struct Violation {
    pub sub: &'static str,
    pub message: String,
    pub case_json: serde_json::Value,
    pub case_debug: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    pub mode: Mode,
    pub t0: Instant,
    pub reports: Mutex<Vec<SubReport>>,
    pub violation: Mutex<Option<Violation>>,
    pub known: Mutex<Vec<String>>,
    /// some worker has found a violation
    pub done_early: std::sync::atomic::AtomicBool,
    pub replay_ran: std::sync::atomic::AtomicBool,
    pub known_patterns: Vec<String>,
}

/// Is this the build with coverage instrumentation?
pub fn instrumented() -> bool {
    cov::edges() > 0
}

pub type TestResult = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} (at {loc})")));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic payload".to_string()
    }
}

/// Run `f`, turning a panic into `Err(description)`.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let d = LAST_PANIC
                .with(|l| l.borrow_mut().take())
                .unwrap_or_else(|| payload_str(p.as_ref()));
            Err(format!("panicked: {d}"))
        }
    }
}

pub fn hash_of<T: Hash>(v: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

fn seed_bytes(seed: u64, id: &str, sub: &str, worker: usize) -> [u8; 32] {
    let mut s = mix(seed ^ hash_of(&(id, sub)) ^ mix(worker as u64 + 1));
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        s = mix(s);
        c.copy_from_slice(&s.to_le_bytes());
    }
    out
}

fn focus_of(worker: usize, k: u64) -> u64 {
    mix(worker as u64 + 1) ^ k
}

fn clip(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    s
}

fn eval<T>(stats: Option<&mut SubStats>, v: &T, test: &dyn Fn(&T, &mut Obs) -> TestResult) -> TestResult
where
    T: Debug + Hash,
{
    let mut obs = Obs::default();
    let r = match no_panic(|| test(v, &mut obs)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    crate::guard::disarm();
    if let Some(st) = stats {
        st.evaluations += 1;
        for l in &obs.labels {
            *st.labels.entry(l).or_default() += 1;
        }
        if obs.nontrivial && st.distinct.insert(hash_of(v)) && st.samples.len() < 2 {
            st.samples.push(clip(format!("{v:?}"), 700));
        }
    }
    r
}

/// A value that does not shrink.
struct Fixed<T>(T);
impl<T: Debug + Clone> ValueTree for Fixed<T> {
    type Value = T;
    fn current(&self) -> T {
        self.0.clone()
    }
    fn simplify(&mut self) -> bool {
        false
    }
    fn complicate(&mut self) -> bool {
        false
    }
}

/// Simplify a failing case as long as it fails. `test` gives the failure, if
/// any, or None to stop.
fn shrink<V: ValueTree>(
    tree: &mut V,
    first: V::Value,
    message: String,
    steps: u32,
    mut test: impl FnMut(&V::Value, u32) -> Option<Option<String>>,
) -> (V::Value, String) {
    let mut best = (first, message);
    if steps == 0 || !tree.simplify() {
        return best;
    }
    for n in 0..steps {
        let v = tree.current();
        let Some(r) = test(&v, n) else { break };
        let more = match r {
            Some(m) => {
                best = (v, m);
                tree.simplify()
            }
            None => tree.complicate(),
        };
        if !more {
            break;
        }
    }
    best
}

impl Ctx {
    pub fn done(&self) -> bool {
        match self.mode {
            Mode::Search | Mode::Guided | Mode::Hunt(_) => self.violation.lock().unwrap().is_some(),
            Mode::Replay { .. } => false,
        }
    }

    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough.max(quick.saturating_mul(10)),
        }
    }

    /// Search `quick`/`thorough` generated cases (split over the workers) for a
    /// case on which `test` fails.
    pub fn search<T, S>(
        &self,
        sub: &'static str,
        quick: u32,
        thorough: u32,
        strat: impl Fn() -> S + Sync,
        test: impl Fn(&T, &mut Obs) -> TestResult + Sync,
    ) where
        T: Debug + Clone + Hash + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = T>,
    {
        if let Mode::Replay { sub: rsub, case } = &self.mode {
            if rsub == sub {
                self.replay_one::<T>(sub, case, &test);
            }
            return;
        }
        if self.done() {
            return;
        }
        if let Mode::Hunt(h) = &self.mode {
            if h.sub == hash_of(&sub) && h.worker >= crate::guided::FIRST {
                let made = crate::supervise::tape(h);
                if let Some((tree, _)) = made.and_then(|m| m.tree(&strat())) {
                    self.hunt(sub, h, tree);
                }
            } else if h.sub == hash_of(&sub) {
                let mut runner = self.runner(sub, h.worker);
                let strat = strat();
                for k in 0..h.index {
                    crate::dict::focus(focus_of(h.worker, k));
                    let _ = strat.new_tree(&mut runner);
                }
                crate::dict::focus(focus_of(h.worker, h.index));
                if let Ok(tree) = strat.new_tree(&mut runner) {
                    self.hunt(sub, h, tree);
                }
            }
            return;
        }
        let total = self.cases(quick, thorough);
        let n = self.workers as u32;
        let guided = matches!(self.mode, Mode::Guided);
        if guided && total < 1_000 {
            return;
        }
        let mut results: Vec<(SubStats, Option<(T, String)>)> = vec![];
        // most cases with every log record made, which bounds the work; the
        // others as most programs run, without logging
        let silent = if guided { 0 } else { total / 4 };
        for (base, total, level) in [
            (0, total - silent, log::LevelFilter::Trace),
            (self.workers, silent, log::LevelFilter::Off),
        ] {
            if total == 0 || results.iter().any(|r| r.1.is_some()) {
                break;
            }
            log::set_max_level(level);
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..self.workers)
                    .map(|w| {
                        let strat = &strat;
                        let test = &test;
                        let per = total / n + u32::from((w as u32) < total % n);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || {
                                if guided {
                                    self.guided(sub, crate::guided::FIRST + w, per, strat(), test)
                                } else {
                                    self.worker(sub, base + w, per, strat(), test)
                                }
                            })
                            .unwrap()
                    })
                    .collect();
                for h in hs {
                    match h.join() {
                        Ok(r) => results.push(r),
                        Err(p) => {
                            crate::out(&format!("harness worker failed: {}", payload_str(p.as_ref())));
                            std::process::exit(2);
                        }
                    }
                }
            });
        }
        log::set_max_level(log::LevelFilter::Trace);
        self.merge(sub, false, results);
    }

    /// Search from cases that reached something new in the code: their random
    /// choices are changed here and there.
    fn guided<T, S>(
        &self,
        sub: &'static str,
        w: usize,
        cases: u32,
        strat: S,
        test: &(dyn Fn(&T, &mut Obs) -> TestResult + Sync),
    ) -> (SubStats, Option<(T, String)>)
    where
        T: Debug + Clone + Hash,
        S: Strategy<Value = T>,
    {
        let mut slot = crate::supervise::Slot::new(hash_of(&sub), w);
        let seed = seed_bytes(self.seed, self.id, sub, w);
        let mut search = crate::guided::Search::new(u64::from_le_bytes(seed[..8].try_into().unwrap()));
        let mut cover = cov::Cover::default();
        let mut stats = SubStats::default();
        let t0 = Instant::now();
        let limit = self.guided_seconds();
        for k in 0..cases {
            let made = search.next();
            let (mut tree, runner) = match made.tree(&strat) {
                Some(t) => t,
                // the changed choices may make a filter give up
                None => continue,
            };
            let v = tree.current();
            slot.begin_guided(u64::from(k), &made);
            let (r, news) = cover.record(|| eval(Some(&mut stats), &v, test));
            slot.end();
            if let Err(m) = r {
                self.done_early.store(true, std::sync::atomic::Ordering::Relaxed);
                let t0 = Instant::now();
                let (v, m) = shrink(&mut tree, v, m, 30_000, |v, n| {
                    if n % 16 == 0 && t0.elapsed().as_secs() > 60 {
                        return None;
                    }
                    slot.begin_guided(u64::from(k), &made);
                    let r = eval(None, v, test).err();
                    slot.end();
                    Some(r)
                });
                return (stats, Some((v, m)));
            }
            search.learn(made, runner, news);
            if k % 16 == 0 && (t0.elapsed().as_secs_f64() > limit || self.done_early.load(std::sync::atomic::Ordering::Relaxed)) {
                break;
            }
        }
        stats.corpus = search.len() as u64;
        stats.edges = cover.taken();
        (stats, None)
    }

    fn guided_seconds(&self) -> f64 {
        match self.tier {
            Tier::Quick => 3.0,
            Tier::Thorough => 120.0,
        }
    }

    fn worker<T, S>(
        &self,
        sub: &'static str,
        w: usize,
        cases: u32,
        strat: S,
        test: &(dyn Fn(&T, &mut Obs) -> TestResult + Sync),
    ) -> (SubStats, Option<(T, String)>)
    where
        T: Debug + Clone + Hash,
        S: Strategy<Value = T>,
    {
        let mut runner = self.runner(sub, w);
        let slot = crate::supervise::Slot::new(hash_of(&sub), w);
        let mut stats = SubStats::default();
        for k in 0..cases {
            crate::dict::focus(focus_of(w, u64::from(k)));
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(r) => panic!("{sub}: generator gave up: {r}"),
            };
            let v = tree.current();
            slot.begin(u64::from(k));
            let r = eval(Some(&mut stats), &v, test);
            slot.end();
            if let Err(m) = r {
                self.done_early.store(true, std::sync::atomic::Ordering::Relaxed);
                let t0 = Instant::now();
                let (v, m) = shrink(&mut tree, v, m, 30_000, |v, n| {
                    if n % 16 == 0 && t0.elapsed().as_secs() > 60 {
                        return None;
                    }
                    slot.begin(u64::from(k));
                    let r = eval(None, v, test).err();
                    slot.end();
                    Some(r)
                });
                return (stats, Some((v, m)));
            }
            if k % 64 == 0 && self.done_early.load(std::sync::atomic::Ordering::Relaxed) {
                break;
            }
        }
        (stats, None)
    }

    fn runner(&self, sub: &str, w: usize) -> TestRunner {
        let cfg = Config {
            failure_persistence: None,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(self.seed, self.id, sub, w));
        TestRunner::new_with_rng(cfg, rng)
    }

    fn hunt<T: Debug + Clone + Serialize>(&self, sub: &'static str, h: &crate::supervise::Hunt, mut tree: impl ValueTree<Value = T>) {
        let t0 = Instant::now();
        let try_one = |v: &T| {
            let v = Violation {
                sub,
                message: String::new(),
                case_json: serde_json::to_value(v).unwrap_or(serde_json::Value::Null),
                case_debug: String::new(),
            };
            crate::supervise::dies(self.id, self.seed, &v, &h.file)
        };
        let v = tree.current();
        let Some((message, slow)) = try_one(&v) else { return };
        let (v, message) = shrink(&mut tree, v, message, if slow { 0 } else { 400 }, |v, _| {
            if t0.elapsed().as_secs() > 100 {
                return None;
            }
            Some(try_one(v).map(|(m, _)| m))
        });
        *self.violation.lock().unwrap() = Some(Violation {
            sub,
            message,
            case_json: serde_json::to_value(&v).unwrap_or(serde_json::Value::Null),
            case_debug: clip(format!("{v:?}"), 4000),
        });
    }

    /// Evaluate every element of a finite space (no shrinking needed: the space
    /// is ordered smallest first).
    pub fn enumerate<T>(
        &self,
        sub: &'static str,
        complete: bool,
        items: impl Iterator<Item = T>,
        test: impl Fn(&T, &mut Obs) -> TestResult + Sync,
    ) where
        T: Debug + Clone + Hash + Serialize + DeserializeOwned + Send,
    {
        if let Mode::Replay { sub: rsub, case } = &self.mode {
            if rsub == sub {
                self.replay_one::<T>(sub, case, &test);
            }
            return;
        }
        if self.done() || matches!(self.mode, Mode::Guided) {
            return;
        }
        if let Mode::Hunt(h) = &self.mode {
            if h.sub == hash_of(&sub) {
                let mut items = items;
                if let Some(v) = items.nth(h.index as usize) {
                    self.hunt(sub, h, Fixed(v));
                }
            }
            return;
        }
        let mut stats = SubStats::default();
        let mut fail = None;
        let slot = crate::supervise::Slot::new(hash_of(&sub), 0);
        for (k, v) in items.enumerate() {
            slot.begin(k as u64);
            if mix(k as u64) & 3 == 0 {
                log::set_max_level(log::LevelFilter::Off);
            }
            let r = eval(Some(&mut stats), &v, &test);
            log::set_max_level(log::LevelFilter::Trace);
            slot.end();
            if let Err(m) = r {
                fail = Some((v, m));
                break;
            }
        }
        self.merge(sub, complete, vec![(stats, fail)]);
    }

    fn merge<T: Debug + Serialize>(
        &self,
        sub: &'static str,
        exhaustive: bool,
        results: Vec<(SubStats, Option<(T, String)>)>,
    ) {
        let mut all = SubStats::default();
        for (st, fail) in results {
            all.evaluations += st.evaluations;
            all.corpus += st.corpus;
            all.edges = all.edges.max(st.edges);
            all.distinct.extend(st.distinct);
            for (k, n) in st.labels {
                *all.labels.entry(k).or_default() += n;
            }
            if all.samples.len() < 2 {
                all.samples.extend(st.samples);
            }
            if let Some((v, message)) = fail {
                let mut slot = self.violation.lock().unwrap();
                if slot.is_none() {
                    *slot = Some(Violation {
                        sub,
                        message,
                        case_json: serde_json::to_value(&v).unwrap_or(serde_json::Value::Null),
                        case_debug: clip(format!("{v:?}"), 4000),
                    });
                }
            }
        }
        all.samples.truncate(2);
        self.reports.lock().unwrap().push(SubReport {
            name: sub,
            stats: all,
            exhaustive,
        });
    }

    fn replay_one<T>(
        &self,
        sub: &'static str,
        case: &serde_json::Value,
        test: &dyn Fn(&T, &mut Obs) -> TestResult,
    ) where
        T: Debug + Hash + Serialize + DeserializeOwned,
    {
        self.replay_ran.store(true, std::sync::atomic::Ordering::Relaxed);
        let v: T = match serde_json::from_value(case.clone()) {
            Ok(v) => v,
            Err(e) => {
                crate::out(&format!("replay case does not parse: {e}"));
                std::process::exit(2);
            }
        };
        crate::out(&format!("case: {}", clip(format!("{v:?}"), 4000)));
        let slot = crate::supervise::Slot::new(0, 0);
        slot.begin(0);
        let mut r = eval(None, &v, test);
        if r.is_ok() {
            log::set_max_level(log::LevelFilter::Off);
            r = eval(None, &v, test).map_err(|m| format!("{m} (without logging)"));
            log::set_max_level(log::LevelFilter::Trace);
        }
        slot.end();
        match r {
            Ok(()) => crate::out(&format!("replay of {}/{sub}: property holds", self.id)),
            Err(m) => {
                *self.violation.lock().unwrap() = Some(Violation {
                    sub,
                    message: m,
                    case_json: case.clone(),
                    case_debug: String::new(),
                });
            }
        }
    }

    /// While the result lives, holding more memory than the harness' hard cap is
    /// a violation by `case` (which is then not shrunk: the process cannot go on).
    pub fn on_runaway<T: Debug + Clone + Serialize + 'static>(&self, sub: &'static str, case: &T) -> crate::guard::OnRunaway {
        let (id, seed, case) = (self.id, self.seed, case.clone());
        let replay = matches!(self.mode, Mode::Replay { .. });
        crate::guard::on_runaway(Box::new(move || {
            let v = Violation {
                sub,
                message: "more than 3 GiB in use on this input".to_string(),
                case_json: serde_json::to_value(&case).unwrap_or(serde_json::Value::Null),
                case_debug: clip(format!("{case:?}"), 4000),
            };
            let file = if replay { String::from("(as given)") } else { crate::write_replay(id, seed, &v) };
            crate::out(&format!("{id}/{sub}: {}", v.message));
            crate::out(&format!("VIOLATION property={id} replay={file}"));
            remove_scratch();
            std::process::exit(1);
        }))
    }

    /// Report a failure that is listed in the known-findings file.
    pub fn known_finding(&self, what: &str) {
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|x| x == what) {
            k.push(what.to_string());
        }
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known_patterns.iter().any(|p| p == key)
    }

    pub fn evidence(&self, rule: &str, assumptions: &[&str]) -> serde_json::Value {
        let reports = self.reports.lock().unwrap();
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut subs = serde_json::Map::new();
        let mut exhaustive = !reports.is_empty();
        for r in reports.iter() {
            evals += r.stats.evaluations;
            distinct += r.stats.distinct.len() as u64;
            exhaustive &= r.exhaustive;
            for s in &r.stats.samples {
                samples.push(serde_json::json!(format!("{}: {}", r.name, s)));
            }
            let sub = if matches!(self.mode, Mode::Guided) {
                serde_json::json!({
                    "evaluations": r.stats.evaluations,
                    "distinct_nontrivial": r.stats.distinct.len(),
                    "corpus": r.stats.corpus,
                    "most_edges_of_one_worker": r.stats.edges,
                })
            } else {
                serde_json::json!({
                    "evaluations": r.stats.evaluations,
                    "distinct_nontrivial": r.stats.distinct.len(),
                    "classes": r.stats.labels,
                    "exhaustive": r.exhaustive,
                })
            };
            subs.insert(r.name.to_string(), sub);
        }
        if samples.is_empty() {
            samples.push(serde_json::json!("none"));
        }
        serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": rule,
                "samples": samples,
                "exhaustive": exhaustive,
                "per_search": subs,
            },
            "assumptions": assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": i32::from(self.violation.lock().unwrap().is_some()),
        })
    }

    /// Add what the guided search covered to the evidence of the run before it.
    pub fn add_guided(&self, before: serde_json::Value, guided: &serde_json::Value) -> serde_json::Value {
        if before["property"] != guided["property"] || before["seed"] != guided["seed"] || before["tier"] != guided["tier"] {
            return guided.clone();
        }
        let mut ev = before;
        let c = &guided["coverage"];
        // its cases may be among those of the run before: not counted as distinct ones
        ev["coverage"]["evaluations"] = (ev["coverage"]["evaluations"].as_u64().unwrap_or(0) + c["evaluations"].as_u64().unwrap_or(0)).into();
        ev["coverage"]["coverage_guided"] = serde_json::json!({
            "evaluations": c["evaluations"],
            "edges_instrumented": cov::edges(),
            "per_search": c["per_search"],
            "samples": c["samples"],
            "wall_s": guided["wall_s"],
        });
        ev["wall_s"] = (ev["wall_s"].as_f64().unwrap_or(0.0) + guided["wall_s"].as_f64().unwrap_or(0.0)).into();
        ev["violations"] = guided["violations"].clone();
        ev
    }
}

// ---------------------------------------------------------------- scratch

thread_local! {
    static SCRATCH: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
static SCRATCH_ROOT: Mutex<Option<PathBuf>> = Mutex::new(None);
static SCRATCH_NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn scratch_root() -> PathBuf {
    let mut g = SCRATCH_ROOT.lock().unwrap();
    g.get_or_insert_with(|| {
        let pid = std::process::id();
        for base in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(format!("{base}/vh-scratch-{pid}"));
            if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() {
                let _ = std::fs::remove_file(p.join("probe"));
                return p;
            }
        }
        crate::out("no scratch directory available");
        std::process::exit(2);
    })
    .clone()
}

/// A directory of this thread's own, created on first use.
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let n = SCRATCH_NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let p = scratch_root().join(format!("w{n}"));
                std::fs::create_dir_all(&p).expect("scratch");
                p
            })
            .clone()
    })
}

pub fn remove_scratch() {
    if let Some(p) = SCRATCH_ROOT.lock().unwrap().take() {
        // only ever a directory this process created, named after its pid
        let _ = std::fs::remove_dir_all(&p);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// Every kind of I/O error but the end of a file and an interruption.
pub const IO_KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    &[
        Other, PermissionDenied, TimedOut, WouldBlock, InvalidData, InvalidInput, BrokenPipe, ConnectionReset, NotFound, OutOfMemory, Unsupported, WriteZero, ConnectionRefused, ConnectionAborted, HostUnreachable, NetworkUnreachable, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, AlreadyExists, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong,
    ]
};
