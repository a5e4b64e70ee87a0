//! Case runner, violation reporting and evidence.
//!
//! Every check is a set of *stages*; a stage runs numbered cases, each from its own
//! deterministic generator (seed, property, stage, index), on worker threads. A worker owns a
//! one-thread rayon pool, so that everything the code under test does in a case happens on a
//! thread whose thread-local monitors (transcript, multi-scalar multiplication) are recording.

use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Shared {
    evaluations: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<(String, String)>>,
    violations: Mutex<Vec<Violation>>,
    inconclusive: Mutex<Vec<String>>,
    stop: AtomicBool,
    active: Mutex<BTreeMap<(String, u64), Instant>>,
}

#[derive(Clone)]
struct Violation {
    stage: String,
    idx: u64,
    msg: String,
}

pub struct Report {
    prop: &'static str,
    tier: Tier,
    seed: u64,
    start: Instant,
    rule: String,
    budget: Duration,
    shared: Arc<Shared>,
    replay: Option<(String, u64)>,
    stages: Vec<(String, u64, f64)>,
    assumptions: Vec<String>,
    required: Vec<(String, u64, Option<String>)>,
    pub threads: usize,
    /// judge every case whatever the time (the work was done before the stage)
    pub untimed: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

/// One generated case.
pub struct Case {
    pub idx: u64,
    pub stage: String,
    pub rng: ChaCha20Rng,
    pub tier: Tier,
    shared: Arc<Shared>,
    pub failures: Vec<String>,
    desc: Option<String>,
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

impl Case {
    /// Record that an oracle judged one execution.
    pub fn eval(&mut self) {
        self.shared.evaluations.fetch_add(1, Ordering::Relaxed);
    }
    /// Record a distinct non-trivial situation by its description.
    pub fn distinct(&mut self, what: &str) {
        self.shared.distinct.lock().unwrap().insert(fnv(what.as_bytes()));
    }
    pub fn count(&self, name: &str, n: u64) {
        *self
            .shared
            .counters
            .lock()
            .unwrap()
            .entry(name.to_string())
            .or_insert(0) += n;
    }
    pub fn describe(&mut self, d: impl Into<String>) {
        self.desc = Some(d.into());
    }
    /// The oracle: `cond` must hold.
    pub fn check(&mut self, cond: bool, msg: impl FnOnce() -> String) -> bool {
        self.eval();
        if !cond {
            let m = msg();
            self.failures.push(m);
        }
        cond
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        self.eval();
        self.failures.push(msg.into());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut g = self.shared.samples.lock().unwrap();
        if g.iter().filter(|(st, _)| *st == self.stage).count() < 3 {
            let text = s();
            g.push((self.stage.clone(), text));
        }
    }
    pub fn inconclusive(&self, s: impl Into<String>) {
        let mut g = self.shared.inconclusive.lock().unwrap();
        if g.len() < 50 {
            g.push(format!("{}#{}: {}", self.stage, self.idx, s.into()));
        }
    }
    pub fn coin(&mut self) -> bool {
        use rand::Rng;
        self.rng.gen()
    }
    pub fn below(&mut self, n: usize) -> usize {
        use rand::Rng;
        self.rng.gen_range(0..n)
    }
    /// a fresh generator for code under test that takes an rng
    pub fn sub_rng(&mut self) -> ChaCha20Rng {
        ChaCha20Rng::from_rng(&mut self.rng).unwrap()
    }
}

fn panic_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Run the code under test, turning a panic into Err(text).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|p| {
        let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{} ({})", panic_text(&p), loc)
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(loc.clone()));
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet {
            eprintln!("panic on {:?}: {}", std::thread::current().name(), info);
        }
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Report {
    pub fn new(prop: &'static str, rule: &str) -> Report {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut seed: u64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse().ok())
            .unwrap_or(1);
        let mut replay = None;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--seed" => {
                    seed = args[i + 1].parse().unwrap();
                    i += 1;
                }
                "--replay" => {
                    // a replay file: lines "seed N", "tier T", "stage S", "case I"
                    let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                    let mut stage = String::new();
                    let mut idx = 0;
                    for l in text.lines() {
                        if let Some(v) = l.strip_prefix("seed ") {
                            seed = v.trim().parse().unwrap();
                        } else if let Some(v) = l.strip_prefix("tier ") {
                            tier = if v.trim() == "thorough" { Tier::Thorough } else { Tier::Quick };
                        } else if let Some(v) = l.strip_prefix("stage ") {
                            stage = v.trim().to_string();
                        } else if let Some(v) = l.strip_prefix("case ") {
                            idx = v.trim().parse().unwrap();
                        }
                    }
                    replay = Some((stage, idx));
                    i += 1;
                }
                "--case" => {
                    replay = Some((args[i + 1].clone(), args[i + 2].parse().unwrap()));
                    i += 2;
                }
                _ => {}
            }
            i += 1;
        }
        // Evidence never survives from an earlier run.
        let _ = std::fs::remove_file(format!("{}/evidence/{}.json", verif_dir(), prop));
        let budget = match tier {
            Tier::Quick => Duration::from_secs(
                std::env::var("CTMON_QUICK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(300),
            ),
            Tier::Thorough => Duration::from_secs(
                std::env::var("CTMON_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(600),
            ),
        };
        let rep = Report {
            prop,
            tier,
            seed,
            start: Instant::now(),
            rule: rule.to_string(),
            budget,
            shared: Arc::new(Shared {
                evaluations: AtomicU64::new(0),
                distinct: Mutex::new(HashSet::new()),
                counters: Mutex::new(BTreeMap::new()),
                samples: Mutex::new(Vec::new()),
                violations: Mutex::new(Vec::new()),
                inconclusive: Mutex::new(Vec::new()),
                stop: AtomicBool::new(false),
                active: Mutex::new(BTreeMap::new()),
            }),
            replay,
            stages: Vec::new(),
            assumptions: Vec::new(),
            required: Vec::new(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16),
            untimed: false,
        };
        // Hard stop. A single case that has been running for minutes does not terminate, which is
        // a violation of whatever it was checking; otherwise there is no verdict.
        let hard = match tier {
            Tier::Quick => budget * 2 + Duration::from_secs(150),
            Tier::Thorough => budget * 4 + Duration::from_secs(120),
        };
        let sh = rep.shared.clone();
        std::thread::spawn(move || {
            std::thread::sleep(hard);
            let act = sh.active.lock().unwrap().clone();
            for ((stage, idx), t) in act {
                if t.elapsed() > Duration::from_secs(240) {
                    let dir = format!("{}/out", verif_dir());
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{}/{}-{}-hang.replay", dir, prop, seed);
                    let _ = std::fs::write(
                        &path,
                        format!("property {}\nseed {}\ntier {}\nstage {}\ncase {}\nmessage does not terminate\n", prop, seed,
                            if tier == Tier::Quick { "quick" } else { "thorough" }, stage, idx),
                    );
                    println!("violation: stage={} case={} did not terminate within {:?}", stage, idx, t.elapsed());
                    println!("VIOLATION property={} replay={}", prop, path);
                    std::process::exit(1);
                }
            }
            eprintln!("ctmon: hard time limit reached; no verdict");
            std::process::exit(3);
        });
        rep
    }

    pub fn tier(&self) -> Tier {
        self.tier
    }
    pub fn seed(&self) -> u64 {
        self.seed
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// The run only counts if the named counter reached `min` (the monitors saw something).
    pub fn require(&mut self, counter: &str, min: u64) {
        self.required.push((counter.to_string(), min, None));
    }

    /// required, except when the counter `unless` shows that the stage could not be set up against this code
    pub fn require_unless(&mut self, counter: &str, min: u64, unless: &str) {
        self.required.push((counter.to_string(), min, Some(unless.to_string())));
    }

    fn case_rng(&self, stage: &str, idx: u64) -> ChaCha20Rng {
        use sha3::{Digest, Sha3_256};
        let mut h = Sha3_256::new();
        h.update(b"ctmon");
        h.update(self.seed.to_le_bytes());
        h.update(self.prop.as_bytes());
        h.update(stage.as_bytes());
        h.update(idx.to_le_bytes());
        let mut s = [0u8; 32];
        s.copy_from_slice(&h.finalize());
        ChaCha20Rng::from_seed(s)
    }

    /// Run `quick` (or `thorough`) cases of a stage on worker threads.
    pub fn stage<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case) + Send + Sync,
    {
        self.stage_on(name, quick, thorough, self.threads, true, f)
    }

    /// As `stage`, on `threads` workers; `own_pool` gives each worker a one-thread rayon pool.
    pub fn stage_on<F>(&mut self, name: &str, quick: u64, thorough: u64, threads: usize, own_pool: bool, f: F)
    where
        F: Fn(&mut Case) + Send + Sync,
    {
        let n = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        // a percentage of the cases, for runs inside another check
        let n = match std::env::var("CTMON_SCALE").ok().and_then(|s| s.parse::<u64>().ok()) {
            Some(pc) => (n * pc).div_ceil(100),
            None => n,
        };
        let t0 = Instant::now();
        let range: Vec<u64> = match &self.replay {
            Some((s, i)) if s == name => vec![*i],
            Some(_) => return,
            None => (0..n).collect(),
        };
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let deadline = self.start + self.budget;
        let shared = &self.shared;
        let me = &*self;
        let fr = &f;
        std::thread::scope(|sc| {
            for w in 0..threads.min(range.len().max(1)) {
                let next = &next;
                let done = &done;
                let range = &range;
                std::thread::Builder::new()
                    .name(format!("{}-{}", name, w))
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let work = || loop {
                            if shared.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            // out of time: stop, but never before the first round of cases
                            if k >= range.len() || (!me.untimed && Instant::now() > deadline && k >= threads) {
                                break;
                            }
                            let idx = range[k];
                            let mut case = Case {
                                idx,
                                stage: name.to_string(),
                                rng: me.case_rng(name, idx),
                                tier: me.tier,
                                shared: shared.clone(),
                                failures: Vec::new(),
                                desc: None,
                            };
                            let key = (name.to_string(), idx);
                            shared.active.lock().unwrap().insert(key.clone(), Instant::now());
                            let r = guard(|| fr(&mut case));
                            shared.active.lock().unwrap().remove(&key);
                            if let Err(p) = r {
                                case.failures.push(format!("the code under test panicked: {}", p));
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            if !case.failures.is_empty() {
                                let d = case.desc.clone().map(|d| format!(" [{}]", d)).unwrap_or_default();
                                let mut v = shared.violations.lock().unwrap();
                                for m in &case.failures {
                                    v.push(Violation { stage: name.to_string(), idx, msg: format!("{}{}", m, d) });
                                }
                                if v.len() >= 20 {
                                    shared.stop.store(true, Ordering::Relaxed);
                                }
                            }
                        };
                        if own_pool {
                            let pool = rayon::ThreadPoolBuilder::new()
                                .num_threads(1)
                                .stack_size(64 << 20)
                                .build()
                                .unwrap();
                            pool.install(work);
                        } else {
                            work();
                        }
                    })
                    .unwrap();
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.stages.push((name.to_string(), d, t0.elapsed().as_secs_f64()));
        eprintln!(
            "[{}] stage {}: {} of {} cases in {:.1}s, {} violations so far",
            self.prop,
            name,
            d,
            range.len(),
            t0.elapsed().as_secs_f64(),
            self.shared.violations.lock().unwrap().len()
        );
    }

    pub fn counter(&self, name: &str) -> u64 {
        *self.shared.counters.lock().unwrap().get(name).unwrap_or(&0)
    }

    /// Write the evidence and exit with the verdict.
    pub fn finish(self) -> ! {
        let sh = &self.shared;
        let violations = sh.violations.lock().unwrap().clone();
        let known = load_known(self.prop);
        let mut fresh = Vec::new();
        let mut hits: BTreeMap<String, u64> = BTreeMap::new();
        for v in &violations {
            match known.iter().find(|k| v.msg.contains(k.as_str())) {
                Some(k) => *hits.entry(k.clone()).or_insert(0) += 1,
                None => fresh.push(v.clone()),
            }
        }
        let evaluations = sh.evaluations.load(Ordering::Relaxed);
        let distinct = sh.distinct.lock().unwrap().len() as u64;
        let counters = sh.counters.lock().unwrap().clone();
        let inconclusive = sh.inconclusive.lock().unwrap().clone();
        let replaying = self.replay.is_some();
        let mut missing = Vec::new();
        if !replaying && fresh.is_empty() {
            if evaluations == 0 || distinct == 0 {
                missing.push("no oracle evaluation was made".to_string());
            }
            for (c, min, unless) in &self.required {
                let got = *counters.get(c).unwrap_or(&0);
                let excused = unless.as_ref().map_or(false, |u| counters.get(u).map_or(false, |n| *n > 0));
                if got < *min && !excused {
                    missing.push(format!("counter {} is {}, below {}", c, got, min));
                }
            }
        }
        // evidence
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            self.prop, tier, self.seed
        ));
        j.push_str(&format!("  \"evaluations\": {},\n", evaluations));
        j.push_str(&format!("  \"distinct_nontrivial\": {},\n", distinct));
        j.push_str(&format!("  \"rule\": \"{}\",\n", esc(&self.rule)));
        let samples = sh.samples.lock().unwrap();
        j.push_str("  \"samples\": [");
        for (i, (st, s)) in samples.iter().enumerate() {
            if i > 0 {
                j.push_str(", ");
            }
            j.push_str(&format!("\n   \"{}: {}\"", esc(st), esc(s)));
        }
        j.push_str("],\n  \"monitors\": {");
        for (i, (k, v)) in counters.iter().enumerate() {
            if i > 0 {
                j.push_str(", ");
            }
            j.push_str(&format!("\n   \"{}\": {}", esc(k), v));
        }
        j.push_str("},\n  \"stages\": [");
        for (i, (n, c, t)) in self.stages.iter().enumerate() {
            if i > 0 {
                j.push_str(", ");
            }
            j.push_str(&format!("\n   {{\"stage\": \"{}\", \"cases\": {}, \"wall_s\": {:.2}}}", esc(n), c, t));
        }
        j.push_str("],\n  \"inconclusive\": [");
        for (i, s) in inconclusive.iter().enumerate() {
            if i > 0 {
                j.push_str(", ");
            }
            j.push_str(&format!("\"{}\"", esc(s)));
        }
        j.push_str("]\n },\n \"assumptions\": [");
        for (i, s) in self.assumptions.iter().enumerate() {
            if i > 0 {
                j.push_str(", ");
            }
            j.push_str(&format!("\"{}\"", esc(s)));
        }
        j.push_str(&format!(
            "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.start.elapsed().as_secs_f64(),
            fresh.len()
        ));
        if !replaying {
            let dir = format!("{}/evidence", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(format!("{}/{}.json", dir, self.prop), j).expect("write evidence");
        }
        for (k, n) in &hits {
            println!("KNOWN-FINDING: property={} {} ({} observations)", self.prop, k, n);
        }
        if !fresh.is_empty() {
            let dir = format!("{}/out", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in fresh.iter().enumerate().take(5) {
                let path = format!("{}/{}-{}-{}.replay", dir, self.prop, self.seed, i);
                let body = format!(
                    "property {}\nseed {}\ntier {}\nstage {}\ncase {}\nmessage {}\n# rerun: {}/harness/target/release/{} --replay {}\n",
                    self.prop, self.seed, tier, v.stage, v.idx, v.msg, verif_dir(), self.prop.to_lowercase(), path
                );
                let _ = std::fs::write(&path, body);
                println!("violation: stage={} case={} {}", v.stage, v.idx, v.msg);
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            std::process::exit(1);
        }
        if !missing.is_empty() {
            eprintln!("[{}] not enough was observed: {:?}; inconclusive: {:?}", self.prop, missing, inconclusive);
            std::process::exit(2);
        }
        println!(
            "[{}] held: {} evaluations, {} distinct, {:.1}s",
            self.prop,
            evaluations,
            distinct,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}

/// Open findings of a property: lines "open: property=<id> <text>" in known-findings.txt; a
/// violation whose message contains <text> is that finding.
fn load_known(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let pre = format!("open: property={} ", prop);
    text.lines()
        .filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string()))
        .filter(|s| !s.is_empty())
        .collect()
}
