//! Runs a check: generates cases from proptest strategies, judges them, shrinks a failing one,
//! writes the replay file and the evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case is allowed to report besides pass or fail.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    classes: Vec<&'static str>,
    pub known: Vec<String>,
}

impl Ctx {
    /// Counts the case under a class of the distribution.
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.class(name)
        }
    }
    /// A finding showed itself: reported as known when the committed list has it for this
    /// property, otherwise it is a failure. `what` starts with the key of the list.
    pub fn known_finding(&mut self, property: &str, what: &str) -> Res {
        if !listed(property, what) {
            return Err(format!("not in the list of known findings: {}", what));
        }
        if !self.known.iter().any(|k| k == what) {
            self.known.push(what.to_string())
        }
        Ok(())
    }
}

/// Is there a line "known: property=<id> <what>" in the list?
fn listed(property: &str, what: &str) -> bool {
    static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let list = LIST.get_or_init(|| {
        std::fs::read_to_string(out_dir().join("KNOWN_FINDINGS.md")).unwrap_or_default()
    });
    let line = format!("known: property={} {}", property, what);
    list.lines().any(|l| l.trim() == line)
}

pub type Res = Result<(), String>;

pub trait Check: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Total number of generated cases over all shards.
    fn cases(&self, tier: Tier) -> u32;
    /// Deterministic cases which always run.
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    fn run(&self, case: &Self::Case, ctx: &mut Ctx) -> Res;
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
}

pub const SHARDS: usize = 8;

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, clip(&msg, 400))));
    }));
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

#[derive(Default)]
struct Shard {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    sample_keys: HashSet<String>,
    known: Vec<String>,
}

impl Shard {
    fn note<C: Serialize>(&mut self, case: &C, ctx: Ctx) {
        self.evaluations += 1;
        for c in &ctx.classes {
            *self.classes.entry(c).or_insert(0) += 1;
        }
        for k in ctx.known {
            if !self.known.contains(&k) {
                self.known.push(k);
            }
        }
        if ctx.nontrivial {
            let json = serde_json::to_vec(case).expect("case serialises");
            let new = self.nontrivial.insert(fnv(&json));
            // one sample per distinct class set, few and small
            if new && self.samples.len() < 3 && json.len() < 3000 {
                let key = ctx.classes.join(",");
                if self.sample_keys.insert(key.clone()) {
                    self.samples.push(serde_json::json!({
                        "classes": key,
                        "case": serde_json::from_slice::<serde_json::Value>(&json).unwrap(),
                    }));
                }
            }
        }
    }
}

struct Failure<C> {
    case: C,
    error: String,
    shrink_steps: u32,
    origin: String,
}

fn seed_bytes(seed: u64, shard: u64, id: &str) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&shard.to_le_bytes());
    b[16..24].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
    b
}

fn shrink<K: Check>(
    check: &K,
    mut tree: Box<dyn ValueTree<Value = K::Case>>,
    first: String,
) -> Failure<K::Case> {
    let mut best = tree.current();
    let mut err = first;
    let mut steps = 0;
    let mut evals = 0;
    if tree.simplify() {
        loop {
            evals += 1;
            if evals > 3000 {
                break;
            }
            let case = tree.current();
            match judge(check, &case).1 {
                Err(e) => {
                    best = case;
                    err = e;
                    steps += 1;
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(()) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    Failure {
        case: best,
        error: err,
        shrink_steps: steps,
        origin: String::new(),
    }
}

/// Stack of the threads cases run on: that of an ordinary thread, twice for the harness.
const STACK: usize = 4 << 20;

/// Where each shard writes the case it is about to run, when looking for a crashing one.
fn trace<C: Serialize>(shard: usize, at: &str, case: &C) {
    static DIR: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    let dir = DIR.get_or_init(|| std::env::var_os("VERIF_TRACE").map(PathBuf::from));
    if let Some(d) = dir {
        let v = serde_json::json!({ "at": at, "shard": shard, "case": case });
        let _ = std::fs::write(d.join(shard.to_string()), serde_json::to_vec(&v).unwrap());
    }
}

/// Did the process end by a signal which a crash of the code under test leads to? Being killed
/// from the outside is not one.
pub fn crashed(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    // ill, abrt, bus, fpe, segv
    matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11))
}

pub fn worker(mode: &str, args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
    c.env("VERIF_WORKER", mode).env_remove("VERIF_TRACE").args(args);
    c
}

/// The run ended in a crash of the process (stack overflow, abort). Repeats it, noting each
/// case, confirms that a noted case alone crashes a process of its own, and shrinks it.
pub fn hunt<K: Check>(check: &K, tier: Tier, seed: u64) -> i32 {
    let dir = out_dir().join("out").join(format!("trace-{}-{}", check.id(), std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("cannot create {}: {}", dir.display(), e);
        return 3;
    }
    let null = || std::process::Stdio::null();
    let status = worker("run", &[check.id()]).env("VERIF_TRACE", &dir).stdout(null()).stderr(null()).status();
    let notes: Vec<serde_json::Value> = (0..SHARDS)
        .filter_map(|s| std::fs::read(dir.join(s.to_string())).ok())
        .filter_map(|b| serde_json::from_slice(&b).ok())
        .collect();
    let probe = dir.join("probe.json");
    let crashes = |case: &serde_json::Value| {
        let body = serde_json::json!({ "property": check.id(), "case": case });
        std::fs::write(&probe, serde_json::to_vec(&body).unwrap()).is_ok()
            && worker("run", &["replay", check.id(), probe.to_str().unwrap()])
                .stdout(null())
                .stderr(null())
                .status()
                .map_or(false, |s| crashed(&s))
    };
    let found = match status {
        Ok(s) if crashed(&s) => notes.iter().find(|n| crashes(&n["case"])),
        _ => None,
    };
    let code = match found {
        None => {
            eprintln!("the run crashed, but no case crashes on its own");
            4
        }
        Some(note) => {
            let mut case = note["case"].clone();
            let mut steps = 0;
            if let Ok(n) = note["at"].as_str().unwrap_or("").parse::<usize>() {
                let mut runner = case_runner(seed, note["shard"].as_u64().unwrap_or(0), check.id());
                let strategy = check.strategy(tier);
                let tree = (0..=n).filter_map(|_| strategy.new_tree(&mut runner).ok()).last();
                if let Some(mut tree) = tree.filter(|t| serde_json::to_value(t.current()).unwrap() == case) {
                    let mut evals = 0;
                    let mut more = tree.simplify();
                    while more && evals < 150 {
                        evals += 1;
                        let c = serde_json::to_value(tree.current()).unwrap();
                        more = if crashes(&c) {
                            case = c;
                            steps += 1;
                            tree.simplify()
                        } else {
                            tree.complicate()
                        };
                    }
                }
            }
            let error = "the process crashes on this case";
            let origin = format!("shard {} case {}", note["shard"], note["at"]);
            match write_replay(check.id(), seed, &origin, steps, error, &case) {
                Err(e) => {
                    eprintln!("cannot write replay: {}", e);
                    3
                }
                Ok(path) => {
                    println!("failing case: {}", clip(&case.to_string(), 3000));
                    println!("error: {}", error);
                    println!("VIOLATION property={} replay={}", check.id(), path.display());
                    1
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn write_replay(id: &str, seed: u64, origin: &str, steps: u32, error: &str, case: &serde_json::Value) -> std::io::Result<PathBuf> {
    let rd = out_dir().join("out").join("replay");
    std::fs::create_dir_all(&rd)?;
    let path = rd.join(format!("{}.json", id));
    let body = serde_json::json!({
        "property": id,
        "seed": seed,
        "origin": origin,
        "shrink_steps": steps,
        "error": error,
        "case": case,
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&body).unwrap())?;
    Ok(path)
}

fn case_runner(seed: u64, shard: u64, id: &str) -> TestRunner {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, shard, id));
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, rng)
}

fn judge<K: Check>(check: &K, case: &K::Case) -> (Ctx, Res) {
    let mut ctx = Ctx::default();
    let r = guarded(|| check.run(case, &mut ctx));
    (ctx, r)
}

pub fn out_dir() -> PathBuf {
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    PathBuf::from(d)
}

pub fn replay<K: Check>(check: &K, file: &str) -> i32 {
    let v: serde_json::Value = match std::fs::read(file)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read replay file {}: {}", file, e);
            return 2;
        }
    };
    let case: K::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot decode case: {}", e);
            return 2;
        }
    };
    println!("case: {}", clip(&format!("{:#?}", case), 6000));
    let judged = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || judge(check, &case).1);
        t.expect("spawn").join().expect("judge does not panic")
    });
    match judged {
        Ok(()) => {
            println!("replay: the property held on this case");
            0
        }
        Err(e) => {
            println!("replay: {}", e);
            println!("VIOLATION property={} replay={}", check.id(), file);
            1
        }
    }
}

pub fn run<K: Check>(check: &K, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<(usize, Failure<K::Case>)>> = Mutex::new(Vec::new());
    let total = Mutex::new(Shard::default());
    let per = (check.cases(tier) as usize + SHARDS - 1) / SHARDS;
    let fixed = check.fixed(tier);
    let nfixed = fixed.len();

    std::thread::scope(|s| {
        for shard in 0..SHARDS {
            let (stop, failures, total, fixed) = (&stop, &failures, &total, &fixed);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Shard::default();
                    let mut failed = None;
                    for case in fixed.iter().skip(shard).step_by(SHARDS) {
                        trace(shard, "fixed", case);
                        let (ctx, r) = judge(check, case);
                        st.note(case, ctx);
                        if let Err(error) = r {
                            failed = Some(Failure {
                                case: case.clone(),
                                error,
                                shrink_steps: 0,
                                origin: "fixed case".into(),
                            });
                            break;
                        }
                    }
                    if failed.is_none() {
                        let mut runner = case_runner(seed, shard as u64, check.id());
                        let strategy = check.strategy(tier);
                        for n in 0..per {
                            if n % 64 == 0 && stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let tree = match strategy.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("generator failed: {}", e);
                                    std::process::exit(3);
                                }
                            };
                            let case = tree.current();
                            trace(shard, &n.to_string(), &case);
                            let (ctx, r) = judge(check, &case);
                            st.note(&case, ctx);
                            if let Err(e) = r {
                                let mut f = shrink(check, Box::new(tree), e);
                                f.origin = format!("shard {} case {}", shard, n);
                                failed = Some(f);
                                break;
                            }
                        }
                    }
                    if let Some(f) = failed {
                        stop.store(true, Ordering::Relaxed);
                        failures.lock().unwrap().push((shard, f));
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += st.evaluations;
                    t.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.classes {
                        *t.classes.entry(k).or_insert(0) += v;
                    }
                    for k in st.known {
                        if !t.known.contains(&k) {
                            t.known.push(k);
                        }
                    }
                    for s in st.samples {
                        if t.samples.len() < 6
                            && t.sample_keys.insert(s["classes"].to_string())
                        {
                            t.samples.push(s);
                        }
                    }
                })
                .expect("spawn shard");
        }
    });

    let t = total.into_inner().unwrap();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|(s, _)| *s);
    let dir = out_dir();
    let wall = start.elapsed().as_secs_f64();

    let classes: serde_json::Map<String, serde_json::Value> = t
        .classes
        .iter()
        .map(|(k, v)| (k.to_string(), serde_json::json!(v)))
        .collect();
    let mut known = t.known.clone();
    known.sort();
    let evidence = serde_json::json!({
        "property": check.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": check.rule(),
            "samples": t.samples,
            "classes": classes,
            "fixed_cases": nfixed,
            "shards": SHARDS,
            "known_findings_seen": known,
        },
        "assumptions": check.assumptions(),
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": fails.len().min(1),
    });
    let ev = dir.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(
        ev.join(format!("{}.json", check.id())),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    ) {
        eprintln!("cannot write evidence: {}", e);
        return 3;
    }

    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1} s",
        check.id(),
        t.evaluations,
        t.nontrivial.len(),
        wall
    );
    for (k, v) in &t.classes {
        println!("  {:>9}  {}", v, k);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", check.id(), k);
    }

    if let Some((_, f)) = fails.into_iter().next() {
        let case = serde_json::to_value(&f.case).unwrap();
        let path = match write_replay(check.id(), seed, &f.origin, f.shrink_steps, &f.error, &case) {
            Ok(p) => p,
            Err(e) => {
                eprintln!("cannot write replay: {}", e);
                return 3;
            }
        };
        println!("failing case: {}", clip(&format!("{:?}", f.case), 3000));
        println!("error: {}", clip(&f.error, 3000));
        println!("VIOLATION property={} replay={}", check.id(), path.display());
        return 1;
    }
    0
}
