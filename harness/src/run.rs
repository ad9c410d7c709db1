//! The runner: generates cases with proptest strategies on several threads from a fixed seed,
//! shrinks failures, writes replay and evidence files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub sums: Vec<(&'static str, u64)>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
    pub fn add(&mut self, c: &'static str, n: u64) {
        self.sums.push((c, n));
    }
}

pub struct Phase<C> {
    pub name: &'static str,
    /// cases in the quick tier
    pub quick: u32,
    /// cases in the thorough tier
    pub thorough: u32,
    pub strat: BoxedStrategy<C>,
    /// of large cases, not scaled
    pub heavy: bool,
}

pub fn phase<C: Debug>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: impl Strategy<Value = C> + 'static,
) -> Phase<C> {
    Phase {
        name,
        quick,
        thorough,
        strat: strat.boxed(),
        heavy: false,
    }
}

/// A phase of few large cases
pub fn heavy<C: Debug>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strat: impl Strategy<Value = C> + 'static,
) -> Phase<C> {
    Phase {
        heavy: true,
        ..phase(name, quick, thorough, strat)
    }
}

/// A genuine defect that is recorded in KNOWN_FINDINGS.txt and not repaired: tried at the end of
/// every run
pub struct Known {
    pub key: &'static str,
    pub probe: Box<dyn Fn() -> Result<(), String>>,
}

/// keys of the recorded defects of a property
fn recorded(id: &str) -> Vec<String> {
    let prefix = format!("known: property={} ", id);
    std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&prefix).map(|x| x.split(" | ").next().unwrap().trim().to_string()))
        .collect()
}

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// Sends the standard output of the code under test to /dev/null; `say` still reaches the real one
fn hush() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::fcntl(saved, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::dup2(null, 1);
            libc::close(null);
            OUT.store(saved, Ordering::SeqCst);
        }
    }
}

pub fn say(line: &str) {
    let fd = OUT.load(Ordering::SeqCst);
    if fd < 0 {
        println!("{}", line);
        return;
    }
    let b = format!("{}\n", line).into_bytes();
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { libc::write(fd, b[at..].as_ptr() as *const libc::c_void, b.len() - at) };
        if n <= 0 {
            return;
        }
        at += n as usize;
    }
}

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send;
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn phases(&self, tier: Tier) -> Vec<Phase<Self::Case>>;
    fn check(&self, case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
    fn shards(&self) -> usize {
        8
    }
    /// factor on the number of cases of the quick tier, except of expensive phases
    fn quick_scale(&self) -> f64 {
        1.0
    }
    /// the code under test writes to the standard output
    fn quiet(&self) -> bool {
        false
    }
    fn known(&self) -> Vec<Known> {
        vec![]
    }
    fn max_shrink(&self) -> usize {
        600
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// additional facts for the evidence, after the run
    fn extra(&self) -> Vec<(String, serde_json::Value)> {
        vec![]
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run something of the code under test; a panic is an Err
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .map(|m| format!("panic: {}", m))
            .unwrap_or_else(|| "panic".into())),
    }
}

fn eval<P: Prop>(p: &P, c: &P::Case, obs: &mut Obs) -> Result<(), String> {
    match guarded(|| p.check(c, obs)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn rng_for(seed: u64, id: &str, phase: &str, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    let parts = [
        seed,
        hash_fnv(id.as_bytes()),
        hash_fnv(phase.as_bytes()),
        shard as u64,
    ];
    for (i, p) in parts.iter().enumerate() {
        bytes[i * 8..i * 8 + 8].copy_from_slice(&p.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn hash_fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

struct Failure<C> {
    phase: String,
    shard: usize,
    message: String,
    case: C,
    original_message: String,
    shrink_steps: usize,
    note: &'static str,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

fn sample_json<C: Serialize + Debug>(c: &C) -> serde_json::Value {
    let s = serde_json::to_string(c).unwrap_or_else(|_| format!("{:?}", c));
    if s.len() <= 1200 {
        serde_json::from_str(&s).unwrap_or(serde_json::Value::String(s))
    } else {
        let mut n = 1200;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..n], s.len()))
    }
}

/// The hooks this was built with
fn hooks() -> Vec<&'static str> {
    [
        ("sink", cfg!(feature = "sink")),
        ("flush", cfg!(feature = "flush")),
        ("degree", cfg!(feature = "degree")),
        ("codec", cfg!(feature = "codec")),
        ("mlog", cfg!(feature = "mlog")),
        ("sync", cfg!(feature = "sync")),
    ]
    .iter()
    .filter(|h| h.1)
    .map(|h| h.0)
    .collect()
}

pub fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub struct Params {
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
}

pub fn params() -> Params {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let scale = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    Params { tier, seed, scale }
}

fn write_replay<P: Prop>(p: &P, par: &Params, f: &Failure<P::Case>) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({
        "property": p.id(),
        "seed": par.seed as i64,
        "phase": f.phase,
        "shard": f.shard,
        "message": f.message,
        "message_before_shrinking": f.original_message,
        "shrink_steps": f.shrink_steps,
        "note": f.note,
        "case": f.case,
    });
    let text = serde_json::to_string_pretty(&v).unwrap();
    let path = dir.join(format!(
        "{}-{:016x}.json",
        p.id(),
        hash_fnv(serde_json::to_string(&f.case).unwrap().as_bytes())
    ));
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

fn case_limit() -> Duration {
    Duration::from_secs(
        std::env::var("VERIF_CASE_LIMIT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(240),
    )
}

pub fn run<P: Prop>(p: &P) -> i32 {
    install_panic_hook();
    if p.quiet() {
        hush();
    }
    let par = params();
    let start = Instant::now();
    // quick runs are of fixed size; the cap only matters on a very slow machine
    let cap = match par.tier {
        Tier::Quick => Duration::from_secs(420),
        Tier::Thorough => Duration::from_secs(3 * 3600),
    };
    let shards = p.shards();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let failure: Mutex<Vec<Failure<P::Case>>> = Mutex::new(vec![]);
    let tallies: Mutex<Vec<(usize, Tally)>> = Mutex::new(vec![]);
    #[allow(clippy::type_complexity)]
    let current: Vec<Mutex<Option<(Instant, &'static str, P::Case)>>> =
        (0..shards).map(|_| Mutex::new(None)).collect();

    std::thread::scope(|sc| {
        let mut handles = vec![];
        for shard in 0..shards {
            let (stop, capped, failure, tallies, current, par) =
                (&stop, &capped, &failure, &tallies, &current, &par);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            handles.push(
                b.spawn_scoped(sc, move || {
                    let mut tally = Tally::default();
                    'all: for ph in p.phases(par.tier) {
                        let total = match par.tier {
                            Tier::Quick if ph.heavy => ph.quick as f64 * if ph.quick > 2 { 2.0 } else { 1.0 },
                            Tier::Quick => ph.quick as f64 * p.quick_scale() * 2.5,
                            Tier::Thorough => ph.thorough as f64 * 4.0,
                        } * par.scale;
                        let total = total.ceil() as usize;
                        let mine = total / shards + usize::from(shard < total % shards);
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                failure_persistence: None,
                                ..Config::default()
                            },
                            rng_for(par.seed, p.id(), ph.name, shard),
                        );
                        for _ in 0..mine {
                            if stop.load(Ordering::Relaxed) {
                                break 'all;
                            }
                            if start.elapsed() > cap {
                                capped.store(true, Ordering::Relaxed);
                                break 'all;
                            }
                            let mut tree = match ph.strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("generator failed: {}", e);
                                    std::process::exit(3);
                                }
                            };
                            let case = tree.current();
                            *current[shard].lock().unwrap() =
                                Some((Instant::now(), ph.name, case.clone()));
                            let mut obs = Obs::default();
                            let r = eval(p, &case, &mut obs);
                            *current[shard].lock().unwrap() = None;
                            tally.evaluations += 1;
                            *tally.classes.entry(format!("phase:{}", ph.name)).or_default() += 1;
                            for c in &obs.classes {
                                *tally.classes.entry(c.to_string()).or_default() += 1;
                            }
                            for (c, n) in &obs.sums {
                                *tally.classes.entry(format!("sum:{}", c)).or_default() += n;
                            }
                            if obs.nontrivial {
                                let h = hash_str(&format!("{:?}", case));
                                if tally.nontrivial.insert(h)
                                    && tally.samples.len() < 2
                                    && (tally.samples.is_empty() || tally.evaluations % 7 == 3)
                                {
                                    tally.samples.push(sample_json(&case));
                                }
                            }
                            if let Err(m) = r {
                                stop.store(true, Ordering::Relaxed);
                                let f = shrink(p, &mut tree, case, m, ph.name, shard);
                                failure.lock().unwrap().push(f);
                                break 'all;
                            }
                        }
                    }
                    tallies.lock().unwrap().push((shard, tally));
                })
                .expect("spawn"),
            );
        }
        // watchdog
        let (done_r, current, par) = (&done, &current, &par);
        let w = sc.spawn(move || {
            let limit = case_limit();
            while !done_r.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for (shard, c) in current.iter().enumerate() {
                    let g = c.lock().unwrap();
                    if let Some((t, ph, case)) = &*g {
                        if t.elapsed() > limit {
                            let f = Failure {
                                phase: ph.to_string(),
                                shard,
                                message: format!("no result within {:?}", limit),
                                case: case.clone(),
                                original_message: String::new(),
                                shrink_steps: 0,
                                note: "not shrunk",
                            };
                            let path = write_replay(p, par, &f);
                            say(&format!("{}: {}", p.id(), f.message));
                            say(&format!("VIOLATION property={} replay={}", p.id(), path));
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for h in handles {
            if h.join().is_err() {
                eprintln!("a worker thread died");
                std::process::exit(3);
            }
        }
        done.store(true, Ordering::Relaxed);
        let _ = w.join();
    });

    let mut t = Tally::default();
    let mut ts = tallies.into_inner().unwrap();
    ts.sort_by_key(|x| x.0);
    for (_, x) in ts {
        t.evaluations += x.evaluations;
        t.nontrivial.extend(x.nontrivial);
        for (k, v) in x.classes {
            *t.classes.entry(k).or_default() += v;
        }
        if t.samples.len() < 6 {
            t.samples.extend(x.samples);
        }
    }
    let mut failures = failure.into_inner().unwrap();
    failures.sort_by_key(|f| f.shard);
    // the recorded defects
    let known = recorded(p.id());
    let mut findings = vec![];
    let mut fresh = None;
    for k in p.known() {
        let r = guarded(|| (k.probe)()).and_then(|x| x);
        if let Err(m) = r {
            if known.iter().any(|x| x == k.key) {
                findings.push((k.key, m));
            } else if fresh.is_none() {
                fresh = Some((k.key, m));
            }
        }
    }
    let mut coverage = serde_json::json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.nontrivial.len(),
        "rule": p.rule(),
        "samples": t.samples,
        "classes": t.classes,
        "stopped_by_time_cap": capped.load(Ordering::Relaxed),
        "hooks": hooks(),
    });
    if !findings.is_empty() {
        coverage["known_findings"] = findings.iter().map(|f| format!("{}: {}", f.0, f.1)).collect();
    }
    for (k, v) in p.extra() {
        coverage[k] = v;
    }
    let ev = serde_json::json!({
        "property": p.id(),
        "tier": match par.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": par.seed as i64,
        "level": p.level(),
        "coverage": coverage,
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len() + usize::from(fresh.is_some()),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", p.id())),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {}", e);
        return 3;
    }
    for (k, m) in &findings {
        say(&format!("KNOWN-FINDING: property={} {} ({})", p.id(), k, m));
    }
    if let (None, Some((k, m))) = (failures.first(), &fresh) {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", p.id(), hash_fnv(k.as_bytes())));
        let v = serde_json::json!({"property": p.id(), "message": m, "probe": k});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        say(&format!("{}: {}: {}", p.id(), k, m));
        say(&format!("VIOLATION property={} replay={}", p.id(), path.display()));
        return 1;
    }
    if let Some(f) = failures.first() {
        let path = write_replay(p, &par, f);
        say(&format!("{}: {}", p.id(), f.message));
        say(&format!("VIOLATION property={} replay={}", p.id(), path));
        return 1;
    }
    say(&format!(
        "{}: held on {} cases, {} distinct non-trivial ({:.1} s)",
        p.id(),
        t.evaluations,
        t.nontrivial.len(),
        start.elapsed().as_secs_f64()
    ));
    0
}

fn shrink<P: Prop>(
    p: &P,
    tree: &mut Box<dyn ValueTree<Value = P::Case>>,
    case: P::Case,
    message: String,
    phase: &str,
    shard: usize,
) -> Failure<P::Case> {
    let start = Instant::now();
    let budget = Duration::from_secs(40);
    // is it reproducible?
    let mut again = 0;
    for _ in 0..3 {
        if start.elapsed() < budget && eval(p, &case, &mut Obs::default()).is_err() {
            again += 1;
        }
    }
    let tries = if again == 3 { 1 } else { 6 };
    let fails = |c: &P::Case| -> Option<String> {
        for _ in 0..tries {
            if let Err(m) = eval(p, c, &mut Obs::default()) {
                return Some(m);
            }
        }
        None
    };
    let mut best = (case, message.clone());
    let mut steps = 0;
    let mut improved = 0;
    if tree.simplify() {
        loop {
            if steps >= p.max_shrink() || start.elapsed() > budget {
                break;
            }
            steps += 1;
            let c = tree.current();
            match fails(&c) {
                Some(m) => {
                    best = (c, m);
                    improved += 1;
                    if !tree.simplify() {
                        break;
                    }
                }
                None => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    Failure {
        phase: phase.to_string(),
        shard,
        message: best.1,
        case: best.0,
        original_message: message,
        shrink_steps: improved,
        note: if again == 3 {
            "reproducible"
        } else {
            "depends on hash seeds or timing: repeat the replay"
        },
    }
}

pub fn replay<P: Prop>(p: &P, v: &serde_json::Value) -> i32 {
    install_panic_hook();
    if p.quiet() {
        hush();
    }
    if let Some(key) = v["probe"].as_str() {
        for k in p.known() {
            if k.key == key {
                if let Err(m) = guarded(|| (k.probe)()).and_then(|x| x) {
                    say(&format!("{}: {}", p.id(), m));
                    say("still fails");
                    return 1;
                }
            }
        }
        say("passes");
        return 0;
    }
    let case: P::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot read the case: {}", e);
            return 3;
        }
    };
    for _ in 0..20 {
        if let Err(m) = eval(p, &case, &mut Obs::default()) {
            say(&format!("{}: {}", p.id(), m));
            say("still fails");
            return 1;
        }
    }
    say("passes");
    0
}
