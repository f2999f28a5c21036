//! Spreads generated cases over threads, counts what they covered, shrinks the
//! first failure and writes evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::test_runner::{Config as PtConfig, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};

use crate::inst::{IN_FOCA, LAST_PANIC, TRACE};
use crate::tape::{hash2, splitmix, Tape, TapeStrategy};

pub type R = Result<(), String>;

pub type TapeFn = fn(&Tape, &mut Cov) -> R;
pub type EnumFn = fn(u64, &mut Cov) -> R;

#[derive(Clone, Copy)]
pub enum Body {
    Tape { min: usize, max: usize, f: TapeFn },
    /// a finite space, walked completely
    Enum { n: fn(bool) -> u64, f: EnumFn },
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub body: Body,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Cov {
    pub counters: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    pub off: bool,
}

impl Cov {
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        if !self.off {
            *self.counters.entry(k).or_default() += n;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Clone, Debug)]
pub enum Input {
    Tape(Tape),
    Index(u64),
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sub: &'static str,
    pub input: Input,
    pub reason: String,
    pub order: u64,
}

pub static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);
static HEARTBEAT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local! {
    static CURRENT: RefCell<Option<(&'static str, &'static str, Input)>> = const { RefCell::new(None) };
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let in_foca = IN_FOCA.with(|c| c.get());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if !in_foca {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

fn eval(prop: &'static str, sub: &'static str, input: &Input, body: &Body, cov: &mut Cov) -> R {
    CURRENT.with(|c| *c.borrow_mut() = Some((prop, sub, input.clone())));
    let slot = SLOT.with(|s| *s.borrow());
    HEARTBEAT[slot].store(now_ms(), Ordering::Relaxed);
    cov.nontrivial = false;
    let r = catch_unwind(AssertUnwindSafe(|| match (body, input) {
        (Body::Tape { f, .. }, Input::Tape(t)) => f(t, cov),
        (Body::Enum { f, .. }, Input::Index(i)) => f(*i, cov),
        _ => Err("bad input kind".into()),
    }));
    HEARTBEAT[slot].store(0, Ordering::Relaxed);
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            *HARNESS_ERROR.lock().unwrap() = Some(format!("{prop}/{sub}: harness panicked: {m}; input {input:?}"));
            Ok(())
        }
    }
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// A single case that does not come back is an error of the run, not a verdict.
fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for h in HEARTBEAT.iter() {
            let v = h.load(Ordering::Relaxed);
            if v != 0 && now.saturating_sub(v) > limit.as_millis() as u64 {
                println!("ERROR: a case has been running for more than {limit:?}");
                std::process::exit(2);
            }
        }
    });
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut s = 0x5EED_F0CA_u64;
    for p in parts {
        s = hash2(s, *p);
    }
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    out
}
fn hstr(s: &str) -> u64 {
    s.bytes().fold(1469598103934665603, |h, b| (h ^ b as u64).wrapping_mul(1099511628211))
}
fn htape(t: &Tape) -> u64 {
    let mut h = 7u64;
    for w in t.cfg.iter().chain(t.ops.iter().flatten()) {
        h = (h.rotate_left(5) ^ *w as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    h ^ (t.ops.len() as u64) << 48
}

pub struct SubResult {
    pub name: &'static str,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub exhaustive: bool,
    pub secs: f64,
    pub fails: Vec<Failure>,
}

const CHUNKS: u64 = 64;

pub fn run_sub(prop: &'static str, sub: &Sub, thorough: bool, seed: u64, scale: f64) -> SubResult {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let evals = AtomicU64::new(0);
    let nt: Mutex<HashSet<u64>> = Default::default();
    let counters: Mutex<BTreeMap<&'static str, u64>> = Default::default();
    let fails: Mutex<Vec<Failure>> = Default::default();
    let budget = if thorough { sub.thorough } else { sub.quick };
    let total = match sub.body {
        Body::Enum { n, .. } => n(thorough),
        _ => ((budget as f64 * scale) as u64).max(1),
    };
    let chunks = CHUNKS.min(total.max(1));
    let threads = std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    std::thread::scope(|sc| {
        for slot in 0..threads.min(64) {
            let (stop, next, evals, nt, counters, fails) = (&stop, &next, &evals, &nt, &counters, &fails);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| *s.borrow_mut() = slot);
                    let mut my_nt: HashSet<u64> = HashSet::new();
                    let cov = RefCell::new(Cov::default());
                    loop {
                        let c = next.fetch_add(1, Ordering::SeqCst) as u64;
                        if c >= chunks || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let lo = total * c / chunks;
                        let hi = total * (c + 1) / chunks;
                        match sub.body {
                            Body::Enum { .. } => {
                                for i in lo..hi {
                                    if stop.load(Ordering::Relaxed) {
                                        break;
                                    }
                                    evals.fetch_add(1, Ordering::Relaxed);
                                    let mut cv = cov.borrow_mut();
                                    let r = eval(prop, sub.name, &Input::Index(i), &sub.body, &mut cv);
                                    if cv.nontrivial {
                                        my_nt.insert(i);
                                    }
                                    if let Err(reason) = r {
                                        fails.lock().unwrap().push(Failure {
                                            sub: sub.name,
                                            input: Input::Index(i),
                                            reason,
                                            order: i,
                                        });
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                    if HARNESS_ERROR.lock().unwrap().is_some() {
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            Body::Tape { min, max, .. } => {
                                let mut runner = TestRunner::new_with_rng(
                                    PtConfig {
                                        cases: (hi - lo) as u32,
                                        failure_persistence: None,
                                        max_shrink_iters: 6000,
                                        max_shrink_time: 25_000,
                                        ..PtConfig::default()
                                    },
                                    TestRng::from_seed(
                                        RngAlgorithm::ChaCha,
                                        &seed_bytes(&[seed, hstr(prop), hstr(sub.name), c]),
                                    ),
                                );
                                let my = RefCell::new(&mut my_nt);
                                let failed = RefCell::new(None::<(Tape, String)>);
                                let r = runner.run(&TapeStrategy { min_ops: min, max_ops: max }, |t: Tape| {
                                    if failed.borrow().is_none() && (stop.load(Ordering::Relaxed)) {
                                        return Ok(());
                                    }
                                    let mut cv = cov.borrow_mut();
                                    let h = htape(&t);
                                    if !cv.off {
                                        evals.fetch_add(1, Ordering::Relaxed);
                                    }
                                    let input = Input::Tape(t);
                                    let r = eval(prop, sub.name, &input, &sub.body, &mut cv);
                                    if cv.nontrivial && !cv.off {
                                        my.borrow_mut().insert(h);
                                    }
                                    if HARNESS_ERROR.lock().unwrap().is_some() {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    r.map_err(|e| {
                                        cv.off = true;
                                        let Input::Tape(t) = input else { unreachable!() };
                                        let mut f = failed.borrow_mut();
                                        if f.is_none() {
                                            *f = Some((t, e.clone()));
                                        }
                                        TestCaseError::fail(e)
                                    })
                                });
                                cov.borrow_mut().off = false;
                                match r {
                                    Ok(()) => {}
                                    Err(TestError::Fail(_, t)) => {
                                        stop.store(true, Ordering::Relaxed);
                                        let mut cv = Cov { off: true, ..Default::default() };
                                        // replay the shrunk case on its own; fall back to the original
                                        let r = eval(prop, sub.name, &Input::Tape(t.clone()), &sub.body, &mut cv);
                                        let (t, reason) = match r {
                                            Err(e) => (t, e),
                                            Ok(()) => failed.borrow_mut().take().unwrap(),
                                        };
                                        fails.lock().unwrap().push(Failure {
                                            sub: sub.name,
                                            input: Input::Tape(t),
                                            reason,
                                            order: c,
                                        });
                                    }
                                    Err(TestError::Abort(r)) => {
                                        *HARNESS_ERROR.lock().unwrap() = Some(format!("proptest aborted: {r}"));
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    nt.lock().unwrap().extend(my_nt);
                    let mut cs = counters.lock().unwrap();
                    for (k, v) in cov.into_inner().counters {
                        *cs.entry(k).or_default() += v;
                    }
                })
                .unwrap();
        }
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.order);
    SubResult {
        name: sub.name,
        evaluations: evals.into_inner(),
        nontrivial: nt.into_inner().unwrap(),
        counters: counters.into_inner().unwrap(),
        exhaustive: matches!(sub.body, Body::Enum { .. }),
        secs: t0.elapsed().as_secs_f64(),
        fails,
    }
}

/// Runs one input with tracing on and returns what happened, line by line.
pub fn traced(prop: &'static str, sub: &Sub, input: &Input) -> (R, Vec<String>) {
    TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
    let mut cov = Cov { off: true, ..Default::default() };
    let r = eval(prop, sub.name, input, &sub.body, &mut cov);
    let t = TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default();
    (r, t)
}

/// The nth generated case of a sub-check, for the evidence samples
fn sample_inputs(prop: &'static str, sub: &Sub, thorough: bool, seed: u64) -> Vec<Input> {
    match sub.body {
        Body::Enum { n, .. } => {
            let n = n(thorough);
            vec![Input::Index(n / 3)]
        }
        Body::Tape { min, max, .. } => {
            let mut runner = TestRunner::new_with_rng(
                PtConfig { failure_persistence: None, ..PtConfig::default() },
                TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[seed, hstr(prop), hstr(sub.name), 0])),
            );
            use proptest::strategy::{Strategy, ValueTree};
            let s = TapeStrategy { min_ops: min, max_ops: max };
            (0..24)
                .filter_map(|_| s.new_tree(&mut runner).ok().map(|t| Input::Tape(t.current())))
                .collect()
        }
    }
}

pub fn input_json(i: &Input) -> Value {
    match i {
        Input::Tape(t) => json!({"tape": {"cfg": t.cfg, "ops": t.ops}}),
        Input::Index(i) => json!({"index": i}),
    }
}

pub fn write_replay(dir: &str, prop: &str, f: &Failure, trace: &[String], flavour: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let h = hash2(
        match &f.input {
            Input::Tape(t) => htape(t),
            Input::Index(i) => *i,
        },
        hstr(f.sub),
    );
    let path = format!("{dir}/{prop}-{}-{:016x}.json", f.sub, h);
    let v = json!({
        "property": prop,
        "sub": f.sub,
        "flavour": flavour,
        "reason": f.reason,
        "input": input_json(&f.input),
        "history": trace,
        "replay_with": format!("/verif/check.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub evidence: Option<String>,
    pub replays: String,
    pub merge: Vec<String>,
    pub flavour: String,
    pub only: Option<String>,
    pub scale: f64,
    pub known: Vec<(String, String)>,
}

pub fn run_prop(prop: &Prop, o: &Opts) -> i32 {
    install_panic_hook();
    watchdog(Duration::from_secs(120));
    let t0 = Instant::now();
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut per_sub = vec![];
    let mut samples = vec![];
    let mut violations = 0;
    let mut exit = 0;
    for sub in &prop.subs {
        if let Some(only) = &o.only {
            if !sub.name.starts_with(only.as_str()) {
                continue;
            }
        }
        let r = run_sub(prop.id, sub, o.thorough, o.seed, o.scale);
        evaluations += r.evaluations;
        distinct += r.nontrivial.len() as u64;
        per_sub.push(json!({
            "sub": sub.name,
            "flavour": o.flavour,
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.nontrivial.len(),
            "exhaustive": r.exhaustive && r.fails.is_empty(),
            "secs": (r.secs * 100.0).round() / 100.0,
            "classes": r.counters,
        }));
        println!(
            "{}/{} [{}]: {} cases, {} non-trivial, {:.1}s",
            prop.id, sub.name, o.flavour, r.evaluations, r.nontrivial.len(), r.secs
        );
        if let Some(e) = HARNESS_ERROR.lock().unwrap().clone() {
            println!("ERROR: {e}");
            return 2;
        }
        if let Some(f) = r.fails.first() {
            let (_, trace) = traced(prop.id, sub, &f.input);
            let sig = format!("{}|{}", f.sub, f.reason);
            if let Some((_, what)) = o.known.iter().find(|(s, _)| *s == sig) {
                println!("KNOWN-FINDING: property={} {}", prop.id, what);
            } else {
                violations += 1;
                let path = write_replay(&o.replays, prop.id, f, &trace, &o.flavour);
                println!("  {}", f.reason);
                println!("VIOLATION property={} replay={}", prop.id, path);
                exit = 1;
                break;
            }
        }
        // one written-out case per sub-check: the longest non-trivial of a few
        if o.evidence.is_some() {
            let mut best: Option<(Input, Vec<String>)> = None;
            for i in sample_inputs(prop.id, sub, o.thorough, o.seed) {
                let mut cov = Cov::default();
                let ok = eval(prop.id, sub.name, &i, &sub.body, &mut cov).is_ok();
                if ok && cov.nontrivial {
                    let (_, t) = traced(prop.id, sub, &i);
                    best = Some((i, t));
                    break;
                }
            }
            if let Some((i, mut t)) = best {
                let n = t.len();
                t.truncate(40);
                for l in t.iter_mut() {
                    if l.len() > 600 {
                        let mut k = 600;
                        while !l.is_char_boundary(k) {
                            k -= 1;
                        }
                        l.truncate(k);
                        l.push_str(" ...");
                    }
                }
                let input = match &i {
                    Input::Index(i) => json!(i),
                    Input::Tape(t) => json!(format!("tape of {} operations", t.ops.len())),
                };
                samples.push(json!({"sub": sub.name, "input": input, "lines": n, "history": t}));
            }
        }
    }
    for m in &o.merge {
        if let Ok(s) = std::fs::read_to_string(m) {
            if let Ok(v) = serde_json::from_str::<Value>(&s) {
                let c = &v["coverage"];
                evaluations += c["evaluations"].as_u64().unwrap_or(0);
                distinct += c["distinct_nontrivial"].as_u64().unwrap_or(0);
                if let Some(a) = c["per_sub"].as_array() {
                    per_sub.extend(a.iter().cloned());
                }
            }
        }
    }
    if let Some(path) = &o.evidence {
        let all_exh = !per_sub.is_empty() && per_sub.iter().all(|s| s["exhaustive"] == json!(true));
        let mut cov = json!({
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "per_sub": per_sub,
        });
        if all_exh {
            cov["exhaustive"] = json!(true);
        }
        let v = json!({
            "property": prop.id,
            "tier": if o.thorough { "thorough" } else { "quick" },
            "seed": o.seed,
            "level": prop.level,
            "coverage": cov,
            "assumptions": prop.assumptions,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations,
        });
        if let Err(e) = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()) {
            println!("ERROR: cannot write evidence: {e}");
            return 2;
        }
    }
    exit
}

/// Called by the allocator when foca asks for an absurd amount of memory:
/// that would abort the process, so report it while it is still possible.
pub fn absurd_allocation(size: usize) -> ! {
    let cur = CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    if let Some((prop, sub, input)) = cur {
        let f = Failure {
            sub,
            input,
            reason: format!("foca asked for an allocation of {size} bytes: aborts the process"),
            order: 0,
        };
        let path = write_replay("/verif/replays", prop, &f, &[], "-");
        println!("  {}", f.reason);
        println!("VIOLATION property={prop} replay={path}");
        std::process::exit(1);
    }
    std::process::exit(2)
}

/// Known findings of one property: (signature, description). A line of the
/// file reads `finding: property=<id> sig=<sub>|<reason> ## <what fails>`.
pub fn read_known(path: &str, prop: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((id, rest)) = rest.split_once(' ') else { continue };
        let Some(rest) = rest.strip_prefix("sig=") else { continue };
        let Some((sig, what)) = rest.split_once(" ## ") else { continue };
        if id == prop {
            out.push((sig.to_string(), what.to_string()));
        }
    }
    out
}

pub fn replay(all: &[Prop], path: &str) -> i32 {
    install_panic_hook();
    let Ok(s) = std::fs::read_to_string(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            println!("{path}: {e}");
            return 2;
        }
    };
    let (p, sname) = (v["property"].as_str().unwrap_or(""), v["sub"].as_str().unwrap_or(""));
    let Some(prop) = all.iter().find(|x| x.id == p) else { return 2 };
    let Some(sub) = prop.subs.iter().find(|x| x.name == sname) else { return 2 };
    let input = if let Some(i) = v["input"]["index"].as_u64() {
        Input::Index(i)
    } else {
        match serde_json::from_value::<Tape>(v["input"]["tape"].clone()) {
            Ok(t) => Input::Tape(t),
            Err(e) => {
                println!("{path}: {e}");
                return 2;
            }
        }
    };
    let (r, trace) = traced(prop.id, sub, &input);
    for l in trace {
        println!("{l}");
    }
    if let Some(e) = HARNESS_ERROR.lock().unwrap().clone() {
        println!("ERROR: {e}");
        return 2;
    }
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(e) => {
            println!("  {e}");
            println!("VIOLATION property={p} replay={path}");
            1
        }
    }
}
