//! Runs batches of simulations, minimises and reports violations, writes evidence.
use crate::fam::{self, Spec};
use crate::sim::*;
use crate::util::{hash64, mix, Rng};
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// Compiled contracts, shared by all runs of the process.
#[derive(Clone)]
pub struct Env {
    pub cache: Arc<ModCache>,
    codes: Arc<BTreeMap<String, Arc<Code>>>,
    pub known: Arc<BTreeSet<String>>,
}
impl Env {
    pub fn load(contracts: &str, known: Option<String>) -> Env {
        let dir = std::env::var("SIM_WASM").unwrap_or_else(|_| "build/wasm".into());
        let mut codes = BTreeMap::new();
        for c in contracts.split_whitespace() {
            if c == "state-manipulation" {
                for k in &["all", "clean", "replace"] {
                    let p = format!("{}/state_{}.wasm", dir, k);
                    let b = std::fs::read(&p).unwrap_or_else(|e| {
                        eprintln!("{}: {}", p, e);
                        std::process::exit(2)
                    });
                    codes.insert(format!("state_{}", k), Code::new(b));
                }
                continue;
            }
            let n = match c {
                "lockup" => "lockup_contract".into(),
                "voting" => "voting_contract".into(),
                c => c.replace('-', "_"),
            };
            let p = format!("{}/{}.wasm", dir, n);
            let b = std::fs::read(&p).unwrap_or_else(|e| {
                eprintln!("{}: {}", p, e);
                std::process::exit(2)
            });
            codes.insert(c.to_string(), Code::new(b));
        }
        // known findings: lines "KNOWN property=Cxx id=<finding> ..."
        let mut ks = BTreeSet::new();
        if let Some(f) = known {
            for l in std::fs::read_to_string(&f).unwrap_or_default().lines() {
                if let Some(r) = l.strip_prefix("KNOWN ") {
                    if let Some(id) = r.split_whitespace().find_map(|w| w.strip_prefix("id=")) {
                        ks.insert(id.to_string());
                    }
                }
            }
        }
        Env { cache: Arc::new(ModCache::default()), codes: Arc::new(codes), known: Arc::new(ks) }
    }
    pub fn code(&self, c: &str) -> Arc<Code> {
        self.codes.get(c).unwrap_or_else(|| panic!("contract {} not loaded", c)).clone()
    }
    pub fn world(&self) -> World {
        let mut w = World::new(self.cache.clone(), 100_000_000);
        w.codes = self.codes.clone();
        w
    }
}

/// Everything one run left behind.
pub struct RunRes {
    pub out: Out,
    pub stats: Stats,
    pub cfg: Value,
    pub end_time: u64,
}

fn seed_of(seed: u64, prop: &str, i: u64) -> u64 {
    mix(seed ^ hash64(prop.as_bytes()) ^ i.wrapping_mul(0x9e3779b97f4a7c15))
}

#[derive(Default, Serialize, Deserialize)]
#[serde(default)]
struct Agg {
    runs: u64,
    steps: u64,
    checks: u64,
    closing: u64,
    stats: Stats,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    scheds: HashSet<u64>,
    nontrivial: HashSet<u64>,
    known: BTreeMap<String, u64>,
    others: BTreeMap<String, u64>,
    found: BTreeMap<u64, (Value, Vec<Step>, Violation)>,
    digest: u64,
    samples: BTreeMap<u64, Value>,
    harness_error: bool,
}
fn merge(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k).or_default() += v;
    }
}
impl Agg {
    fn add(&mut self, o: Agg) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.checks += o.checks;
        self.closing += o.closing;
        self.stats.add(&o.stats);
        merge(&mut self.counters, o.counters);
        merge(&mut self.known, o.known);
        merge(&mut self.others, o.others);
        self.states.extend(o.states);
        self.scheds.extend(o.scheds);
        self.nontrivial.extend(o.nontrivial);
        self.found.extend(o.found);
        self.samples.extend(o.samples);
        self.digest ^= o.digest;
        self.harness_error |= o.harness_error;
    }
}
/// One worker process: runs k, k+n, k+2n, ... below `total`.
pub struct Work {
    pub seed: u64,
    pub k: u64,
    pub n: u64,
    pub total: u64,
    /// seconds after which no further run is started
    pub cap: u64,
    /// directory the workers of one check share
    pub dir: String,
}
pub fn worker(prop: &str, wk: Work, known: Option<String>) -> i32 {
    let spec = fam::spec_of(prop).unwrap();
    let env = Env::load(spec.contracts, known);
    let t0 = Instant::now();
    let prop = fam::intern(prop);
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut g = Agg::default();
        let mut i = wk.k;
        while i < wk.total && t0.elapsed().as_secs() <= wk.cap {
            let stop = std::fs::read_dir(&wk.dir).map_or(u64::MAX, |d| {
                let f = |e: std::fs::DirEntry| e.file_name().to_str()?.strip_prefix("stop-")?.parse::<u64>().ok();
                d.filter_map(|e| f(e.ok()?)).min().unwrap_or(u64::MAX)
            });
            if i > stop {
                break;
            }
            let sd = seed_of(wk.seed, prop, i);
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = (spec.run)(&env, prop, sd);
                if i < 4 {
                    // Determinism: the same seed again must give the same execution.
                    let r2 = (spec.run)(&env, prop, sd);
                    assert_eq!(r.out.digest, r2.out.digest, "seed {} is not deterministic", sd);
                }
                r
            }));
            let r = match res {
                Ok(r) => r,
                Err(_) => {
                    eprintln!("harness error in run {} (seed {})", i, sd);
                    g.harness_error = true;
                    std::fs::write(format!("{}/stop-0", wk.dir), "").ok();
                    break;
                }
            };
            g.runs += 1;
            g.steps += r.out.steps.len() as u64;
            g.checks += r.out.checks;
            g.closing += r.out.closing;
            g.stats.add(&r.stats);
            merge(&mut g.counters, r.out.counters);
            merge(&mut g.known, r.out.known);
            if r.stats.execs > 10 && r.out.states.len() > 3 {
                g.nontrivial.insert(r.out.sched);
            }
            g.states.extend(r.out.states);
            g.scheds.insert(r.out.sched);
            g.digest ^= mix(r.out.digest ^ i);
            if i < 2 {
                let n = r.out.steps.len();
                g.samples.insert(i, json!({"run": i, "seed": sd, "config": r.cfg,
                    "steps": r.out.steps.iter().take(12).collect::<Vec<_>>(), "steps_total": n}));
            }
            for v in &r.out.violations {
                if v.about(prop) {
                    g.found.entry(i).or_insert((r.cfg.clone(), r.out.steps.clone(), v.clone()));
                    std::fs::write(format!("{}/stop-{}", wk.dir, i), "").ok();
                } else {
                    *g.others.entry(format!("{} [{}]", v.kind, v.props.join(","))).or_default() += 1;
                }
            }
            i += wk.n;
        }
        std::fs::write(format!("{}/out-{}", wk.dir, wk.k), serde_json::to_vec(&g).unwrap()).unwrap();
    });
    match h.unwrap().join() {
        Ok(()) => 0,
        Err(_) => 2,
    }
}

pub fn check(
    prop: &str,
    seed: u64,
    tier: &str,
    runs: Option<u64>,
    evidence: Option<String>,
    replays: &str,
    known: Option<String>,
) -> i32 {
    let spec = match fam::spec_of(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let env = Env::load(spec.contracts, known.clone());
    let t0 = Instant::now();
    let total = runs.unwrap_or(if tier == "thorough" { spec.runs * spec.thorough } else { spec.runs });
    let cap = if tier == "thorough" { 6 * 3600 } else { 420 };
    println!("property={} family={} seed={} tier={} runs={}", prop, spec.family, seed, tier, total);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let dir = std::env::temp_dir().join(format!("simnear-{}-{}", prop, std::process::id()));
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..n {
        let mut c = std::process::Command::new(&exe);
        c.args(&["worker", prop]);
        for (o, v) in &[("--seed", seed), ("--k", k), ("--n", n), ("--total", total), ("--cap", cap)] {
            c.args(&[o.to_string(), v.to_string()]);
        }
        c.arg("--dir").arg(&dir);
        if let Some(f) = &known {
            c.args(&["--known", f]);
        }
        kids.push(c.spawn().unwrap());
    }
    let mut g = Agg::default();
    for (k, mut c) in kids.into_iter().enumerate() {
        let ok = c.wait().map_or(false, |s| s.success());
        let part = std::fs::read(dir.join(format!("out-{}", k))).ok().and_then(|b| serde_json::from_slice::<Agg>(&b).ok());
        match part {
            Some(p) if ok => g.add(p),
            _ => {
                eprintln!("worker {} died", k);
                g.harness_error = true;
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    let found = g.found.iter().next().map(|(i, x)| (*i, x.clone()));
    if found.is_none() && g.harness_error {
        return 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut violation_path = None;
    if let Some((i, (cfg, steps, v))) = &found {
        println!("run {} (seed {}): {} -- {}", i, seed_of(seed, prop, *i), v.kind, v.msg);
        if std::env::var_os("SIM_ANY").is_some() {
            println!("FOUND {} {:?}", v.kind, v.props);
            return 1;
        }
        let small = minimise(&spec, &env, prop, cfg, steps, v);
        let r = (spec.replay)(&env, prop, cfg, &small);
        let v2 = r.out.violations.iter().find(|x| x.kind == v.kind && x.props.iter().any(|p| p == prop)).cloned().unwrap_or_else(|| v.clone());
        let path = format!("{}/{}-{}.json", replays, prop, sd_hex(seed_of(seed, prop, *i)));
        std::fs::create_dir_all(replays).ok();
        let doc = json!({"property": prop, "family": spec.family, "seed": seed_of(seed, prop, *i), "run": i,
            "kind": v.kind, "message": v2.msg, "at_step": v2.step, "original_steps": steps.len(),
            "config": cfg, "steps": small});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("minimised {} -> {} steps: {}", steps.len(), small.len(), v2.msg);
        violation_path = Some(path);
    }
    if let Some(f) = evidence {
        let faults: BTreeMap<_, _> = g.stats.faults.iter().collect();
        let ev = json!({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": g.runs,
                "distinct_nontrivial": g.nontrivial.len(),
                "rule": "one evaluation = one seeded simulated run (configuration, workload, deliveries, time, epochs, faults all drawn from the run's seed, then a fault-free closing phase). Non-trivial: more than 10 receipts executed and more than 3 distinct contract states reached; distinct: different sequence of executed receipts with outcomes.",
                "samples": g.samples.values().collect::<Vec<_>>(),
                "runs_per_hour": (g.runs as f64 / wall * 3600.0) as u64,
                "seeds": g.runs,
                "scheduler_steps": g.steps,
                "closing_phase_steps": g.closing,
                "oracle_checks": g.checks,
                "receipts_executed": g.stats.execs,
                "contract_views": g.stats.views,
                "receipt_deliveries": g.stats.deliveries,
                "epoch_switches": g.stats.epochs,
                "simulated_hours": (g.stats.sim_ns / 3_600_000_000_000) as u64,
                "faults_injected": faults,
                "failed_receipts_by_cause": g.stats.fails,
                "conditions_reached": g.counters,
                "distinct_contract_states": g.states.len(),
                "distinct_schedules": g.scheds.len(),
                "digest_of_all_runs": format!("{:016x}", g.digest),
                "violations_of_other_properties_seen": g.others,
                "known_findings_seen": g.known,
                "real_components": spec.real,
                "stub_components": spec.stubs,
            },
            "assumptions": spec.assumptions,
            "wall_s": wall,
            "violations": if found.is_some() { 1 } else { 0 },
        });
        if let Some(d) = std::path::Path::new(&f).parent() {
            std::fs::create_dir_all(d).ok();
        }
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{} runs, {} steps, {} receipts, {} views, {} checks, {} states, {} schedules, {:.1} s, digest {:016x}",
        g.runs, g.steps, g.stats.execs, g.stats.views, g.checks, g.states.len(), g.scheds.len(), wall, g.digest
    );
    if !g.others.is_empty() {
        println!("also seen (other properties): {:?}", g.others);
    }
    for (k, n) in &g.known {
        // k: "Cxx what fails"
        let (p, what) = k.split_at(3);
        if p == prop {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", p, what.trim(), n);
        }
    }
    match violation_path {
        Some(p) => {
            println!("VIOLATION property={} replay={}", prop, p);
            1
        }
        None => 0,
    }
}
fn sd_hex(s: u64) -> String {
    format!("{:016x}", s)
}

fn minimise(spec: &Spec, env: &Env, prop: &str, cfg: &Value, steps: &[Step], v: &Violation) -> Vec<Step> {
    let t0 = Instant::now();
    let mut tries = 0;
    let mut fails = |s: &[Step]| -> bool {
        tries += 1;
        if tries > 600 || t0.elapsed().as_secs() > 90 {
            return false;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.replay)(env, prop, cfg, s)));
        match r {
            Ok(r) => r.out.violations.iter().any(|x| x.kind == v.kind && x.props.iter().any(|p| p == prop)),
            Err(_) => false,
        }
    };
    let mut cur = steps.to_vec();
    // Nothing after the violation is needed.
    if v.step < cur.len() {
        let c = cur[..v.step.min(cur.len())].to_vec();
        if fails(&c) {
            cur = c;
        }
    }
    let mut n = 2usize;
    while cur.len() >= 2 {
        let sz = (cur.len() + n - 1) / n;
        let mut done = false;
        let mut i = 0;
        while i < cur.len() {
            let j = (i + sz).min(cur.len());
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[j..]);
            if fails(&c) {
                cur = c;
                done = true;
            } else {
                i = j;
            }
        }
        if done {
            n = n.max(2);
        } else if sz == 1 {
            break;
        } else {
            n = (n * 2).min(cur.len());
        }
    }
    if cur.len() == 1 && fails(&[]) {
        cur.clear();
    }
    cur
}

pub fn replay(file: &str, known: Option<String>) -> i32 {
    let d: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = d["property"].as_str().unwrap().to_string();
    let spec = fam::spec_of(&prop).unwrap();
    let env = Env::load(spec.contracts, known);
    let steps: Vec<Step> = serde_json::from_value(d["steps"].clone()).unwrap();
    let r = (spec.replay)(&env, &prop, &d["config"], &steps);
    println!("replayed {} steps, digest {:016x}", steps.len(), r.out.digest);
    for v in &r.out.violations {
        println!("{} {:?} at step {}: {}", v.kind, v.props, v.step, v.msg);
    }
    if r.out.violations.iter().any(|v| v.kind == d["kind"].as_str().unwrap() && v.props.iter().any(|p| *p == prop)) {
        println!("VIOLATION property={} replay={}", prop, file);
        1
    } else {
        println!("not reproduced");
        0
    }
}

/// One run by seed, printed (debugging aid).
pub fn single(prop: &str, seed: u64, _p: Option<String>) -> i32 {
    let spec = fam::spec_of(prop).unwrap();
    let env = Env::load(spec.contracts, None);
    let t = Instant::now();
    let r = (spec.run)(&env, prop, seed);
    println!("config {}", r.cfg);
    println!("{} steps, {} execs, {} views, {:?}", r.out.steps.len(), r.stats.execs, r.stats.views, t.elapsed());
    println!("{:?}\n{:?}\n{:?}", r.out.counters, r.stats.faults, r.stats.fails);
    for v in &r.out.violations {
        println!("{} {:?} at step {}: {}", v.kind, v.props, v.step, v.msg);
    }
    0
}

pub fn digests(prop: &str, n: u64, threads: u64) -> i32 {
    let spec = fam::spec_of(prop).unwrap();
    let env = Env::load(spec.contracts, None);
    let res = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let r = (spec.run)(&env, prop, seed_of(77, prop, i));
                res.lock().unwrap().insert(i, r.out.digest);
            });
        }
    });
    for (i, d) in res.lock().unwrap().iter() {
        println!("{} {:016x}", i, d);
    }
    0
}

/// Runs family F on a fresh configuration drawn from `seed`.
pub fn run_family<F: Family>(env: &Env, prop: &str, seed: u64, n: (u64, u64)) -> RunRes {
    let mut rng = Rng::new(seed);
    let cfg = F::config(&mut rng, prop);
    let mut d: Driver<F> = F::setup(env, prop, &cfg);
    let steps = rng.range(n.0, n.1) as usize;
    d.run(&mut rng, steps);
    RunRes { end_time: d.w.time, stats: std::mem::take(&mut d.w.stats), out: d.o, cfg }
}
pub fn replay_family<F: Family>(env: &Env, prop: &str, cfg: &Value, steps: &[Step]) -> RunRes {
    let mut d: Driver<F> = F::setup(env, prop, cfg);
    d.replay(steps);
    RunRes { end_time: d.w.time, stats: std::mem::take(&mut d.w.stats), out: d.o, cfg: cfg.clone() }
}
