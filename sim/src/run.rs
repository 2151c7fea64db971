//! Batches of simulated runs: search, minimisation, replay, evidence.
use crate::choice::{hash, Choices, Rng};
use crate::oracle::Oracle;
use crate::sim::{End, State};
use crate::sys::{pin, Scratch};
use crate::{cli, gen, lsp, lspgen, threads};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    /// where the binaries are
    pub dir: PathBuf,
    pub shim: PathBuf,
    pub verif: PathBuf,
}
impl Env {
    pub fn new() -> Env {
        let exe = std::env::current_exe().expect("exe");
        let dir = exe.parent().unwrap().to_path_buf();
        let target = dir.parent().unwrap().to_path_buf();
        Env { shim: target.join("shim.so"), verif: target.parent().unwrap().to_path_buf(), dir }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub tags: Vec<&'static str>,
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub known: Vec<(&'static str, String)>,
    pub error: Option<String>,
    pub hash: u64,
    pub order_hash: u64,
    pub steps: u64,
    pub points: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub replies: Vec<String>,
    pub execs: u64,
}
impl Outcome {
    pub fn error(e: String) -> Outcome {
        Outcome { error: Some(e), ..Default::default() }
    }
    pub fn from_state(s: &mut State, _end: &End) -> Outcome {
        Outcome {
            hash: s.hash,
            order_hash: s.order_hash,
            steps: s.steps,
            points: s.points,
            switches: s.switches,
            sim_ns: s.now - s.now0,
            faults: std::mem::take(&mut s.faults),
            trace: std::mem::take(&mut s.trace),
            execs: 1,
            ..Default::default()
        }
    }
    pub fn probe(&mut self, name: &'static str, n: u64) {
        *self.probes.entry(name).or_insert(0) += n;
    }
    pub fn absorb(&mut self, mut o: Outcome) {
        self.violations.append(&mut o.violations);
        self.known.append(&mut o.known);
        if self.error.is_none() {
            self.error = o.error;
        }
        self.hash = self.hash.wrapping_mul(0x100_0000_01b3) ^ o.hash;
        self.order_hash = self.order_hash.wrapping_mul(0x100_0000_01b3) ^ o.order_hash;
        self.steps += o.steps;
        self.points += o.points;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.execs += o.execs;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.trace.append(&mut o.trace);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scenario {
    Lsp(lsp::LspScenario),
    /// the same session under several hash seeds
    LspSeeds(lsp::LspScenario, Vec<u64>),
    Cli(cli::CliScenario),
    Threads(threads::ThreadScenario),
}

/// everything about run `index` of a check follows from the seed
pub fn generate(prop: &str, seed: u64, index: u64) -> (Scenario, u64) {
    let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ hash(prop.as_bytes()) ^ index.wrapping_mul(0xd134_2543_de82_ef95));
    let s = match prop {
        "C12" => Scenario::Lsp(lspgen::rounds(&mut r)),
        "C01" | "C02" | "C03" | "C04" | "C11" => Scenario::Lsp(lspgen::generate(prop, &mut r)),
        "C13" => Scenario::Lsp(lspgen::stalls(&mut r)),
        "C05" | "C14" => {
            if r.chance(60) {
                Scenario::Lsp(lspgen::generate(prop, &mut r))
            } else {
                Scenario::Cli(cli::generate(prop, &mut r))
            }
        }
        "C08" => {
            if r.chance(20) {
                let n = 3;
                let s = lspgen::generate(prop, &mut r);
                Scenario::LspSeeds(s, (0..n).map(|_| r.next()).collect())
            } else {
                Scenario::Cli(cli::generate(prop, &mut r))
            }
        }
        "C10" => Scenario::Threads(threads::generate(&mut r)),
        _ => Scenario::Cli(cli::generate(prop, &mut r)),
    };
    (s, r.next())
}

pub fn execute(env: &Env, scratch: &Scratch, o: &mut Oracle, prop: &str, sc: &Scenario, ch: &mut Choices, keep: bool) -> Outcome {
    match sc {
        Scenario::Lsp(s) => lsp::run(env, scratch, o, s, ch, keep),
        Scenario::LspSeeds(s, seeds) => {
            let mut total = Outcome::default();
            let mut first: Option<Vec<String>> = None;
            for h in seeds {
                let mut s2 = s.clone();
                s2.knobs.hash_seed = *h;
                let mut out = lsp::run(env, scratch, o, &s2, ch, keep);
                let mut rep = std::mem::take(&mut out.replies);
                rep.sort();
                let bad = out.error.is_some();
                total.absorb(out);
                if bad {
                    return total;
                }
                match &first {
                    None => first = Some(rep),
                    Some(f) => {
                        if *f != rep {
                            let d = f.iter().zip(&rep).find(|(a, b)| a != b).map(|(a, b)| format!("{a} and {b}")).unwrap_or_else(|| format!("{} and {} replies", f.len(), rep.len()));
                            total.violations.push(Violation { tags: vec!["C08"], class: "hash seed".into(), detail: format!("the same session is answered differently under another hash seed: {d}") });
                        }
                    }
                }
            }
            total.probe("sessions compared across hash seeds", 1);
            total
        }
        Scenario::Cli(s) => cli::run(env, scratch, o, prop, s, ch, keep),
        Scenario::Threads(s) => threads::run(env, scratch, o, s, ch, keep),
    }
}

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // runs, wall seconds
    let (n, w) = match prop {
        "C01" => (16000, 150),
        "C02" => (15000, 150),
        "C03" => (16000, 150),
        "C04" => (10000, 150),
        "C05" => (18000, 150),
        "C06" => (40000, 150),
        "C07" => (30000, 150),
        "C08" => (5500, 150),
        "C09" => (20000, 150),
        "C10" => (16000, 150),
        "C12" => (8000, 150),
        "C13" => (14000, 150),
        "C14" => (18000, 150),
        "C15" => (8000, 150),
        "C16" => (20000, 150),
        _ => (22000, 150),
    };
    if tier == "thorough" {
        (n * 40, 3000)
    } else {
        (n, w)
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}
fn jobs() -> usize {
    std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub class: String,
    pub detail: String,
    pub hash: String,
    pub decisions: Vec<u32>,
    pub scenario: Scenario,
    #[serde(default)]
    pub trace: Vec<String>,
}

fn hit<'a>(out: &'a Outcome, prop: &str) -> Option<&'a Violation> {
    out.violations.iter().find(|v| v.tags.iter().any(|t| *t == prop))
}
fn hit_class<'a>(out: &'a Outcome, prop: &str, class: &str) -> Option<&'a Violation> {
    out.violations.iter().find(|v| v.class == class && v.tags.iter().any(|t| *t == prop))
}

struct Totals {
    runs: u64,
    execs: u64,
    steps: u64,
    points: u64,
    switches: u64,
    sim_ns: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    orders: HashSet<u64>,
    scen: HashSet<u64>,
    nontrivial: HashSet<u64>,
    known: BTreeMap<String, u64>,
    faulty_runs: u64,
    kinds: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, Value)>,
    errors: Vec<(u64, String)>,
    found: Vec<(u64, Scenario, Vec<u32>, Violation)>,
}

pub fn check(prop: &str) -> i32 {
    let env = Env::new();
    let (seed, tier) = (seed(), tier());
    let (mut n, wall) = budget(prop, &tier);
    if let Some(x) = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let tot = Mutex::new(Totals {
        runs: 0, execs: 0, steps: 0, points: 0, switches: 0, sim_ns: 0, faults: BTreeMap::new(), probes: BTreeMap::new(), orders: HashSet::new(), scen: HashSet::new(),
        nontrivial: HashSet::new(), known: BTreeMap::new(), faulty_runs: 0, kinds: BTreeMap::new(), samples: vec![], errors: vec![], found: vec![],
    });
    let jobs = jobs();
    std::thread::scope(|sc| {
        for wk in 0..jobs {
            let (env, next, stop_at, tot, prop, tier) = (&env, &next, &stop_at, &tot, prop, &tier);
            let _ = tier;
            sc.spawn(move || {
                pin(wk);
                let scratch = Scratch::new(prop, wk);
                let mut o = Oracle::new(&env.dir.join("oracle"));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > stop_at.load(Ordering::SeqCst) || t0.elapsed() > Duration::from_secs(wall) {
                        break;
                    }
                    let (s, cs) = generate(prop, seed, i);
                    let mut ch = Choices::search(cs);
                    let mut out = execute(env, &scratch, &mut o, prop, &s, &mut ch, false);
                    if out.error.is_some() {
                        // an overloaded machine must not look like a defect, and a defect not like overload
                        let mut ch2 = Choices::replay(&ch.record);
                        out = execute(env, &scratch, &mut o, prop, &s, &mut ch2, false);
                    }
                    let mut t = tot.lock().unwrap();
                    t.runs += 1;
                    t.execs += out.execs;
                    t.steps += out.steps;
                    t.points += out.points;
                    t.switches += out.switches;
                    t.sim_ns += out.sim_ns;
                    *t.kinds.entry(kind(&s)).or_insert(0) += 1;
                    if out.faults.values().sum::<u64>() > 0 {
                        t.faulty_runs += 1;
                    }
                    for (k, v) in &out.faults {
                        *t.faults.entry(k).or_insert(0) += v;
                    }
                    let useful: u64 = out.probes.values().sum();
                    for (k, v) in &out.probes {
                        *t.probes.entry(k).or_insert(0) += v;
                    }
                    for (p, k) in &out.known {
                        if *p == prop {
                            *t.known.entry(k.clone()).or_insert(0) += 1;
                        }
                    }
                    t.orders.insert(out.order_hash);
                    t.scen.insert(out.hash);
                    if useful > 0 {
                        t.nontrivial.insert(out.hash);
                    }
                    if i < 4 {
                        let js = json!({"run": i, "kind": kind(&s), "steps": out.steps, "context switches": out.switches, "faults": out.faults, "checks": out.probes, "summary": summary(&s)});
                        t.samples.push((i, js));
                    }
                    if let Some(e) = &out.error {
                        t.errors.push((i, e.clone()));
                    }
                    if let Some(v) = hit(&out, prop) {
                        t.found.push((i, s, ch.record.clone(), v.clone()));
                        stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let mut t = tot.into_inner().unwrap();
    let mut extra_known: Vec<String> = vec![];
    if prop == "C09" {
        let scratch = Scratch::new(prop, 90);
        match cli::known_probe(&env, &scratch) {
            Ok(k) => extra_known = k,
            Err(e) => eprintln!("known-finding probe: {e}"),
        }
    }
    t.found.sort_by_key(|f| f.0);
    t.samples.sort_by_key(|f| f.0);
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((i, s, dec, v)) = t.found.first() {
        code = 1;
        let r = minimise(&env, prop, seed, *i, s, dec, v);
        let dir = env.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{seed}-{i}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        println!("run {i} of seed {seed}: {}: {}", r.class, r.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    for k in extra_known.iter().chain(t.known.keys()) {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let h = search_s.max(0.001) / 3600.0;
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall_s, "violations": if code == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": rule(prop),
            "samples": t.samples.iter().map(|s| s.1.clone()).collect::<Vec<_>>(),
            "simulated_runs": t.runs,
            "process_executions": t.execs,
            "runs_per_hour": (t.runs as f64 / h) as u64,
            "seeds_per_hour": (t.runs as f64 / h) as u64,
            "simulated_time_s": t.sim_ns as f64 / 1e9,
            "scheduler_steps": t.steps,
            "intercepted_calls": t.points,
            "context_switches": t.switches,
            "faults_injected": t.faults,
            "runs_with_faults": t.faulty_runs,
            "distinct_interleavings": t.orders.len(),
            "interleaving_measure": "hash of the sequence of (thread, intercepted operation) and client actions of a run",
            "distinct_event_logs": t.scen.len(),
            "checks_made": t.probes,
            "scenario_kinds": t.kinds,
            "real_components": real(prop),
            "stubbed_components": ["client and its JSON-RPC transport (standard input/output)", "clock, timers, randomness, futex wait queues and thread scheduling (virtual, decided by the simulator)", "other processes changing files"],
            "known_findings": extra_known.iter().chain(t.known.keys()).collect::<Vec<_>>(),
            "harness_errors": t.errors.len(),
            "workers": jobs,
        },
        "assumptions": ["scheduling points are the intercepted libc calls (futex, I/O, clock, thread start and end) and, for C10, chosen allocations; code between two points runs atomically",
            "the file system is a real tmpfs directory; lost and torn writes are modelled at the system-call boundary"],
    });
    let evd = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop}: {} runs ({} executions) in {:.1}s, {} steps, {} distinct interleavings, {} distinct non-trivial, {} fault injections, {} errors",
        t.runs, t.execs, search_s, t.steps, t.orders.len(), t.nontrivial.len(), t.faults.values().sum::<u64>(), t.errors.len()
    );
    if code == 0 && !t.errors.is_empty() {
        t.errors.sort();
        eprintln!("harness error in run {}: {}", t.errors[0].0, t.errors[0].1);
        return 2;
    }
    if code == 0 && t.runs < n.min(200) {
        eprintln!("only {} runs within the time limit", t.runs);
        return 2;
    }
    code
}

fn kind(s: &Scenario) -> &'static str {
    match s {
        Scenario::Lsp(_) => "editor session",
        Scenario::LspSeeds(..) => "editor session under several hash seeds",
        Scenario::Cli(c) => c.kind(),
        Scenario::Threads(_) => "concurrent library calls",
    }
}
fn summary(s: &Scenario) -> Value {
    match s {
        Scenario::Lsp(l) | Scenario::LspSeeds(l, _) => json!({"files": l.files.iter().map(|f| f.0.clone()).collect::<Vec<_>>(), "script": l.steps.iter().map(lsp::describe).collect::<Vec<_>>()}),
        Scenario::Cli(c) => c.summary(),
        Scenario::Threads(t) => t.summary(),
    }
}
fn rule(prop: &str) -> String {
    let how = match prop {
        "C10" => "a run is a seeded set of caller threads with seeded library calls, preempted at seeded allocations",
        "C06" | "C07" | "C09" | "C16" => "a run is one execution of the real command line tool on seeded files under a seeded fault plan",
        "C05" | "C14" => "a run is one editor session or command line execution on seeded files under a seeded fault plan",
        "C15" => "a run is a first command execution under a seeded fault plan and crash point, a second one on the files it left and a third one where the first never ran",
        "C08" => "a run is one input analysed by fresh processes under several hash seeds",
        _ => "a run is one editor session (seeded script, files, schedule and faults) with the real language server",
    };
    format!("{how}; non-trivial: at least one reply, verdict, file or call was compared with the reference, and distinct: the complete event log (schedule, I/O results, output bytes) differs from every other run's")
}
fn real(prop: &str) -> Vec<&'static str> {
    match prop {
        "C10" => vec!["hddl_analyzer library (unmodified, called from real threads)", "Rust std, allocator"],
        "C06" | "C07" | "C09" | "C15" | "C16" => vec!["hddl_analyzer command line binary (unmodified)", "hddl_analyzer library", "clap, Rust std", "kernel tmpfs"],
        _ => vec!["language_server binary (unmodified)", "hddl_analyzer library", "tokio runtime and blocking pool", "tower-lsp", "Rust std", "kernel tmpfs", "hddl_analyzer command line binary (C05, C08, C14)"],
    }
}

// ---------------------------------------------------------------------------- minimisation

fn shrink_candidates(s: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    match s {
        Scenario::Lsp(l) => v.extend(lsp::shrink(l).into_iter().map(Scenario::Lsp)),
        Scenario::LspSeeds(l, h) => {
            v.extend(lsp::shrink(l).into_iter().map(|x| Scenario::LspSeeds(x, h.clone())));
            if h.len() > 2 {
                for i in 0..h.len() {
                    let mut h2 = h.clone();
                    h2.remove(i);
                    v.push(Scenario::LspSeeds(l.clone(), h2));
                }
            }
        }
        Scenario::Cli(c) => v.extend(c.shrink().into_iter().map(Scenario::Cli)),
        Scenario::Threads(t) => v.extend(t.shrink().into_iter().map(Scenario::Threads)),
    }
    v
}

fn minimise(env: &Env, prop: &str, seed: u64, index: u64, s: &Scenario, dec: &[u32], v: &Violation) -> Replay {
    let scratch = Scratch::new(prop, 91);
    let mut o = Oracle::new(&env.dir.join("oracle"));
    let t0 = Instant::now();
    let limit = Duration::from_secs(if tier() == "thorough" { 120 } else { 40 });
    let class = v.class.clone();
    let mut best = (s.clone(), dec.to_vec());
    let try_one = |sc: &Scenario, d: Option<&[u32]>, cs: u64, o: &mut Oracle| -> Option<Vec<u32>> {
        let mut ch = match d {
            Some(d) => Choices::replay(d),
            None => Choices::search(cs),
        };
        let out = execute(env, &scratch, o, prop, sc, &mut ch, false);
        hit_class(&out, prop, &class).map(|_| ch.record)
    };
    // the scenario
    let mut progress = true;
    while progress && t0.elapsed() < limit * 6 / 10 {
        progress = false;
        for c in shrink_candidates(&best.0) {
            if t0.elapsed() > limit * 6 / 10 {
                break;
            }
            let mut ok = try_one(&c, Some(&best.1), 0, &mut o);
            let mut k = 0;
            while ok.is_none() && k < 3 {
                ok = try_one(&c, None, hash(&[index as u8, k as u8, best.1.len() as u8]), &mut o);
                k += 1;
            }
            if let Some(d) = ok {
                best = (c, d);
                progress = true;
                break;
            }
        }
    }
    // the decisions: shortest prefix, then zero blocks
    let cut = |d: &mut Vec<u32>| {
        while d.last() == Some(&0) {
            d.pop();
        }
    };
    cut(&mut best.1);
    let mut step = best.1.len() / 2;
    while step > 0 && t0.elapsed() < limit {
        let mut d = best.1.clone();
        d.truncate(d.len().saturating_sub(step));
        if !d.is_empty() && try_one(&best.0, Some(&d), 0, &mut o).is_some() {
            best.1 = d;
            cut(&mut best.1);
            step = step.min(best.1.len() / 2);
        } else {
            step /= 2;
        }
    }
    let mut size = (best.1.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.1.len() && t0.elapsed() < limit {
            let e = (i + size).min(best.1.len());
            if best.1[i..e].iter().any(|x| *x != 0) {
                let mut d = best.1.clone();
                for x in &mut d[i..e] {
                    *x = 0;
                }
                if try_one(&best.0, Some(&d), 0, &mut o).is_some() {
                    best.1 = d;
                }
            }
            i = e;
        }
        if size == 1 || t0.elapsed() >= limit {
            break;
        }
        size /= 2;
    }
    cut(&mut best.1);
    let mut ch = Choices::replay(&best.1);
    let out = execute(env, &scratch, &mut o, prop, &best.0, &mut ch, true);
    if let Some(v) = hit_class(&out, prop, &class) {
        return Replay { property: prop.into(), seed, index, class: class.clone(), detail: v.detail.clone(), hash: format!("{:016x}", out.hash), decisions: best.1, scenario: best.0, trace: out.trace };
    }
    // cannot happen if runs are deterministic; keep the original
    let mut ch = Choices::replay(dec);
    let out = execute(env, &scratch, &mut o, prop, s, &mut ch, true);
    Replay { property: prop.into(), seed, index, class, detail: v.detail.clone(), hash: format!("{:016x}", out.hash), decisions: dec.to_vec(), scenario: s.clone(), trace: out.trace }
}

pub fn replay(file: &str) -> i32 {
    let env = Env::new();
    let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    pin(0);
    let scratch = Scratch::new("replay", 0);
    let mut o = Oracle::new(&env.dir.join("oracle"));
    let mut ch = Choices::replay(&r.decisions);
    let out = execute(&env, &scratch, &mut o, &r.property, &r.scenario, &mut ch, true);
    for l in &out.trace {
        println!("{l}");
    }
    if let Some(e) = out.error {
        eprintln!("harness error: {e}");
        return 2;
    }
    let exact = format!("{:016x}", out.hash) == r.hash;
    match out.violations.iter().find(|v| v.class == r.class && v.tags.iter().any(|t| *t == r.property)) {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("event log {}", if exact { "identical to the recorded one" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("not reproduced: {} (event log {})", r.class, if exact { "identical" } else { "different" });
            0
        }
    }
}

pub const ALL: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

/// the same seeds several times, on different workers: the event logs must be identical
pub fn selftest(args: &[String]) -> i32 {
    let n: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(200);
    let props: Vec<&str> = if args.len() > 1 { args[1..].iter().map(|s| s.as_str()).collect() } else { ALL.to_vec() };
    let env = Env::new();
    let mut bad = 0;
    for prop in props {
        let mut logs: Vec<BTreeMap<u64, (u64, u64)>> = vec![];
        for jobs in [8usize, 3, 1] {
            let n = if jobs == 1 { n / 4 } else { n };
            let next = AtomicU64::new(0);
            let m = Mutex::new(BTreeMap::new());
            std::thread::scope(|sc| {
                for wk in 0..jobs {
                    let (env, next, m) = (&env, &next, &m);
                    sc.spawn(move || {
                        pin(wk);
                        let scratch = Scratch::new("self", wk);
                        let mut o = Oracle::new(&env.dir.join("oracle"));
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let (s, cs) = generate(prop, 1000 + i, i);
                            let mut ch = Choices::search(cs);
                            let out = execute(env, &scratch, &mut o, prop, &s, &mut ch, false);
                            // replaying the recorded decisions must give the same log
                            let mut ch2 = Choices::replay(&ch.record);
                            let out2 = execute(env, &scratch, &mut o, prop, &s, &mut ch2, false);
                            m.lock().unwrap().insert(i, (out.hash, out2.hash));
                        }
                    });
                }
            });
            logs.push(m.into_inner().unwrap());
        }
        let mut diff = 0;
        for (i, (a, b)) in &logs[0] {
            if a != b || logs.iter().any(|l| l.get(i).map_or(false, |x| x.0 != *a || x.1 != *a)) {
                diff += 1;
                println!("{prop} run {i}: {:?}", logs.iter().map(|l| l.get(i)).collect::<Vec<_>>());
            }
        }
        println!("{prop}: {} seeds, {} executions, {} divergences", n, n * 4 + n / 2, diff);
        bad += diff;
    }
    (bad > 0) as i32
}

pub fn one(prop: &str, index: u64) -> i32 {
    let env = Env::new();
    pin(0);
    let scratch = Scratch::new("one", 0);
    let mut o = Oracle::new(&env.dir.join("oracle"));
    let (s, cs) = generate(prop, seed(), index);
    let mut ch = Choices::search(cs);
    let out = execute(&env, &scratch, &mut o, prop, &s, &mut ch, true);
    for l in &out.trace {
        println!("{l}");
    }
    println!("{}", serde_json::to_string_pretty(&summary(&s)).unwrap());
    println!("error {:?}\nprobes {:?}\nfaults {:?}\nsteps {} hash {:x}", out.error, out.probes, out.faults, out.steps, out.hash);
    for v in &out.violations {
        println!("{:?} {}: {}", v.tags, v.class, v.detail);
    }
    0
}

pub fn gentest(n: u64) -> i32 {
    let env = Env::new();
    let mut o = Oracle::new(&env.dir.join("oracle"));
    let mut bad = 0;
    for seed in 0..n {
        let mut r = Rng::new(seed);
        let op = gen::Opt { recursive: r.chance(50), partial: r.chance(50), size: r.range(1, 3), defect: false };
        let d = gen::Dom::new(&mut r, &format!("v{seed}"), &op);
        let def = r.chance(50);
        let (t, e) = d.render(&mut r, def);
        let v = o.call("verify", t.as_bytes(), None);
        if !agrees(&e, &v) {
            bad += 1;
            println!("DOM {seed} {e:?} {v:?}\n{t}");
        }
        let (t0, _) = d.render(&mut r, false);
        let def = r.chance(50);
        let (p, e) = d.problem(&mut r, &format!("q{seed}"), def);
        let v = o.call("verify", t0.as_bytes(), Some(p.as_bytes()));
        if !agrees(&e, &v) {
            bad += 1;
            println!("PROB {seed} {e:?} {v:?}\n{t0}\n{p}");
        }
    }
    println!("bad {bad}");
    (bad > 0) as i32
}
pub fn agrees(e: &gen::Expect, v: &crate::oracle::Verdict) -> bool {
    use crate::oracle::Verdict;
    match (e, v) {
        (gen::Expect::Unknown, _) => true,
        (gen::Expect::Accept, Verdict::Ok(_)) => true,
        (gen::Expect::Reject(n, l), Verdict::Err(r)) => r.message.contains(n.as_str()) && (l.is_none() || r.line == *l),
        _ => false,
    }
}
