//! Concurrent and consecutive library calls from real threads whose interleaving the simulator
//! decides at allocations.
use crate::choice::{hash, Choices, Rng};
use crate::gen::{self, Dom, Opt};
use crate::lsp::Blob;
use crate::oracle::{hex, Oracle, Verdict};
use crate::run::{Env, Outcome, Violation};
use crate::sim::*;
use crate::sys::{Proc, Scratch, SpawnCfg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub op: String,
    pub d: usize,
    pub p: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadScenario {
    pub knobs: Knobs,
    pub texts: Vec<Blob>,
    pub threads: Vec<Vec<Call>>,
    /// each thread keeps one buffer for its domains and one for its problems and overwrites them in place
    #[serde(default)]
    pub reuse: bool,
}
impl ThreadScenario {
    pub fn summary(&self) -> Value {
        json!({"texts": self.texts.iter().map(|t| format!("{} bytes #{:08x}", t.0.len(), hash(&t.0) as u32)).collect::<Vec<_>>(),
            "threads": self.threads.iter().map(|t| t.iter().map(|c| format!("{} {} {:?}", c.op, c.d, c.p)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "preemption points": self.knobs.preempt.len()})
    }
    pub fn shrink(&self) -> Vec<ThreadScenario> {
        let mut v = vec![];
        if self.threads.len() > 1 {
            for i in 0..self.threads.len() {
                let mut x = self.clone();
                x.threads.remove(i);
                v.push(x);
            }
        }
        for i in 0..self.threads.len() {
            for j in 0..self.threads[i].len() {
                let mut x = self.clone();
                x.threads[i].remove(j);
                v.push(x);
            }
        }
        let n = self.knobs.preempt.len();
        let mut size = n;
        while size >= 1 {
            let mut s = 0;
            while s < n {
                let mut x = self.clone();
                x.knobs.preempt.drain(s..(s + size).min(n));
                if x.knobs.preempt.is_empty() {
                    x.knobs.preempt.push(u64::MAX - 1);
                }
                if x.knobs.preempt.len() < n || n > 1 {
                    v.push(x);
                }
                s += size;
            }
            size /= 2;
        }
        if n == 1 {
            v.retain(|x| x.knobs.preempt != self.knobs.preempt || x.threads.iter().flatten().count() < self.threads.iter().flatten().count());
        }
        v
    }
}

pub fn generate(r: &mut Rng) -> ThreadScenario {
    let mut k = Knobs { hash_seed: r.next(), w: [1; 7], ..Knobs::default() };
    k.sticky = [1, 1, 3][r.below(3)];
    let gap = [3u64, 20, 150, 800, 3000][r.below(5)];
    let mut c = 0;
    for _ in 0..r.range(20, 250) {
        c += 1 + r.next() % gap;
        k.preempt.push(c);
    }
    let mut texts: Vec<Blob> = vec![];
    // (domain index, problem indices)
    let mut sets: Vec<(usize, Vec<usize>, bool)> = vec![];
    let equal = r.chance(40);
    let nd = r.range(1, 4);
    let base = Dom::new(r, "x", &Opt { recursive: true, partial: false, size: 2, defect: false });
    for i in 0..nd {
        let rec = r.chance(50);
        let o = Opt { recursive: rec, partial: !rec && r.chance(50), size: r.range(1, 2), defect: false };
        // the same names with different meaning, or different names
        let tag = if r.chance(50) { "x" } else { ["a", "b", "c", "d"][i] };
        let dom = if r.chance(25) { base.clone() } else { Dom::new(r, tag, &o) };
        let def = r.chance(35);
        let (t, _) = dom.render(r, def);
        let mut b = t.into_bytes();
        let damaged = r.chance(15);
        if damaged {
            let (x, _) = gen::damage(r, &b, b"(define (problem p))");
            b = x;
        }
        if equal && b.len() < 5000 {
            b.resize(5000, b' ');
        }
        // see KNOWN_FINDINGS: metadata on partially ordered recursion
        let t = String::from_utf8_lossy(&b).into_owned();
        let plain = !gen::wordy(&t);
        let meta_ok = plain || (!damaged && !def && !dom.recursive);
        texts.push(Blob(b));
        let di = texts.len() - 1;
        let mut pv = vec![];
        for j in 0..r.range(0, 2) {
            let def = r.chance(35);
            let tag = if r.chance(50) { "q" } else { ["q0", "q1", "q2"][j] };
            let (t, _) = dom.problem(r, tag, def);
            let mut b = t.into_bytes();
            if r.chance(15) {
                let (x, _) = gen::damage(r, &b, b"(define (domain p))");
                b = x;
            }
            if equal && b.len() < 3000 {
                b.resize(3000, b' ');
            }
            texts.push(Blob(b));
            pv.push(texts.len() - 1);
        }
        sets.push((di, pv, meta_ok));
    }
    // texts that differ in one word only, with the same length
    if r.chance(35) {
        for _ in 0..r.range(1, 3) {
            let (di, pv, ok) = r.pick(&sets).clone();
            if r.chance(60) || pv.is_empty() {
                texts.push(Blob(twin(r, &texts[di].0)));
                sets.push((texts.len() - 1, pv, ok && !gen::wordy(&String::from_utf8_lossy(&texts[di].0))));
            } else {
                let q = *r.pick(&pv);
                texts.push(Blob(twin(r, &texts[q].0)));
                let n = texts.len() - 1;
                for s in sets.iter_mut().filter(|s| s.0 == di) {
                    s.1.push(n);
                }
            }
        }
    }
    let nt = r.range(1, 4);
    let many = r.chance(8);
    let mut threads = vec![];
    for _ in 0..nt {
        let n = if many { r.range(8, 24) } else { r.range(1, 5) };
        let mut calls = vec![];
        for _ in 0..n {
            let (d, pv, meta_ok) = r.pick(&sets).clone();
            let op = match r.below(5) {
                0 | 1 => "verify",
                2 | 3 => "to_json",
                _ if meta_ok => "metadata",
                _ => "verify",
            };
            let mut p = if pv.is_empty() || r.chance(35) { None } else { Some(*r.pick(&pv)) };
            if op == "metadata" {
                p = None;
            } else if r.chance(10) {
                // a problem of another domain
                let (_, pv2, _) = r.pick(&sets).clone();
                if !pv2.is_empty() {
                    p = Some(*r.pick(&pv2));
                }
            }
            calls.push(Call { op: op.into(), d, p });
        }
        threads.push(calls);
    }
    ThreadScenario { knobs: k, texts, threads, reuse: r.chance(40) }
}

/// the same text with some letters of a few words exchanged
fn twin(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut x = b.to_vec();
    let digits: Vec<usize> = (0..x.len()).filter(|i| x[*i].is_ascii_digit()).collect();
    for _ in 0..r.range(1, 3) {
        if !digits.is_empty() {
            let i = *r.pick(&digits);
            x[i] = b'0' + (x[i] - b'0' + 1 + r.below(3) as u8) % 10;
        }
    }
    x
}

struct Nobody;
impl World for Nobody {
    fn ready(&self, _: &State) -> bool {
        false
    }
    fn step(&mut self, _: &mut State) {}
    fn done(&self) -> bool {
        false
    }
}

pub fn run(env: &Env, scratch: &Scratch, o: &mut Oracle, sc: &ThreadScenario, ch: &mut Choices, keep: bool) -> Outcome {
    scratch.clear();
    let spec = json!({"texts": sc.texts.iter().map(|t| hex(&t.0)).collect::<Vec<_>>(), "threads": sc.threads, "reuse": sc.reuse});
    std::fs::write(scratch.root.join("calls.json"), spec.to_string()).expect("calls");
    let cfg = SpawnCfg { bin: &env.dir.join("threads_host"), shim: &env.shim, args: vec![], root: &scratch.root, workers: 1, hash_seed: sc.knobs.hash_seed, preempt: &sc.knobs.preempt, cpu_s: 20 };
    let p = match Proc::spawn(&cfg) {
        Ok(p) => p,
        Err(e) => return Outcome::error(e),
    };
    let mut sim = Sim::new(p, &scratch.root, &sc.knobs, ch, keep, 40_000);
    let end = sim.run(&mut Nobody);
    sim.kill();
    let mut out = Outcome::from_state(&mut sim.s, &end);
    if end == End::Stuck {
        // a thread was stopped while it held a lock of the C library: nothing can be concluded
        out.probe("inconclusive", 0);
        return out;
    }
    let got: Option<Value> = serde_json::from_slice(&sim.s.out).ok();
    let n: usize = sc.threads.iter().map(|t| t.len()).sum();
    let mut add = |class: &str, detail: String| out.violations.push(Violation { tags: vec!["C10"], class: class.into(), detail });
    let mut compared = 0;
    match (&end, got) {
        (End::Exited(0), Some(v)) => {
            for (i, t) in sc.threads.iter().enumerate() {
                for (j, c) in t.iter().enumerate() {
                    let r = &v[i][j];
                    let alone = o.call(&c.op, &sc.texts[c.d].0, c.p.map(|p| sc.texts[p].0.as_slice()));
                    let same = match &alone {
                        Verdict::Panic => r["panic"] == true,
                        Verdict::Ok(x) => r["ok"] == true && r["out"] == json!(x),
                        Verdict::Err(x) => r["ok"] == false && r["message"] == json!(x.message),
                    };
                    compared += 1;
                    if !same {
                        add("other result", format!("call {j} of thread {i}, {} of text {} {:?}, returns {} but alone {}", c.op, c.d, c.p, crop(&r.to_string()), crop(&format!("{alone:?}"))));
                    }
                }
            }
        }
        (End::Exited(s), _) => {
            // a crash that also happens alone is not interference
            let alone_bad = sc.threads.iter().flatten().any(|c| o.call(&c.op, &sc.texts[c.d].0, c.p.map(|p| sc.texts[p].0.as_slice())) == Verdict::Panic);
            if !alone_bad {
                add("died", format!("{n} calls from {} threads end the process with wait status {s:#x}: {}", sc.threads.len(), crop(&String::from_utf8_lossy(&sim.s.err))));
            }
        }
        (e, _) => add("blocked", format!("{n} calls from {} threads do not finish: {e:?}", sc.threads.len())),
    }
    out.probe("calls compared with a fresh process", compared);
    out
}
fn crop(s: &str) -> String {
    s.chars().take(200).collect()
}
