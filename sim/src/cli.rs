//! The command line tool: one real process per run on seeded files under a seeded fault plan.
use crate::choice::{hash, Choices, Rng};
use crate::gen::{self, wordy, Class, Dom, Expect, Opt};
use crate::lsp::{plain, put, tree, Blob, DiskModel, DiskOp};
use crate::oracle::{Oracle, Report, Verdict};
use crate::run::{Env, Outcome, Violation};
use crate::sim::*;
use crate::sys::{Proc, Scratch, SpawnCfg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliScenario {
    pub knobs: Knobs,
    pub cmd: String,
    pub files: Vec<(String, Option<Blob>)>,
    pub domain: String,
    pub problem: Option<String>,
    pub output: Option<String>,
    /// spelling of the arguments
    pub style: u32,
    /// what other processes do to the files meanwhile
    pub events: Vec<DiskOp>,
    /// (domain hash, problem hash or 0, verdict known by construction)
    pub known: Vec<(u64, u64, Expect)>,
    /// the domain file is a domain cut before its closing parenthesis
    pub torn_domain: bool,
    pub damage: String,
    /// further executions under these hash seeds
    pub seeds: Vec<u64>,
    /// the command is repeated without faults on whatever the first execution left
    #[serde(default)]
    pub again: bool,
}

impl CliScenario {
    pub fn kind(&self) -> &'static str {
        match (self.cmd.as_str(), &self.output) {
            ("verify", _) => "verify",
            ("metadata", _) => "metadata",
            (_, None) => "to_json",
            _ => "to_json -o",
        }
    }
    pub fn summary(&self) -> Value {
        let f: Vec<Value> = self.files.iter().map(|(p, c)| json!([p, c.as_ref().map(|b| format!("{} bytes #{:08x}", b.0.len(), hash(&b.0) as u32))])).collect();
        json!({"args": self.args(), "files": f, "damage": self.damage, "events": self.events.len(), "hash seeds": self.seeds.len()})
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![self.cmd.clone()];
        let mut opt = vec![];
        if let Some(p) = &self.problem {
            match self.style % 3 {
                0 => opt.extend(["-p".to_string(), p.clone()]),
                1 => opt.push(format!("--problem-path={p}")),
                _ => opt.extend(["--problem-path".to_string(), p.clone()]),
            }
        }
        if let Some(p) = &self.output {
            match (self.style / 3) % 3 {
                0 => opt.extend(["-o".to_string(), p.clone()]),
                1 => opt.push(format!("--output-file={p}")),
                _ => opt.extend(["--output-file".to_string(), p.clone()]),
            }
        }
        if (self.style / 9) % 2 == 0 {
            v.push(self.domain.clone());
            v.extend(opt);
        } else {
            v.extend(opt);
            v.push(self.domain.clone());
        }
        v
    }
    pub fn shrink(&self) -> Vec<CliScenario> {
        let mut v = vec![];
        for i in 0..self.events.len() {
            let mut x = self.clone();
            x.events.remove(i);
            v.push(x);
        }
        for i in 0..self.files.len() {
            if self.files[i].0 != self.domain && Some(&self.files[i].0) != self.problem.as_ref() {
                let mut x = self.clone();
                x.files.remove(i);
                v.push(x);
            }
        }
        if self.seeds.len() > 1 {
            for i in 0..self.seeds.len() {
                let mut x = self.clone();
                x.seeds.remove(i);
                v.push(x);
            }
        }
        for f in 0..9 {
            let mut x = self.clone();
            let k = &mut x.knobs;
            let p = match f {
                0 => &mut k.f_open,
                1 => &mut k.f_read,
                2 => &mut k.f_short,
                3 => &mut k.f_eintr,
                4 => &mut k.f_write,
                5 => &mut k.f_outshort,
                6 => &mut k.f_kill,
                7 => &mut k.f_outfail,
                _ => &mut k.f_crash,
            };
            if *p != 0 {
                *p = 0;
                v.push(x);
            }
        }
        // shorter inputs, if nothing is known about them by construction
        if self.known.is_empty() && !self.torn_domain {
            for i in 0..self.files.len() {
                if let Some(b) = &self.files[i].1 {
                    let n = b.0.len();
                    let mut size = n / 2;
                    while size >= 1 && size * 40 > n {
                        let mut s = 0;
                        while s < n {
                            let e = (s + size).min(n);
                            let mut c = b.0.clone();
                            c.drain(s..e);
                            let mut x = self.clone();
                            x.files[i].1 = Some(Blob(c));
                            v.push(x);
                            s = e;
                        }
                        size /= 2;
                    }
                }
            }
        }
        v
    }
}

pub fn generate(prop: &str, r: &mut Rng) -> CliScenario {
    let mut kr = r.fork();
    let mut k = Knobs { hash_seed: kr.next(), w: [1, 1, 1, 1, 1, [1, 1, 2][kr.below(3)], 1], ..Knobs::default() };
    let faulty = match prop {
        "C08" => false,
        "C16" => true,
        "C09" => kr.chance(30),
        _ => kr.chance(75),
    };
    if faulty {
        let p = |r: &mut Rng| [0u32, 0, 5, 25][r.below(4)];
        k.f_open = p(&mut kr);
        k.f_read = p(&mut kr);
        k.f_short = [0, 0, 30, 80][kr.below(4)];
        k.f_eintr = [0, 0, 10, 40][kr.below(4)];
        k.f_outshort = [0, 0, 30][kr.below(3)];
        k.f_write = match prop {
            "C07" => [0, 15, 40, 70][kr.below(4)],
            _ => [0, 0, 30][kr.below(3)],
        };
        if prop == "C15" {
            k.f_crash = [0, 2, 6, 15][kr.below(4)];
            k.f_kill = [0, 0, 15, 40][kr.below(4)];
            k.f_write = [0, 15, 40][kr.below(3)];
        }
        if prop == "C07" {
            k.f_kill = [0, 0, 15][kr.below(3)];
            k.f_open /= 2;
            k.f_read /= 2;
        }
        if prop == "C16" {
            k.f_open /= 5;
            k.f_read /= 5;
            k.f_write = 0;
            k.f_outfail = [5, 20, 50, 90][kr.below(4)];
            k.f_outshort = [0, 30, 60][kr.below(3)];
        }
        if prop == "C09" {
            k.f_open = 0;
            k.f_read = 0;
            k.f_write = 0;
        }
    }
    let cmd = match prop {
        "C07" => "to_json",
        "C15" => ["to_json", "to_json", "to_json", "verify", "metadata"][r.below(5)],
        "C09" => ["verify", "verify", "to_json", "metadata"][r.below(4)],
        _ => ["verify", "verify", "to_json", "metadata"][r.below(4)],
    }
    .to_string();
    let meta = cmd == "metadata";
    let rec = r.chance(50);
    let o = Opt { recursive: rec, partial: if meta { !rec && r.chance(60) } else { r.chance(50) }, size: if meta { r.range(1, 2) } else { r.range(1, 3) }, defect: false };
    let d = Dom::new(r, "v", &o);
    let mut known = vec![];
    let def = r.chance(match prop {
        "C07" => 15,
        "C08" => 25,
        _ => 35,
    });
    let (mut dt, mut de) = d.render(r, def);
    if meta && wordy(&dt) && o.recursive {
        // cannot happen by construction; keeps the known finding out of the exploration
        let o = Opt { recursive: false, ..o.clone() };
        let d2 = Dom::new(r, "v", &o);
        dt = d2.render(r, false).0;
        de = Expect::Unknown;
    }
    let use_problem = r.chance(65) || (prop == "C09" && !meta && r.chance(50));
    let defp = r.chance(30);
    let (pt, pe) = d.problem(r, "q", defp);
    // beyond the buffer sizes in use
    let big = |r: &mut Rng, t: &mut String| {
        if r.chance(5) {
            let n = [4_000, 8_192, 9_000, 66_000, 140_000][r.below(5)];
            let s = if r.chance(50) { " ".to_string() } else { "; filler filler filler filler filler filler\n".to_string() };
            let mut f = s.repeat(n / s.len() + 1);
            if r.chance(50) {
                f.push_str(t);
                *t = f;
            } else {
                t.push('\n');
                t.push_str(&f);
            }
        }
    };
    let mut pt = pt;
    if prop != "C09" {
        big(r, &mut dt);
        big(r, &mut pt);
    }
    let mut dbytes = dt.clone().into_bytes();
    let mut pbytes = pt.clone().into_bytes();
    let mut torn_domain = false;
    let mut damage = String::new();
    if prop == "C08" && r.chance(45) && !(meta && wordy(&dt)) {
        let which = if use_problem && !meta { r.below(3) } else { 0 };
        if which != 1 {
            dbytes = gen::multi(r, &dt).into_bytes();
        }
        if which != 0 {
            pbytes = gen::multi(r, &pt).into_bytes();
        }
        damage = "several defects".into();
    }
    let dmg = match prop {
        "C09" => 95,
        "C08" => 10,
        "C06" => 15,
        "C07" => 20,
        _ => 30,
    };
    let mut domain = ["d.hddl", "dir/domain.hddl", "d \u{e4}.pddl", "./d.hddl", "noext"][r.below(5)].to_string();
    let problem = ["p.hddl", "dir/p.hddl", "q", "./p.pddl"][r.below(4)].to_string();
    if !damage.is_empty() {
    } else if r.chance(dmg) {
        let other = {
            let d3 = Dom::new(r, "w", &Opt { recursive: false, partial: false, size: 2, defect: false });
            if r.chance(50) {
                d3.render(r, false).0.into_bytes()
            } else {
                d3.problem(r, "w", false).0.into_bytes()
            }
        };
        let mut what = vec![];
        let which = if use_problem && !meta { r.below(4) } else { 0 };
        if which != 1 {
            let before = dbytes.clone();
            let times = if r.chance(20) { 2 } else { 1 };
            for _ in 0..times {
                let (b, w) = gen::damage(r, &dbytes, &other);
                dbytes = b;
                what.push(format!("domain {w}"));
            }
            let last = before.iter().rposition(|c| *c == b')').unwrap_or(0);
            torn_domain = times == 1 && what[0] == "domain torn" && dbytes.len() <= last && before.starts_with(&dbytes);
        }
        if which == 1 || which == 2 {
            let (b, w) = gen::damage(r, &pbytes, &other);
            pbytes = b;
            what.push(format!("problem {w}"));
        }
        if use_problem && r.chance(4) {
            std::mem::swap(&mut dbytes, &mut pbytes);
            what.push("exchanged roles".into());
            torn_domain = false;
        }
        damage = what.join(", ");
        if meta && wordy(&String::from_utf8_lossy(&dbytes)) {
            // see KNOWN_FINDINGS: metadata on partially ordered recursion
            let t = dt.replace(":subtasks", ":ordered-subtasks").replace(":tasks", ":ordered-tasks");
            dbytes = t.into_bytes();
            while wordy(&String::from_utf8_lossy(&dbytes)) {
                let n = dbytes.len() / 2;
                dbytes.truncate(n);
            }
            torn_domain = false;
            damage = "cut".into();
        }
    } else {
        let dok = de == Expect::Accept;
        known.push((hash(&dbytes), 0, de));
        if dok {
            known.push((hash(&dbytes), hash(&pbytes), pe));
        }
    }
    let with_problem = use_problem && (!meta || r.chance(20));
    let mut files = vec![];
    let missing = prop != "C08" && prop != "C09" && r.chance(6);
    if !(missing && r.chance(50)) {
        files.push((domain.trim_start_matches("./").to_string(), Some(Blob(dbytes.clone()))));
    } else if r.chance(40) {
        files.push((domain.trim_start_matches("./").to_string(), None));
    }
    if !(missing && r.chance(50)) {
        files.push((problem.trim_start_matches("./").to_string(), Some(Blob(pbytes.clone()))));
    }
    if r.chance(3) && with_problem {
        domain = problem.clone();
    }
    let mut output = None;
    if cmd == "to_json" && (prop == "C07" || r.chance(if prop == "C16" { 20 } else { 60 })) || r.chance(4) {
        let f = ["out.json", "dir/out.json", "o \u{e4}", "none/here.json", "folder", "./out.json", "d.hddl"][if r.chance(80) { r.below(3) } else { r.below(if prop == "C15" { 6 } else { 7 }) }].to_string();
        let n = f.trim_start_matches("./").to_string();
        if f == "folder" {
            files.push((n, None));
        } else if f != "none/here.json" && !files.iter().any(|x| x.0 == n) {
            match r.below(4) {
                0 => {}
                1 => files.push((n, Some(Blob(b"old".to_vec())))),
                2 => files.push((n, Some(Blob(format!("{{\"old\": \"{}\"}}", "x".repeat(r.range(1, 60_000))).into_bytes())))),
                _ => files.push((n, Some(Blob(vec![])))),
            }
        }
        if f.starts_with("dir/") && !files.iter().any(|x| x.0.starts_with("dir/")) {
            files.push(("dir/keep".into(), Some(Blob(vec![]))));
        }
        output = Some(f);
    }
    files.push(("other.txt".into(), Some(Blob(b"untouched".to_vec()))));
    let mut events = vec![];
    if prop != "C08" && r.chance(if prop == "C07" { 12 } else { 25 }) {
        for _ in 0..r.range(1, 2) {
            let t = if r.chance(60) || !with_problem { domain.clone() } else { problem.clone() };
            let t = t.trim_start_matches("./").to_string();
            if output.as_ref().map_or(false, |o| o.trim_start_matches("./") == t) {
                continue;
            }
            let nb = if t == domain.trim_start_matches("./") { d.render(r, false).0.into_bytes() } else { d.problem(r, "q2", false).0.into_bytes() };
            if meta && wordy(&String::from_utf8_lossy(&nb)) && o.recursive {
                continue;
            }
            events.push(match r.below(7) {
                0 | 1 if !meta => DiskOp::Write(t, Blob(nb)),
                2 if !meta => DiskOp::Truncate(t, r.below(400) as u64),
                3 => DiskOp::Remove(t),
                4 if !meta => DiskOp::Append(t, Blob(b"\n(:extra)\n".to_vec())),
                _ => DiskOp::Replace(t, Blob(nb)),
            });
        }
    }
    let seeds = if prop == "C08" { (0..6).map(|_| r.next()).collect() } else { vec![] };
    CliScenario {
        knobs: k, cmd, files, domain, problem: if with_problem { Some(problem) } else { None }, output, style: r.below(18) as u32, events, known, torn_domain, damage, seeds, again: prop == "C15",
    }
}

struct CliWorld<'a> {
    sc: &'a CliScenario,
    pos: usize,
    disk: DiskModel,
}
impl<'a> World for CliWorld<'a> {
    fn ready(&self, _s: &State) -> bool {
        self.pos < self.sc.events.len()
    }
    fn step(&mut self, s: &mut State) {
        let op = &self.sc.events[self.pos];
        self.pos += 1;
        s.log(format!("outside: {}", crate::lsp::describe(&crate::lsp::Step::Disk(op.clone()))));
        self.disk.apply(op, s);
    }
    fn done(&self) -> bool {
        self.pos >= self.sc.events.len()
    }
}

fn strip(b: &[u8], root: &str) -> String {
    let mut s = String::from_utf8_lossy(b).into_owned();
    for c in ["\x1b[33m", "\x1b[32m", "\x1b[31m", "\x1b[0m"] {
        s = s.replace(c, "");
    }
    s.replace(root, "ROOT")
}

/// one execution; the judged outcome plus what the process printed and left behind
fn once(env: &Env, scratch: &Scratch, o: &mut Oracle, prop: &str, sc: &CliScenario, hash_seed: u64, ch: &mut Choices, keep: bool) -> (Outcome, String, Tree) {
    scratch.clear();
    let mut disk = DiskModel::default();
    for (p, c) in &sc.files {
        let c = c.as_ref().map(|b| b.0.clone());
        put(&scratch.root, p, &c);
        disk.add(p, c);
    }
    let cfg = SpawnCfg {
        bin: &env.dir.join("hddl_analyzer"), shim: &env.shim, args: sc.args(), root: &scratch.root, workers: 1, hash_seed, preempt: &[], cpu_s: 8,
    };
    let p = match Proc::spawn(&cfg) {
        Ok(p) => p,
        Err(e) => return (Outcome::error(e), String::new(), Tree::new()),
    };
    let mut w = CliWorld { sc, pos: 0, disk };
    let kn = Knobs { hash_seed, ..sc.knobs.clone() };
    let mut sim = Sim::new(p, &scratch.root, &kn, ch, keep, 40_000);
    let end = sim.run(&mut w);
    sim.kill();
    let mut out = Outcome::from_state(&mut sim.s, &end);
    if matches!(end, End::Stuck) {
        return (Outcome::error(format!("{end:?}: {:?}", sc.args())), String::new(), Tree::new());
    }
    let st = &sim.s;
    let root = scratch.root.to_string_lossy().into_owned();
    let stdout = strip(&st.out, &root);
    let stderr = strip(&st.err, &root);
    judge(prop, sc, &w, st, &end, o, &mut out, &stdout, &stderr);
    let file = sc.output.as_ref().and_then(|f| std::fs::read(scratch.root.join(f)).ok()).unwrap_or_default();
    let all = format!("{end:?}\n{stdout}\n--\n{stderr}\n--\n{}", String::from_utf8_lossy(&file));
    (out, all, w.disk.now())
}
type Tree = std::collections::BTreeMap<String, Option<Vec<u8>>>;

/// an execution that fails or is killed, then another one: the first must not show
fn twice(env: &Env, scratch: &Scratch, o: &mut Oracle, prop: &str, sc: &CliScenario, ch: &mut Choices, keep: bool) -> Outcome {
    let (mut out, _, outside) = once(env, scratch, o, prop, sc, sc.knobs.hash_seed, ch, keep);
    if out.error.is_some() {
        return out;
    }
    let left = tree(&scratch.root);
    let hurt = out.faults.keys().any(|k| *k != "directory order shuffled");
    let mut shown: Vec<(String, String)> = vec![];
    for (k, files) in [(0, left), (1, outside)] {
        let mut s = sc.clone();
        s.files = files.into_iter().map(|(p, c)| (p, c.map(Blob))).collect();
        s.events.clear();
        s.torn_domain = false;
        s.knobs = Knobs { hash_seed: sc.knobs.hash_seed ^ 0x55, ..Knobs::default() };
        let (mut o2, all, _) = once(env, scratch, o, prop, &s, s.knobs.hash_seed, ch, keep);
        if k == 0 {
            for v in &mut o2.violations {
                v.tags.push("C15");
                v.detail = format!("after a first execution under {:?}: {}", out.faults, v.detail);
            }
        } else {
            o2.violations.clear();
        }
        let bad = o2.error.is_some();
        out.absorb(o2);
        if bad {
            return out;
        }
        let (told, file) = all.rsplit_once("\n--\n").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default();
        shown.push((told, file));
    }
    let success = shown[1].0.contains("[Ok]");
    if shown[0].0 != shown[1].0 || (success && shown[0].1 != shown[1].1) {
        let d = if shown[0].0 != shown[1].0 { format!("prints {:?} instead of {:?}", crop(&shown[0].0), crop(&shown[1].0)) } else { format!("leaves {} bytes in the output file instead of {}", shown[0].1.len(), shown[1].1.len()) };
        out.violations.push(Violation { tags: vec!["C15"], class: "second execution".into(), detail: format!("{:?} after an execution under {:?} {d}", sc.args(), out.faults) });
    }
    out.probe("repeated executions compared", 1);
    if hurt {
        out.probe("executions after a failed or killed one", 1);
    }
    out
}

pub fn run(env: &Env, scratch: &Scratch, o: &mut Oracle, prop: &str, sc: &CliScenario, ch: &mut Choices, keep: bool) -> Outcome {
    if sc.again {
        return twice(env, scratch, o, prop, sc, ch, keep);
    }
    let (mut out, first, _) = once(env, scratch, o, prop, sc, sc.knobs.hash_seed, ch, keep);
    if out.error.is_some() || sc.seeds.is_empty() {
        return out;
    }
    for h in &sc.seeds {
        let (o2, next, _) = once(env, scratch, o, prop, sc, *h, ch, keep);
        let bad = o2.error.is_some();
        out.absorb(o2);
        if bad {
            return out;
        }
        if next != first {
            let d = first.lines().zip(next.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{:?} and {:?}", crop(a), crop(b))).unwrap_or_else(|| "different length".into());
            out.violations.push(Violation { tags: vec!["C08"], class: "hash seed".into(), detail: format!("{:?} prints {d} under different hash seeds", sc.args()) });
            return out;
        }
    }
    out.probe("outputs compared across hash seeds", sc.seeds.len() as u64);
    out
}
fn crop(s: &str) -> String {
    s.chars().take(160).collect()
}

fn lines_named(m: &str) -> Vec<u64> {
    let mut v = vec![];
    let mut s = m;
    while let Some(i) = s.find("line ") {
        s = &s[i + 5..];
        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = d.parse() {
            v.push(n);
        }
    }
    v
}
/// the part of the input the message claims to have seen
/// the pieces of the input an error message quotes
fn quoted(m: &str) -> Vec<String> {
    let m = m.trim_end();
    let word = |s: &str| s.split(' ').next().unwrap_or("").to_string();
    if let Some(i) = m.find("but found '") {
        if m.contains(": expected '") {
            let Some(q) = m[i + 11..].strip_suffix('\'') else { return vec![] };
            for k in ["Identifier ", "Keyword ", "Requirement ", "Number "] {
                if let Some(r) = q.strip_prefix(k) {
                    // keywords are named by their usual form: compare what all their forms share
                    return match k {
                        "Keyword " => vec![r.trim_start_matches(':').replace("(sub)", "").trim_start_matches("ordered-").trim_end_matches("ing").into()],
                        "Number " if r.len() > 9 => vec![],
                        _ => vec![r.into()],
                    };
                }
            }
            return vec![q.into()];
        }
    }
    for k in ["' is an invalid identifier.", "' is an invalid keyword.", "' is an invalid real number."] {
        if let (Some(a), Some(b)) = (m.find('\''), m.find(k)) {
            if a < b {
                return vec![m[a + 1..b].to_string()];
            }
        }
    }
    if let Some(b) = m.find("' is first defined in line ") {
        return m.find('\'').filter(|a| *a < b).map(|a| m[a + 1..b].to_string()).into_iter().collect();
    }
    if let Some(b) = m.rfind(" is not defined.") {
        return m[..b].rfind(' ').map(|a| m[a + 1..b].to_string()).into_iter().collect();
    }
    for k in [": predicate ", "Task "] {
        if let (Some(a), Some(b)) = (m.find(k), m.find(" parameters, but ")) {
            if a < b {
                return vec![word(&m[a + k.len()..])];
            }
        }
    }
    if let Some(a) = m.find("Type error for variable ") {
        let r = &m[a + 24..];
        let mut v = vec![word(r).trim_end_matches('.').to_string()];
        v.extend(r.split('\'').skip(1).step_by(2).filter(|t| *t != "object").map(|t| t.to_string()));
        return v;
    }
    vec![]
}
fn occurs(q: &str, b: &[u8]) -> bool {
    let l = |b: &[u8]| b.to_ascii_lowercase();
    let (q, b) = (l(q.as_bytes()), l(b));
    q.is_empty() || b.windows(q.len()).any(|w| w == q.as_slice())
}

#[derive(Clone, PartialEq, Debug)]
enum Want {
    Good(String),
    Json(String),
    Bad(Report),
}

fn judge(prop: &str, sc: &CliScenario, w: &CliWorld, st: &State, end: &End, o: &mut Oracle, out: &mut Outcome, stdout: &str, stderr: &str) {
    let norm = |p: &str| p.trim_start_matches("./").to_string();
    let dom = norm(&sc.domain);
    let prob = sc.problem.as_ref().filter(|_| sc.cmd != "metadata").map(|p| norm(p));
    let outp = sc.output.as_ref().filter(|_| sc.cmd == "to_json").map(|p| norm(p));
    let mut vs: Vec<Violation> = vec![];
    let mut add = |tags: &[&'static str], class: &str, detail: String| vs.push(Violation { tags: tags.to_vec(), class: class.into(), detail });
    let what = format!("{:?}{}", sc.args(), if sc.damage.is_empty() { String::new() } else { format!(" ({})", sc.damage) });
    let crashed = out.faults.contains_key("crash after write") || out.faults.contains_key("crash");
    let errors = stderr.matches("[Error]").count();
    // -- how it ended
    let status = match end {
        End::Exited(s) => *s,
        _ => -1,
    };
    // standard output or standard error did not take everything: there is nothing wrong with a panic then
    let refused = st.refused[0] || st.refused[1];
    let orderly = crashed || (matches!(end, End::Exited(_)) && (status == 0 || status == 1 << 8 || refused));
    if !refused && stderr.contains("panicked at") || !orderly {
        let why = if stderr.contains("panicked at") { "panics" } else if status & 0x7f == 24 || matches!(end, End::Steps | End::Idle) { "does not terminate" } else { "ends abnormally" };
        let mut tags = vec!["C09", "C06"];
        if outp.is_some() {
            tags.push("C07");
        }
        add(&tags, "abnormal end", format!("{what} {why} (wait status {status:#x}): {}", crop(stderr)));
    }
    // -- what was delivered
    let fulls = |p: &str| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![];
        for e in &st.events {
            if let FileEv::Full { path, data, .. } = e {
                if norm(path) == p && !v.contains(data) {
                    v.push(data.clone());
                }
            }
        }
        v
    };
    let failed = |p: &str| st.events.iter().any(|e| matches!(e, FileEv::Fail { path, errno, .. } if norm(path) == p && *errno != EINTR));
    let ds = fulls(&dom);
    let ps = prob.as_ref().map(|p| fulls(p)).unwrap_or_default();
    let in_failed = failed(&dom) || prob.as_ref().map_or(false, |p| failed(p));
    // -- acceptable results
    let mut want: Vec<Want> = vec![];
    let mut broken = false;
    let mut known_bad = None;
    let mut pairs: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    for d in &ds {
        match &prob {
            None => pairs.push((d.clone(), None)),
            Some(_) => pairs.extend(ps.iter().map(|p| (d.clone(), Some(p.clone())))),
        }
    }
    for (d, p) in &pairs {
        match o.call(&sc.cmd, d, p.as_deref()) {
            Verdict::Panic => broken = true,
            Verdict::Ok(v) => want.push(match sc.cmd.as_str() {
                "verify" => Want::Good(v.iter().map(|x| format!("[Warning] {x}\n")).collect::<String>() + "[Ok]\n"),
                "metadata" => Want::Good(v[0].clone()),
                _ => Want::Json(v[0].clone()),
            }),
            Verdict::Err(r) => want.push(Want::Bad(r)),
        }
    }
    if prob.is_some() && ps.is_empty() {
        // the problem was never read to its end: only an error about the domain can be known
        for d in &ds {
            if let Verdict::Err(r) = o.call("verify", d, None) {
                want.push(Want::Bad(r));
            }
        }
    }
    let any_output = !stdout.is_empty();
    let target = outp.as_ref().and_then(|f| std::fs::read(st.root.join(f)).ok());
    let out_fault = outp.as_ref().map_or(false, |f| {
        st.events.iter().any(|e| match e {
            FileEv::Fail { path, .. } => norm(path) == *f,
            FileEv::Write { path, n, .. } => norm(path) == *f && *n < 0,
            _ => false,
        })
    }) || out.faults.keys().any(|k| k.starts_with("write ") || k.starts_with("output open"));
    let mut judged = false;
    if crashed {
        // killed in the middle: nothing may have been claimed unless it is true
        if let Some(f) = &outp {
            judged = true;
            if any_output && !want.iter().any(|x| matches!(x, Want::Json(j) if target.as_deref() == Some(j.as_bytes()))) {
                add(&["C07"], "false success", format!("{what} printed {:?} and was then killed, but {f} holds {} bytes that are not the complete JSON", crop(stdout), target.as_ref().map_or(0, |t| t.len())));
            }
        }
    } else if orderly && refused && !broken {
        judged = true;
        out.probe_on("executions whose output was refused");
        // a coloured word may be cut off
        let shown = stdout.split('\x1b').next().unwrap_or("");
        let texts: Vec<(String, String)> = want
            .iter()
            .map(|x| match x {
                Want::Good(s) => (s.clone(), String::new()),
                Want::Json(j) => (format!("[Ok]\n{j}\n"), String::new()),
                Want::Bad(r) => (String::new(), format!("[Error] {}", r.message)),
            })
            .collect();
        let filed = outp.is_some() && want.iter().any(|x| matches!(x, Want::Json(_)));
        if !filed && !in_failed && !want.is_empty() {
            if !texts.iter().any(|t| t.0.starts_with(shown)) {
                add(&["C16"], "wrong part", format!("{what}: standard output refused a write and holds {:?}, which is no beginning of what the inputs give", crop(stdout)));
            }
            let complete = texts.iter().any(|t| t.0 == stdout && t.1.trim_end() == stderr.trim_end());
            if status == 0 && !complete && (stderr.is_empty() || st.refused[1]) {
                add(&["C16"], "lost silently", format!("{what}: a write was refused, {} bytes are on standard output and {} on standard error, yet the status is 0", stdout.len(), stderr.len()));
            }
        }
        if in_failed && want.is_empty() {
            if !stdout.is_empty() {
                add(&["C16", "C06"], "read failure", format!("{what}: reading an input failed, but it prints {:?}", crop(stdout)));
            }
            if status == 0 && (stderr.is_empty() || st.refused[1] && !stderr.ends_with('\n')) {
                add(&["C16"], "lost silently", format!("{what}: reading an input failed and a write was refused, yet the status is 0 and standard error holds {:?}", crop(stderr)));
            }
        }
        if filed && status == 0 && stderr.is_empty() && !want.iter().any(|x| matches!(x, Want::Json(j) if target.as_deref() == Some(j.as_bytes()))) {
            add(&["C16", "C07"], "lost silently", format!("{what}: a write was refused, the file is not complete and the status is 0"));
        }
    } else if orderly && !broken {
        judged = true;
        let fits = |x: &Want| -> bool {
            match x {
                Want::Good(s) => stdout == s && errors == 0,
                Want::Bad(r) => stdout.is_empty() && errors == 1 && stderr.trim_end() == format!("[Error] {}", r.message).trim_end(),
                Want::Json(j) => match &outp {
                    None => stdout == format!("[Ok]\n{j}\n") && errors == 0,
                    Some(_) => {
                        if any_output {
                            target.as_deref() == Some(j.as_bytes()) && errors == 0
                        } else {
                            out_fault && errors == 1
                        }
                    }
                },
            }
        };
        let ok = want.iter().any(|x| fits(x));
        let err_only = errors == 1 && stdout.is_empty();
        if !ok && !(in_failed && err_only) && !(want.is_empty() && err_only) {
            let complete = want.iter().any(|x| matches!(x, Want::Json(_)));
            if in_failed && want.is_empty() {
                let mut tags = vec!["C06"];
                if outp.is_some() {
                    tags.push("C07");
                }
                add(&tags, "read failure", format!("{what}: reading an input failed, but it prints {:?} and {:?}", crop(stdout), crop(stderr)));
            } else if outp.is_some() && complete && any_output {
                add(&["C07", "C06"], "false success", format!("{what} prints {:?}, but the file holds {} bytes that are not the complete JSON; faults {:?}", crop(stdout), target.as_ref().map_or(0, |t| t.len()), out.faults));
            } else if outp.is_some() && complete {
                add(&["C07", "C06"], "unreported failure", format!("{what} prints {:?} and {:?}; faults {:?}", crop(stdout), crop(stderr), out.faults));
            } else {
                let t: &[&'static str] = if outp.is_some() { &["C06", "C07"] } else { &["C06"] };
                add(t, "wrong result", format!("{what} prints {:?} and {:?}; the bytes it read give {}", crop(stdout), crop(stderr), crop(&format!("{:?}", want.first()))));
            }
        }
        // verdicts known by construction
        for (d, p) in &pairs {
            if let Some(k) = sc.known.iter().find(|k| k.0 == hash(d) && k.1 == p.as_ref().map_or(0, |p| hash(p))) {
                if sc.cmd == "verify" && pairs.len() == 1 && !in_failed {
                    let good = match &k.2 {
                        Expect::Unknown => true,
                        Expect::Accept => stdout.ends_with("[Ok]\n") && errors == 0,
                        Expect::Reject(n, _) => errors == 1 && stderr.contains(n.as_str()),
                    };
                    if !good {
                        known_bad = Some(format!("{:?}", k.2));
                    }
                }
            }
        }
        if let Some(k) = known_bad {
            add(&["C06"], "wrong verdict", format!("{what} prints {:?} and {:?} although the files were made so that {k}", crop(stdout), crop(stderr)));
        }
        if errors > 0 && stdout.contains("[Ok]") {
            add(&["C06"], "two verdicts", format!("{what} prints [Error] and [Ok]"));
        }
        if errors > 1 {
            add(&["C09", "C06"], "two errors", format!("{what} prints {errors} errors: {}", crop(stderr)));
        }
        // -- torn and damaged files
        if !in_failed && pairs.len() == 1 {
            let (d, p) = &pairs[0];
            let untouched = sc.files.iter().any(|f| f.0 == dom && f.1.as_ref().map_or(false, |b| b.0 == *d));
            if sc.torn_domain && untouched && errors == 0 {
                add(&["C09"], "torn file accepted", format!("{what}: a domain cut off after {} bytes is accepted", d.len()));
            }
            if errors == 1 && !out_fault {
                let m = stderr.split("[Error]").nth(1).unwrap_or("").trim();
                let max = [Some(d), p.as_ref()].iter().flatten().map(|b| b.iter().filter(|c| **c == b'\n').count() as u64 + 1).max().unwrap_or(1);
                for n in lines_named(m.split('\'').next().unwrap_or("")).into_iter().chain(m.split("defined in line ").skip(1).filter_map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())) {
                    if n == 0 || n > max {
                        add(&["C09"], "line outside the file", format!("{what}: {m:?} names line {n}, the input has {max}"));
                    }
                }
                for q in quoted(m) {
                    out.probe_on("messages quoting the input");
                    let placeholder = PLACEHOLDERS.contains(&q.as_str());
                    let plain = q.bytes().all(|c| c.is_ascii_graphic());
                    if plain && !placeholder && !occurs(&q, d) && !p.as_ref().map_or(false, |p| occurs(&q, p)) {
                        add(&["C09"], "text not in the file", format!("{what}: {m:?} quotes {q:?}, which is in neither file"));
                    }
                }
                if m.is_empty() {
                    add(&["C09"], "empty message", format!("{what}: the error has no text"));
                }
            }
        }
    }
    // -- only what it was asked about
    for e in &st.events {
        if let FileEv::Look { path, .. } = e {
            let p = plain(path);
            if ![Some(&sc.domain), sc.problem.as_ref(), sc.output.as_ref()].iter().flatten().any(|a| plain(a) == p) {
                add(&["C14"], "looks elsewhere", format!("{what} opens {path}, which is not on its command line"));
                break;
            }
        }
    }
    // -- files
    let mut allowed: Vec<String> = outp.iter().cloned().collect();
    allowed.dedup();
    let parse_failed = !want.iter().any(|x| matches!(x, Want::Json(_))) && !broken;
    for e in &st.events {
        if let FileEv::Mutate { what: m, path, .. } = e {
            let mine = allowed.iter().any(|a| *a == norm(path));
            if !mine {
                let t: &[&'static str] = &["C05"];
                add(t, "modifies", format!("{what} calls {m} on {path}"));
            } else if parse_failed && orderly {
                add(&["C07"], "touched on failure", format!("{what}: inputs are unreadable or rejected, but {m} is called on {path}"));
            }
        }
    }
    let mut exp = w.disk.now();
    let mut have = tree(&st.root);
    if let Some(f) = &outp {
        if parse_failed && exp.get(f) != have.get(f) {
            add(&["C07"], "touched on failure", format!("{what}: inputs are unreadable or rejected, but {f} changed"));
        }
        exp.remove(f);
        have.remove(f);
    }
    if exp != have {
        let diff: Vec<&String> = exp.keys().chain(have.keys()).filter(|k| exp.get(*k) != have.get(*k)).collect();
        add(&["C05"], "modifies", format!("{what} changed {diff:?}"));
    }
    out.violations.extend(vs);
    if judged {
        out.probe("executions judged against the delivered bytes", 1);
        if in_failed {
            out.probe("executions with a failed input", 1);
        }
        if out_fault {
            out.probe("executions with a failing output file", 1);
        }
        if sc.torn_domain {
            out.probe("torn domains", 1);
        }
        if pairs.len() == 1 && sc.known.iter().any(|k| k.0 == hash(&pairs[0].0)) {
            out.probe("verdicts known by construction", 1);
        }
        if crashed {
            out.probe("crashes while writing", 1);
        }
        if errors == 1 {
            out.probe("error verdicts", 1);
        }
    }
    let _ = (prop, Class::Domain);
}
const PLACEHOLDERS: &[&str] = &["EOF", "end of file", "End of file"];

impl Outcome {
    fn probe_on(&mut self, n: &'static str) {
        self.probe(n, 1)
    }
}

/// the recorded defect (see KNOWN_FINDINGS): does it still show?
pub fn known_probe(env: &Env, scratch: &Scratch) -> Result<Vec<String>, String> {
    let file = env.verif.join("KNOWN_FINDINGS.json");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for k in v["findings"].as_array().cloned().unwrap_or_default() {
        if k["property"] != "C09" {
            continue;
        }
        scratch.clear();
        let f = scratch.root.join("d.hddl");
        std::fs::write(&f, k["domain"].as_str().unwrap_or("")).map_err(|e| e.to_string())?;
        let kn = Knobs { shuffle: false, ..Knobs::default() };
        let cfg = SpawnCfg { bin: &env.dir.join("hddl_analyzer"), shim: &env.shim, args: vec![k["command"].as_str().unwrap_or("metadata").into(), "d.hddl".into()], root: &scratch.root, workers: 1, hash_seed: 1, preempt: &[], cpu_s: 2 };
        let p = Proc::spawn(&cfg)?;
        let mut ch = Choices::replay(&[]);
        let sc = None::<u8>;
        let _ = sc;
        struct Nobody;
        impl World for Nobody {
            fn ready(&self, _: &State) -> bool {
                false
            }
            fn step(&mut self, _: &mut State) {}
            fn done(&self) -> bool {
                true
            }
        }
        let mut sim = Sim::new(p, &scratch.root, &kn, &mut ch, false, 40_000);
        let end = sim.run(&mut Nobody);
        sim.kill();
        let bad = String::from_utf8_lossy(&sim.s.err).contains("panicked at") || !matches!(end, End::Exited(0));
        if bad {
            out.push(k["what"].as_str().unwrap_or("").to_string());
        }
    }
    Ok(out)
}
