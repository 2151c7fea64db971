//! Random editor sessions, one profile per property.
use crate::choice::{hash, Rng};
use crate::gen::{self, Dom, Expect, Opt};
use crate::lsp::*;
use crate::sim::Knobs;
use serde_json::{json, Value};

pub fn knobs(r: &mut Rng, faulty: bool) -> Knobs {
    let w = |r: &mut Rng| [1u32, 1, 2, 4, 8, 24][r.below(6)];
    let mut k = Knobs {
        workers: r.range(1, 3) as u32,
        hash_seed: r.next(),
        w: [w(r), w(r), w(r), w(r), w(r), w(r), 1],
        sticky: [1, 1, 4, 20][r.below(4)],
        ..Knobs::default()
    };
    if r.chance(40) {
        // the client is much faster, or much slower, than the server
        k.w[5] = if r.chance(60) { 60 } else { 1 };
    }
    k.chunk = match r.below(6) {
        0 => 1,
        1 => 7,
        2 => 60,
        3 => 900,
        _ => 0,
    };
    if faulty {
        let p = |r: &mut Rng| [0u32, 0, 3, 10, 30][r.below(5)];
        k.f_open = p(r);
        k.f_read = p(r);
        k.f_short = p(r);
        k.f_eintr = [0, 0, 5, 20][r.below(4)];
        k.f_dir = p(r);
        k.f_outshort = [0, 0, 10, 50][r.below(4)];
        k.f_spurious = [0, 0, 1, 4][r.below(4)];
        k.f_leap = [0, 0, 0, 2][r.below(4)];
    }
    k
}

struct Weights {
    change: u32,
    multi: u32,
    empty: u32,
    save_text: u32,
    save: u32,
    reopen: u32,
    close: u32,
    diag: u32,
    cancel: u32,
    request: u32,
    notify: u32,
    garbage: u32,
    disk: u32,
    wait: u32,
}

struct Doc {
    uri: String,
    path: Option<String>,
    /// index of the folder
    folder: usize,
    kind: u8, // 0 domain, 1 problem, 2 anything
    open: bool,
    version: i64,
}
struct Folder {
    name: String,
    doms: Vec<Dom>,
    /// renderings known to be correct: (dom index, hash)
    good: Vec<(usize, u64)>,
}
struct G {
    r: Rng,
    known: Vec<(u64, u64, Expect)>,
    n: usize,
    same_len: Option<usize>,
    defect_pct: u32,
    damage_pct: u32,
    multi_pct: u32,
    huge: bool,
    size: usize,
    folders: Vec<Folder>,
    problems: Vec<(usize, usize, u64, Expect)>,
}

impl G {
    fn tag(&mut self) -> String {
        self.n += 1;
        format!("t{}", self.n)
    }
    fn dom(&mut self) -> Dom {
        let tag = self.tag();
        let o = Opt { recursive: self.r.chance(40), partial: self.r.chance(40), size: self.r.range(1, self.size), defect: false };
        Dom::new(&mut self.r, &tag, &o)
    }
    fn pad(&mut self, t: &mut String) {
        if let Some(n) = self.same_len {
            while t.len() < n {
                t.push(if t.len() % 61 == 0 { '\n' } else { ' ' });
            }
        } else if self.huge && self.r.chance(15) || self.r.chance(2) {
            let n = if self.huge { [140_000, 270_000, 600_000, 1_100_000][self.r.below(4)] } else { [5_000, 9_000, 70_000][self.r.below(3)] };
            if self.r.chance(40) {
                // the content begins beyond the buffer sizes in use
                t.insert_str(0, &" ".repeat(n));
                return;
            }
            t.push('\n');
            while t.len() < n {
                t.push_str("; filler filler filler filler filler filler filler filler\n");
            }
        }
    }
    /// with what an editor may put in front of or behind the text
    fn marked(&mut self, t: String) -> String {
        let m = ["\u{feff}", "\u{feff}\n", "\u{a0}", "\u{c}", "\0", "\u{2028}", "\u{85}", "\u{1a}"][self.r.below(8)];
        if self.r.chance(60) {
            format!("{m}{t}")
        } else {
            format!("{t}{m}")
        }
    }
    fn broken(&mut self, t: &str) -> String {
        let other = t.as_bytes().iter().rev().copied().collect::<Vec<u8>>();
        let (b, _) = gen::damage(&mut self.r, t.as_bytes(), &other);
        String::from_utf8_lossy(&b).into_owned()
    }
    fn domain_text(&mut self, d: &Dom) -> (String, bool) {
        let def = self.r.chance(self.defect_pct);
        let (mut t, e) = d.render(&mut self.r, def);
        if self.r.chance(self.damage_pct) {
            return (self.broken(&t), false);
        }
        if self.r.chance(self.multi_pct) {
            return (gen::multi(&mut self.r, &t), false);
        }
        if self.r.chance(1) {
            return (self.marked(t), false);
        }
        let len = t.len();
        self.pad(&mut t);
        let ok = e == Expect::Accept;
        let e = match e {
            // found missing at the end of the file, wherever that is now
            Expect::Reject(n, _) if n.is_empty() && t.len() != len => Expect::Reject(n, None),
            e => e,
        };
        self.known.push((hash(t.as_bytes()), 0, e));
        (t, ok)
    }
    fn problem_text(&mut self, folder: usize) -> String {
        let nd = self.folders[folder].doms.len();
        let (k, d) = if nd == 0 {
            (usize::MAX, self.dom())
        } else {
            let k = self.r.below(nd);
            (k, self.folders[folder].doms[k].clone())
        };
        let tag = self.tag();
        let def = self.r.chance(self.defect_pct);
        let (mut t, e) = d.problem(&mut self.r, &tag, def);
        if self.r.chance(self.damage_pct) {
            return self.broken(&t);
        }
        if self.r.chance(self.multi_pct) {
            return gen::multi(&mut self.r, &t);
        }
        if self.r.chance(1) {
            return self.marked(t);
        }
        let len = t.len();
        self.pad(&mut t);
        let e = match e {
            Expect::Reject(n, _) if n.is_empty() && t.len() != len => Expect::Reject(n, None),
            e => e,
        };
        let h = hash(t.as_bytes());
        if k != usize::MAX {
            self.problems.push((folder, k, h, e));
        }
        t
    }
    fn text(&mut self, folder: usize, kind: u8) -> String {
        match kind {
            0 => {
                let nd = self.folders[folder].doms.len();
                let d = if nd > 0 && self.r.chance(60) { self.folders[folder].doms[self.r.below(nd)].clone() } else { self.dom() };
                self.domain_text(&d).0
            }
            1 => self.problem_text(folder),
            _ => match self.r.below(4) {
                0 => self.text(folder, 0),
                1 => self.text(folder, 1),
                _ => {
                    let tag = self.tag();
                    gen::junk(&mut self.r, &tag)
                }
            },
        }
    }
    /// content of a domain file on disk
    fn disk_domain(&mut self, folder: usize) -> Vec<u8> {
        let nd = self.folders[folder].doms.len();
        let k = self.r.below(nd);
        let d = self.folders[folder].doms[k].clone();
        let keep = (self.defect_pct, self.damage_pct, self.multi_pct);
        self.defect_pct /= 3;
        self.damage_pct /= 2;
        self.multi_pct /= 3;
        let (t, ok) = self.domain_text(&d);
        (self.defect_pct, self.damage_pct, self.multi_pct) = keep;
        if ok {
            self.folders[folder].good.push((k, hash(t.as_bytes())));
        }
        t.into_bytes()
    }
}

/// what real clients announce
fn init_params(r: &mut Rng) -> Value {
    let mut p = json!({"processId": null, "rootUri": null, "capabilities": {}});
    let b = |r: &mut Rng| r.chance(50);
    if b(r) {
        p["processId"] = json!([1i64, 4242, 99999][r.below(3)]);
    }
    if b(r) {
        p["rootUri"] = json!(["file:///", "file:///proc/self/cwd", "file:///proc/self/cwd/", "file:///no/such/folder", "untitled:x"][r.below(5)]);
        p["rootPath"] = json!("/proc/self/cwd");
    }
    if b(r) {
        p["clientInfo"] = json!({"name": (["Visual Studio Code", "Neovim", ""][r.below(3)]), "version": "1.2.3"});
    }
    if b(r) {
        p["trace"] = json!(["off", "messages", "verbose"][r.below(3)]);
    }
    if b(r) {
        p["locale"] = json!("de");
    }
    if r.chance(30) {
        p["initializationOptions"] = [json!({}), json!({"hddl": {"trace": true}}), json!([1]), json!("x"), Value::Null][r.below(5)].clone();
    }
    if r.chance(40) {
        p["workspaceFolders"] = [Value::Null, json!([]), json!([{"uri": "file:///proc/self/cwd", "name": "w"}]), json!([{"uri": "file:///proc/self/cwd/d1", "name": "a"}, {"uri": "file:///proc/self/cwd/D1", "name": "b"}])][r.below(4)].clone();
    }
    let mut c = json!({});
    if r.chance(70) {
        let mut td = json!({});
        if b(r) {
            td["synchronization"] = json!({"dynamicRegistration": b(r), "willSave": b(r), "willSaveWaitUntil": b(r), "didSave": b(r)});
        }
        if b(r) {
            td["diagnostic"] = json!({"dynamicRegistration": b(r), "relatedDocumentSupport": b(r)});
        }
        if b(r) {
            td["publishDiagnostics"] = json!({"relatedInformation": b(r), "versionSupport": b(r), "codeDescriptionSupport": b(r), "dataSupport": b(r), "tagSupport": {"valueSet": [1, 2]}});
        }
        if b(r) {
            td["hover"] = json!({"dynamicRegistration": b(r), "contentFormat": ["markdown", "plaintext"]});
        }
        c["textDocument"] = td;
    }
    if r.chance(60) {
        c["workspace"] = json!({"applyEdit": b(r), "workspaceFolders": b(r), "configuration": b(r), "diagnostics": {"refreshSupport": b(r)}, "didChangeWatchedFiles": {"dynamicRegistration": b(r)}});
    }
    if b(r) {
        c["window"] = json!({"workDoneProgress": b(r), "showMessage": {"messageActionItem": {"additionalPropertiesSupport": b(r)}}});
    }
    if b(r) {
        c["general"] = json!({"positionEncodings": ([["utf-16"], ["utf-8"], ["utf-32"]][r.below(3)]), "staleRequestSupport": {"cancel": b(r), "retryOnContentModified": []}});
    }
    if r.chance(20) {
        c["experimental"] = json!({"x": 1});
    }
    p["capabilities"] = c;
    p
}

const STRANGE: [&str; 17] = [
    "file:///",
    "foo:",
    "untitled:/proc/self/cwd/d1/p.hddl",
    "vscode-notebook-cell:/proc/self/cwd/p.hddl",
    "untitled:/proc/self/cwd/domain.hddl",
    "untitled:Untitled-1",
    "untitled:/x.hddl",
    "http://example.org/dir/p.hddl",
    "file://host/share/p.hddl",
    "file:///proc/self/cwd/%FF%FE.hddl",
    "file:///proc/self/cwd/nowhere/else/p.hddl",
    "file:///proc/self/cwd/a%20b%2Fc.hddl",
    "file:///proc/self/cwd/%00.hddl",
    "vscode-notebook-cell:/a/b.ipynb#W0",
    "data:text/plain,abc",
    "file:///proc/self/cwd",
    "inmemory://model/1",
];

pub fn generate(prop: &str, r: &mut Rng) -> LspScenario {
    let mut kr = r.fork();
    let faulty = match prop {
        "C01" | "C04" => kr.chance(50),
        "C08" => false,
        _ => kr.chance(75),
    };
    let mut kn = knobs(&mut kr, faulty);
    if prop == "C01" && faulty {
        kn.f_dir = 0;
    }
    let wt = match prop {
        "C01" => Weights { change: 26, multi: 6, empty: 1, save_text: 6, save: 9, reopen: 4, close: 1, diag: 40, cancel: 3, request: 0, notify: 0, garbage: 0, disk: 3, wait: 5 },
        "C02" => Weights { change: 25, multi: 3, empty: 2, save_text: 5, save: 9, reopen: 3, close: 2, diag: 38, cancel: 6, request: 3, notify: 3, garbage: 2, disk: 6, wait: 6 },
        "C03" => Weights { change: 12, multi: 1, empty: 0, save_text: 2, save: 3, reopen: 2, close: 0, diag: 45, cancel: 2, request: 0, notify: 0, garbage: 0, disk: 22, wait: 10 },
        "C04" => Weights { change: 12, multi: 2, empty: 1, save_text: 3, save: 4, reopen: 2, close: 1, diag: 55, cancel: 8, request: 6, notify: 3, garbage: 3, disk: 2, wait: 3 },
        "C08" => Weights { change: 20, multi: 3, empty: 0, save_text: 4, save: 4, reopen: 2, close: 0, diag: 55, cancel: 0, request: 0, notify: 0, garbage: 0, disk: 0, wait: 0 },
        _ => Weights { change: 22, multi: 3, empty: 1, save_text: 5, save: 9, reopen: 3, close: 1, diag: 40, cancel: 5, request: 3, notify: 2, garbage: 1, disk: 10, wait: 6 },
    };
    let mut g = G {
        r: r.fork(), known: vec![], n: 0, same_len: None, defect_pct: 60, damage_pct: 0, multi_pct: 0, huge: false, size: 2, folders: vec![], problems: vec![],
    };
    match prop {
        "C02" => g.damage_pct = 70,
        "C05" | "C11" | "C14" => g.damage_pct = 30,
        "C03" => g.defect_pct = 45,
        "C08" => {
            g.size = 3;
            g.defect_pct = 40;
            g.multi_pct = 40;
        }
        _ => {}
    }
    if g.r.chance(15) {
        g.same_len = Some(6000);
    }
    if prop == "C04" && g.r.chance(20) {
        g.same_len = Some([20_000, 70_000][g.r.below(2)]);
    }
    // -- the disk
    let mut files: Vec<(String, Option<Blob>)> = vec![];
    let names = ["", "d1", "D1", "a b", "\u{e4}\u{f6}/in", "deep/er", "x.hddl", "perc%41nt", "\u{f8ff}d", ".hid"];
    let nf = g.r.range(1, if prop == "C03" { 3 } else { 2 });
    let mut used: Vec<usize> = vec![];
    for _ in 0..nf {
        let k = g.r.below(names.len());
        if used.contains(&k) {
            continue;
        }
        used.push(k);
        let mut nd = [0, 1, 1, 1, 2, 2, 3][g.r.below(if prop == "C03" { 7 } else { 5 })];
        if prop == "C14" && g.r.chance(60) {
            nd = 0;
        }
        let doms: Vec<Dom> = (0..nd).map(|_| g.dom()).collect();
        g.folders.push(Folder { name: names[k].to_string(), doms, good: vec![] });
    }
    let nf = g.folders.len();
    let join = |f: &str, n: &str| if f.is_empty() { n.to_string() } else { format!("{f}/{n}") };
    let dnames = ["domain.hddl", "Domain.hddl", "a.pddl", "z.hddl", "m m.hddl", "d\u{fc}.pddl", "zz.tar.hddl", "-.hddl", "p0.hddl.pddl", "d1.hddl", "z\u{f8ff}.pddl", "\u{f8ff}\u{f8ff}.hddl", ".d.hddl"];
    let mut domain_files: Vec<(usize, String)> = vec![];
    let mut links: Vec<(String, String)> = vec![];
    for f in 0..nf {
        let fname = g.folders[f].name.clone();
        if g.folders[f].doms.is_empty() {
            files.push((join(&fname, "README.txt"), Some(Blob(b"nothing here".to_vec()))));
        }
        for _ in 0..g.folders[f].doms.len() {
            let n = join(&fname, g.r.pick(&dnames));
            let b = g.disk_domain(f);
            if !files.iter().any(|x| x.0 == n) {
                domain_files.push((f, n.clone()));
                files.push((n, Some(Blob(b))));
            }
        }
        // links to domains kept elsewhere, links to nowhere
        if g.r.chance(if prop == "C03" { 18 } else { 4 }) && !g.folders[f].doms.is_empty() {
            let n = join(&fname, g.r.pick(&dnames));
            if !files.iter().any(|x| x.0 == n) {
                let t = format!("store/real{f}.{}", ["hddl", "txt"][g.r.below(2)]);
                let b = g.disk_domain(f);
                files.push((t.clone(), Some(Blob(b))));
                domain_files.push((f, n.clone()));
                links.push((n, t));
            }
        }
        if g.r.chance(if prop == "C03" { 8 } else { 2 }) {
            links.push((join(&fname, ["0dang.hddl", "zdang.pddl"][g.r.below(2)]), "store/nowhere.hddl".into()));
        }
        if g.r.chance(if prop == "C03" { 3 } else { 1 }) {
            // a crowded folder
            let many = if prop == "C03" && g.r.chance(40) { [350, 600, 1300][g.r.below(3)] } else { g.r.range(20, 150) };
            for i in 0..many {
                let t = g.tag();
                let (e, c) = if g.r.chance(70) { ("txt", b"x".to_vec()) } else { ("hddl", gen::junk(&mut g.r, &t).into_bytes()) };
                files.push((join(&fname, &format!("c{i}.{e}")), Some(Blob(c))));
            }
        }
        let decoys = g.r.below(if prop == "C03" { 5 } else if prop == "C04" { 4 } else { 2 });
        for _ in 0..decoys {
            let (n, c): (String, Option<Vec<u8>>) = match g.r.below(13) {
                12 => {
                    let t = g.tag();
                    (["odd.h\u{f8ff}", "\u{f8ff}.txt", "0.\u{f8ff}"][g.r.below(3)].into(), Some(gen::junk(&mut g.r, &t).into_bytes()))
                }
                9 | 10 | 11 => {
                    // what somebody is still writing
                    let t = ["(define (problem pr", "(define (problem pr) (:domain d)", "(define (domain", "(define (domain dd)", "(define (domain dd) (:", "(define", "(define (problem", "(", "; (define (domain dd))", "(define (domain dd))", "(define (problem pp) (:domain dd))"];
                    (["0torn.hddl", "torn.pddl", "ztorn.hddl"][g.r.below(3)].into(), Some(t[g.r.below(t.len())].as_bytes().to_vec()))
                }
                0 => ("aaa.hddl".into(), None),
                1 => {
                    let t = g.tag();
                    (["0.hddl", "junk.pddl", "zzz.hddl"][g.r.below(3)].into(), Some(gen::junk(&mut g.r, &t).into_bytes()))
                }
                2 => {
                    let d = g.dom();
                    (["0domain.txt", "domain", "domain.hddl.bak", "domain.HDDL", "domain.hddl~", "xhddl", "0.ddl", "d.xhddl", "d.hddlx", "0.Pddl", "0.pddl2", "d.pd", "hddl", "d.pddl."][g.r.below(14)].into(), Some(d.render(&mut g.r, false).0.into_bytes()))
                }
                3 => {
                    let d = g.dom();
                    (".hddl".into(), Some(d.render(&mut g.r, false).0.into_bytes()))
                }
                4 => {
                    let d = g.dom();
                    (format!("sub/{}", g.r.pick(&dnames)), Some(d.render(&mut g.r, false).0.into_bytes()))
                }
                5 => ("0problem.hddl".into(), Some(g.problem_text(f).into_bytes())),
                6 => ("empty.hddl".into(), Some(vec![])),
                7 => ("bin.pddl".into(), Some(vec![0xff, 0, 0x28, 0xfe])),
                _ => ("big.hddl".into(), Some(format!("; {}\nnothing", "x".repeat(9000)).into_bytes())),
            };
            let n = join(&fname, &n);
            if !files.iter().any(|x| x.0 == n) {
                files.push((n, c.map(Blob)));
            }
        }
        if !fname.is_empty() && !files.iter().any(|x| x.0.starts_with(&format!("{fname}/"))) {
            files.push((join(&fname, "keep.txt"), Some(Blob(vec![]))));
        }
    }
    // domains nearby that are nobody's business
    if prop == "C14" {
        for n in ["domain.hddl", "d1/sub/domain.hddl", "deep/domain.hddl", "a b/in/x/d.pddl", "lib/domain.hddl", ".hddl/domain.hddl"] {
            if g.r.chance(40) && !files.iter().any(|x| x.0 == n) {
                let d = g.dom();
                files.push((n.into(), Some(Blob(d.render(&mut g.r, false).0.into_bytes()))));
            }
        }
    }
    // a path may not be a file and a directory at once
    let dirs: Vec<String> = files.iter().map(|(p, _)| p.clone()).collect();
    files.retain(|(p, c)| c.is_none() || !dirs.iter().any(|q| q.starts_with(&format!("{p}/"))));
    // -- documents
    // now and then more documents, messages or text than a table or buffer was sized for
    let scale = if prop == "C08" { 0 } else { [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3][g.r.below(40)] };
    if scale > 0 {
        g.size = 1;
        g.same_len = None;
        kn.chunk = 0;
    }
    if scale == 3 {
        g.huge = true;
    }
    let nd = g.r.range(1, 4);
    let mut docs: Vec<Doc> = vec![];
    let pn = ["p.hddl", "P.hddl", "p.pddl", "p1.hddl", "p%20q.hddl", "pr\u{f6}b.hddl", "p.txt", "p", "p.hddl ", "p\u{f8ff}.hddl"];
    for i in 0..nd {
        let f = g.r.below(nf);
        let kind = match prop {
            "C03" => [1, 1, 1, 0][g.r.below(4)],
            "C02" => [0, 0, 1, 1, 2][g.r.below(5)],
            _ => [0, 0, 0, 1, 1, 2][g.r.below(6)],
        };
        let strange = (prop == "C02" && g.r.chance(25)) || g.r.chance(4);
        let (uri, path) = if strange {
            (g.r.pick(&STRANGE).to_string(), None)
        } else {
            // similar names in the same and in other folders; existing domain files too
            let in_f: Vec<&(usize, String)> = domain_files.iter().filter(|d| d.0 == f).collect();
            let p = if !in_f.is_empty() && g.r.chance(if kind == 0 { 50 } else if prop == "C03" { 8 } else { 3 }) { g.r.pick(&in_f).1.clone() } else { join(&g.folders[f].name, pn[g.r.below(if i == 0 { pn.len() } else { 4 })]) };
            if files.iter().any(|x| x.0 == p && x.1.is_none()) {
                continue;
            }
            let u = enc(&mut g.r, &p);
            (u, Some(p))
        };
        if docs.iter().any(|d| d.uri == uri || (path.is_some() && d.path == path)) {
            continue;
        }
        docs.push(Doc { uri, path, folder: f, kind, open: false, version: 0 });
    }
    // a document whose URI differs from that of another in one detail only
    if !docs.is_empty() && g.r.chance(12) {
        let k = g.r.below(docs.len());
        let d = &docs[k];
        let file = d.uri.starts_with(BASE);
        let (uri, path) = match g.r.below(6) {
            0 | 1 if !d.uri.contains(['?', '#']) => (format!("{}{}", d.uri, ["?", "?ref=1", "?a=1&b=%20"][g.r.below(3)]), d.path.clone()),
            2 | 3 if !d.uri.contains('#') => (format!("{}{}", d.uri, ["#", "#L3", "#x?y"][g.r.below(3)]), d.path.clone()),
            4 if file => (d.uri.replacen("file://", "git:", 1), None),
            _ if file => match d.uri.char_indices().filter(|(i, c)| *i >= BASE.len() && c.is_ascii_lowercase()).last() {
                Some((i, c)) if d.path.as_ref().map_or(false, |p| !p.contains('%')) && !d.uri.contains('%') => {
                    (format!("{}%{:02X}{}", &d.uri[..i], c as u32, &d.uri[i + 1..]), d.path.clone())
                }
                _ => (format!("{}?", d.uri), d.path.clone()),
            },
            _ => (format!("{}x", d.uri), None),
        };
        let (folder, kind) = (d.folder, d.kind);
        if !docs.iter().any(|d| d.uri == uri) {
            docs.push(Doc { uri, path, folder, kind, open: false, version: 0 });
        }
    }
    if docs.is_empty() {
        docs.push(Doc { uri: format!("{BASE}only.hddl"), path: Some("only.hddl".into()), folder: 0, kind: 0, open: false, version: 0 });
        g.folders[0].name = g.folders[0].name.clone();
    }
    if scale == 1 {
        let n = if g.r.chance(25) { g.r.range(120, 280) } else { g.r.range(12, 120) };
        for i in 0..n {
            let p = join(&g.folders[0].name.clone(), &format!("many{i}.hddl"));
            docs.push(Doc { uri: enc(&mut g.r, &p), path: None, folder: 0, kind: 0, open: false, version: 0 });
        }
    }
    // a copy of the document exists on disk for most documents
    for d in &docs {
        if let Some(p) = &d.path {
            if g.r.chance(70) && !files.iter().any(|x| x.0 == *p || x.0.starts_with(&format!("{p}/"))) {
                let t = g.text(d.folder, d.kind).into_bytes();
                files.push((p.clone(), Some(Blob(t))));
            }
        }
    }
    // -- the session
    let mut steps: Vec<Step> = vec![];
    let mut next_id = 0i64;
    let mut ids: Vec<Value> = vec![];
    let id_style = g.r.below(4);
    let mut fresh = |r: &mut Rng| -> Value {
        next_id += 1;
        let v = match id_style {
            0 => json!(next_id),
            1 => json!(format!("{next_id}")),
            2 => {
                if r.chance(50) {
                    json!(next_id)
                } else {
                    json!(format!("{}", next_id))
                }
            }
            _ => json!(1_000_000_000i64 - next_id * 7919),
        };
        v
    };
    let pre = prop != "C08" && (prop == "C11" && g.r.chance(40) || g.r.chance(2));
    if pre {
        for _ in 0..g.r.range(1, 3) {
            let d = g.r.below(docs.len());
            match g.r.below(4) {
                0 => {
                    let t = g.text(docs[d].folder, docs[d].kind);
                    steps.push(Step::Open { uri: docs[d].uri.clone(), text: t, version: 1 });
                }
                1 => {
                    let id = fresh(&mut g.r);
                    steps.push(Step::Request { id, method: "textDocument/hover".into(), params: json!({"textDocument": {"uri": docs[d].uri}, "position": {"line": 0, "character": 0}}) })
                }
                _ => {
                    let id = fresh(&mut g.r);
                    steps.push(Step::Diag { id, uri: docs[d].uri.clone() });
                }
            }
        }
        if g.r.chance(50) {
            steps.push(Step::Wait);
        }
    }
    let inited = !(pre && prop == "C11" && g.r.chance(10));
    if inited {
        let id = fresh(&mut g.r);
        steps.push(Step::Initialize(if g.r.chance(60) { json!({"id": id, "params": init_params(&mut g.r)}) } else { id }));
        steps.push(Step::Wait);
        steps.push(Step::Initialized);
    }
    let total = match prop {
        "C11" => g.r.range(0, 16),
        "C04" => g.r.range(6, 36),
        _ => g.r.range(4, 26),
    };
    let total = if scale == 2 { g.r.range(60, 260) } else { total };
    if scale == 1 {
        // all of them are opened before anything else is asked
        for d in docs.iter_mut() {
            let text = g.text(d.folder, d.kind);
            d.open = true;
            steps.push(Step::Open { uri: d.uri.clone(), text, version: 0 });
        }
    }
    let burst = g.r.chance(30); // syncs and requests on one document back to back
    let mut focus = g.r.below(docs.len());
    let ws = [wt.change, wt.multi, wt.empty, wt.save_text, wt.save, wt.reopen, wt.close, wt.diag, wt.cancel, wt.request, wt.notify, wt.garbage, wt.disk, wt.wait];
    let sum: u32 = ws.iter().sum();
    let mut made = 0;
    while made < total {
        made += 1;
        if !burst || g.r.chance(15) {
            focus = g.r.below(docs.len());
        }
        let d = focus;
        let (uri, folder, kind) = (docs[d].uri.clone(), docs[d].folder, docs[d].kind);
        if !docs[d].open && g.r.chance(85) {
            let text = g.text(folder, kind);
            docs[d].open = true;
            docs[d].version = g.r.below(3) as i64;
            steps.push(Step::Open { uri, text, version: docs[d].version });
            continue;
        }
        let mut x = g.r.below(sum as usize) as u32;
        let mut op = 0;
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                op = i;
                break;
            }
            x -= *w;
        }
        // versions are usually increasing, but nothing in the statement depends on them
        docs[d].version = match g.r.below(12) {
            0 => 0,
            1 => -1,
            2 => docs[d].version,
            3 => docs[d].version - 1,
            _ => docs[d].version + 1,
        };
        let version = docs[d].version;
        match op {
            0 => {
                let t = if g.r.chance(3) { String::new() } else { g.text(folder, kind) };
                steps.push(Step::Change { uri, texts: vec![t], version });
            }
            1 => {
                let n = g.r.range(2, 3);
                let texts = (0..n).map(|_| g.text(folder, kind)).collect();
                steps.push(Step::Change { uri, texts, version });
            }
            2 => steps.push(Step::Change { uri, texts: vec![], version }),
            3 => {
                let text = g.text(folder, kind);
                steps.push(Step::SaveText { uri, text });
            }
            4 => {
                if let Some(p) = &docs[d].path {
                    match g.r.below(10) {
                        0..=6 => {
                            let t = g.text(folder, kind).into_bytes();
                            steps.push(Step::Disk(if g.r.chance(70) { DiskOp::Replace(p.clone(), Blob(t)) } else { DiskOp::Write(p.clone(), Blob(t)) }));
                        }
                        7 => steps.push(Step::Disk(DiskOp::Remove(p.clone()))),
                        _ => {}
                    }
                }
                steps.push(Step::Save { uri });
            }
            5 => {
                let text = g.text(folder, kind);
                steps.push(Step::Open { uri, text, version });
            }
            6 => {
                steps.push(Step::Close { uri });
                docs[d].open = false;
            }
            7 => {
                let n = if g.r.chance(if prop == "C04" { 40 } else { 15 }) { g.r.range(2, 6) } else { 1 };
                for _ in 0..n {
                    let id = fresh(&mut g.r);
                    ids.push(id.clone());
                    let u = if g.r.chance(3) { format!("{BASE}never/opened.hddl") } else { uri.clone() };
                    steps.push(Step::Diag { id, uri: u });
                }
            }
            8 => {
                if let Some(id) = ids.last().cloned() {
                    let id = if g.r.chance(70) {
                        id
                    } else if g.r.chance(80) {
                        g.r.pick(&ids).clone()
                    } else {
                        json!("no such id")
                    };
                    steps.push(Step::Cancel { id });
                }
            }
            9 => {
                let id = fresh(&mut g.r);
                let (m, p) = match g.r.below(if inited { 9 } else { 8 }) {
                    0 => ("textDocument/hover", json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}})),
                    1 => ("no/such/method", json!({})),
                    2 => ("textDocument/diagnostic", json!({"nothing": 1})),
                    3 => ("textDocument/diagnostic", json!({"textDocument": {"uri": "not a uri"}})),
                    4 => ("workspace/diagnostic", json!({"previousResultIds": []})),
                    5 => ("textDocument/diagnostic", Value::Null),
                    6 => ("textDocument/diagnostic", json!({"textDocument": {"uri": uri}, "identifier": 5})),
                    7 => ("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})),
                    _ => ("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}})),
                };
                steps.push(Step::Request { id, method: m.into(), params: p });
            }
            10 => {
                let (m, p) = match g.r.below(7) {
                    0 => ("no/such/notification", json!({})),
                    1 => ("$/setTrace", json!({"value": "off"})),
                    2 => ("textDocument/didChange", json!({"textDocument": {"uri": uri}, "contentChanges": [{"text": "x"}]})),
                    3 => ("textDocument/didOpen", json!({"textDocument": {"uri": ":::", "languageId": "hddl", "version": 1, "text": "x"}})),
                    4 => ("textDocument/didSave", json!([])),
                    5 => ("workspace/didChangeConfiguration", json!({"settings": {}})),
                    _ => ("textDocument/willSave", json!({"textDocument": {"uri": uri}, "reason": 1})),
                };
                steps.push(Step::Notify { method: m.into(), params: p });
            }
            11 => {
                // a response nobody asked for; undecodable frames end the session by design of tower-lsp
                let s = ["{\"jsonrpc\":\"2.0\",\"id\":99999,\"result\":null}", "{\"jsonrpc\":\"2.0\",\"id\":\"x\",\"error\":{\"code\":-32601,\"message\":\"no\"}}"][g.r.below(2)];
                steps.push(Step::Garbage(s.into()));
            }
            12 => {
                let f = if g.r.chance(80) { folder } else { g.r.below(nf) };
                let fname = g.folders[f].name.clone();
                let in_f: Vec<String> = domain_files.iter().filter(|x| x.0 == f).map(|x| x.1.clone()).collect();
                let target = if !in_f.is_empty() && g.r.chance(75) { g.r.pick(&in_f).clone() } else { join(&fname, g.r.pick(&dnames)) };
                if files.iter().any(|x| x.0.starts_with(&format!("{target}/"))) {
                    continue;
                }
                let op = match g.r.below(12) {
                    0..=3 if !g.folders[f].doms.is_empty() => {
                        let b = Blob(g.disk_domain(f));
                        if !domain_files.iter().any(|x| x.1 == target) {
                            domain_files.push((f, target.clone()));
                        }
                        if g.r.chance(70) {
                            DiskOp::Replace(target, b)
                        } else {
                            DiskOp::Write(target, b)
                        }
                    }
                    4 | 5 => DiskOp::Remove(target),
                    6 => DiskOp::Rename(target, join(&fname, g.r.pick(&dnames))),
                    7 => DiskOp::Rename(target, join(&fname, "moved.txt")),
                    8 => DiskOp::Mkdir(join(&fname, g.r.pick(&["aa.hddl", "b.pddl"]))),
                    9 => DiskOp::Truncate(target, g.r.below(200) as u64),
                    10 => DiskOp::Append(target, Blob(b"\n; appended\n".to_vec())),
                    _ => {
                        let t = g.tag();
                        DiskOp::Write(join(&fname, "later.hddl"), Blob(gen::junk(&mut g.r, &t).into_bytes()))
                    }
                };
                if let DiskOp::Rename(_, b) = &op {
                    if files.iter().any(|x| x.0 == *b && x.1.is_none() || x.0.starts_with(&format!("{b}/"))) {
                        continue;
                    }
                }
                steps.push(Step::Disk(op));
            }
            _ => steps.push(Step::Wait),
        }
        if prop == "C08" {
            steps.push(Step::Wait);
        }
    }
    // requests after the last syncs decide the most
    if !matches!(prop, "C11") {
        let late = g.r.fork();
        let mut order: Vec<usize> = (0..docs.len()).filter(|d| docs[*d].open).collect();
        if scale == 1 {
            let mut late = late;
            for i in (1..order.len()).rev() {
                order.swap(i, late.below(i + 1));
            }
            order.truncate(60);
        }
        for d in order.into_iter().map(|d| &docs[d]) {
            if g.r.chance(60) {
                let id = fresh(&mut g.r);
                steps.push(Step::Diag { id, uri: d.uri.clone() });
                if prop == "C08" {
                    steps.push(Step::Wait);
                }
            }
        }
    }
    if (prop == "C11" && g.r.chance(45)) || (prop != "C08" && g.r.chance(3)) {
        let id = fresh(&mut g.r);
        if g.r.chance(50) {
            steps.push(Step::Wait);
        }
        steps.push(Step::Shutdown { id });
        if g.r.chance(70) {
            steps.push(Step::Wait);
            for _ in 0..g.r.below(3) {
                let d = g.r.below(docs.len());
                if g.r.chance(70) {
                    let id = fresh(&mut g.r);
                    steps.push(Step::Diag { id, uri: docs[d].uri.clone() });
                } else {
                    let t = g.text(docs[d].folder, docs[d].kind);
                    steps.push(Step::Change { uri: docs[d].uri.clone(), texts: vec![t], version: 9 });
                }
            }
        }
        if g.r.chance(50) {
            steps.push(Step::Exit);
        }
    }
    if prop == "C11" && g.r.chance(15) {
        // the client no longer reads: everything after these bytes is refused
        kn.gone = [g.r.range(1, 900), g.r.range(1, 4000)][g.r.below(2)] as u32;
    }
    if prop == "C11" && g.r.chance(70) {
        // the client disappears: between or inside messages
        let at = if g.r.chance(60) { steps.len() } else { g.r.below(steps.len() + 1) };
        let n = if g.r.chance(50) || at == steps.len() { 0 } else { g.r.range(1, 400) as u32 };
        steps.insert(at, Step::Eof(n));
    }
    if prop == "C08" {
        // a file that changes while a save is being handled makes the answer depend on the schedule
        steps.retain(|s| !matches!(s, Step::Disk(_)));
    }
    // verdicts of the problems against every good rendering of their domain
    for (f, k, h, e) in &g.problems {
        for (k2, dh) in &g.folders[*f].good {
            if k == k2 {
                g.known.push((*dh, *h, e.clone()));
            }
        }
    }
    let bytes: usize = steps.iter().map(|s| s_len(s)).sum();
    if kn.chunk > 0 {
        kn.chunk = kn.chunk.max((bytes / 1200) as u32);
    }
    let pd = g.dom();
    let def = g.r.chance(50);
    let probe = pd.render(&mut g.r, def);
    LspScenario { knobs: kn, files, steps, known: g.known, probe, links }
}

/// the same round of work over and over, with new text every time; nothing may pile up
pub fn rounds(r: &mut Rng) -> LspScenario {
    let mut kr = r.fork();
    let faulty = kr.chance(70);
    let mut kn = knobs(&mut kr, faulty);
    kn.census = true;
    kn.chunk = if kn.chunk < 900 { 0 } else { kn.chunk };
    let mut g = G {
        r: r.fork(), known: vec![], n: 0, same_len: None, defect_pct: 50, damage_pct: 15, multi_pct: 0, huge: false, size: 1, folders: vec![], problems: vec![],
    };
    let dom = g.dom();
    let fname = ["", "d1", "a b"][g.r.below(3)].to_string();
    let join = |n: &str| if fname.is_empty() { n.to_string() } else { format!("{fname}/{n}") };
    g.folders.push(Folder { name: fname.clone(), doms: vec![dom], good: vec![] });
    let mut files: Vec<(String, Option<Blob>)> = vec![];
    let has_dom = g.r.chance(85);
    if has_dom {
        files.push((join("domain.hddl"), Some(Blob(g.disk_domain(0)))));
    }
    if g.r.chance(30) {
        files.push((join("aaa.hddl"), if g.r.chance(50) { None } else { Some(Blob(b"junk".to_vec())) }));
    }
    files.push((join("p.hddl"), Some(Blob(b"(define (domain x))".to_vec()))));
    let nd = g.r.range(1, 3);
    let docs: Vec<(String, u8, String)> = (0..nd).map(|i| {
        let p = join(["p.hddl", "q.hddl", "domain.hddl"][i]);
        (enc(&mut g.r, &p), [1, g.r.below(3) as u8, 0][i], p)
    }).collect();
    let finals: Vec<String> = docs.iter().map(|d| g.text(0, d.1)).collect();
    // the plan of one round
    // many short rounds show what grows in leaps only, few long ones what grows a little
    let long = g.r.chance(12);
    let plan: Vec<(usize, usize, String)> = (0..if long { g.r.range(1, 4) } else { g.r.range(3, 12) }).map(|_| {
        let d = g.r.below(nd);
        (g.r.below(14), d, g.text(0, docs[d].1))
    }).collect();
    let mut steps = vec![Step::Initialize(json!(0)), Step::Wait, Step::Initialized];
    for d in 0..nd {
        steps.push(Step::Open { uri: docs[d].0.clone(), text: finals[d].clone(), version: 0 });
    }
    let n = if long { g.r.range(120, 160) } else { g.r.range(10, 14) };
    let mut id = 0;
    for k in 0..n {
        let mut last = None;
        for (op, d, text) in &plan {
            let uri = docs[*d].0.clone();
            let text = format!("{text}\n; round {k:06}\n");
            match op {
                0 | 1 | 2 => steps.push(Step::Change { uri, texts: vec![text], version: k as i64 }),
                3 => steps.push(Step::SaveText { uri, text }),
                4 => {
                    steps.push(Step::Disk(DiskOp::Replace(docs[*d].2.clone(), Blob(text.into_bytes()))));
                    steps.push(Step::Save { uri });
                }
                5 => steps.push(Step::Close { uri }),
                6 => {
                    if let Some(l) = &last {
                        steps.push(Step::Cancel { id: json!(l) });
                    }
                }
                7 => {
                    id += 1;
                    steps.push(Step::Diag { id: json!(id), uri: format!("{BASE}never/opened{k:06}.hddl") });
                }
                8 => {
                    id += 1;
                    steps.push(Step::Request { id: json!(id), method: format!("no/such/method{k:06}"), params: json!({"text": text}) });
                }
                9 => steps.push(Step::Notify { method: format!("no/such/note{k:06}"), params: json!({"text": text}) }),
                10 if has_dom => {
                    let b = g.folders[0].doms[0].render(&mut g.r, false).0;
                    steps.push(Step::Disk(DiskOp::Replace(join("domain.hddl"), Blob(b.into_bytes()))));
                }
                _ => {
                    id += 1;
                    last = Some(id);
                    steps.push(Step::Diag { id: json!(id), uri });
                }
            }
        }
        steps.push(Step::Wait);
        for d in 0..nd {
            steps.push(Step::Open { uri: docs[d].0.clone(), text: finals[d].clone(), version: 0 });
        }
        steps.push(Step::Leap(30_000));
        steps.push(Step::Mark);
    }
    let pd = g.dom();
    let probe = pd.render(&mut g.r, false);
    LspScenario { knobs: kn, files, steps, known: vec![], probe, links: vec![] }
}

/// files of one folder hang while other documents are asked about
pub fn stalls(r: &mut Rng) -> LspScenario {
    let mut kr = r.fork();
    let faulty = kr.chance(60);
    let mut kn = knobs(&mut kr, faulty);
    kn.workers = [1, 1, 2, 3][kr.below(4)];
    let mut g = G {
        r: r.fork(), known: vec![], n: 0, same_len: None, defect_pct: 50, damage_pct: 10, multi_pct: 0, huge: false, size: 1, folders: vec![], problems: vec![],
    };
    let names = ["slow", "fast", "deep/er", "a b"];
    for n in names {
        let d = g.dom();
        g.folders.push(Folder { name: n.into(), doms: vec![d], good: vec![] });
    }
    let mut files: Vec<(String, Option<Blob>)> = vec![];
    for (f, n) in names.iter().enumerate() {
        if g.r.chance(85) {
            let b = g.disk_domain(f);
            files.push((format!("{n}/domain.hddl"), Some(Blob(b))));
        } else {
            files.push((format!("{n}/note.txt"), Some(Blob(vec![]))));
        }
        if g.r.chance(40) {
            files.push((format!("{n}/aaa.hddl"), Some(Blob(b"junk".to_vec()))));
        }
        if g.r.chance(20) {
            files.push((format!("{n}/p.hddl"), Some(Blob(b"(define (domain x))".to_vec()))));
        }
    }
    // (uri, folder, kind)
    let mut docs: Vec<(String, usize)> = vec![];
    let mut steps = vec![Step::Initialize(json!(0)), Step::Wait, Step::Initialized];
    for i in 0..g.r.range(2, 6) {
        let f = if i == 0 { 0 } else { g.r.below(names.len()) };
        let kind = if i == 0 { 1 } else { g.r.below(3) as u8 };
        let path = format!("{}/doc{i}.hddl", names[f]);
        let uri = if g.r.chance(8) && i > 0 { format!("untitled:Untitled-{i}") } else { enc(&mut g.r, &path) };
        let text = g.text(f, kind);
        steps.push(Step::Open { uri: uri.clone(), text, version: 0 });
        docs.push((uri, f));
    }
    let mut id = 0;
    let mut next = |steps: &mut Vec<Step>, uri: &str| {
        id += 1;
        steps.push(Step::Diag { id: json!(id), uri: uri.into() });
        id
    };
    for round in 0..g.r.range(1, 4) {
        let what = match g.r.below(4) {
            0 | 1 => "slow".to_string(),
            2 => "slow/domain.hddl".into(),
            _ => "slow/aaa.hddl".into(),
        };
        steps.push(Step::Stall(what));
        // no more than three hanging at a time: the fourth place stays free
        let mut room = 3;
        let mut hung = vec![];
        for k in 0..g.r.range(2, 12) {
            let d = if k == 0 { 0 } else { g.r.below(docs.len()) };
            match g.r.below(12) {
                0 if k > 0 => {
                    let n = 9000 + round * 100 + k;
                    steps.push(Step::Request { id: json!(n), method: "no/such/method".into(), params: json!({}) });
                }
                1 if k > 0 => {
                    next(&mut steps, &format!("{BASE}slow/never-opened{k}.hddl"));
                }
                2 if !hung.is_empty() => {
                    let h = hung.remove(g.r.below(hung.len()));
                    steps.push(Step::Cancel { id: json!(h) });
                    if g.r.chance(50) {
                        steps.push(Step::Settle([0, 200, 20_000][g.r.below(3)]));
                        room += 1;
                    }
                }
                3 => steps.push(Step::Settle([0, 200, 20_000][g.r.below(3)])),
                4 => steps.push(Step::Notify { method: "no/such/note".into(), params: json!({}) }),
                _ => {
                    if docs[d].1 == 0 {
                        if room == 0 {
                            continue;
                        }
                        room -= 1;
                        let n = next(&mut steps, &docs[d].0);
                        hung.push(n);
                    } else {
                        next(&mut steps, &docs[d].0);
                    }
                }
            }
        }
        steps.push(Step::Settle(20_000));
        steps.push(Step::Settle(20_000));
        steps.push(Step::Unstall);
        if g.r.chance(70) {
            steps.push(Step::Wait);
            if g.r.chance(60) {
                let d = g.r.below(docs.len());
                let text = g.text(docs[d].1, 1);
                steps.push(Step::Change { uri: docs[d].0.clone(), texts: vec![text], version: 1 });
                next(&mut steps, &docs[d].0);
            }
        }
        steps.push(Step::Wait);
    }
    let pd = g.dom();
    let probe = pd.render(&mut g.r, false);
    let known = std::mem::take(&mut g.known);
    LspScenario { knobs: kn, files, steps, known, probe, links: vec![] }
}

fn s_len(s: &Step) -> usize {
    match s {
        Step::Open { text, .. } | Step::SaveText { text, .. } => text.len() + 200,
        Step::Change { texts, .. } => texts.iter().map(|t| t.len()).sum::<usize>() + 200,
        _ => 150,
    }
}
