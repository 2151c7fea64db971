//! Editor sessions: the real language server, a scripted client, a disk other processes change.
use crate::choice::{hash, Choices, Rng};
use crate::gen::{self, Class, Expect};
use crate::oracle::{Oracle, Report, Verdict};
use crate::sim::*;
use crate::sys::{os, un, Proc, Scratch, SpawnCfg};
use crate::run::{Env, Outcome, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskOp {
    Write(String, Blob),
    /// replaced atomically by another file
    Replace(String, Blob),
    Remove(String),
    Rename(String, String),
    Mkdir(String),
    /// a file cut down to this many bytes
    Truncate(String, u64),
    Append(String, Blob),
}

/// bytes that stay readable in replay files
#[derive(Clone, Debug, PartialEq)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(t),
            Err(_) => json!({"hex": crate::oracle::hex(&self.0)}).serialize(s),
        }
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Value::deserialize(d)?;
        Ok(Blob(match v {
            Value::String(s) => s.into_bytes(),
            v => {
                let s = v["hex"].as_str().unwrap_or("").to_string();
                (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
            }
        }))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// the id, or {id, params}
    Initialize(Value),
    Initialized,
    Open { uri: String, text: String, version: i64 },
    Change { uri: String, texts: Vec<String>, version: i64 },
    SaveText { uri: String, text: String },
    Save { uri: String },
    Close { uri: String },
    Diag { id: Value, uri: String },
    Cancel { id: Value },
    Request { id: Value, method: String, params: Value },
    Notify { method: String, params: Value },
    Shutdown { id: Value },
    Exit,
    /// a frame whose body is not a valid message
    Garbage(String),
    Disk(DiskOp),
    /// the client waits for all its replies
    Wait,
    /// this many milliseconds pass
    Leap(u64),
    /// once nothing can run any more, what the process holds is noted
    Mark,
    /// file operations below this path hang from now on
    Stall(String),
    /// nothing can run any more; this many milliseconds pass
    Settle(u64),
    /// nothing can run any more; what has no reply yet is noted, and hanging operations go on
    Unstall,
    /// the stream ends after this many bytes of the next message (0: cleanly)
    Eof(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LspScenario {
    pub knobs: Knobs,
    pub files: Vec<(String, Option<Blob>)>,
    pub steps: Vec<Step>,
    /// verdicts known by construction: (domain hash, problem hash or 0)
    pub known: Vec<(u64, u64, Expect)>,
    pub probe: (String, Expect),
    /// (name, where it points to)
    #[serde(default)]
    pub links: Vec<(String, String)>,
}

pub const BASE: &str = "file:///proc/self/cwd/";

pub fn enc(r: &mut Rng, path: &str) -> String {
    let mut s = String::from(BASE);
    use std::os::unix::ffi::OsStrExt;
    for b in os(path).as_bytes() {
        let b = *b;
        let plain = b.is_ascii_alphanumeric() || matches!(b, b'/' | b'.' | b'_' | b'-');
        if plain && !(b.is_ascii_alphanumeric() && r.chance(1)) {
            s.push(b as char);
        } else if r.chance(50) {
            s.push_str(&format!("%{b:02x}"));
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}
/// path below the scratch directory a file URI stands for
pub fn uri_path(uri: &str) -> Option<String> {
    // neither a query nor a fragment belongs to the path
    let p = uri.strip_prefix(BASE)?.split(['?', '#']).next()?;
    let b = p.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&p[i + 1..i + 3], 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    Some(un(&v))
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(i) => p[..i].to_string(),
        None => ".".into(),
    }
}
pub fn norm(p: &str) -> String {
    p.strip_prefix("./").unwrap_or(p).to_string()
}
/// the file of a document as `plain` names it: below the scratch directory, or `!` and an absolute path
pub fn target(uri: &str) -> Option<String> {
    let p = uri.strip_prefix("file://")?.split(['?', '#']).next()?;
    if !p.starts_with('/') {
        return None;
    }
    let p = uri_path(&format!("{BASE}{p}"))?;
    let c: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    Some(match c.strip_prefix(&["proc", "self", "cwd"]) {
        Some(c) => plain(&c.join("/")),
        None => format!("!/{}", c.join("/")),
    })
}
/// the folder of such a file
fn above(p: &str) -> Option<String> {
    match p.strip_prefix("!/") {
        Some("") => None,
        Some(q) => Some(format!("!/{}", q.rsplit_once('/').map_or("", |x| x.0))),
        None if p.starts_with('!') => None,
        None if p.is_empty() => Some("!/proc/self".into()),
        None => Some(p.rsplit_once('/').map_or("", |x| x.0).to_string()),
    }
}
/// without . and .. components
pub fn plain(p: &str) -> String {
    if p.starts_with('!') {
        return p.to_string();
    }
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if v.pop().is_none() => return format!("!{p}"),
            ".." => {}
            c => v.push(c),
        }
    }
    v.join("/")
}
fn has_ext(p: &str) -> bool {
    let name = p.rsplit('/').next().unwrap_or("");
    match name.rfind('.') {
        Some(0) | None => false,
        Some(i) => matches!(&name[i + 1..], "hddl" | "pddl"),
    }
}

// ------------------------------------------------------------------------------------ running

#[derive(Clone, Debug)]
struct Sent {
    step: usize,
    seq: u64,
}
#[derive(Clone, Debug)]
struct Msg {
    seq: u64,
    v: Value,
}

/// content of the disk over time as the world outside made it
#[derive(Clone, Default)]
pub struct DiskModel {
    /// (seq, None = absent / Some(None) = directory / Some(Some(bytes)))
    hist: BTreeMap<String, Vec<(u64, Option<Option<Vec<u8>>>)>>,
    /// symbolic links, held to have the content of their (constant) targets
    links: BTreeSet<String>,
}
impl DiskModel {
    fn set(&mut self, seq: u64, p: &str, c: Option<Option<Vec<u8>>>) {
        self.hist.entry(p.to_string()).or_default().push((seq, c));
    }
    fn parents(&mut self, seq: u64, p: &str) {
        let mut q = parent(p);
        while q != "." && self.at(&q, seq).is_none() {
            self.set(seq, &q, Some(None));
            q = parent(&q);
        }
    }
    fn at(&self, p: &str, seq: u64) -> Option<Option<Vec<u8>>> {
        self.hist.get(p).and_then(|h| h.iter().rev().find(|(s, _)| *s <= seq).and_then(|(_, c)| c.clone()))
    }
    fn changed(&self, p: &str, from: u64, to: u64) -> bool {
        self.hist.get(p).map_or(false, |h| h.iter().any(|(s, _)| *s >= from && *s <= to))
    }
    /// a file that exists from the start, with its parent directories
    pub fn add(&mut self, p: &str, c: Option<Vec<u8>>) {
        let mut q = parent(p);
        while q != "." && self.at(&q, 0).is_none() {
            self.set(0, &q, Some(None));
            q = parent(&q);
        }
        self.set(0, p, Some(c));
    }
    pub fn apply(&mut self, op: &DiskOp, s: &mut State) {
        let seq = s.seq;
        let root = s.root.clone();
        match op {
            DiskOp::Write(p, _) | DiskOp::Truncate(p, _) | DiskOp::Append(p, _) if self.links.remove(p) => {
                let _ = std::fs::remove_file(root.join(os(p)));
                if let Some(Some(c)) = self.at(p, seq) {
                    put(&root, p, &Some(c));
                }
            }
            DiskOp::Replace(p, _) | DiskOp::Remove(p) => {
                self.links.remove(p);
            }
            DiskOp::Rename(a, b) => {
                if let (Some(Some(_)), false) = (self.at(a, seq), self.at(b, seq) == Some(None)) {
                    if self.links.remove(a) {
                        self.links.insert(b.clone());
                    } else {
                        self.links.remove(b);
                    }
                }
            }
            _ => {}
        }
        match op {
            DiskOp::Write(p, b) => {
                if self.at(p, seq) == Some(None) {
                    return;
                }
                put(&root, p, &Some(b.0.clone()));
                self.parents(seq, p);
                self.set(seq, p, Some(Some(b.0.clone())));
            }
            DiskOp::Replace(p, b) => {
                if self.at(p, seq) == Some(None) {
                    return;
                }
                let tmp = root.join(".tmp-replace");
                let _ = std::fs::write(&tmp, &b.0);
                let _ = std::fs::create_dir_all(root.join(os(&parent(p))));
                let _ = std::fs::rename(&tmp, root.join(os(p)));
                self.parents(seq, p);
                self.set(seq, p, Some(Some(b.0.clone())));
            }
            DiskOp::Remove(p) => {
                let f = root.join(os(p));
                if self.at(p, seq) == Some(None) {
                    let _ = std::fs::remove_dir(&f);
                } else {
                    let _ = std::fs::remove_file(&f);
                }
                self.set(seq, p, None);
            }
            DiskOp::Rename(a, b) => {
                if let Some(Some(c)) = self.at(a, seq) {
                    if self.at(b, seq) == Some(None) {
                        return;
                    }
                    let _ = std::fs::create_dir_all(root.join(os(&parent(b))));
                    let _ = std::fs::rename(root.join(os(a)), root.join(os(b)));
                    self.set(seq, a, None);
                    self.parents(seq, b);
                    self.set(seq, b, Some(Some(c)));
                }
            }
            DiskOp::Mkdir(p) => {
                if self.at(p, seq).is_none() {
                    put(&root, p, &None);
                    self.set(seq, p, Some(None));
                }
            }
            DiskOp::Truncate(p, n) => {
                if let Some(Some(mut c)) = self.at(p, seq) {
                    c.truncate(*n as usize);
                    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(root.join(os(p))) {
                        let _ = f.set_len(c.len() as u64);
                    }
                    self.set(seq, p, Some(Some(c)));
                }
            }
            DiskOp::Append(p, b) => {
                if let Some(Some(mut c)) = self.at(p, seq) {
                    c.extend_from_slice(&b.0);
                    use std::io::Write;
                    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(root.join(os(p))) {
                        let _ = f.write_all(&b.0);
                    }
                    self.set(seq, p, Some(Some(c)));
                }
            }
        }
        s.fault("external file change");
    }
    pub fn now(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        self.hist.iter().filter_map(|(p, h)| h.last().and_then(|(_, c)| c.clone()).map(|c| (p.clone(), c))).collect()
    }
}

pub fn put(root: &Path, p: &str, c: &Option<Vec<u8>>) {
    let f = root.join(os(p));
    if let Some(d) = f.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    match c {
        Some(b) => {
            let _ = std::fs::write(&f, b);
        }
        None => {
            let _ = std::fs::create_dir_all(&f);
        }
    }
}

struct LspWorld<'a> {
    sc: &'a LspScenario,
    pos: usize,
    sent: Vec<Sent>,
    parsed: usize,
    msgs: Vec<Msg>,
    frame_err: Option<String>,
    open_ids: Vec<(Value, u64)>,
    /// those without a reply so far
    pending: Vec<(Value, u64)>,
    disk: DiskModel,
    phase: u8,
    wedged: Option<u64>,
    probe: Option<u64>,
    eof_seq: Option<u64>,
    eof_outstanding: usize,
    initialized: bool,
    shut: bool,
    headers: Rng,
    marks: Vec<(i64, usize, Vec<String>)>,
    /// (when, what hung, requests without a reply)
    late: Vec<(u64, Vec<String>, Vec<(Value, u64)>)>,
}

fn frame(r: &mut Rng, v: &str) -> Vec<u8> {
    let mut s = Vec::new();
    if r.chance(10) {
        s.extend_from_slice(format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", v.len()).as_bytes());
    } else {
        s.extend_from_slice(format!("Content-Length: {}\r\n\r\n", v.len()).as_bytes());
    }
    s.extend_from_slice(v.as_bytes());
    s
}

impl<'a> LspWorld<'a> {
    fn body(step: &Step) -> Option<String> {
        let n = |m: &str, p: Value| Some(json!({"jsonrpc": "2.0", "method": m, "params": p}).to_string());
        match step {
            Step::Initialize(v) if v.is_object() => Some(json!({"jsonrpc": "2.0", "id": v["id"], "method": "initialize", "params": v["params"]}).to_string()),
            Step::Initialize(id) => Some(json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}}).to_string()),
            Step::Initialized => n("initialized", json!({})),
            Step::Open { uri, text, version } => n("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "hddl", "version": version, "text": text}})),
            Step::Change { uri, texts, version } => {
                let c: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
                n("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": c}))
            }
            Step::SaveText { uri, text } => n("textDocument/didSave", json!({"textDocument": {"uri": uri}, "text": text})),
            Step::Save { uri } => n("textDocument/didSave", json!({"textDocument": {"uri": uri}})),
            Step::Close { uri } => n("textDocument/didClose", json!({"textDocument": {"uri": uri}})),
            Step::Diag { id, uri } => Some(json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/diagnostic", "params": {"textDocument": {"uri": uri}}}).to_string()),
            Step::Cancel { id } => n("$/cancelRequest", json!({"id": id})),
            Step::Request { id, method, params } => Some(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string()),
            Step::Notify { method, params } => n(method, params.clone()),
            Step::Shutdown { id } => Some(json!({"jsonrpc": "2.0", "id": id, "method": "shutdown"}).to_string()),
            Step::Exit => Some(json!({"jsonrpc": "2.0", "method": "exit"}).to_string()),
            Step::Garbage(s) => Some(s.clone()),
            Step::Disk(_) | Step::Wait | Step::Leap(_) | Step::Mark | Step::Stall(_) | Step::Settle(_) | Step::Unstall | Step::Eof(_) => None,
        }
    }
    fn id(step: &Step) -> Option<&Value> {
        match step {
            Step::Initialize(v) if v.is_object() => Some(&v["id"]),
            Step::Initialize(id) | Step::Diag { id, .. } | Step::Request { id, .. } | Step::Shutdown { id } => Some(id),
            _ => None,
        }
    }
    fn describe(step: &Step) -> String {
        let short = |t: &str| format!("{} bytes #{:08x}", t.len(), hash(t.as_bytes()) as u32);
        match step {
            Step::Open { uri, text, .. } => format!("didOpen {uri} {}", short(text)),
            Step::Change { uri, texts, .. } => format!("didChange {uri} {}", texts.iter().map(|t| short(t)).collect::<Vec<_>>().join(", ")),
            Step::SaveText { uri, text } => format!("didSave {uri} {}", short(text)),
            Step::Disk(DiskOp::Write(p, b)) | Step::Disk(DiskOp::Replace(p, b)) | Step::Disk(DiskOp::Append(p, b)) => format!("disk: {p} written, {} bytes #{:08x}", b.0.len(), hash(&b.0) as u32),
            s => format!("{s:?}"),
        }
    }
    fn send(&mut self, step: &Step, s: &mut State) {
        if let Some(b) = Self::body(step) {
            let f = frame(&mut self.headers, &b);
            s.in_total += f.len() as u64;
            s.inq.extend(f);
            if let Some(id) = Self::id(step) {
                self.open_ids.push((id.clone(), s.seq));
                self.pending.push((id.clone(), s.seq));
            }
        }
    }
    fn outstanding(&self) -> usize {
        self.pending.len()
    }
    fn parse(&mut self, s: &mut State) {
        while self.frame_err.is_none() {
            let b = &s.out[self.parsed..];
            if b.is_empty() {
                return;
            }
            // header block
            let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(e) => e,
                None => {
                    let ok = b.len() < 200 && b.iter().all(|c| (32..127).contains(c) || *c == b'\r' || *c == b'\n') && b"Content-".starts_with(&b[..b.len().min(8)]);
                    if !ok {
                        self.frame_err = Some(format!("bytes outside a message: {:?}", String::from_utf8_lossy(&b[..b.len().min(120)])));
                    }
                    return;
                }
            };
            let head = String::from_utf8_lossy(&b[..end]).into_owned();
            let mut len = None;
            for l in head.split("\r\n") {
                match l.split_once(": ") {
                    Some(("Content-Length", n)) if len.is_none() => len = n.parse::<usize>().ok(),
                    Some(("Content-Type", _)) => {}
                    _ => {
                        self.frame_err = Some(format!("bad header {:?}", &head[..head.len().min(120)]));
                        return;
                    }
                }
            }
            let n = match len {
                Some(n) => n,
                None => {
                    self.frame_err = Some(format!("header without length {:?}", &head[..head.len().min(120)]));
                    return;
                }
            };
            if b.len() < end + 4 + n {
                return;
            }
            let body = b[end + 4..end + 4 + n].to_vec();
            self.parsed += end + 4 + n;
            match serde_json::from_slice::<Value>(&body) {
                Ok(v) if v["jsonrpc"] == "2.0" => {
                    if v.get("method").is_none() {
                        self.pending.retain(|(id, q)| s.seq < *q || v["id"] != *id);
                    }
                    self.msgs.push(Msg { seq: s.seq, v });
                }
                _ => self.frame_err = Some(format!("message is not JSON-RPC: {:?}", String::from_utf8_lossy(&body[..body.len().min(120)]))),
            }
        }
    }
}
impl<'a> World for LspWorld<'a> {
    fn ready(&self, s: &State) -> bool {
        match self.sc.steps.get(self.pos) {
            Some(Step::Wait) => self.outstanding() == 0,
            Some(Step::Settle(_)) | Some(Step::Unstall) => s.rest,
            Some(Step::Leap(_)) | Some(Step::Mark) => s.rest && self.outstanding() == 0,
            Some(_) => true,
            None => false,
        }
    }
    fn step(&mut self, s: &mut State) {
        let sc = self.sc;
        let step = &sc.steps[self.pos];
        s.log(format!("client: {}", Self::describe(step)));
        match step {
            Step::Wait => {}
            Step::Leap(ms) => {
                s.now += ms * 1_000_000;
                s.fault("clock leap");
            }
            Step::Stall(p) => {
                s.stalled.push(p.clone());
                s.fault("hanging file operations");
            }
            Step::Settle(ms) => s.now += ms * 1_000_000,
            Step::Unstall => {
                if !s.stalled.is_empty() {
                    let ids = self.pending.clone();
                    self.late.push((s.seq, s.stalled.clone(), ids));
                }
                s.stalled.clear();
            }
            Step::Mark => {
                self.marks.push((s.live, s.threads, s.held.clone()));
                s.log(format!("at rest: {} threads, {:?} open", s.threads, s.held));
            }
            Step::Disk(op) => self.disk.apply(op, s),
            Step::Eof(n) => {
                if *n > 0 {
                    if let Some(b) = sc.steps.get(self.pos + 1).and_then(Self::body) {
                        let f = frame(&mut self.headers, &b);
                        let n = (*n as usize).min(f.len() - 1);
                        s.inq.extend(&f[..n]);
                        s.fault("stream cut inside a message");
                    }
                }
                self.eof_outstanding = self.outstanding();
                if self.eof_outstanding > 0 {
                    s.fault("client gone with requests in flight");
                }
                s.eof = true;
                self.eof_seq = Some(s.seq);
                self.pos = sc.steps.len();
                self.phase = 2;
                return;
            }
            st => {
                match st {
                    Step::Initialized => self.initialized = true,
                    Step::Shutdown { .. } => self.shut = true,
                    Step::Cancel { .. } => s.fault("request cancelled"),
                    _ => {}
                }
                self.send(st, s);
            }
        }
        self.sent.push(Sent { step: self.pos, seq: s.seq });
        self.pos += 1;
    }
    fn done(&self) -> bool {
        self.pos >= self.sc.steps.len()
    }
    fn output(&mut self, s: &mut State) {
        self.parse(s);
    }
    fn idle(&mut self, s: &mut State) -> bool {
        if !s.stalled.is_empty() {
            s.stalled.clear();
            s.log("hanging operations go on".into());
            return true;
        }
        if s.refused[0] && self.phase < 2 {
            // nobody is there to read an answer: the client is gone altogether
            self.pos = self.sc.steps.len();
            self.phase = 2;
            s.eof = true;
            self.eof_seq = Some(s.seq);
            s.log("client: end of stream".into());
            return true;
        }
        if self.phase < 2 && self.outstanding() > 0 && self.wedged.is_none() {
            self.wedged = Some(s.seq);
        }
        if self.pos < self.sc.steps.len() {
            // the client waits in vain
            self.pos += 1;
            return true;
        }
        match self.phase {
            0 => {
                self.phase = 1;
                if self.initialized && !self.shut {
                    let uri = format!("{BASE}probe-zz/probe.hddl");
                    s.log("client: probe".into());
                    self.send(&Step::Open { uri: uri.clone(), text: self.sc.probe.0.clone(), version: 1 }, s);
                    self.send(&Step::Diag { id: json!("probe"), uri }, s);
                    self.probe = Some(s.seq);
                    return true;
                }
                self.idle(s)
            }
            1 => {
                self.phase = 2;
                s.eof = true;
                self.eof_seq = Some(s.seq);
                s.log("client: end of stream".into());
                true
            }
            _ => false,
        }
    }
}

pub fn tree(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn rec(root: &Path, d: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                use std::os::unix::ffi::OsStrExt;
                let rel = un(p.strip_prefix(root).unwrap().as_os_str().as_bytes());
                if p.is_dir() {
                    m.insert(rel, None);
                    rec(root, &p, m);
                } else {
                    m.insert(rel, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    rec(root, root, &mut m);
    m
}

pub fn run(env: &Env, scratch: &Scratch, o: &mut Oracle, sc: &LspScenario, ch: &mut Choices, keep: bool) -> Outcome {
    scratch.clear();
    let mut disk = DiskModel::default();
    for (p, c) in &sc.files {
        let c = c.as_ref().map(|b| b.0.clone());
        put(&scratch.root, p, &c);
        disk.add(p, c);
    }
    for (p, t) in &sc.links {
        if disk.at(p, 0).is_some() {
            continue;
        }
        let f = scratch.root.join(os(p));
        let _ = std::fs::create_dir_all(f.parent().unwrap());
        let _ = std::os::unix::fs::symlink(scratch.root.join(os(t)), &f);
        let c = disk.at(t, 0).flatten().unwrap_or_default();
        disk.add(p, Some(c));
        disk.links.insert(p.clone());
    }
    let cfg = SpawnCfg {
        bin: &env.dir.join("language_server"),
        shim: &env.shim,
        args: vec![],
        root: &scratch.root,
        workers: sc.knobs.workers,
        hash_seed: sc.knobs.hash_seed,
        preempt: &[],
        cpu_s: 6,
    };
    let p = match Proc::spawn(&cfg) {
        Ok(p) => p,
        Err(e) => return Outcome::error(e),
    };
    let mut w = LspWorld {
        sc, pos: 0, sent: vec![], parsed: 0, msgs: vec![], frame_err: None, open_ids: vec![], pending: vec![], disk, phase: 0, wedged: None, probe: None,
        eof_seq: None, eof_outstanding: 0, initialized: false, shut: false, headers: Rng::new(77), marks: vec![], late: vec![],
    };
    let mut sim = Sim::new(p, &scratch.root, &sc.knobs, ch, keep, 60_000);
    let end = sim.run(&mut w);
    sim.kill();
    let mut out = Outcome::from_state(&mut sim.s, &end);
    if end == End::Stuck {
        return Outcome::error("the simulated process does not reach a scheduling point".into());
    }
    judge(&mut w, &sim.s, &end, o, &mut out);
    out
}

// ------------------------------------------------------------------------------------ judging

fn items(v: &Value) -> Option<Vec<(String, Option<u64>, u64)>> {
    let r = v.get("result")?;
    if r["kind"] != "full" {
        return None;
    }
    let mut out = vec![];
    for i in r["items"].as_array()? {
        out.push((i["message"].as_str()?.trim_end().to_string(), i["range"]["start"]["line"].as_u64(), i["severity"].as_u64().unwrap_or(0)));
    }
    Some(out)
}
fn same(found: &[(String, Option<u64>, u64)], want: &[Report]) -> bool {
    found.len() == want.len()
        && found.iter().zip(want).all(|(f, w)| {
            let sev = if w.message.starts_with("requirement ") { f.2 == 3 || f.2 == 1 } else { f.2 == 1 };
            f.0 == w.message.trim_end() && sev && w.line.map_or(true, |l| f.1 == Some(l as u64 - 1))
        })
}
/// what the analysis of this text must report; None: the reference itself breaks
fn expected(o: &mut Oracle, text: &[u8], domain: Option<&[u8]>) -> Option<Vec<Vec<Report>>> {
    let dom = |o: &mut Oracle| match o.call("verify", text, None) {
        Verdict::Ok(_) => Some(vec![]),
        Verdict::Err(r) => Some(vec![r]),
        Verdict::Panic => None,
    };
    let prob = |o: &mut Oracle| -> Option<Vec<Report>> {
        match domain {
            None => o.problem_syntax(text).ok().map(|x| x.into_iter().collect()),
            Some(d) => match o.call("verify", d, None) {
                Verdict::Panic => None,
                Verdict::Err(r) => {
                    let mut v = vec![r];
                    v.extend(o.problem_syntax(text).ok()?);
                    Some(v)
                }
                Verdict::Ok(_) => match o.call("verify", d, Some(text)) {
                    Verdict::Panic => None,
                    Verdict::Ok(_) => Some(vec![]),
                    Verdict::Err(r) => Some(vec![r]),
                },
            },
        }
    };
    Some(match gen::classify(text) {
        Class::Other => vec![vec![]],
        Class::Domain => vec![dom(o)?],
        Class::Problem => vec![prob(o)?],
        Class::Unsure => vec![vec![], dom(o)?, prob(o)?],
    })
}

/// texts a reply may be based on; `None` in the set: the document counts as not synced
fn texts(w: &LspWorld, st: &State, uri: &str, req: u64, rep: u64) -> BTreeSet<Option<Vec<u8>>> {
    let mut cur: BTreeSet<Option<Vec<u8>>> = BTreeSet::from([None]);
    let mut all = BTreeSet::new();
    for x in &w.sent {
        if x.seq > rep {
            break;
        }
        let next: BTreeSet<Option<Vec<u8>>> = match &w.sc.steps[x.step] {
            Step::Open { uri: u, text, .. } | Step::SaveText { uri: u, text } if u == uri => BTreeSet::from([Some(text.clone().into_bytes())]),
            Step::Change { uri: u, texts, .. } if u == uri => match texts.last() {
                Some(t) => BTreeSet::from([Some(t.clone().into_bytes())]),
                None => continue,
            },
            Step::Close { uri: u } if u == uri => cur.iter().cloned().chain([None]).collect(),
            Step::Save { uri: u } if u == uri => {
                let path = uri_path(u);
                let mut c = BTreeSet::new();
                let mut failed = path.as_ref().map_or(true, |p| p.contains('\0'));
                for e in &st.events {
                    if e.seq() < x.seq || e.seq() > rep {
                        continue;
                    }
                    match e {
                        FileEv::Full { path: p, data, opened, .. } if Some(norm(p)) == path && *opened >= x.seq => {
                            c.insert(Some(data.clone()));
                        }
                        FileEv::Fail { path: p, .. } if Some(norm(p)) == path => failed = true,
                        _ => {}
                    }
                }
                if failed {
                    c.extend(cur.iter().cloned());
                }
                c
            }
            _ => continue,
        };
        if x.seq > req {
            // may or may not have been seen
            all.extend(cur.iter().cloned());
        }
        cur = next;
    }
    all.extend(cur);
    all
}

fn median(v: &[i64]) -> i64 {
    let mut v = v.to_vec();
    v.sort();
    v[v.len() / 2]
}
/// does the memory in use at rest go on growing? Buffers and threads make it rise now and then, for good or for a while
fn grows(mem: &[i64]) -> Option<&'static str> {
    let n = mem.len();
    if n < 9 {
        return None;
    }
    if mem[n - 9..].windows(2).all(|x| x[1] - x[0] >= 48) {
        return Some("with every round");
    }
    if n < 100 {
        return None;
    }
    // steadily, if not in every round
    let late = &mem[n / 3..];
    let k = late.len() / 6;
    let m: Vec<i64> = (0..6).map(|i| median(&late[i * k..(i + 1) * k])).collect();
    if m.windows(2).all(|x| x[1] - x[0] >= 48) {
        return Some("steadily");
    }
    // in leaps that double, like a collection that is never emptied
    let leap = |r: usize| if r >= 4 && r + 4 < n { median(&mem[r + 1..r + 4]) - median(&mem[r - 4..r - 1]) } else { 0 };
    let near = |r: usize, want: i64| (r - r / 16..=r + r / 16).any(|x| (leap(x) - want).abs() < want / 4);
    let flat = |a: usize, b: usize, j: i64| b < n && a + 3 < b && (median(&mem[a..a + 3]) - median(&mem[b - 3..b])).abs() < j / 4;
    for r in 10..20 {
        let j = leap(r);
        let mut at = r;
        let mut size = j;
        let mut all = j >= 120;
        while all && 2 * at + at / 8 + 6 < n {
            all = flat(at + at / 8 + 2, 2 * at - at / 8 - 2, size) && near(2 * at, 2 * size);
            at *= 2;
            size *= 2;
        }
        if all && at >= 4 * r {
            return Some("in doubling leaps");
        }
    }
    None
}

fn judge(w: &mut LspWorld, st: &State, end: &End, o: &mut Oracle, out: &mut Outcome) {
    let err = String::from_utf8_lossy(&st.err).into_owned();
    let mut add = |tags: &[&'static str], class: &str, detail: String| out.violations.push(Violation { tags: tags.to_vec(), class: class.into(), detail });
    let outstanding = w.outstanding();
    if st.refused[0] {
        // the client went away without reading: all that counts is that the server goes, too
        match end {
            End::Exited(s) if *s & 0x7f == 0 => {}
            End::Exited(s) => add(&["C11"], "exit status", format!("the client no longer reads and the server ended with wait status {s:#x}")),
            End::Steps => add(&["C11"], "no progress", format!("the client is gone, but the server does not come to rest within {} steps", st.steps)),
            _ => add(&["C11"], "no exit", "the client no longer reads and its stream has ended, nothing can run any more, but the process does not exit".into()),
        }
        out.probe("sessions whose client stopped reading", 1);
        return;
    }
    // -- survival
    let before_eof = w.eof_seq.is_none();
    if let Some(i) = err.find("panicked at") {
        let m: String = err[i..].lines().take(2).collect::<Vec<_>>().join(" ");
        add(&["C02"], "panic", format!("the server panics: {m}"));
    }
    if let End::Exited(s) = end {
        let clean_exit_asked = w.sent.iter().any(|x| matches!(w.sc.steps[x.step], Step::Exit));
        if before_eof && !clean_exit_asked {
            let mut tags = vec!["C02"];
            if outstanding > 0 {
                tags.extend(["C01", "C03", "C04"]);
            }
            add(&tags, "died", format!("the server ended (wait status {s:#x}) while its input was open; {outstanding} requests unanswered; {}", err.lines().next().unwrap_or("")));
        } else if *s != 0 && !clean_exit_asked {
            add(&["C11", "C02"], "exit status", format!("the server ended with wait status {s:#x} after its input ended: {}", err.lines().next().unwrap_or("")));
        }
    }
    if *end == End::Steps {
        add(&["C02", "C11"], "no progress", format!("no quiescence within {} steps, {outstanding} requests unanswered", st.steps));
    }
    if let Some(s) = w.wedged {
        let ids: Vec<String> = w.open_ids.iter().filter(|(id, q)| !w.msgs.iter().any(|m| m.seq >= *q && m.v["id"] == *id)).map(|(id, _)| id.to_string()).collect();
        add(&["C02", "C04", "C01", "C03"], "unanswered", format!("at step {s} nothing can run any more, yet requests {} have no reply", ids.join(", ")));
    }
    if *end == End::Idle && w.phase >= 2 && w.eof_seq.is_some() {
        add(&["C11"], "no exit", "the client's stream has ended and nothing can run any more, but the process does not exit".into());
    }
    // -- framing and pairing
    if let Some(e) = &w.frame_err {
        add(&["C04"], "framing", format!("standard output is not a sequence of framed messages: {e}"));
    } else if before_eof_complete(w, end) && w.parsed < st.out.len() {
        add(&["C04"], "framing", format!("standard output ends with an incomplete message: {:?}", String::from_utf8_lossy(&st.out[w.parsed..]).chars().take(120).collect::<String>()));
    }
    let mut by_id: HashMap<String, Vec<&Msg>> = HashMap::new();
    let garbage = w.sent.iter().filter(|x| matches!(w.sc.steps[x.step], Step::Garbage(_))).count();
    let mut nulls = 0;
    for m in &w.msgs {
        if m.v.get("method").is_some() {
            if m.v.get("id").is_some() {
                add(&["C04"], "unexpected", format!("the server sends a request: {}", m.v));
            }
            continue;
        }
        let has_r = m.v.get("result").is_some();
        let has_e = m.v.get("error").is_some();
        if has_r == has_e {
            add(&["C04"], "malformed reply", format!("a response needs either result or error: {}", m.v));
        }
        if m.v["id"].is_null() {
            nulls += 1;
            continue;
        }
        by_id.entry(m.v["id"].to_string()).or_default().push(m);
    }
    if nulls > garbage {
        add(&["C04"], "unexpected", format!("{nulls} responses without id for {garbage} unreadable messages"));
    }
    for (id, v) in &by_id {
        let asked = w.open_ids.iter().filter(|(i, _)| i.to_string() == *id).count();
        if asked == 0 {
            add(&["C04"], "unexpected", format!("response to id {id} that was never used: {}", v[0].v));
        } else if v.len() > asked {
            add(&["C04"], "duplicate", format!("{} responses for request {id}", v.len()));
        } else if let Some((_, q)) = w.open_ids.iter().find(|(i, _)| i.to_string() == *id) {
            if v[0].seq < *q {
                add(&["C04"], "unexpected", format!("response to {id} before the request"));
            }
        }
    }
    if before_eof_complete(w, end) && w.wedged.is_none() {
        for (id, q) in &w.open_ids {
            if Some(*q) <= w.eof_seq && !by_id.contains_key(&id.to_string()) && matches!(end, End::Exited(0) | End::Idle) {
                add(&["C04", "C02", "C01", "C03"], "unanswered", format!("request {id} was never answered"));
            }
        }
    }
    // the client is gone: what it asked for completely is still finished
    if matches!(end, End::Exited(0)) && w.sc.steps.iter().any(|s| matches!(s, Step::Eof(_))) && !w.sc.steps.iter().any(|s| matches!(s, Step::Exit)) {
        for (id, _) in &w.open_ids {
            if !by_id.contains_key(&id.to_string()) {
                add(&["C11", "C04"], "unfinished", format!("request {id} was sent completely before the end of the stream, but the server ends without an answer"));
                break;
            }
        }
        if w.frame_err.is_none() && w.parsed < st.out.len() {
            add(&["C11", "C04"], "unfinished", "the server ends in the middle of a message".into());
        }
    }
    // -- file system
    for e in &st.events {
        if let FileEv::Mutate { what, path, .. } = e {
            add(&["C05"], "modifies", format!("the server calls {what} on {path}"));
            break;
        }
    }
    let want = w.disk.now();
    let have = tree(&st.root);
    if want != have {
        let diff: Vec<&String> = want.keys().chain(have.keys()).filter(|k| want.get(*k) != have.get(*k)).collect();
        add(&["C05"], "modifies", format!("files differ from what the outside world wrote: {diff:?}"));
    }
    // -- only what it was asked about
    for e in &st.events {
        if let FileEv::Look { path, seq, dir } = e {
            let p = plain(path);
            let asked = w.sent.iter().any(|x| {
                x.seq <= *seq
                    && match &w.sc.steps[x.step] {
                        Step::Save { uri } => target(uri).as_ref() == Some(&p),
                        Step::Diag { uri, .. } => target(uri).and_then(|u| above(&u)).map_or(false, |f| p == f || (!dir && above(&p).as_ref() == Some(&f))),
                        _ => false,
                    }
            });
            if !asked {
                add(&["C14"], "looks elsewhere", format!("the server {} {path}, which is neither a saved document nor in the folder of a document it was asked to diagnose", if *dir { "lists" } else { "opens" }));
                break;
            }
        }
    }
    // -- what a long session leaves behind
    for (i, m) in w.marks.iter().enumerate() {
        if !m.2.is_empty() {
            add(&["C12"], "open files", format!("at rest after round {} the server holds {:?} open", i + 1, m.2));
            break;
        }
    }
    if let (Some(a), Some(b)) = (w.marks.get(2), w.marks.last()) {
        let rising = w.marks[2..].windows(2).filter(|x| x[1].1 > x[0].1).count();
        if b.1 > a.1 + 2 && rising > 3 {
            add(&["C12"], "threads", format!("the number of threads at rest grows with every round: {:?}", w.marks.iter().map(|m| m.1).collect::<Vec<_>>()));
        }
    }
    let mem: Vec<i64> = w.marks.iter().map(|m| m.0).collect();
    if std::env::var("DST_MARKS").is_ok() && !mem.is_empty() {
        eprintln!("MARKS {mem:?}");
    }
    if let Some(how) = grows(&mem) {
        add(&["C12"], "memory", format!("with the same documents open, memory in use at rest grows {how}: {mem:?} bytes"));
    }
    // -- a hanging file concerns only those who need it
    for (_, what, ids) in &w.late {
        for (id, q) in ids {
            let step = w.sent.iter().rev().find(|x| x.seq <= *q && LspWorld::id(&w.sc.steps[x.step]) == Some(id)).map(|x| &w.sc.steps[x.step]);
            let cancelled = w.sent.iter().any(|x| x.seq > *q && matches!(&w.sc.steps[x.step], Step::Cancel { id: c } if c == id));
            let needs = match step {
                Some(Step::Diag { uri, .. }) => {
                    let f = uri_path(uri).map(|u| parent(&u));
                    let there = f.map_or(false, |f| what.iter().any(|s| f == *s || f.starts_with(&format!("{s}/")) || parent(s) == f));
                    there && texts(w, st, uri, *q, *q).iter().any(|t| t.as_ref().map_or(false, |t| matches!(gen::classify(t), Class::Problem | Class::Unsure)))
                }
                Some(_) => false,
                None => true,
            };
            if cancelled || !needs {
                add(&["C13"], "held up", format!("while file operations on {what:?} hang, request {id}{} is not answered", if cancelled && needs { " (cancelled)" } else { "" }));
                break;
            }
        }
    }
    let (rounds, stalls) = (w.marks.len() as u64, w.late.iter().map(|l| (!l.2.is_empty()) as u64).sum::<u64>());
    // -- lifecycle
    let init_sent = w.sent.iter().find(|x| matches!(w.sc.steps[x.step], Step::Initialize(_))).map(|x| (x.seq, LspWorld::id(&w.sc.steps[x.step]).unwrap().to_string()));
    let init_reply = init_sent.as_ref().and_then(|(_, id)| by_id.get(id)).and_then(|v| v.iter().find(|m| m.v.get("result").is_some())).map(|m| m.seq);
    if let Some((_, id)) = &init_sent {
        if let Some(m) = by_id.get(id).and_then(|v| v.first()) {
            let c = &m.v["result"]["capabilities"];
            let sync = &c["textDocumentSync"];
            let full = *sync == json!(1) || sync["change"] == json!(1);
            if m.v.get("error").is_some() || !full || c.get("diagnosticProvider").map_or(true, |d| d.is_null()) {
                add(&["C11"], "capabilities", format!("initialize is answered with {}", m.v));
            }
        }
    }
    let shut_seq = w.sent.iter().find(|x| matches!(w.sc.steps[x.step], Step::Shutdown { .. })).map(|x| x.seq);
    let shut_reply = w.sc.steps.iter().find_map(|s| if let Step::Shutdown { id } = s { by_id.get(&id.to_string()) } else { None }).and_then(|v| v.first()).map(|m| m.seq);
    // -- diagnostics
    let ready_at = init_reply;
    let cancels: BTreeSet<String> = w.sent.iter().filter_map(|x| if let Step::Cancel { id } = &w.sc.steps[x.step] { Some(id.to_string()) } else { None }).collect();
    let mut consistent: HashMap<(String, u64), (BTreeSet<String>, String)> = HashMap::new();
    let mut stats = (0u64, 0u64, 0u64);
    let mut pairs: Vec<(u64, String, Value, u64)> = vec![];
    for x in &w.sent {
        if let Step::Diag { id, uri } = &w.sc.steps[x.step] {
            if let Some(m) = by_id.get(&id.to_string()).and_then(|v| v.first()) {
                pairs.push((x.seq, uri.clone(), id.clone(), m.seq));
            }
        }
    }
    if let Some(q) = w.probe {
        if let Some(m) = by_id.get("\"probe\"").and_then(|v| v.first()) {
            // the probe is checked on its own
            let t = w.sc.probe.0.as_bytes();
            let ok = match (expected(o, t, None), items(&m.v)) {
                (Some(e), Some(i)) => e.iter().any(|e| same(&i, e)),
                _ => false,
            };
            if !ok {
                add(&["C02", "C01"], "probe", format!("after all faults stopped, a newly opened document is answered with {}", m.v));
            }
        } else if matches!(end, End::Idle | End::Steps) || (matches!(end, End::Exited(_)) && w.eof_seq.map_or(true, |e| e > q)) {
            add(&["C02", "C04", "C01"], "probe", "after all faults stopped, a fresh diagnostic request gets no answer".into());
        }
    }
    for x in &w.sent {
        // any request before initialize or after shutdown
        if let Some(id) = LspWorld::id(&w.sc.steps[x.step]) {
            let before = init_sent.as_ref().map_or(true, |(s, _)| x.seq < *s);
            let after = shut_reply.map_or(false, |s| x.seq > s) || (shut_seq.map_or(false, |s| x.seq > s) && false);
            if (before || after) && !matches!(w.sc.steps[x.step], Step::Initialize(_)) {
                if let Some(m) = by_id.get(&id.to_string()).and_then(|v| v.first()) {
                    if m.v.get("error").is_none() {
                        add(&["C11"], "lifecycle", format!("request {id} {} is answered with {}", if before { "before initialize" } else { "after shutdown" }, m.v));
                    }
                }
            }
        }
    }
    // the long sessions are about what is left behind; their hundreds of replies are not looked at
    let long = w.marks.len() > 20;
    for (rq, uri, id, rp) in pairs.iter().filter(|_| !long) {
        let m = by_id[&id.to_string()][0];
        // not fully inside the session: judged above
        if ready_at.map_or(true, |r| *rq < r) || shut_seq.map_or(false, |s| *rp > s) {
            continue;
        }
        if w.open_ids.iter().filter(|(i, _)| i == id).count() > 1 {
            continue;
        }
        if cancels.contains(&id.to_string()) && m.v["error"]["code"] == json!(-32800) {
            stats.2 += 1;
            continue;
        }
        // documents synced before the session was ready may have been dropped
        let ts = texts_in_session(w, st, uri, *rq, *rp, ready_at.unwrap());
        let found = items(&m.v);
        if m.v.get("error").is_some() {
            if !ts.contains(&None) {
                add(&["C01"], "error reply", format!("diagnostic of the synced document {uri} (request {id}) is answered with {}", m.v["error"]));
            } else {
                stats.1 += 1;
            }
            continue;
        }
        let found = match found {
            Some(f) => f,
            None => {
                add(&["C01"], "malformed report", format!("request {id}: not a full report: {}", m.v));
                continue;
            }
        };
        if ts.is_empty() {
            add(&["C01"], "save not read", format!("request {id} for {uri} is answered with {} although the file saved before was not read yet", m.v["result"]));
            continue;
        }
        if ts.iter().all(|t| t.is_none()) {
            add(&["C01"], "unsynced", format!("diagnostic of {uri}, which was never synced (request {id}), is answered with {}", m.v["result"]));
            continue;
        }
        stats.0 += 1;
        // domains that may have been used
        let path = uri_path(uri);
        let folder = path.as_ref().map(|p| parent(p));
        let mut doms: Vec<(String, Vec<u8>)> = vec![];
        let mut none_ok = true;
        let mut clean = true;
        let mut stable: Vec<(String, Vec<u8>)> = vec![];
        if let Some(f) = &folder {
            let infolder = |p: &str| parent(&norm(p)) == *f;
            for e in &st.events {
                if e.seq() < *rq || e.seq() > *rp {
                    continue;
                }
                match e {
                    FileEv::Full { path: p, data, opened, .. } if infolder(p) && has_ext(p) && *opened >= *rq => {
                        if matches!(gen::classify(data), Class::Domain | Class::Unsure) {
                            doms.push((norm(p), data.clone()));
                        }
                    }
                    FileEv::Fail { path: p, injected, dir, .. } => {
                        if *dir && norm(p) == *f {
                            clean = false;
                        } else if infolder(p) && *injected {
                            clean = false;
                        }
                    }
                    _ => {}
                }
            }
            let dir_failed = st.events.iter().any(|e| matches!(e, FileEv::Fail { path: p, dir: true, seq, .. } if norm(p) == *f && *seq >= *rq && *seq <= *rp));
            for p in w.disk.hist.keys().filter(|p| infolder(p) && has_ext(p)) {
                if w.disk.changed(p, *rq, *rp) {
                    clean = false;
                    continue;
                }
                let failed = st.events.iter().any(|e| matches!(e, FileEv::Fail { path: q, seq, .. } if norm(q) == *p && *seq >= *rq && *seq <= *rp));
                if let Some(Some(c)) = w.disk.at(p, *rq) {
                    if gen::classify(&c) == Class::Domain && !failed {
                        stable.push((p.clone(), c.clone()));
                        if !dir_failed {
                            none_ok = false;
                        }
                    }
                    if gen::classify(&c) == Class::Unsure {
                        clean = false;
                    }
                }
            }
        }
        // what stood there all the time may be used whether or not it was read again
        for d in &stable {
            if !doms.contains(d) {
                doms.push(d.clone());
            }
        }
        let mut ok = false;
        let mut broken = false;
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut known_bad: Option<String> = None;
        let mut is_problem = false;
        for t in ts.iter().flatten() {
            let c = gen::classify(t);
            if matches!(c, Class::Problem | Class::Unsure) {
                is_problem = true;
                let mut cand: Vec<Option<&(String, Vec<u8>)>> = doms.iter().map(Some).collect();
                if none_ok {
                    cand.push(None);
                }
                for d in cand {
                    match expected(o, t, d.map(|x| x.1.as_slice())) {
                        Some(e) => {
                            if e.iter().any(|e| same(&found, e)) {
                                ok = true;
                                used.insert(d.map(|x| x.0.clone()).unwrap_or_default());
                                if let Some(d) = d {
                                    let (hd, ht) = (hash(&d.1), hash(t));
                                    if let Some(k) = w.sc.known.iter().find(|k| k.0 == hd && k.1 == ht) {
                                        if !fits(&k.2, &found) {
                                            known_bad = Some(format!("{:?}", k.2));
                                        }
                                    }
                                }
                            }
                        }
                        None => broken = true,
                    }
                }
            } else {
                match expected(o, t, None) {
                    Some(e) => {
                        if e.iter().any(|e| same(&found, e)) {
                            ok = true;
                            let ht = hash(t);
                            if let Some(k) = w.sc.known.iter().find(|k| k.0 == ht && k.1 == 0) {
                                if !fits(&k.2, &found) {
                                    known_bad = Some(format!("{:?}", k.2));
                                }
                            }
                        }
                    }
                    None => broken = true,
                }
            }
        }
        if !ok && !broken {
            // whose fault is it: the text or the domain?
            let mut tags: Vec<&'static str> = vec!["C01"];
            let mut why = "no acceptable text explains it".to_string();
            if is_problem {
                tags = vec!["C01", "C03"];
                let mut all_d: Vec<Option<Vec<u8>>> = vec![None];
                for h in w.disk.hist.values() {
                    all_d.extend(h.iter().filter_map(|(_, c)| c.clone().flatten()).map(Some));
                }
                for s in &w.sc.steps {
                    if let Step::Open { text, .. } | Step::SaveText { text, .. } = s {
                        all_d.push(Some(text.clone().into_bytes()));
                    }
                }
                'o: for t in ts.iter().flatten() {
                    for d in &all_d {
                        if d.as_ref().map_or(true, |d| gen::classify(d) == Class::Domain) {
                            if let Some(e) = expected(o, t, d.as_deref()) {
                                if e.iter().any(|e| same(&found, e)) {
                                    tags = vec!["C03"];
                                    why = match d {
                                        None => "it ignores the readable domain in the folder".into(),
                                        Some(d) => format!("it is based on a domain (#{:08x}) that was not read from the folder for this request", hash(d) as u32),
                                    };
                                    break 'o;
                                }
                            }
                        }
                    }
                }
            }
            if tags != ["C03"] {
                // stale or foreign text?
                for s in &w.sc.steps {
                    let (u, t) = match s {
                        Step::Open { uri, text, .. } | Step::SaveText { uri, text } => (uri, text.clone()),
                        Step::Change { uri, texts, .. } if !texts.is_empty() => (uri, texts[0].clone()),
                        _ => continue,
                    };
                    if gen::classify(t.as_bytes()) == Class::Domain {
                        if let Some(e) = expected(o, t.as_bytes(), None) {
                            if !e[0].is_empty() && same(&found, &e[0]) {
                                why = format!("it reports on {} text #{:08x}", if u == uri { "an outdated or discarded".to_string() } else { format!("{u}'s") }, hash(t.as_bytes()) as u32);
                                break;
                            }
                        }
                    }
                }
            }
            let cand: Vec<String> = ts.iter().map(|t| t.as_ref().map_or("unsynced".into(), |t| format!("#{:08x}", hash(t) as u32))).collect();
            let dc: Vec<String> = doms.iter().map(|d| format!("{} #{:08x}", d.0, hash(&d.1) as u32)).collect();
            add(&tags, if tags == ["C03"] { "wrong domain" } else { "wrong report" }, format!(
                "request {id} for {uri} (sent at step {rq}, answered at {rp}) reports {found:?}; acceptable texts {cand:?}, domains read {dc:?}{}; {why}",
                if none_ok { " or none" } else { "" }
            ));
        } else if let Some(k) = known_bad {
            let tags: &[&'static str] = if is_problem { &["C01", "C03"] } else { &["C01"] };
            add(tags, "wrong verdict", format!("request {id} for {uri} reports {found:?} although the text was made so that {k}"));
        } else if ok && is_problem && clean && !stable.is_empty() && ts.len() == 1 {
            // the same folder content must always lead to the same domain
            if let Some(f) = &folder {
                let mut h = vec![];
                for (p, c) in &stable {
                    h.extend_from_slice(p.as_bytes());
                    h.extend_from_slice(&hash(c).to_le_bytes());
                }
                let key = (f.clone(), hash(&h));
                match consistent.get_mut(&key) {
                    None => {
                        consistent.insert(key, (used, id.to_string()));
                    }
                    Some((prev, pid)) => {
                        let i: BTreeSet<String> = prev.intersection(&used).cloned().collect();
                        if i.is_empty() {
                            add(&["C03"], "unstable domain", format!("with the same folder content request {pid} used {prev:?} and request {id} used {used:?}"));
                        } else {
                            *prev = i;
                        }
                    }
                }
            }
        }
    }
    out.probe("diagnostic replies compared with reference", stats.0);
    out.probe("error replies for unsynced documents", stats.1);
    out.probe("cancelled replies", stats.2);
    if rounds > 0 {
        out.probe("rounds after which the process was at rest", rounds);
    }
    if stalls > 0 {
        out.probe("sessions with a request held up by a hanging file", stalls);
    }
    out.probe("requests answered", by_id.len() as u64);
    out.probe("runs ended by the client's end of stream with work in flight", (w.eof_outstanding > 0) as u64);
    let multi = consistent.len() as u64;
    out.probe("folder states with a stable domain", multi);
    out.replies = w.msgs.iter().filter(|m| m.v.get("id").is_some()).map(|m| m.v.to_string()).collect();
}
fn before_eof_complete(w: &LspWorld, end: &End) -> bool {
    // the script did not cut the stream: everything must have been answered before the final end of stream
    !w.sc.steps.iter().any(|s| matches!(s, Step::Eof(_) | Step::Exit)) && !matches!(end, End::Stuck | End::Steps)
}
fn fits(e: &Expect, found: &[(String, Option<u64>, u64)]) -> bool {
    match e {
        Expect::Unknown => true,
        Expect::Accept => found.is_empty(),
        Expect::Reject(n, l) => found.len() == 1 && found[0].0.contains(n.as_str()) && l.map_or(true, |l| found[0].1 == Some(l as u64 - 1)),
    }
}
fn texts_in_session(w: &LspWorld, st: &State, uri: &str, req: u64, rep: u64, ready: u64) -> BTreeSet<Option<Vec<u8>>> {
    let early = w.sent.iter().any(|x| x.seq < ready && matches!(&w.sc.steps[x.step], Step::Open { uri: u, .. } | Step::Change { uri: u, .. } | Step::SaveText { uri: u, .. } | Step::Save { uri: u } if u == uri));
    let mut t = texts(w, st, uri, req, rep);
    let late = w.sent.iter().any(|x| x.seq >= ready && x.seq < req && matches!(&w.sc.steps[x.step], Step::Open { uri: u, .. } | Step::SaveText { uri: u, .. } if u == uri));
    if early && !late {
        t.insert(None);
    }
    t
}

pub fn describe(s: &Step) -> String {
    LspWorld::describe(s)
}

/// smaller scenarios, most promising first
pub fn shrink(l: &LspScenario) -> Vec<LspScenario> {
    let mut v = vec![];
    let n = l.steps.len();
    // the handshake stays
    let fixed = l.steps.iter().position(|s| matches!(s, Step::Initialized)).map_or(0, |p| p + 1);
    let mut size = (n.saturating_sub(fixed)) / 2;
    while size >= 1 {
        let mut i = n;
        while i > fixed {
            let s = i.saturating_sub(size).max(fixed);
            let mut x = l.clone();
            x.steps.drain(s..i);
            v.push(x);
            i = s;
        }
        size /= 2;
    }
    for i in 0..fixed {
        if !matches!(l.steps[i], Step::Initialize(_) | Step::Initialized) {
            let mut x = l.clone();
            x.steps.remove(i);
            v.push(x);
        }
    }
    for i in 0..l.files.len() {
        let mut x = l.clone();
        x.files.remove(i);
        v.push(x);
    }
    for f in 0..12 {
        let mut x = l.clone();
        let k = &mut x.knobs;
        let p: &mut u32 = match f {
            0 => &mut k.f_open,
            1 => &mut k.f_read,
            2 => &mut k.f_short,
            3 => &mut k.f_eintr,
            4 => &mut k.f_dir,
            5 => &mut k.f_outshort,
            6 => &mut k.f_spurious,
            7 => &mut k.chunk,
            8 => &mut k.f_leap,
            _ => continue,
        };
        if *p != 0 {
            *p = 0;
            v.push(x);
        }
    }
    if l.knobs.shuffle {
        let mut x = l.clone();
        x.knobs.shuffle = false;
        v.push(x);
    }
    if l.knobs.workers > 1 {
        let mut x = l.clone();
        x.knobs.workers = 1;
        v.push(x);
    }
    // only the last of several changes, shorter filler
    for (i, s) in l.steps.iter().enumerate() {
        match s {
            Step::Change { uri, texts, version } if texts.len() > 1 => {
                let mut x = l.clone();
                x.steps[i] = Step::Change { uri: uri.clone(), texts: texts[1..].to_vec(), version: *version };
                v.push(x);
            }
            _ => {}
        }
    }
    v
}
