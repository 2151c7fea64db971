//! The simulator: decides which thread runs, what every intercepted call returns, what the
//! client and the outside world (other processes touching the disk) do next, and what time it is.
use crate::choice::{fnv, Choices};
use crate::sys::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::path::{Path, PathBuf};

/// per-run knobs (swarm style); part of the scenario
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Knobs {
    pub workers: u32,
    pub hash_seed: u64,
    /// weights: main thread, other threads, file operations, stdin, stdout, client, time
    pub w: [u32; 7],
    /// weight of letting the running thread continue
    pub sticky: u32,
    /// percent per operation
    pub f_open: u32,
    pub f_read: u32,
    pub f_short: u32,
    pub f_eintr: u32,
    pub f_dir: u32,
    pub f_write: u32,
    pub f_outshort: u32,
    pub f_spurious: u32,
    pub f_kill: u32,
    #[serde(default)]
    pub f_leap: u32,
    /// percent per step, command line tool only: killed right there
    #[serde(default)]
    pub f_crash: u32,
    /// percent per write of standard output and standard error: refused
    #[serde(default)]
    pub f_outfail: u32,
    /// the client closes its end of standard output after this many bytes (0: never)
    #[serde(default)]
    pub gone: u32,
    #[serde(default)]
    pub census: bool,
    pub shuffle: bool,
    /// largest number of bytes handed to one read of standard input (0: all)
    pub chunk: u32,
    pub preempt: Vec<u64>,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            workers: 1, hash_seed: 1, w: [1; 7], sticky: 1, f_open: 0, f_read: 0, f_short: 0, f_eintr: 0,
            f_dir: 0, f_write: 0, f_outshort: 0, f_spurious: 0, f_kill: 0, f_leap: 0, f_crash: 0, f_outfail: 0, gone: 0, census: false, shuffle: true, chunk: 0, preempt: vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum FileEv {
    /// a file was read to its end; from the opening of the file to the last byte
    Full { path: String, data: Vec<u8>, opened: u64, seq: u64 },
    /// opening or reading failed (injected or real)
    Fail { path: String, seq: u64, errno: i32, injected: bool, dir: bool },
    /// a write-open or any other modifying call
    Mutate { what: String, path: String, seq: u64 },
    Write { path: String, n: i64, seq: u64 },
    /// a file is opened for reading, a folder is listed, or the process reaches outside
    Look { path: String, seq: u64, dir: bool },
}
impl FileEv {
    pub fn seq(&self) -> u64 {
        match self {
            FileEv::Full { seq, .. } | FileEv::Fail { seq, .. } | FileEv::Mutate { seq, .. } | FileEv::Write { seq, .. } | FileEv::Look { seq, .. } => *seq,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// the process ended with this wait status
    Exited(i32),
    /// nothing can run any more and no timer is pending
    Idle,
    Steps,
    Stuck,
    Killed,
}

/// the world outside the process
pub trait World {
    /// the next scripted action can happen now
    fn ready(&self, s: &State) -> bool;
    fn step(&mut self, s: &mut State);
    fn done(&self) -> bool;
    fn output(&mut self, _s: &mut State) {}
    /// called when every thread is blocked, no timer is pending and the script is done:
    /// returns true if it supplied new work
    fn idle(&mut self, _s: &mut State) -> bool {
        false
    }
}

/// what the outside sees and controls
pub struct State {
    pub seq: u64,
    pub now0: u64,
    pub now: u64,
    pub root: PathBuf,
    pub inq: VecDeque<u8>,
    pub in_total: u64,
    pub in_read: u64,
    pub eof: bool,
    pub out: Vec<u8>,
    pub out_seq: Vec<(usize, u64)>,
    /// writes of standard output, of standard error refused; for good
    pub refused: [bool; 4],
    pub err: Vec<u8>,
    pub quiet: bool,
    pub events: Vec<FileEv>,
    pub faults: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    pub hash: u64,
    pub order_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub points: u64,
    /// no thread can run
    pub rest: bool,
    /// what the process holds at the moment it is at rest
    pub live: i64,
    pub threads: usize,
    pub held: Vec<String>,
    /// file operations below these paths hang
    pub stalled: Vec<String>,
}
impl State {
    pub fn log(&mut self, s: String) {
        fnv(&mut self.hash, s.as_bytes());
        if self.keep_trace && self.trace.len() < 20000 {
            self.trace.push(format!("{:5} {:9.3}ms {}", self.seq, (self.now - self.now0) as f64 / 1e6, s));
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
}

#[derive(Clone)]
struct OpenFile {
    path: String,
    data: Vec<u8>,
    opened: u64,
    done: bool,
    gap: bool,
}

pub struct Sim<'a> {
    p: Proc,
    pub s: State,
    k: Knobs,
    ch: &'a mut Choices,
    woken: [bool; NSLOT],
    last: Option<usize>,
    pending: Option<(usize, u32, String, i32, u64, bool, u64, u64)>,
    fds: HashMap<i32, OpenFile>,
    rr: usize,
    max_steps: u64,
}

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const ENFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;

pub fn rel(root: &Path, p: &str) -> PathBuf {
    root.join(crate::sys::os(p))
}

impl<'a> Sim<'a> {
    pub fn new(p: Proc, root: &Path, k: &Knobs, ch: &'a mut Choices, keep_trace: bool, max_steps: u64) -> Sim<'a> {
        // another hour and day in every run
        let now = 1_000_000_000_000 + (k.hash_seed >> 7) % 400_000_000 * 1_000_000_000 + (k.hash_seed >> 3) % 1_000_000_000;
        Sim {
            p,
            s: State {
                seq: 0, now0: now, now, root: root.to_path_buf(), inq: VecDeque::new(), in_total: 0, in_read: 0, eof: false,
                out: vec![], out_seq: vec![], refused: [false; 4], err: vec![], quiet: false, events: vec![], faults: BTreeMap::new(),
                trace: vec![], keep_trace, hash: 0xcbf2_9ce4_8422_2325, order_hash: 0xcbf2_9ce4_8422_2325, steps: 0, switches: 0, points: 0, rest: false, live: 0, threads: 0, held: vec![], stalled: vec![],
            },
            k: k.clone(),
            ch,
            woken: [false; NSLOT],
            last: None,
            pending: None,
            fds: HashMap::new(),
            rr: 0,
            max_steps,
        }
    }

    fn enabled(&mut self, i: usize) -> bool {
        let now = self.s.now;
        let dirty = self.p.shm().dirty != 0;
        if self.p.slot(i).state != ST_WAIT {
            return false;
        }
        if !self.s.stalled.is_empty() && !self.s.quiet && self.class(i) == 2 {
            let p = self.p.path(i);
            let p = p.strip_prefix("./").unwrap_or(&p).to_string();
            if self.s.stalled.iter().any(|x| p == *x || p.strip_prefix(x.as_str()).map_or(false, |r| r.starts_with('/'))) {
                return false;
            }
        }
        let s = self.p.slot(i);
        match s.op {
            OP_FWAIT => self.woken[i] || s.a[1] <= now,
            OP_EPOLL => dirty || s.a[0] <= now,
            OP_SLEEP => s.a[0] <= now,
            OP_JOIN => {
                // slots are reused: a later thread in the same slot is not the one waited for
                let (t, g) = (s.a[0] as usize, s.a[1] as u32);
                let t = self.p.slot(t);
                t.state == ST_DEAD || t.state == ST_FREE || t.gen != g
            }
            OP_STDIN => !self.s.inq.is_empty() || self.s.eof,
            _ => true,
        }
    }
    fn deadline(&self) -> Option<u64> {
        let mut d: Option<u64> = None;
        for i in 0..self.p.nslot() {
            let s = self.p.slot(i);
            if s.state != ST_WAIT {
                continue;
            }
            let x = match s.op {
                OP_FWAIT if !self.woken[i] => s.a[1],
                OP_EPOLL | OP_SLEEP => s.a[0],
                _ => continue,
            };
            if x != u64::MAX && x > self.s.now {
                d = Some(d.map_or(x, |y| y.min(x)));
            }
        }
        d
    }
    fn class(&self, i: usize) -> usize {
        match self.p.slot(i).op {
            OP_OPEN | OP_READ | OP_WRITE | OP_OPENDIR | OP_READDIR | OP_STAT | OP_MUTATE => 2,
            OP_STDIN => 3,
            OP_STDOUT => 4,
            _ => (i != 0) as usize,
        }
    }

    /// bookkeeping of the operation that has just been carried out
    fn finish_pending(&mut self) {
        let (i, op, path, fd, before, injected, len, at) = match self.pending.take() {
            Some(x) => x,
            None => return,
        };
        let (rseq, ret, err, n) = {
            let s = self.p.slot(i);
            (s.rseq, s.rret, s.rerr, s.rlen as usize)
        };
        if rseq == before {
            return;
        }
        let seq = self.s.seq;
        match op {
            OP_OPEN => {
                if ret >= 0 {
                    self.fds.insert(ret as i32, OpenFile { path: path.clone(), data: vec![], opened: seq, done: false, gap: false });
                } else if err != EINTR {
                    self.s.events.push(FileEv::Fail { path: path.clone(), seq, errno: err, injected, dir: false });
                }
                self.s.log(format!("  = open {path} -> {}", if ret < 0 { -(err as i64) } else { 0 }));
            }
            OP_READ => {
                let data = self.p.slot(i).rbuf[..n].to_vec();
                let root = self.s.root.clone();
                if ret < 0 {
                    if err != EINTR {
                        self.s.events.push(FileEv::Fail { path: path.clone(), seq, errno: err, injected, dir: false });
                    }
                } else if let Some(f) = {
                    if self.fds.get(&fd).map_or(true, |f| f.path != path) {
                        // a duplicate of a descriptor known under another number
                        if let Some(o) = self.fds.values().filter(|f| f.path == path).max_by_key(|f| f.opened) {
                            let o = o.clone();
                            self.fds.insert(fd, o);
                        }
                    }
                    self.fds.get_mut(&fd)
                } {
                    let at = at as usize;
                    if at < f.data.len() {
                        // read again from here
                        f.data.truncate(at);
                        f.done = false;
                    } else if at > f.data.len() {
                        f.gap = true;
                    }
                    f.data.extend_from_slice(&data);
                    let size = std::fs::metadata(rel(&root, &f.path)).map(|m| m.len()).unwrap_or(u64::MAX);
                    if f.gap {
                    } else if (ret == 0 && len > 0) || (f.data.len() as u64 >= size && !f.done) {
                        f.done = true;
                        self.s.events.push(FileEv::Full { path: f.path.clone(), data: f.data.clone(), opened: f.opened, seq });
                    }
                }
                self.s.log(format!("  = read {path} -> {}", if ret < 0 { -(err as i64) } else { ret }));
            }
            OP_WRITE => {
                self.s.events.push(FileEv::Write { path: path.clone(), n: if ret < 0 { -(err as i64) } else { ret }, seq });
                self.s.log(format!("  = write {path} -> {}", if ret < 0 { -(err as i64) } else { ret }));
            }
            OP_OPENDIR => {
                if ret < 0 {
                    self.s.events.push(FileEv::Fail { path: path.clone(), seq, errno: err, injected, dir: true });
                }
                self.s.log(format!("  = opendir {path} -> {}", if ret < 0 { -(err as i64) } else { ret }));
            }
            OP_READDIR => {
                if injected {
                    self.s.events.push(FileEv::Fail { path: path.clone(), seq, errno: EIO, injected, dir: true });
                }
                self.s.log(format!("  = readdir {path} -> {ret} entries"));
            }
            _ => {}
        }
    }

    fn run_thread(&mut self, i: usize, w: &mut dyn World) -> Option<End> {
        let op = self.p.slot(i).op;
        let (a0, a1, a2, fd, before) = {
            let s = self.p.slot(i);
            (s.a[0], s.a[1], s.a[2], s.fd, s.rseq)
        };
        let k = self.k.clone();
        let q = self.s.quiet;
        if self.last != Some(i) {
            self.s.switches += 1;
        }
        self.last = Some(i);
        if op != OP_PREEMPT {
            fnv(&mut self.s.order_hash, &[i as u8, op as u8]);
        } else {
            fnv(&mut self.s.order_hash, &[i as u8, 99]);
        }
        let (mut act, mut arg, mut arg2) = (ACT_PASS, 0u64, 0u64);
        match op {
            OP_FWAIT => {
                if self.woken[i] {
                    self.woken[i] = false;
                } else {
                    act = ACT_ERR;
                    arg = 110; // ETIMEDOUT
                }
                self.s.log(format!("t{i} resumes{}", if act == ACT_ERR { " (timeout)" } else { "" }));
            }
            OP_FWAKE => {
                let mut n = 0;
                let mut waiters: Vec<usize> = (0..self.p.nslot())
                    .filter(|j| {
                        let s = self.p.slot(*j);
                        s.state == ST_WAIT && s.op == OP_FWAIT && s.a[0] == a0 && !self.woken[*j]
                    })
                    .collect();
                while n < a1 && !waiters.is_empty() {
                    let j = if a1 >= waiters.len() as u64 - n || waiters.len() == 1 || q {
                        0
                    } else {
                        self.ch.number(waiters.len() as u32) as usize
                    };
                    self.woken[waiters.remove(j)] = true;
                    n += 1;
                }
                arg = n;
                self.s.log(format!("t{i} wakes {n}"));
            }
            OP_EPOLL => {
                self.p.shm().dirty = 0;
                self.s.log(format!("t{i} polls"));
            }
            OP_STDIN => {
                let mut n = self.s.inq.len().min(a0 as usize).min(BUFSZ);
                if n > 0 && !q && k.f_eintr > 0 && self.ch.yes(k.f_eintr) {
                    act = ACT_ERR;
                    arg = EINTR as u64;
                    self.s.fault("stdin interrupted");
                } else {
                    if k.chunk > 0 && n > 1 && !q {
                        // decision 0: everything that is there
                        let c = self.ch.number(k.chunk + 1) as usize;
                        if c > 0 && c < n {
                            n = c;
                            self.s.fault("stdin split");
                        }
                    }
                    let d: Vec<u8> = self.s.inq.drain(..n).collect();
                    self.p.slot_mut(i).buf[..n].copy_from_slice(&d);
                    self.s.in_read += n as u64;
                    arg = n as u64;
                }
                self.s.log(format!("t{i} stdin {}", if act == ACT_ERR { "EINTR".to_string() } else { n.to_string() }));
            }
            OP_STDOUT | OP_STDERR => {
                let n = self.p.slot(i).buflen as usize;
                let mut m = n;
                if !q && n > 0 && k.f_eintr > 0 && self.ch.yes(k.f_eintr) {
                    act = ACT_ERR;
                    arg = EINTR as u64;
                    m = 0;
                    self.s.fault("output interrupted");
                } else if op == OP_STDOUT && k.gone > 0 && self.s.out.len() as u32 >= k.gone {
                    (act, arg) = (ACT_ERR, EPIPE as u64);
                    m = 0;
                    self.s.fault("client closed its end");
                    self.s.refused[0] = true;
                } else if !q && n > 0 && k.f_outfail > 0 && (self.s.refused[2 + (op != OP_STDOUT) as usize] || self.ch.yes(k.f_outfail)) {
                    let (e, name) = [(EPIPE, "output EPIPE"), (ENOSPC, "output ENOSPC"), (EIO, "output EIO")][if self.s.refused[2 + (op != OP_STDOUT) as usize] { 0 } else { self.ch.number(3) as usize }];
                    (act, arg) = (ACT_ERR, e as u64);
                    m = 0;
                    self.s.fault(name);
                    self.s.refused[(op != OP_STDOUT) as usize] = true;
                    // nobody reads a closed pipe again
                    self.s.refused[2 + (op != OP_STDOUT) as usize] |= e == EPIPE;
                } else if !q && n > 1 && k.f_outshort > 0 && self.ch.yes(k.f_outshort) {
                    m = 1 + self.ch.number(n as u32 - 1) as usize;
                    act = ACT_LIMIT;
                    arg = m as u64;
                    self.s.fault("output short write");
                }
                let d = self.p.slot(i).buf[..m].to_vec();
                let mut h = 0;
                fnv(&mut h, &d);
                self.s.log(format!("t{i} {} {m}/{n} {h:x}", if op == OP_STDOUT { "stdout" } else { "stderr" }));
                if op == OP_STDOUT {
                    self.s.out.extend_from_slice(&d);
                    let (l, sq) = (self.s.out.len(), self.s.seq);
                    self.s.out_seq.push((l, sq));
                    w.output(&mut self.s);
                } else {
                    self.s.err.extend_from_slice(&d);
                }
            }
            OP_OPEN | OP_READ | OP_WRITE | OP_OPENDIR | OP_READDIR | OP_STAT | OP_MUTATE => {
                let path = self.p.path(i);
                let mut injected = false;
                match op {
                    OP_OPEN => {
                        if a1 == 0 {
                            let seq = self.s.seq;
                            self.s.events.push(FileEv::Look { path: path.clone(), seq, dir: false });
                        }
                        if a1 != 0 {
                            let seq = self.s.seq;
                            self.s.events.push(FileEv::Mutate { what: "open for writing".into(), path: path.clone(), seq });
                        }
                        if !q && k.f_eintr > 0 && self.ch.yes(k.f_eintr) {
                            (act, arg) = (ACT_ERR, EINTR as u64);
                            self.s.fault("open EINTR");
                        } else {
                            let f = if a1 != 0 { k.f_write } else { k.f_open };
                            if !q && f > 0 && self.ch.yes(f) {
                                let (e, name) = if a1 != 0 {
                                    [(ENOSPC, "output open ENOSPC"), (EACCES, "output open EACCES"), (EIO, "output open EIO")][self.ch.number(3) as usize]
                                } else {
                                    [(EACCES, "open EACCES"), (ENOENT, "open ENOENT"), (ENFILE, "open EMFILE"), (EIO, "open EIO")][self.ch.number(4) as usize]
                                };
                                (act, arg) = (ACT_ERR, e as u64);
                                injected = true;
                                self.s.fault(name);
                            }
                        }
                    }
                    OP_READ => {
                        if !q && k.f_eintr > 0 && self.ch.yes(k.f_eintr) {
                            (act, arg) = (ACT_ERR, EINTR as u64);
                            self.s.fault("read EINTR");
                        } else if !q && k.f_read > 0 && self.ch.yes(k.f_read) {
                            (act, arg) = (ACT_ERR, EIO as u64);
                            injected = true;
                            self.s.fault("read EIO");
                        } else if !q && k.f_short > 0 && a0 > 1 && self.ch.yes(k.f_short) {
                            (act, arg) = (ACT_LIMIT, 1 + self.ch.number(a0.min(300) as u32 - 1) as u64);
                            self.s.fault("read short");
                        }
                    }
                    OP_WRITE => {
                        if !q && k.f_eintr > 0 && self.ch.yes(k.f_eintr) {
                            (act, arg) = (ACT_ERR, EINTR as u64);
                            self.s.fault("write EINTR");
                        } else if !q && k.f_write > 0 && self.ch.yes(k.f_write) {
                            if a0 > 1 && self.ch.yes(60) {
                                (act, arg) = (ACT_LIMIT, 1 + self.ch.number(a0 as u32 - 1) as u64);
                                self.s.fault("write short");
                            } else {
                                let (e, name) = [(ENOSPC, "write ENOSPC"), (EIO, "write EIO"), (122, "write EDQUOT")][self.ch.number(3) as usize];
                                (act, arg) = (ACT_ERR, e as u64);
                                injected = true;
                                self.s.fault(name);
                            }
                        }
                        if !q && k.f_kill > 0 && self.ch.yes(k.f_kill) {
                            arg2 = 1;
                            self.s.fault("crash after write");
                        }
                    }
                    OP_OPENDIR => {
                        let seq = self.s.seq;
                        self.s.events.push(FileEv::Look { path: path.clone(), seq, dir: true });
                        if !q && k.f_dir > 0 && self.ch.yes(k.f_dir) {
                            let (e, name) = [(EACCES, "opendir EACCES"), (ENFILE, "opendir EMFILE"), (ENOENT, "opendir ENOENT")][self.ch.number(3) as usize];
                            (act, arg) = (ACT_ERR, e as u64);
                            injected = true;
                            self.s.fault(name);
                        }
                    }
                    OP_READDIR => {
                        if k.shuffle {
                            arg2 = self.ch.number(1 << 20) as u64;
                            if arg2 != 0 {
                                self.s.fault("directory order shuffled");
                            }
                        }
                        if !q && k.f_dir > 0 && self.ch.yes(k.f_dir) {
                            (act, arg) = (ACT_ERR, ((self.ch.number(4) as u64) << 16) | EIO as u64);
                            injected = true;
                            self.s.fault("readdir EIO");
                        }
                    }
                    OP_STAT => {
                        if !q && k.f_open > 0 && self.ch.yes(k.f_open) {
                            (act, arg) = (ACT_ERR, [ENOENT, EACCES, EIO][self.ch.number(3) as usize] as u64);
                            let seq = self.s.seq;
                            self.s.events.push(FileEv::Fail { path: path.clone(), seq, errno: arg as i32, injected: true, dir: false });
                            self.s.fault("stat error");
                        }
                    }
                    _ => {
                        let seq = self.s.seq;
                        let (what, p) = path.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((path.clone(), String::new()));
                        match what.strip_prefix("escape:") {
                            Some(x) => self.s.events.push(FileEv::Look { path: format!("!{x} {p}"), seq, dir: false }),
                            None => self.s.events.push(FileEv::Mutate { what, path: p, seq }),
                        }
                    }
                }
                self.s.log(format!("t{i} {} {path}{}", OPNAMES[op as usize], match act {
                    ACT_ERR => format!(" FAULT errno {}", arg & 0xffff),
                    ACT_LIMIT => format!(" LIMIT {arg}"),
                    _ => String::new(),
                }));
                self.pending = Some((i, op, path, fd, before, injected, a0, a2));
            }
            OP_START => {
                if !k.preempt.is_empty() {
                    self.p.shm().mallocs_on = 1;
                }
                self.s.log(format!("t{i} starts"));
            }
            OP_PREEMPT => self.s.log(format!("t{i} continues after allocation {a0}")),
            _ => self.s.log(format!("t{i} {}", OPNAMES[op as usize])),
        }
        if k.f_crash > 0 && !q && self.ch.yes(k.f_crash) {
            act = ACT_KILL;
            self.s.fault("crash");
            self.s.log(format!("t{i} killed"));
        }
        self.s.points += 1;
        self.p.grant(i, act, arg, arg2);
        match self.p.wait_stop() {
            Stop::Point => {}
            Stop::Exited(st) => return Some(End::Exited(st)),
            Stop::Stuck => return Some(End::Stuck),
        }
        self.finish_pending();
        None
    }

    pub fn run(&mut self, w: &mut dyn World) -> End {
        match self.p.wait_stop() {
            Stop::Point => {}
            Stop::Exited(st) => return End::Exited(st),
            Stop::Stuck => return End::Stuck,
        }
        loop {
            self.s.seq += 1;
            self.s.steps += 1;
            self.s.now += 10_000;
            self.p.shm().now_ns = self.s.now;
            if self.s.steps > self.max_steps {
                return End::Steps;
            }
            if self.p.shm().unknown_futex != 0 {
                return End::Stuck;
            }
            let n = self.p.nslot();
            let mut opts: Vec<usize> = (0..n).filter(|i| self.enabled(*i)).collect();
            self.s.rest = opts.is_empty();
            if self.s.rest {
                self.census();
            }
            if self.s.quiet {
                // fair: every runnable thread in turn
                if !opts.is_empty() {
                    let i = *opts.iter().find(|i| **i >= self.rr).unwrap_or(&opts[0]);
                    self.rr = i + 1;
                    if let Some(e) = self.run_thread(i, w) {
                        return e;
                    }
                    continue;
                }
                if w.ready(&self.s) {
                    w.step(&mut self.s);
                    continue;
                }
                if self.jump() {
                    continue;
                }
                if w.idle(&mut self.s) {
                    continue;
                }
                self.describe_threads();
                return End::Idle;
            }
            // default first: the running thread, then the others
            if let Some(l) = self.last {
                if let Some(p) = opts.iter().position(|x| *x == l) {
                    if self.p.slot(l).op != OP_YIELD {
                        opts.remove(p);
                        opts.insert(0, l);
                    }
                }
            }
            let client = w.ready(&self.s);
            let dl = self.deadline();
            // spurious futex wake-up
            if self.k.f_spurious > 0 && self.ch.yes(self.k.f_spurious) {
                let c: Vec<usize> = (0..n)
                    .filter(|j| {
                        let s = self.p.slot(*j);
                        s.state == ST_WAIT && s.op == OP_FWAIT && !self.woken[*j]
                    })
                    .collect();
                if !c.is_empty() {
                    let j = c[self.ch.number(c.len() as u32) as usize];
                    self.woken[j] = true;
                    self.s.fault("spurious wake-up");
                    self.s.log(format!("t{j} spurious wake-up"));
                    continue;
                }
            }
            // the machine was suspended, or everything is slow
            if self.k.f_leap > 0 && self.ch.yes(self.k.f_leap) {
                let d = [1u64, 50, 300, 2_000, 11_000, 70_000, 4_000_000][self.ch.number(7) as usize] * 1_000_000;
                self.s.now += d;
                self.p.shm().now_ns = self.s.now;
                self.s.fault("clock leap");
                self.s.log(format!("{} ms pass", d / 1_000_000));
            }
            let mut weights: Vec<u32> = opts.iter().map(|i| self.k.w[self.class(*i)]).collect();
            if !opts.is_empty() && self.last == Some(opts[0]) {
                weights[0] *= self.k.sticky.max(1);
            }
            let nt = opts.len();
            weights.push(if client { self.k.w[5] } else { 0 });
            weights.push(if dl.is_some() && nt > 0 { self.k.w[6].min(1) } else { 0 });
            if nt == 0 && !client {
                if self.jump() {
                    continue;
                }
                if w.done() {
                    self.s.quiet = true;
                    continue;
                }
                if w.idle(&mut self.s) {
                    continue;
                }
                return End::Idle;
            }
            let c = if nt == 0 && dl.is_none() {
                nt
            } else if nt == 1 && !client && weights[nt + 1] == 0 {
                0
            } else {
                self.ch.pick(&weights)
            };
            if c < nt {
                if let Some(e) = self.run_thread(opts[c], w) {
                    return e;
                }
            } else if c == nt {
                if client {
                    fnv(&mut self.s.order_hash, &[200]);
                    w.step(&mut self.s);
                } else {
                    self.jump();
                }
            } else {
                self.jump();
            }
            if w.done() && !self.s.quiet && self.s.steps * 2 > self.max_steps {
                self.s.quiet = true;
            }
        }
    }
    fn census(&mut self) {
        if !self.k.census {
            return;
        }
        self.s.live = self.p.shm().live;
        self.s.threads = (0..self.p.nslot()).filter(|i| !matches!(self.p.slot(*i).state, ST_DEAD | ST_FREE)).count();
        self.s.held.clear();
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/fd", self.p.pid())) {
            for e in d.flatten() {
                if let Ok(t) = std::fs::read_link(e.path()) {
                    if let Ok(r) = t.strip_prefix(&self.s.root) {
                        use std::os::unix::ffi::OsStrExt;
                        self.s.held.push(crate::sys::un(r.as_os_str().as_bytes()));
                    }
                }
            }
        }
        self.s.held.sort();
    }
    /// what every thread is waiting for, for the trace
    fn describe_threads(&mut self) {
        for i in 0..self.p.nslot() {
            let (st, op, a) = {
                let s = self.p.slot(i);
                (s.state, s.op, s.a)
            };
            let t = match (st, op) {
                (ST_DEAD, _) | (ST_FREE, _) => "has ended".to_string(),
                (_, OP_JOIN) => format!("waits for the end of t{}", a[0]),
                (_, OP_FWAIT) => "waits to be woken".to_string(),
                (_, OP_STDIN) => "waits for input".to_string(),
                _ => format!("waits in {}", OPNAMES[op as usize]),
            };
            self.s.log(format!("t{i} {t}"));
        }
    }
    fn jump(&mut self) -> bool {
        match self.deadline() {
            Some(d) => {
                self.s.now = d;
                self.p.shm().now_ns = d;
                self.s.log("time passes".into());
                true
            }
            None => false,
        }
    }
    pub fn kill(&mut self) {
        self.p.kill();
    }
    pub fn rand_bytes(&mut self) -> u64 {
        self.p.shm().rand_bytes
    }
}
