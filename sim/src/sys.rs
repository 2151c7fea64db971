//! The seam: one real process under the preloaded shim, one thread running at a time.
use std::ffi::CString;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub const NSLOT: usize = 96;
pub const BUFSZ: usize = 65536;
pub const PATHSZ: usize = 1024;
pub const NPREEMPT: usize = 256;

pub const OP_START: u32 = 1;
pub const OP_FWAIT: u32 = 2;
pub const OP_FWAKE: u32 = 3;
pub const OP_EPOLL: u32 = 4;
pub const OP_SLEEP: u32 = 5;
pub const OP_YIELD: u32 = 6;
pub const OP_JOIN: u32 = 7;
pub const OP_OPEN: u32 = 9;
pub const OP_READ: u32 = 10;
pub const OP_WRITE: u32 = 11;
pub const OP_STDIN: u32 = 12;
pub const OP_STDOUT: u32 = 13;
pub const OP_STDERR: u32 = 14;
pub const OP_OPENDIR: u32 = 15;
pub const OP_READDIR: u32 = 16;
pub const OP_STAT: u32 = 17;
pub const OP_MUTATE: u32 = 18;
pub const OP_PREEMPT: u32 = 19;

pub const OPNAMES: [&str; 21] = [
    "none", "start", "fwait", "fwake", "epoll", "sleep", "yield", "join", "exit", "open", "read",
    "write", "stdin", "stdout", "stderr", "opendir", "readdir", "stat", "mutate", "preempt", "abort",
];

pub const ST_FREE: u32 = 0;
pub const ST_WAIT: u32 = 1;
pub const ST_RUN: u32 = 2;
pub const ST_DEAD: u32 = 3;

pub const ACT_PASS: u32 = 0;
pub const ACT_ERR: u32 = 1;
pub const ACT_LIMIT: u32 = 2;
pub const ACT_KILL: u32 = 3;

#[repr(C)]
pub struct Slot {
    pub go: u32,
    pub state: u32,
    pub op: u32,
    pub fd: i32,
    pub a: [u64; 4],
    pub act: u32,
    pub tid: i32,
    pub arg: u64,
    pub arg2: u64,
    pub rseq: u64,
    pub rret: i64,
    pub rerr: i32,
    pub buflen: u32,
    pub rlen: u32,
    pub gen: u32,
    pub path: [u8; PATHSZ],
    pub buf: [u8; BUFSZ],
    pub rbuf: [u8; BUFSZ],
}
#[repr(C)]
pub struct Shm {
    pub magic: u32,
    pub nslot: u32,
    pub now_ns: u64,
    pub rng: u64,
    pub dirty: u32,
    pub mallocs_on: u32,
    pub malloc_count: u64,
    pub npreempt: u32,
    pub ipreempt: u32,
    pub preempt: [u64; NPREEMPT],
    pub last_wake_slot: u32,
    pub unknown_futex: u32,
    pub rand_bytes: u64,
    pub live: i64,
    pub s: [Slot; NSLOT],
}

pub enum Stop {
    Point,
    Exited(i32), // wait status
    Stuck,
}

pub struct Proc {
    shm: *mut Shm,
    memfd: i32,
    evfd: i32,
    pidfd: i32,
    child: Child,
    pub status: Option<i32>,
    running: Option<usize>,
}

pub struct SpawnCfg<'a> {
    pub bin: &'a Path,
    pub shim: &'a Path,
    pub args: Vec<String>,
    pub root: &'a Path,
    pub workers: u32,
    pub hash_seed: u64,
    pub preempt: &'a [u64],
    pub cpu_s: u64,
}

impl Proc {
    pub fn spawn(c: &SpawnCfg) -> Result<Proc, String> {
        unsafe {
            let name = CString::new("dst").unwrap();
            let memfd = libc::memfd_create(name.as_ptr(), libc::MFD_CLOEXEC);
            let evfd = libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK);
            if memfd < 0 || evfd < 0 {
                return Err("memfd/eventfd".into());
            }
            let size = std::mem::size_of::<Shm>();
            if libc::ftruncate(memfd, size as i64) != 0 {
                return Err("ftruncate".into());
            }
            let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, memfd, 0);
            if p == libc::MAP_FAILED {
                return Err("mmap".into());
            }
            let shm = p as *mut Shm;
            (*shm).magic = 0x44535431;
            (*shm).now_ns = 1_000_000_000_000;
            (*shm).rng = c.hash_seed;
            (*shm).npreempt = c.preempt.len().min(NPREEMPT) as u32;
            for (i, x) in c.preempt.iter().take(NPREEMPT).enumerate() {
                (*shm).preempt[i] = *x;
            }
            let mut cmd = Command::new(c.bin);
            cmd.args(&c.args)
                .env_clear()
                .env("LD_PRELOAD", c.shim)
                .env("DST_FD", "200,201")
                .env("DST_ROOT", c.root)
                .env("TOKIO_WORKER_THREADS", c.workers.to_string())
                .env("MALLOC_ARENA_MAX", "1")
                .env("RUST_BACKTRACE", "0")
                .current_dir(c.root)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null());
            let cpu = c.cpu_s;
            cmd.pre_exec(move || {
                libc::dup2(memfd, 200);
                libc::dup2(evfd, 201);
                libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
                let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let lim = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &lim);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let child = cmd.spawn().map_err(|e| format!("spawn {}: {e}", c.bin.display()))?;
            let pidfd = libc::syscall(libc::SYS_pidfd_open, child.id() as i32, 0) as i32;
            if pidfd < 0 {
                return Err("pidfd_open".into());
            }
            Ok(Proc { shm, memfd, evfd, pidfd, child, status: None, running: Some(0) })
        }
    }
    pub fn shm(&mut self) -> &mut Shm {
        unsafe { &mut *self.shm }
    }
    pub fn slot(&self, i: usize) -> &Slot {
        unsafe { &(*self.shm).s[i] }
    }
    pub fn slot_mut(&mut self, i: usize) -> &mut Slot {
        unsafe { &mut (*self.shm).s[i] }
    }
    pub fn nslot(&self) -> usize {
        unsafe { std::ptr::read_volatile(&(*self.shm).nslot) as usize }
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    pub fn path(&self, i: usize) -> String {
        let p = &self.slot(i).path;
        let n = p.iter().position(|c| *c == 0).unwrap_or(0);
        un(&p[..n])
    }
    fn reap(&mut self) -> i32 {
        if let Some(s) = self.status {
            return s;
        }
        use std::os::unix::process::ExitStatusExt;
        let s = self.child.wait().map(|x| x.into_raw()).unwrap_or(-1);
        self.status = Some(s);
        s
    }
    /// waits until the thread that holds the token reaches its next point
    pub fn wait_stop(&mut self) -> Stop {
        let r = match self.running {
            Some(r) => r,
            None => return Stop::Point,
        };
        loop {
            let mut fds = [
                libc::pollfd { fd: self.evfd, events: libc::POLLIN, revents: 0 },
                libc::pollfd { fd: self.pidfd, events: libc::POLLIN, revents: 0 },
            ];
            let n = unsafe { libc::poll(fds.as_mut_ptr(), 2, 60_000) };
            if n == 0 {
                self.kill();
                return Stop::Stuck;
            }
            if n < 0 {
                continue;
            }
            if fds[0].revents != 0 {
                let mut v = 0u64;
                unsafe { libc::read(self.evfd, &mut v as *mut u64 as *mut libc::c_void, 8) };
                let st = unsafe { std::ptr::read_volatile(&(*self.shm).s[r].state) };
                if st == ST_WAIT {
                    self.running = None;
                    return Stop::Point;
                }
                if st == ST_DEAD {
                    // let the kernel thread disappear so that nothing runs beside the next one
                    let tid = self.slot(r).tid;
                    let pid = self.child.id() as i32;
                    while unsafe { libc::syscall(libc::SYS_tgkill, pid, tid, 0) } == 0 {
                        unsafe { libc::sched_yield() };
                        let mut p = [libc::pollfd { fd: self.pidfd, events: libc::POLLIN, revents: 0 }];
                        if unsafe { libc::poll(p.as_mut_ptr(), 1, 0) } == 1 {
                            break;
                        }
                    }
                    self.slot_mut(r).state = ST_FREE;
                    self.running = None;
                    return Stop::Point;
                }
            }
            if fds[1].revents != 0 {
                self.running = None;
                return Stop::Exited(self.reap());
            }
        }
    }
    pub fn grant(&mut self, i: usize, act: u32, arg: u64, arg2: u64) {
        unsafe {
            let s = &mut (*self.shm).s[i];
            s.act = act;
            s.arg = arg;
            s.arg2 = arg2;
            s.state = ST_RUN;
            self.running = Some(i);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            std::ptr::write_volatile(&mut s.go, 1);
            libc::syscall(libc::SYS_futex, &mut s.go as *mut u32, libc::FUTEX_WAKE, 1, 0, 0, 0);
        }
    }
    pub fn kill(&mut self) {
        if self.status.is_none() {
            let _ = self.child.kill();
            self.reap();
        }
        self.running = None;
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
        unsafe {
            libc::munmap(self.shm as *mut libc::c_void, std::mem::size_of::<Shm>());
            libc::close(self.memfd);
            libc::close(self.evfd);
            libc::close(self.pidfd);
        }
    }
}

pub fn pin(core: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let all: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if all.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(all[core % all.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// scratch directory of one worker, removed on drop
pub struct Scratch {
    pub root: PathBuf,
}
impl Scratch {
    pub fn new(tag: &str, worker: usize) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let root = PathBuf::from(format!("{base}/dst-{tag}-{:08}-w{:02}", std::process::id(), worker));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).expect("scratch");
        Scratch { root }
    }
    pub fn clear(&self) {
        if let Ok(rd) = std::fs::read_dir(&self.root) {
            for e in rd.flatten() {
                let p = e.path();
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// names are kept as text; the byte 0xff, which is no text, is written as U+F8FF
pub fn os(p: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in p.chars() {
        if c == '\u{f8ff}' {
            v.push(0xff);
        } else {
            v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        }
    }
    std::ffi::OsString::from_vec(v)
}
pub fn un(b: &[u8]) -> String {
    let mut v = Vec::with_capacity(b.len());
    for c in b {
        if *c == 0xff {
            v.extend_from_slice("\u{f8ff}".as_bytes());
        } else {
            v.push(*c);
        }
    }
    String::from_utf8_lossy(&v).into_owned()
}
