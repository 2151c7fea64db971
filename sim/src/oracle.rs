//! Client of the reference process; verdicts are cached by content.
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok(Vec<String>),
    Err(Report),
    Panic,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    pub message: String,
    /// 1-based, if the error carries a position
    pub line: Option<u32>,
    pub syntax: bool,
}

pub struct Oracle {
    bin: PathBuf,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    cache: HashMap<(u64, u64, u8), Verdict>,
    pub calls: u64,
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// the last "line: N" of the debug form or the last "line N" of the message is the position
fn find_line(msg: &str, debug: &str) -> Option<u32> {
    let num = |s: &str| -> Option<u32> {
        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
        d.parse().ok()
    };
    if let Some(i) = msg.rfind("redefined in line ") {
        return num(&msg[i + 18..]);
    }
    if let Some(rest) = msg.strip_prefix("line ") {
        if let Some(n) = num(rest) {
            return Some(n);
        }
    }
    debug.rfind("line: ").and_then(|i| num(&debug[i + 6..]))
}
impl Oracle {
    pub fn new(bin: &Path) -> Oracle {
        Oracle { bin: bin.to_path_buf(), child: None, cache: HashMap::new(), calls: 0 }
    }
    fn spawn(&self) -> (Child, ChildStdin, BufReader<ChildStdout>) {
        use std::os::unix::process::CommandExt;
        let mut cmd = Command::new(&self.bin);
        unsafe {
            cmd.pre_exec(|| {
                let lim = libc::rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 600, rlim_max: 602 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut c = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("oracle");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        (c, i, o)
    }
    pub fn call(&mut self, op: &str, d: &[u8], p: Option<&[u8]>) -> Verdict {
        let key = (crate::choice::hash(d), p.map_or(7, crate::choice::hash), op.as_bytes()[0]);
        if let Some(v) = self.cache.get(&key) {
            return v.clone();
        }
        if self.cache.len() > 20_000 {
            self.cache.clear();
        }
        self.calls += 1;
        if self.child.is_none() {
            self.child = Some(self.spawn());
        }
        let (_, i, o) = self.child.as_mut().unwrap();
        let req = json!([op, hex(d), p.map(hex)]);
        let mut line = String::new();
        let ok = writeln!(i, "{req}").and_then(|_| i.flush()).and_then(|_| o.read_line(&mut line)).map(|n| n > 0).unwrap_or(false);
        let v = if !ok {
            self.stop();
            Verdict::Panic
        } else {
            let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
            if v["ok"] == true {
                Verdict::Ok(v["out"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default())
            } else if v["ok"] == false {
                let message = v["message"].as_str().unwrap_or("").to_string();
                let debug = v["debug"].as_str().unwrap_or("").to_string();
                Verdict::Err(Report { line: find_line(&message, &debug), syntax: !debug.starts_with("Semantic"), message })
            } else {
                Verdict::Panic
            }
        };
        self.cache.insert(key, v.clone());
        v
    }
    pub fn stop(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// the parse error of a problem text on its own, if it has one
    pub fn problem_syntax(&mut self, p: &[u8]) -> Result<Option<Report>, ()> {
        const D: &[u8] = b"(define (domain d))";
        match self.call("verify", D, Some(p)) {
            Verdict::Err(r) if r.syntax => Ok(Some(r)),
            Verdict::Panic => Err(()),
            _ => Ok(None),
        }
    }
}
impl Drop for Oracle {
    fn drop(&mut self) {
        self.stop();
    }
}
