//! Reference verdicts: the library called on complete byte strings, every call in a process of
//! its own (forked from this single-threaded one), so that nothing survives between calls.
//! Protocol on stdin: one JSON array per line [op, domain_hex, problem_hex|null]; one JSON line back.
use hddl_analyzer::HDDLAnalyzer;
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::os::fd::FromRawFd;
fn unhex(v: &Value) -> Option<Vec<u8>> {
    let s = v.as_str()?;
    Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}
fn compute(op: &str, d: Vec<u8>, p: Option<Vec<u8>>) -> Value {
    let err = |e: hddl_analyzer::ParsingError| json!({"ok": false, "message": e.to_string(), "debug": format!("{:?}", e)});
    match op {
        "verify" => match HDDLAnalyzer::verify(&d, p.as_ref()) {
            Ok(w) => json!({"ok": true, "out": w.iter().map(|x| x.to_string()).collect::<Vec<_>>()}),
            Err(e) => err(e),
        },
        "metadata" => match HDDLAnalyzer::get_metadata(&d, p.as_ref()) {
            Ok(m) => json!({"ok": true, "out": [m.to_string()]}),
            Err(e) => err(e),
        },
        _ => match HDDLAnalyzer::to_json(&d, p.as_ref()) {
            Ok(m) => json!({"ok": true, "out": [m]}),
            Err(e) => err(e),
        },
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let op = v[0].as_str().unwrap().to_string();
        let d = unhex(&v[1]).unwrap();
        let p = unhex(&v[2]);
        let mut fds = [0i32; 2];
        let text = unsafe {
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                std::process::exit(3);
            }
            let pid = libc::fork();
            if pid < 0 {
                std::process::exit(3);
            }
            if pid == 0 {
                let lim = libc::rlimit { rlim_cur: 10, rlim_max: 12 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let r = std::panic::catch_unwind(|| compute(&op, d, p)).unwrap_or_else(|_| json!({"panic": true}));
                let mut w = std::fs::File::from_raw_fd(fds[1]);
                let _ = w.write_all(r.to_string().as_bytes());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut r = std::fs::File::from_raw_fd(fds[0]);
            let mut s = String::new();
            let _ = r.read_to_string(&mut s);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if st != 0 || s.is_empty() {
                s = json!({"panic": true, "status": st}).to_string();
            }
            s
        };
        writeln!(out, "{}", text).unwrap();
        out.flush().unwrap();
    }
}
