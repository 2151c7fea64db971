//! Caller threads: each makes its calls of the library, the results are printed at the end.
use hddl_analyzer::HDDLAnalyzer;
use serde_json::{json, Value};
use std::sync::Arc;
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn call(op: &str, d: &Vec<u8>, p: Option<&Vec<u8>>) -> Value {
    let err = |e: hddl_analyzer::ParsingError| json!({"ok": false, "message": e.to_string(), "debug": format!("{:?}", e)});
    match op {
        "verify" => match HDDLAnalyzer::verify(d, p) {
            Ok(w) => json!({"ok": true, "out": w.iter().map(|x| x.to_string()).collect::<Vec<_>>()}),
            Err(e) => err(e),
        },
        "metadata" => match HDDLAnalyzer::get_metadata(d, p) {
            Ok(m) => json!({"ok": true, "out": [m.to_string()]}),
            Err(e) => err(e),
        },
        _ => match HDDLAnalyzer::to_json(d, p) {
            Ok(m) => json!({"ok": true, "out": [m]}),
            Err(e) => err(e),
        },
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v: Value = serde_json::from_slice(&std::fs::read("calls.json").unwrap()).unwrap();
    let texts: Arc<Vec<Vec<u8>>> = Arc::new(v["texts"].as_array().unwrap().iter().map(|t| unhex(t.as_str().unwrap())).collect());
    let mut hs = vec![];
    for t in v["threads"].as_array().unwrap().clone() {
        let texts = texts.clone();
        let reuse = v["reuse"] == true;
        hs.push(std::thread::spawn(move || {
            let mut out = vec![];
            let most = texts.iter().map(|t| t.len()).max().unwrap_or(0);
            let (mut db, mut pb) = (Vec::with_capacity(most), Vec::with_capacity(most));
            for c in t.as_array().unwrap() {
                let op = c["op"].as_str().unwrap();
                let d = &texts[c["d"].as_u64().unwrap() as usize];
                let p = c["p"].as_u64().map(|p| &texts[p as usize]);
                let (d, p) = if reuse {
                    db.clear();
                    db.extend_from_slice(d);
                    pb.clear();
                    pb.extend_from_slice(p.map_or(&[][..], |p| p));
                    (&db, p.map(|_| &pb))
                } else {
                    (d, p)
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(op, d, p))).unwrap_or_else(|_| json!({"panic": true}));
                out.push(r);
            }
            out
        }));
    }
    let mut res = vec![];
    for h in hs {
        res.push(h.join().unwrap_or_default());
    }
    println!("{}", json!(res));
}
