mod choice;
mod cli;
mod gen;
mod lsp;
mod lspgen;
mod oracle;
mod run;
mod sim;
mod sys;
mod threads;
use run::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("selftest") => selftest(&a[2..]),
        Some("gen") => gentest(a[2].parse().unwrap()),
        Some("one") => one(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: dst check PROPERTY | replay FILE | selftest [RUNS] | one PROPERTY INDEX | gen N");
            2
        }
    };
    std::process::exit(code);
}
