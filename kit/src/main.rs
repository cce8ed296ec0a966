//! `smv check <ID> <tier>` / `smv replay <FILE>`: decides the properties.
mod badcheck;
mod detcheck;
mod dumpcheck;
mod engine;
mod gencheck;
mod leancheck;
mod lintcheck;
mod pmcheck;

use std::process::exit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            engine::check(&id, &tier)
        }
        Some("prepare") => match engine::fresh_repo().and_then(|_| engine::build(&[], false)).and_then(|_| pmcheck::prepare()) {
            Ok(_) => 0,
            Err(e) => {
                eprintln!("ERROR {}", e.0);
                2
            }
        },
        Some("replay") => engine::replay(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("show") => {
            let n: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(3);
            engine::show(&a[2], n);
            0
        }
        _ => {
            eprintln!("usage: smv check <ID> <quick|thorough> | smv replay <FILE> | smv show <ID> <n>");
            2
        }
    };
    exit(code);
}
