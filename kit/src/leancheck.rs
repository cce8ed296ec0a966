//! C19: definitions in a crate that has little more than structmeta.
//!
//! The crates compiled here depend on structmeta, and on syn, quote and proc-macro2 under other
//! names and with their default features only: the derived code has to do without the rest.
use crate::engine::*;
use kit::def::Def;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs;
use std::process::Stdio;
use std::time::{Duration, Instant};

const CRATES: [&str; 3] = ["syn", "quote", "proc_macro2"];

/// `syn::X` as `the_syn::X`; nothing if the text refers to crates that are not there
fn renamed(text: &str) -> Option<String> {
    if text.contains("kit::") || text.contains("glue::") || ["Debug", "PartialEq", "Hash)", "Hash,"].iter().any(|t| text.contains(t)) {
        return None;
    }
    // by its path, this type is known under the usual name of the crate
    if text.lines().any(|l| l.contains("MacroDelimiter") && !l.contains(" use ") && l.contains("syn")) {
        return None;
    }
    let b = text.as_bytes();
    let word = |c: u8| c == b'_' || c.is_ascii_alphanumeric() || c >= 0x80;
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if word(b[i]) && (i == 0 || !word(b[i - 1])) {
            let e = (i..b.len()).find(|&j| !word(b[j])).unwrap_or(b.len());
            let w = &text[i..e];
            if CRATES.contains(&w) {
                let before = text[..i].trim_end();
                let inner = before.strip_suffix("::").is_some_and(|t| t.ends_with(|c: char| c == '_' || c == '>' || c.is_alphanumeric()));
                let module = before.ends_with("mod") && text[e..].starts_with(" {}");
                if text[e..].starts_with("::") && !inner && !before.ends_with('#') {
                    out.push_str("the_");
                } else if !module && !inner {
                    return None;
                }
            }
            out.push_str(w);
            i = e;
        } else {
            let n = text[i..].chars().next().map_or(1, |c| c.len_utf8());
            out.push_str(&text[i..i + n]);
            i += n;
        }
    }
    Some(out)
}

pub enum Lean {
    /// errors by definition
    Ran(usize, BTreeMap<usize, Vec<Diag>>),
    /// structmeta itself does not compile
    Library(String),
}

/// the definitions that can stand in such a crate, compiled
pub fn compile(defs: &[(usize, Def)]) -> H<Lean> {
    fresh_repo()?;
    let mods: Vec<GenMod> = defs
        .iter()
        .filter_map(|(i, d)| Some(GenMod { id: *i, edition: d.edition(), source: renamed(&d.plain(*i))?, entry: String::new() }))
        .collect();
    let shards = share(&mods);
    let ws = root().join("work/lean");
    fs::create_dir_all(&ws)?;
    fs::write(
        ws.join("Cargo.toml"),
        format!(
            "[workspace]\nresolver = \"3\"\nmembers = [{}]\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 2\ndebug = 0\n",
            (0..SHARDS).map(|i| format!("\"l{i}\"")).collect::<Vec<_>>().join(", ")
        ),
    )?;
    let lock = root().join("tools/Cargo.lock");
    if lock.exists() && !ws.join("Cargo.lock").exists() {
        fs::copy(&lock, ws.join("Cargo.lock"))?;
    }
    for (i, s) in shards.iter().enumerate() {
        let d = ws.join(format!("l{i}"));
        let src = d.join("src");
        if src.exists() {
            fs::remove_dir_all(&src)?;
        }
        fs::create_dir_all(&src)?;
        fs::write(
            d.join("Cargo.toml"),
            format!(
                "[package]\nname = \"l{i}\"\nversion = \"0.0.0\"\nedition = \"{}\"\n[dependencies]\nstructmeta = {{ path = \"/repo/structmeta\" }}\nthe_syn = {{ package = \"syn\", version = \"3.0.0\" }}\nthe_quote = {{ package = \"quote\", version = \"1\" }}\nthe_proc_macro2 = {{ package = \"proc-macro2\", version = \"1\" }}\n",
                EDITIONS[s.first().map_or(0, |m| m.edition as usize)]
            ),
        )?;
        let mut m = String::from("#![allow(warnings, bindings_with_variant_name)]\n#![recursion_limit = \"512\"]\n");
        for g in s {
            fs::write(src.join(format!("f{}.rs", g.id)), &g.source)?;
            m.push_str(&format!("mod f{};\n", g.id));
        }
        fs::write(src.join("lib.rs"), m)?;
    }
    let mut cmd = cargo();
    cmd.current_dir(&ws).args(["check", "--offline", "--keep-going", "--message-format=json"]).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = with_timeout(cmd, Duration::from_secs(600))?;
    let (failed, stray) = messages(&out.0);
    if !out.2 && failed.is_empty() {
        let e = String::from_utf8_lossy(&out.1);
        if e.contains("could not compile `structmeta") {
            return Ok(Lean::Library(stray.join("\n")));
        }
        return herr(format!("build failed:\n{}\n{e}", stray.join("\n")));
    }
    Ok(Lean::Ran(mods.len(), failed))
}

fn found(d: &Def, ds: &[Diag]) -> Found {
    Found {
        detail: format!("a well-formed definition does not compile in a crate without further dependencies and features: {}", ds[0].message),
        definition: d.source(),
        input: ds.iter().take(3).map(|d| d.rendered.clone()).collect(),
        kind: "lean".into(),
        data: json!({ "def": d, "case": null }),
        signature: String::new(),
    }
}
fn library(e: String) -> Found {
    Found {
        detail: "structmeta does not compile next to syn with its default features".into(),
        definition: "(the crate itself)".into(),
        input: vec![e],
        kind: "lean".into(),
        data: json!({ "def": null, "case": null }),
        signature: String::new(),
    }
}

/// number of definitions compiled, and what failed
pub fn check(defs: &[(usize, Def)], t0: Instant) -> H<(usize, Vec<Found>)> {
    let (n, failed) = match compile(defs)? {
        Lean::Library(e) => return Ok((0, vec![library(e)])),
        Lean::Ran(n, f) => (n, f),
    };
    let get = |v: &[(usize, Def)], i: usize| v.iter().find(|d| d.0 == i).map(|d| d.1.clone());
    let mut out: Vec<Found> = failed.iter().filter_map(|(i, ds)| Some(found(&get(defs, *i)?, ds))).collect();
    out.sort_by_key(|f| f.definition.len());
    // smaller definitions that still fail
    let mut cur: Option<Def> = out.first().and_then(|f| serde_json::from_value(f.data["def"].clone()).ok());
    for _ in 0..4 {
        let Some(d) = &cur else { break };
        if t0.elapsed() > Duration::from_secs(500) {
            break;
        }
        let cands: Vec<(usize, Def)> = d.smaller().into_iter().take(40).enumerate().collect();
        if cands.is_empty() {
            break;
        }
        let Ok(Lean::Ran(_, failed)) = compile(&cands) else { break };
        let Some(f) = failed.iter().filter_map(|(i, ds)| Some(found(&get(&cands, *i)?, ds))).min_by_key(|f| f.definition.len()) else { break };
        cur = serde_json::from_value(f.data["def"].clone()).ok();
        out.insert(0, f);
    }
    Ok((n, out))
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let defs: Vec<(usize, Def)> = serde_json::from_value(r.data["def"].clone()).ok().map(|d| (0, d)).into_iter().collect();
    Ok(match compile(&defs)? {
        Lean::Library(e) => Some(e),
        Lean::Ran(_, f) => f.into_values().next().map(|d| d[0].rendered.clone()),
    })
}
