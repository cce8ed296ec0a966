//! C29: the derives add no warnings of the compiler to the user's code.
//!
//! Every definition is compiled twice, with the derives of structmeta and with derives of the same
//! names and helper attributes that write nothing. The lints reported in the first place must be
//! reported in the second as well.
use crate::engine::*;
use kit::def::Def;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::process::Stdio;
use std::time::{Duration, Instant};

const LINTS: &str = "#![warn(unused, nonstandard_style, future_incompatible, rust_2018_idioms, let_underscore)]\n";
/// lints about what is not used (implementations are uses), and about letters of the whole crate that look alike
const NOT_COMPARED: &[&str] = &["dead_code", "confusable_idents", "mixed_script_confusables", "uncommon_codepoints"];

#[derive(Clone, Debug)]
struct Warning {
    lint: String,
    message: String,
    rendered: String,
    at: (usize, usize),
}

fn write(mods: &[GenMod]) -> H<std::path::PathBuf> {
    let ws = root().join("work/lint");
    fs::create_dir_all(&ws)?;
    let members: Vec<String> = (0..SHARDS).flat_map(|i| [format!("\"r{i}\""), format!("\"n{i}\"")]).collect();
    fs::write(
        ws.join("Cargo.toml"),
        format!(
            "[workspace]\nresolver = \"3\"\nmembers = [{}, \"nothing\", \"nothing_derive\"]\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\noverflow-checks = true\n[profile.dev.package.\"*\"]\nopt-level = 2\ndebug = 0\n",
            members.join(", ")
        ),
    )?;
    let lock = root().join("tools/Cargo.lock");
    if lock.exists() && !ws.join("Cargo.lock").exists() {
        fs::copy(&lock, ws.join("Cargo.lock"))?;
    }
    let put = |p: &str, t: &str| -> H<()> {
        let p = ws.join(p);
        if fs::read_to_string(&p).ok().as_deref() != Some(t) {
            fs::create_dir_all(p.parent().unwrap())?;
            fs::write(p, t)?;
        }
        Ok(())
    };
    put("nothing_derive/Cargo.toml", "[package]\nname = \"nothing_derive\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\nproc-macro = true\n")?;
    put(
        "nothing_derive/src/lib.rs",
        "use proc_macro::TokenStream;\n#[proc_macro_derive(ToTokens, attributes(to_tokens))]\npub fn a(_: TokenStream) -> TokenStream { TokenStream::new() }\n#[proc_macro_derive(Parse, attributes(to_tokens, parse))]\npub fn b(_: TokenStream) -> TokenStream { TokenStream::new() }\n#[proc_macro_derive(StructMeta, attributes(struct_meta))]\npub fn c(_: TokenStream) -> TokenStream { TokenStream::new() }\n",
    )?;
    put(
        "nothing/Cargo.toml",
        "[package]\nname = \"nothing\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[dependencies]\nreal = { package = \"structmeta\", path = \"/repo/structmeta\" }\nnothing_derive = { path = \"../nothing_derive\" }\n",
    )?;
    put("nothing/src/lib.rs", "pub use nothing_derive::{Parse, StructMeta, ToTokens};\npub use real::*;\n")?;
    for (i, s) in share(mods).iter().enumerate() {
        for (c, dep) in [("r", "path = \"/repo/structmeta\""), ("n", "package = \"nothing\", path = \"../nothing\"")] {
            let d = ws.join(format!("{c}{i}"));
            let src = d.join("src");
            if src.exists() {
                fs::remove_dir_all(&src)?;
            }
            fs::create_dir_all(&src)?;
            fs::write(
                d.join("Cargo.toml"),
                format!(
                    "[package]\nname = \"{c}{i}\"\nversion = \"0.0.0\"\nedition = \"{1}\"\n[dependencies]\nkit = {{ path = \"{0}/kit\" }}\nstructmeta = {{ {dep} }}\nsyn = {{ version = \"3.0.0\", features = [\"extra-traits\", \"full\"] }}\nquote = \"1\"\nproc-macro2 = {{ version = \"1\", features = [\"span-locations\"] }}\n",
                    root().display(),
                    EDITIONS[s.first().map_or(0, |m| m.edition as usize)],
                ),
            )?;
            let mut m = format!("{LINTS}#![recursion_limit = \"512\"]\n");
            for g in s {
                fs::write(src.join(format!("f{}.rs", g.id)), &g.source)?;
                m.push_str(&format!("pub mod f{};\n", g.id));
            }
            fs::write(src.join("lib.rs"), m)?;
        }
    }
    Ok(ws)
}

/// the warnings of each module with the derives, and without
fn compile(mods: &[GenMod]) -> H<(BTreeMap<usize, Vec<Warning>>, BTreeMap<usize, Vec<Warning>>, BTreeSet<usize>)> {
    fresh_repo()?;
    let ws = write(mods)?;
    let mut cmd = cargo();
    cmd.current_dir(&ws).args(["check", "--offline", "--keep-going", "--message-format=json"]).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = with_timeout(cmd, Duration::from_secs(600))?;
    let (failed, stray) = messages(&out.0);
    if !out.2 && failed.is_empty() {
        return herr(format!("build failed:\n{}\n{}", stray.join("\n"), String::from_utf8_lossy(&out.1)));
    }
    let mut with: BTreeMap<usize, Vec<Warning>> = BTreeMap::new();
    let mut without: BTreeMap<usize, Vec<Warning>> = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.0).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "warning" {
            continue;
        }
        let Some(lint) = v["message"]["code"]["code"].as_str().filter(|c| !NOT_COMPARED.contains(c)) else { continue };
        let mut spans = Vec::new();
        for s in v["message"]["spans"].as_array().into_iter().flatten() {
            spans_in(s, &mut spans);
        }
        let Some((file, id, at)) = spans.iter().filter(|s| s.1).find_map(|s| Some((&s.0, module_of(&s.0)?, (s.2, s.3)))) else { continue };
        let w = Warning {
            lint: lint.into(),
            message: v["message"]["message"].as_str().unwrap_or("").into(),
            rendered: v["message"]["rendered"].as_str().unwrap_or("").into(),
            at,
        };
        let real = file.trim_start_matches("./").starts_with('r');
        if real { &mut with } else { &mut without }.entry(id).or_default().push(w);
    }
    Ok((with, without, failed.into_keys().collect()))
}

/// observation of values is for the other checks
fn without_obs(source: &str) -> String {
    source.lines().map(|l| l.find(" impl ::glue::Obs for ").map_or(l, |i| &l[..i])).map(|l| format!("{l}\n")).collect()
}

/// warnings the derives add, by definition
fn added(defs: &[(usize, Def)]) -> H<(usize, usize, BTreeMap<usize, Vec<Warning>>)> {
    let mods: Vec<GenMod> = defs.iter().map(|(i, d)| GenMod { id: *i, edition: d.edition(), source: without_obs(&d.plain(*i)), entry: String::new() }).collect();
    let mut left = mods.clone();
    for _ in 0..4 {
        let (with, without, failed) = compile(&left)?;
        if !failed.is_empty() {
            // lints are only reported where all compiles; what does not is not of interest here
            left.retain(|m| !failed.contains(&m.id));
            continue;
        }
        let seen: usize = without.values().map(|v| v.len()).sum();
        let mut out: BTreeMap<usize, Vec<Warning>> = BTreeMap::new();
        for (id, ws) in with {
            let mut old: Vec<&Warning> = without.get(&id).into_iter().flatten().collect();
            for w in ws {
                match old.iter().position(|o| (&o.lint, &o.message, o.at) == (&w.lint, &w.message, w.at)) {
                    Some(i) => {
                        old.swap_remove(i);
                    }
                    None => out.entry(id).or_default().push(w),
                }
            }
        }
        return Ok((left.len(), seen, out));
    }
    herr("definitions that do not compile")
}

fn found(d: &Def, ws: &[Warning]) -> Found {
    Found {
        detail: format!("the derive adds a warning ({}): {}", ws[0].lint, ws[0].message),
        definition: d.source(),
        input: ws.iter().take(3).map(|w| w.rendered.clone()).collect(),
        kind: "lint".into(),
        data: json!({ "def": d, "case": null }),
        signature: String::new(),
    }
}

pub fn check(thorough: bool, seed: u64) -> H<Summary> {
    let t0 = Instant::now();
    let mut report = kit::report::Report::default();
    let mut out: Vec<Found> = Vec::new();
    for r in 0..if thorough { 12 } else { 1 } {
        if r > 0 && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let sd = seed.wrapping_add(r * 0x9e37_79b9);
        let defs = crate::gencheck::defs("C29", sd);
        let (n, seen, new) = added(&defs)?;
        report.evaluations += 2 * n as u64;
        *report.classes.entry("warnings without the derives".into()).or_default() += seen as u64;
        for (k, (_, d)) in defs.iter().enumerate() {
            report.types += 1;
            *report.classes.entry(format!("{} definition", d.kind())).or_default() += 1;
            report.nontrivial.insert(kit::report::hash(&[&d.source()]));
            if k % 61 == 7 && report.samples.len() < 60 {
                report.samples.push(d.source().trim_end().into());
            }
        }
        let get = |v: &[(usize, Def)], i: usize| v.iter().find(|d| d.0 == i).map(|d| d.1.clone());
        out = new.iter().filter_map(|(i, w)| Some(found(&get(&defs, *i)?, w))).collect();
        out.sort_by_key(|f| f.definition.len());
        // one for each lint
        let mut lints = BTreeSet::new();
        out.retain(|f| lints.insert(f.detail.split(':').next().unwrap_or("").to_string()));
        out.truncate(4);
        let mut cur: Option<Def> = out.first().and_then(|f| serde_json::from_value(f.data["def"].clone()).ok());
        for _ in 0..6 {
            let Some(d) = &cur else { break };
            if t0.elapsed() > Duration::from_secs(500) {
                break;
            }
            let cands: Vec<(usize, Def)> = d.smaller().into_iter().take(40).enumerate().collect();
            if cands.is_empty() {
                break;
            }
            let Some(f) = added(&cands)?.2.iter().filter_map(|(i, w)| Some(found(&get(&cands, *i)?, w))).min_by_key(|f| f.definition.len()) else { break };
            cur = serde_json::from_value(f.data["def"].clone()).ok();
            out.insert(0, f);
        }
        if !out.is_empty() {
            break;
        }
    }
    Ok(Summary {
        report,
        found: out,
        rule: "Well-formed definitions of both families (as for C19: hostile names, attributes, decorations, generics, macro_rules, three editions), compiled with the lints `unused`, `nonstandard_style`, `future_incompatible`, `rust_2018_idioms`, `let_underscore` and all that rustc reports by default, with the derives of structmeta and again with derives of the same names and helper attributes that write nothing. Every warning (lint, message, place) of the first must be one of the second; warnings that things are unused (`dead_code`) are left out, because implementations are uses. Non-trivial: every definition. Distinct: by definition text.".into(),
        assumptions: vec!["lints other than the listed ones, and clippy's, are not looked at".into()],
    })
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let defs: Vec<(usize, Def)> = serde_json::from_value(r.data["def"].clone()).ok().map(|d| (0, d)).into_iter().collect();
    Ok(added(&defs)?.2.into_values().next().map(|w| w[0].rendered.clone()))
}
