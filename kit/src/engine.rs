//! Building and running generated programs, reporting.
use kit::report::{Report, Violation};
use kit::shard::{HANG_EXIT, ReplayCase, ShardCfg};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("SMV_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
/// an error of the check itself
#[derive(Debug)]
pub struct Harness(pub String);
pub type H<T> = Result<T, Harness>;
pub fn herr<T>(m: impl Into<String>) -> H<T> {
    Err(Harness(m.into()))
}
impl From<std::io::Error> for Harness {
    fn from(e: std::io::Error) -> Self {
        Harness(format!("io: {e}"))
    }
}

/// everything needed to run a case again
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub kind: String,
    pub definition: String,
    pub input: Vec<String>,
    pub detail: String,
    pub data: Value,
}

pub struct Found {
    pub detail: String,
    pub definition: String,
    pub input: Vec<String>,
    pub kind: String,
    pub data: Value,
    /// what identifies the failure for the known-findings file
    pub signature: String,
}

pub struct Summary {
    pub report: Report,
    pub found: Vec<Found>,
    pub rule: String,
    pub assumptions: Vec<String>,
}

#[derive(Clone, Debug, Deserialize)]
struct Known {
    #[serde(default)]
    known: Vec<KnownEntry>,
}
#[derive(Clone, Debug, Deserialize)]
struct KnownEntry {
    property: String,
    signature: String,
    what: String,
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let res = dispatch(id, tier, seed);
    let s = match res {
        Ok(s) => s,
        Err(Harness(m)) => {
            eprintln!("ERROR property={id} {m}");
            return 2;
        }
    };
    if !s.report.harness_errors.is_empty() {
        for e in s.report.harness_errors.iter().take(5) {
            eprintln!("ERROR property={id} harness: {e}");
        }
        if s.found.is_empty() {
            return 2;
        }
    }
    let known: Known = fs::read_to_string(root().join("known-findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or(Known { known: vec![] });
    let mut violations = Vec::new();
    let mut shown = BTreeSet::new();
    for f in &s.found {
        match known.known.iter().find(|k| k.property == id && !f.signature.is_empty() && k.signature == f.signature) {
            Some(k) => {
                if shown.insert(k.signature.clone()) {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                }
            }
            None => violations.push(f),
        }
    }
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let mut lines = Vec::new();
    for (i, f) in violations.iter().enumerate().take(5) {
        let p = dir.join(format!("{id}-{i}.json"));
        let r = ReplayFile {
            property: id.into(),
            kind: f.kind.clone(),
            definition: f.definition.clone(),
            input: f.input.clone(),
            detail: f.detail.clone(),
            data: f.data.clone(),
        };
        if let Err(e) = fs::write(&p, serde_json::to_string_pretty(&r).unwrap()) {
            eprintln!("ERROR cannot write replay file: {e}");
            return 2;
        }
        println!("--- {id}: {}", f.detail);
        println!("{}", f.definition.trim_end());
        for t in &f.input {
            println!("  input: {t}");
        }
        lines.push(format!("VIOLATION property={id} replay={}", p.display()));
    }
    let r = &s.report;
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.nontrivial.len(),
            "rule": s.rule,
            "samples": pick_samples(&r.samples),
            "definitions": r.types,
            "classes": r.classes,
        },
        "assumptions": s.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evd = root().join("evidence");
    let _ = fs::create_dir_all(&evd);
    if fs::write(evd.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("ERROR cannot write evidence");
        return 2;
    }
    println!(
        "{id} {tier} seed={seed}: {} definitions, {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
        r.types, r.evaluations, r.nontrivial.len(), violations.len(), t0.elapsed().as_secs_f64()
    );
    let mut cl: Vec<_> = r.classes.iter().collect();
    cl.sort_by(|a, b| b.1.cmp(a.1));
    println!("  classes: {}", cl.iter().take(40).map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
    for l in &lines {
        println!("{l}");
    }
    if violations.is_empty() { 0 } else { 1 }
}

fn pick_samples(v: &[String]) -> Vec<String> {
    let n = v.len().max(1);
    let step = n.div_ceil(12);
    v.iter().step_by(step).cloned().collect()
}

fn dispatch(id: &str, tier: &str, seed: u64) -> H<Summary> {
    let thorough = tier == "thorough";
    if id == "C20" {
        return crate::badcheck::check(thorough, seed);
    }
    if id == "C26" {
        return crate::detcheck::check(thorough, seed);
    }
    if id == "C29" {
        return crate::lintcheck::check(thorough, seed);
    }
    if id == "C27" {
        return crate::pmcheck::check(thorough, seed);
    }
    if kit::props::sm_plan(id).is_some() || kit::props::node_plan(id).is_some() || id == "C23" {
        return crate::gencheck::check(id, thorough, seed);
    }
    herr(format!("unknown property {id}"))
}

pub fn replay(file: &str) -> i32 {
    let r: ReplayFile = match fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("ERROR cannot read {file}: {e}");
            return 2;
        }
    };
    println!("{}", r.definition.trim_end());
    for t in &r.input {
        println!("  input: {t}");
    }
    let out = match r.kind.as_str() {
        "run" | "compile" | "dump" => crate::gencheck::replay(&r),
        "det" => crate::detcheck::replay(&r),
        "pm" => crate::pmcheck::replay(&r),
        "lint" => crate::lintcheck::replay(&r),
        "lean" => crate::leancheck::replay(&r),
        "ill-formed" => crate::badcheck::replay(&r),
        k => herr(format!("unknown replay kind {k}")),
    };
    match out {
        Ok(Some(d)) => {
            println!("{d}");
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        Ok(None) => {
            println!("the property holds on this case");
            0
        }
        Err(Harness(m)) => {
            eprintln!("ERROR {m}");
            2
        }
    }
}

pub fn show(id: &str, n: usize) {
    crate::gencheck::show(id, n);
}

// ---------------------------------------------------------------- building

pub const TOOLCHAIN: &str = "1.98.1-x86_64-unknown-linux-gnu";
pub const SHARDS: usize = 8;

pub fn cargo() -> Command {
    let mut c = Command::new("cargo");
    c.env("RUSTUP_TOOLCHAIN", std::env::var("SMV_TOOLCHAIN").unwrap_or_else(|_| TOOLCHAIN.into()))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .env("CARGO_TARGET_DIR", root().join("target/shards"));
    c
}

/// one generated module (its file content) to be compiled into a shard
#[derive(Clone)]
pub struct GenMod {
    pub id: usize,
    /// 0 2024, 1 2021, 2 2018
    pub edition: u8,
    pub source: String,
    /// expression of type kit::shard::Module
    pub entry: String,
}

pub struct Built {
    /// binaries by shard, with the module ids inside
    pub bins: Vec<(PathBuf, Vec<usize>)>,
    /// compile errors by module id
    pub failed: BTreeMap<usize, Vec<Diag>>,
}
#[derive(Clone, Debug)]
pub struct Diag {
    pub message: String,
    pub rendered: String,
    /// an error of the compiler itself (`E0425`), not one reported by a macro
    pub code: Option<String>,
    /// messages of the notes and helps below
    pub notes: Vec<String>,
    /// primary span (line, column) in the module file
    pub at: Vec<(usize, usize, usize, usize)>,
    /// all labelled spans of the message itself
    pub labels: Vec<(usize, usize, usize, usize)>,
}

fn source_hash() -> u64 {
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let n = e.file_name();
            if n == "target" || n == ".git" {
                continue;
            }
            if p.is_dir() { walk(&p, out) } else { out.push(p) }
        }
    }
    let mut v = Vec::new();
    walk(Path::new("/repo"), &mut v);
    v.retain(|p| p.extension().is_some_and(|e| e == "rs" || e == "toml" || e == "md"));
    v.sort();
    let mut h: u64 = 1469598103934665603;
    for p in v {
        for b in p.to_string_lossy().bytes().chain(fs::read(&p).unwrap_or_default()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

/// make sure cargo notices a changed /repo even if time stamps do not tell
pub fn fresh_repo() -> H<()> {
    let h = format!("{:x}", source_hash());
    let t = root().join("target/shards");
    fs::create_dir_all(&t)?;
    let mark = t.join(".repo-hash");
    if fs::read_to_string(&mark).ok().as_deref() != Some(&h) {
        if t.join("debug").exists() {
            let ws = write_ws("ws", &[])?;
            let o = cargo().current_dir(&ws).args(["clean", "--offline", "-p", "structmeta", "-p", "structmeta-derive", "-p", "glue"]).output()?;
            if !o.status.success() {
                fs::remove_dir_all(t.join("debug"))?;
            }
        }
        fs::write(&mark, h)?;
    }
    Ok(())
}

pub const EDITIONS: [&str; 3] = ["2024", "2021", "2018"];

/// modules by shard; one shard has one edition
pub fn share(mods: &[GenMod]) -> Vec<Vec<GenMod>> {
    let count = |e: u8| mods.iter().filter(|m| m.edition == e).count();
    let mut shards: Vec<Vec<GenMod>> = vec![Vec::new(); SHARDS];
    let mut at = 0;
    let mut left: usize = mods.len();
    let present: Vec<u8> = (0..EDITIONS.len() as u8).rev().filter(|&e| count(e) > 0).collect();
    for (k, &e) in present.iter().enumerate() {
        let rest = SHARDS - at;
        let later = present.len() - k - 1;
        let n = if later == 0 { rest } else { ((count(e) * rest + left / 2) / left).clamp(1, rest - later) };
        for (i, m) in mods.iter().filter(|m| m.edition == e).enumerate() {
            shards[at + i % n].push(m.clone());
        }
        left -= count(e);
        at += n;
    }
    shards
}

fn write_ws(name: &str, shards: &[Vec<GenMod>]) -> H<PathBuf> {
    let ws = root().join("work").join(name);
    fs::create_dir_all(&ws)?;
    // keep the target list fixed so that cargo's resolution stays the same
    fs::write(
        ws.join("Cargo.toml"),
        format!(
            "[workspace]\nresolver = \"3\"\nmembers = [{}]\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\noverflow-checks = true\n[profile.dev.package.\"*\"]\nopt-level = 2\ndebug = 0\n",
            (0..SHARDS).map(|i| format!("\"s{i}\"")).collect::<Vec<_>>().join(", ")
        ),
    )?;
    let lock = root().join("tools/Cargo.lock");
    if lock.exists() && !ws.join("Cargo.lock").exists() {
        fs::copy(&lock, ws.join("Cargo.lock"))?;
    }
    for i in 0..SHARDS {
        let d = ws.join(format!("s{i}"));
        let src = d.join("src");
        if src.exists() {
            fs::remove_dir_all(&src)?;
        }
        fs::create_dir_all(&src)?;
        fs::write(
            d.join("Cargo.toml"),
            format!(
                "[package]\nname = \"s{i}\"\nversion = \"0.0.0\"\nedition = \"{e}\"\n[dependencies]\nkit = {{ path = \"{r}/kit\" }}\nglue = {{ path = \"{r}/glue\" }}\nstructmeta = {{ path = \"/repo/structmeta\" }}\nsyn = {{ version = \"3.0.0\", features = [\"extra-traits\", \"full\"] }}\nquote = \"1\"\nproc-macro2 = {{ version = \"1\", features = [\"span-locations\"] }}\n",
                e = EDITIONS[shards.get(i).and_then(|v| v.first()).map_or(0, |m| m.edition as usize)],
                r = root().display()
            ),
        )?;
        let mut m = String::from("#![allow(warnings, bindings_with_variant_name)]\n#![recursion_limit = \"512\"]\n");
        let mut list = String::new();
        for g in shards.get(i).map(|v| v.as_slice()).unwrap_or(&[]) {
            fs::write(src.join(format!("f{}.rs", g.id)), &g.source)?;
            m.push_str(&format!("mod f{};\n", g.id));
            if !g.entry.is_empty() {
                list.push_str(&format!("        {},\n", g.entry));
            }
        }
        m.push_str(&format!("fn main() {{\n    kit::shard::main(&[\n{list}    ]);\n}}\n"));
        fs::write(src.join("main.rs"), m)?;
    }
    Ok(ws)
}

pub fn spans_in(v: &Value, out: &mut Vec<(String, bool, usize, usize, usize, usize)>) {
    if let Some(f) = v["file_name"].as_str() {
        let n = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
        out.push((f.into(), v["is_primary"].as_bool().unwrap_or(false), n("line_start"), n("column_start"), n("line_end"), n("column_end")));
    }
    if v["expansion"].is_object() {
        spans_in(&v["expansion"]["span"], out);
    }
}

pub fn module_of(file: &str) -> Option<usize> {
    let n = Path::new(file).file_name()?.to_str()?;
    n.strip_prefix('f')?.strip_suffix(".rs")?.parse().ok()
}

/// errors by module, and those that belong to none
pub fn messages(stdout: &[u8]) -> (BTreeMap<usize, Vec<Diag>>, Vec<String>) {
    let text = String::from_utf8_lossy(stdout);
    let mut failed: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
    let mut stray = Vec::new();
    for l in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
            continue;
        }
        let msg = v["message"]["message"].as_str().unwrap_or("").to_string();
        let rendered = v["message"]["rendered"].as_str().unwrap_or("").to_string();
        let mut spans = Vec::new();
        fn collect(m: &Value, spans: &mut Vec<(String, bool, usize, usize, usize, usize)>) {
            for s in m["spans"].as_array().into_iter().flatten() {
                spans_in(s, spans);
            }
            for c in m["children"].as_array().into_iter().flatten() {
                collect(c, spans);
            }
        }
        collect(&v["message"], &mut spans);
        let mut own = Vec::new();
        for s in v["message"]["spans"].as_array().into_iter().flatten() {
            spans_in(s, &mut own);
        }
        let id = spans.iter().filter(|s| s.1).chain(spans.iter()).find_map(|s| module_of(&s.0));
        match id {
            Some(id) => failed.entry(id).or_default().push(Diag {
                message: msg,
                code: v["message"]["code"]["code"].as_str().map(String::from),
                rendered,
                notes: v["message"]["children"].as_array().into_iter().flatten().filter_map(|c| c["message"].as_str()).map(String::from).collect(),
                at: spans.iter().filter(|s| s.1 && module_of(&s.0) == Some(id)).map(|s| (s.2, s.3, s.4, s.5)).collect(),
                labels: own.iter().filter(|s| module_of(&s.0) == Some(id)).map(|s| (s.2, s.3, s.4, s.5)).collect(),
            }),
            None if msg.starts_with("aborting due to") || msg.starts_with("could not compile") => {}
            None => stray.push(rendered),
        }
    }
    (failed, stray)
}

/// compile modules into shard programs; compile errors are attributed to modules
pub fn build(mods: &[GenMod], check_only: bool) -> H<Built> {
    fresh_repo()?;
    let shards = share(mods);
    let ws = write_ws("ws", &shards)?;
    let mut cmd = cargo();
    cmd.current_dir(&ws)
        .args([if check_only { "check" } else { "build" }, "--offline", "--keep-going", "--message-format=json"])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let out = with_timeout(cmd, Duration::from_secs(800))?;
    let (failed, stray) = messages(&out.0);
    if !out.2 && failed.is_empty() {
        let e = String::from_utf8_lossy(&out.1);
        return herr(format!("build failed:\n{}\n{}", stray.join("\n"), e.lines().rev().take(15).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n")));
    }
    let bins = (0..SHARDS)
        .map(|i| (root().join(format!("target/shards/debug/s{i}")), shards[i].iter().map(|m| m.id).collect()))
        .collect();
    Ok(Built { bins, failed })
}

/// (stdout, stderr, success)
pub fn with_timeout(mut cmd: Command, limit: Duration) -> H<(Vec<u8>, Vec<u8>, bool)> {
    use std::io::Read;
    use std::os::unix::process::CommandExt;
    let mut child = cmd.process_group(0).spawn()?;
    let mut so = child.stdout.take();
    let mut se = child.stderr.take();
    let a = std::thread::spawn(move || {
        let mut b = Vec::new();
        if let Some(s) = so.as_mut() {
            let _ = s.read_to_end(&mut b);
        }
        b
    });
    let b = std::thread::spawn(move || {
        let mut b = Vec::new();
        if let Some(s) = se.as_mut() {
            let _ = s.read_to_end(&mut b);
        }
        b
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait()? {
            break st;
        }
        if t0.elapsed() > limit {
            // the compilers started by cargo as well
            let _ = Command::new("bash").args(["-c", &format!("kill -KILL -- -{}", child.id())]).status();
            let _ = child.kill();
            let _ = child.wait();
            return herr("time limit reached");
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    Ok((a.join().unwrap(), b.join().unwrap(), st.success()))
}

pub enum Ran {
    Ok(Report),
    /// the process ended abnormally while running this case
    Died(String, Option<ReplayCase>),
}

/// run one shard program
pub fn run_bin(bin: &Path, cfg: &ShardCfg, tag: &str, limit: Duration) -> H<Ran> {
    let dir = root().join("work/run");
    fs::create_dir_all(&dir)?;
    let cfgp = dir.join(format!("{tag}.cfg.json"));
    let outp = dir.join(format!("{tag}.out.json"));
    let trace = dir.join(format!("{tag}.trace"));
    let _ = fs::remove_file(&outp);
    let mut c = cfg.clone();
    c.out = outp.to_string_lossy().into();
    c.trace = trace.to_string_lossy().into();
    fs::write(&cfgp, serde_json::to_string(&c).unwrap())?;
    let mut cmd = Command::new("bash");
    cmd.arg("-c")
        .arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$1\"")
        .arg(bin)
        .arg(&cfgp)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    let mut child = cmd.spawn()?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait()? {
            break st;
        }
        if t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return herr(format!("{tag}: time limit reached"));
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if st.success() {
        let r = serde_json::from_str(&fs::read_to_string(&outp)?).map_err(|e| Harness(format!("{tag}: bad report: {e}")))?;
        return Ok(Ran::Ok(r));
    }
    let last = fs::read_to_string(&trace).ok().and_then(|t| serde_json::from_str(t.lines().next().unwrap_or("")).ok());
    let how = match st.code() {
        Some(HANG_EXIT) => "does not return (more than 20 s of CPU time on one input)".to_string(),
        Some(c) => format!("the process ended with status {c}"),
        None => {
            use std::os::unix::process::ExitStatusExt;
            format!("the process was killed by signal {}", st.signal().unwrap_or(0))
        }
    };
    Ok(Ran::Died(how, last))
}

/// run all shards in parallel and merge; deaths are confirmed by running the case again
pub fn run_all(built: &Built, cfg: &ShardCfg, limit: Duration, select: &dyn Fn(&ShardCfg, &[usize]) -> ShardCfg) -> H<(Report, Vec<(ReplayCase, String)>)> {
    let mut report = Report::default();
    let mut deaths = Vec::new();
    let mut errs = Vec::new();
    std::thread::scope(|sc| {
        let hs: Vec<_> = built
            .bins
            .iter()
            .enumerate()
            .filter(|(_, b)| !b.1.is_empty())
            .map(|(i, (bin, ids))| {
                let c = select(cfg, ids);
                sc.spawn(move || (bin, c.clone(), i, run_bin(bin, &c, &format!("s{i}"), limit)))
            })
            .collect();
        for h in hs {
            let (bin, c, i, r) = h.join().unwrap();
            match r {
                Ok(Ran::Ok(r)) => report.merge(r),
                Ok(Ran::Died(how, Some(case))) => {
                    let mut c2 = c.clone();
                    c2.replay = Some(case.clone());
                    match run_bin(bin, &c2, &format!("s{i}r"), limit) {
                        Ok(Ran::Died(how2, _)) => deaths.push((case, how2)),
                        Ok(_) => errs.push(format!("shard {i}: {how}, not reproducible")),
                        Err(e) => errs.push(e.0),
                    }
                }
                Ok(Ran::Died(how, None)) => errs.push(format!("shard {i}: {how}")),
                Err(e) => errs.push(e.0),
            }
        }
    });
    if deaths.is_empty() && report.violations.is_empty() && !errs.is_empty() {
        return herr(errs.join("; "));
    }
    report.harness_errors.extend(errs);
    report.violations.sort_by_key(|v: &Violation| (v.definition.len() + v.texts.iter().map(|t| t.len()).sum::<usize>(), v.type_id));
    Ok((report, deaths))
}

/// random tape for definition `i`
pub fn tape(seed: u64, salt: &str, i: usize, n: usize) -> Vec<u32> {
    use proptest::prelude::Rng;
    use proptest::test_runner::{RngAlgorithm, TestRng};
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&kit::report::hash(&[salt]).to_le_bytes());
    b[16..24].copy_from_slice(&(i as u64).to_le_bytes());
    let mut r = TestRng::from_seed(RngAlgorithm::ChaCha, &b);
    (0..n).map(|_| r.next_u32()).collect()
}
