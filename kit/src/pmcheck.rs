//! C27: derived parsers inside a real procedural macro.
//!
//! The definitions are compiled into procedural macro crates. Client crates call these macros with
//! the generated inputs, as function-like macros, as attributes and as derive helper attributes, and
//! also through `macro_rules`. Inside of the compiler, the macro compares what the derived code does
//! with the compiler's tokens and what it does with the same text outside of it.
use crate::engine::*;
use kit::def::Def;
use kit::lex;
use kit::probe::Line;
use kit::props::{node_plan, sm_plan};
use kit::tape::Src;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;
use std::process::Stdio;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Route {
    Call,
    Attribute,
    Derive,
    /// `probe!` inside a `macro_rules` macro that is given what stands in invisible groups
    Rules,
}
impl Route {
    fn name(self) -> &'static str {
        match self {
            Route::Call => "function-like macro",
            Route::Attribute => "attribute macro",
            Route::Derive => "derive helper attribute",
            Route::Rules => "function-like macro inside macro_rules",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub def: usize,
    pub text: String,
    pub route: Route,
}

const NAME: &str = "C27";

/// `$a:expr` and the like for what stands in the invisible groups
fn rules(n: usize, def: usize, text: &str, lit: &str, s: &mut Src) -> Option<String> {
    if text.contains('$') {
        return None;
    }
    let marks = lex::marks(text);
    if marks.is_empty() {
        return None;
    }
    let (mut pattern, mut body, mut args, mut at) = (String::new(), String::new(), String::new(), 0);
    for (i, (a, b, inner)) in marks.iter().enumerate() {
        if inner.contains(lex::NONE_MARK) {
            return None;
        }
        let mut kinds = Vec::new();
        if syn::parse_str::<syn::Expr>(inner).is_ok() {
            kinds.push("expr");
        }
        if syn::parse_str::<syn::Lit>(inner).is_ok() {
            kinds.push("literal");
        }
        if syn::parse_str::<syn::Type>(inner).is_ok() {
            kinds.push("ty");
        }
        if syn::parse_str::<syn::Path>(inner).is_ok() {
            kinds.push("path");
        }
        if kinds.is_empty() {
            return None;
        }
        let k = *s.pick(&kinds);
        pattern.push_str(&format!("{}$p{i}:{k}", if i > 0 { " ; " } else { "" }));
        body.push_str(&text[at..*a]);
        body.push_str(&format!("$p{i}"));
        at = *b;
        args.push_str(if i > 0 { " ;\n" } else { "" });
        args.push_str(inner);
    }
    body.push_str(&text[at..]);
    Some(format!("macro_rules! pass {{ ({pattern}) => {{ PM::probe! {{ {n} {def} {lit} ;\n{body}\n}} }} }}\npass! {{\n{args}\n}}\n"))
}

/// the file of a client crate
fn source(n: usize, c: &Case, pm: &str, s: &mut Src) -> Option<String> {
    let lit = proc_macro2::Literal::string(&c.text).to_string();
    let (t, def) = (&c.text, c.def);
    // a group that is taken apart and put together again has one span only
    if t.contains(lex::NONE_MARK) && c.route != Route::Rules {
        return None;
    }
    let src = match c.route {
        Route::Call => format!("PM::probe! {{ {n} {def} {lit} ;\n{t}\n}}\n"),
        Route::Attribute => format!("#[PM::probe_attribute(\n{t}\n)]\n#[case({n}, {def}, {lit})]\nstruct C;\n"),
        Route::Derive => format!("#[derive(PM::Probe)]\n#[case({n}, {def}, {lit})]\n#[attr(\n{t}\n)]\nstruct C;\n"),
        Route::Rules => rules(n, def, t, &lit, s)?,
    };
    Some(src.replace("PM::", &format!("{pm}::")))
}

fn cargo_toml(name: &str, edition: &str, pm: bool, deps: &str) -> String {
    format!("[package]\nname = \"{name}\"\nversion = \"0.0.0\"\nedition = \"{edition}\"\n[lib]\nproc-macro = {pm}\n[dependencies]\n{deps}")
}

/// writes the workspace; also returns which cases have a file
fn write(defs: &[(usize, Def)], cases: &[Case], seed: u64) -> H<(PathBuf, BTreeSet<usize>)> {
    let mods: Vec<GenMod> = defs.iter().map(|(i, d)| GenMod { id: *i, edition: d.edition(), source: d.module(*i), entry: d.entry(*i, false) }).collect();
    let shards = share(&mods);
    let ws = root().join("work/pm");
    fs::create_dir_all(&ws)?;
    let members: Vec<String> = (0..SHARDS).flat_map(|i| [format!("\"pm{i}\""), format!("\"c{i}\"")]).collect();
    fs::write(
        ws.join("Cargo.toml"),
        format!("[workspace]\nresolver = \"3\"\nmembers = [{}]\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.build-override]\ndebug = 0\n", members.join(", ")),
    )?;
    let lock = root().join("tools/Cargo.lock");
    if lock.exists() && !ws.join("Cargo.lock").exists() {
        fs::copy(&lock, ws.join("Cargo.lock"))?;
    }
    let mut used = BTreeSet::new();
    for i in 0..SHARDS {
        let shard = shards.get(i).map(|v| v.as_slice()).unwrap_or(&[]);
        for n in [format!("pm{i}"), format!("c{i}")] {
            let src = ws.join(n).join("src");
            if src.exists() {
                fs::remove_dir_all(&src)?;
            }
            fs::create_dir_all(&src)?;
        }
        let d = ws.join(format!("pm{i}"));
        let e = EDITIONS[shard.first().map_or(0, |m| m.edition as usize)];
        fs::write(
            d.join("Cargo.toml"),
            cargo_toml(&format!("pm{i}"), e, true, &format!("kit = {{ path = \"{r}/kit\" }}\nglue = {{ path = \"{r}/glue\" }}\nstructmeta = {{ path = \"/repo/structmeta\" }}\nsyn = {{ version = \"3.0.0\", features = [\"extra-traits\", \"full\"] }}\nquote = \"1\"\nproc-macro2 = {{ version = \"1\", features = [\"span-locations\"] }}\n", r = root().display())),
        )?;
        let mut m = String::from("#![allow(warnings, bindings_with_variant_name)]\n#![recursion_limit = \"512\"]\nextern crate proc_macro;\n");
        let mut list = String::new();
        for g in shard {
            fs::write(d.join(format!("src/f{}.rs", g.id)), &g.source)?;
            m.push_str(&format!("mod f{};\n", g.id));
            list.push_str(&format!("    {},\n", g.entry));
        }
        let ts = "proc_macro::TokenStream";
        m.push_str(&format!(
            "fn modules() -> ::std::vec::Vec<kit::shard::Module> {{ ::std::vec![\n{list}] }}\n\
             #[proc_macro]\npub fn probe(input: {ts}) -> {ts} {{ kit::probe::call(&modules(), \"pm{i}\", input.into()); {ts}::new() }}\n\
             #[proc_macro_attribute]\npub fn probe_attribute(args: {ts}, item: {ts}) -> {ts} {{ kit::probe::attribute(&modules(), \"pm{i}\", args.into(), item.into()); {ts}::new() }}\n\
             #[proc_macro_derive(Probe, attributes(attr, case))]\npub fn probe_derive(item: {ts}) -> {ts} {{ kit::probe::derive(&modules(), \"pm{i}\", item.into()); {ts}::new() }}\n"
        ));
        fs::write(d.join("src/lib.rs"), m)?;
        let d = ws.join(format!("c{i}"));
        fs::write(d.join("Cargo.toml"), cargo_toml(&format!("c{i}"), "2021", false, &format!("pm{i} = {{ path = \"../pm{i}\" }}\n")))?;
        let mut m = String::from("#![allow(warnings)]\n#![recursion_limit = \"512\"]\n");
        for (n, c) in cases.iter().enumerate().filter(|(_, c)| shard.iter().any(|g| g.id == c.def)) {
            let t = tape(seed, "C27-rules", n, 30);
            if let Some(src) = source(n, c, &format!("pm{i}"), &mut Src::new(&t)) {
                fs::write(d.join(format!("src/f{n}.rs")), src)?;
                m.push_str(&format!("mod f{n};\n"));
                used.insert(n);
            }
        }
        fs::write(d.join("src/lib.rs"), m)?;
    }
    Ok((ws, used))
}

pub struct Compared {
    pub lines: BTreeMap<usize, Line>,
    pub written: usize,
    /// cases the compiler does not get to
    pub lost: usize,
    /// cases that were started twice and did not end
    pub stuck: Vec<usize>,
}

fn compile(packages: &str, limit: u64) -> H<(Vec<u8>, Vec<u8>, bool)> {
    let out = root().join("work/pm-out");
    let mut cmd = cargo();
    cmd.current_dir(root().join("work/pm")).env("SMV_PROBE_OUT", &out).args(["check", "--offline", "--keep-going", "--message-format=json"]);
    for i in 0..SHARDS {
        cmd.args(["-p", &format!("{packages}{i}")]);
    }
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    with_timeout(cmd, Duration::from_secs(limit))
}

pub fn prepare() -> H<()> {
    fresh_repo()?;
    write(&[], &[], 0)?;
    let o = compile("c", 900)?;
    if o.2 { Ok(()) } else { herr(String::from_utf8_lossy(&o.1).to_string()) }
}

pub fn compare(defs: &[(usize, Def)], cases: &[Case], seed: u64) -> H<Compared> {
    fresh_repo()?;
    let out = root().join("work/pm-out");
    if out.exists() {
        fs::remove_dir_all(&out)?;
    }
    fs::create_dir_all(&out)?;
    let (_, written) = write(defs, cases, seed)?;
    let o = compile("pm", 600)?;
    if !o.2 {
        // whether definitions compile is the matter of another property
        let (failed, stray) = messages(&o.0);
        let rest: Vec<(usize, Def)> = defs.iter().filter(|d| !failed.contains_key(&d.0)).cloned().collect();
        if failed.is_empty() || rest.is_empty() || rest.len() == defs.len() {
            return herr(format!("build failed:\n{}\n{}", stray.join("\n"), String::from_utf8_lossy(&o.1)));
        }
        return compare(&rest, cases, seed);
    }
    let mut cases_left: BTreeSet<usize> = written.clone();
    let mut lines: BTreeMap<usize, Line> = BTreeMap::new();
    let (mut stuck, mut before) = (Vec::new(), BTreeSet::new());
    for round in 0..3 {
        // a compiler that crashes or does not end leaves a case without a result
        let (messages_of, ok) = match compile("c", 150) {
            Ok(o) => (o.0, o.2),
            Err(_) => (vec![], false),
        };
        let mut begun = BTreeSet::new();
        for i in 0..SHARDS {
            for l in fs::read_to_string(out.join(format!("pm{i}"))).unwrap_or_default().lines() {
                if let Ok(l) = serde_json::from_str::<Line>(l) {
                    begun.remove(&l.case);
                    lines.insert(l.case, l);
                } else if let Some(n) = l.strip_prefix("start ").and_then(|n| n.parse::<usize>().ok()) {
                    begun.insert(n);
                }
            }
            let _ = fs::remove_file(out.join(format!("pm{i}")));
        }
        if std::env::var("SMV_DEBUG").is_ok() {
            eprintln!("round {round}: {} of {} cases, ok {ok}, without end {begun:?}", lines.len(), written.len());
        }
        if !ok {
            stuck.extend(begun.iter().copied().filter(|c| !lines.contains_key(c) && before.contains(c)));
            before = begun;
        }
        cases_left.retain(|c| !lines.contains_key(c));
        if cases_left.is_empty() || !stuck.is_empty() || round == 2 {
            break;
        }
        // once more, without those the compiler refuses
        let (failed, _) = messages(&messages_of);
        let again: BTreeSet<usize> = cases_left.iter().filter(|c| !failed.contains_key(c)).cloned().collect();
        if again.is_empty() {
            break;
        }
        for i in 0..SHARDS {
            let p = root().join(format!("work/pm/c{i}/src/lib.rs"));
            let t: String = fs::read_to_string(&p)?
                .lines()
                .filter(|l| l.strip_prefix("mod f").and_then(|l| l.strip_suffix(';')).is_none_or(|n| n.parse().is_ok_and(|n: usize| again.contains(&n))))
                .map(|l| format!("{l}\n"))
                .collect();
            fs::write(&p, t)?;
        }
    }
    Ok(Compared { written: written.len(), lost: cases_left.len(), lines, stuck })
}

fn cases(defs: &[(usize, Def)], per_def: usize, seed: u64) -> Vec<Case> {
    let (sp, np) = (sm_plan(NAME).unwrap(), node_plan(NAME).unwrap());
    let mut out = Vec::new();
    for (i, d) in defs {
        for k in 0..per_def {
            let t = tape(seed, "C27-case", i * 1000 + k, 250);
            let s = &mut Src::new(&t);
            let (text, attr) = match d {
                Def::Sm(sc) => {
                    let c = kit::sm::case::gen_case(sc, s, &sp.mix, sp.variants);
                    (c.texts[0].clone(), c.attr)
                }
                Def::Node(sc) => (kit::node::case::gen_case(sc, s, &np.mix).text, s.pct(40)),
                Def::Algebra(_) => continue,
            };
            if text.len() > 3000 || lex::lex(&text).is_none() {
                continue;
            }
            let marked = text.contains(lex::NONE_MARK);
            let route = match (marked, attr) {
                (true, _) => Route::Rules,
                (_, true) => Route::Derive,
                _ if s.pct(50) => Route::Call,
                _ => Route::Attribute,
            };
            out.push(Case { def: *i, text, route });
        }
    }
    out
}

fn found(defs: &[(usize, Def)], c: &Case, l: &Line) -> Option<Found> {
    let d = &defs.iter().find(|d| d.0 == c.def)?.1;
    Some(Found {
        detail: format!("inside a procedural macro ({}) the derived code does something else than outside\ninside:  {}\noutside: {}", c.route.name(), l.inside, l.outside),
        definition: d.source(),
        input: vec![c.text.clone()],
        kind: "pm".into(),
        data: json!({ "def": d, "case": c }),
        signature: String::new(),
    })
}

fn differing(defs: &[(usize, Def)], cases: &[Case], c: &Compared) -> Vec<Found> {
    let mut f: Vec<Found> = c.lines.values().filter(|l| !l.same && !l.other_tokens).filter_map(|l| found(defs, &cases[l.case], l)).collect();
    for i in &c.stuck {
        let l = Line { case: *i, other_tokens: false, same: false, ok: false, inside: "does not end, or ends the compiler".into(), outside: String::new() };
        f.extend(found(defs, &cases[*i], &l));
    }
    f.sort_by_key(|f| f.definition.len() + f.input[0].len());
    f
}

pub fn check(thorough: bool, seed: u64) -> H<Summary> {
    let t0 = Instant::now();
    let mut report = kit::report::Report::default();
    let mut out = Vec::new();
    for r in 0..if thorough { 12 } else { 1 } {
        if r > 0 && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let sd = seed.wrapping_add(r * 0x9e37_79b9);
        let defs = crate::gencheck::defs(NAME, sd);
        let cs = cases(&defs, if thorough { 60 } else { 30 }, sd);
        let c = compare(&defs, &cs, sd)?;
        report.types += defs.len() as u64;
        let mut add = |k: &str, n: u64| *report.classes.entry(k.to_string()).or_default() += n;
        add("not understood by the compiler", c.lost as u64);
        for l in c.lines.values() {
            let case = &cs[l.case];
            if l.other_tokens {
                add("other tokens in the compiler", 1);
                if std::env::var("SMV_DEBUG").is_ok() {
                    eprintln!("other tokens: {:?}\n{}\n{}", case, l.inside, l.outside);
                }
                continue;
            }
            add(case.route.name(), 1);
            add(if l.ok { "accepted" } else { "refused" }, 1);
        }
        for l in c.lines.values().filter(|l| !l.other_tokens) {
            let case = &cs[l.case];
            report.evaluations += 2;
            if case.text.trim().is_empty() {
                continue;
            }
            let d = &defs.iter().find(|d| d.0 == case.def).unwrap().1;
            report.nontrivial.insert(kit::report::hash(&[&d.source(), &case.text, case.route.name()]));
            if l.case % 997 == 5 {
                report.samples.push(format!("{}\n  <- {}   [{}]", d.source().trim_end(), case.text, case.route.name()));
            }
        }
        if c.lines.len() * 3 < c.written * 2 && c.stuck.is_empty() {
            return herr(format!("only {} of {} cases reached the macro", c.lines.len(), c.written));
        }
        out = differing(&defs, &cs, &c);
        if !out.is_empty() {
            out.truncate(4);
            for _ in 0..6 {
                if t0.elapsed() > Duration::from_secs(450) {
                    break;
                }
                let Some(f) = smaller(&out[0], sd)? else { break };
                out.insert(0, f);
            }
            break;
        }
    }
    Ok(Summary {
        report,
        found: out,
        rule: "Definitions of both families compiled in procedural macro crates; texts (well-formed lists with faults planted, printed values with changes) written into client crates as input of a function-like macro, of an attribute macro, in a derive helper attribute, or in a function-like macro inside macro_rules (with expr, literal, ty and path fragments). The macro runs the derived code on the compiler's tokens, and on the same text with the implementation of tokens used outside of the compiler: values, places (numbers of tokens), messages, tokens left and tokens printed must be the same. Non-trivial: a non-empty text that both lex to the same tokens. Distinct: by definition, text and route.".into(),
        assumptions: vec!["rustc's tokens and the fallback implementation of proc-macro2 are those of the same text, up to the cases counted as `other tokens`".into()],
    })
}

/// a shorter text or definition that shows the difference
fn smaller(f: &Found, seed: u64) -> H<Option<Found>> {
    let (Ok(d), Ok(c)) = (serde_json::from_value::<Def>(f.data["def"].clone()), serde_json::from_value::<Case>(f.data["case"].clone())) else { return Ok(None) };
    let mut defs = vec![(0, d.clone())];
    let mut cs = Vec::new();
    for (a, b) in lex::token_ranges(&c.text) {
        if let (Some(x), Some(y)) = (c.text.get(..a), c.text.get(b..)) {
            let t = format!("{x}{y}");
            if t != c.text && lex::lex(&t).is_some() {
                cs.push(Case { def: 0, text: t, route: c.route });
            }
        }
    }
    cs.truncate(150);
    for d in d.smaller().into_iter().take(30) {
        cs.push(Case { def: defs.len(), text: c.text.clone(), route: c.route });
        defs.push((defs.len(), d));
    }
    let r = compare(&defs, &cs, seed)?;
    Ok(differing(&defs, &cs, &r).into_iter().find(|g| g.definition.len() + g.input[0].len() < f.definition.len() + f.input[0].len()))
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let d: Def = serde_json::from_value(r.data["def"].clone()).map_err(|e| Harness(e.to_string()))?;
    let mut c: Case = serde_json::from_value(r.data["case"].clone()).map_err(|e| Harness(e.to_string()))?;
    c.def = 0;
    let (defs, cs) = (vec![(0, d)], vec![c]);
    // the fragments of a macro_rules macro are chosen by number
    for s in 1..6 {
        let r = compare(&defs, &cs, s)?;
        if let Some(f) = differing(&defs, &cs, &r).into_iter().next() {
            return Ok(Some(f.detail));
        }
        if cs[0].route != Route::Rules {
            break;
        }
    }
    Ok(None)
}
