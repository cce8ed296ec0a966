//! Properties decided over generated definitions and inputs.
use crate::engine::*;
use kit::def::Def;
use kit::props::{node_plan, sm_plan};
use kit::shard::{ReplayCase, ShardCfg};
use kit::tape::Src;
use serde_json::json;
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

/// the definitions of a run: distinct up to the type name
pub fn defs(id: &str, seed: u64) -> Vec<(usize, Def)> {
    let mut out = Vec::new();
    let mut seen = BTreeSet::new();
    let mut add = |out: &mut Vec<(usize, Def)>, n: usize, salt: &str, make: &dyn Fn(&mut Src, usize) -> Def| {
        let start = out.len();
        let mut i = 0;
        while out.len() - start < n && i < n * 3 {
            let t = tape(seed, salt, i, 700);
            i += 1;
            let d = make(&mut Src::new(&t), out.len());
            let key = match &d {
                Def::Sm(s) => d.source().replace(&s.ident, "T"),
                Def::Node(s) => d.source().replace(&s.ident, "T"),
                Def::Algebra(_) => unreachable!(),
            };
            if seen.insert(key) {
                out.push((out.len(), d));
            }
        }
    };
    if id == "C23" {
        return ["flags", "pairs", "flags", "pairs", "flags", "pairs", "flags", "pairs"].iter().enumerate().map(|(i, k)| (i, Def::Algebra(k.to_string()))).collect();
    }
    if let Some(p) = sm_plan(id) {
        add(&mut out, p.types, id, &|s, i| Def::Sm(kit::sm::gener::gen_schema(s, &p.profile, i)));
    }
    if let Some(p) = node_plan(id) {
        add(&mut out, p.types, &format!("{id}-node"), &|s, i| Def::Node(kit::node::gener::gen_schema(s, &p.profile, i)));
    }
    out
}

pub fn module(id: usize, d: &Def) -> GenMod {
    GenMod { id, edition: d.edition(), source: d.module(id), entry: d.entry(id, false) }
}

pub fn show(id: &str, n: usize) {
    let v = defs(id, seed());
    let step = (v.len() / n.max(1)).max(1);
    for (i, d) in v.iter().step_by(step) {
        println!("{}", d.source());
        for k in 0..4 {
            let t = tape(seed(), "show", i * 100 + k, 200);
            let s = &mut Src::new(&t);
            match d {
                Def::Sm(sc) => {
                    let p = sm_plan(id).unwrap();
                    let c = kit::sm::case::gen_case(sc, s, &p.mix, p.variants);
                    println!("   {:?} {:?} {}", c.planted, c.features, c.texts.join("\n        | "));
                }
                Def::Node(sc) => {
                    let p = node_plan(id).unwrap();
                    let c = kit::node::case::gen_case(sc, s, &p.mix);
                    println!("   {:?} {}", c.labels, c.text);
                }
                Def::Algebra(_) => {}
            }
        }
    }
}

fn cfg(id: &str, effort: u32, seed: u64) -> ShardCfg {
    ShardCfg { prop: id.into(), seed, effort, defs: vec![], replay: None, trace: String::new(), out: String::new() }
}

fn data(d: &Def, c: Option<&ReplayCase>) -> serde_json::Value {
    json!({ "def": d, "case": c })
}
fn def_of(f: &Found) -> Option<Def> {
    serde_json::from_value(f.data["def"].clone()).ok()
}

pub struct Run {
    pub report: kit::report::Report,
    pub found: Vec<Found>,
}

/// build, run and collect
pub fn run(id: &str, defs: &[(usize, Def)], effort: u32, seed: u64, limit: Duration, skip_failed: bool) -> H<Run> {
    let mods: Vec<GenMod> = if id == "C22" {
        match crate::dumpcheck::modules(defs)? {
            Ok(m) => m,
            Err(bad) if skip_failed => {
                let rest: Vec<(usize, Def)> = defs.iter().filter(|d| bad.iter().all(|b| b.0 != d.0)).cloned().collect();
                return if rest.is_empty() { Ok(Run { report: Default::default(), found: vec![] }) } else { run(id, &rest, effort, seed, limit, true) };
            }
            Err(bad) => {
                let report = kit::report::Report { types: defs.len() as u64, evaluations: defs.len() as u64, ..Default::default() };
                let mut found: Vec<Found> = bad.into_iter().map(|b| b.1).collect();
                found.sort_by_key(|f| f.definition.len());
                return Ok(Run { report, found });
            }
        }
    } else {
        defs.iter().map(|(i, s)| module(*i, s)).collect()
    };
    let get = |i: usize| defs.iter().find(|s| s.0 == i).map(|s| &s.1).ok_or(Harness(format!("unknown module {i}")));
    let built = build(&mods, false)?;
    let mut found = Vec::new();
    if !built.failed.is_empty() {
        if skip_failed {
            let rest: Vec<(usize, Def)> = defs.iter().filter(|d| !built.failed.contains_key(&d.0)).cloned().collect();
            if rest.is_empty() || rest.len() == defs.len() {
                return Ok(Run { report: Default::default(), found });
            }
            return run(id, &rest, effort, seed, limit, false);
        }
        for (i, ds) in &built.failed {
            let d = get(*i)?;
            found.push(Found {
                detail: format!("{}: {}", if id == "C22" { "a well-formed definition or the code dumped for it does not compile" } else { "a well-formed definition does not compile" }, ds[0].message),
                definition: d.source(),
                input: ds.iter().take(3).map(|d| d.rendered.clone()).collect(),
                kind: "compile".into(),
                data: data(d, None),
                signature: String::new(),
            });
        }
        found.sort_by_key(|f| f.definition.len());
        let report = kit::report::Report { types: defs.len() as u64, evaluations: defs.len() as u64, ..Default::default() };
        return Ok(Run { report, found });
    }
    let base = cfg(id, effort, seed);
    let (report, deaths) = run_all(&built, &base, limit, &|c, ids| {
        let mut c = c.clone();
        c.defs = defs.iter().filter(|s| ids.contains(&s.0)).cloned().collect();
        c
    })?;
    for (c, how) in deaths {
        let d = get(c.id)?;
        found.push(Found {
            detail: format!("with this input, {how}"),
            definition: d.source(),
            input: c.texts.clone(),
            kind: "run".into(),
            data: data(d, Some(&c)),
            signature: String::new(),
        });
    }
    for v in &report.violations {
        let d = get(v.type_id)?;
        let c = ReplayCase { id: v.type_id, texts: v.texts.clone(), attr: v.attr, single: v.single };
        found.push(Found {
            detail: v.detail.clone(),
            definition: v.definition.clone(),
            input: v.texts.iter().map(|t| if v.attr { format!("#[attr({t})]") } else { t.clone() }).collect(),
            kind: "run".into(),
            data: data(d, Some(&c)),
            signature: v.signature.clone(),
        });
    }
    Ok(Run { report, found })
}

pub fn check(id: &str, thorough: bool, seed: u64) -> H<Summary> {
    let t0 = Instant::now();
    let (rounds, effort) = if thorough { (8, 400) } else { (1, 100) };
    let mut total = kit::report::Report::default();
    let mut found = Vec::new();
    for r in 0..rounds {
        // the time is only looked at between rounds
        if r > 0 && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let sd = seed.wrapping_add(r as u64 * 0x9e37_79b9);
        let ds = defs(id, sd);
        let run = run(id, &ds, effort, sd, Duration::from_secs(if thorough { 1500 } else { 600 }), false)?;
        total.merge(run.report);
        if !run.found.is_empty() {
            found = run.found;
            if total.harness_errors.is_empty() && t0.elapsed() < Duration::from_secs(500) {
                if let Some(f) = shrink(id, &found[0], seed, t0) {
                    found.insert(0, f);
                }
            }
            break;
        }
        if id == "C19" {
            let (n, bad) = crate::leancheck::check(&ds, t0)?;
            *total.classes.entry("definitions compiled in a crate with few dependencies".into()).or_default() += n as u64;
            total.evaluations += n as u64;
            if !bad.is_empty() {
                found = bad;
                break;
            }
        }
    }
    Ok(Summary { report: total, found, rule: rule(id), assumptions: assumptions() })
}

/// smaller definitions that still fail (every candidate of a round is compiled in one go)
fn shrink(id: &str, f0: &Found, seed: u64, t0: Instant) -> Option<Found> {
    let mut cur = def_of(f0)?;
    let mut best = None;
    for _ in 0..4 {
        if t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let mut cands = cur.smaller();
        cands.truncate(40);
        let scs: Vec<(usize, Def)> = cands.into_iter().enumerate().collect();
        if scs.is_empty() {
            break;
        }
        let r = run(id, &scs, 40, seed, Duration::from_secs(120), f0.kind == "run").ok()?;
        let Some(f) = r.found.into_iter().filter(|f| f.kind == f0.kind).min_by_key(|f| f.definition.len()) else { break };
        cur = def_of(&f)?;
        best = Some(f);
    }
    best
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let d: Def = serde_json::from_value(r.data["def"].clone()).map_err(|e| Harness(e.to_string()))?;
    let mods = if r.property == "C22" {
        match crate::dumpcheck::modules(&[(0, d.clone())])? {
            Ok(m) => m,
            Err(bad) => return Ok(bad.into_iter().next().map(|b| b.1.detail)),
        }
    } else {
        vec![module(0, &d)]
    };
    let built = build(&mods, false)?;
    if let Some((_, d)) = built.failed.iter().next() {
        return Ok(Some(format!("does not compile: {}", d[0].rendered)));
    }
    if r.kind == "compile" || r.kind == "dump" {
        return Ok(None);
    }
    let mut case: ReplayCase = serde_json::from_value(r.data["case"].clone()).map_err(|e| Harness(e.to_string()))?;
    case.id = 0;
    let mut c = cfg(&r.property, 100, 1);
    c.defs = vec![(0, d)];
    c.replay = Some(case);
    match run_bin(&built.bins[0].0, &c, "replay", Duration::from_secs(120))? {
        Ran::Ok(rep) => Ok(rep.violations.first().map(|v| v.detail.clone())),
        Ran::Died(how, _) => Ok(Some(how)),
    }
}

fn assumptions() -> Vec<String> {
    vec![
        "syn, quote and proc-macro2 (fallback implementation, with span locations) behave as released".into(),
        "the reference model is a faithful reading of the documentation".into(),
    ]
}

pub fn rule(id: &str) -> String {
    if id == "C23" {
        return "Random programs of up to 14 steps over four Flag registers (NONE, default, From<bool>, explicit spans, clone, |, |=), all registers compared with the model and with each other after every step; and pairs of NameValue/NameArgs with values of 11 types (also NaN, nested, syn types) and 6 spans. Non-trivial: a program that uses | or |= at least once; a pair with different spans. Distinct: by program text.".into();
    }
    let mut how = String::from("Definitions are drawn from a grammar of documented definitions and compiled with the derives from /repo. ");
    if sm_plan(id).is_some() {
        how.push_str("StructMeta: argument lists are built well-formed by construction and then 0-2 faults are planted. ");
    }
    if node_plan(id).is_some() {
        how.push_str("Parse/ToTokens: a value is drawn, printed as text and possibly changed or extended. ");
    }
    if id == "C22" {
        how.push_str("Each definition is compiled once with `dump` (alone, next to or after other helper arguments) on some of its types; the compiler messages must contain exactly the requested implementations, which are then compiled in place of the derives next to the derived definition. Every input is given to both: values, spans, errors and printed tokens must be the same, and agree with the model. ");
    }
    how.push_str("All choices come from one proptest tape per case. ");
    let nt = match id {
        "C01" => "Non-trivial: a list the model accepts, with at least two arguments, for a struct with named parameters.",
        "C02" => "Non-trivial: a list the model finds faulty.",
        "C03" => "Non-trivial: a non-empty list for a struct with positional fields that the documentation decides.",
        "C04" => "Non-trivial: a non-empty list that the documentation decides (values are drawn mostly name-like).",
        "C05" => "Non-trivial: a non-empty list for a struct with a rest map.",
        "C06" => "Non-trivial: a non-empty list for a struct with named parameters.",
        "C07" => "Non-trivial: at least two different writings of the same list were compared, or a separator fault was planted.",
        "C08" => "Non-trivial: a non-empty list that the documentation decides, for definitions with keyword, near-colliding, renamed or many names.",
        "C09" => "Non-trivial: a token sequence that the model does not accept (or leaves unspecified).",
        "C10" => "Non-trivial: an accepted list with at least one recorded name span.",
        "C11" => "Non-trivial: exactly one fault, planted in a list the model accepts.",
        "C12" => "Non-trivial: an unknown name within one edit of a declared one.",
        "C24" => "Non-trivial: a list with at least one parenthesised inner list for a struct with nested types; or any decided sequence for a Parse type containing another.",
        "C28" => "Non-trivial: a list with at least two arguments for a struct with values; or a sequence for which the documentation has at least three calls of field parsers.",
        "C25" => "Non-trivial: a list with exactly one fault, and that one inside a value; or a sequence refused by the parser of a field.",
        "C13" => "Non-trivial: a value with at least one delimited group that was built and printed.",
        "C14" => "Non-trivial: a non-empty token sequence that the documentation decides.",
        "C15" => "Non-trivial: a built value with a group that was printed and parsed, or a changed text that is accepted and printed again.",
        "C16" => "Non-trivial: a sequence for which a variant was chosen by peeking or at least one variant was passed over.",
        "C17" => "Non-trivial: a sequence for a definition with an `any` or `terminated` field.",
        "C18" => "Non-trivial: a sequence containing a group, for a definition with a MacroDelimiter field.",
        _ => "Non-trivial: a non-empty list that the documentation decides.",
    };
    format!("{how}{nt} Distinct: by definition text and list text.")
}
