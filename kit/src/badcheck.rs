//! C20: ill-formed definitions.
use crate::engine::*;
use kit::bad::{self, Bad, Place};
use kit::tape::Src;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn kinds() -> usize {
    bad::SM_KINDS.len() + bad::NODE_KINDS.len()
}

fn generate(seed: u64, round: usize, per_kind: usize, only: Option<usize>, small: bool) -> Vec<(usize, Bad)> {
    let mut out: Vec<(usize, Bad)> = Vec::new();
    let mut seen = BTreeSet::new();
    for k in 0..kinds() {
        if only.is_some_and(|o| o != k) {
            continue;
        }
        let (mut n, mut i) = (0, 0);
        while n < per_kind && i < per_kind * 12 {
            let t = tape(seed, if small { "C20-small" } else { "C20" }, (round * kinds() + k) * 10_000 + i, 700);
            i += 1;
            let id = out.len();
            if let Some(b) = bad::gen_bad(&mut Src::new(&t), id, k, small) {
                if seen.insert(b.definition.replace(&format!("T{id}"), "T").replace(&format!("N{id}"), "N")) {
                    out.push((id, b));
                    n += 1;
                }
            }
        }
    }
    out
}

enum Verdict {
    Refused,
    Wrong(String, Vec<String>),
}

/// the verdict if there is an error in this definition
fn refused(b: &Bad, ds: &[Diag]) -> Option<Verdict> {
    let inside: Vec<&Diag> = ds.iter().filter(|d| d.at.iter().any(|a| a.0 <= b.lines.1 && a.2 >= b.lines.0)).collect();
    if inside.is_empty() {
        return None;
    }
    if b.place == Place::Typed {
        return Some(Verdict::Refused);
    }
    let hit = |l: &[(usize, usize, usize, usize)]| l.iter().any(|a| b.spots.iter().any(|s| (a.0, a.1) < (s.2, s.3) && (a.2, a.3) > (s.0, s.1)));
    let at = |d: &Diag| hit(&d.at);
    let shown = |why: &str| Some(Verdict::Wrong(why.into(), inside.iter().take(3).map(|d| d.rendered.clone()).collect()));
    if matches!(b.place, Place::TypedFields(_)) {
        return if inside.iter().any(|d| hit(&d.labels)) { Some(Verdict::Refused) } else { shown("no error points to the offending field") };
    }
    // what the text of the definition shows is reported by the macro
    let own: Vec<&&Diag> = inside.iter().filter(|d| d.code.is_none()).collect();
    if own.is_empty() {
        return shown("only the compiler finds fault with the generated code");
    }
    if !b.spots.is_empty() && !own.iter().any(|d| at(d)) {
        return shown("the error does not point to the offending part");
    }
    Some(Verdict::Refused)
}

/// compiles and judges; definitions without an error of their own are compiled again without the others
fn judge(bads: &[(usize, Bad)]) -> H<BTreeMap<usize, Verdict>> {
    let mut out = BTreeMap::new();
    let mut left: Vec<&(usize, Bad)> = bads.iter().collect();
    let mut elsewhere: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
    for round in 0..4 {
        if left.is_empty() {
            break;
        }
        let mods: Vec<GenMod> = left.iter().map(|(id, b)| GenMod { id: *id, edition: 0, source: b.source.clone(), entry: String::new() }).collect();
        let built = build(&mods, true)?;
        let before = left.len();
        left.retain(|(id, b)| {
            let Some(ds) = built.failed.get(id) else {
                elsewhere.remove(id);
                return true;
            };
            if let Some(d) = ds.iter().find(|d| d.message.contains("panicked") || d.notes.iter().any(|n| n.contains("panicked"))) {
                out.insert(*id, Verdict::Wrong("the macro panics on this definition".into(), vec![d.rendered.clone()]));
                return false;
            }
            match refused(b, ds) {
                None => {
                    elsewhere.insert(*id, ds.clone());
                    return true;
                }
                Some(v) => out.insert(*id, v),
            };
            false
        });
        if round > 0 && left.len() == before {
            break;
        }
    }
    // the last word is about each one alone
    for (n, (id, b)) in left.into_iter().enumerate() {
        if n < 6 {
            let built = build(&[GenMod { id: *id, edition: 0, source: b.source.clone(), entry: String::new() }], true)?;
            if let Some(v) = built.failed.get(id).and_then(|ds| refused(b, ds)) {
                out.insert(*id, v);
                continue;
            }
            elsewhere.remove(id);
            if let Some(ds) = built.failed.get(id) {
                elsewhere.insert(*id, ds.clone());
            }
        }
        out.insert(
            *id,
            match elsewhere.get(id) {
                None => Verdict::Wrong("this definition is accepted".into(), vec![]),
                Some(ds) => Verdict::Wrong("no error points into this definition".into(), ds.iter().take(3).map(|d| d.rendered.clone()).collect()),
            },
        );
    }
    Ok(out)
}

fn found(b: &Bad, why: &str, more: &[String]) -> Found {
    Found {
        detail: format!("{} ({})", why, b.kind),
        definition: b.definition.clone(),
        input: more.to_vec(),
        kind: "ill-formed".into(),
        data: json!({ "source": b.source, "lines": [b.lines.0, b.lines.1], "kind": b.kind, "typed": b.place == Place::Typed, "typed_fields": matches!(b.place, Place::TypedFields(_)), "spots": b.spots }),
        signature: String::new(),
    }
}

pub fn check(thorough: bool, seed: u64) -> H<Summary> {
    let t0 = Instant::now();
    let (rounds, per_kind) = if thorough { (60, 600) } else { (1, 700) };
    let mut report = kit::report::Report::default();
    let mut all = Vec::new();
    for r in 0..rounds {
        if r > 0 && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let bads = generate(seed, r, per_kind, None, false);
        let res = judge(&bads)?;
        for (id, b) in &bads {
            report.types += 1;
            report.evaluations += 1;
            *report.classes.entry(b.kind.clone()).or_default() += 1;
            if !b.spots.is_empty() {
                *report.classes.entry("judged by the place of the error".into()).or_default() += 1;
            }
            let stable = b.definition.replace(&format!("T{id}"), "T").replace(&format!("N{id}"), "N");
            report.nontrivial.insert(kit::report::hash(&[&stable]));
            if report.samples.len() < 60 && id % 17 == 3 {
                report.samples.push(format!("{}: {}", b.kind, b.definition.trim_end()));
            }
            if let Some(Verdict::Wrong(why, more)) = res.get(id) {
                all.push((b.clone(), why.clone(), more.clone()));
            }
        }
        if !all.is_empty() {
            break;
        }
    }
    all.sort_by_key(|x| x.0.definition.len());
    let mut out: Vec<Found> = Vec::new();
    // per kind of fault and kind of failure the smallest; then look for a smaller one
    let mut seen = BTreeSet::new();
    for (b, why, more) in &all {
        if !seen.insert((b.kind.clone(), why.clone())) || out.len() >= 4 {
            continue;
        }
        let mut f = found(b, why, more);
        let k = bad::SM_KINDS.iter().chain(bad::NODE_KINDS).position(|x| *x == b.kind);
        if t0.elapsed() < Duration::from_secs(400) {
            let small = generate(seed, 0, 40, k, true);
            if let Ok(res) = judge(&small) {
                let best = small
                    .iter()
                    .filter_map(|(id, b)| match res.get(id) {
                        Some(Verdict::Wrong(w, m)) if w == why => Some((b, w, m)),
                        _ => None,
                    })
                    .min_by_key(|x| x.0.definition.len());
                if let Some((b2, w, m)) = best {
                    if b2.definition.len() < b.definition.len() {
                        f = found(b2, w, m);
                    }
                }
            }
        }
        out.push(f);
    }
    Ok(Summary {
        report,
        found: out,
        rule: "A well-formed definition is drawn from the grammar of the other checks (StructMeta: structs with positional, named and rest fields; Parse/ToTokens: structs and enums), one rule of the documentation is broken at a random place (the kinds and their counts are in `classes`), also in a nested definition, and rustc compiles it with the derives from /repo. If the text of the definition shows the fault, the macro itself must report it with a primary span on the offending field or attribute (or in the definition, for unions and enums); for faults that only types show, the compiler's error must have a label in the offending field (with the derived Parse: must point inside the definition). No macro may panic. Definitions for which the macros report nothing are compiled again without the refused ones, so that errors of the type checker count. Non-trivial: every such definition. Distinct: by definition text.".into(),
        assumptions: vec!["rustc reports the spans given by the macro".into(), "the list of rules follows the documentation and the diagnostics of the derives".into()],
    })
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let source = r.data["source"].as_str().unwrap_or("").to_string();
    let n = |i: usize| r.data["lines"][i].as_u64().unwrap_or(0) as usize;
    // the module keeps its number, which is part of its text
    let id = source.split("pub mod m").nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()).and_then(|t| t.parse().ok()).unwrap_or(0);
    let b = Bad {
        kind: r.data["kind"].as_str().unwrap_or("").into(),
        source,
        definition: r.definition.clone(),
        lines: (n(0), n(1)),
        place: if r.data["typed"] == true { Place::Typed } else if r.data["typed_fields"] == true { Place::TypedFields(vec![]) } else { Place::Item },
        spots: serde_json::from_value(r.data["spots"].clone()).unwrap_or_default(),
    };
    match judge(&[(id, b)])?.remove(&id) {
        Some(Verdict::Wrong(why, _)) => Ok(Some(why)),
        _ => Ok(None),
    }
}
