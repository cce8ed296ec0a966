//! C26: the same definition expands to the same code and the same errors everywhere.
//!
//! Every definition is compiled four times: two copies in each of two builds, in other places,
//! after other definitions and in other compiler processes. The derived code is observed with
//! `dump`, the refusals of ill-formed definitions as they are reported.
use crate::engine::*;
use kit::bad;
use kit::def::Def;
use kit::dump;
use kit::tape::Src;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Item {
    source: String,
    shown: String,
    edition: u8,
    def: Option<Def>,
    kind: String,
}

/// what the macros reported for one copy
type Seen = Vec<(String, Vec<String>, Vec<(usize, usize, usize, usize)>)>;

fn well_formed(d: Def, id: usize) -> Item {
    Item { source: dump::asking_all(&d, id), shown: d.source(), edition: d.edition(), kind: format!("{} definition, code dumped", d.kind()), def: Some(d) }
}

fn items(seed: u64, per_kind: usize) -> Vec<Item> {
    let mut out: Vec<Item> = crate::gencheck::defs("C26", seed).into_iter().map(|(i, d)| well_formed(d, i)).collect();
    let n = bad::SM_KINDS.len() + bad::NODE_KINDS.len();
    for k in 0..n {
        for i in 0..per_kind {
            let t = tape(seed, "C26-bad", k * 10_000 + i, 700);
            if let Some(b) = bad::gen_bad(&mut Src::new(&t), out.len(), k, false) {
                out.push(Item { source: b.source, shown: b.definition, edition: 0, def: None, kind: "ill-formed definition, errors".into() });
            }
        }
    }
    out
}

/// compiles the copies in this order
fn observe(items: &[Item], order: &[usize]) -> H<Vec<(usize, Seen)>> {
    let mods: Vec<GenMod> = order
        .iter()
        .enumerate()
        .map(|(file, &i)| GenMod { id: file, edition: items[i].edition, source: items[i].source.clone(), entry: String::new() })
        .collect();
    let built = build(&mods, true)?;
    Ok(order
        .iter()
        .enumerate()
        .map(|(file, &i)| {
            let mut seen: Seen = built
                .failed
                .get(&file)
                .into_iter()
                .flatten()
                // what the compiler itself adds is not of interest
                .filter(|d| d.code.is_none())
                .map(|d| (d.message.clone(), d.notes.clone(), d.at.clone()))
                .collect();
            seen.sort();
            (i, seen)
        })
        .collect())
}

fn order(n: usize, copies: usize, seed: u64, salt: &str) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n * copies).map(|i| i % n).collect();
    let t = tape(seed, salt, 0, v.len());
    for i in (1..v.len()).rev() {
        v.swap(i, t[i] as usize % (i + 1));
    }
    v
}

/// definitions of which copies differ, with the differing observations
fn differing(items: &[Item], copies: usize, seed: u64) -> H<Vec<(usize, Seen, Seen)>> {
    let mut first: BTreeMap<usize, Seen> = BTreeMap::new();
    let mut out: BTreeMap<usize, (Seen, Seen)> = BTreeMap::new();
    for round in ["first", "second"] {
        for (i, seen) in observe(items, &order(items.len(), copies, seed, round))? {
            match first.get(&i) {
                None => {
                    first.insert(i, seen);
                }
                Some(f) if *f != seen && !out.contains_key(&i) => {
                    out.insert(i, (f.clone(), seen));
                }
                _ => {}
            }
        }
    }
    Ok(out.into_iter().map(|(i, (a, b))| (i, a, b)).collect())
}

fn text(s: &Seen) -> String {
    s.iter().map(|(m, n, at)| format!("{m} {} {at:?}", n.join("\n"))).collect::<Vec<_>>().join("\n")
}
/// the first places where two reports differ
fn differ(a: &Seen, b: &Seen) -> Vec<String> {
    let (a, b) = (text(a), text(b));
    let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let part = |t: &str| {
        let s = (p.saturating_sub(150)..=p).find(|&i| t.is_char_boundary(i)).unwrap_or(0);
        let e = (p..t.len()).find(|&i| i > p + 250 && t.is_char_boundary(i)).unwrap_or(t.len());
        t.get(s..e).unwrap_or("").to_string()
    };
    vec![format!("once: ... {}", part(&a)), format!("then: ... {}", part(&b))]
}

fn found(i: &Item, a: &Seen, b: &Seen) -> Found {
    let what = if i.def.is_some() { "the code generated for this definition" } else { "what is reported for this definition" };
    Found {
        detail: format!("{what} is not the same each time it is compiled"),
        definition: i.shown.clone(),
        input: differ(a, b),
        kind: "det".into(),
        data: json!({ "source": i.source, "edition": i.edition, "def": i.def }),
        signature: String::new(),
    }
}

pub fn check(thorough: bool, seed: u64) -> H<Summary> {
    let t0 = Instant::now();
    let mut report = kit::report::Report::default();
    let mut out: Vec<Found> = Vec::new();
    for r in 0..if thorough { 12 } else { 1 } {
        if r > 0 && t0.elapsed() > Duration::from_secs(600) {
            break;
        }
        let sd = seed.wrapping_add(r * 0x9e37_79b9);
        let its = items(sd, if thorough { 90 } else { 45 });
        for (k, i) in its.iter().enumerate() {
            report.types += 1;
            report.evaluations += 4;
            *report.classes.entry(i.kind.clone()).or_default() += 1;
            report.nontrivial.insert(kit::report::hash(&[&i.shown]));
            if k % 61 == 7 && report.samples.len() < 60 {
                report.samples.push(format!("{}: {}", i.kind, i.shown.trim_end()));
            }
        }
        let mut bad = differing(&its, 2, sd)?;
        bad.sort_by_key(|(i, ..)| its[*i].shown.len());
        out = bad.iter().take(4).map(|(i, a, b)| found(&its[*i], a, b)).collect();
        if let Some((i, ..)) = bad.first() {
            let mut cur = its[*i].def.clone();
            for _ in 0..4 {
                let Some(d) = &cur else { break };
                if t0.elapsed() > Duration::from_secs(500) {
                    break;
                }
                let c: Vec<Item> = d.smaller().into_iter().take(40).enumerate().map(|(i, d)| well_formed(d, i)).collect();
                let Some((f, d)) = differing(&c, 8, sd)?
                    .iter()
                    .map(|(i, a, b)| (found(&c[*i], a, b), c[*i].def.clone()))
                    .min_by_key(|(f, _)| f.definition.len())
                else {
                    break;
                };
                cur = d;
                out.insert(0, f);
            }
            break;
        }
    }
    Ok(Summary {
        report,
        found: out,
        rule: "Well-formed definitions of both families (asking with `dump` for all derived implementations) and ill-formed ones (one rule of the documentation broken at a random place). Each is compiled in two builds, two copies in each, in shuffled order over eight crates: other neighbours, other places, other compiler processes. The text of the dumped code and the messages and places of the errors the macros report must be the same for all four. Non-trivial: every definition. Distinct: by definition text.".into(),
        assumptions: vec!["rustc reports the messages of the macros completely".into()],
    })
}

pub fn replay(r: &ReplayFile) -> H<Option<String>> {
    let mut its: Vec<Item> = crate::gencheck::defs("C26", 1).into_iter().step_by(23).map(|(i, d)| well_formed(d, i)).collect();
    let edition = r.data["edition"].as_u64().unwrap_or(0) as u8;
    let it = Item { source: r.data["source"].as_str().unwrap_or("").into(), shown: r.definition.clone(), edition, def: None, kind: String::new() };
    its.insert(0, it);
    let seen: BTreeSet<usize> = differing(&its, 12, 1)?.iter().map(|d| d.0).collect();
    Ok(seen.contains(&0).then(|| "not the same each time it is compiled".to_string()))
}
