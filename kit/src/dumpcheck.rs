//! C22: collecting the dumped code.
use crate::engine::*;
use kit::def::Def;
use kit::dump;
use serde_json::json;

/// modules with the dumped code pasted in, or what is wrong with the dumps
pub fn modules(defs: &[(usize, Def)]) -> H<Result<Vec<GenMod>, Vec<(usize, Found)>>> {
    let mods: Vec<GenMod> = defs.iter().map(|(i, d)| GenMod { id: *i, edition: d.edition(), source: dump::asking(d, *i), entry: String::new() }).collect();
    let built = build(&mods, true)?;
    let mut out = Vec::new();
    let mut bad = Vec::new();
    for (i, d) in defs {
        let mut code = dump::Code::new();
        let want = dump::wanted(d);
        let mut wrong = None;
        let empty = Vec::new();
        let ds = built.failed.get(i).unwrap_or(&empty);
        for diag in ds {
            let text = std::iter::once(&diag.message).chain(&diag.notes).cloned().collect::<Vec<_>>().join("\n");
            for (k, c) in dump::implementations(&text) {
                if !want.contains(&k) {
                    wrong = Some((format!("the code of {} for {} is reported although `dump` is not given for it", k.1, k.0), diag.rendered.clone()));
                }
                if code.insert(k.clone(), c).is_some() {
                    wrong = Some((format!("the code of {} for {} is reported twice", k.1, k.0), diag.rendered.clone()));
                }
            }
        }
        if wrong.is_none() {
            if let Some(k) = want.iter().find(|k| !code.contains_key(k)) {
                let why = if ds.is_empty() {
                    format!("`dump` is given for {} of {}, but the definition compiles", k.1, k.0)
                } else {
                    format!("`dump` is given for {} of {}, but no message contains its complete implementation", k.1, k.0)
                };
                wrong = Some((why, ds.iter().take(3).map(|d| d.rendered.clone()).collect::<Vec<_>>().join("\n")));
            }
        }
        match wrong {
            Some((why, more)) => bad.push((
                *i,
                Found {
                    detail: why,
                    definition: dump::asking(d, *i),
                    input: vec![more],
                    kind: "dump".into(),
                    data: json!({ "def": d, "case": null }),
                    signature: String::new(),
                },
            )),
            None => out.push(GenMod { id: *i, edition: d.edition(), source: dump::with_pasted(d, *i, &code), entry: d.entry(*i, true) }),
        }
    }
    if bad.is_empty() { Ok(Ok(out)) } else { Ok(Err(bad)) }
}
