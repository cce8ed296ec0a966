//! Oracles over definitions deriving Parse and ToTokens.
use super::case::{self, NCase, NMix, TV};
use super::{emit, errs};
use super::model::{self, ModelOut};
use super::rt::*;
use super::schema::*;
use crate::lex;
use crate::report::Outcome;
use crate::run::{Subject, guarded};
use crate::tape::Src;
use crate::types;
use crate::val::Val;
use proc_macro2::TokenStream;
use syn::parse::Parser;

pub struct NodeSubject<'a> {
    pub prop: &'a str,
    pub id: usize,
    pub schema: &'a NSchema,
    pub ops: &'static NodeOps,
    /// the dumped code of the same definition
    pub twin: Option<&'static NodeOps>,
    pub mix: NMix,
}

fn real(ops: &NodeOps, ts: &TokenStream) -> Result<Result<NodeOut, String>, String> {
    guarded(|| (ops.parse).parse2(ts.clone()).map_err(|e| { let at = e.span().start(); format!("{e} (at {}:{})", at.line, at.column) }))
}
fn show_real(r: &Result<NodeOut, String>) -> String {
    match r {
        Ok(o) => format!("Ok({}, rest: `{}`)", o.val.show(), o.rest),
        Err(e) => format!("Err({e:?})"),
    }
}
fn show_model(m: &Option<(Val, TokenStream)>) -> String {
    match m {
        Some((v, r)) => format!("Ok({}, rest: `{r}`)", v.show()),
        None => "an error".into(),
    }
}

/// what a property looks at
#[derive(Clone, Copy, PartialEq)]
struct Look {
    parse: bool,
    print: bool,
    round: bool,
    panic: bool,
}
fn look(prop: &str) -> Look {
    let l = |parse, print, round| Look { parse, print, round, panic: true };
    match prop {
        "C13" => Look { panic: false, ..l(false, true, false) },
        "C15" => Look { panic: false, ..l(false, false, true) },
        "C14" | "C16" | "C17" | "C24" => l(true, false, false),
        "C09" | "C25" => l(false, false, false),
        "C28" => Look { panic: false, ..l(true, false, false) },
        _ => l(true, true, false),
    }
}

impl NodeSubject<'_> {
    fn look(&self) -> Look {
        let l = look(self.prop);
        match self.schema.role {
            1 => Look { print: false, round: false, ..l },
            2 => Look { parse: false, round: false, panic: false, ..l },
            _ => l,
        }
    }
    /// encoded value: the judge can also be given a text alone
    fn judge_text(&self, text: &str) -> Option<(Option<String>, ModelOut, Option<&'static str>)> {
        let ts = lex::lex(text)?;
        crate::shard::note(self.id, text, false);
        let lk = self.look();
        let m = model::eval(self.schema, ts.clone());
        let mut v = None;
        let mut what = None;
        if lk.parse || lk.panic || lk.round {
            let r = match real(self.ops, &ts) {
                Ok(r) => r,
                Err(p) => {
                    return Some((lk.panic.then(|| format!("the derived parser panicked: {p}")), m, None));
                }
            };
            if self.prop == "C28" {
                v = self.calls(&ts, &m);
            } else if lk.parse {
                v = compare(&r, &m, self.schema.any_field(&|f| f.kind == FieldKind::Rest));
            }
            if self.prop == "C09" {
                match real(self.ops, &ts) {
                    Ok(again) if show_real(&again) == show_real(&r) => {}
                    _ => v = Some(format!("a second parse of the same tokens does not answer {}", show_real(&r))),
                }
            }
            if self.prop == "C25" && r.is_err() && !m.lenient {
                if let Some(want) = errs::eval(self.schema, ts.clone()) {
                    what = Some(want.what);
                    v = self.error(&ts, &want);
                }
            }
            if lk.round && v.is_none() {
                v = self.parsed_then_printed(&ts, &r);
            }
            if let (None, Some(twin)) = (&v, self.twin) {
                let printed = |r: &Result<NodeOut, String>| r.as_ref().ok().map(|o| flat(&o.printed));
                v = match real(twin, &ts) {
                    Ok(t) if show_real(&t) == show_real(&r) && printed(&t) == printed(&r) => None,
                    Ok(t) => Some(format!("the dumped code answers {}, the derive {}", show_real(&t), show_real(&r))),
                    Err(m) => Some(format!("the dumped code panics ({m}), the derive answers {}", show_real(&r))),
                };
            }
        }
        Some((v, m, what))
    }

    /// the parsers of the fields are called where the documentation says, and only there
    fn calls(&self, ts: &TokenStream, m: &ModelOut) -> Option<String> {
        if m.lenient {
            return None;
        }
        let want = model::calls(self.schema, ts.clone())?;
        let (_, got) = types::calls(|| real(self.ops, ts));
        (got != want).then(|| {
            format!("the parsers of the fields must be called once per place, at {}, but are called at {}", types::show_calls(&want), types::show_calls(&got))
        })
    }

    /// the error against the one of the failing field
    fn error(&self, ts: &TokenStream, want: &errs::Expected) -> Option<String> {
        let got = match guarded(|| (self.ops.parse).parse2(ts.clone()).err().map(crate::sm::model::errors)) {
            Ok(Some(e)) => e,
            other => return Some(format!("a second parse of the same tokens answers {other:?}")),
        };
        let same = if want.place_only {
            got.first().map(|x| x.1.start()) == want.err.first().map(|x| x.1.start())
        } else {
            got == want.err
        };
        (!same).then(|| format!("the error must be that of the field that does not parse ({}), {:?}, but is {got:?}", want.what, want.err))
    }

    /// parse . print gives back the tokens that were consumed
    fn parsed_then_printed(&self, ts: &TokenStream, r: &Result<NodeOut, String>) -> Option<String> {
        let Ok(o) = r else { return None };
        let all = flat(ts);
        let rest = flat(&o.rest);
        let printed = flat(&o.printed);
        if printed.len() + rest.len() != all.len() || printed[..] != all[..printed.len()] || rest[..] != all[printed.len()..] {
            super::toks::EXACT.with(|e| e.set(Some(true)));
            let _ = model::eval(self.schema, ts.clone());
            if super::toks::EXACT.with(|e| e.replace(None)) == Some(false) {
                return None;
            }
            return Some(format!(
                "parsing `{ts}` and printing the value gives {} (unread: {}), not the tokens read: {}",
                show_flat(&printed), show_flat(&rest), show_flat(&all)
            ));
        }
        None
    }

    /// a value that is built directly
    fn judge_value(&self, v: &[TV], text: &str) -> Result<Option<String>, String> {
        let ts = lex::lex(text).ok_or("text does not lex")?;
        let p = case::pieces(v, ts.clone()).ok_or("text does not match the value")?;
        let mut b = Builder::new(p);
        let made = guarded(|| (self.ops.build)(&mut b));
        let made = match made {
            Ok(m) => m,
            Err(e) if e.starts_with("builder: ") => return Err(e),
            Err(e) => return Ok(Some(format!("printing the value panicked: {e}"))),
        };
        if !b.q.is_empty() {
            return Err("builder: pieces left".into());
        }
        let lk = self.look();
        if let Some(twin) = self.twin {
            let mut b = Builder::new(case::pieces(v, ts.clone()).ok_or("text does not match the value")?);
            match guarded(|| (twin.build)(&mut b)) {
                Ok(t) if flat(&t.printed) == flat(&made.printed) => {}
                Ok(t) => return Ok(Some(format!("the dumped code prints `{}`, the derive `{}`", t.printed, made.printed))),
                Err(e) => return Ok(Some(format!("printing the value with the dumped code panicked: {e}"))),
            }
        }
        if lk.print {
            let want = flat(&ts);
            let got = flat(&made.printed);
            if want != got {
                let w: Vec<&String> = want.iter().map(|x| &x.0).collect();
                let g: Vec<&String> = got.iter().map(|x| &x.0).collect();
                if w != g {
                    return Ok(Some(format!("the value prints as `{}`, expected `{ts}`", made.printed)));
                }
                return Ok(Some(format!("the value prints with other spans: {}, expected {}", show_flat(&got), show_flat(&want))));
            }
        }
        if lk.round {
            // unambiguous values only
            let m = model::eval(self.schema, ts.clone());
            if m.lenient || !matches!(&m.res, Some((v, r)) if *v == made.val && r.is_empty()) {
                return Ok(None);
            }
            return Ok(match real(self.ops, &made.printed) {
                Err(e) => Some(format!("parsing the printed value `{}` panicked: {e}", made.printed)),
                Ok(Err(e)) => Some(format!("the printed value `{}` is rejected: {e}", made.printed)),
                Ok(Ok(o)) if o.val != made.val || !o.rest.is_empty() => {
                    Some(format!("the value {} prints as `{}`, which parses as {}", made.val.show(), made.printed, show_real(&Ok(o))))
                }
                _ => None,
            });
        }
        Ok(None)
    }
}

fn compare(r: &Result<NodeOut, String>, m: &ModelOut, has_rest: bool) -> Option<String> {
    let same = |m: &Option<(Val, TokenStream)>| match (r, m) {
        (Ok(o), Some((v, rest))) => o.val == *v && flat(&o.rest) == flat(rest),
        (Err(_), None) => true,
        _ => false,
    };
    // when a tried variant leaves tokens inside a group, the documentation does not say
    // whether it is passed over or the whole is an error
    if same(&m.res) || m.lenient && (r.is_err() || same(&m.other) || has_rest) {
        return None;
    }
    Some(format!("parsed as {}, expected {}", show_real(r), show_model(&m.res)))
}

impl Subject for NodeSubject<'_> {
    fn ident(&self) -> String {
        self.schema.ident.clone()
    }
    fn type_id(&self) -> usize {
        self.id
    }
    fn family(&self) -> &'static str {
        "node"
    }
    fn definition(&self) -> String {
        emit::source(self.schema)
    }
    fn judge(&self, texts: &[String], _attr: bool, _single: bool) -> Option<String> {
        let t = texts.first()?;
        if let Some(v) = texts.get(1) {
            // a value recorded with its text
            let tape: Vec<u32> = serde_json::from_str(v).ok()?;
            let c = case::gen_case(self.schema, &mut Src::new(&tape), &self.mix);
            return self.judge_value(c.value.as_ref()?, &c.text).ok()?;
        }
        self.judge_text(t)?.0
    }
    fn case(&self, tape: &[u32]) -> Outcome {
        let mut s = Src::new(tape);
        let c: NCase = case::gen_case(self.schema, &mut s, &self.mix);
        let used = s.used().min(tape.len());
        let mut o = Outcome { texts: vec![c.text.clone()], ..Default::default() };
        o.evaluations = 1;
        let lk = self.look();
        let what;
        let m = match self.judge_text(&c.text) {
            Some((v, m, w)) => {
                o.violation = v;
                what = w;
                m
            }
            None => {
                if c.labels.is_empty() {
                    o.harness_error = Some("generated text does not lex".into());
                }
                return o;
            }
        };
        let mut built = false;
        if let (Some(v), true) = (&c.value, o.violation.is_none() && (lk.print || lk.round)) {
            match self.judge_value(v, &c.text) {
                Ok(x) => {
                    built = true;
                    if x.is_some() {
                        o.texts.push(serde_json::to_string(&tape[..used]).unwrap());
                    }
                    o.violation = x;
                }
                Err(e) => o.harness_error = Some(e),
            }
        }
        let rest = matches!(&m.res, Some((_, r)) if !r.is_empty());
        o.classes.push(if m.lenient { "undecided" } else if m.res.is_some() { "accepted" } else { "rejected" }.into());
        if rest {
            o.classes.push("accepted-with-rest".into());
        }
        if m.peeked > 0 {
            o.classes.push("variant-by-peek".into());
        }
        if m.tried > 0 {
            o.classes.push("variant-by-trying".into());
        }
        if m.skipped > 0 {
            o.classes.push("variant-skipped".into());
        }
        if m.peeked > 0 && m.res.is_none() {
            o.classes.push("peeked-then-failed".into());
        }
        if built {
            o.classes.push("value-built".into());
        }
        for l in &c.labels {
            o.classes.push(format!("changed:{l}"));
        }
        if let Some(w) = what {
            o.classes.push(format!("error:{w}"));
        }
        let groups = c.text.contains(['(', '[', '{']);
        o.nontrivial = match self.prop {
            "C13" => built && groups,
            "C14" => !c.text.is_empty() && !m.lenient,
            "C15" => built && groups || m.res.is_some() && !c.text.is_empty() && !built,
            "C16" => !m.lenient && (m.peeked > 0 || m.skipped > 0),
            "C17" => !m.lenient && self.schema.any_field(&|f| f.any || matches!(f.kind, FieldKind::Punct(..))),
            "C18" => !m.lenient && groups && self.schema.any_field(&|f| matches!(f.kind, FieldKind::MacroDelim)),
            "C09" => m.res.is_none(),
            "C25" => what.is_some(),
            "C28" => !m.lenient && lex::lex(&c.text).and_then(|ts| model::calls(self.schema, ts)).is_some_and(|c| c.len() > 2),
            "C24" => !m.lenient && !self.schema.subs.is_empty(),
            _ => !c.text.is_empty(),
        };
        o
    }
}
