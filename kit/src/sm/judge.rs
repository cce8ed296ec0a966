//! Oracles of the StructMeta properties.
use super::case::{self, Case, Mix, Variants};
use super::emit;
use super::model::{self, Fault, FaultKind, Form, Stop};
use super::schema::*;
use crate::lex;
use crate::report::Outcome;
use crate::run::{Subject, guarded};
use crate::tape::Src;
use crate::types;
use crate::val::{Pos, Val};
use proc_macro2::{Group, TokenStream, TokenTree};
use syn::parse::{ParseStream, Parser};

pub type PFn = fn(ParseStream) -> syn::Result<Vec<Val>>;

pub struct SmSubject<'a> {
    pub prop: &'a str,
    pub id: usize,
    pub schema: &'a SmSchema,
    pub parsers: &'a [(&'a str, PFn)],
    /// the dumped code of the same definition
    pub twin: &'a [(&'a str, PFn)],
    pub mix: Mix,
    pub variants: Variants,
}

#[derive(Clone, Debug)]
pub struct RealErr {
    pub msgs: Vec<(String, Pos)>,
}
pub type Real = Result<Vec<Val>, RealErr>;

fn real_err(e: syn::Error) -> RealErr {
    RealErr { msgs: model::errors(e) }
}

pub fn tokens_of(text: &str, attr: bool) -> Option<(TokenStream, Option<syn::Attribute>)> {
    if attr {
        let ts = lex::none_groups(lex::lex(&format!("#[attr({text}\n)]"))?);
        let a = syn::Attribute::parse_outer.parse2(ts).ok()?.into_iter().next()?;
        let inner = match &a.meta {
            syn::Meta::List(l) => l.tokens.clone(),
            _ => return None,
        };
        Some((inner, Some(a)))
    } else {
        Some((lex::none_groups(lex::lex(text)?), None))
    }
}

/// run the derived parser
pub fn real(p: PFn, ts: &TokenStream, attr: &Option<syn::Attribute>) -> Result<Real, String> {
    guarded(|| {
        let r = match attr {
            Some(a) => a.parse_args_with(p),
            None => p.parse2(ts.clone()),
        };
        r.map_err(real_err)
    })
}

fn show_errs(e: &[(String, Pos)]) -> String {
    e.iter().map(|(m, p)| format!("{m:?} at {}:{}", p.0, p.1)).collect::<Vec<_>>().join("; ")
}
pub fn show(r: &Real) -> String {
    match r {
        Ok(v) => format!("Ok({})", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
        Err(e) => format!("Err({})", show_errs(&e.msgs)),
    }
}
pub fn show_vals(v: &[Val]) -> String {
    format!("({})", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", "))
}
/// same values and spans, or same errors
fn same(a: &Real, b: &Real) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.msgs == b.msgs,
        _ => false,
    }
}
fn strip(v: &[Val]) -> Vec<Val> {
    v.iter().map(|v| v.strip()).collect()
}

fn form_text(style: Style, name: &str) -> Vec<String> {
    let mut v = Vec::new();
    if style.flag_form() {
        v.push(format!("`{name}`"));
    }
    if style.nv_form() {
        v.push(format!("`{name} = ...`"));
    }
    if style.na_form() {
        v.push(format!("`{name}(...)`"));
    }
    v
}

/// one inserted, deleted or replaced character, or one swap of neighbours
pub fn near(a: &str, b: &str) -> bool {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    if a == b {
        return false;
    }
    if a.len() == b.len() {
        let d: Vec<usize> = (0..a.len()).filter(|&i| a[i] != b[i]).collect();
        return d.len() == 1 || (d.len() == 2 && d[1] == d[0] + 1 && a[d[0]] == b[d[1]] && a[d[1]] == b[d[0]]);
    }
    let (s, l) = if a.len() < b.len() { (&a, &b) } else { (&b, &a) };
    if s.len() + 1 != l.len() {
        return false;
    }
    (0..l.len()).any(|i| {
        let mut c = l.clone();
        c.remove(i);
        c == *s
    })
}

/// words in backquotes
fn quoted(m: &str) -> Vec<String> {
    m.split('`').skip(1).step_by(2).map(|s| s.to_string()).collect()
}

fn check_message(prop: &str, f: &Fault, e: &RealErr) -> Option<String> {
    let all: String = e.msgs.iter().map(|m| m.0.clone()).collect::<Vec<_>>().join("\n");
    let first = e.msgs.first()?;
    let says = |what: &str| all.contains(what);
    if prop == "C11" {
        let want: Vec<String> = match &f.kind {
            FaultKind::Missing(m) => {
                let forms: Vec<String> = m.iter().flat_map(|(n, st)| form_text(*st, n).into_iter().filter(|f| f.ends_with("...`") || f.ends_with("...)`"))).collect();
                if forms.iter().any(|f| says(f)) {
                    vec![]
                } else {
                    forms
                }
            }
            FaultKind::Dup(n) | FaultKind::Unknown(n) => vec![format!("`{n}`")],
            FaultKind::WrongStyle(n, st, _) => st.iter().flat_map(|s| form_text(*s, n)).collect(),
            _ => vec![],
        };
        for w in &want {
            if !says(w) {
                return Some(format!("the error for this {} must mention {w}, but says {all:?}", f.kind.label()));
            }
        }
        if let Some(p) = f.pos {
            if !matches!(f.kind, FaultKind::Separator | FaultKind::Leftover | FaultKind::Value) && first.1.start() != p.start() {
                return Some(format!(
                    "the error for this {} must be located at the culprit {}:{}, but is at {}:{} ({all:?})",
                    f.kind.label(), p.0, p.1, first.1.0, first.1.1
                ));
            }
        }
    }
    if prop == "C25" {
        match &f.kind {
            // the parser of the value is also run alone, in the same place
            FaultKind::Value => {
                if let Some(w) = &f.err {
                    let same = w.len() == e.msgs.len() && w.iter().zip(&e.msgs).all(|(a, b)| a == b);
                    if !same {
                        return Some(format!("the error for a value that does not parse must be that of its own parser, {}, but is {}", show_errs(w), show_errs(&e.msgs)));
                    }
                }
            }
            FaultKind::Separator | FaultKind::Leftover => {
                let p = f.pos?;
                let alt = f.err.iter().flatten().map(|(_, p)| p.start()).find(|a| *a == first.1.start());
                if first.1.start() != p.start() && alt.is_none() {
                    return Some(format!("the error must be located at the first token that does not belong there, {}:{}, but is {}", p.0, p.1, show_errs(&e.msgs)));
                }
            }
            _ => {}
        }
    }
    if prop == "C12" || prop == "C11" {
        if let FaultKind::Unknown(n) = &f.kind {
            let cand: Vec<&String> = f.declared.iter().filter(|d| near(d, n)).collect();
            let sugg: Vec<String> = quoted(&all).into_iter().filter(|q| q != n).collect();
            if prop == "C12" {
                if cand.len() == 1 && !sugg.contains(cand[0]) {
                    return Some(format!("unknown name `{n}` is one edit away from exactly the parameter `{}`, but the error does not suggest it: {all:?}", cand[0]));
                }
                for q in &sugg {
                    if !f.declared.contains(q) {
                        return Some(format!("the error for unknown name `{n}` suggests `{q}`, which is not a parameter of the list: {all:?}"));
                    }
                    if !near(q, n) {
                        return Some(format!("the error for unknown name `{n}` suggests `{q}`, which is more than one edit away: {all:?}"));
                    }
                }
            }
        }
    }
    None
}

/// sub lists written as `name(..)` in the top-level list: (sub index, the parentheses)
fn inner_lists(sc: &SmSchema, ts: &TokenStream) -> Vec<(usize, Group)> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut out = Vec::new();
    let comma = |t: Option<&TokenTree>| matches!(t, None | Some(TokenTree::Punct(_))) && t.is_none_or(|t| t.to_string() == ",");
    let mut index = 0;
    for i in 0..v.len() {
        if comma(Some(&v[i])) {
            index += 1;
        }
        if matches!(&v[i], TokenTree::Punct(p) if matches!(p.as_char(), '<' | '|')) {
            // a comma that follows may belong to a value
            break;
        }
        let (TokenTree::Ident(id), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) else { continue };
        // a whole argument of the form `name(..)` after the required positional ones
        if g.delimiter() != proc_macro2::Delimiter::Parenthesis || index < sc.req().len() {
            continue;
        }
        if !comma(i.checked_sub(1).map(|j| &v[j])) || !comma(v.get(i + 2)) || (sc.filter && !model::snake(&id.to_string())) {
            continue;
        }
        let target = sc.named().into_iter().find(|&i| *id == sc.fields[i].name()).or(sc.rest());
        if let Some(LeafTy::Sub(k)) = target.map(|i| sc.fields[i].leaf.clone()) {
            out.push((k, g.clone()));
        }
    }
    out
}

fn contains_sub(v: &Val, sub: &[Val]) -> bool {
    match v {
        Val::Sub(x) => x == sub || x.iter().any(|v| contains_sub(v, sub)),
        Val::Some(v) | Val::NA(_, v) | Val::NV(_, v) => contains_sub(v, sub),
        Val::List(x) => x.iter().any(|v| contains_sub(v, sub)),
        Val::Map(m) => m.values().any(|v| contains_sub(v, sub)),
        _ => false,
    }
}

pub struct Judged {
    pub real: Real,
    pub model: Result<Vec<Val>, Stop>,
    pub violation: Option<String>,
}

impl SmSubject<'_> {
    fn top(&self) -> PFn {
        self.parsers[0].1
    }

    /// one text against the model (and the per-property oracle)
    pub fn one(&self, text: &str, attr: bool, single: bool) -> Option<Judged> {
        let (ts, a) = tokens_of(text, attr)?;
        crate::shard::note(self.id, text, attr);
        let model = model::eval_in(self.schema, ts.clone(), &a);
        let real = match real(self.top(), &ts, &a) {
            Ok(r) => r,
            Err(m) => {
                return Some(Judged {
                    real: Err(RealErr { msgs: vec![(m.clone(), Pos::ZERO)] }),
                    model,
                    violation: Some(format!("the derived parser panicked: {m}")),
                });
            }
        };
        let mut violation = if self.prop == "C28" { self.calls(&ts, &a) } else { self.compare(&real, &model, single) };
        if violation.is_none() && self.prop == "C09" {
            // same answer every time
            let again = self::real(self.top(), &ts, &a);
            match again {
                Ok(r) if show(&r) == show(&real) => {}
                other => violation = Some(format!("a second parse of the same tokens answered {other:?} instead of {}", show(&real))),
            }
        }
        if violation.is_none() && self.prop == "C24" {
            violation = self.check_inner(&ts, &real);
        }
        if let (None, Some((_, p))) = (&violation, self.twin.first()) {
            violation = match self::real(*p, &ts, &a) {
                Ok(r) if same(&r, &real) => None,
                Ok(r) => Some(format!("the dumped code answers {}, the derive {}", show(&r), show(&real))),
                Err(m) => Some(format!("the dumped code panics ({m}), the derive answers {}", show(&real))),
            };
        }
        Some(Judged { real, model, violation })
    }

    /// the parser of every value is called once, in the order of the text
    fn calls(&self, ts: &TokenStream, a: &Option<syn::Attribute>) -> Option<String> {
        let (r, calls) = types::calls(|| real(self.top(), ts, a));
        let at: Vec<_> = calls.iter().flatten().collect();
        if at.windows(2).any(|w| w[0] >= w[1]) {
            return Some(format!("the parsers of the values must be called once per place, in the order of the text, but are called at {}", types::show_calls(&calls)));
        }
        if let Ok(Ok(v)) = &r {
            let n: usize = v.iter().map(|v| v.count_leaves()).sum();
            if n != calls.len() {
                return Some(format!("the {n} values {} were read by {} calls of their parsers, at {}", show_vals(v), calls.len(), types::show_calls(&calls)));
            }
        }
        None
    }

    fn compare(&self, real: &Real, model: &Result<Vec<Val>, Stop>, single: bool) -> Option<String> {
        match (real, model) {
            (_, Err(Stop::Unspec(_))) => None,
            (Ok(r), Ok(m)) => {
                if strip(r) != strip(m) {
                    return Some(format!("parsed as {}, expected {}", show_vals(&strip(r)), show_vals(&strip(m))));
                }
                if self.prop == "C10" && r != m {
                    return Some(format!("recorded name spans differ: got {}, the names are written at {}", show_vals(r), show_vals(m)));
                }
                None
            }
            (Ok(r), Err(Stop::Fault(f))) => Some(format!("accepted as {}, but the list is faulty ({})", show_vals(&strip(r)), describe(f))),
            (Err(_), Ok(m)) => Some(format!("rejected with {}, expected {}", show(real), show_vals(&strip(m)))),
            (Err(e), Err(Stop::Fault(f))) => {
                if single {
                    check_message(self.prop, f, e)
                } else {
                    None
                }
            }
        }
    }

    fn check_inner(&self, ts: &TokenStream, outer: &Real) -> Option<String> {
        for (k, inner) in inner_lists(self.schema, ts) {
            let name = &self.schema.subs[k].ident;
            let Some((_, p)) = self.parsers.iter().find(|(n, _)| n == name) else { continue };
            let r = match real(*p, &inner.stream(), &None) {
                Ok(r) => r,
                Err(m) => return Some(format!("the derived parser of {name} panicked: {m}")),
            };
            match (&r, outer) {
                (Ok(v), Ok(o)) => {
                    if !o.iter().any(|x| contains_sub(x, v)) {
                        return Some(format!("inner list parses on its own as {} but the outer value is {}", show_vals(v), show_vals(o)));
                    }
                }
                (Err(_), Ok(o)) => {
                    return Some(format!("inner list is rejected on its own ({}) but the outer list is accepted: {}", show(&r), show_vals(o)));
                }
                _ => {}
            }
        }
        None
    }

    /// outer list well-formed apart from exactly one inner list: same error as on its own
    fn check_inner_error(&self, text: &str, attr: bool) -> Option<String> {
        let (ts, a) = tokens_of(text, attr)?;
        let outer = real(self.top(), &ts, &a).ok()?;
        let lists = inner_lists(self.schema, &ts);
        let bad: Vec<(usize, Real)> = lists
            .iter()
            .filter_map(|(k, i)| {
                let name = &self.schema.subs[*k].ident;
                let p = self.parsers.iter().find(|(n, _)| n == name)?.1;
                // the same parentheses without an outer list
                let alone = guarded(|| {
                    (|input: ParseStream| {
                        let content;
                        syn::parenthesized!(content in input);
                        p(&content)
                    })
                    .parse2(TokenTree::from(i.clone()).into())
                    .map_err(real_err)
                });
                let r = alone.ok()?;
                r.is_err().then_some((*k, r))
            })
            .collect();
        if bad.len() != 1 {
            return None;
        }
        let (Err(o), Err(i)) = (&outer, &bad[0].1) else { return None };
        let om: Vec<&String> = o.msgs.iter().map(|m| &m.0).collect();
        let im: Vec<&String> = i.msgs.iter().map(|m| &m.0).collect();
        if om != im {
            return Some(format!("the inner list is rejected with {:?} on its own but with {:?} inside the outer list", im, om));
        }
        for (x, y) in o.msgs.iter().zip(&i.msgs) {
            if x.1 != y.1 {
                return Some(format!("the inner error {:?} moved from {}:{} to {}:{} inside the outer list", x.0, y.1.0, y.1.1, x.1.0, x.1.1));
            }
        }
        None
    }
}

fn describe(f: &Fault) -> String {
    let what = match &f.kind {
        FaultKind::Missing(m) => format!("missing argument {}", m.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")),
        FaultKind::Dup(n) => format!("`{n}` repeated"),
        FaultKind::Unknown(n) => format!("`{n}` is not a parameter"),
        FaultKind::WrongStyle(n, st, form) => {
            let w = match form {
                Form::Bare => format!("`{n}`"),
                Form::Eq => format!("`{n} = ...`"),
                Form::Paren => format!("`{n}(...)`"),
                Form::Other => n.clone(),
            };
            format!("{w} is not a form of a parameter of style {st:?}")
        }
        k => k.label().to_string(),
    };
    match f.pos {
        Some(p) => format!("{what} at {}:{}", p.0, p.1),
        None => what,
    }
}

impl Subject for SmSubject<'_> {
    fn ident(&self) -> String {
        self.schema.ident.clone()
    }
    fn type_id(&self) -> usize {
        self.id
    }
    fn family(&self) -> &'static str {
        "sm"
    }
    fn definition(&self) -> String {
        emit::source(self.schema)
    }
    fn judge(&self, texts: &[String], attr: bool, single: bool) -> Option<String> {
        let rs: Vec<Judged> = texts.iter().map(|t| self.one(t, attr, single)).collect::<Option<_>>()?;
        if let Some(v) = rs.iter().find_map(|j| j.violation.clone()) {
            return Some(v);
        }
        if let Some(v) = related(texts, &rs) {
            return Some(v);
        }
        if self.prop == "C24" && single {
            return self.check_inner_error(&texts[0], attr);
        }
        None
    }
    fn case(&self, tape: &[u32]) -> Outcome {
        let mut s = Src::new(tape);
        let c: Case = case::gen_case(self.schema, &mut s, &self.mix, self.variants);
        let mut o = Outcome { texts: c.texts.clone(), attr: c.attr, ..Default::default() };
        let mut single = false;
        if if self.prop == "C25" { c.single_part } else { c.single } {
            if let Some((ts, _)) = c.base.as_deref().and_then(|b| tokens_of(b, false)) {
                single = model::eval(self.schema, ts).is_ok();
            }
        }
        o.single = single;
        let mut judged = Vec::new();
        for t in &c.texts {
            o.evaluations += 1;
            match self.one(t, c.attr, single) {
                Some(j) => judged.push(j),
                None => {
                    o.harness_error = Some(format!("generated text does not lex: {t}"));
                    return o;
                }
            }
        }
        let m0 = &judged[0].model;
        if let Some(e) = &c.expect {
            match m0 {
                Ok(m) if strip(m) == *e => {}
                Ok(m) => o.harness_error = Some(format!("model disagrees with construction: {} vs {}", show_vals(&strip(m)), show_vals(e))),
                Err(x) => o.harness_error = Some(format!("model rejects a list that is well-formed by construction: {x:?}")),
            }
        }
        o.violation = judged.iter().find_map(|j| j.violation.clone());
        if o.violation.is_none() && judged.len() > 1 {
            o.violation = related(&c.texts, &judged);
        }
        if o.violation.is_none() && self.prop == "C24" && c.planted.len() <= 1 {
            // the fault (if any) must be inside: the outer skeleton is well-formed
            if let Err(Stop::Fault(f)) = m0 {
                if f.depth == 1 && self.only_inner_fault(&c.texts[0], c.attr) {
                    o.violation = self.check_inner_error(&c.texts[0], c.attr);
                    o.single = true;
                    o.classes.push("inner-error".into());
                }
            }
        }
        // classification
        let label = match m0 {
            Ok(_) => "valid".to_string(),
            Err(Stop::Unspec(_)) => "unspecified".to_string(),
            Err(Stop::Fault(f)) => {
                let d = if f.depth > 0 { " (nested)" } else { "" };
                format!("{}{d}", f.kind.label())
            }
        };
        o.nontrivial = self.nontrivial(&c, m0, single);
        o.classes.push(label);
        for p in &c.planted {
            o.classes.push(format!("planted:{p}"));
        }
        for f in &c.features {
            o.classes.push(f.to_string());
        }
        if single {
            o.classes.push("single-fault".into());
        }
        if c.attr {
            o.classes.push("attribute".into());
        }
        if c.expect.is_some() {
            o.classes.push("known-by-construction".into());
        }
        o
    }
}

fn related(texts: &[String], rs: &[Judged]) -> Option<String> {
    let norm = |r: &Real| r.as_ref().map(|v| strip(v)).map_err(|_| ()).ok();
    let first = norm(&rs[0].real);
    if matches!(rs[0].model, Err(Stop::Unspec(_))) {
        return None;
    }
    for (t, r) in texts.iter().zip(rs).skip(1) {
        if norm(&r.real) != first {
            return Some(format!("equivalent lists are read differently: `{}` gives {}, `{t}` gives {}", texts[0], show(&rs[0].real), show(&r.real)));
        }
    }
    None
}

impl SmSubject<'_> {
    /// the list with every bad inner list emptied of faults is fine at the outer level:
    /// checked with the model by looking at the outer level only
    fn only_inner_fault(&self, text: &str, attr: bool) -> bool {
        let Some((ts, _)) = tokens_of(text, attr) else { return false };
        // model of the outer level where nested lists are opaque token streams
        let mut sc = self.schema.clone();
        for f in sc.fields.iter_mut() {
            if matches!(f.leaf, LeafTy::Sub(_)) {
                f.leaf = LeafTy::L(crate::leaf::Leaf::TokenStream);
            }
        }
        model::eval(&sc, ts).is_ok()
    }

    fn nontrivial(&self, c: &Case, m: &Result<Vec<Val>, Stop>, single: bool) -> bool {
        let args = c.texts[0].matches(',').count() + 1;
        let fault = matches!(m, Err(Stop::Fault(_)));
        let valid = m.is_ok();
        match self.prop {
            "C01" => valid && args >= 2 && !self.schema.named().is_empty(),
            "C02" => fault,
            "C03" => {
                let pos = self.schema.fields.iter().any(|f| matches!(f.role, Role::Req | Role::Opt | Role::Var));
                pos && (valid || fault) && !c.texts[0].is_empty()
            }
            "C05" => self.schema.rest().is_some() && !c.texts[0].is_empty(),
            "C06" => !c.texts[0].is_empty() && !self.schema.named().is_empty(),
            "C07" => c.texts.len() > 1 || !c.planted.is_empty(),
            "C09" => !matches!(m, Ok(_)),
            "C10" => matches!(m, Ok(v) if v.iter().map(|v| v.count_spans()).sum::<usize>() > 0),
            "C11" => fault && single,
            "C25" => single && matches!(m, Err(Stop::Fault(f)) if matches!(f.kind, FaultKind::Value | FaultKind::Separator | FaultKind::Leftover)),
            "C12" => matches!(m, Err(Stop::Fault(Fault { kind: FaultKind::Unknown(n), declared, .. })) if declared.iter().any(|d| near(d, n))),
            "C28" => (valid || fault) && args >= 2 && self.schema.fields.iter().any(|f| !f.style.is_flag()),
            "C24" => !self.schema.subs.is_empty() && c.texts[0].contains('('),
            _ => !c.texts[0].trim().is_empty() && !matches!(m, Err(Stop::Unspec(_))),
        }
    }
}
