//! Operations of `Flag`, `NameValue` and `NameArgs` as values, against a model (C23).
//! A case is a small program; its text is what is replayed and reduced.
use kit::report::Outcome;
use kit::run::{Subject, guarded};
use kit::tape::Src;
use kit::val::Pos;
use proc_macro2::Span;
use std::fmt::Debug;
use structmeta::{Flag, NameArgs, NameValue};

pub struct Algebra {
    pub id: usize,
    pub flags: bool,
}
pub fn flags(id: usize) -> Box<dyn Subject> {
    Box::new(Algebra { id, flags: true })
}
pub fn pairs(id: usize) -> Box<dyn Subject> {
    Box::new(Algebra { id, flags: false })
}

const REGS: usize = 4;

fn spans() -> Vec<Span> {
    let ts: proc_macro2::TokenStream = "a b\nc d e\n  f".parse().unwrap();
    ts.into_iter().map(|t| t.span()).collect()
}

/// Some(None): the program text is not one of ours
fn run_flags(text: &str) -> Result<Vec<&'static str>, Option<String>> {
    let sp = spans();
    let mut regs: Vec<Flag> = vec![Flag::NONE; REGS];
    // set or not, and where the span must be
    let mut model: Vec<Option<Pos>> = vec![None; REGS];
    let mut seen = Vec::new();
    let fail = |m: String| Err(Some(m));
    for stmt in text.split(';').map(str::trim).filter(|s| !s.is_empty()) {
        let w: Vec<&str> = stmt.split_whitespace().collect();
        let reg = |s: &str| s.strip_prefix('r').and_then(|n| n.parse::<usize>().ok()).filter(|n| *n < REGS).ok_or(None);
        let d = reg(w.first().ok_or(None)?)?;
        match w[1..] {
            ["=", "none"] => (regs[d], model[d]) = (Flag::NONE, None),
            ["=", "default"] => (regs[d], model[d]) = (Flag::default(), None),
            ["=", b @ ("true" | "false")] => {
                let b = b == "true";
                let f = if stmt.len() % 2 == 0 { Flag::from(b) } else { b.into() };
                if f.value() != b {
                    return fail(format!("`{stmt}`: Flag::from({b}).value() is {}", f.value()));
                }
                model[d] = f.span.map(Pos::of);
                regs[d] = f;
                seen.push("from-bool");
            }
            ["=", at] if at.starts_with("at") => {
                let s = *at[2..].parse::<usize>().ok().and_then(|n| sp.get(n)).ok_or(None)?;
                regs[d] = Flag { span: Some(s) };
                model[d] = Some(Pos::of(s));
            }
            ["=", "clone", a] => {
                let a = reg(a)?;
                (regs[d], model[d]) = (regs[a].clone(), model[a]);
                seen.push("clone");
            }
            ["=", a, "|", b] => {
                let (a, b) = (reg(a)?, reg(b)?);
                let (ma, mb) = (model[a], model[b]);
                regs[d] = regs[a].clone() | regs[b].clone();
                model[d] = ma.or(mb);
                seen.push(match (ma, mb) {
                    (Some(_), Some(_)) => "or-both-set",
                    (None, None) => "or-none-set",
                    (Some(_), None) => "or-left-set",
                    (None, Some(_)) => "or-right-set",
                });
            }
            ["|=", a] => {
                let a = reg(a)?;
                let by_or = regs[d].clone() | regs[a].clone();
                let rhs = regs[a].clone();
                let (md, ma) = (model[d], model[a]);
                regs[d] |= rhs;
                model[d] = md.or(ma);
                seen.push(match (md, ma) {
                    (Some(_), Some(_)) => "assign-both-set",
                    (None, None) => "assign-none-set",
                    (Some(_), None) => "assign-left-set",
                    (None, Some(_)) => "assign-right-set",
                });
                if by_or.span.map(Pos::of) != regs[d].span.map(Pos::of) || by_or.value() != regs[d].value() {
                    return fail(format!("`{stmt}`: `|` gives {by_or:?}, `|=` gives {:?}", regs[d]));
                }
            }
            _ => return Err(None),
        }
        for i in 0..REGS {
            let f = &regs[i];
            if f.value() != model[i].is_some() {
                return fail(format!("after `{stmt}`: r{i}.value() is {}, expected {}", f.value(), model[i].is_some()));
            }
            if f.span.map(Pos::of) != model[i] {
                return fail(format!("after `{stmt}`: r{i} has span {:?}, expected {:?}", f.span.map(Pos::of), model[i]));
            }
            for j in 0..REGS {
                let want = model[i].is_some() == model[j].is_some();
                if (*f == regs[j]) != want || (*f != regs[j]) == want {
                    return fail(format!("after `{stmt}`: r{i} == r{j} is {}, r{i} != r{j} is {}, expected {want} and {}", *f == regs[j], *f != regs[j], !want));
                }
            }
            if *f != Flag::from(f.value()) || (*f == Flag::NONE) == f.value() || (*f == Flag::default()) == f.value() {
                return fail(format!("after `{stmt}`: {f:?} compares wrongly with Flag::from(..), NONE or default()"));
            }
        }
    }
    Ok(seen)
}

fn pair<T: PartialEq + Clone + Debug>(a: T, b: T, sa: Span, sb: Span) -> Result<bool, String> {
    let want = a == b;
    macro_rules! check {
        ($t:ident, $f:ident) => {{
            let x = $t { name_span: sa, $f: a.clone() };
            let y = $t { name_span: sb, $f: b.clone() };
            if (x == y) != want || (y == x) != (b == a) || (x != y) == want {
                return Err(format!("{x:?} == {y:?} is {}, their values compare {want}", x == y));
            }
            let z = x.clone();
            if Pos::of(z.name_span) != Pos::of(sa) || (z.$f == x.$f) != (a == a) || (z == x) != (a == a) {
                return Err(format!("a clone of {x:?} is {z:?}"));
            }
        }};
    }
    check!(NameValue, value);
    check!(NameArgs, args);
    Ok(want)
}

fn run_pair(text: &str) -> Result<Vec<&'static str>, Option<String>> {
    let w: Vec<&str> = text.split_whitespace().collect();
    let [kind, a, b, sa, sb] = w[..] else { return Err(None) };
    let sp = spans();
    let n = |s: &str| s.parse::<u8>().map_err(|_| None::<String>);
    let (a, b) = (n(a)?, n(b)?);
    let s = |x: &str| x.parse::<usize>().ok().and_then(|n| sp.get(n).copied()).ok_or(None::<String>);
    let (sa, sb) = (s(sa)?, s(sb)?);
    let flag = |n: u8| Flag { span: (n % 3 > 0).then(|| sp[n as usize % sp.len()]) };
    let nv = |n: u8| NameValue { name_span: sp[n as usize % sp.len()], value: n / 3 };
    let float = |n: u8| [f64::NAN, 0.0, -0.0, 1.5, f64::INFINITY][n as usize % 5];
    let expr = |n: u8| syn::parse_str::<syn::Expr>(["a + 1", "a+1", "b", "f(1)"][n as usize % 4]).unwrap();
    let ident = |n: u8| syn::Ident::new(["a", "b", "r"][n as usize % 3], sp[n as usize % sp.len()]);
    let eq = match kind {
        "int" => pair(a as i64, b as i64, sa, sb),
        "unit" => pair((), (), sa, sb),
        "bool" => pair(a % 2 == 0, b % 2 == 0, sa, sb),
        "string" => pair(a.to_string(), b.to_string(), sa, sb),
        "option" => pair((a % 3 > 0).then_some(a), (b % 3 > 0).then_some(b), sa, sb),
        "list" => pair((0..a % 4).collect::<Vec<u8>>(), (0..b % 4).collect::<Vec<u8>>(), sa, sb),
        "float" => pair(float(a), float(b), sa, sb),
        "flag" => pair(flag(a), flag(b), sa, sb),
        "nested" => pair(nv(a), nv(b), sa, sb),
        "expr" => pair(expr(a), expr(b), sa, sb),
        "ident" => pair(ident(a), ident(b), sa, sb),
        _ => return Err(None),
    }
    .map_err(Some)?;
    // both are Copy when the value is
    let x = NameValue { name_span: sa, value: a };
    let (y, z) = (x, x);
    let p = NameArgs { name_span: sa, args: a };
    let (q, r) = (p, p);
    if y != z || y.value != a || q != r || q.args != a || Pos::of(y.name_span) != Pos::of(sa) || Pos::of(r.name_span) != Pos::of(sa) {
        return Err(Some(format!("a copy of {x:?} / {p:?} differs: {y:?} {z:?} {q:?} {r:?}")));
    }
    let mut seen = vec![if eq { "equal" } else { "different" }];
    if Pos::of(sa) != Pos::of(sb) {
        seen.push("other-span");
    }
    Ok(seen)
}

const KINDS: &[&str] = &["int", "unit", "bool", "string", "option", "list", "float", "flag", "nested", "expr", "ident"];

impl Algebra {
    fn text(&self, s: &mut Src) -> String {
        if !self.flags {
            let a = s.below(12);
            let b = if s.pct(35) { a } else { s.below(12) };
            return format!("{} {a} {b} {} {}", s.pick(KINDS), s.below(6), s.below(6));
        }
        let mut v = Vec::new();
        for _ in 0..s.range(1, 14) {
            let (d, a, b) = (s.below(REGS), s.below(REGS), s.below(REGS));
            v.push(match s.weighted(&[3, 3, 6, 18, 8, 30, 30]) {
                0 => format!("r{d} = none"),
                1 => format!("r{d} = default"),
                2 => format!("r{d} = {}", s.pct(60)),
                3 => format!("r{d} = at{}", s.below(6)),
                4 => format!("r{d} = clone r{a}"),
                5 => format!("r{d} = r{a} | r{b}"),
                _ => format!("r{d} |= r{a}"),
            });
        }
        v.join(" ; ")
    }
    fn run(&self, text: &str) -> Result<Vec<&'static str>, Option<String>> {
        let f = if self.flags { run_flags } else { run_pair };
        match guarded(|| f(text)) {
            Ok(r) => r,
            Err(p) => Err(Some(format!("an operation panicked: {p}"))),
        }
    }
}

impl Subject for Algebra {
    fn ident(&self) -> String {
        if self.flags { "Flag" } else { "NameValue, NameArgs" }.into()
    }
    fn type_id(&self) -> usize {
        self.id
    }
    fn family(&self) -> &'static str {
        "algebra"
    }
    fn definition(&self) -> String {
        if self.flags {
            "four registers of structmeta::Flag and a program over them".into()
        } else {
            "two structmeta::NameValue<T> and two structmeta::NameArgs<T> with the given values and spans".into()
        }
    }
    fn case(&self, tape: &[u32]) -> Outcome {
        let text = self.text(&mut Src::new(tape));
        kit::shard::note(self.id, &text, false);
        let mut o = Outcome { texts: vec![text.clone()], evaluations: 1, ..Default::default() };
        match self.run(&text) {
            Ok(seen) => {
                o.nontrivial = if self.flags { seen.iter().any(|s| s.ends_with("-set")) } else { seen.len() > 1 };
                o.classes = seen.into_iter().map(String::from).collect();
            }
            Err(Some(m)) => o.violation = Some(m),
            Err(None) => o.harness_error = Some("generated program is not understood".into()),
        }
        o
    }
    fn judge(&self, texts: &[String], _attr: bool, _single: bool) -> Option<String> {
        self.run(texts.first()?).err().flatten()
    }
}
