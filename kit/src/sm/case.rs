//! Argument lists: well-formed ones by construction, then faults planted on purpose.
use super::model::{Form, snake};
use super::schema::*;
use crate::leaf::{self, Leaf};
use crate::lex::{self, Layout};
use crate::names;
use crate::tape::Src;
use crate::val::{Pos, Val};
use syn::parse::Parser;

#[derive(Clone, Debug)]
pub struct Mix {
    /// weights of planting 0, 1, 2 faults
    pub faults: [u32; 3],
    /// percentage of random token soup
    pub garbage: u32,
    pub layout: [u32; 3],
    /// percentage parsed through `#[attr(..)]`
    pub attr: u32,
    pub none_group: u32,
    pub trailing: u32,
    /// percentage of optional named arguments that are present
    pub present: u32,
    /// percentage of positional values that look like names
    pub namelike: u32,
    /// fault weights, order of FAULTS
    pub kinds: [u32; 16],
    /// percentage of list arguments emptied
    pub empty: u32,
    pub rest_max: usize,
    /// percentage (of a quarter) of lists made very long
    pub long: u32,
}
pub const FAULTS: [&str; 16] = [
    "drop", "duplicate", "unknown", "near-miss", "restyle", "positional", "comma", "bad-value", "leftover", "no-value", "operator",
    "delimiter", "token-noise", "respell", "duplicate-restyled", "rest-clash",
];
pub const BASE: Mix = Mix {
    faults: [50, 40, 10],
    garbage: 2,
    layout: [50, 25, 25],
    attr: 30,
    none_group: 5,
    trailing: 25,
    present: 60,
    namelike: 25,
    kinds: [10, 10, 10, 6, 10, 10, 8, 6, 6, 5, 6, 4, 6, 3, 5, 4],
    empty: 15,
    rest_max: 3,
    long: 1,
};

#[derive(Clone, Debug)]
pub struct Arg {
    pub field: Option<usize>,
    pub name: String,
    pub form: Form,
    /// value text; for Form::Other the whole argument
    pub body: String,
}
impl Arg {
    pub fn text(&self) -> String {
        match self.form {
            Form::Bare => self.name.clone(),
            Form::Eq => format!("{} = {}", self.name, self.body),
            Form::Paren => format!("{}({})", self.name, self.body),
            Form::Other => self.body.clone(),
        }
    }
    pub fn positional(&self) -> bool {
        self.name.is_empty()
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    /// equivalent texts (the first one is the case itself)
    pub texts: Vec<String>,
    pub attr: bool,
    /// value known by construction (positions stripped)
    pub expect: Option<Vec<Val>>,
    pub planted: Vec<&'static str>,
    pub features: Vec<&'static str>,
    /// exactly one fault by construction (the unfaulted list is well-formed)
    pub single: bool,
    /// one fault in a value or between the arguments
    pub single_part: bool,
    /// the list before a single fault was planted
    pub base: Option<String>,
}

pub fn leaf_value(l: Leaf, text: &str) -> Option<Val> {
    (|i: syn::parse::ParseStream| l.parse(i)).parse_str(text).ok()
}

fn value_text(sc: &SmSchema, i: usize, s: &mut Src, mix: &Mix) -> (String, Option<Val>) {
    match sc.leaf_of(&sc.fields[i]) {
        LeafRef::L(l) => {
            let t = l.text(s);
            let v = leaf_value(l, &t);
            let t = if mix.none_group > 0 && !t.is_empty() && l != Leaf::TokenStream && s.pct(mix.none_group) { format!("{}!({t})", lex::NONE_MARK) } else { t };
            (t, v)
        }
        LeafRef::Sub(sub) => {
            let (args, e) = gen_args(sub, s, &Mix { long: 0, ..mix.clone() });
            let t = join(&args, s.pct(mix.trailing));
            (t, e.map(Val::Sub))
        }
    }
}

fn join(args: &[Arg], trailing: bool) -> String {
    let mut t = args.iter().map(|a| a.text()).collect::<Vec<_>>().join(", ");
    if trailing && !args.is_empty() {
        t.push(',');
    }
    t
}

/// value of a named (or rest) parameter with its form
fn named_arg(sc: &SmSchema, i: usize, s: &mut Src, mix: &Mix) -> (Form, String, Option<Val>) {
    let f = &sc.fields[i];
    let z = Pos::ZERO;
    let some = |v: Val| Val::Some(Box::new(v));
    let nv = |v: Val| Val::NV(z, Box::new(v));
    let na = |v: Val| Val::NA(z, Box::new(v));
    let forms: Vec<Form> = [(Form::Bare, f.style.flag_form()), (Form::Eq, f.style.nv_form()), (Form::Paren, f.style.na_form())]
        .into_iter()
        .filter(|x| x.1)
        .map(|x| x.0)
        .collect();
    let form = if forms.len() > 1 && s.pct(65) { *forms.last().unwrap() } else { forms[s.below(forms.len())] };
    match form {
        Form::Bare => {
            let v = match f.style {
                Style::Bool => Val::Bool(true),
                Style::Flag => Val::Flag(Some(z)),
                Style::NVO => nv(Val::None),
                _ => na(Val::None),
            };
            (form, String::new(), Some(v))
        }
        Form::Eq => {
            let (t, v) = value_text(sc, i, s, mix);
            let v = v.map(|v| match f.style {
                Style::V => v,
                Style::NV => nv(v),
                _ => nv(some(v)),
            });
            (form, t, v)
        }
        _ => {
            let (t, v) = if f.style.is_list() {
                let n = if s.pct(mix.empty) { 0 } else { s.range(0, 4) };
                let mut t = String::new();
                let mut vs = Some(Vec::new());
                for k in 0..n {
                    if k > 0 {
                        t.push_str(", ");
                    }
                    let (x, v) = value_text(sc, i, s, mix);
                    t.push_str(&x);
                    match (v, &mut vs) {
                        (Some(v), Some(vs)) => vs.push(v),
                        _ => vs = None,
                    }
                }
                if let (true, Some(more)) = (n > 0 && t.len() < 200, long(s, mix)) {
                    let times = more.div_ceil(n);
                    t = vec![t; times + 1].join(", ");
                    if let Some(vs) = &mut vs {
                        *vs = (0..=times).flat_map(|_| vs.clone()).collect();
                    }
                }
                if n > 0 && s.pct(mix.trailing) {
                    t.push(',');
                }
                (t, vs.map(Val::List))
            } else {
                value_text(sc, i, s, mix)
            };
            let v = v.map(|v| match f.style {
                Style::L => v,
                Style::NA | Style::NAL => na(v),
                _ => na(some(v)),
            });
            (form, t, v)
        }
    }
}

/// rarely: how many further items
fn long(s: &mut Src, mix: &Mix) -> Option<usize> {
    (s.pct(mix.long) && s.pct(25)).then(|| *s.pick(&[12, 60, 260, 300, 700]))
}
fn req_and_opt(sc: &SmSchema) -> usize {
    sc.req().len() + sc.opts().len()
}

fn safe_positional(t: &str) -> bool {
    !t.starts_with(|c: char| c.is_alphabetic() || c == '_')
}

fn positional_text(sc: &SmSchema, i: usize, s: &mut Src, mix: &Mix) -> (String, Option<Val>) {
    let mut r = value_text(sc, i, s, mix);
    if let LeafRef::L(l) = sc.leaf_of(&sc.fields[i]) {
        for _ in 0..3 {
            if safe_positional(&r.0) || s.pct(mix.namelike) {
                break;
            }
            let t = l.text(s);
            let v = leaf_value(l, &t);
            r = (t, v);
        }
    }
    r
}

/// a well-formed list with the value it must produce (None: not known by construction)
pub fn gen_args(sc: &SmSchema, s: &mut Src, mix: &Mix) -> (Vec<Arg>, Option<Vec<Val>>) {
    let mut args = Vec::new();
    let mut vals: Vec<Option<Val>> = vec![None; sc.fields.len()];
    let mut known = true;
    let mut positional = |i: usize, s: &mut Src, args: &mut Vec<Arg>, req: bool| {
        let (t, v) = positional_text(sc, i, s, mix);
        if v.is_none() || (!req && !safe_positional(&t)) {
            known = false;
        }
        args.push(Arg { field: Some(i), name: String::new(), form: Form::Other, body: t });
        v
    };
    for i in sc.req() {
        vals[i] = positional(i, s, &mut args, true);
    }
    let opts = sc.opts();
    let k = if s.pct(40) { opts.len() } else { s.below(opts.len() + 1) };
    for &i in &opts[..k] {
        vals[i] = positional(i, s, &mut args, false).map(|v| Val::Some(Box::new(v)));
    }
    if let (true, Some(i)) = (k == opts.len(), sc.var()) {
        let n = s.range(0, 4);
        let mut vs = Vec::new();
        for _ in 0..n {
            vs.push(positional(i, s, &mut args, false).unwrap_or(Val::None));
        }
        let p = req_and_opt(sc);
        if let (true, Some(more)) = (n > 0, long(s, mix)) {
            for k in 0..more {
                args.push(args[p + k % n].clone());
                vs.push(vs[k % n].clone());
            }
        }
        vals[i] = Some(Val::List(vs));
    }
    let mut named = Vec::new();
    for i in sc.named() {
        let f = &sc.fields[i];
        let required = !f.opt && !f.style.is_flag();
        if required || s.pct(mix.present) {
            let (form, body, v) = named_arg(sc, i, s, mix);
            let name = f.name();
            if (sc.filter && !snake(&name)) || v.is_none() {
                known = false;
            }
            vals[i] = v.map(|v| if f.opt { Val::Some(Box::new(v)) } else { v });
            named.push(Arg { field: Some(i), name, form, body });
        }
    }
    if let Some(i) = sc.rest() {
        let mut taken: Vec<String> = sc.named().iter().map(|&i| sc.fields[i].name()).collect();
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..s.range(0, mix.rest_max) {
            let mut name = names::fresh(s, &names::MIX, &taken);
            if s.pct(12) {
                // another name, even if it is a declared one without the `r#`
                let plain = if taken.is_empty() || s.pct(60) { name.clone() } else { s.pick(&taken).clone() };
                let raw = format!("r#{plain}");
                if names::is_ident(&raw) && !taken.contains(&raw) {
                    name = raw;
                }
            }
            let (form, body, v) = named_arg(sc, i, s, mix);
            if (sc.filter && !snake(&name)) || v.is_none() {
                known = false;
            }
            m.insert(name.clone(), v.unwrap_or(Val::None));
            taken.push(name.clone());
            named.push(Arg { field: Some(i), name, form, body });
        }
        if let (Some(last), Some(more)) = (named.last().filter(|a| a.field == Some(i) && a.body.len() < 60).cloned(), long(s, mix)) {
            let v = m[&last.name].clone();
            for k in 0..more {
                let name = format!("key{k}");
                if !taken.contains(&name) {
                    m.insert(name.clone(), v.clone());
                    named.push(Arg { name, ..last.clone() });
                }
            }
        }
        vals[i] = Some(Val::Map(m));
    }
    s.shuffle(&mut named);
    args.extend(named);
    let expect = known.then(|| {
        sc.fields
            .iter()
            .zip(vals)
            .map(|(f, v)| {
                v.unwrap_or_else(|| match (f.role, f.style, f.opt) {
                    (Role::Var, ..) => Val::List(vec![]),
                    (Role::Opt, ..) | (_, _, true) => Val::None,
                    (_, Style::Bool, _) => Val::Bool(false),
                    (_, Style::Flag, _) => Val::Flag(None),
                    _ => Val::None,
                })
            })
            .collect()
    });
    (args, expect)
}

pub fn any_value(s: &mut Src) -> String {
    match s.below(12) {
        0 => "1".into(),
        1 => "\"s\"".into(),
        2 => "a".into(),
        3 => "-1".into(),
        4 => "a + b".into(),
        5 => "'x'".into(),
        6 => "()".into(),
        7 => "[1]".into(),
        8 => "f(x)".into(),
        9 => "@ 1".into(),
        10 => "'a".into(),
        _ => leaf::SIMPLE[s.below(leaf::SIMPLE.len())].text(s),
    }
}

fn some_name(sc: &SmSchema, s: &mut Src) -> String {
    let taken: Vec<String> = sc.named().iter().map(|&i| sc.fields[i].name()).collect();
    names::fresh(s, &names::MIX, &taken)
}
fn any_form(s: &mut Src) -> Form {
    *s.pick(&[Form::Bare, Form::Eq, Form::Paren])
}

/// insert a named argument somewhere after the positional ones
fn insert_named(args: &mut Vec<Arg>, a: Arg, s: &mut Src) {
    let p = args.iter().take_while(|a| a.positional()).count();
    let at = p + s.below(args.len() - p + 1);
    args.insert(at, a);
}

struct Built {
    args: Vec<Arg>,
    seps: Vec<String>,
    tail: String,
    head: String,
}
impl Built {
    fn text(&self) -> String {
        let mut t = self.head.clone();
        for (i, a) in self.args.iter().enumerate() {
            if i > 0 {
                t.push_str(self.seps.get(i - 1).map_or(", ", |s| s.as_str()));
            }
            t.push_str(&a.text());
        }
        t.push_str(&self.tail);
        t
    }
}

/// plants one fault; returns its kind, or None if it does not apply
fn plant(sc: &SmSchema, b: &mut Built, s: &mut Src, mix: &Mix) -> Option<&'static str> {
    let kind = s.weighted(&mix.kinds);
    let named: Vec<usize> = (0..b.args.len()).filter(|&i| !b.args[i].positional()).collect();
    match FAULTS[kind] {
        "drop" => {
            if b.args.is_empty() {
                return None;
            }
            let i = if !named.is_empty() && s.pct(60) { *s.pick(&named) } else { s.below(b.args.len()) };
            b.args.remove(i);
        }
        "duplicate" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let mut a = b.args[i].clone();
            if let (Some(f), true) = (a.field, s.pct(60)) {
                let (form, body, _) = named_arg(sc, f, s, mix);
                a.form = form;
                a.body = body;
            }
            insert_named(&mut b.args, a, s);
        }
        "unknown" => {
            let a = Arg { field: None, name: some_name(sc, s), form: any_form(s), body: any_value(s) };
            insert_named(&mut b.args, a, s);
        }
        "near-miss" => {
            let all = sc.named();
            if all.is_empty() {
                return None;
            }
            let n = sc.fields[*s.pick(&all)].name();
            let e = names::edit(s, &n);
            if !names::is_ident(&e) || all.iter().any(|&i| sc.fields[i].name() == e) {
                return None;
            }
            if !named.is_empty() && s.pct(35) {
                let i = *s.pick(&named);
                b.args[i].name = e;
            } else {
                let a = Arg { field: None, name: e, form: any_form(s), body: any_value(s) };
                insert_named(&mut b.args, a, s);
            }
        }
        "restyle" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let f = any_form(s);
            if f == b.args[i].form {
                return None;
            }
            b.args[i].form = f;
            if b.args[i].body.is_empty() || s.pct(30) {
                b.args[i].body = any_value(s);
            }
        }
        "positional" => {
            let at = if s.pct(50) { b.args.len() } else { s.below(b.args.len() + 1) };
            let pf: Vec<usize> = (0..sc.fields.len()).filter(|&i| matches!(sc.fields[i].role, Role::Req | Role::Opt | Role::Var)).collect();
            let body = if pf.is_empty() || s.pct(30) {
                any_value(s)
            } else {
                let i = *s.pick(&pf);
                positional_text(sc, i, s, mix).0
            };
            b.args.insert(at, Arg { field: None, name: String::new(), form: Form::Other, body });
        }
        "comma" => match s.below(5) {
            0 if b.args.len() > 1 => {
                b.seps = vec![", ".into(); b.args.len() - 1];
                let i = s.below(b.args.len() - 1);
                b.seps[i] = s.pick(&[" ", "; ", ": ", " . "]).to_string();
            }
            1 if b.args.len() > 1 => {
                b.seps = vec![", ".into(); b.args.len() - 1];
                let i = s.below(b.args.len() - 1);
                b.seps[i] = ", , ".into();
            }
            2 => b.head = ", ".into(),
            3 => b.tail = ",,".into(),
            _ => b.tail = s.pick(&[";", " .", ", ;", " =", ",,,"]).to_string(),
        },
        "bad-value" => {
            if b.args.is_empty() {
                return None;
            }
            let i = s.below(b.args.len());
            let is = |l| b.args[i].field.is_some_and(|f| matches!(sc.leaf_of(&sc.fields[f]), LeafRef::L(x) if x == l));
            b.args[i].body = if is(Leaf::Ints) && s.pct(75) {
                s.pick(&["[x]", "[x y]", "[1 - 'c']", "[\"s\" 2 'c' z]", "[, ,]", "[1 (2) a]"]).to_string()
            } else {
                any_value(s)
            };
        }
        "leftover" => {
            if b.args.is_empty() {
                return None;
            }
            let i = if !named.is_empty() && s.pct(80) { *s.pick(&named) } else { s.below(b.args.len()) };
            let x = s.pick(&[" 1", ", 1", " x", ",,", " = 2", ", x = 1", "()", " ;", ", ,"]).to_string();
            if s.pct(70) { b.args[i].body.push_str(&x) } else { b.args[i].body = format!("{x} {}", b.args[i].body) }
        }
        "no-value" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            b.args[i].body = String::new();
            if s.pct(50) {
                b.args[i].form = *s.pick(&[Form::Eq, Form::Paren]);
            }
        }
        "operator" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let op = s.pick(&["==", "=>", ":", "::", ".", "!", "<", ">=", "?", " = = ", "= >", "+=", "!=", "<="]);
            let body = if b.args[i].body.is_empty() { any_value(s) } else { b.args[i].body.clone() };
            b.args[i].body = format!("{} {op} {body}", b.args[i].name);
            b.args[i].form = Form::Other;
        }
        "delimiter" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let (o, c) = s.pick(&[("[", "]"), ("{", "}"), ("((", "))"), ("!(", ")"), ("()(", ")"), ("(", ")[0]"), ("(", ").x")]);
            b.args[i].body = format!("{}{o}{}{c}", b.args[i].name, b.args[i].body);
            b.args[i].form = Form::Other;
        }
        "token-noise" => {
            let t = b.text();
            let r = lex::token_ranges(&t);
            if r.is_empty() {
                return None;
            }
            let (a, e) = r[s.below(r.len())];
            let t = match s.below(3) {
                0 => format!("{}{}", &t[..a], &t[e..]),
                1 => format!("{} {} {}", &t[..a], s.pick(NOISE), &t[a..]),
                _ => format!("{} {} {}", &t[..a], s.pick(NOISE), &t[e..]),
            };
            if lex::lex(&t).is_none() {
                return None;
            }
            *b = Built { args: vec![Arg { field: None, name: String::new(), form: Form::Other, body: t }], seps: vec![], tail: String::new(), head: String::new() };
        }
        "respell" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let n = &b.args[i].name;
            let m = match s.below(6) {
                0 => n.to_uppercase(),
                1 => {
                    let mut c = n.chars();
                    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
                }
                2 => format!("{n}_"),
                3 => n.trim_start_matches('_').to_string(),
                _ => format!("r#{n}"),
            };
            if m == *n || lex::lex(&m).is_none() || m.is_empty() {
                return None;
            }
            b.args[i].name = m;
        }
        "duplicate-restyled" => {
            if named.is_empty() {
                return None;
            }
            let i = *s.pick(&named);
            let mut a = b.args[i].clone();
            a.form = any_form(s);
            if a.body.is_empty() {
                a.body = any_value(s);
            }
            insert_named(&mut b.args, a, s);
        }
        "rest-clash" => {
            let all = sc.named();
            if all.is_empty() {
                return None;
            }
            let f = *s.pick(&all);
            let st = sc.rest().unwrap_or(f);
            let (form, body, _) = named_arg(sc, st, s, mix);
            let a = Arg { field: None, name: sc.fields[f].name(), form, body };
            insert_named(&mut b.args, a, s);
        }
        _ => unreachable!(),
    }
    Some(FAULTS[kind])
}
const NOISE: &[&str] = &[
    ",", "=", "==", "x", "1", "\"s\"", "(", ")", "()", "[]", "{}", "(x)", "::", "!", "-", "'a", "#", "@", "true", "self", "_", "r#x", ";", "..", "=>",
    "(x = 1, y(2))", "name = 1", "$",
];

/// random token soup
pub fn soup(sc: Option<&SmSchema>, s: &mut Src, depth: u32) -> String {
    let mut names: Vec<String> = sc.map(|sc| sc.named().iter().map(|&i| sc.fields[i].name()).collect()).unwrap_or_default();
    if names.is_empty() {
        names.push("x".into());
    }
    let mut t = String::new();
    for _ in 0..s.range(0, 9) {
        match s.below(14) {
            0..=3 => t.push_str(s.pick(&names)),
            4 | 5 => t.push_str(s.pick(&[",", ",", "=", "= ", "==", "=>", ":", "::", ";", "!", "-", "&", "|", ".", "..", "#", "@", "?", "$", "<", ">", "+", "*", "/"])),
            6 | 7 => t.push_str(s.pick(&[",", "=", ","])),
            8 => t.push_str(&any_value(s)),
            9 if depth > 0 => {
                let (a, b) = s.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("__none!(", ")")]);
                let i = soup(sc, s, depth - 1);
                t.push_str(a);
                t.push_str(&i);
                t.push_str(b);
            }
            10 if depth > 0 => {
                let i = soup(sc, s, depth - 1);
                let n = s.pick(&names).clone();
                t.push_str(&format!("{n}({i})"));
            }
            11 => t.push_str(s.pick(&["r#x", "r#fn", "_", "__", "self", "crate", "Self", "super", "fn", "if", "true", "\u{540d}"])),
            12 => t.push_str(s.pick(&["1", "1.5", "\"s\"", "'c'", "b\"x\"", "c\"x\"", "r\"x\"", "1_u8", "'a", "0x", "1e5"])),
            _ => t.push_str(names::PLAIN[s.below(names::PLAIN.len())]),
        }
        if s.pct(80) {
            t.push(' ');
        }
    }
    t
}

/// one generated case
pub fn gen_case(sc: &SmSchema, s: &mut Src, mix: &Mix, variants: Variants) -> Case {
    let attr = s.pct(mix.attr);
    if s.pct(mix.garbage) {
        let mut t = soup(Some(sc), s, 3);
        if lex::lex(&t).is_none() {
            t = "x".into();
        }
        return Case { texts: vec![t], attr, expect: None, planted: vec!["soup"], features: vec![], single: false, single_part: false, base: None };
    }
    let (args, mut expect) = gen_args(sc, s, mix);
    let trailing = !args.is_empty() && s.pct(mix.trailing);
    let mut b = Built { args, seps: vec![], tail: if trailing { ",".into() } else { String::new() }, head: String::new() };
    let base = b.text();
    let n_faults = s.weighted(&mix.faults);
    let mut planted = Vec::new();
    for _ in 0..n_faults {
        for _ in 0..4 {
            let mut c = Built { args: b.args.clone(), seps: b.seps.clone(), tail: b.tail.clone(), head: b.head.clone() };
            if let Some(k) = plant(sc, &mut c, s, mix) {
                if lex::lex(&c.text()).is_some() {
                    b = c;
                    planted.push(k);
                    break;
                }
            }
        }
    }
    let single_part = planted.len() == 1 && matches!(planted[0], "comma" | "bad-value" | "leftover" | "no-value" | "delimiter" | "operator");
    let single = planted.len() == 1
        && matches!(planted[0], "drop" | "duplicate" | "unknown" | "near-miss" | "restyle" | "positional" | "duplicate-restyled" | "rest-clash");
    if !planted.is_empty() {
        expect = None;
    }
    let lay = [Layout::Canon, Layout::Compact, Layout::Wide][s.weighted(&mix.layout)];
    let text = b.text();
    let mut texts = vec![lex::layout(&text, lay, s)];
    let mut features = Vec::new();
    if lay == Layout::Compact {
        features.push("compact");
    }
    if lay == Layout::Wide {
        features.push("wide");
    }
    if text.contains(lex::NONE_MARK) {
        features.push("invisible-group");
    }
    if trailing {
        features.push("trailing-comma");
    }
    if planted.is_empty() {
        // (an argument that the name filter hides is positional: it cannot be moved)
        if variants.permute && expect.is_some() {
            let p = b.args.iter().take_while(|a| a.positional()).count();
            let mut c = b.args.clone();
            if c.len() - p > 1 {
                if s.pct(50) { c[p..].reverse() } else { s.shuffle(&mut c[p..]) }
                let b2 = Built { args: c, seps: vec![], tail: b.tail.clone(), head: String::new() };
                texts.push(b2.text());
                features.push("permuted");
            }
        }
    }
    if variants.relayout {
        for how in [Layout::Canon, Layout::Compact, Layout::Wide] {
            let t = lex::layout(&text, how, s);
            if !texts.contains(&t) {
                texts.push(t);
            }
        }
        if planted.is_empty() {
            // without / with the trailing comma, without invisible groups
            if !b.args.is_empty() {
                b.tail = if trailing { String::new() } else { ",".into() };
                texts.push(b.text());
            }
            if text.contains(lex::NONE_MARK) {
                let t = strip_marks(&text);
                texts.push(t);
            }
        }
    }
    Case { texts, attr, expect, planted, features, single, single_part, base: Some(base) }
}

/// removes the invisible-group markers (keeping the contents)
pub fn strip_marks(t: &str) -> String {
    fn walk(ts: proc_macro2::TokenStream, out: &mut String) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = lex::delims(g.delimiter());
                    out.push_str(a);
                    walk(g.stream(), out);
                    out.push_str(b);
                    out.push(' ');
                }
                proc_macro2::TokenTree::Punct(p) if p.spacing() == proc_macro2::Spacing::Joint || p.as_char() == '\'' => out.push(p.as_char()),
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
        }
    }
    let mut out = String::new();
    if let Some(ts) = lex::lex(t) {
        walk(lex::none_groups(ts), &mut out);
    }
    out
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Variants {
    pub permute: bool,
    pub relayout: bool,
}
