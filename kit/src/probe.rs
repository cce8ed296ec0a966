//! Running derived parsers inside a procedural macro, next to the same outside of the compiler.
use crate::lex;
use crate::node::rt;
use crate::run::guarded;
use crate::shard::Module;
use crate::sm::judge;
use crate::val::Pos;
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use syn::parse::Parser;

/// places as numbers of tokens
struct Map {
    units: BTreeMap<(usize, usize), usize>,
    call: Pos,
}
thread_local! {
    static MAP: RefCell<Option<Map>> = const { RefCell::new(None) };
}

pub const ELSEWHERE: usize = 9_999_999;

/// replaces a place by the number of the token there, if this is wanted
pub fn map(p: Pos) -> Pos {
    MAP.with(|m| match m.try_borrow().ok().as_deref() {
        Some(Some(m)) => {
            if p == m.call {
                return Pos::ZERO;
            }
            Pos(m.units.get(&p.start()).map_or(ELSEWHERE, |i| i + 1), 0, 0, 0)
        }
        _ => p,
    })
}

/// a group made in the compiler has only one span
pub fn one_span() -> bool {
    MAP.with(|m| m.borrow().is_some())
}

/// the tokens as text, and where the units start; a unit is a run of punctuation, a lifetime, or any
/// other token, since the compiler does not always give their parts places of their own
fn units(ts: &TokenStream) -> (String, BTreeMap<(usize, usize), usize>, bool) {
    struct W {
        text: String,
        at: BTreeMap<(usize, usize), usize>,
        groups: Vec<((usize, usize), usize)>,
        n: usize,
        clash: bool,
    }
    impl W {
        fn add(&mut self, s: Span, i: usize) {
            let p = Pos::of(s).start();
            if self.at.insert(p, i).is_some_and(|j| j != i) {
                self.clash = true;
            }
        }
        fn walk(&mut self, ts: TokenStream) {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut run = None;
            for (i, t) in v.iter().enumerate() {
                match t {
                    TokenTree::Group(g) => {
                        run = None;
                        let (a, b) = lex::delims(g.delimiter());
                        if g.delimiter() == Delimiter::None {
                            // a span of its own for the end, where there are no two, is that of the whole
                            self.groups.push((Pos::of(g.span()).start(), self.n));
                            self.groups.push((Pos::of(g.span_close()).start(), self.n));
                            self.text.push_str("<< ");
                            self.walk(g.stream());
                            self.text.push_str(">> ");
                            continue;
                        }
                        self.text.push_str(a);
                        self.text.push(' ');
                        self.add(g.span_open(), self.n);
                        self.n += 1;
                        self.walk(g.stream());
                        self.text.push_str(b);
                        self.text.push(' ');
                        self.add(g.span_close(), self.n);
                        self.n += 1;
                    }
                    TokenTree::Punct(p) => {
                        let r = *run.get_or_insert(self.n);
                        if r == self.n {
                            self.n += 1;
                        }
                        self.add(p.span(), r);
                        self.text.push(p.as_char());
                        if !(p.spacing() == Spacing::Joint && matches!(v.get(i + 1), Some(TokenTree::Punct(n)) if n.as_char() != '\'')) {
                            self.text.push(' ');
                        }
                    }
                    TokenTree::Ident(_) if i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '\'') && run.is_some() => {
                        let r = run.take().unwrap();
                        self.add(t.span(), r);
                        self.text.push_str(&t.to_string());
                        self.text.push(' ');
                    }
                    t => {
                        run = None;
                        self.add(t.span(), self.n);
                        self.n += 1;
                        self.text.push_str(&t.to_string());
                        self.text.push(' ');
                    }
                }
            }
        }
    }
    let mut w = W { text: String::new(), at: BTreeMap::new(), groups: vec![], n: 0, clash: false };
    w.walk(ts.clone());
    let groups = std::mem::take(&mut w.groups);
    for (p, i) in groups {
        w.at.entry(p).or_insert(i);
    }
    (w.text, w.at, w.clash)
}

/// what the derived code does with these tokens
fn run(m: &Module, ts: &TokenStream, attr: &Option<syn::Attribute>) -> String {
    let errs = |e: syn::Error| crate::sm::model::errors(e).iter().map(|(m, p)| format!("{m:?}@{}", p.0)).collect::<Vec<_>>().join("; ");
    match m {
        Module::Sm { parsers, .. } => parsers
            .iter()
            .map(|(n, p)| match judge::real(*p, ts, attr) {
                Ok(r) => format!("{n}: {}", judge::show(&r)),
                Err(e) => format!("{n}: panic: {e}"),
            })
            .collect::<Vec<_>>()
            .join("\n"),
        Module::Node { ops, .. } => {
            let r = guarded(|| match attr {
                Some(a) => a.parse_args_with(ops.parse),
                None => ops.parse.parse2(ts.clone()),
            });
            match r {
                Err(e) => format!("panic: {e}"),
                Ok(Err(e)) => format!("Err({})", errs(e)),
                Ok(Ok(o)) => {
                    format!("{}\nleft: {}\nprinted: {}", o.val.show(), rt::show_flat(&rt::flat(&o.rest)), rt::show_flat(&rt::flat(&o.printed)))
                }
            }
        }
        Module::Any { .. } => String::new(),
    }
}

/// tokens of the input (with the attribute around, if it is one), and the outcome
fn observe(m: &Module, all: TokenStream, attr: bool) -> Option<(String, String, bool)> {
    let all = lex::none_groups(all);
    MAP.with(|m| *m.borrow_mut() = None);
    let (text, at, clash) = units(&all);
    let call = Pos::of(Span::call_site());
    let (ts, a) = if attr {
        let a = syn::Attribute::parse_outer.parse2(all).ok()?.into_iter().next()?;
        let inner = match &a.meta {
            syn::Meta::List(l) => l.tokens.clone(),
            _ => return None,
        };
        (inner, Some(a))
    } else {
        (all, None)
    };
    MAP.with(|m| *m.borrow_mut() = Some(Map { units: at, call }));
    let out = run(m, &ts, &a);
    MAP.with(|m| *m.borrow_mut() = None);
    Some((text, out, clash))
}

fn literals(ts: TokenStream, out: &mut Vec<syn::Lit>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => literals(g.stream(), out),
            TokenTree::Literal(l) => out.push(syn::Lit::new(l)),
            _ => {}
        }
    }
}

/// number of the case, of the module, and the text
fn header(ts: TokenStream) -> Option<(usize, usize, String)> {
    let mut l = Vec::new();
    literals(ts, &mut l);
    let n = |l: &syn::Lit| if let syn::Lit::Int(i) = l { i.base10_parse().ok() } else { None };
    let [a, b, syn::Lit::Str(s)] = l.as_slice() else { return None };
    Some((n(a)?, n(b)?, s.value()))
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Line {
    pub case: usize,
    /// the compiler gives other tokens than the reference lexer
    pub other_tokens: bool,
    pub same: bool,
    pub ok: bool,
    pub inside: String,
    pub outside: String,
}

fn compare(modules: &[Module], name: &str, head: TokenStream, input: TokenStream, attr: bool) -> Option<()> {
    let (case, id, text) = header(head)?;
    let path = format!("{}/{name}", std::env::var("SMV_PROBE_OUT").ok()?);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).ok()?;
    f.write_all(format!("start {case}\n").as_bytes()).ok()?;
    let m = modules.iter().find(|m| matches!(m, Module::Sm { id: i, .. } | Module::Node { id: i, .. } if *i == id))?;
    let (t1, inside, clash) = observe(m, input, attr)?;
    proc_macro2::fallback::force();
    let out = guarded(|| {
        let text = if attr { format!("\n#[attr(\n{text}\n)]") } else { format!("\n{text}") };
        observe(m, lex::lex(&text)?, attr)
    });
    proc_macro2::fallback::unforce();
    let (t2, outside, _) = out.ok()??;
    let strip = |t: &str| {
        let mut s = String::new();
        let mut it = t.chars().peekable();
        while let Some(c) = it.next() {
            if c == '@' {
                while it.peek().is_some_and(|c| c.is_ascii_digit() || *c == ':') {
                    it.next();
                }
            } else {
                s.push(c);
            }
        }
        s
    };
    let same = if clash { strip(&inside) == strip(&outside) } else { inside == outside };
    let ok = !outside.contains("Err(") && !outside.contains("panic");
    let l = Line {
        case,
        other_tokens: t1 != t2,
        same,
        ok,
        inside: if same && t1 == t2 { String::new() } else { format!("{inside}\n{t1}") },
        outside: if same && t1 == t2 { String::new() } else { format!("{outside}\n{t2}") },
    };
    f.write_all(format!("{}\n", serde_json::to_string(&l).ok()?).as_bytes()).ok()
}

/// `probe!(case module "text"; tokens)`
pub fn call(modules: &[Module], name: &str, input: TokenStream) {
    let mut it = input.into_iter();
    let head: TokenStream = it.by_ref().take_while(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == ';')).collect();
    let _ = compare(modules, name, head, it.collect(), false);
}
/// `#[probe(tokens)] #[case(case, module, "text")] struct C;`
pub fn attribute(modules: &[Module], name: &str, args: TokenStream, item: TokenStream) {
    let _ = compare(modules, name, item, args, false);
}
/// `#[derive(Probe)] #[case(case, module, "text")] #[attr(tokens)] struct C;`
pub fn derive(modules: &[Module], name: &str, item: TokenStream) {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let get = |n: &str| -> Option<TokenStream> {
        (1..v.len()).find_map(|i| match &v[i] {
            TokenTree::Group(g) if matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(id)) if id == n) => Some(v[i - 1..=i].iter().cloned().collect()),
            _ => None,
        })
    };
    if let (Some(h), Some(a)) = (get("case"), get("attr")) {
        let _ = compare(modules, name, h, a, true);
    }
}
