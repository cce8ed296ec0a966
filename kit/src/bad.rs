//! Definitions with one documented rule broken (C20).
use crate::names;
use crate::node::{self, schema as ns, toks::NLeaf};
use crate::sm::emit::EmitOpts;
use crate::sm::{self, schema as ss};
use crate::tape::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: String,
    /// module file
    pub source: String,
    /// the broken definition and its lines (from 1) in the module file
    pub definition: String,
    pub lines: (usize, usize),
    pub place: Place,
    /// line and column ranges (from 1) of the places an error has to point to
    pub spots: Vec<Spot>,
}
pub type Spot = (usize, usize, usize, usize);

/// where the fault can be seen
#[derive(Clone, Debug, PartialEq)]
pub enum Place {
    /// only by the type checker: an error anywhere in the definition
    Typed,
    /// only by the type checker: an error in one of these fields
    TypedFields(Vec<usize>),
    /// the kind of the item
    Item,
    /// one of these fields (in the order of emission)
    Fields(Vec<usize>),
    /// the helper attribute with this text
    Attr(String),
}

pub const SM_KINDS: &[&str] = &[
    "StructMeta on an enum", "StructMeta on a union", "duplicate parameter name", "two rest maps", "required after optional",
    "positional after variadic", "positional field of a named-only type", "struct-level argument", "field-level argument",
    "name on a rest map", "type that cannot be parsed",
];
pub const NODE_KINDS: &[&str] = &[
    "Parse/ToTokens on a union", "item-level parse argument", "item-level to_tokens argument", "field-level parse argument",
    "field-level to_tokens argument", "not a delimiter", "closing delimiter without opening", "mismatched closing delimiter",
    "delimiter on another type", "peek inside a group", "peek after an unpeeked field", "more than three peeks", "peek on a type without a token",
    "any on another type", "terminated on another type", "parse argument of a field on the item", "symbol on the item", "attribute on a variant",
    "dump on a field", "any or terminated on a delimiter", "field that cannot be printed", "field that cannot be parsed",
];
/// types that are neither parsed nor printed
const NEITHER: &[&str] = &[
    "()", "[::syn::LitInt; 2]", "(::syn::LitInt, ::syn::LitStr)", "::std::collections::HashSet<::std::string::String>", "fn(u8) -> u8",
    "::std::cell::Cell<u8>", "::std::ops::Range<u8>", "*const u8", "::std::sync::Mutex<::syn::Expr>", "fn()",
];
/// types that are not parsed
const UNPARSED: &[&str] = &["u8", "::std::string::String", "&'static str", "char", "::syn::punctuated::Punctuated<::syn::LitInt, ::syn::Token![,]>", "f64"];

const STRUCT_ARGS: &[&str] = &[
    "(foo)", "(unnamed)", "(name = \"a\")", "(\"a\")", "(1)", "(rest)", "(Dump)", "(dumps)", "(name_filter)", "(name_filter = snake_case)",
    "(name_filter = \"SnakeCase\")", "(name_filter = \"snake-case\")", "(name_filter = \"\")", "(name_filter = \"camelCase\")", "(name_filter = 1)",
    "(name_filter(\"snake_case\"))", "(name_filter: \"snake_case\")", "(name_filter == \"snake_case\")", "(name_filter = \"snake_case\" name_filter)",
    "(name_filter = \"snake_case\", name_filter = \"snake_case\")", "(name_filter = \"snake_case\", foo)", "(foo, name_filter = \"snake_case\")",
    "(,)", "(name_filter = \"snake_case\",,)", "(name_filter = b\"snake_case\")", "(namefilter = \"snake_case\")", "", " = \"snake_case\"",
    "(name_filter = \"snake_case \")", "(name_filter =)",
];
const FIELD_ARGS: &[&str] = &[
    "(foo)", "(name)", "(name = foo)", "(name = 1)", "(name(\"x\"))", "(name: \"x\")", "(\"x\")", "(dump)", "(name_filter = \"snake_case\")",
    "(unnamed = true)", "(unnamed(x))", "(name = \"x\" unnamed)", "(Name = \"x\")", "(,)", "(rename = \"x\")", "(name = 'x')", "(name = b\"x\")",
    "(name == \"x\")", "(name =)", "(names = \"x\")", "(unname)", "(Unnamed)", "(unnamed,,)", "(name = \"zz\", foo)", "(rest)", "", " = \"x\"",
    "(name = \"x\" = \"y\")", "(name = \"x\"; unnamed)",
];
const PARSE_ARGS: &[&str] = &[
    "(foo)", "(\"x\")", "", " = \"any\"", "(any any)", "(peek = true)", "(Peek)", "(,)", "(any = 1)", "(terminate)", "(dumps)", "(peek2)",
    "(any,,)", "(any; peek)", "(peek(1))", "(1)", "(any, foo)", "(foo, any)", "(any || peek)", "(parse)", "(with = f)", "(any \"x\")",
];
const TO_TOKENS_ARGS: &[&str] = &[
    "('(')", "(1)", "(b\"(\")", "(paren)", "(\"\" \"\")", "(Dump)", "(,)", "", " = \"(\"", "(peek)", "(any)", "([])", "(foo)", "(\"\",,)", "(true)",
    "(c\"(\")", "(\"\"; \"\")", "(name = \"(\")",
];
const PARSE_TOP: &[&str] = &["(peek)", "(any)", "(terminated)", "(dump, peek)", "(any, terminated,)", "(peek, dump)", "(any, any)"];
const TO_TOKENS_TOP: &[&str] = &["(\"(\")", "(\")\")", "(\"[\", \"]\")", "(dump, \"{\")", "(\"{\", dump)", "(\"()\")", "(\"]\", \"]\")", "(\"x\")", "(\"\")"];
const BAD_SYMBOLS: &[&str] = &["(\"a\")", "(\" \")", "(\"<\")", "(\">\")", "(\"|\")", "(\"\\\"\")", "(\",\")", "(\"0\")", "(r#\"'\"#)", "(\"\u{ff08}\")", "(\"\\n\")", "(\"\", \"_\")"];

fn top(attr: &str, args: &str) -> String {
    format!("#[{attr}{args}]")
}

pub fn gen_bad(s: &mut Src, id: usize, kind: usize, small: bool) -> Option<Bad> {
    if kind < SM_KINDS.len() {
        let mut p = sm::gener::Profile { sub: 12, name_attr: 25, tuple: 30, ..sm::gener::BASE };
        if small {
            p = sm::gener::Profile { sub: 0, max_fields: 2, big: 0, noise: 0, dress: 0, scope: 0, hostile: 0, generics: 0, spell: 0, look: 0, ..p };
        }
        let mut sc = sm::gener::gen_schema(s, &p, id);
        let mut o = EmitOpts::default();
        // the top definition or one it contains
        let target = pick_sub_sm(&mut sc, s);
        let place = break_sm(target, &mut o, kind, s)?;
        let name = target.ident.clone();
        return Some(sm_module(&sc, id, &name, &o, SM_KINDS[kind], place));
    }
    let k = kind - SM_KINDS.len();
    let mut p = node::gener::NProfile { kinds: [40, 18, 8, 22, 12, 7, 10, 3, 0, 0], ..node::gener::BASE };
    if (9..=12).contains(&k) || k == 17 {
        p.enums = 100;
    }
    if small {
        p = node::gener::NProfile { max_fields: 2, big: 0, noise: 0, dress: 0, scope: 0, hostile: 0, generics: 0, spell: 0, max_variants: 1, ..p };
        p.kinds[6] = 0;
    }
    let mut sc = node::gener::gen_schema(s, &p, id);
    let mut o = node::emit::NEmit::default();
    let target = pick_sub_node(&mut sc, s);
    let place = break_node(target, &mut o, k, s)?;
    let name = target.ident.clone();
    Some(node_module(&sc, id, &name, &o, NODE_KINDS[k], place))
}

fn pick_sub_sm<'a>(sc: &'a mut ss::SmSchema, s: &mut Src) -> &'a mut ss::SmSchema {
    if !sc.subs.is_empty() && s.pct(50) {
        let i = s.below(sc.subs.len());
        return pick_sub_sm(&mut sc.subs[i], s);
    }
    sc
}
fn pick_sub_node<'a>(sc: &'a mut ns::NSchema, s: &mut Src) -> &'a mut ns::NSchema {
    if !sc.subs.is_empty() && s.pct(50) {
        let i = s.below(sc.subs.len());
        return pick_sub_node(&mut sc.subs[i], s);
    }
    sc
}

fn new_field(sc: &ss::SmSchema, s: &mut Src, role: ss::Role, style: ss::Style) -> ss::Field {
    let idents: Vec<String> = sc.fields.iter().filter_map(|f| f.ident.as_ref()).map(|i| i.trim_start_matches("r#").to_string()).collect();
    let mut id = names::fresh(s, &names::MIX, &idents);
    if names::NAME_ONLY.contains(&id.as_str()) || names::is_keyword(&id) {
        id = (0..).map(|i| format!("extra{i}")).find(|n| !idents.contains(n)).unwrap();
    }
    let named = sc.kind == ss::Kind::Named;
    ss::Field {
        ident: named.then_some(id),
        name_attr: None,
        name_lit: 0,
        unnamed_attr: named && matches!(role, ss::Role::Req | ss::Role::Opt | ss::Role::Var),
        role,
        style,
        opt: false,
        leaf: ss::LeafTy::L(*s.pick(&[crate::leaf::Leaf::LitInt, crate::leaf::Leaf::Ident, crate::leaf::Leaf::LitStr, crate::leaf::Leaf::Expr])),
        spell: ss::Spell { opt: 0, vec: 0, map: 0, string: 0, sm: if sc.scope == 2 { 2 } else { s.below(3) as u8 }, boolean: 0, leaf: 2 },
        noise: 0,
        vis: 0,
    }
}
fn fresh_name(sc: &ss::SmSchema, s: &mut Src) -> String {
    let taken: Vec<String> = sc.named().iter().map(|&i| sc.fields[i].name()).collect();
    names::fresh(s, &names::MIX, &taken)
}
/// inserts at a random place from `lo` on; the place
fn insert(sc: &mut ss::SmSchema, s: &mut Src, f: ss::Field, lo: usize) -> usize {
    let at = lo + s.below(sc.fields.len() - lo + 1);
    sc.fields.insert(at, f);
    at
}

fn break_sm(sc: &mut ss::SmSchema, o: &mut EmitOpts, kind: usize, s: &mut Src) -> Option<Place> {
    use ss::{Kind, Role, Style};
    let mut place = Place::Item;
    let of_role = |sc: &ss::SmSchema, r: &[Role]| Place::Fields((0..sc.fields.len()).filter(|&i| r.contains(&sc.fields[i].role)).collect());
    if kind >= 2 && kind != 7 && sc.kind == Kind::Unit {
        sc.kind = if s.pct(50) { Kind::Named } else { Kind::Tuple };
    }
    match kind {
        0 => {
            let n = &sc.ident;
            o.over.item = Some(match s.below(4) {
                0 => format!("pub enum {n} {{ A, B }}"),
                1 => format!("pub enum {n} {{ A(::syn::LitInt), B {{ x: ::syn::LitStr }} }}"),
                2 => format!("pub enum {n} {{}}"),
                _ => format!("pub enum {n}<T> {{ Only(T) }}"),
            });
        }
        1 => o.over.item = Some(format!("pub union {} {{ a: u32, b: [u8; 4] }}", sc.ident)),
        2 => {
            if sc.named().is_empty() {
                let style = *s.pick(ss::STYLES);
                let mut f = new_field(sc, s, Role::Named, style);
                f.name_attr = Some(fresh_name(sc, s)).filter(|_| sc.kind == Kind::Tuple || s.pct(40));
                insert(sc, s, f, 0);
            }
            let named = sc.named();
            let i = *s.pick(&named);
            let name = sc.fields[i].name();
            let others: Vec<usize> = named.into_iter().filter(|&j| j != i).collect();
            if !others.is_empty() && s.pct(50) {
                // another field is renamed
                let j = *s.pick(&others);
                sc.fields[j].name_attr = Some(name.clone());
                sc.fields[j].name_lit = s.below(3) as u8;
            } else {
                let style = *s.pick(ss::STYLES);
                let mut f = new_field(sc, s, Role::Named, style);
                f.opt = !style.is_flag() && s.pct(40);
                f.name_attr = Some(name.clone());
                f.name_lit = s.below(3) as u8;
                insert(sc, s, f, 0);
            }
            place = Place::Fields(sc.named().into_iter().filter(|&i| sc.fields[i].name() == name).collect());
        }
        3 => {
            const R: &[Style] = &[Style::V, Style::NV, Style::NVO, Style::NA, Style::NAO, Style::L, Style::NAL];
            while sc.fields.iter().filter(|f| f.role == Role::Rest).count() < 2 {
                let style = *s.pick(R);
                let f = new_field(sc, s, Role::Rest, style);
                insert(sc, s, f, 0);
            }
            place = of_role(sc, &[Role::Rest]);
        }
        4 => {
            if sc.opts().is_empty() {
                let f = new_field(sc, s, Role::Opt, Style::V);
                let lo = sc.req().last().map_or(0, |i| i + 1);
                insert(sc, s, f, lo);
            }
            let lo = sc.opts()[0] + 1;
            let f = new_field(sc, s, Role::Req, Style::V);
            insert(sc, s, f, lo);
            place = of_role(sc, &[Role::Req, Role::Opt, Role::Var]);
        }
        5 => {
            if sc.var().is_none() {
                let f = new_field(sc, s, Role::Var, Style::L);
                insert(sc, s, f, 0);
            }
            let lo = sc.var()? + 1;
            let (role, style) = *s.pick(&[(Role::Req, Style::V), (Role::Opt, Style::V), (Role::Var, Style::L)]);
            let f = new_field(sc, s, role, style);
            insert(sc, s, f, lo);
            place = of_role(sc, &[Role::Req, Role::Opt, Role::Var]);
        }
        6 => {
            let style = *s.pick(&[
                Style::Bool, Style::Flag, Style::NV, Style::NVO, Style::NA, Style::NAO, Style::NAL, Style::NAOL, Style::L, Style::L,
            ]);
            let mut f = new_field(sc, s, Role::Named, style);
            f.opt = style == Style::L || !style.is_flag() && s.pct(40);
            f.unnamed_attr = sc.kind == Kind::Named || s.pct(20);
            place = Place::Fields(vec![insert(sc, s, f, 0)]);
        }
        7 => {
            let mut a = s.pick(STRUCT_ARGS).to_string();
            if sc.filter && s.pct(30) {
                a = "(name_filter = \"snake_case\")".into();
            }
            o.over.top.push(top("struct_meta", &a));
            place = if a.starts_with("(name_filter = \"snake_case\"") { Place::Attr(String::new()) } else { Place::Attr(top("struct_meta", &a)) };
        }
        8 => {
            if sc.fields.is_empty() {
                let f = new_field(sc, s, Role::Rest, Style::V);
                sc.fields.push(f);
            }
            let i = s.below(sc.fields.len());
            let a = *s.pick(FIELD_ARGS);
            o.over.field.push((i, top("struct_meta", a), s.pct(50)));
            place = Place::Fields(vec![i]);
        }
        9 => {
            sc.fields.retain(|f| f.role != Role::Rest);
            let style = *s.pick(&[Style::V, Style::NV, Style::NVO, Style::NA, Style::NAO, Style::L, Style::NAL, Style::Bool, Style::Flag]);
            let mut f = new_field(sc, s, Role::Rest, style);
            f.name_attr = Some(fresh_name(sc, s));
            insert(sc, s, f, 0);
            place = Place::Typed;
        }
        10 => {
            let role = *s.pick(&[Role::Req, Role::Opt, Role::Var, Role::Named, Role::Named, Role::Named, Role::Rest]);
            const V: &[Style] = &[Style::V, Style::NV, Style::NVO, Style::NA, Style::NAO, Style::L, Style::NAL, Style::NAOL];
            let style = match role {
                Role::Req | Role::Opt => Style::V,
                Role::Var => Style::L,
                _ => *s.pick(V),
            };
            // one rest map, one variadic field, and that the last
            sc.fields.retain(|f| !(f.role == role && matches!(role, Role::Rest | Role::Var)));
            let mut f = new_field(sc, s, role, style);
            f.leaf = ss::LeafTy::L(crate::leaf::Leaf::LitInt);
            if role == Role::Named {
                f.opt = s.pct(40);
                // its own identifier may be the name of another parameter
                f.name_attr = Some(fresh_name(sc, s));
            }
            let after = |sc: &ss::SmSchema, r: &[Role]| sc.fields.iter().rposition(|f| r.contains(&f.role)).map_or(0, |i| i + 1);
            let at = match role {
                Role::Req => 0,
                Role::Opt => after(sc, &[Role::Req]),
                Role::Var => after(sc, &[Role::Req, Role::Opt]),
                _ => s.below(sc.fields.len() + 1),
            };
            sc.fields.insert(at, f);
            let t = *if s.pct(50) { s.pick(NEITHER) } else { s.pick(UNPARSED) };
            o.over.retype = Some((at, t.to_string()));
            place = Place::TypedFields(vec![at]);
        }
        _ => return None,
    }
    Some(place)
}

/// (flat index, variant, field, depth of groups before its own symbols, opening character before it)
fn places(sc: &ns::NSchema) -> Vec<(usize, usize, usize, usize)> {
    let mut out = Vec::new();
    let mut n = 0;
    for (v, var) in sc.variants.iter().enumerate() {
        let mut d = 0usize;
        for (i, f) in var.fields.iter().enumerate() {
            out.push((n, v, i, d));
            n += 1;
            for y in &f.syms {
                match y {
                    ns::Sym::Open(_) => d += 1,
                    ns::Sym::Close(_) => d = d.saturating_sub(1),
                }
            }
        }
    }
    out
}
fn add_field(sc: &mut ns::NSchema, v: usize, at: usize, kind: ns::FieldKind, s: &mut Src) {
    let var = &mut sc.variants[v];
    let named = match var.shape {
        ns::Shape::Unit => {
            var.shape = if s.pct(50) { ns::Shape::Named } else { ns::Shape::Tuple };
            var.shape == ns::Shape::Named
        }
        sh => sh == ns::Shape::Named,
    };
    let id = (0..).map(|i| format!("extra{i}")).find(|n| !var.fields.iter().any(|f| f.ident.as_deref() == Some(n))).unwrap();
    let f = ns::NField { ident: named.then_some(id), kind, syms: vec![], sym_style: 0, peek: false, any: false, spell: 2, vis: 0, noise: 0, wrap: 0 };
    var.fields.insert(at, f);
}

fn break_node(sc: &mut ns::NSchema, o: &mut node::emit::NEmit, kind: usize, s: &mut Src) -> Option<Place> {
    use ns::{FieldKind, Sym};
    let mut place = Place::Typed;
    let flat = |sc: &ns::NSchema, v: usize, i: usize| sc.variants[..v].iter().map(|v| v.fields.len()).sum::<usize>() + i;
    if sc.variants.is_empty() {
        return None;
    }
    let with_parse: &[&[&'static str]] = &[&["Parse"], &["Parse", "ToTokens"]];
    let printed: &[&[&'static str]] = &[&["ToTokens"], &["Parse", "ToTokens"]];
    let parse_only: &[&[&'static str]] = &[&["Parse"]];
    let any: &[&[&'static str]] = &[&["Parse"], &["ToTokens"], &["Parse", "ToTokens"]];
    let derives = match kind {
        1 | 3 | 9..=15 | 19 => with_parse,
        20 => printed,
        21 => parse_only,
        _ => any,
    };
    o.over.derives = Some(s.pick(derives).to_vec());
    if sc.fields().next().is_none() && kind > 2 {
        let v = s.below(sc.variants.len());
        add_field(sc, v, 0, FieldKind::Leaf(NLeaf::Ident), s);
    }
    let pl = places(sc);
    match kind {
        0 => {
            place = Place::Item;
            o.over.item = Some(match s.below(2) {
                0 => format!("pub union {} {{ a: u32, b: [u8; 4] }}", sc.ident),
                _ => format!("pub union {}<T: Copy> {{ pub a: T }}", sc.ident),
            })
        }
        1 => {
            let a = top("parse", s.pick(PARSE_ARGS));
            place = Place::Attr(a.clone());
            o.over.top.push(a);
        }
        2 => {
            let a = top("to_tokens", s.pick(TO_TOKENS_ARGS));
            place = Place::Attr(a.clone());
            o.over.top.push(a);
        }
        3 => {
            let i = s.below(pl.len());
            o.over.field.push((i, top("parse", s.pick(PARSE_ARGS)), s.pct(50)));
            place = Place::Fields(vec![i]);
        }
        4 => {
            let i = s.below(pl.len());
            o.over.field.push((i, top("to_tokens", s.pick(TO_TOKENS_ARGS)), s.pct(50)));
            place = Place::Fields(vec![i]);
        }
        5 => {
            let i = s.below(pl.len());
            o.over.field.push((i, top("to_tokens", s.pick(BAD_SYMBOLS)), s.pct(50)));
            place = Place::Fields(vec![i]);
        }
        6 => {
            let roots: Vec<_> = pl.iter().filter(|p| p.3 == 0).collect();
            let &&(_, v, i, _) = s.pick(&roots);
            let c = *s.pick(&['(', '[', '{']);
            sc.variants[v].fields[i].syms.insert(0, Sym::Close(c));
            place = Place::Fields(vec![flat(sc, v, i)]);
        }
        7 => {
            // closing symbols of typed groups
            let mut cands = Vec::new();
            for (v, var) in sc.variants.iter().enumerate() {
                let mut open: Vec<bool> = Vec::new();
                for (i, f) in var.fields.iter().enumerate() {
                    for (k, y) in f.syms.iter().enumerate() {
                        match y {
                            Sym::Open(_) => open.push(matches!(f.kind, FieldKind::Delim(_))),
                            Sym::Close(_) => {
                                if open.pop() == Some(true) {
                                    cands.push((v, i, k));
                                }
                            }
                        }
                    }
                }
            }
            if cands.is_empty() {
                return None;
            }
            let (v, i, k) = *s.pick(&cands);
            let f = &mut sc.variants[v].fields[i];
            let Sym::Close(c) = f.syms[k] else { return None };
            let other: Vec<char> = "([{".chars().filter(|x| *x != c).collect();
            f.syms[k] = Sym::Close(*s.pick(&other));
            place = Place::Fields(vec![flat(sc, v, i)]);
        }
        8 => {
            let cands: Vec<_> = pl.iter().filter(|p| matches!(sc.variants[p.1].fields[p.2].kind, FieldKind::Delim(_))).collect();
            if !cands.is_empty() && s.pct(70) {
                let &&(n, v, i, _) = s.pick(&cands);
                place = Place::TypedFields(vec![n]);
                let f = &mut sc.variants[v].fields[i];
                let FieldKind::Delim(c) = f.kind else { return None };
                let other: Vec<char> = "([{".chars().filter(|x| *x != c).collect();
                f.kind = if s.pct(75) { FieldKind::Delim(*s.pick(&other)) } else { FieldKind::Leaf(*s.pick(&[NLeaf::Ident, NLeaf::LitInt, NLeaf::Expr])) };
            } else {
                let &(n, v, i, depth) = s.pick(&pl);
                // inside a group, that one's end may be what does not match
                place = if depth == 0 { Place::TypedFields(vec![n]) } else { Place::Typed };
                let f = &mut sc.variants[v].fields[i];
                if !matches!(f.kind, FieldKind::Leaf(_) | FieldKind::Tok(_)) || f.peek || f.any || !f.syms.is_empty() {
                    return None;
                }
                f.syms = vec![Sym::Open(*s.pick(&['(', '[', '{']))];
            }
        }
        9 => {
            let cands: Vec<_> = pl
                .iter()
                .filter(|p| {
                    let f = &sc.variants[p.1].fields[p.2];
                    // still inside a group after its closing symbols
                    let d = f.syms.iter().fold(p.3 as i32, |d, y| if matches!(y, Sym::Close(_)) { d - 1 } else { d });
                    d > 0 && matches!(f.kind, FieldKind::Leaf(l) if node::toks::PEEKABLE.contains(&l)) | matches!(f.kind, FieldKind::Tok(_) | FieldKind::Delim(_))
                })
                .collect();
            if cands.is_empty() {
                return None;
            }
            let &&(_, v, i, _) = s.pick(&cands);
            sc.variants[v].fields[i].peek = true;
            place = Place::Fields((0..=i).map(|i| flat(sc, v, i)).collect());
        }
        10 => {
            let v = s.below(sc.variants.len());
            let roots = ns::roots(&sc.variants[v].fields);
            let cands: Vec<usize> = roots
                .iter()
                .enumerate()
                .filter(|(n, i)| {
                    let f = &sc.variants[v].fields[**i];
                    roots[..*n].iter().any(|j| !sc.variants[v].fields[*j].peek)
                        && (matches!(f.kind, FieldKind::Leaf(l) if node::toks::PEEKABLE.contains(&l)) || matches!(f.kind, FieldKind::Tok(_) | FieldKind::Delim(_)))
                })
                .map(|(_, i)| *i)
                .collect();
            if cands.is_empty() {
                return None;
            }
            let i = *s.pick(&cands);
            sc.variants[v].fields[i].peek = true;
            place = Place::Fields((0..=i).map(|i| flat(sc, v, i)).collect());
        }
        11 => {
            let v = s.below(sc.variants.len());
            for n in 0..s.range(4, 6) {
                let k = match s.below(3) {
                    0 => FieldKind::Leaf(*s.pick(node::toks::PEEKABLE)),
                    1 => FieldKind::Leaf(NLeaf::Ident),
                    _ => FieldKind::Tok(node::toks::Tok::any(s, false, false)),
                };
                add_field(sc, v, n, k, s);
                sc.variants[v].fields[n].peek = true;
            }
            place = Place::Fields((0..sc.variants[v].fields.len()).map(|i| flat(sc, v, i)).collect());
        }
        12 => {
            let v = s.below(sc.variants.len());
            // one more would be reported before any type is looked at
            if sc.variants[v].fields.iter().filter(|f| f.peek).count() >= 3 {
                return None;
            }
            let k = *s.pick(&[NLeaf::Expr, NLeaf::Type, NLeaf::Path]);
            let k = if s.pct(70) { FieldKind::Leaf(k) } else { FieldKind::OptLeaf(NLeaf::LitInt) };
            add_field(sc, v, 0, k, s);
            sc.variants[v].fields[0].peek = true;
            place = Place::TypedFields(vec![flat(sc, v, 0)]);
        }
        13 | 14 => {
            let attr = if kind == 13 { "any" } else { "terminated" };
            let cands: Vec<_> = pl
                .iter()
                .filter(|p| {
                    let f = &sc.variants[p.1].fields[p.2];
                    f.syms.iter().all(|y| matches!(y, Sym::Close(_))) && !f.any && !f.peek && matches!(f.kind, FieldKind::Leaf(l) if kind == 14 || !matches!(l, NLeaf::Ident | NLeaf::Lifetime))
                })
                .collect();
            if cands.is_empty() {
                return None;
            }
            let &&(n, ..) = s.pick(&cands);
            o.over.field.push((n, format!("#[parse({attr})]"), s.pct(50)));
        }
        15 => {
            let a = top("parse", s.pick(PARSE_TOP));
            place = Place::Attr(a.clone());
            o.over.top.push(a);
        }
        16 => {
            let a = top("to_tokens", s.pick(TO_TOKENS_TOP));
            place = Place::Attr(a.clone());
            o.over.top.push(a);
        }
        17 => {
            if !sc.is_enum {
                return None;
            }
            // `parse` is no helper attribute of ToTokens
            let parse = o.over.derives.as_ref().is_some_and(|d| d.contains(&"Parse")) && s.pct(60);
            let a = if parse { top("parse", if s.pct(60) { s.pick(PARSE_TOP) } else { s.pick(PARSE_ARGS) }) } else { top("to_tokens", if s.pct(60) { s.pick(TO_TOKENS_TOP) } else { s.pick(TO_TOKENS_ARGS) }) };
            let a = if s.pct(15) { top(if parse { "parse" } else { "to_tokens" }, "(dump)") } else { a };
            place = Place::Attr(a.clone());
            o.over.variant.push((s.below(sc.variants.len()), a));
        }
        18 => {
            let parse = o.over.derives.as_ref().is_some_and(|d| d.contains(&"Parse")) && s.pct(50);
            let i = s.below(pl.len());
            let a = if parse { top("parse", "(dump)") } else { top("to_tokens", *s.pick(&["(dump)", "(dump,)", "(dump, dump)"])) };
            o.over.field.push((i, a, s.pct(50)));
            place = Place::Fields(vec![i]);
        }
        19 => {
            let cands: Vec<_> = pl
                .iter()
                .filter(|p| {
                    let f = &sc.variants[p.1].fields[p.2];
                    matches!(f.kind, FieldKind::Delim(_) | FieldKind::MacroDelim) && f.syms.iter().any(|y| matches!(y, Sym::Open(_)))
                })
                .collect();
            if cands.is_empty() {
                return None;
            }
            let &&(n, ..) = s.pick(&cands);
            o.over.field.push((n, top("parse", s.pick(&["(any)", "(terminated)", "(any, terminated)"])), s.pct(50)));
            place = Place::Fields(vec![n]);
        }
        20 | 21 => {
            let v = s.below(sc.variants.len());
            let at = s.below(sc.variants[v].fields.len() + 1);
            add_field(sc, v, at, if s.pct(20) { FieldKind::OptLeaf(NLeaf::LitInt) } else { FieldKind::Leaf(NLeaf::LitInt) }, s);
            let n = flat(sc, v, at);
            let t = *if kind == 20 || s.pct(50) { s.pick(NEITHER) } else { s.pick(UNPARSED) };
            o.over.retype = Some((n, t.to_string()));
            // the derived Parse reports it at the derive
            place = if kind == 20 { Place::TypedFields(vec![n]) } else { Place::Typed };
        }
        _ => return None,
    }
    Some(place)
}

const OPEN: &str = "    // the broken definition\n";
const CLOSE: &str = "    // end of it\n";
fn finish(mut source: String, kind: &str, place: Place) -> Bad {
    source.push_str("}\n");
    let a = source.find(OPEN).expect("mark") + OPEN.len();
    let b = source.find(CLOSE).expect("mark");
    let first = source[..a].matches('\n').count() + 1;
    let last = source[..b].matches('\n').count();
    let definition = source[a..b].to_string();
    let spots = spots(&definition, first, &place);
    Bad { kind: kind.into(), definition, lines: (first, last), source, place, spots }
}
/// where in the file (the definition starts at line `first`) the fault is to be seen
fn spots(def: &str, first: usize, place: &Place) -> Vec<Spot> {
    use syn::spanned::Spanned;
    let mut out = Vec::new();
    match place {
        Place::Typed | Place::Item => {}
        Place::Attr(text) => {
            let inner = if text.is_empty() { "struct_meta" } else { &text[2..text.len() - 1] };
            for (i, _) in def.match_indices(inner) {
                let at = |i: usize| {
                    let line = def[..i].matches('\n').count();
                    (first + line, def[..i].rsplit('\n').next().unwrap_or("").chars().count() + 1)
                };
                let end = if text.is_empty() { i + def[i..].find(']').unwrap_or(0) } else { i + inner.len() };
                let ((l, c), (m, d)) = (at(i), at(end));
                out.push((l, c, m, d));
            }
        }
        Place::Fields(want) | Place::TypedFields(want) => {
            let Ok(item) = syn::parse_str::<syn::DeriveInput>(def) else { return out };
            let fields: Vec<&syn::Field> = match &item.data {
                syn::Data::Struct(s) => s.fields.iter().collect(),
                syn::Data::Enum(e) => e.variants.iter().filter(|v| !out_of_use(&v.attrs)).flat_map(|v| v.fields.iter()).collect(),
                syn::Data::Union(_) => return out,
            };
            let used: Vec<_> = fields.into_iter().filter(|f| !out_of_use(&f.attrs)).collect();
            for i in want {
                let Some(f) = used.get(*i) else { continue };
                let (a, b) = (f.span().start(), f.span().end());
                out.push((first + a.line - 1, a.column + 1, first + b.line - 1, b.column + 1));
            }
        }
    }
    out
}
fn out_of_use(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().replace(' ', "") == "any()"))
}
fn head(id: usize, uses: &BTreeSet<String>, scope: u8) -> String {
    let mut out = format!("pub mod m{id} {{\n");
    for u in uses {
        let _ = writeln!(out, "    #[allow(unused_imports)] {u}");
    }
    match scope {
        1 => out.push_str(sm::emit::DECOYS),
        2 => out.push_str(sm::emit::SHADOWS),
        _ => {}
    }
    out
}

fn dress(d: String, seed: u32) -> String {
    if seed == 0 { d } else { crate::dress::dress(&d, seed) }
}
fn sm_module(sc: &ss::SmSchema, id: usize, target: &str, o: &EmitOpts, kind: &str, place: Place) -> Bad {
    fn walk(sc: &ss::SmSchema, target: &str, o: &EmitOpts, uses: &mut BTreeSet<String>, defs: &mut String) {
        for s in &sc.subs {
            walk(s, target, o, uses, defs);
        }
        if sc.ident == target {
            defs.push_str(OPEN);
            defs.push_str(&dress(sm::emit::definition(sc, uses, o), sc.dress));
            defs.push_str(CLOSE);
        } else {
            defs.push_str(&sm::emit::definition(sc, uses, &EmitOpts::default()));
        }
    }
    let (mut uses, mut defs) = (BTreeSet::new(), String::new());
    walk(sc, target, o, &mut uses, &mut defs);
    finish(head(id, &uses, sc.scope) + &defs, kind, place)
}
fn node_module(sc: &ns::NSchema, id: usize, target: &str, o: &node::emit::NEmit, kind: &str, place: Place) -> Bad {
    fn walk(sc: &ns::NSchema, scope: u8, target: &str, o: &node::emit::NEmit, uses: &mut BTreeSet<String>, defs: &mut String) {
        for s in &sc.subs {
            walk(s, scope, target, o, uses, defs);
        }
        if sc.ident == target {
            defs.push_str(OPEN);
            defs.push_str(&dress(node::emit::definition(sc, scope, uses, o), sc.dress));
            defs.push_str(CLOSE);
        } else {
            defs.push_str(&node::emit::definition(sc, scope, uses, &Default::default()));
        }
    }
    let (mut uses, mut defs) = (BTreeSet::new(), String::new());
    walk(sc, sc.scope, target, o, &mut uses, &mut defs);
    finish(head(id, &uses, sc.scope) + &defs, kind, place)
}

