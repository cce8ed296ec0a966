//! C22: definitions asking for their generated code, and the code pasted back.
use crate::def::Def;
use crate::node::{emit as ne, schema::NSchema};
use crate::report::hash;
use crate::sm::{emit as se, schema::SmSchema};
use std::collections::BTreeMap;

/// what is dumped for one type
#[derive(Clone, Copy, Debug, Default)]
pub struct Choice {
    /// StructMeta, or Parse
    pub parse: bool,
    pub to_tokens: bool,
    pub layout: u8,
}

/// implementations by (type, trait)
pub type Code = BTreeMap<(String, String), String>;

fn all_sm<'a>(s: &'a SmSchema, out: &mut Vec<&'a SmSchema>) {
    out.push(s);
    s.subs.iter().for_each(|s| all_sm(s, out));
}
fn all_node<'a>(s: &'a NSchema, out: &mut Vec<&'a NSchema>) {
    out.push(s);
    s.subs.iter().for_each(|s| all_node(s, out));
}

/// the choice depends on the text of the definition only
pub fn plan(d: &Def) -> BTreeMap<String, Choice> {
    let mut h = hash(&[&d.source()]);
    let mut next = |n: u64| {
        h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (h >> 29);
        (h >> 13) % n
    };
    let mut out = BTreeMap::new();
    match d {
        Def::Sm(s) => {
            let mut v = Vec::new();
            all_sm(s, &mut v);
            let top = v.len() == 1 || next(3) > 0;
            for (i, s) in v.iter().enumerate() {
                let parse = if i == 0 { top } else if i == 1 && !top { true } else { next(2) == 0 };
                out.insert(s.ident.clone(), Choice { parse, to_tokens: false, layout: next(8) as u8 });
            }
        }
        Def::Node(s) => {
            let mut v = Vec::new();
            all_node(s, &mut v);
            let top = v.len() == 1 || next(3) > 0;
            for (i, s) in v.iter().enumerate() {
                let which = if i == 0 && top || i == 1 && !top { 1 + next(3) } else if i == 0 { 0 } else { next(4) };
                out.insert(s.ident.clone(), Choice { parse: which & 1 != 0, to_tokens: which & 2 != 0, layout: next(8) as u8 });
            }
        }
        Def::Algebra(_) => {}
    }
    out
}

/// (type, trait) pairs whose code is asked for
pub fn wanted(d: &Def) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (t, c) in plan(d) {
        if c.parse {
            v.push((t.clone(), "Parse".to_string()));
        }
        if c.to_tokens {
            v.push((t, "ToTokens".to_string()));
        }
    }
    v
}

fn lines(attr: &str, layout: u8) -> Vec<String> {
    match layout % 4 {
        0 => vec![format!("#[{attr}(dump)]")],
        1 => vec![format!("#[{attr}(dump,)]")],
        2 => vec![format!("#[{attr}(dump)]"), format!("#[{attr}()]")],
        _ => vec![format!("#[{attr}()]"), format!("#[{attr}(dump)]")],
    }
}

fn sm_asking(c: Choice) -> se::EmitOpts {
    let mut o = se::EmitOpts::default();
    if c.parse {
        if c.layout < 4 {
            // next to `name_filter`
            o.extra_arg = Some("dump".into());
        } else {
            o.over.top = lines("struct_meta", c.layout);
        }
    }
    o
}
fn node_asking(c: Choice) -> ne::NEmit {
    let mut o = ne::NEmit::default();
    if c.parse {
        o.over.top.extend(lines("parse", c.layout));
    }
    if c.to_tokens {
        o.over.top.extend(lines("to_tokens", c.layout / 2));
    }
    o
}

/// the definition with its `dump` arguments
pub fn asking(d: &Def, id: usize) -> String {
    let p = plan(d);
    match d {
        Def::Sm(s) => se::module(s, id, &|s| sm_asking(p[&s.ident])),
        Def::Node(s) => ne::module(s, id, &|s| node_asking(p[&s.ident])),
        Def::Algebra(_) => String::new(),
    }
}

/// the definition asking for all of its code
pub fn asking_all(d: &Def, id: usize) -> String {
    match d {
        Def::Sm(s) => se::module(s, id, &|_| sm_asking(Choice { parse: true, to_tokens: false, layout: 0 })),
        Def::Node(s) => ne::module(s, id, &|_| node_asking(Choice { parse: true, to_tokens: true, layout: 0 })),
        Def::Algebra(_) => String::new(),
    }
}

/// the definition followed by the same one with the code in place of the derives
pub fn with_pasted(d: &Def, id: usize, code: &Code) -> String {
    let p = plan(d);
    let get = |t: &str, tr: &str| code.get(&(t.to_string(), tr.to_string())).cloned().unwrap_or_default();
    let text = match d {
        Def::Sm(s) => se::module(s, id, &|s| {
            let mut o = se::EmitOpts::default();
            if p[&s.ident].parse {
                o.pasted = Some(get(&s.ident, "Parse"));
            }
            o
        }),
        Def::Node(s) => ne::module(s, id, &|s| {
            let c = p[&s.ident];
            let mut o = ne::NEmit::default();
            if c.parse || c.to_tokens {
                let mut t = String::new();
                if c.parse {
                    t.push_str(&get(&s.ident, "Parse"));
                    t.push('\n');
                }
                if c.to_tokens {
                    t.push_str(&get(&s.ident, "ToTokens"));
                }
                o.pasted = Some(t);
                o.keep_parse = !c.parse;
                o.keep_to_tokens = !c.to_tokens;
            }
            o
        }),
        Def::Algebra(_) => String::new(),
    };
    format!("{}{}", d.module(id), text.replacen(&format!("pub mod m{id} {{"), &format!("pub mod p{id} {{"), 1))
}

/// the implementations found in a compiler message
pub fn implementations(text: &str) -> Vec<((String, String), String)> {
    let mut out = Vec::new();
    let ends: Vec<usize> = [Some(text.len()), text.rfind('}').map(|i| i + 1)].into_iter().flatten().collect();
    let starts = text.char_indices().filter(|(i, c)| *c == '#' || *c == 'i' && text[*i..].starts_with("impl")).map(|x| x.0);
    for i in starts.take(40) {
        for e in &ends {
            let Some(part) = text.get(i..*e) else { continue };
            let Ok(f) = syn::parse_file(part) else { continue };
            for item in &f.items {
                let syn::Item::Impl(im) = item else { continue };
                let (Some((tr, _)), syn::Type::Path(ty)) = (&im.trait_, &*im.self_ty) else { continue };
                if let (Some(a), Some(b)) = (ty.path.segments.last(), tr.segments.last()) {
                    out.push(((a.ident.to_string(), b.ident.to_string()), part.to_string()));
                }
            }
            if !out.is_empty() {
                return out;
            }
        }
    }
    out
}
