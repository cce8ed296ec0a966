//! Rust source of a definition deriving Parse and ToTokens.
use super::schema::*;
use crate::sm::emit::{Over, delimiters, head};
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Default)]
pub struct NEmit {
    /// implementations to use instead of the derives (C22)
    pub pasted: Option<String>,
    /// `dump` in `parse` / `to_tokens`
    pub dump_parse: bool,
    pub dump_to_tokens: bool,
    /// with `pasted`: which derives stay
    pub keep_parse: bool,
    pub keep_to_tokens: bool,
    pub over: Over,
}

fn spell(sc: u8, sp: u8, n: u8) -> u8 {
    // shadowed crates are only reachable through `::`
    if sc == 2 {
        match n {
            5 => [2, 4][sp as usize % 2],
            _ => 2,
        }
    } else {
        sp
    }
}

pub fn field_ty(sc: &NSchema, f: &NField, scope: u8, uses: &mut BTreeSet<String>) -> String {
    let mut add = |(t, u): (String, Option<String>)| {
        if let Some(u) = u {
            uses.insert(u);
        }
        t
    };
    let sp3 = spell(scope, f.spell, 3);
    let sp5 = spell(scope, f.spell, 5);
    let text = match &f.kind {
        FieldKind::Leaf(l) => add(l.ty(sp3)),
        FieldKind::OptLeaf(l) => format!("Option<{}>", add(l.ty(sp3))),
        FieldKind::Tok(t @ super::toks::Tok::Custom(_)) => add(t.ty(sp3)),
        FieldKind::Tok(t) => add(t.ty(sp5)),
        FieldKind::OptTok(t @ super::toks::Tok::Custom(_)) => format!("Option<{}>", add(t.ty(sp3))),
        FieldKind::OptTok(t) => format!("Option<{}>", add(t.ty(sp5))),
        FieldKind::Delim(c) => {
            let n = match c {
                '(' => "Paren",
                '[' => "Bracket",
                _ => "Brace",
            };
            match sp5 % 5 {
                0 => add((format!("token::{n}"), Some("use syn::token;".into()))),
                1 | 3 => format!("syn::token::{n}"),
                _ => format!("::syn::token::{n}"),
            }
        }
        FieldKind::MacroDelim => match sp3 % 3 {
            0 => add(("MacroDelimiter".into(), Some("use syn::MacroDelimiter;".into()))),
            1 => "syn::MacroDelimiter".into(),
            _ => "::syn::MacroDelimiter".into(),
        },
        FieldKind::Punct(l, t) => {
            let p = match if scope == 1 { 1 } else { sp3 % 3 } {
                0 => add(("Punctuated".into(), Some("use syn::punctuated::Punctuated;".into()))),
                1 => "syn::punctuated::Punctuated".into(),
                _ => "::syn::punctuated::Punctuated".into(),
            };
            let a = add(l.ty(sp3));
            let b = add(t.ty(if matches!(t, super::toks::Tok::Custom(_)) { sp3 } else { sp5 }));
            if sc.is_seen(f) { format!("{p}<::kit::types::Seen<{a}>, ::kit::types::Seen<{b}>>") } else { format!("{p}<{a}, {b}>") }
        }
        FieldKind::Sub(i) => sc.subs[*i].ident.clone(),
        FieldKind::BoxSub(i) => format!("Box<{}>", sc.subs[*i].ident),
        FieldKind::SelfBox => {
            if f.spell % 2 == 0 {
                "Box<Self>".into()
            } else {
                format!("Box<{}{}>", sc.ident, args(sc))
            }
        }
        FieldKind::Param(g) => {
            let g = &sc.generics[*g];
            match g.kind {
                GenKind::Type(..) => g.name.clone(),
                GenKind::Const => format!("::kit::types::Rep<{}>", g.name),
                GenKind::Lifetime => format!("::kit::types::Lt<{}>", g.name),
            }
        }
        FieldKind::Rest => if sp3 == 2 { "::proc_macro2::TokenStream".into() } else { "proc_macro2::TokenStream".into() },
        FieldKind::LookMacroDelim => add(crate::leaf::Leaf::LookMacroDelim.ty(if scope == 2 { [2, 5][f.spell as usize % 2] } else { f.spell })),
    };
    let text = if sc.is_seen(f) && !matches!(f.kind, FieldKind::Punct(..)) { format!("::kit::types::Seen<{text}>") } else { text };
    let life = sc.generics.iter().find(|g| g.kind == GenKind::Lifetime).map_or("'static", |g| &g.name);
    match f.wrap {
        1 => format!("::std::rc::Rc<{text}>"),
        2 => format!("&'static {text}"),
        3 => format!("Box<{text}>"),
        4 => format!("&{life} {text}"),
        _ => text,
    }
}

fn sym_attr(f: &NField) -> String {
    if f.syms.is_empty() {
        return String::new();
    }
    let cs: Vec<String> = f.syms.iter().map(|s| s.ch().to_string()).collect();
    let (a, b) = delimiters(f.noise & 128 != 0, f.noise);
    let comma = if f.noise & 4 != 0 { "," } else { "" };
    match f.sym_style {
        0 => format!("#[to_tokens{a}\"{}\"{comma}{b}] ", cs.concat()),
        1 => format!("#[to_tokens{a}{}{comma}{b}] ", cs.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(", ")),
        2 => cs.iter().map(|c| format!("#[to_tokens{a}\"{c}\"{b}] ")).collect(),
        _ if cs.len() > 1 => format!("#[to_tokens{a}\"{}\", \"{}\"{b}] ", cs[0], cs[1..].concat()),
        _ => format!("#[to_tokens{a}r#\"{}\"#{b}] ", cs.concat()),
    }
}

fn field_attrs(f: &NField, parse: bool, to_tokens: bool) -> String {
    let mut s = String::new();
    if f.noise & 1 != 0 {
        s.push_str("/// doc\n        ");
    }
    let mut ps = Vec::new();
    if f.peek {
        ps.push("peek");
    }
    if f.any {
        ps.push("any");
    }
    if matches!(f.kind, FieldKind::Punct(..)) {
        ps.push("terminated");
    }
    if f.spell % 2 == 1 {
        ps.reverse();
    }
    let comma = if f.noise & 4 != 0 { "," } else { "" };
    let (a, b) = delimiters(f.noise & 128 != 0, f.noise);
    let p = if ps.is_empty() || !parse {
        String::new()
    } else if f.noise & 16 != 0 {
        ps.iter().map(|p| format!("#[parse{a}{p}{b}] ")).collect()
    } else {
        format!("#[parse{a}{}{comma}{b}] ", ps.join(", "))
    };
    let mut t = if to_tokens { sym_attr(f) } else { String::new() };
    // helper attributes without arguments mean nothing
    let mut p = p;
    let empty = |on: bool, at: &mut String, name: &str| {
        if on {
            let e = format!("#[{name}{a}{b}] ");
            if f.noise & 1 != 0 { at.insert_str(0, &e) } else { at.push_str(&e) }
        }
    };
    empty(parse && f.noise & 32 != 0, &mut p, "parse");
    empty(to_tokens && f.noise & 64 != 0, &mut t, "to_tokens");
    if f.noise & 8 != 0 {
        s.push_str(&p);
        s.push_str(&t);
    } else {
        s.push_str(&t);
        s.push_str(&p);
    }
    if f.noise & 2 != 0 {
        s.push_str("#[allow(dead_code)] ");
    }
    s
}

fn args(sc: &NSchema) -> String {
    if sc.generics.is_empty() {
        return String::new();
    }
    format!("<{}>", sc.generics.iter().map(|g| g.name.clone()).collect::<Vec<_>>().join(", "))
}
/// (declaration, where clause) with an optional further bound on types
fn decl(sc: &NSchema, extra: Option<&str>, defaults: bool) -> (String, String) {
    if sc.generics.is_empty() {
        return (String::new(), String::new());
    }
    let both = ["::syn::parse::Parse + ::quote::ToTokens", "::syn::parse::Parse", "::quote::ToTokens"][sc.role as usize % 3];
    let (one, two) = [("::syn::parse::Parse", "::quote::ToTokens"), ("::syn::parse::Parse", "Sized"), ("Sized", "::quote::ToTokens")][sc.role as usize % 3];
    let mut ps = Vec::new();
    let mut ws = Vec::new();
    for g in &sc.generics {
        match &g.kind {
            GenKind::Lifetime => ps.push(g.name.clone()),
            GenKind::Const => ps.push(format!("const {}: usize", g.name)),
            GenKind::Type(_, b) => {
                match b % 4 {
                    0 => ps.push(format!("{}: {both}", g.name)),
                    1 => {
                        ps.push(g.name.clone());
                        ws.push(format!("{}: {both}", g.name));
                    }
                    2 => ps.push(if defaults { format!("{}: {both} = ::syn::LitInt", g.name) } else { format!("{}: {both}", g.name) }),
                    _ => {
                        ps.push(format!("{}: {one}", g.name));
                        ws.push(format!("{}: {two}", g.name));
                        ws.push("Vec<u8>: Sized".into());
                    }
                }
                if let Some(e) = extra {
                    ws.push(format!("{}: {e}", g.name));
                }
            }
        }
    }
    // defaults must be trailing
    if defaults {
        if let Some(i) = ps.iter().position(|p| p.contains(" = ")) {
            if ps[i + 1..].iter().any(|p| !p.contains(" = ")) {
                ps[i] = ps[i].split(" = ").next().unwrap().to_string();
            }
        }
    }
    (format!("<{}>", ps.join(", ")), if ws.is_empty() { String::new() } else { format!("where {} ", ws.join(", ")) })
}

fn body(sc: &NSchema, v: &NVariant, scope: u8, in_enum: bool, o: &NEmit, n: &mut usize, uses: &mut BTreeSet<String>) -> String {
    let mut b = String::new();
    for f in &v.fields {
        let ty = o.over.on_type(*n, field_ty(sc, f, scope, uses));
        // helper attributes are only known together with the derive
        let (parse, to_tokens) = match (&o.pasted, &o.over.derives) {
            (Some(_), _) => (o.keep_parse, o.keep_parse || o.keep_to_tokens),
            (_, Some(d)) => (d.contains(&"Parse"), true),
            _ => (sc.role != 2, true),
        };
        let at = o.over.on_field(*n, field_attrs(f, parse, to_tokens));
        *n += 1;
        let vis = if in_enum { "" } else { ["pub ", "pub(crate) ", ""][f.vis as usize % 3] };
        match &f.ident {
            Some(i) => {
                let _ = writeln!(b, "        {at}{vis}{i}: {ty},");
            }
            None => {
                let _ = writeln!(b, "        {at}{vis}{ty},");
            }
        }
    }
    b
}

pub fn definition(sc: &NSchema, scope: u8, uses: &mut BTreeSet<String>, o: &NEmit) -> String {
    let mut s = String::new();
    if sc.noise & 1 != 0 {
        s.push_str("    /// A documented type.\n");
    }
    let mut n = 0;
    if o.pasted.is_some() {
        if o.keep_parse {
            s.push_str("    #[derive(::structmeta::Parse)]\n");
        }
        if o.keep_to_tokens {
            s.push_str("    #[derive(::structmeta::ToTokens)]\n");
        }
    } else if let Some(d) = &o.over.derives {
        let d: Vec<String> = d.iter().map(|d| format!("::structmeta::{d}")).collect();
        let _ = writeln!(s, "    #[derive({})]", d.join(", "));
    } else {
        let d = if scope == 2 { 4 } else { sc.derive_spell };
        let only = ["", "Parse", "ToTokens"][sc.role as usize % 3];
        match d % 6 {
            1 | 2 if sc.role != 0 => {
                uses.insert(format!("use structmeta::{only} as Only{only};"));
                let _ = writeln!(s, "    #[derive(Only{only})]");
            }
            d if sc.role != 0 => {
                let _ = writeln!(s, "    #[derive({}structmeta::{only})]", if d > 2 { "::" } else { "" });
            }
            0 => s.push_str("    #[derive(structmeta::Parse, structmeta::ToTokens)]\n"),
            1 => {
                uses.insert("use structmeta::{Parse, ToTokens};".into());
                s.push_str("    #[derive(Parse, ToTokens)]\n");
            }
            2 => {
                uses.insert("use structmeta::{Parse, ToTokens};".into());
                s.push_str("    #[derive(ToTokens, Parse)]\n");
            }
            3 => s.push_str("    #[derive(::structmeta::ToTokens)]\n    #[derive(::structmeta::Parse)]\n"),
            4 => s.push_str("    #[derive(::structmeta::Parse, ::structmeta::ToTokens)]\n"),
            _ => s.push_str("    #[derive(structmeta::ToTokens, structmeta::Parse)]\n"),
        }
        let (a, b) = delimiters(sc.noise & 16 != 0, sc.noise);
        let empty = |on: bool, name: &str, s: &mut String| {
            if on {
                let _ = writeln!(s, "    #[{name}{a}{b}]");
            }
        };
        let (parse, to_tokens) = (sc.role != 2 && sc.noise & 4 != 0, sc.noise & 8 != 0);
        empty(parse && sc.noise & 1 != 0, "parse", &mut s);
        empty(to_tokens && sc.noise & 1 != 0, "to_tokens", &mut s);
        if o.dump_parse {
            let _ = writeln!(s, "    #[parse{a}dump{b}]");
        }
        if o.dump_to_tokens {
            let _ = writeln!(s, "    #[to_tokens{a}dump{b}]");
        }
        empty(parse && sc.noise & 1 == 0, "parse", &mut s);
        empty(to_tokens && sc.noise & 1 == 0, "to_tokens", &mut s);
    }
    for t in &o.over.top {
        let _ = writeln!(s, "    {t}");
    }
    if let Some(i) = &o.over.item {
        let _ = writeln!(s, "    {i}");
        return s;
    }
    let (g, w) = decl(sc, None, !sc.is_enum);
    if sc.is_enum {
        let _ = write!(s, "    pub enum {}{g} {w}{{\n", sc.ident);
        for (k, v) in sc.variants.iter().enumerate() {
            for a in o.over.variant.iter().filter(|a| a.0 == k) {
                let _ = writeln!(s, "        {}", a.1);
            }
            let b = body(sc, v, scope, true, o, &mut n, uses);
            match v.shape {
                Shape::Unit => {
                    let _ = writeln!(s, "        {},", v.ident);
                }
                Shape::Named => {
                    let _ = writeln!(s, "        {} {{\n{b}        }},", v.ident);
                }
                Shape::Tuple => {
                    let _ = writeln!(s, "        {}(\n{b}        ),", v.ident);
                }
            }
        }
        s.push_str("    }\n");
    } else {
        let v = &sc.variants[0];
        let b = body(sc, v, scope, false, o, &mut n, uses);
        match v.shape {
            Shape::Unit => {
                let _ = writeln!(s, "    pub struct {}{g};", sc.ident);
            }
            Shape::Named => {
                let _ = writeln!(s, "    pub struct {}{g} {w}{{\n{b}    }}", sc.ident);
            }
            Shape::Tuple => {
                let _ = writeln!(s, "    pub struct {}{g}(\n{b}    ) {w};", sc.ident);
            }
        }
    }
    if let Some(p) = &o.pasted {
        s.push_str(p);
        s.push('\n');
    }
    s
}

fn node_impl(sc: &NSchema) -> String {
    let (g, w) = decl(sc, Some("::kit::node::rt::Node"), false);
    let mut s = format!("    impl{g} ::kit::node::rt::Node for {}{} {w}{{\n", sc.ident, args(sc));
    let pat = |v: &NVariant, path: &str| -> String {
        let names: Vec<String> = (0..v.fields.len()).map(|i| format!("f{i}")).collect();
        match v.shape {
            Shape::Unit => path.to_string(),
            Shape::Tuple => format!("{path}({})", names.join(", ")),
            Shape::Named => format!("{path} {{ {} }}", v.fields.iter().zip(&names).map(|(f, n)| format!("{}: {n}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
        }
    };
    let list = |v: &NVariant| -> String { (0..v.fields.len()).map(|i| format!("::kit::node::rt::Node::obs(f{i})")).collect::<Vec<_>>().join(", ") };
    let make = |v: &NVariant, path: &str| -> String {
        let b = "::kit::node::rt::Node::build(b)";
        match v.shape {
            Shape::Unit => path.to_string(),
            Shape::Tuple => format!("{path}({})", v.fields.iter().map(|_| b).collect::<Vec<_>>().join(", ")),
            Shape::Named => format!("{path} {{ {} }}", v.fields.iter().map(|f| format!("{}: {b}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
        }
    };
    s.push_str("        fn obs(&self) -> ::kit::val::Val {\n");
    if sc.is_enum {
        s.push_str("            match self {\n");
        for (k, v) in sc.variants.iter().enumerate() {
            let _ = writeln!(s, "                {} => ::kit::val::Val::Var({k}, ::std::vec![{}]),", pat(v, &format!("Self::{}", v.ident)), list(v));
        }
        if sc.variants.is_empty() {
            s.push_str("                _ => ::std::unreachable!(),\n");
        }
        s.push_str("            }\n");
    } else {
        let v = &sc.variants[0];
        let _ = writeln!(s, "            let {} = self;\n            ::kit::val::Val::Sub(::std::vec![{}])", pat(v, "Self"), list(v));
    }
    s.push_str("        }\n        fn build(b: &mut ::kit::node::rt::Builder) -> Self {\n");
    if sc.is_enum {
        s.push_str("            match b.variant() {\n");
        for (k, v) in sc.variants.iter().enumerate() {
            let _ = writeln!(s, "                {k} => {},", make(v, &format!("Self::{}", v.ident)));
        }
        s.push_str("                _ => ::std::unreachable!(),\n            }\n");
    } else {
        let _ = writeln!(s, "            {}", make(&sc.variants[0], "Self"));
    }
    s.push_str("        }\n    }\n");
    s
}

fn concrete(sc: &NSchema) -> String {
    if sc.generics.is_empty() {
        return sc.ident.clone();
    }
    let a: Vec<String> = sc
        .generics
        .iter()
        .map(|g| match &g.kind {
            GenKind::Type(l, _) => l.ty(2).0,
            GenKind::Const => "2".into(),
            GenKind::Lifetime => "'static".into(),
        })
        .collect();
    format!("{}<{}>", sc.ident, a.join(", "))
}

fn walk(sc: &NSchema, scope: u8, uses: &mut BTreeSet<String>, defs: &mut String, opts: &dyn Fn(&NSchema) -> NEmit) {
    for s in &sc.subs {
        walk(s, scope, uses, defs, opts);
    }
    let o = opts(sc);
    let d = definition(sc, scope, uses, &o);
    defs.push_str(&if o.pasted.is_none() { around(d, sc) } else { d });
    defs.push_str(&node_impl(sc));
}

/// one module `m<id>` with the definition and its nested ones only
pub fn plain(sc: &NSchema, id: usize) -> String {
    let mut uses = BTreeSet::new();
    let mut defs = String::new();
    fn walk(sc: &NSchema, scope: u8, uses: &mut BTreeSet<String>, defs: &mut String) {
        sc.subs.iter().for_each(|s| walk(s, scope, uses, defs));
        let d = definition(sc, scope, uses, &NEmit::default());
        defs.push_str(&around(d, sc));
    }
    walk(sc, sc.scope, &mut uses, &mut defs);
    format!("{}{defs}}}\n", head(id, &uses, sc.scope))
}
/// one module `m<id>` with the definition and `OPS`
pub fn module(sc: &NSchema, id: usize, opts: &dyn Fn(&NSchema) -> NEmit) -> String {
    let mut uses = BTreeSet::new();
    let mut defs = String::new();
    walk(sc, sc.scope, &mut uses, &mut defs, opts);
    let mut out = head(id, &uses, sc.scope);
    out.push_str(&defs);
    let c = concrete(sc);
    let p = ["parse_with", "parse_only", "no_parse"][sc.role as usize % 3];
    let b = ["build_with", "build_only", "build_with"][sc.role as usize % 3];
    let _ = write!(
        out,
        "    pub const OPS: ::kit::node::rt::NodeOps = ::kit::node::rt::NodeOps {{ parse: ::kit::node::rt::{p}::<{c}>, build: ::kit::node::rt::{b}::<{c}> }};\n}}\n"
    );
    out
}

pub fn source(sc: &NSchema) -> String {
    let mut s = String::new();
    for sub in &sc.subs {
        s.push_str(&source(sub));
    }
    let mut u = BTreeSet::new();
    let d = definition(sc, sc.scope, &mut u, &NEmit::default());
    s.push_str(&around(d, sc));
    s
}

/// the definition as it stands in the source
fn around(d: String, sc: &NSchema) -> String {
    let d = if sc.dress != 0 { crate::dress::dress(&d, sc.dress) } else { d };
    if sc.mac != 0 { crate::mac::wrap(&d, sc.mac) } else { d }
}
