//! Rust source of a StructMeta definition and its observation function.
use super::schema::*;
use crate::leaf::Leaf;
use std::collections::BTreeSet;
use std::fmt::Write;

fn special(plain: &str, opts: &[(&str, Option<&str>)], i: u8) -> (String, Option<String>) {
    if i == 0 {
        return (plain.to_string(), None);
    }
    let (a, b) = opts[(i as usize - 1) % opts.len()];
    (a.to_string(), b.map(|b| b.to_string()))
}
pub fn option_path(i: u8) -> (String, Option<String>) {
    special("Option", &[
        ("std::option::Option", None), ("core::option::Option", None), ("option::Option", Some("use std::option;")),
        ("::std::option::Option", None), ("::core::option::Option", None), ("Option", Some("use std::option::Option;")),
    ], i)
}
pub fn vec_path(i: u8) -> (String, Option<String>) {
    special("Vec", &[
        ("std::vec::Vec", None), ("alloc::vec::Vec", Some("extern crate alloc;")), ("vec::Vec", Some("use std::vec;")),
        ("::std::vec::Vec", None), ("Vec", Some("use std::vec::Vec;")),
    ], i)
}
pub fn map_path(i: u8) -> (String, Option<String>) {
    if i == 0 {
        return ("HashMap".into(), Some("use std::collections::HashMap;".into()));
    }
    special("", &[
        ("std::collections::HashMap", None), ("::std::collections::HashMap", None),
        ("collections::HashMap", Some("use std::collections;")),
        ("std::collections::hash_map::HashMap", None), ("hash_map::HashMap", Some("use std::collections::hash_map;")),
        ("::std::collections::hash_map::HashMap", None),
    ], i)
}
pub fn string_path(i: u8) -> (String, Option<String>) {
    special("String", &[
        ("std::string::String", None), ("alloc::string::String", Some("extern crate alloc;")),
        ("string::String", Some("use std::string;")), ("::std::string::String", None), ("String", Some("use std::string::String;")),
    ], i)
}
pub fn bool_path(i: u8) -> (String, Option<String>) {
    special("bool", &[
        ("std::primitive::bool", None), ("core::primitive::bool", None), ("primitive::bool", Some("use std::primitive;")),
        ("::core::primitive::bool", None),
    ], i)
}
pub fn sm_path(name: &str, i: u8) -> (String, Option<String>) {
    match i % 3 {
        0 => (name.to_string(), Some(format!("use structmeta::{name};"))),
        1 => (format!("structmeta::{name}"), None),
        _ => (format!("::structmeta::{name}"), None),
    }
}

/// Text of the field type; `uses` collects the imports the spelling needs.
pub fn field_ty(sc: &SmSchema, f: &Field, uses: &mut BTreeSet<String>) -> String {
    let sp = &in_scope(&f.spell, sc.scope);
    let mut add = |(t, u): (String, Option<String>)| {
        if let Some(u) = u {
            uses.insert(u);
        }
        t
    };
    let leaf = match &f.leaf {
        LeafTy::L(l) if sc.seen => format!("::kit::types::Seen<{}>", add(l.ty(sp.leaf))),
        LeafTy::L(l) => add(l.ty(sp.leaf)),
        LeafTy::Sub(i) => sc.subs[*i].ident.clone(),
        LeafTy::Param(i) => {
            let g = &sc.generics[*i];
            match g.form() {
                GenForm::Type => g.name.clone(),
                GenForm::Assoc => match sp.leaf % 3 {
                    0 => format!("<{}>::{}", g.name, g.leaf.assoc()),
                    1 => format!("{}::{}", g.name, g.leaf.assoc()),
                    _ => format!("<{} as ::kit::types::look::Family>::{}", g.name, g.leaf.assoc()),
                },
                GenForm::Lifetime => format!("::kit::types::Lt<{}>", g.name),
                GenForm::Const => format!("::kit::types::Rep<{}>", if sp.leaf % 2 == 1 { format!("{{ {} }}", g.name) } else { g.name.clone() }),
            }
        }
    };
    let t = match f.style {
        Style::Bool => add(bool_path(sp.boolean)),
        Style::Flag => add(sm_path("Flag", sp.sm)),
        Style::V => leaf,
        Style::NV => format!("{}<{leaf}>", add(sm_path("NameValue", sp.sm))),
        Style::NVO => format!("{}<{}<{leaf}>>", add(sm_path("NameValue", sp.sm)), add(option_path(sp.opt))),
        Style::NA => format!("{}<{leaf}>", add(sm_path("NameArgs", sp.sm))),
        Style::NAO => format!("{}<{}<{leaf}>>", add(sm_path("NameArgs", sp.sm)), add(option_path(sp.opt))),
        Style::L => format!("{}<{leaf}>", add(vec_path(sp.vec))),
        Style::NAL => format!("{}<{}<{leaf}>>", add(sm_path("NameArgs", sp.sm)), add(vec_path(sp.vec))),
        Style::NAOL => {
            format!("{}<{}<{}<{leaf}>>>", add(sm_path("NameArgs", sp.sm)), add(option_path(sp.opt)), add(vec_path(sp.vec)))
        }
    };
    match f.role {
        Role::Opt => format!("{}<{t}>", add(option_path(sp.opt))),
        Role::Rest => format!("{}<{}, {t}>", add(map_path(sp.map)), add(string_path(sp.string))),
        _ if f.opt => format!("{}<{t}>", add(option_path(sp.opt))),
        _ => t,
    }
}

fn name_literal(name: &str, how: u8) -> String {
    match how {
        1 => format!("r\"{name}\""),
        2 => {
            let mut s = String::from("\"");
            for (i, c) in name.chars().enumerate() {
                if i == 0 {
                    write!(s, "\\u{{{:x}}}", c as u32).unwrap();
                } else {
                    s.push(c);
                }
            }
            s.push('"');
            s
        }
        _ => format!("\"{name}\""),
    }
}

/// around the arguments of an attribute, which may be enclosed by any kind
pub fn delimiters(odd: bool, which: u8) -> (&'static str, &'static str) {
    match (odd, which & 1) {
        (false, _) => ("(", ")"),
        (_, 0) => ("[", "]"),
        _ => ("{", "}"),
    }
}

fn field_attrs(f: &Field) -> String {
    let mut s = String::new();
    if f.noise & 1 != 0 {
        s.push_str("/// doc\n        ");
    }
    let comma = if f.noise & 4 != 0 { "," } else { "" };
    let (a, b) = delimiters(f.noise & 32 != 0, f.noise);
    if f.noise & 8 != 0 {
        let _ = write!(s, "#[struct_meta{a}{b}] ");
    }
    if let Some(n) = &f.name_attr {
        let _ = write!(s, "#[struct_meta{a}name = {}{comma}{b}] ", name_literal(n, f.name_lit));
    }
    if f.unnamed_attr {
        let _ = write!(s, "#[struct_meta{a}unnamed{comma}{b}] ");
    }
    if f.noise & 16 != 0 {
        let _ = write!(s, "#[struct_meta{a}{b}] ");
    }
    if f.noise & 2 != 0 {
        s.push_str("#[allow(dead_code)] ");
    }
    s
}

/// options for emission
#[derive(Clone, Default)]
pub struct EmitOpts {
    /// leave the derive out and put this implementation in its place (C22)
    pub pasted: Option<String>,
    /// extra struct-level struct_meta argument, e.g. "dump"
    pub extra_arg: Option<String>,
    pub over: Over,
}
/// changes that make a definition ill-formed (C20)
#[derive(Clone, Default, Debug)]
pub struct Over {
    /// further attributes of the item
    pub top: Vec<String>,
    /// further attributes by field (in the order of emission), before the others or after them
    pub field: Vec<(usize, String, bool)>,
    /// attributes of variants
    pub variant: Vec<(usize, String)>,
    /// the item instead of the struct or enum
    pub item: Option<String>,
    /// the traits to derive (Parse / ToTokens family)
    pub derives: Option<Vec<&'static str>>,
    /// in the type of this field, a type instead of `::syn::LitInt`
    pub retype: Option<(usize, String)>,
}
impl Over {
    pub fn on_type(&self, i: usize, ty: String) -> String {
        match &self.retype {
            Some((k, t)) if *k == i => ty.replacen("::syn::LitInt", t, 1),
            _ => ty,
        }
    }
    pub fn on_field(&self, i: usize, attrs: String) -> String {
        let mut a = attrs;
        for (k, t, before) in &self.field {
            if *k == i {
                a = if *before { format!("{t} {a}") } else { format!("{a}{t} ") };
            }
        }
        a
    }
}

/// the struct definition itself (attributes, generics, fields)
pub fn definition(sc: &SmSchema, uses: &mut BTreeSet<String>, o: &EmitOpts) -> String {
    let mut s = String::new();
    if sc.noise & 1 != 0 {
        s.push_str("    /// A documented type.\n");
    }
    let pasted = o.pasted.is_some();
    if !pasted {
        match if sc.scope == 2 { 2 } else { sc.derive_spell % 3 } {
            0 => s.push_str("    #[derive(structmeta::StructMeta)]\n"),
            1 => {
                uses.insert("use structmeta::StructMeta;".into());
                s.push_str("    #[derive(StructMeta)]\n");
            }
            _ => s.push_str("    #[derive(::structmeta::StructMeta)]\n"),
        }
        let mut args = Vec::new();
        if sc.filter {
            args.push(format!("name_filter = {}", name_literal("snake_case", sc.noise >> 6)));
        }
        if let Some(x) = &o.extra_arg {
            if sc.noise & 1 != 0 { args.insert(0, x.clone()) } else { args.push(x.clone()) }
        }
        let (a, b) = delimiters(sc.noise & 32 != 0, sc.noise);
        if sc.noise & 8 != 0 {
            let _ = writeln!(s, "    #[struct_meta{a}{b}]");
        }
        if !args.is_empty() {
            let comma = if sc.noise & 2 != 0 { "," } else { "" };
            if sc.noise & 4 != 0 && args.len() > 1 {
                for x in args {
                    let _ = writeln!(s, "    #[struct_meta{a}{x}{b}]");
                }
            } else {
                let _ = writeln!(s, "    #[struct_meta{a}{}{comma}{b}]", args.join(", "));
            }
        }
        if sc.noise & 16 != 0 {
            let _ = writeln!(s, "    #[struct_meta{a}{b}]");
        }
    }
    for t in &o.over.top {
        let _ = writeln!(s, "    {t}");
    }
    if let Some(i) = &o.over.item {
        let _ = writeln!(s, "    {i}");
        return s;
    }
    let (decl, wher) = generics_decl(sc);
    let _ = write!(s, "    pub struct {}{decl}", sc.ident);
    let mut body = String::new();
    for (n, f) in sc.fields.iter().enumerate() {
        let ty = o.over.on_type(n, field_ty(sc, f, uses));
        let mut attrs = o.over.on_field(n, field_attrs(f));
        if pasted {
            // helper attributes are only known together with the derive
            attrs.clear();
        }
        let vis = ["pub ", "pub(crate) ", ""][f.vis as usize % 3];
        match &f.ident {
            Some(i) => {
                let _ = writeln!(body, "        {attrs}{vis}{i}: {ty},");
            }
            None => {
                let _ = writeln!(body, "        {attrs}{vis}{ty},");
            }
        }
    }
    match sc.kind {
        Kind::Unit => s.push_str(";\n"),
        Kind::Named => {
            let _ = write!(s, " {wher}{{\n{body}    }}\n");
        }
        Kind::Tuple => {
            let _ = write!(s, "(\n{body}    ) {wher};\n");
        }
    }
    if let Some(p) = &o.pasted {
        s.push_str("    ");
        s.push_str(p);
        s.push('\n');
    }
    s
}

/// lifetimes come first
fn in_order(v: &[Generic]) -> impl Iterator<Item = &Generic> {
    let lt = |g: &&Generic| g.form() == GenForm::Lifetime;
    v.iter().filter(lt).chain(v.iter().filter(move |g| !lt(g)))
}
fn generics_decl(sc: &SmSchema) -> (String, String) {
    if sc.generics.is_empty() {
        return (String::new(), String::new());
    }
    let mut ps = Vec::new();
    let mut ws = Vec::new();
    for g in in_order(&sc.generics) {
        match g.form() {
            GenForm::Lifetime => {
                ps.push(if g.bound % 2 == 1 { format!("{}: 'static", g.name) } else { g.name.clone() });
                continue;
            }
            GenForm::Const => {
                ps.push(format!("const {}: usize", g.name));
                continue;
            }
            GenForm::Assoc => {
                if g.bound % 2 == 1 {
                    ps.push(g.name.clone());
                    ws.push(format!("{}: ::kit::types::look::Family", g.name));
                } else {
                    ps.push(format!("{}: ::kit::types::look::Family", g.name));
                }
                continue;
            }
            GenForm::Type => {}
        }
        let b = "::syn::parse::Parse";
        match g.bound % 4 {
            0 => ps.push(format!("{}: {b}", g.name)),
            1 => {
                ps.push(g.name.clone());
                ws.push(format!("{}: {b}", g.name));
            }
            2 => ps.push(format!("{}: {b} = ::syn::LitInt", g.name)),
            _ => {
                ps.push(format!("{}: {b} + Clone", g.name));
                ws.push(format!("{}: ::std::fmt::Debug", g.name));
            }
        }
    }
    // parameters with a default must come last: give every later one a default too
    let mut seen = false;
    for p in ps.iter_mut() {
        if p.contains(" = ") {
            seen = true;
        } else if seen {
            p.push_str(if p.starts_with("const") { " = 2" } else if p.contains("Family") || ws.contains(&format!("{p}: ::kit::types::look::Family")) { " = ::kit::types::look::Fam" } else { " = ::syn::LitInt" });
        }
    }
    let w = if ws.is_empty() { String::new() } else { format!("where {} ", ws.join(", ")) };
    (format!("<{}>", ps.join(", ")), w)
}

fn obs_expr(sc: &SmSchema, v: &str) -> String {
    let items: Vec<String> = sc
        .fields
        .iter()
        .enumerate()
        .map(|(i, f)| match &f.ident {
            Some(id) => format!("glue::Obs::obs(&{v}.{id})"),
            None => format!("glue::Obs::obs(&{v}.{i})"),
        })
        .collect();
    format!("vec![{}]", items.join(", "))
}

/// items placed in the module to shadow names a careless expansion might use
pub const DECOYS: &str = "    #[allow(dead_code)] type Result<T> = T;\n    #[allow(dead_code)] trait Parse {}\n    #[allow(dead_code)] trait ToTokens {}\n    #[allow(dead_code)] struct Error;\n    #[allow(dead_code)] struct TokenStream;\n    #[allow(dead_code)] struct Span;\n    #[allow(dead_code)] struct ParseStream;\n    #[allow(dead_code)] struct Token;\n    #[allow(dead_code)] struct NameIndex;\n    #[allow(dead_code)] struct Punctuated;\n    #[allow(dead_code)] fn try_parse_name() {}\n    #[allow(dead_code)] fn parse() {}\n";

/// modules named like the crates the expansion refers to
pub const SHADOWS: &str = "    #[allow(dead_code)] mod syn {}\n    #[allow(dead_code)] mod structmeta {}\n    #[allow(dead_code)] mod quote {}\n    #[allow(dead_code)] mod proc_macro2 {}\n    #[allow(dead_code)] mod std {}\n    #[allow(dead_code)] mod core {}\n    #[allow(dead_code)] mod helpers {}\n";

/// spellings that still work next to `SHADOWS`
fn in_scope(sp: &Spell, scope: u8) -> Spell {
    if scope != 2 {
        return sp.clone();
    }
    let two = |v: u8, a: u8, b: u8| if v % 2 == 0 { a } else { b };
    Spell {
        opt: [0, 4, 5][sp.opt as usize % 3],
        vec: two(sp.vec, 0, 4),
        map: two(sp.map, 2, 6),
        string: two(sp.string, 0, 4),
        sm: 2,
        boolean: two(sp.boolean, 0, 4),
        leaf: [2, 5, 26][sp.leaf as usize % 3],
    }
}

/// one module `m<id>` with the definition and its nested ones only
pub fn plain(sc: &SmSchema, id: usize) -> String {
    let mut uses = BTreeSet::new();
    let mut defs = String::new();
    fn walk(sc: &SmSchema, uses: &mut BTreeSet<String>, defs: &mut String) {
        sc.subs.iter().for_each(|s| walk(s, uses, defs));
        let d = definition(sc, uses, &EmitOpts::default());
        defs.push_str(&around(d, sc));
    }
    walk(sc, &mut uses, &mut defs);
    format!("{}{defs}}}\n", head(id, &uses, sc.scope))
}
pub fn head(id: usize, uses: &BTreeSet<String>, scope: u8) -> String {
    let mut out = format!("pub mod m{id} {{\n");
    for u in uses {
        let _ = writeln!(out, "    #[allow(unused_imports)] {u}");
    }
    match scope {
        1 => out.push_str(DECOYS),
        2 => out.push_str(SHADOWS),
        _ => {}
    }
    out
}

/// one module `m<id>` with the definition, its nested ones, and `fn parse`
pub fn module(sc: &SmSchema, id: usize, opts: &dyn Fn(&SmSchema) -> EmitOpts) -> String {
    let mut uses = BTreeSet::new();
    let mut defs = String::new();
    fn walk(sc: &SmSchema, uses: &mut BTreeSet<String>, defs: &mut String, opts: &dyn Fn(&SmSchema) -> EmitOpts) {
        for s in &sc.subs {
            walk(s, uses, defs, opts);
            let _ = write!(
                defs,
                "    impl glue::Obs for {} {{ fn obs(&self) -> kit::val::Val {{ kit::val::Val::Sub({}) }} }}\n",
                s.ident,
                obs_expr(s, "self")
            );
        }
        let o = opts(sc);
        let d = definition(sc, uses, &o);
        defs.push_str(&if o.pasted.is_none() { around(d, sc) } else { d });
    }
    walk(sc, &mut uses, &mut defs, opts);
    let conc = if sc.generics.is_empty() {
        sc.ident.clone()
    } else {
        let a: Vec<String> = in_order(&sc.generics)
            .map(|g| match g.form() {
                GenForm::Type => concrete(g.leaf, &mut uses),
                GenForm::Assoc => "::kit::types::look::Fam".into(),
                GenForm::Lifetime => "'static".into(),
                GenForm::Const => "2".into(),
            })
            .collect();
        format!("{}<{}>", sc.ident, a.join(", "))
    };
    let mut out = head(id, &uses, sc.scope);
    out.push_str(&defs);
    let mut list = String::new();
    let mut parser = |fname: &str, name: &str, ty: &str, obs: String| {
        let _ = write!(
            out,
            "    pub fn {fname}(input: ::syn::parse::ParseStream) -> ::syn::Result<::std::vec::Vec<kit::val::Val>> {{\n        let v: {ty} = input.parse()?;\n        Ok({obs})\n    }}\n"
        );
        let _ = write!(list, "({name:?}, {fname} as kit::sm::judge::PFn), ");
    };
    parser("parse_top", &sc.ident, &conc, obs_expr(sc, "v"));
    fn all<'a>(sc: &'a SmSchema, v: &mut Vec<&'a SmSchema>) {
        for s in &sc.subs {
            v.push(s);
            all(s, v);
        }
    }
    let mut subs = Vec::new();
    all(sc, &mut subs);
    for s in subs {
        parser(&format!("parse_{}", s.ident), &s.ident, &s.ident, obs_expr(s, "v"));
    }
    let _ = write!(out, "    pub const P: &[(&str, kit::sm::judge::PFn)] = &[{list}];\n}}\n");
    out
}
fn concrete(l: Leaf, uses: &mut BTreeSet<String>) -> String {
    let (t, u) = l.ty(2);
    uses.extend(u);
    t
}

/// readable definition for reports and replay files
pub fn source(sc: &SmSchema) -> String {
    let mut u = BTreeSet::new();
    let mut s = String::new();
    for sub in &sc.subs {
        s.push_str(&source(sub));
    }
    let d = definition(sc, &mut u, &EmitOpts::default());
    s.push_str(&around(d, sc));
    if let (Some(d), false) = (u.iter().find(|u| u.starts_with("#[derive")), s.contains("pub struct Dp ")) {
        s = format!("    {d}\n{s}");
    }
    s
}

/// the definition as it stands in the source
fn around(d: String, sc: &SmSchema) -> String {
    let d = if sc.dress != 0 { crate::dress::dress(&d, sc.dress) } else { d };
    if sc.mac != 0 { crate::mac::wrap(&d, sc.mac) } else { d }
}
