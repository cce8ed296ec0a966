//! Value types of generated fields: how they are written in Rust source, how
//! values of them look, and how the reference model reads them (with syn).
use crate::tape::Src;
use crate::types;
use crate::val::Val;
use serde::{Deserialize, Serialize};
use syn::parse::ParseStream;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Leaf {
    LitInt,
    LitStr,
    LitBool,
    LitChar,
    LitFloat,
    Lit,
    Ident,
    Expr,
    Type,
    Path,
    Lifetime,
    Kv,
    Rule,
    Rep2,
    Lt,
    /// `[1 2 3]`; every token that is no integer is reported
    Ints,
    TokenStream,
    /// may be nothing at all
    Visibility,
    /// a struct deriving Parse: `name[a, fn, ..]`
    Dp,
    LookOption,
    LookVec,
    LookMap,
    LookNameValue,
    LookNameArgs,
    LookFlag,
    LookBool,
    LookMacroDelim,
}
use Leaf::*;

pub const SIMPLE: &[Leaf] = &[LitInt, LitStr, LitBool, LitChar, LitFloat, Lit, Ident, Expr, Type, Path, Lifetime, Kv, Rule];
pub const LOOKS: &[Leaf] = &[LookOption, LookVec, LookMap, LookNameValue, LookNameArgs, LookFlag, LookBool, LookMacroDelim];

/// definition that goes with `Leaf::Dp`
pub const DP: &str = "#[derive(Clone, Debug, ::structmeta::Parse, ::structmeta::ToTokens)] pub struct Dp { k: ::syn::Ident, #[to_tokens(\"[\")] b: ::syn::token::Bracket, #[parse(any, terminated)] v: ::syn::punctuated::Punctuated<::syn::Ident, ::syn::Token![,]> } impl ::glue::Obs for Dp { fn obs(&self) -> ::kit::val::Val { ::kit::val::Val::leaf(self) } }";

impl Leaf {
    /// Rust type, import line needed for it (if any)
    pub fn ty(self, spell: u8) -> (String, Option<String>) {
        let syn = |n: &str| match spell % 3 {
            0 => (n.to_string(), Some(format!("use syn::{n};"))),
            1 => (format!("syn::{n}"), None),
            _ => (format!("::syn::{n}"), None),
        };
        let own = |n: &str| (format!("kit::types::{n}"), None);
        // the same type by several paths, some of which end like the standard ones
        let look = |n: &str, std: &[&str], arg: &str| match spell % 7 {
            0 | 1 => (format!("kit::types::look::{n}{arg}"), None),
            2 => (format!("::kit::types::look::{n}{arg}"), None),
            3 => (format!("look::{n}{arg}"), Some("use kit::types::look;".to_string())),
            k => {
                let m = std[(k as usize + spell as usize / 7) % std.len()];
                let m = if m.starts_with("syn") { format!("deep::{m}") } else { m.to_string() };
                if k == 6 {
                    let first = m.split("::").next().unwrap();
                    let rest = &m[first.len()..];
                    (format!("other_{first}{rest}::{n}{arg}"), Some(format!("use kit::types::look::{first} as other_{first};")))
                } else {
                    (format!("{}kit::types::look::{m}::{n}{arg}", if k == 5 { "::" } else { "" }), None)
                }
            }
        };
        match self {
            LitInt => syn("LitInt"),
            LitStr => syn("LitStr"),
            LitBool => syn("LitBool"),
            LitChar => syn("LitChar"),
            LitFloat => syn("LitFloat"),
            Lit => syn("Lit"),
            Ident => syn("Ident"),
            Expr => syn("Expr"),
            Type => syn("Type"),
            Path => syn("Path"),
            Lifetime => syn("Lifetime"),
            Kv => own("Kv"),
            Rule => own("Rule"),
            Rep2 => own("Rep<2>"),
            Lt => own("Lt<'static>"),
            Ints => own("Ints"),
            Visibility => syn("Visibility"),
            TokenStream => ("::proc_macro2::TokenStream".into(), None),
            Dp => ("Dp".into(), Some(DP.into())),
            LookOption => look("Option", &["std::option", "core::option"], "<::syn::LitInt>"),
            LookVec => look("Vec", &["std::vec", "alloc::vec"], "<::syn::LitInt>"),
            LookMap => look("HashMap", &["std::collections", "std::collections::hash_map"], "<String, ::syn::LitInt>"),
            LookNameValue => look("NameValue", &["structmeta"], "<::syn::LitInt>"),
            LookNameArgs => look("NameArgs", &["structmeta"], "<::syn::LitInt>"),
            LookFlag => look("Flag", &["structmeta"], ""),
            LookBool => look("bool", &["std::primitive", "core::primitive"], ""),
            LookMacroDelim => look("MacroDelimiter", &["syn"], ""),
        }
    }
    /// name and arguments of an associated type of `types::look::Family`
    pub fn assoc(self) -> &'static str {
        match self {
            LookOption => "Option<::syn::LitInt>",
            LookVec => "Vec<::syn::LitInt>",
            LookMap => "HashMap<String, ::syn::LitInt>",
            LookNameValue => "NameValue<::syn::LitInt>",
            LookNameArgs => "NameArgs<::syn::LitInt>",
            LookFlag => "Flag",
            LookBool => "bool",
            LookMacroDelim => "MacroDelimiter",
            _ => unreachable!(),
        }
    }
    pub fn is_look(self) -> bool {
        LOOKS.contains(&self)
    }
    pub fn parse(self, input: ParseStream) -> syn::Result<Val> {
        fn p<T: syn::parse::Parse + quote::ToTokens>(input: ParseStream) -> syn::Result<Val> {
            Ok(Val::leaf(&input.parse::<T>()?))
        }
        match self {
            LitInt => p::<syn::LitInt>(input),
            LitStr => p::<syn::LitStr>(input),
            LitBool => p::<syn::LitBool>(input),
            LitChar => p::<syn::LitChar>(input),
            LitFloat => p::<syn::LitFloat>(input),
            Lit => p::<syn::Lit>(input),
            Ident => p::<syn::Ident>(input),
            Expr => p::<syn::Expr>(input),
            Type => p::<syn::Type>(input),
            Path => p::<syn::Path>(input),
            Lifetime => p::<syn::Lifetime>(input),
            Kv => p::<types::Kv>(input),
            Rule => p::<types::Rule>(input),
            Rep2 => p::<types::Rep<2>>(input),
            Lt => p::<types::Lt<'static>>(input),
            Ints => p::<types::Ints>(input),
            Visibility => p::<syn::Visibility>(input),
            TokenStream => p::<proc_macro2::TokenStream>(input),
            Dp => p::<types::DpRef>(input),
            LookOption | LookVec | LookMap | LookNameValue | LookNameArgs | LookFlag | LookBool | LookMacroDelim => {
                p::<types::look::Flag>(input)
            }
        }
    }
    /// text of a value
    pub fn text(self, s: &mut Src) -> String {
        match self {
            LitInt => s.pick(INTS).to_string(),
            LitStr => s.pick(STRS).to_string(),
            LitBool => s.pick(&["true", "false"]).to_string(),
            LitChar => s.pick(&["'a'", "','", "'='", "'\\''", "'('"]).to_string(),
            LitFloat => s.pick(&["1.5", "0.0", "-2.25", "1e3", "1.0f32"]).to_string(),
            Lit => match s.below(6) {
                0 => s.pick(INTS).to_string(),
                1 => s.pick(STRS).to_string(),
                2 => "true".into(),
                3 => "'c'".into(),
                4 => "1.5".into(),
                _ => "b\"xyz\"".into(),
            },
            Ident => s.pick(IDENTS).to_string(),
            Expr => expr(s, 2),
            Type => ty(s, 2),
            Path => s.pick(&["a", "std::fmt::Debug", "::core::mem", "Vec<u8>", "x::Y<A, B>", "value", "crate::T"]).to_string(),
            Lifetime => s.pick(&["'a", "'static", "'_"]).to_string(),
            Kv => format!("{}: {}", s.pick(IDENTS), s.pick(INTS)),
            Rule => match s.below(2) {
                0 => format!("{} {} {}", s.pick(IDENTS), "=>", s.pick(INTS)),
                _ => format!("{} {}", s.pick(&["=", "==", ">", ">="]), s.pick(INTS)),
            },
            Rep2 => format!("{} + {}", s.pick(INTS), s.pick(INTS)),
            Lt => s.pick(INTS).to_string(),
            Ints => s.pick(&["[]", "[1]", "[1 2 3]", "[0xFF 7u8]"]).to_string(),
            Visibility => s.pick(&["", "", "pub", "pub(crate)", "pub(in a::b)"]).to_string(),
            TokenStream => s.pick(&["a", "a, b", "1 2 3", "x = 1, y(2)", "", "+ , -", "(a) [b] {c}"]).to_string(),
            Dp => format!("{}[{}]", s.pick(IDENTS), s.pick(&["", "a", "a, b", "a, fn, b,", "self, type", "x,"])),
            _ => format!("@{}", s.pick(INTS)),
        }
    }
}
pub const INTS: &[&str] = &["1", "0", "2", "42", "-1", "-7", "0xFF", "1_000", "7u8", "10", "99999999999999999999999"];
pub const STRS: &[&str] = &["\"a\"", "\"\"", "\"a, b\"", "\"x = 1\"", "\"f(x)\"", "r#\"raw \" str\"#", "\"quote\\\" \\n\"", "\"\u{e9}\u{540d}\"", "\"a\\tb\""];
pub const IDENTS: &[&str] = &["x", "y", "a", "b", "value", "Foo", "X", "foo_bar", "name", "i32"];

fn expr(s: &mut Src, depth: u32) -> String {
    let n = if depth == 0 { 12 } else { 26 };
    match s.below(n) {
        0 => s.pick(INTS).to_string(),
        1 => s.pick(STRS).to_string(),
        2 => s.pick(IDENTS).to_string(),
        3 => "a::b".into(),
        4 => "f(1, 2)".into(),
        5 => "x == y".into(),
        6 => "a.b".into(),
        7 => "a[0]".into(),
        8 => "vec![1, 2]".into(),
        9 => "(a, b)".into(),
        10 => "[1, 2, 3]".into(),
        11 => "()".into(),
        12 => format!("{} + {}", expr(s, 0), expr(s, 0)),
        13 => format!("-{}", s.pick(IDENTS)),
        14 => format!("!{}", s.pick(IDENTS)),
        15 => format!("&{}", s.pick(IDENTS)),
        16 => "|a, b| a".into(),
        17 => "a.b(c, d).e::<F, G>()".into(),
        18 => "f::<A, B>(x)".into(),
        19 => "S { a: 1, b }".into(),
        20 => format!("if {} {{ {} }} else {{ 0 }}", s.pick(IDENTS), expr(s, 0)),
        21 => format!("{} = {}", s.pick(IDENTS), expr(s, 0)),
        22 => "a..=b".into(),
        23 => "x as u8".into(),
        24 => "a && b || c".into(),
        _ => format!("({})", expr(s, depth - 1)),
    }
}
fn ty(s: &mut Src, depth: u32) -> String {
    let n = if depth == 0 { 5 } else { 12 };
    match s.below(n) {
        0 => "u8".into(),
        1 => "Foo".into(),
        2 => "a::B".into(),
        3 => "()".into(),
        4 => "!".into(),
        5 => format!("Vec<{}>", ty(s, depth - 1)),
        6 => format!("HashMap<{}, {}>", ty(s, depth - 1), ty(s, 0)),
        7 => format!("({}, {})", ty(s, 0), ty(s, 0)),
        8 => format!("&'a {}", ty(s, 0)),
        9 => format!("[{}; 3]", ty(s, 0)),
        10 => "fn(A, B) -> C".into(),
        _ => "dyn Fn(A) -> B + Send".into(),
    }
}
