//! Punctuation, keywords and leaf types usable as fields.
use crate::leaf::{IDENTS, STRS};
use crate::tape::Src;
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde::{Deserialize, Serialize};
use syn::parse::ParseStream;

/// (text, name in syn::token)
pub const PUNCT1: &[(&str, &str)] = &[
    ("+", "Plus"), ("-", "Minus"), ("*", "Star"), ("/", "Slash"), ("%", "Percent"), ("^", "Caret"), ("!", "Not"), ("&", "And"),
    ("|", "Or"), ("@", "At"), (",", "Comma"), (";", "Semi"), (":", "Colon"), ("=", "Eq"), ("<", "Lt"), (">", "Gt"),
    ("?", "Question"), ("#", "Pound"), ("$", "Dollar"), (".", "Dot"), ("~", "Tilde"),
];
pub const PUNCT2: &[(&str, &str)] = &[
    ("->", "RArrow"), ("=>", "FatArrow"), ("==", "EqEq"), ("!=", "Ne"), ("<=", "Le"), (">=", "Ge"), ("&&", "AndAnd"), ("||", "OrOr"),
    ("::", "PathSep"), ("..", "DotDot"), ("...", "DotDotDot"), ("..=", "DotDotEq"), ("+=", "PlusEq"), ("<<=", "ShlEq"), ("<-", "LArrow"),
];
pub const KEYWORDS: &[(&str, &str)] = &[
    ("fn", "Fn"), ("struct", "Struct"), ("enum", "Enum"), ("if", "If"), ("in", "In"), ("let", "Let"), ("for", "For"), ("where", "Where"),
    ("self", "SelfValue"), ("Self", "SelfType"), ("super", "Super"), ("crate", "Crate"), ("async", "Async"), ("type", "Type"),
    ("mut", "Mut"), ("ref", "Ref"), ("dyn", "Dyn"), ("default", "Default"), ("auto", "Auto"), ("union", "Union"), ("move", "Move"),
    ("as", "As"), ("impl", "Impl"), ("_", "Underscore"),
];
/// custom keywords declared in `kit::types::kw`
pub const CUSTOM: &[&str] = &["alpha", "beta", "peek", "any", "x", "value"];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Tok {
    P1(u8),
    P2(u8),
    Kw(u8),
    Custom(u8),
}
impl Tok {
    pub fn text(self) -> &'static str {
        match self {
            Tok::P1(i) => PUNCT1[i as usize].0,
            Tok::P2(i) => PUNCT2[i as usize].0,
            Tok::Kw(i) => KEYWORDS[i as usize].0,
            Tok::Custom(i) => CUSTOM[i as usize],
        }
    }
    pub fn any(s: &mut Src, multi: bool, custom: bool) -> Tok {
        match s.weighted(&[50, if multi { 15 } else { 0 }, 25, if custom { 12 } else { 0 }]) {
            0 => Tok::P1(s.below(PUNCT1.len()) as u8),
            1 => Tok::P2(s.below(PUNCT2.len()) as u8),
            2 => Tok::Kw(s.below(KEYWORDS.len()) as u8),
            _ => Tok::Custom(s.below(CUSTOM.len()) as u8),
        }
    }
    /// Rust type and import
    pub fn ty(self, spell: u8) -> (String, Option<String>) {
        let t = match self {
            Tok::P1(i) => PUNCT1[i as usize],
            Tok::P2(i) => PUNCT2[i as usize],
            Tok::Kw(i) => KEYWORDS[i as usize],
            Tok::Custom(i) => {
                let n = CUSTOM[i as usize];
                return match spell % 3 {
                    0 => (format!("kw::{n}"), Some("use kit::types::kw;".into())),
                    1 => (format!("kit::types::kw::{n}"), None),
                    _ => (format!("::kit::types::kw::{n}"), None),
                };
            }
        };
        match spell % 5 {
            0 => (format!("Token![{}]", t.0), Some("use syn::Token;".into())),
            1 => (format!("syn::Token![{}]", t.0), None),
            2 => (format!("::syn::Token![{}]", t.0), None),
            3 => (format!("syn::token::{}", t.1), None),
            _ => (format!("::syn::token::{}", t.1), None),
        }
    }
    /// own reading of the token (not through the syn token types)
    pub fn parse(self, input: ParseStream) -> syn::Result<TokenStream> {
        let text = self.text();
        input.step(|c| {
            let mut out = TokenStream::new();
            let mut cur = *c;
            if text == "_" || text.starts_with(|c: char| c.is_alphabetic()) {
                if let Some((id, rest)) = cur.ident() {
                    if id == text {
                        id.to_tokens(&mut out);
                        return Ok((out, rest));
                    }
                }
                return Err(c.error("word"));
            }
            let n = text.chars().count();
            for (i, ch) in text.chars().enumerate() {
                let Some((p, rest)) = cur.punct() else { return Err(c.error("punct")) };
                if p.as_char() != ch || (i + 1 < n && p.spacing() != proc_macro2::Spacing::Joint) {
                    return Err(c.error("punct"));
                }
                p.to_tokens(&mut out);
                cur = rest;
            }
            Ok((out, cur))
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum NLeaf {
    Ident,
    LitInt,
    LitStr,
    LitBool,
    LitChar,
    LitFloat,
    Lit,
    Lifetime,
    Path,
    Type,
    Expr,
    Kv,
    /// every token in the brackets that is no integer is an error
    Ints,
    Visibility,
    Group,
    Punct,
    TokenTree,
    Literal,
}
use NLeaf::*;
pub const LEAVES: &[NLeaf] = &[
    Ident, LitInt, LitStr, LitBool, LitChar, LitFloat, Lit, Lifetime, Path, Type, Expr, Kv, Ints, Visibility, Group, Punct, TokenTree, Literal,
];
/// leaves of one token tree for which `input.peek(T)` exists
pub const PEEKABLE: &[NLeaf] = &[Ident, LitInt, LitStr, LitBool, LitChar, LitFloat, Lit, Lifetime];

impl NLeaf {
    pub fn ty(self, spell: u8) -> (String, Option<String>) {
        let n = match self {
            Ident => "Ident",
            LitInt => "LitInt",
            LitStr => "LitStr",
            LitBool => "LitBool",
            LitChar => "LitChar",
            LitFloat => "LitFloat",
            Lit => "Lit",
            Lifetime => "Lifetime",
            Path => "Path",
            Type => "Type",
            Expr => "Expr",
            Visibility => "Visibility",
            Kv => return (if spell % 3 == 2 { "::kit::types::Kv".into() } else { "kit::types::Kv".into() }, None),
            Ints => return (if spell % 3 == 2 { "::kit::types::Ints".into() } else { "kit::types::Ints".into() }, None),
            Group => return (pm("Group", spell), None),
            Punct => return (pm("Punct", spell), None),
            TokenTree => return (pm("TokenTree", spell), None),
            Literal => return (pm("Literal", spell), None),
        };
        match spell % 3 {
            0 => (n.to_string(), Some(format!("use syn::{n};"))),
            1 => (format!("syn::{n}"), None),
            _ => (format!("::syn::{n}"), None),
        }
    }
    pub fn parse(self, input: ParseStream, any: bool) -> syn::Result<TokenStream> {
        match self {
            Ident if any => Ok(<syn::Ident as syn::ext::IdentExt>::parse_any(input)?.to_token_stream()),
            Ident => p::<syn::Ident>(input),
            LitInt => p::<syn::LitInt>(input),
            LitStr => p::<syn::LitStr>(input),
            LitBool => p::<syn::LitBool>(input),
            LitChar => p::<syn::LitChar>(input),
            LitFloat => p::<syn::LitFloat>(input),
            Lit => p::<syn::Lit>(input),
            Lifetime => p::<syn::Lifetime>(input),
            Path => p::<syn::Path>(input),
            Type => p::<syn::Type>(input),
            Expr => p::<syn::Expr>(input),
            Kv => p::<crate::types::Kv>(input),
            Ints => p::<crate::types::Ints>(input),
            Visibility => p::<syn::Visibility>(input),
            Group => p::<proc_macro2::Group>(input),
            Punct => p::<proc_macro2::Punct>(input),
            TokenTree => p::<proc_macro2::TokenTree>(input),
            Literal => p::<proc_macro2::Literal>(input),
        }
    }
    pub fn text(self, s: &mut Src, any: bool) -> String {
        const NINTS: &[&str] = &["1", "0", "2", "42", "0xFF", "1_000", "7u8", "10", "99999999999999999999999"];
        const NLITS: &[&str] = &["1", "\"s\"", "'c'", "1.5", "true", "b\"xyz\"", "b'x'", "c\"x\""];
        match self {
            Ident if any && s.pct(55) => s.pick(ANY_IDENTS).to_string(),
            Ident => s.pick(IDENTS).to_string(),
            LitInt => s.pick(NINTS).to_string(),
            LitStr => s.pick(STRS).to_string(),
            LitBool => s.pick(&["true", "false"]).to_string(),
            LitChar => s.pick(&["'a'", "','", "'='", "'\\''", "'('"]).to_string(),
            LitFloat => s.pick(&["1.5", "0.0", "1e3", "1.0f32"]).to_string(),
            Lit => s.pick(NLITS).to_string(),
            Lifetime => s.pick(&["'a", "'static", "'_"]).to_string(),
            Path => s.pick(&["a", "std::fmt::Debug", "::core::mem", "Vec<u8>", "x::Y<A, B>", "value", "crate::T"]).to_string(),
            Type => s.pick(&["u8", "Foo", "a::B", "()", "!", "Vec<u8>", "(A, B)", "&'a T", "[u8; 3]", "fn(A) -> B", "dyn Fn(A) -> B"]).to_string(),
            Expr => s.pick(&["x", "1", "a::b", "f(1, 2)", "x == y", "a.b", "a[0]", "(a, b)", "[1, 2]", "a + b", "-x", "!x", "|a| b", "S { a: 1 }", "x as u8", "{ x }"]).to_string(),
            Kv => format!("{}: {}", s.pick(IDENTS), s.pick(NINTS)),
            Ints => s.pick(&["[]", "[1]", "[1 2 3]", "[0xFF 7u8]"]).to_string(),
            Visibility => s.pick(&["", "pub", "pub(crate)", "pub(in a::b)"]).to_string(),
            Group => s.pick(&["()", "(a)", "[1, 2]", "{ x: y }", "((b))"]).to_string(),
            Punct => s.pick(&["+", ",", "=", ";", "#", "@", "<"]).to_string(),
            TokenTree => s.pick(&["a", "1", "+", "(x)", "fn", "\"s\"", "[]"]).to_string(),
            Literal => s.pick(&["1", "\"s\"", "'c'", "1.5", "b\"x\""]).to_string(),
        }
    }
}
fn pm(n: &str, spell: u8) -> String {
    if spell % 3 == 2 { format!("::proc_macro2::{n}") } else { format!("proc_macro2::{n}") }
}
pub const ANY_IDENTS: &[&str] = &["self", "fn", "type", "if", "super", "crate", "Self", "async", "match", "struct", "true", "in", "x", "r#fn", "_"];

/// `input.peek(..)` at one of three places
pub fn p<T: syn::parse::Parse + ToTokens>(input: ParseStream) -> syn::Result<TokenStream> {
    if EXACT.with(|e| e.get().is_none()) {
        return Ok(input.parse::<T>()?.to_token_stream());
    }
    let before = super::rt::flat(&input.cursor().token_stream());
    let out = input.parse::<T>()?.to_token_stream();
    let after = super::rt::flat(&input.cursor().token_stream()).len();
    if super::rt::flat(&out)[..] != before[..before.len() - after] {
        EXACT.with(|e| e.set(Some(false)));
    }
    Ok(out)
}

thread_local! {
    /// when set: becomes false if a syn type does not print the tokens it was parsed from
    /// (`-1`, `a. 1.5`), which is no matter of structmeta
    pub static EXACT: std::cell::Cell<Option<bool>> = const { std::cell::Cell::new(None) };
}

pub fn peek_leaf(l: NLeaf, any: bool, at: usize, input: ParseStream) -> bool {
    macro_rules! at {
        ($t:expr) => {
            match at {
                0 => input.peek($t),
                1 => input.peek2($t),
                _ => input.peek3($t),
            }
        };
    }
    match l {
        Ident if any => at!(syn::Ident::peek_any),
        Ident => at!(syn::Ident),
        LitInt => at!(syn::LitInt),
        LitStr => at!(syn::LitStr),
        LitBool => at!(syn::LitBool),
        LitChar => at!(syn::LitChar),
        LitFloat => at!(syn::LitFloat),
        Lit => at!(syn::Lit),
        Lifetime => at!(syn::Lifetime),
        _ => false,
    }
}
use syn::ext::IdentExt as _;
