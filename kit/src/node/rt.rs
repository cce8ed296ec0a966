//! What generated definitions implement and call.
use crate::val::{Pos, Val, canon};
use proc_macro2::extra::DelimSpan;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::VecDeque;
use syn::parse::ParseStream;
use syn::punctuated::Punctuated;

#[derive(Clone, Debug)]
pub enum Piece {
    Leaf(TokenStream),
    Delim(char, DelimSpan),
    Variant(usize),
    Present(bool),
    /// items of a Punctuated, trailing separator
    Count(usize, bool),
}
pub struct Builder {
    pub q: VecDeque<Piece>,
    pub bad: Option<String>,
}
impl Builder {
    pub fn new(p: Vec<Piece>) -> Self {
        Builder { q: p.into(), bad: None }
    }
    fn next(&mut self, want: &str) -> Piece {
        self.q.pop_front().unwrap_or_else(|| panic!("builder: no piece for {want}"))
    }
    pub fn variant(&mut self) -> usize {
        match self.next("variant") {
            Piece::Variant(i) => i,
            p => panic!("builder: {p:?} is not a variant"),
        }
    }
    pub fn leaf(&mut self) -> TokenStream {
        match self.next("leaf") {
            Piece::Leaf(t) => t,
            p => panic!("builder: {p:?} is not a leaf"),
        }
    }
    pub fn delim(&mut self) -> (char, DelimSpan) {
        match self.next("delimiter") {
            Piece::Delim(c, s) => (c, s),
            p => panic!("builder: {p:?} is not a delimiter"),
        }
    }
    pub fn present(&mut self) -> bool {
        match self.next("option") {
            Piece::Present(b) => b,
            p => panic!("builder: {p:?} is not an option"),
        }
    }
    pub fn count(&mut self) -> (usize, bool) {
        match self.next("list") {
            Piece::Count(n, t) => (n, t),
            p => panic!("builder: {p:?} is not a list"),
        }
    }
}

/// observation and construction that do not go through the derived code
pub trait Node: Sized {
    fn obs(&self) -> Val;
    fn build(b: &mut Builder) -> Self;
}

pub struct NodeOut {
    pub val: Val,
    pub rest: TokenStream,
    pub printed: TokenStream,
}
pub struct Made {
    pub val: Val,
    pub printed: TokenStream,
}
pub struct NodeOps {
    /// parse a value, then everything that is left
    pub parse: fn(ParseStream) -> syn::Result<NodeOut>,
    /// build a value directly and print it
    pub build: fn(&mut Builder) -> Made,
}
pub fn parse_with<T: syn::parse::Parse + ToTokens + Node>(input: ParseStream) -> syn::Result<NodeOut> {
    let v: T = input.parse()?;
    let rest: TokenStream = input.parse()?;
    Ok(NodeOut { val: v.obs(), rest, printed: v.to_token_stream() })
}
pub fn build_with<T: ToTokens + Node>(b: &mut Builder) -> Made {
    let v = T::build(b);
    Made { val: v.obs(), printed: v.to_token_stream() }
}

/// for definitions that derive only one of the two
pub fn parse_only<T: syn::parse::Parse + Node>(input: ParseStream) -> syn::Result<NodeOut> {
    let v: T = input.parse()?;
    let rest: TokenStream = input.parse()?;
    Ok(NodeOut { val: v.obs(), rest, printed: TokenStream::new() })
}
pub fn build_only<T: Node>(b: &mut Builder) -> Made {
    Made { val: T::build(b).obs(), printed: TokenStream::new() }
}
pub fn no_parse<T>(input: ParseStream) -> syn::Result<NodeOut> {
    Err(input.error("not a parser"))
}

/// tokens with their places, ignoring punctuation spacing
pub fn flat(ts: &TokenStream) -> Vec<(String, Pos)> {
    fn walk(ts: TokenStream, out: &mut Vec<(String, Pos)>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = crate::lex::delims(g.delimiter());
                    out.push((a.into(), Pos::of(g.span_open())));
                    walk(g.stream(), out);
                    out.push((b.into(), if crate::probe::one_span() { Pos::ZERO } else { Pos::of(g.span_close()) }));
                }
                TokenTree::Punct(p) => out.push((p.as_char().to_string(), Pos::of(p.span()))),
                t => out.push((t.to_string(), Pos::of(t.span()))),
            }
        }
    }
    let mut out = Vec::new();
    walk(ts.clone(), &mut out);
    out
}
pub fn show_flat(f: &[(String, Pos)]) -> String {
    f.iter().map(|(s, p)| format!("{s}@{}:{}", p.0, p.1)).collect::<Vec<_>>().join(" ")
}
pub fn tokval(ts: TokenStream) -> Val {
    let places: Vec<String> = flat(&ts).iter().map(|(_, p)| format!("{}:{}", p.0, p.1)).collect();
    Val::Leaf(format!("{} @{}", canon(ts), places.join(",")))
}
pub fn delimval(c: char, s: DelimSpan) -> Val {
    let o = Pos::of(s.open());
    let e = Pos::of(s.close());
    Val::Leaf(format!("{c} @{}:{}-{}:{}", o.0, o.1, e.0, e.1))
}

fn build_leaf<T: syn::parse::Parse>(b: &mut Builder) -> T {
    let t = b.leaf();
    syn::parse2::<T>(t.clone()).unwrap_or_else(|e| panic!("builder: `{t}`: {e}"))
}
macro_rules! leaf_node {
    ($($t:ty),* $(,)?) => {$(
        impl Node for $t {
            fn obs(&self) -> Val { tokval(self.to_token_stream()) }
            fn build(b: &mut Builder) -> Self { build_leaf(b) }
        }
    )*};
}
leaf_node!(
    syn::LitInt, syn::LitStr, syn::LitBool, syn::LitChar, syn::LitFloat, syn::Lit, syn::Lifetime, syn::Path, syn::Type, syn::Expr,
    syn::Visibility, crate::types::Kv, crate::types::Ints, crate::types::Lt<'_>, crate::types::look::MacroDelimiter,
    proc_macro2::Group, proc_macro2::Punct, proc_macro2::TokenTree, proc_macro2::Literal, TokenStream,
    crate::types::kw::alpha, crate::types::kw::beta, crate::types::kw::peek, crate::types::kw::any, crate::types::kw::x, crate::types::kw::value,
    syn::token::Plus, syn::token::Minus, syn::token::Star, syn::token::Slash, syn::token::Percent, syn::token::Caret, syn::token::Not, syn::token::And, syn::token::Or, syn::token::At, syn::token::Comma, syn::token::Semi, syn::token::Colon, syn::token::Eq, syn::token::Lt, syn::token::Gt, syn::token::Question, syn::token::Pound, syn::token::Dollar, syn::token::Dot, syn::token::Tilde, syn::token::RArrow, syn::token::FatArrow, syn::token::EqEq, syn::token::Ne, syn::token::Le, syn::token::Ge, syn::token::AndAnd, syn::token::OrOr, syn::token::PathSep, syn::token::DotDot, syn::token::DotDotDot, syn::token::DotDotEq, syn::token::PlusEq, syn::token::ShlEq, syn::token::LArrow, syn::token::Fn, syn::token::Struct, syn::token::Enum, syn::token::If, syn::token::In, syn::token::Let, syn::token::For, syn::token::Where, syn::token::SelfValue, syn::token::SelfType, syn::token::Super, syn::token::Crate, syn::token::Async, syn::token::Type, syn::token::Mut, syn::token::Ref, syn::token::Dyn, syn::token::Default, syn::token::Auto, syn::token::Union, syn::token::Move, syn::token::As, syn::token::Impl, syn::token::Underscore
);
impl<const N: usize> Node for crate::types::Rep<N> {
    fn obs(&self) -> Val {
        tokval(self.to_token_stream())
    }
    fn build(b: &mut Builder) -> Self {
        build_leaf(b)
    }
}
impl<T: Node> Node for crate::types::Seen<T> {
    fn obs(&self) -> Val {
        self.0.obs()
    }
    fn build(b: &mut Builder) -> Self {
        crate::types::Seen(T::build(b))
    }
}
impl Node for syn::Ident {
    fn obs(&self) -> Val {
        tokval(self.to_token_stream())
    }
    fn build(b: &mut Builder) -> Self {
        use syn::ext::IdentExt;
        use syn::parse::Parser;
        let t = b.leaf();
        syn::Ident::parse_any.parse2(t.clone()).unwrap_or_else(|e| panic!("builder: `{t}`: {e}"))
    }
}
impl<T: Node> Node for Box<T> {
    fn obs(&self) -> Val {
        (**self).obs()
    }
    fn build(b: &mut Builder) -> Self {
        Box::new(T::build(b))
    }
}
impl<T: Node> Node for std::rc::Rc<T> {
    fn obs(&self) -> Val {
        (**self).obs()
    }
    fn build(b: &mut Builder) -> Self {
        std::rc::Rc::new(T::build(b))
    }
}
impl<T: Node> Node for &T {
    fn obs(&self) -> Val {
        (**self).obs()
    }
    fn build(b: &mut Builder) -> Self {
        Box::leak(Box::new(T::build(b)))
    }
}
impl<T: Node> Node for Option<T> {
    fn obs(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.obs())),
        }
    }
    fn build(b: &mut Builder) -> Self {
        b.present().then(|| T::build(b))
    }
}
impl<T: Node, P: Node> Node for Punctuated<T, P> {
    fn obs(&self) -> Val {
        let mut v = Vec::new();
        for p in self.pairs() {
            v.push(p.value().obs());
            if let Some(p) = p.punct() {
                v.push(p.obs());
            }
        }
        Val::List(v)
    }
    fn build(b: &mut Builder) -> Self {
        let (n, trailing) = b.count();
        let mut p = Punctuated::new();
        for i in 0..n {
            p.push_value(T::build(b));
            if i + 1 < n || trailing {
                p.push_punct(P::build(b));
            }
        }
        p
    }
}
macro_rules! delim_node {
    ($($t:ident $c:literal),*) => {$(
        impl Node for syn::token::$t {
            fn obs(&self) -> Val { delimval($c, self.span) }
            fn build(b: &mut Builder) -> Self {
                let (c, s) = b.delim();
                assert_eq!(c, $c);
                syn::token::$t(s)
            }
        }
    )*};
}
delim_node!(Paren '(', Bracket '[', Brace '{');
impl Node for syn::MacroDelimiter {
    fn obs(&self) -> Val {
        match self {
            syn::MacroDelimiter::Paren(t) => t.obs(),
            syn::MacroDelimiter::Bracket(t) => t.obs(),
            syn::MacroDelimiter::Brace(t) => t.obs(),
        }
    }
    fn build(b: &mut Builder) -> Self {
        let (c, s) = b.delim();
        match c {
            '(' => syn::MacroDelimiter::Paren(syn::token::Paren(s)),
            '[' => syn::MacroDelimiter::Bracket(syn::token::Bracket(s)),
            _ => syn::MacroDelimiter::Brace(syn::token::Brace(s)),
        }
    }
}
