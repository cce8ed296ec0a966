//! Hand-written syntax tree nodes used as field types by generated definitions.
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::marker::PhantomData;
use syn::{Ident, LitInt, Result, Token, parse::{Parse, ParseStream}};

/// `key : 1`
#[derive(Clone, Debug)]
pub struct Kv {
    pub key: Ident,
    pub colon: Token![:],
    pub value: LitInt,
}
impl Parse for Kv {
    fn parse(input: ParseStream) -> Result<Self> {
        Ok(Kv { key: input.parse()?, colon: input.parse()?, value: input.parse()? })
    }
}
impl ToTokens for Kv {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.key.to_tokens(tokens);
        self.colon.to_tokens(tokens);
        self.value.to_tokens(tokens);
    }
}

/// `key => 1`, or `> 1`, `= 1`, `== 1`, `>= 1`: an operator that a careless reader mistakes for the `=` of an argument
#[derive(Clone, Debug)]
pub struct Rule(pub TokenStream);
impl Parse for Rule {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut ts = TokenStream::new();
        if input.peek(Ident) {
            input.parse::<Ident>()?.to_tokens(&mut ts);
            input.parse::<Token![=>]>()?.to_tokens(&mut ts);
        } else if input.peek(Token![==]) {
            input.parse::<Token![==]>()?.to_tokens(&mut ts);
        } else if input.peek(Token![>=]) {
            input.parse::<Token![>=]>()?.to_tokens(&mut ts);
        } else if input.peek(Token![>]) {
            input.parse::<Token![>]>()?.to_tokens(&mut ts);
        } else {
            input.parse::<Token![=]>()?.to_tokens(&mut ts);
        }
        input.parse::<LitInt>()?.to_tokens(&mut ts);
        Ok(Rule(ts))
    }
}
impl ToTokens for Rule {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens);
    }
}

/// hand-written counterpart of `Leaf::Dp`
#[derive(Clone, Debug)]
pub struct DpRef(pub Ident, pub syn::token::Bracket, pub TokenStream);
impl Parse for DpRef {
    fn parse(input: ParseStream) -> Result<Self> {
        use syn::ext::IdentExt;
        let k = input.parse()?;
        let content;
        let b = syn::bracketed!(content in input);
        let mut ts = TokenStream::new();
        while !content.is_empty() {
            content.call(Ident::parse_any)?.to_tokens(&mut ts);
            if !content.is_empty() {
                content.parse::<Token![,]>()?.to_tokens(&mut ts);
            }
        }
        Ok(DpRef(k, b, ts))
    }
}
impl ToTokens for DpRef {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens);
        self.1.surround(tokens, |t| self.2.to_tokens(t));
    }
}

/// `N` integers separated by `+`
#[derive(Clone, Debug)]
pub struct Rep<const N: usize>(pub Vec<LitInt>, pub Vec<Token![+]>);
impl<const N: usize> Parse for Rep<N> {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut v = Vec::new();
        let mut p = Vec::new();
        for i in 0..N {
            if i > 0 {
                p.push(input.parse()?);
            }
            v.push(input.parse()?);
        }
        Ok(Rep(v, p))
    }
}
impl<const N: usize> ToTokens for Rep<N> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        for i in 0..self.0.len() {
            if i > 0 {
                self.1[i - 1].to_tokens(tokens);
            }
            self.0[i].to_tokens(tokens);
        }
    }
}

/// integers in brackets; all others are reported together
#[derive(Clone, Debug)]
pub struct Ints(pub syn::token::Bracket, pub Vec<LitInt>);
impl Parse for Ints {
    fn parse(input: ParseStream) -> Result<Self> {
        let content;
        let b = syn::bracketed!(content in input);
        let (mut v, mut bad) = (Vec::new(), Option::<syn::Error>::None);
        while !content.is_empty() {
            let fork = content.fork();
            match fork.parse::<LitInt>() {
                Ok(_) => v.push(content.parse()?),
                Err(e) => {
                    content.parse::<proc_macro2::TokenTree>()?;
                    match &mut bad {
                        Some(b) => b.combine(e),
                        None => bad = Some(e),
                    }
                }
            }
        }
        match bad {
            Some(e) => Err(e),
            None => Ok(Ints(b, v)),
        }
    }
}
impl ToTokens for Ints {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.surround(tokens, |t| self.1.iter().for_each(|i| i.to_tokens(t)));
    }
}

/// an integer with a lifetime parameter
#[derive(Clone, Debug)]
pub struct Lt<'a>(pub LitInt, pub PhantomData<&'a ()>);
impl Parse for Lt<'_> {
    fn parse(input: ParseStream) -> Result<Self> {
        Ok(Lt(input.parse()?, PhantomData))
    }
}
impl ToTokens for Lt<'_> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens)
    }
}

/// The parser of `T`, with a record of where it was called.
#[derive(Clone, Debug)]
pub struct Seen<T>(pub T);
impl<T: Parse> Parse for Seen<T> {
    fn parse(input: ParseStream) -> Result<Self> {
        called(input);
        Ok(Seen(input.parse()?))
    }
}
impl<T: ToTokens> ToTokens for Seen<T> {
    fn to_tokens(&self, tokens: &mut TokenStream) {
        self.0.to_tokens(tokens)
    }
}
/// line and column of the first token that was left; nothing at the end
pub type Call = Option<(usize, usize)>;
thread_local! {
    static CALLS: std::cell::RefCell<Option<Vec<Call>>> = const { std::cell::RefCell::new(None) };
}
pub fn called(input: ParseStream) {
    fn first(ts: TokenStream) -> Call {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::None => {
                    if let Some(p) = first(g.stream()) {
                        return Some(p);
                    }
                }
                t => {
                    let s = t.span().start();
                    return Some((s.line, s.column));
                }
            }
        }
        None
    }
    CALLS.with(|c| {
        if let Some(v) = &mut *c.borrow_mut() {
            v.push(first(input.cursor().token_stream()))
        }
    })
}
/// the calls made by `f`
pub fn calls<R>(f: impl FnOnce() -> R) -> (R, Vec<Call>) {
    CALLS.with(|c| *c.borrow_mut() = Some(Vec::new()));
    let r = f();
    (r, CALLS.with(|c| c.borrow_mut().take()).unwrap_or_default())
}
pub fn show_calls(c: &[Call]) -> String {
    c.iter().map(|c| c.map_or("end".to_string(), |(l, c)| format!("{l}:{c}"))).collect::<Vec<_>>().join(" ")
}

/// Types that only look like the special ones: all parse `@ <int>`.
pub mod look {
    use super::*;
    macro_rules! look {
        ($($name:ident [$($g:ident),*])*) => {$(
            #[allow(non_camel_case_types)]
            #[derive(Clone, Debug)]
            pub struct $name<$($g),*>(pub syn::token::At, pub LitInt, pub PhantomData<($($g,)*)>);
            impl<$($g),*> Parse for $name<$($g),*> {
                fn parse(input: ParseStream) -> Result<Self> {
                    Ok($name(input.parse()?, input.parse()?, PhantomData))
                }
            }
            impl<$($g),*> ToTokens for $name<$($g),*> {
                fn to_tokens(&self, tokens: &mut TokenStream) {
                    self.0.to_tokens(tokens);
                    self.1.to_tokens(tokens);
                }
            }
        )*};
    }
    look! { Option[T] Vec[T] HashMap[K, V] NameValue[T] NameArgs[T] Flag[] bool[] MacroDelimiter[] }
    /// the same as associated types
    pub trait Family: Clone + ::std::fmt::Debug {
        type Option<T: Node>: Node;
        type Vec<T: Node>: Node;
        type HashMap<K: Clone + ::std::fmt::Debug, V: Node>: Node;
        type NameValue<T: Node>: Node;
        type NameArgs<T: Node>: Node;
        type Flag: Node;
        #[allow(non_camel_case_types)]
        type bool: Node;
        type MacroDelimiter: Node;
    }
    pub trait Node: Parse + ToTokens + Clone + ::std::fmt::Debug {}
    impl<T: Parse + ToTokens + Clone + ::std::fmt::Debug> Node for T {}
    #[derive(Clone, Debug)]
    pub struct Fam;
    impl Family for Fam {
        type Option<T: Node> = Option<T>;
        type Vec<T: Node> = Vec<T>;
        type HashMap<K: Clone + ::std::fmt::Debug, V: Node> = HashMap<K, V>;
        type NameValue<T: Node> = NameValue<T>;
        type NameArgs<T: Node> = NameArgs<T>;
        type Flag = Flag;
        type bool = bool;
        type MacroDelimiter = MacroDelimiter;
    }
    /// paths that end like the standard ones
    pub mod std {
        pub mod option {
            pub use super::super::Option;
        }
        pub mod vec {
            pub use super::super::Vec;
        }
        pub mod collections {
            pub use super::super::HashMap;
            pub mod hash_map {
                pub use super::super::super::HashMap;
            }
        }
        pub mod primitive {
            #[allow(non_camel_case_types)]
            pub type bool = super::super::bool;
        }
    }
    pub use self::std as core;
    pub use self::std as alloc;
    pub mod structmeta {
        pub use super::{Flag, NameArgs, NameValue};
    }
    pub mod syn_ {
        pub use super::MacroDelimiter;
    }
    /// `look::syn` (an own level, as the types above use the crate `syn`)
    pub mod deep {
        pub use super::syn_ as syn;
        pub use super::*;
    }
}

pub mod kw {
    syn::custom_keyword!(alpha);
    syn::custom_keyword!(beta);
    syn::custom_keyword!(peek);
    syn::custom_keyword!(any);
    syn::custom_keyword!(x);
    syn::custom_keyword!(value);
}
