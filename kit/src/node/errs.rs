//! The error a definition must report: its fields read in place, one after the other, by their own parsers.
use super::model::{self, delimiter_char};
use super::schema::*;
use super::toks::{self, KEYWORDS, PUNCT1, PUNCT2, Tok};
use crate::val::Pos;
use proc_macro2::TokenStream;
use std::cell::Cell;
use syn::parse::discouraged::Speculative;
use syn::parse::{ParseBuffer, ParseStream, Parser};

pub struct Expected {
    pub err: Vec<(String, Pos)>,
    /// only the place is specified
    pub place_only: bool,
    /// kind of the failing part
    pub what: &'static str,
}
#[derive(Default)]
struct Cx {
    unspecified: Cell<bool>,
    place_only: Cell<bool>,
    /// groups with tokens left in them
    left: Cell<usize>,
    /// also look for tokens left in groups opened by the parsers of values
    search: Cell<bool>,
    what: Cell<&'static str>,
}

/// None: accepted, or the error is not specified
pub fn eval(sc: &NSchema, ts: TokenStream) -> Option<Expected> {
    let cx = Cx::default();
    cx.what.set("left-in-group");
    let r = (|input: ParseStream| {
        schema(&cx, sc, input)?;
        input.parse::<TokenStream>()
    })
    .parse2(ts.clone());
    let e = r.err()?;
    if cx.unspecified.get() {
        return None;
    }
    if cx.what.get() == "left-in-group" {
        // of several groups with tokens left over any can be reported
        let again = Cx::default();
        again.search.set(true);
        let _ = (|input: ParseStream| {
            schema(&again, sc, input)?;
            input.parse::<TokenStream>()
        })
        .parse2(ts);
        if again.left.get() > 1 {
            return None;
        }
    }
    Some(Expected { err: crate::sm::model::errors(e), place_only: cx.place_only.get(), what: cx.what.get() })
}

fn schema(cx: &Cx, sc: &NSchema, input: ParseStream) -> syn::Result<()> {
    if !sc.is_enum {
        return variant(cx, sc, &sc.variants[0], input);
    }
    for v in &sc.variants {
        let peeks: Vec<usize> = roots(&v.fields).into_iter().filter(|&i| v.fields[i].peek).collect();
        if peeks.is_empty() {
            let fork = input.fork();
            let tried = Cx::default();
            tried.search.set(cx.search.get());
            if variant(&tried, sc, v, &fork).is_ok() {
                input.advance_to(&fork);
                cx.left.set(cx.left.get() + tried.left.get());
                return Ok(());
            }
        } else if peeks.iter().enumerate().all(|(at, &i)| model::peek(&v.fields[i], at, input)) {
            return variant(cx, sc, v, input);
        }
    }
    // which message a value gets that fits no variant is not specified
    cx.unspecified.set(true);
    Err(input.error("no variant"))
}
fn variant(cx: &Cx, sc: &NSchema, v: &NVariant, input: ParseStream) -> syn::Result<()> {
    walk(cx, sc, v, &tree(&v.fields).expect("well-formed definition"), input)
}
fn walk(cx: &Cx, sc: &NSchema, v: &NVariant, items: &[Item], input: ParseStream) -> syn::Result<()> {
    for it in items {
        match it {
            Item::Field(i) => field(cx, sc, &v.fields[*i], input)?,
            Item::Group(i, inner) => {
                let want = match &v.fields[*i].kind {
                    FieldKind::Delim(c) => Some(*c),
                    _ => None,
                };
                let content = open(want, input).inspect_err(|_| {
                    cx.what.set("group");
                    cx.place_only.set(want.is_none());
                })?;
                walk(cx, sc, v, inner, &content)?;
                if !content.is_empty() {
                    cx.left.set(cx.left.get() + 1);
                }
            }
        }
    }
    Ok(())
}
fn open<'a>(want: Option<char>, input: &ParseBuffer<'a>) -> syn::Result<ParseBuffer<'a>> {
    let content;
    let found = input.cursor().any_group().and_then(|(_, d, _, _)| delimiter_char(d));
    match want.or(found) {
        Some('(') => {
            syn::parenthesized!(content in input);
        }
        Some('[') => {
            syn::bracketed!(content in input);
        }
        Some(_) => {
            syn::braced!(content in input);
        }
        None => return Err(input.error("expected a group")),
    }
    Ok(content)
}

fn token(t: Tok, input: ParseStream) -> syn::Result<()> {
    macro_rules! by_name {
        ($n:expr, $($t:ident)*) => {
            match $n {
                $(stringify!($t) => { input.parse::<syn::token::$t>()?; })*
                n => panic!("token {n}"),
            }
        };
    }
    let name = match t {
        Tok::P1(i) => PUNCT1[i as usize].1,
        Tok::P2(i) => PUNCT2[i as usize].1,
        Tok::Kw(i) => KEYWORDS[i as usize].1,
        Tok::Custom(i) => {
            use crate::types::kw;
            match toks::CUSTOM[i as usize] {
                "alpha" => drop(input.parse::<kw::alpha>()?),
                "beta" => drop(input.parse::<kw::beta>()?),
                "peek" => drop(input.parse::<kw::peek>()?),
                "any" => drop(input.parse::<kw::any>()?),
                "x" => drop(input.parse::<kw::x>()?),
                "value" => drop(input.parse::<kw::value>()?),
                n => panic!("keyword {n}"),
            }
            return Ok(());
        }
    };
    by_name!(
        name,
        Plus Minus Star Slash Percent Caret Not And Or At Comma Semi Colon Eq Lt Gt Question Pound Dollar Dot Tilde RArrow FatArrow EqEq Ne
        Le Ge AndAnd OrOr PathSep DotDot DotDotDot DotDotEq PlusEq ShlEq LArrow Fn Struct Enum If In Let For Where SelfValue SelfType
        Super Crate Async Type Mut Ref Dyn Default Auto Union Move As Impl Underscore
    );
    Ok(())
}

fn field(cx: &Cx, sc: &NSchema, f: &NField, input: ParseStream) -> syn::Result<()> {
    let leaf = |l: toks::NLeaf, any: bool| {
        let before = cx.search.get().then(|| input.cursor());
        l.parse(input, any).map(drop).inspect_err(|_| cx.what.set("value"))?;
        if let Some(b) = before {
            let n = input.cursor().token_stream().into_iter().count();
            let all: Vec<_> = b.token_stream().into_iter().collect();
            let read: TokenStream = all[..all.len() - n].iter().cloned().collect();
            if (|input: ParseStream| l.parse(input, any)).parse2(read).is_err() {
                cx.left.set(cx.left.get() + 1);
            }
        }
        Ok(())
    };
    match &f.kind {
        FieldKind::Leaf(l) => leaf(*l, f.any),
        FieldKind::Tok(t) => token(*t, input).inspect_err(|_| cx.what.set("token")),
        FieldKind::OptTok(t) => {
            let fork = input.fork();
            if token(*t, &fork).is_ok() { token(*t, input) } else { Ok(()) }
        }
        FieldKind::OptLeaf(l) => {
            if toks::peek_leaf(*l, false, 0, input) { leaf(*l, false) } else { Ok(()) }
        }
        FieldKind::Punct(l, sep) => {
            while !input.is_empty() {
                leaf(*l, f.any)?;
                if input.is_empty() {
                    break;
                }
                token(*sep, input).inspect_err(|_| cx.what.set("separator"))?;
            }
            Ok(())
        }
        FieldKind::Sub(i) | FieldKind::BoxSub(i) => schema(cx, &sc.subs[*i], input),
        FieldKind::SelfBox => schema(cx, sc, input),
        FieldKind::Param(g) => match &sc.generics[*g].kind {
            GenKind::Type(l, _) => leaf(*l, false),
            GenKind::Const => toks::p::<crate::types::Rep<2>>(input).map(drop).inspect_err(|_| cx.what.set("value")),
            GenKind::Lifetime => toks::p::<crate::types::Lt<'static>>(input).map(drop).inspect_err(|_| cx.what.set("value")),
        },
        FieldKind::Rest => {
            while !input.is_empty() {
                input.parse::<proc_macro2::TokenTree>()?;
            }
            Ok(())
        }
        FieldKind::LookMacroDelim => toks::p::<crate::types::look::MacroDelimiter>(input).map(drop).inspect_err(|_| cx.what.set("value")),
        FieldKind::Delim(_) | FieldKind::MacroDelim => Err(input.error("a delimiter without a symbol")),
    }
}
