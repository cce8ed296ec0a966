//! Reference reading of a token sequence by a definition.
use super::rt::{delimval, tokval};
use super::schema::*;
use super::toks;
use crate::val::Val;
use proc_macro2::{Delimiter, TokenStream};
use std::cell::Cell;
use syn::parse::discouraged::Speculative;
use syn::parse::{ParseStream, Parser};

pub struct Ctx {
    /// a variant tried speculatively left tokens inside a group
    pub lenient: Cell<bool>,
    depth: Cell<usize>,
    /// a variant was chosen by peeking / by trying / after another one was skipped
    pub peeked: Cell<u32>,
    pub tried: Cell<u32>,
    pub skipped: Cell<u32>,
    /// tokens left inside a group do not end the attempt, they are reported at the very end
    deferred: bool,
    unexpected: Cell<bool>,
}
pub struct ModelOut {
    pub res: Option<(Val, TokenStream)>,
    /// when `lenient`: the reading in which tokens left in a group of a tried variant are only reported at the end
    pub other: Option<(Val, TokenStream)>,
    pub lenient: bool,
    pub peeked: u32,
    pub tried: u32,
    pub skipped: u32,
}

pub fn eval(sc: &NSchema, ts: TokenStream) -> ModelOut {
    let mut m = eval_as(sc, ts.clone(), false);
    if m.lenient {
        m.other = eval_as(sc, ts, true).res;
    }
    m
}
/// where the parsers of the fields are called; nothing if it depends on when tokens left in a group are noticed
pub fn calls(sc: &NSchema, ts: TokenStream) -> Option<Vec<crate::types::Call>> {
    let now = crate::types::calls(|| eval_as(sc, ts.clone(), false)).1;
    let later = crate::types::calls(|| eval_as(sc, ts, true)).1;
    (now == later).then_some(now)
}
fn eval_as(sc: &NSchema, ts: TokenStream, deferred: bool) -> ModelOut {
    let cx = Ctx {
        lenient: Cell::new(false),
        depth: Cell::new(0),
        peeked: Cell::new(0),
        tried: Cell::new(0),
        skipped: Cell::new(0),
        deferred,
        unexpected: Cell::new(false),
    };
    let mut res = (|input: ParseStream| {
        let v = schema(&cx, sc, &[], input)?;
        let rest: TokenStream = input.parse()?;
        Ok((v, rest))
    })
    .parse2(ts)
    .ok();
    if cx.unexpected.get() {
        res = None;
    }
    ModelOut { res, other: None, lenient: cx.lenient.get(), peeked: cx.peeked.get(), tried: cx.tried.get(), skipped: cx.skipped.get() }
}

fn schema(cx: &Ctx, sc: &NSchema, _up: &[&NSchema], input: ParseStream) -> syn::Result<Val> {
    if !sc.is_enum {
        return Ok(Val::Sub(fields(cx, sc, &sc.variants[0], input)?));
    }
    for (k, v) in sc.variants.iter().enumerate() {
        let peeks: Vec<usize> = roots(&v.fields).into_iter().filter(|&i| v.fields[i].peek).collect();
        if peeks.is_empty() {
            let fork = input.fork();
            let before = cx.unexpected.get();
            cx.depth.set(cx.depth.get() + 1);
            let r = fields(cx, sc, v, &fork);
            cx.depth.set(cx.depth.get() - 1);
            match r {
                Ok(r) => {
                    cx.tried.set(cx.tried.get() + 1);
                    input.advance_to(&fork);
                    return Ok(Val::Var(k, r));
                }
                Err(_) => {
                    cx.unexpected.set(before);
                    cx.skipped.set(cx.skipped.get() + 1)
                }
            }
        } else if peeks.iter().enumerate().all(|(at, &i)| peek(&v.fields[i], at, input)) {
            cx.peeked.set(cx.peeked.get() + 1);
            return Ok(Val::Var(k, fields(cx, sc, v, input)?));
        } else {
            cx.skipped.set(cx.skipped.get() + 1);
        }
    }
    Err(input.error("no variant"))
}

/// the `at`-th token tree (a lifetime counts as one)
fn nth(input: ParseStream, at: usize) -> Option<TokenStream> {
    let f = input.fork();
    for _ in 0..at {
        if f.peek(syn::Lifetime) {
            f.parse::<syn::Lifetime>().ok()?;
        } else {
            f.parse::<proc_macro2::TokenTree>().ok()?;
        }
    }
    f.parse().ok()
}

pub fn peek(f: &NField, at: usize, input: ParseStream) -> bool {
    match &f.kind {
        FieldKind::Leaf(l) => toks::peek_leaf(*l, f.any, at, input),
        FieldKind::Tok(t) => nth(input, at).is_some_and(|r| {
            (|i: ParseStream| {
                t.parse(i)?;
                i.parse::<TokenStream>()
            })
            .parse2(r)
            .is_ok()
        }),
        FieldKind::Delim(c) => nth(input, at).is_some_and(|r| {
            matches!(r.into_iter().next(), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == delimiter(*c))
        }),
        k => panic!("{k:?} cannot be peeked"),
    }
}
pub fn delimiter(c: char) -> Delimiter {
    match c {
        '(' => Delimiter::Parenthesis,
        '[' => Delimiter::Bracket,
        _ => Delimiter::Brace,
    }
}
pub fn delimiter_char(d: Delimiter) -> Option<char> {
    match d {
        Delimiter::Parenthesis => Some('('),
        Delimiter::Bracket => Some('['),
        Delimiter::Brace => Some('{'),
        Delimiter::None => None,
    }
}

fn fields(cx: &Ctx, sc: &NSchema, v: &NVariant, input: ParseStream) -> syn::Result<Vec<Val>> {
    let items = tree(&v.fields).expect("well-formed definition");
    let mut out: Vec<Option<Val>> = vec![None; v.fields.len()];
    walk(cx, sc, v, &items, input, &mut out)?;
    Ok(out.into_iter().map(|v| v.unwrap()).collect())
}
fn walk(cx: &Ctx, sc: &NSchema, v: &NVariant, items: &[Item], input: ParseStream, out: &mut Vec<Option<Val>>) -> syn::Result<()> {
    for it in items {
        match it {
            Item::Field(i) => out[*i] = Some(field(cx, sc, &v.fields[*i], input)?),
            Item::Group(i, inner) => {
                let want = match &v.fields[*i].kind {
                    FieldKind::Delim(c) => Some(*c),
                    _ => None,
                };
                let (c, span, content) = input.step(|cur| match cur.any_group() {
                    Some((inside, d, span, next)) if delimiter_char(d).is_some_and(|c| want.is_none_or(|w| w == c)) => {
                        Ok(((delimiter_char(d).unwrap(), span, inside.token_stream()), next))
                    }
                    _ => Err(cur.error("group")),
                })?;
                out[*i] = Some(delimval(c, span));
                let done = Cell::new(false);
                let left = (|i: ParseStream| {
                    walk(cx, sc, v, inner, i, out)?;
                    let left = !crate::lex::nothing(i.cursor().token_stream());
                    let _: TokenStream = i.parse()?;
                    done.set(true);
                    Ok(left)
                })
                .parse2(content);
                // syn itself also reports tokens left in inner groups at the end
                let left = match left {
                    Err(_) if done.get() => true,
                    r => r?,
                };
                if left {
                    if cx.depth.get() > 0 {
                        cx.lenient.set(true);
                    }
                    if !cx.deferred {
                        return Err(input.error("left over"));
                    }
                    cx.unexpected.set(true);
                }
            }
        }
    }
    Ok(())
}

fn field(cx: &Ctx, sc: &NSchema, f: &NField, input: ParseStream) -> syn::Result<Val> {
    let called = || {
        if sc.is_seen(f) {
            crate::types::called(input)
        }
    };
    if !matches!(f.kind, FieldKind::Punct(..)) {
        called();
    }
    match &f.kind {
        FieldKind::Leaf(l) => Ok(tokval(l.parse(input, f.any)?)),
        FieldKind::Tok(t) => Ok(tokval(t.parse(input)?)),
        FieldKind::OptTok(t) => {
            let fork = input.fork();
            match t.parse(&fork) {
                Ok(r) => {
                    input.advance_to(&fork);
                    Ok(Val::Some(Box::new(tokval(r))))
                }
                Err(_) => Ok(Val::None),
            }
        }
        FieldKind::OptLeaf(l) => {
            if toks::peek_leaf(*l, false, 0, input) {
                Ok(Val::Some(Box::new(tokval(l.parse(input, false)?))))
            } else {
                Ok(Val::None)
            }
        }
        FieldKind::Punct(l, sep) => {
            let mut v = Vec::new();
            while !input.is_empty() {
                called();
                v.push(tokval(l.parse(input, f.any)?));
                if input.is_empty() {
                    break;
                }
                called();
                v.push(tokval(sep.parse(input)?));
            }
            Ok(Val::List(v))
        }
        FieldKind::Sub(i) | FieldKind::BoxSub(i) => schema(cx, &sc.subs[*i], &[], input),
        FieldKind::SelfBox => schema(cx, sc, &[], input),
        FieldKind::Param(g) => match &sc.generics[*g].kind {
            GenKind::Type(l, _) => Ok(tokval(l.parse(input, false)?)),
            GenKind::Const => Ok(tokval(toks::p::<crate::types::Rep<2>>(input)?)),
            GenKind::Lifetime => Ok(tokval(toks::p::<crate::types::Lt<'static>>(input)?)),
        },
        FieldKind::Rest => {
            // token by token, so that a fork stays in its buffer
            let mut ts = TokenStream::new();
            while !input.is_empty() {
                ts.extend([input.parse::<proc_macro2::TokenTree>()?]);
            }
            Ok(tokval(ts))
        }
        FieldKind::LookMacroDelim => Ok(tokval(toks::p::<crate::types::look::MacroDelimiter>(input)?)),
        FieldKind::Delim(_) | FieldKind::MacroDelim => Err(input.error("a delimiter without a symbol")),
    }
}
