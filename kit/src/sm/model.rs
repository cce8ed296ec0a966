//! Reference model: an interpreter of a StructMeta definition written from the
//! documentation. Leaf values are read with syn, which is not under test.
use super::schema::*;
use crate::val::{Pos, Val};
use proc_macro2::{Delimiter, Ident, TokenTree};
use std::cell::RefCell;
use std::collections::BTreeMap;
use syn::Token;
use syn::buffer::Cursor;
use syn::ext::IdentExt;
use syn::parse::{ParseBuffer, ParseStream, Parser};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Bare,
    Eq,
    Paren,
    Other,
}

#[derive(Clone, PartialEq, Debug)]
pub enum FaultKind {
    /// required named parameters that were not supplied
    Missing(Vec<(String, Style)>),
    MissingPositional,
    Dup(String),
    Unknown(String),
    WrongStyle(String, Vec<Style>, Form),
    TooMany,
    AfterNamed,
    Value,
    Separator,
    Leftover,
}
impl FaultKind {
    pub fn label(&self) -> &'static str {
        match self {
            FaultKind::Missing(_) => "missing-named",
            FaultKind::MissingPositional => "missing-positional",
            FaultKind::Dup(_) => "duplicate",
            FaultKind::Unknown(_) => "unknown-name",
            FaultKind::WrongStyle(..) => "wrong-style",
            FaultKind::TooMany => "too-many-positional",
            FaultKind::AfterNamed => "positional-after-named",
            FaultKind::Value => "bad-value",
            FaultKind::Separator => "separator",
            FaultKind::Leftover => "leftover-in-parens",
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Fault {
    pub kind: FaultKind,
    /// location of the culprit token, where the property defines one
    pub pos: Option<Pos>,
    /// nesting depth of the list that is at fault
    pub depth: usize,
    /// names declared by the list at fault
    pub declared: Vec<String>,
    /// messages and places of the value's own parser (for a value that does not parse);
    /// or another name of `pos` (inside an invisible group)
    pub err: Option<Vec<(String, Pos)>>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Stop {
    Fault(Fault),
    Unspec(&'static str),
}
type R<T> = Result<T, Stop>;

pub fn eval(schema: &SmSchema, ts: proc_macro2::TokenStream) -> R<Vec<Val>> {
    eval_in(schema, ts, &None)
}
/// the list as it stands alone or in an attribute
pub fn eval_in(schema: &SmSchema, ts: proc_macro2::TokenStream, attr: &Option<syn::Attribute>) -> R<Vec<Val>> {
    LEFT.with_borrow_mut(|l| l.clear());
    let mut out = None;
    let read = |input: ParseStream| {
        out = Some(list(schema, input, 0));
        // whatever remains is of no interest (only after a fault)
        let _: proc_macro2::TokenStream = input.parse()?;
        Ok(())
    };
    let r = match attr {
        Some(a) => a.parse_args_with(read),
        None => read.parse2(ts),
    };
    let v = out.unwrap()?;
    let mut left = LEFT.take();
    if let Err(e) = r {
        // tokens are left unread inside a group
        let e = errors(e);
        let Some(Stop::Fault(f)) = left.pop() else {
            // opened by a leaf parser
            return Err(Stop::Fault(Fault { kind: FaultKind::Value, pos: None, depth: 0, declared: vec![], err: Some(e) }));
        };
        // which of several such groups is reported is not specified
        let same = |p: &Pos| p.start() == e[0].1.start();
        let only = left.is_empty() && (f.pos.iter().any(same) || f.err.iter().flatten().any(|x| same(&x.1)));
        return Err(Stop::Fault(if only { f } else { Fault { pos: None, err: None, ..f } }));
    }
    if let Some(f) = left.pop() {
        return Err(f);
    }
    Ok(v)
}
thread_local! {
    static LEFT: RefCell<Vec<Stop>> = const { RefCell::new(vec![]) };
}
/// messages and places
pub fn errors(e: syn::Error) -> Vec<(String, Pos)> {
    e.into_iter().map(|e| (e.to_string(), Pos::of(e.span()))).collect()
}

fn shape(cur: Cursor) -> Option<(Ident, Form)> {
    let (id, after) = cur.ident()?;
    let form = if after.eof() {
        Form::Bare
    } else if let Some((p, next)) = after.punct() {
        match p.as_char() {
            ',' => Form::Bare,
            '=' => {
                let glued = p.spacing() == proc_macro2::Spacing::Joint
                    && next.punct().is_some_and(|(q, _)| q.as_char() == '=' || q.as_char() == '>');
                if glued { Form::Other } else { Form::Eq }
            }
            _ => Form::Other,
        }
    } else if after.group(Delimiter::Parenthesis).is_some() {
        Form::Paren
    } else {
        Form::Other
    };
    Some((id, form))
}

fn first_pos(input: ParseStream) -> Pos {
    Pos::of(input.span())
}
/// the place of the first visible token, as an alternative to `first_pos`
fn visible(input: ParseStream) -> Vec<(String, Pos)> {
    fn first(ts: proc_macro2::TokenStream) -> Option<Pos> {
        ts.into_iter().find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => first(g.stream()),
            TokenTree::Group(g) => Some(Pos::of(g.span_open())),
            t => Some(Pos::of(t.span())),
        })
    }
    first(input.cursor().token_stream()).map(|p| (String::new(), p)).into_iter().collect()
}
fn misplaced(stop: Stop, alt: Vec<(String, Pos)>) -> Stop {
    match stop {
        Stop::Fault(f) => Stop::Fault(Fault { err: Some(alt), ..f }),
        s => s,
    }
}

pub fn snake(s: &str) -> bool {
    s.chars().all(|c| matches!(c, 'a'..='z' | '0'..='9' | '_'))
}

fn list(sc: &SmSchema, input: ParseStream, depth: usize) -> R<Vec<Val>> {
    let declared: Vec<String> = sc.named().iter().map(|&i| sc.fields[i].name()).collect();
    let fault = |kind: FaultKind, pos: Option<Pos>| Stop::Fault(Fault { kind, pos, depth, declared: declared.clone(), err: None });
    let n = sc.fields.len();
    let mut slots: Vec<Option<Val>> = vec![None; n];
    let mut var_items = Vec::new();
    let mut rest_map: BTreeMap<String, Val> = BTreeMap::new();

    let mut first = true;
    // required positional prefix
    for i in sc.req() {
        if !first {
            if input.is_empty() {
                return Err(fault(FaultKind::MissingPositional, None));
            }
            comma(input).map_err(|(p, alt)| misplaced(fault(FaultKind::Separator, Some(p)), alt))?;
        }
        first = false;
        if input.is_empty() {
            return Err(fault(FaultKind::MissingPositional, None));
        }
        slots[i] = Some(leaf(sc, i, input, depth, &fault)?);
    }

    let opts = sc.opts();
    let var = sc.var();
    let takes_positional = !opts.is_empty() || var.is_some();
    let rest = sc.rest();
    let any = |f: &dyn Fn(Style) -> bool| sc.fields.iter().any(|x| matches!(x.role, Role::Named | Role::Rest) && f(x.style));
    let has_flag = any(&Style::flag_form);
    let has_nv = any(&Style::nv_form);
    let has_na = any(&Style::na_form);

    let mut pos_index = 0;
    let mut named_seen = false;
    while !input.is_empty() {
        if !first {
            comma(input).map_err(|(p, alt)| misplaced(fault(FaultKind::Separator, Some(p)), alt))?;
            if input.is_empty() {
                break;
            }
        }
        first = false;
        let here = first_pos(input);
        let mut as_named = None;
        if let Some((id, form)) = shape(input.cursor()) {
            let name = id.to_string();
            if !sc.filter || snake(&name) {
                let style_declared = match form {
                    Form::Bare => has_flag,
                    Form::Eq => has_nv,
                    Form::Paren => has_na,
                    Form::Other => false,
                };
                if style_declared || !takes_positional {
                    as_named = Some((name, form));
                }
            }
        }
        let Some((name, form)) = as_named else {
            // positional value
            if !takes_positional {
                return Err(fault(FaultKind::TooMany, Some(here)));
            }
            if named_seen {
                return Err(fault(FaultKind::AfterNamed, Some(here)));
            }
            if pos_index < opts.len() {
                let i = opts[pos_index];
                let v = leaf(sc, i, input, depth, &fault)?;
                slots[i] = Some(Val::Some(Box::new(v)));
            } else if let Some(i) = var {
                var_items.push(leaf(sc, i, input, depth, &fault)?);
            } else {
                return Err(fault(FaultKind::TooMany, Some(here)));
            }
            pos_index += 1;
            continue;
        };
        // named argument (a raw identifier is another name than the plain one)
        named_seen = true;
        let accepts = |st: Style| match form {
            Form::Bare => st.flag_form(),
            Form::Eq => st.nv_form(),
            Form::Paren => st.na_form(),
            Form::Other => false,
        };
        let target = sc.named().into_iter().find(|&i| sc.fields[i].name() == name);
        if let Some(i) = target {
            let f = &sc.fields[i];
            if !accepts(f.style) {
                if rest.is_some_and(|r| accepts(sc.fields[r].style)) {
                    return Err(Stop::Unspec("declared name in a style only the rest map takes"));
                }
                return Err(fault(FaultKind::WrongStyle(name, vec![f.style], form), Some(here)));
            }
            let v = named_value(sc, i, form, input, depth, &fault);
            if slots[i].is_some() {
                // a repeated argument with a bad value has two faults
                let kind = if v.is_ok() { FaultKind::Dup(name) } else { FaultKind::Value };
                return Err(fault(kind, Some(here)));
            }
            slots[i] = Some(v?);
        } else if let Some(r) = rest {
            if !accepts(sc.fields[r].style) {
                return Err(fault(FaultKind::WrongStyle(name, vec![sc.fields[r].style], form), Some(here)));
            }
            let v = named_value(sc, r, form, input, depth, &fault);
            if rest_map.contains_key(&name) {
                let kind = if v.is_ok() { FaultKind::Dup(name) } else { FaultKind::Value };
                return Err(fault(kind, Some(here)));
            }
            rest_map.insert(name, v?);
        } else {
            return Err(fault(FaultKind::Unknown(name), Some(here)));
        }
    }

    // defaults and missing arguments
    let mut out = Vec::new();
    let mut missing = Vec::new();
    for (i, f) in sc.fields.iter().enumerate() {
        let v = slots[i].take();
        out.push(match f.role {
            Role::Req => v.unwrap(),
            Role::Opt => v.unwrap_or(Val::None),
            Role::Var => Val::List(std::mem::take(&mut var_items)),
            Role::Rest => Val::Map(std::mem::take(&mut rest_map)),
            Role::Named if f.opt => v.map_or(Val::None, |v| Val::Some(Box::new(v))),
            Role::Named => match (v, f.style) {
                (Some(v), _) => v,
                (None, Style::Bool) => Val::Bool(false),
                (None, Style::Flag) => Val::Flag(None),
                (None, st) => {
                    missing.push((f.name(), st));
                    Val::None
                }
            },
        });
    }
    if !missing.is_empty() {
        return Err(fault(FaultKind::Missing(missing), None));
    }
    Ok(out)
}

fn comma(input: ParseStream) -> Result<(), (Pos, Vec<(String, Pos)>)> {
    let p = (first_pos(input), visible(input));
    input.parse::<Token![,]>().map(|_| ()).map_err(|_| p)
}

type Mk<'a> = &'a dyn Fn(FaultKind, Option<Pos>) -> Stop;

fn leaf(sc: &SmSchema, i: usize, input: ParseStream, depth: usize, fault: Mk) -> R<Val> {
    match sc.leaf_of(&sc.fields[i]) {
        LeafRef::L(l) => l.parse(input).map_err(|e| match fault(FaultKind::Value, None) {
            Stop::Fault(f) => Stop::Fault(Fault { err: Some(errors(e)), ..f }),
            s => s,
        }),
        LeafRef::Sub(s) => list(s, input, depth + 1).map(Val::Sub),
    }
}

fn named_value(sc: &SmSchema, i: usize, form: Form, input: ParseStream, depth: usize, fault: Mk) -> R<Val> {
    let f = &sc.fields[i];
    let id = Ident::parse_any(input).expect("shape() saw an identifier");
    let pos = Pos::of(id.span());
    let wrap_nv = |v: Val| Val::NV(pos, Box::new(v));
    let wrap_na = |v: Val| Val::NA(pos, Box::new(v));
    match form {
        Form::Bare => Ok(match f.style {
            Style::Bool => Val::Bool(true),
            Style::Flag => Val::Flag(Some(pos)),
            Style::NVO => wrap_nv(Val::None),
            Style::NAO | Style::NAOL => wrap_na(Val::None),
            _ => unreachable!(),
        }),
        Form::Eq => {
            input.parse::<Token![=]>().expect("shape() saw `=`");
            let v = leaf(sc, i, input, depth, fault)?;
            Ok(match f.style {
                Style::V => v,
                Style::NV => wrap_nv(v),
                Style::NVO => wrap_nv(Val::Some(Box::new(v))),
                _ => unreachable!(),
            })
        }
        Form::Paren => {
            let c = group_content(input);
            let v = if f.style.is_list() { arg_list(sc, i, &c, depth, fault) } else { leaf(sc, i, &c, depth, fault) }?;
            // an inner value may be followed by unread tokens: always a fault
            if !crate::lex::nothing(c.cursor().token_stream()) {
                // (of all faults the last one that is reported)
                LEFT.with_borrow_mut(|l| l.push(misplaced(fault(FaultKind::Leftover, Some(first_pos(&c))), visible(&c))));
            }
            Ok(match f.style {
                Style::L => v,
                Style::NA | Style::NAL => wrap_na(v),
                Style::NAO | Style::NAOL => wrap_na(Val::Some(Box::new(v))),
                _ => unreachable!(),
            })
        }
        Form::Other => unreachable!(),
    }
}

fn group_content<'a>(input: &ParseBuffer<'a>) -> ParseBuffer<'a> {
    fn open<'a>(input: &ParseBuffer<'a>) -> syn::Result<ParseBuffer<'a>> {
        let content;
        syn::parenthesized!(content in input);
        Ok(content)
    }
    open(input).expect("shape() saw `(`")
}

/// items separated by commas, optional trailing comma
fn arg_list(sc: &SmSchema, i: usize, c: ParseStream, depth: usize, fault: Mk) -> R<Val> {
    let mut items = Vec::new();
    while !c.is_empty() {
        items.push(leaf(sc, i, c, depth, fault)?);
        if c.is_empty() {
            break;
        }
        if let Err((p, alt)) = comma(c) {
            return Err(misplaced(fault(FaultKind::Leftover, Some(p)), alt));
        }
    }
    Ok(Val::List(items))
}
