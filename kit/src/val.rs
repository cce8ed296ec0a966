//! Observed values, common to the real parsers and the reference models.
use proc_macro2::{Spacing, Span, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Pos(pub usize, pub usize, pub usize, pub usize);
impl Pos {
    pub const ZERO: Pos = Pos(0, 0, 0, 0);
    pub fn of(s: Span) -> Pos {
        let a = s.start();
        let b = s.end();
        crate::probe::map(Pos(a.line, a.column, b.line, b.column))
    }
    pub fn start(&self) -> (usize, usize) {
        (self.0, self.1)
    }
}

/// tokens as text, independent of white space, of invisible groups and of the
/// accidental gluing of `,` and `=` to what follows
pub fn canon(ts: TokenStream) -> String {
    let mut s = String::new();
    fn walk(ts: TokenStream, s: &mut String) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = crate::lex::delims(g.delimiter());
                    s.push_str(a);
                    walk(g.stream(), s);
                    s.push_str(b);
                }
                TokenTree::Punct(p) => {
                    s.push(p.as_char());
                    if p.spacing() == Spacing::Joint {
                        let glued = match (p.as_char(), v.get(i + 1)) {
                            (',', _) => false,
                            // the compiler does not glue to a lifetime
                            (_, Some(TokenTree::Punct(n))) if n.as_char() == '\'' => false,
                            ('=', Some(TokenTree::Punct(n))) => matches!(n.as_char(), '=' | '>'),
                            (_, Some(TokenTree::Punct(_))) => true,
                            ('\'', _) => true,
                            _ => false,
                        };
                        if glued {
                            continue;
                        }
                    }
                }
                t => s.push_str(&t.to_string()),
            }
            if !s.ends_with(' ') && !s.is_empty() {
                s.push(' ');
            }
        }
    }
    walk(ts, &mut s);
    s.trim().to_string()
}

#[derive(Clone, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Val {
    Bool(bool),
    Flag(Option<Pos>),
    Leaf(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(BTreeMap<String, Val>),
    NV(Pos, Box<Val>),
    NA(Pos, Box<Val>),
    Sub(Vec<Val>),
    /// enum variant index with the fields
    Var(usize, Vec<Val>),
    /// delimiter kind: '(' '[' '{'
    Delim(char),
}
impl Val {
    /// the value with all positions removed
    pub fn strip(&self) -> Val {
        match self {
            Val::Flag(Some(_)) => Val::Flag(Some(Pos::ZERO)),
            Val::Some(v) => Val::Some(Box::new(v.strip())),
            Val::List(v) => Val::List(v.iter().map(|v| v.strip()).collect()),
            Val::Map(m) => Val::Map(m.iter().map(|(k, v)| (k.clone(), v.strip())).collect()),
            Val::NV(_, v) => Val::NV(Pos::ZERO, Box::new(v.strip())),
            Val::NA(_, v) => Val::NA(Pos::ZERO, Box::new(v.strip())),
            Val::Sub(v) => Val::Sub(v.iter().map(|v| v.strip()).collect()),
            Val::Var(i, v) => Val::Var(*i, v.iter().map(|v| v.strip()).collect()),
            v => v.clone(),
        }
    }
    pub fn leaf<T: quote::ToTokens>(t: &T) -> Val {
        Val::Leaf(canon(t.to_token_stream()))
    }
    pub fn count_spans(&self) -> usize {
        match self {
            Val::Flag(Some(_)) => 1,
            Val::Some(v) => v.count_spans(),
            Val::List(v) | Val::Sub(v) | Val::Var(_, v) => v.iter().map(|v| v.count_spans()).sum(),
            Val::Map(m) => m.values().map(|v| v.count_spans()).sum(),
            Val::NV(_, v) | Val::NA(_, v) => 1 + v.count_spans(),
            _ => 0,
        }
    }
    pub fn count_leaves(&self) -> usize {
        match self {
            Val::Leaf(_) => 1,
            Val::Some(v) | Val::NV(_, v) | Val::NA(_, v) => v.count_leaves(),
            Val::List(v) | Val::Sub(v) | Val::Var(_, v) => v.iter().map(|v| v.count_leaves()).sum(),
            Val::Map(m) => m.values().map(|v| v.count_leaves()).sum(),
            _ => 0,
        }
    }
    pub fn show(&self) -> String {
        let pos = |p: &Pos| if *p == Pos::ZERO { String::new() } else { format!("@{}:{}", p.0, p.1) };
        match self {
            Val::Bool(b) => format!("{b}"),
            Val::Flag(None) => "flag:unset".into(),
            Val::Flag(Some(p)) => format!("flag:set{}", pos(p)),
            Val::Leaf(s) => format!("`{s}`"),
            Val::None => "None".into(),
            Val::Some(v) => format!("Some({})", v.show()),
            Val::List(v) => format!("[{}]", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
            Val::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", v.show())).collect::<Vec<_>>().join(", ")),
            Val::NV(p, v) => format!("NameValue{}({})", pos(p), v.show()),
            Val::NA(p, v) => format!("NameArgs{}({})", pos(p), v.show()),
            Val::Sub(v) => format!("({})", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
            Val::Var(i, v) => format!("variant#{i}({})", v.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
            Val::Delim(c) => format!("delim{c}"),
        }
    }
}
