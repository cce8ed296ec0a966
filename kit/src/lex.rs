//! Text <-> tokens helpers: layouts, invisible groups, token-level reduction.
use crate::tape::Src;
use proc_macro2::{Delimiter, Group, Ident, LineColumn, Spacing, TokenStream, TokenTree};
use std::str::FromStr;

pub fn lex(text: &str) -> Option<TokenStream> {
    std::panic::catch_unwind(|| TokenStream::from_str(text).ok()).ok().flatten()
}

/// `__none!(..)` stands for an invisible group around `..`
pub const NONE_MARK: &str = "__none";
pub fn none_groups(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if id == NONE_MARK && p.as_char() == '!' {
                let mut n = Group::new(Delimiter::None, none_groups(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
                i += 3;
                continue;
            }
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), none_groups(g.stream()));
                n.set_span(g.span());
                // keep the separate spans of the delimiters when nothing changed inside
                if has_none(g.stream()) { TokenTree::Group(n) } else { v[i].clone() }
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}
fn has_none(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == NONE_MARK,
        TokenTree::Group(g) => has_none(g.stream()),
        _ => false,
    })
}

pub fn delims(d: Delimiter) -> (&'static str, &'static str) {
    match d {
        Delimiter::Parenthesis => ("(", ")"),
        Delimiter::Bracket => ("[", "]"),
        Delimiter::Brace => ("{", "}"),
        Delimiter::None => ("", ""),
    }
}

/// structure of a token stream without spacing and positions
pub fn shape_string(ts: &TokenStream) -> String {
    let mut s = String::new();
    for t in ts.clone() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = delims(g.delimiter());
                s.push_str(a);
                s.push(' ');
                s.push_str(&shape_string(&g.stream()));
                s.push_str(b);
            }
            t => s.push_str(&t.to_string()),
        }
        s.push(' ');
    }
    s
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Canon,
    Compact,
    Wide,
}

/// Re-writes valid text with other white space. Falls back to the input if the
/// result would not be the same tokens.
pub fn layout(text: &str, how: Layout, s: &mut Src) -> String {
    if how == Layout::Canon {
        return text.to_string();
    }
    let Some(ts) = lex(text) else { return text.to_string() };
    let mut out = String::new();
    if how == Layout::Wide {
        out.push_str(s.pick(&["", " ", "\n", "/* x = 1, */ "]));
    }
    emit(&ts, how, s, &mut out);
    match lex(&out) {
        Some(t2) if shape_string(&t2) == shape_string(&ts) => out,
        _ => text.to_string(),
    }
}
fn emit(ts: &TokenStream, how: Layout, s: &mut Src, out: &mut String) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = delims(g.delimiter());
                out.push_str(a);
                if how == Layout::Wide && s.pct(30) {
                    out.push_str(s.pick(&[" ", "\n", " /* c */ "]));
                }
                emit(&g.stream(), how, s, out);
                if how == Layout::Wide && s.pct(30) {
                    out.push_str(s.pick(&[" ", "\n", " // c\n"]));
                }
                out.push_str(b);
            }
            t => out.push_str(&t.to_string()),
        }
        let Some(next) = v.get(i + 1) else { break };
        let must_glue = matches!(&v[i], TokenTree::Punct(p) if p.spacing() == Spacing::Joint && matches!(next, TokenTree::Punct(_)))
            || matches!(&v[i], TokenTree::Punct(p) if p.as_char() == '\'');
        if must_glue {
            // keep multi-character operators together, but `, -1` may still be spread
            if !matches!(&v[i], TokenTree::Punct(p) if p.as_char() == ',') {
                continue;
            }
        }
        let can_glue = match (&v[i], next) {
            (TokenTree::Ident(_) | TokenTree::Literal(_), TokenTree::Ident(_) | TokenTree::Literal(_)) => false,
            (TokenTree::Ident(_), TokenTree::Punct(p)) => !matches!(p.as_char(), '\'' | '#'),
            (TokenTree::Literal(_), TokenTree::Punct(p)) => !matches!(p.as_char(), '.' | '\'' | '#'),
            (TokenTree::Punct(a), TokenTree::Punct(b)) => match a.as_char() {
                ',' => true,
                '=' => i > 0 && matches!(&v[i - 1], TokenTree::Ident(_)) && !matches!(b.as_char(), '=' | '>'),
                _ => false,
            },
            (TokenTree::Punct(a), TokenTree::Literal(_)) => a.as_char() != '.',
            _ => true,
        };
        match how {
            Layout::Compact => {
                if !can_glue {
                    out.push(' ');
                }
            }
            _ => {
                if can_glue && s.pct(25) {
                } else {
                    out.push_str(s.pick(&[" ", " ", "\n", "  ", " /* a, b = 2 */ ", " // c(d)\n    "]));
                }
            }
        }
    }
}

/// byte ranges of all leaf tokens and whole groups of `text`, outermost first
pub fn token_ranges(text: &str) -> Vec<(usize, usize)> {
    let Some(ts) = lex(text) else { return vec![] };
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let off = |lc: LineColumn| -> usize {
        let base = starts.get(lc.line.wrapping_sub(1)).copied().unwrap_or(0);
        if text.is_ascii() {
            return (base + lc.column).min(text.len());
        }
        let line = &text[base..];
        line.char_indices().nth(lc.column).map_or(text.len(), |(i, _)| base + i)
    };
    fn walk(ts: TokenStream, off: &dyn Fn(LineColumn) -> usize, out: &mut Vec<(usize, usize)>) {
        for t in ts {
            out.push((off(t.span().start()), off(t.span().end())));
            if let TokenTree::Group(g) = t {
                walk(g.stream(), off, out);
            }
        }
    }
    let mut out = Vec::new();
    walk(ts, &off, &mut out);
    out
}

/// byte ranges of the outermost `__none!(..)`, with what is inside
pub fn marks(text: &str) -> Vec<(usize, usize, String)> {
    let Some(ts) = lex(text) else { return vec![] };
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let off = |lc: LineColumn| -> usize {
        let base = starts.get(lc.line.wrapping_sub(1)).copied().unwrap_or(0);
        text[base..].char_indices().nth(lc.column).map_or(text.len(), |(i, _)| base + i)
    };
    fn walk(ts: TokenStream, text: &str, off: &dyn Fn(LineColumn) -> usize, out: &mut Vec<(usize, usize, String)>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 2)) {
                (TokenTree::Ident(id), Some(TokenTree::Group(g))) if id == NONE_MARK => {
                    let (a, b, c) = (off(id.span().start()), off(g.span_open().end()), off(g.span_close().start()));
                    out.push((a, off(g.span_close().end()), text[b..c].to_string()));
                    i += 3;
                    continue;
                }
                (TokenTree::Group(g), _) => walk(g.stream(), text, off, out),
                _ => {}
            }
            i += 1;
        }
    }
    let mut out = Vec::new();
    walk(ts, text, &off, &mut out);
    out
}

/// greedy removal of tokens, keeping `fails` true
pub fn reduce(text: &str, end: std::time::Instant, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let mut cur = text.to_string();
    let mut budget = 1500;
    let mut chunk = token_ranges(&cur).len().next_power_of_two().max(2);
    while chunk > 1 {
        chunk /= 2;
        let mut i = 0;
        let mut r = token_ranges(&cur);
        loop {
            if i >= r.len() || budget == 0 || std::time::Instant::now() > end {
                break;
            }
            let (a, _) = r[i];
            let j = (i + chunk - 1).min(r.len() - 1);
            let b = r[i..=j].iter().map(|x| x.1).max().unwrap();
            budget -= 1;
            if a < b && b <= cur.len() && cur.is_char_boundary(a) && cur.is_char_boundary(b) {
                let t = format!("{}{}", &cur[..a], &cur[b..]);
                if lex(&t).is_some() && fails(&t) {
                    cur = t;
                    r = token_ranges(&cur);
                    continue;
                }
            }
            i += 1;
        }
    }
    // shorter white space
    let t = cur.split_whitespace().collect::<Vec<_>>().join(" ");
    if t != cur && lex(&t).is_some() && fails(&t) {
        cur = t;
    }
    cur
}

/// names appearing as identifiers at the top level of the stream
pub fn idents(ts: &TokenStream) -> Vec<Ident> {
    ts.clone().into_iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i) } else { None }).collect()
}

/// nothing but empty invisible groups: syn takes this for the end of the input
pub fn nothing(ts: TokenStream) -> bool {
    ts.into_iter().all(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::None && nothing(g.stream())))
}
