//! Values and token sequences for a definition.
use super::rt::Piece;
use super::schema::*;
use super::toks::{ANY_IDENTS, NLeaf};
use crate::lex;
use crate::tape::Src;
use proc_macro2::{TokenStream, TokenTree};

/// a value in printing order
#[derive(Clone, Debug)]
pub enum TV {
    Leaf(String),
    Group(char, Vec<TV>),
    Variant(usize),
    Present(bool),
    Count(usize, bool),
}

fn optional(s: &mut Src, inner: TV, out: &mut Vec<TV>) {
    let on = s.pct(55);
    out.push(TV::Present(on));
    if on {
        out.push(inner);
    }
}

pub fn value(sc: &NSchema, s: &mut Src, depth: u32, out: &mut Vec<TV>) {
    let mut k = 0;
    if sc.is_enum {
        k = s.below(sc.variants.len());
        if depth >= 2 && sc.variants[k].fields.iter().any(|f| f.kind == FieldKind::SelfBox) {
            k = sc.variants.iter().position(|v| v.fields.iter().all(|f| f.kind != FieldKind::SelfBox)).unwrap_or(0);
        }
        out.push(TV::Variant(k));
    }
    let v = &sc.variants[k];
    let items = tree(&v.fields).expect("well-formed definition");
    fields(sc, v, &items, s, depth, out);
}

fn fields(sc: &NSchema, v: &NVariant, items: &[Item], s: &mut Src, depth: u32, out: &mut Vec<TV>) {
    for it in items {
        match it {
            Item::Group(i, inner) => {
                let c = match v.fields[*i].kind {
                    FieldKind::Delim(c) => c,
                    _ => *s.pick(&['(', '[', '{']),
                };
                let mut g = Vec::new();
                fields(sc, v, inner, s, depth, &mut g);
                out.push(TV::Group(c, g));
            }
            Item::Field(i) => {
                let f = &v.fields[*i];
                match &f.kind {
                    FieldKind::Leaf(l) => out.push(TV::Leaf(l.text(s, f.any))),
                    FieldKind::Tok(t) => out.push(TV::Leaf(t.text().into())),
                    FieldKind::OptTok(t) => optional(s, TV::Leaf(t.text().into()), out),
                    FieldKind::OptLeaf(l) => {
                        let t = l.text(s, false);
                        optional(s, TV::Leaf(t), out)
                    }
                    FieldKind::Punct(l, sep) => {
                        let mut n = s.weighted(&[18, 28, 28, 16, 10]);
                        if s.pct(1) && s.pct(30) {
                            n = *s.pick(&[12, 40, 130, 300]);
                        }
                        let trailing = n > 0 && s.pct(30);
                        out.push(TV::Count(n, trailing));
                        for j in 0..n {
                            out.push(TV::Leaf(l.text(s, f.any)));
                            if j + 1 < n || trailing {
                                out.push(TV::Leaf(sep.text().into()));
                            }
                        }
                    }
                    FieldKind::Sub(k) | FieldKind::BoxSub(k) => value(&sc.subs[*k], s, depth, out),
                    FieldKind::SelfBox => value(sc, s, depth + 1, out),
                    FieldKind::Param(g) => out.push(TV::Leaf(match &sc.generics[*g].kind {
                        GenKind::Type(l, _) => l.text(s, false),
                        GenKind::Const => "1 + 2".into(),
                        GenKind::Lifetime => "7".into(),
                    })),
                    FieldKind::Rest => out.push(TV::Leaf(s.pick(&["", "a", "a, b", "1 2", "+ (x)", "fn [ ] { }"]).to_string())),
                    FieldKind::LookMacroDelim => out.push(TV::Leaf("@ 1".into())),
                    FieldKind::Delim(_) | FieldKind::MacroDelim => unreachable!(),
                }
            }
        }
    }
}

pub fn text(v: &[TV]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            TV::Leaf(l) => {
                s.push_str(l);
                s.push(' ');
            }
            TV::Group(c, g) => {
                s.push(*c);
                s.push_str(text(g).trim());
                s.push(close(*c));
                s.push(' ');
            }
            _ => {}
        }
    }
    s.trim_end().to_string()
}

/// cut the lexed text into the pieces of the value; None if it does not fit
pub fn pieces(v: &[TV], ts: TokenStream) -> Option<Vec<Piece>> {
    let mut it = ts.into_iter();
    let mut out = Vec::new();
    cut(v, &mut it, &mut out)?;
    it.next().is_none().then_some(out)
}
fn cut(v: &[TV], it: &mut dyn Iterator<Item = TokenTree>, out: &mut Vec<Piece>) -> Option<()> {
    for t in v {
        match t {
            TV::Leaf(l) => {
                let n = lex::lex(l)?.into_iter().count();
                out.push(Piece::Leaf((0..n).map(|_| it.next()).collect::<Option<TokenStream>>()?));
            }
            TV::Group(c, g) => {
                let TokenTree::Group(tok) = it.next()? else { return None };
                out.push(Piece::Delim(*c, tok.delim_span()));
                let mut inner = tok.stream().into_iter();
                cut(g, &mut inner, out)?;
                if inner.next().is_some() {
                    return None;
                }
            }
            TV::Variant(k) => out.push(Piece::Variant(*k)),
            TV::Present(b) => out.push(Piece::Present(*b)),
            TV::Count(n, t) => out.push(Piece::Count(*n, *t)),
        }
    }
    Some(())
}

#[derive(Clone, Debug)]
pub struct NMix {
    /// weights of 0, 1, 2, 3 changes
    pub changes: [u32; 4],
    /// further tokens after the value
    pub trailing: u32,
    /// text unrelated to the definition
    pub soup: u32,
    /// weights: delete, double, insert, replace, swap, other delimiter, wrap, unwrap, extra in group, keyword for identifier, glue/split
    pub kinds: [u32; 11],
    pub layout: u32,
}
pub const MIX: NMix = NMix { changes: [40, 45, 10, 5], trailing: 25, soup: 2, kinds: [12, 6, 12, 12, 8, 14, 5, 6, 14, 8, 3], layout: 25 };

pub fn some_token(sc: &NSchema, s: &mut Src) -> String {
    // often a token that another field or variant expects
    if s.pct(60) {
        let mut all = Vec::new();
        fn collect<'a>(sc: &'a NSchema, v: &mut Vec<&'a NField>) {
            v.extend(sc.fields());
            for x in &sc.subs {
                collect(x, v);
            }
        }
        collect(sc, &mut all);
        if !all.is_empty() {
            let f = *s.pick(&all);
            return match &f.kind {
                FieldKind::Leaf(l) | FieldKind::OptLeaf(l) => l.text(s, f.any),
                FieldKind::Tok(t) | FieldKind::OptTok(t) => t.text().into(),
                FieldKind::Delim(c) => format!("{c}{}", close(*c)),
                FieldKind::Punct(_, t) => t.text().into(),
                _ => s.pick(&["( )", "[ ]", "{ }"]).to_string(),
            };
        }
    }
    match s.below(4) {
        0 => s.pick(ANY_IDENTS).to_string(),
        1 => s.pick(&["1", "\"s\"", "'c'", "x", "true", "1.5", "'a", "- 1"]).to_string(),
        2 => s.pick(&["( )", "[ ]", "{ }", "( x )", "[ 1 ]", "{ fn }"]).to_string(),
        _ => s.pick(&["+", ",", "=", ";", "->", "::", "#", "<", "==", "&&"]).to_string(),
    }
}

/// apply one change to the text
fn change(t: &str, sc: &NSchema, s: &mut Src, mix: &NMix) -> (String, &'static str) {
    let r = lex::token_ranges(t);
    let kind = s.weighted(&mix.kinds);
    let cut = |a: usize, b: usize, with: &str| format!("{} {with} {}", &t[..a], &t[b..]);
    let ts = lex::lex(t).unwrap_or_default();
    let groups: Vec<(usize, usize)> = {
        let mut v: Vec<(usize, usize)> = r.iter().copied().filter(|&(a, _)| t[a..].starts_with(['(', '[', '{'])).collect();
        v.dedup();
        v
    };
    let _ = ts;
    if r.is_empty() {
        return (some_token(sc, s), "inserted");
    }
    let (a, b) = *s.pick(&r);
    match kind {
        0 => (cut(a, b, ""), "deleted"),
        1 => (cut(b, b, &t[a..b]), "doubled"),
        2 => {
            let x = some_token(sc, s);
            let at = if s.pct(50) { a } else { b };
            (cut(at, at, &x), "inserted")
        }
        3 => {
            let x = some_token(sc, s);
            (cut(a, b, &x), "replaced")
        }
        4 => {
            let later: Vec<(usize, usize)> = r.iter().copied().filter(|&(c, _)| c >= b).collect();
            match later.first() {
                Some(&(c, d)) => (format!("{} {} {} {} {}", &t[..a], &t[c..d], &t[b..c], &t[a..b], &t[d..]), "swapped"),
                None => (cut(a, b, ""), "deleted"),
            }
        }
        5 | 7 | 8 if !groups.is_empty() => {
            let (a, b) = *s.pick(&groups);
            let inner = &t[a + 1..b - 1];
            if kind == 5 {
                let c = *s.pick(&['(', '[', '{']);
                (cut(a, b, &format!("{c}{inner}{}", close(c))), "other-delimiter")
            } else if kind == 7 {
                (cut(a, b, inner), "unwrapped")
            } else {
                let x = some_token(sc, s);
                let at = if s.pct(80) { b - 1 } else { a + 1 };
                (cut(at, at, &x), "extra-in-group")
            }
        }
        6 => {
            let c = *s.pick(&['(', '[', '{']);
            (cut(a, b, &format!("{c}{}{}", &t[a..b], close(c))), "wrapped")
        }
        9 => {
            let ids: Vec<(usize, usize)> = r.iter().copied().filter(|&(a, b)| t[a..b].chars().all(|c| c.is_alphanumeric() || c == '_' || c == '#') && t[a..].starts_with(|c: char| c.is_alphabetic())).collect();
            match ids.first() {
                Some(_) => {
                    let (a, b) = *s.pick(&ids);
                    (cut(a, b, s.pick(ANY_IDENTS)), "keyword-for-identifier")
                }
                None => (cut(a, b, ""), "deleted"),
            }
        }
        10 => {
            let ps: Vec<(usize, usize)> = r.iter().copied().filter(|&(a, b)| b == a + 1 && t[a..].starts_with(|c: char| c.is_ascii_punctuation() && !"([{'_".contains(c))).collect();
            match ps.first() {
                Some(_) => {
                    let (_, b) = *s.pick(&ps);
                    (format!("{}{}{}", &t[..b], s.pick(&["=", " ", ">", "-"]), &t[b..]), "punctuation")
                }
                None => (cut(b, b, ","), "inserted"),
            }
        }
        _ => {
            let x = some_token(sc, s);
            (cut(b, b, &x), "inserted")
        }
    }
}

pub fn soup(sc: &NSchema, s: &mut Src, depth: u32) -> String {
    let mut out = String::new();
    for _ in 0..s.range(0, 7) {
        if depth < 3 && s.pct(15) {
            let c = *s.pick(&['(', '[', '{']);
            out.push_str(&format!("{c}{}{} ", soup(sc, s, depth + 1), close(c)));
        } else {
            out.push_str(&some_token(sc, s));
            out.push(if s.pct(90) { ' ' } else { '\n' });
        }
    }
    out
}

pub struct NCase {
    pub text: String,
    /// the value the text was printed from, when nothing was changed or added
    pub value: Option<Vec<TV>>,
    pub labels: Vec<&'static str>,
}

pub fn gen_case(sc: &NSchema, s: &mut Src, mix: &NMix) -> NCase {
    if s.pct(mix.soup) {
        return NCase { text: soup(sc, s, 0), value: None, labels: vec!["soup"] };
    }
    let mut v = Vec::new();
    value(sc, s, 0, &mut v);
    let mut t = text(&v);
    let mut labels = Vec::new();
    let mut intact = true;
    for _ in 0..s.weighted(&mix.changes) {
        let (t2, l) = change(&t, sc, s, mix);
        if lex::lex(&t2).is_some() {
            intact = intact && t2 == t;
            t = t2;
            labels.push(l);
        }
    }
    if s.pct(mix.trailing) {
        let x = some_token(sc, s);
        t = format!("{t} {x}");
        intact = false;
        labels.push("trailing");
    }
    if s.pct(mix.layout) {
        t = lex::layout(&t, if s.pct(50) { lex::Layout::Compact } else { lex::Layout::Wide }, s);
    }
    NCase { text: t, value: intact.then_some(v), labels }
}

#[allow(dead_code)]
fn _unused(_: NLeaf) {}
