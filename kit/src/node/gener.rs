//! Random definitions deriving Parse and ToTokens.
use super::schema::*;
use super::toks::{self, NLeaf, Tok};
use crate::names::{self, NameMix};
use crate::tape::Src;

#[derive(Clone, Debug)]
pub struct NProfile {
    pub enums: u32,
    pub tuple: u32,
    pub unit: u32,
    pub max_fields: usize,
    pub big: u32,
    pub max_variants: usize,
    /// a variant has peek fields
    pub peek: u32,
    /// weights: leaf, token, optional, typed delimiter, macro delimiter, list, sub, self, look-alike, param
    pub kinds: [u32; 10],
    /// an identifier field is marked `any`
    pub any: u32,
    /// weight of identifiers among leaves
    pub ident: u32,
    /// closing symbol chosen when a group is open
    pub close: u32,
    pub rest: u32,
    pub generics: u32,
    pub names: NameMix,
    pub spell: u32,
    pub noise: u32,
    /// definitions written by macros
    pub mac: u32,
    /// attributes and the like that mean nothing
    pub dress: u32,
    /// an older edition
    pub edition: u32,
    /// record the calls of the parsers of values
    pub seen: bool,
    /// percentages of scope 1 and 2
    pub scope: u32,
    pub hostile: u32,
    /// few different tokens and leaves, so that variants and fields collide
    pub narrow: u32,
    /// percentages: derives only Parse, only ToTokens
    pub roles: [u32; 2],
}
pub const BASE: NProfile = NProfile {
    enums: 35, tuple: 35, unit: 3, max_fields: 6, big: 15, max_variants: 5, peek: 50,
    kinds: [45, 22, 8, 14, 8, 7, 7, 4, 1, 0],
    any: 12, ident: 30, close: 35, rest: 10, generics: 10, names: names::MIX, spell: 25, noise: 20, mac: 8, dress: 8, edition: 10, scope: 5, hostile: 3, narrow: 15, seen: false, roles: [0, 0],
};

const VARIANTS: &[&str] = &[
    "A", "B", "C", "D", "E", "Foo", "Bar", "FooBar", "None", "Some", "Ok", "Err", "Self_", "r#type", "a", "b", "value", "Paren", "Ident",
    "Parse", "r#fn", "X1", "Unit", "Expr", "Result", "\u{c9}t\u{e9}",
];

struct Cx<'a> {
    p: &'a NProfile,
    enum_ok: bool,
    generics: Vec<NGeneric>,
    subs: Vec<NSchema>,
    used_params: Vec<bool>,
    depth: u32,
    ident: String,
    narrow: Option<Vec<Tok>>,
    role: u8,
}
impl Cx<'_> {
    fn tok(&self, s: &mut Src, multi: bool, custom: bool) -> Tok {
        match &self.narrow {
            Some(v) => {
                let t = *s.pick(v);
                if !multi && matches!(t, Tok::P2(_)) || !custom && matches!(t, Tok::Custom(_)) { v[0] } else { t }
            }
            None => Tok::any(s, multi, custom),
        }
    }
    fn leaf(&self, s: &mut Src) -> NLeaf {
        match &self.narrow {
            Some(_) => *s.pick(&[NLeaf::LitInt, NLeaf::Ident, NLeaf::LitInt, NLeaf::Ident, NLeaf::LitStr, NLeaf::Lit, NLeaf::TokenTree]),
            None => pick_leaf(s, self.p),
        }
    }
    fn peekable(&self, s: &mut Src) -> NLeaf {
        match &self.narrow {
            Some(_) => *s.pick(&[NLeaf::LitInt, NLeaf::Ident, NLeaf::LitInt, NLeaf::Ident, NLeaf::LitStr, NLeaf::Lit]),
            None => *s.pick(toks::PEEKABLE),
        }
    }
}

pub fn gen_schema(s: &mut Src, p: &NProfile, id: usize) -> NSchema {
    let narrow = s.pct(p.narrow).then(|| vec![Tok::any(s, false, false), Tok::any(s, true, true), Tok::any(s, true, true)]);
    let role = if p.roles == [0, 0] { 0 } else { s.weighted(&[100 - p.roles[0] - p.roles[1], p.roles[0], p.roles[1]]) as u8 };
    let mut sc = gen_inner(s, p, format!("N{id}"), 0, narrow, role);
    if s.pct(p.hostile / 3) {
        sc.ident = s.pick(crate::sm::gener::RAW_TYPES).to_string();
        if !sc.is_enum {
            sc.variants[0].ident = sc.ident.clone();
        }
    }
    sc
}

fn gen_inner(s: &mut Src, p: &NProfile, ident: String, depth: u32, narrow: Option<Vec<Tok>>, role: u8) -> NSchema {
    let is_enum = s.pct(p.enums);
    let mut cx = Cx { p, enum_ok: is_enum, generics: vec![], subs: vec![], used_params: vec![], depth, ident: ident.clone(), narrow, role };
    if depth == 0 && s.pct(p.generics) {
        let n = s.range(1, 2);
        for i in 0..n {
            let kind = match s.weighted(&[60, 20, 20]) {
                0 => GenKind::Type(*s.pick(&[NLeaf::LitInt, NLeaf::Ident, NLeaf::Expr, NLeaf::LitStr]), s.below(4) as u8),
                1 => GenKind::Const,
                _ => GenKind::Lifetime,
            };
            let name = match kind {
                GenKind::Lifetime => ["'a", "'input"][i].to_string(),
                GenKind::Const => ["N", "M"][i].to_string(),
                _ => ["T", "U"][i].to_string(),
            };
            cx.generics.push(NGeneric { name, kind });
        }
        // lifetimes come first
        cx.generics.sort_by_key(|g| g.kind != GenKind::Lifetime);
        cx.used_params = vec![false; cx.generics.len()];
    }
    let mut variants = Vec::new();
    if is_enum {
        let n = if s.pct(3) { s.range(6, 12) } else { s.range(1, p.max_variants) };
        let mut taken: Vec<String> = Vec::new();
        for i in 0..n {
            let mut name = s.pick(VARIANTS).to_string();
            if taken.contains(&name) {
                name = format!("V{i}");
            }
            taken.push(name.clone());
            let peek = s.pct(p.peek);
            variants.push(variant(s, &mut cx, name, peek, i == n - 1));
        }
        // a way to stop the recursion
        if variants.iter().all(|v: &NVariant| v.fields.iter().any(|f| f.kind == FieldKind::SelfBox)) {
            for v in &mut variants {
                for f in &mut v.fields {
                    if f.kind == FieldKind::SelfBox {
                        f.kind = FieldKind::Leaf(NLeaf::LitInt);
                    }
                }
            }
        }
    } else {
        variants.push(variant(s, &mut cx, ident.clone(), false, true));
    }
    // unused parameters would not compile
    let missing: Vec<usize> = (0..cx.generics.len()).filter(|&g| !cx.used_params[g]).collect();
    for g in missing {
        let f = NField { ident: Some(format!("param{g}")), ..blank(FieldKind::Param(g)) };
        let v = &mut variants[0];
        match v.shape {
            Shape::Named => v.fields.insert(0, f),
            _ => {
                v.shape = Shape::Tuple;
                v.fields.insert(0, NField { ident: None, ..f });
            }
        }
        // the inserted field comes before all peeked ones
        for f in &mut v.fields {
            f.peek = false;
        }
    }
    let scope = if depth > 0 {
        0
    } else if s.pct(p.hostile) {
        2
    } else if s.pct(p.scope) {
        1
    } else {
        0
    };
    NSchema {
        ident,
        is_enum,
        variants,
        generics: cx.generics,
        subs: cx.subs,
        derive_spell: s.below(6) as u8,
        noise: if s.pct(p.noise) { s.below(32) as u8 } else { 0 },
        scope,
        mac: if s.pct(p.mac) { s.raw() | 1 } else { 0 },
        dress: if s.pct(p.dress) { s.raw() | 1 } else { 0 },
        edition: if s.pct(p.edition) { s.range(1, 2) as u8 } else { 0 },
        seen: p.seen,
        role,
    }
}

pub fn blank(kind: FieldKind) -> NField {
    NField { ident: None, kind, syms: vec![], sym_style: 0, peek: false, any: false, spell: 0, vis: 0, noise: 0, wrap: 0 }
}

fn pick_leaf(s: &mut Src, p: &NProfile) -> NLeaf {
    if s.pct(p.ident) {
        return NLeaf::Ident;
    }
    match s.weighted(&[30, 25, 20, 12, 13]) {
        0 => NLeaf::LitInt,
        1 => NLeaf::LitStr,
        2 => *s.pick(&[NLeaf::LitBool, NLeaf::LitChar, NLeaf::LitFloat, NLeaf::Lit, NLeaf::Lifetime, NLeaf::Kv, NLeaf::Ints]),
        3 => *s.pick(&[NLeaf::Path, NLeaf::Type, NLeaf::Expr, NLeaf::Visibility]),
        _ => *s.pick(&[NLeaf::Group, NLeaf::Punct, NLeaf::TokenTree, NLeaf::Literal]),
    }
}

fn variant(s: &mut Src, cx: &mut Cx, ident: String, peek: bool, last: bool) -> NVariant {
    let p = cx.p;
    let shape = match s.weighted(&[100 - p.tuple - p.unit, p.tuple, p.unit]) {
        0 => Shape::Named,
        1 => Shape::Tuple,
        _ => Shape::Unit,
    };
    let mut fields: Vec<NField> = Vec::new();
    if shape != Shape::Unit {
        let n = if s.pct(p.big) {
            s.range(p.max_fields + 1, p.max_fields * 2 + 2)
        } else {
            let lo = if s.pct(4) { 0 } else { 1 };
            s.range(lo, p.max_fields)
        };
        let n_peek = if peek { s.weighted(&[0, 55, 28, 17]) } else { 0 };
        let mut stack: Vec<char> = Vec::new();
        let mut greedy = vec![false];
        let mut roots = 0usize;
        for i in 0..n {
            let mut syms = Vec::new();
            // a list or a rest field ends its group
            let must_close = *greedy.last().unwrap() && !stack.is_empty();
            while !stack.is_empty() && ((must_close && syms.is_empty()) || s.pct(p.close)) {
                syms.push(Sym::Close(stack.pop().unwrap()));
                greedy.pop();
                if syms.len() >= 3 {
                    break;
                }
            }
            let at_root = stack.is_empty();
            let want_peek = at_root && roots < n_peek;
            let is_last_peek = roots + 1 == n_peek;
            // what comes before reads at least one token
            let guarded = !at_root || fields.iter().any(consumes);
            let mut f = field(s, cx, want_peek, is_last_peek, guarded, *greedy.last().unwrap(), i + 1 == n);
            if want_peek {
                f.peek = true;
            }
            if at_root {
                roots += 1;
            }
            match f.kind {
                FieldKind::Delim(c) => {
                    syms.push(Sym::Open(c));
                    stack.push(c);
                    greedy.push(false);
                }
                FieldKind::MacroDelim => {
                    let c = *s.pick(&['(', '[', '{']);
                    syms.push(Sym::Open(c));
                    stack.push(c);
                    greedy.push(false);
                }
                _ if cx.role == 2 => {}
                FieldKind::Punct(..) | FieldKind::Rest => *greedy.last_mut().unwrap() = true,
                FieldKind::Sub(k) | FieldKind::BoxSub(k) => {
                    if is_greedy(&cx.subs[k]) {
                        *greedy.last_mut().unwrap() = true
                    }
                }
                _ => {}
            }
            // an empty group
            if matches!(syms.last(), Some(Sym::Open(_))) && s.pct(4) {
                let c = stack.pop().unwrap();
                greedy.pop();
                syms.push(Sym::Close(c));
            }
            f.syms = syms;
            f.sym_style = s.below(4) as u8;
            fields.push(f);
        }
    }
    if shape == Shape::Named {
        let mut taken: Vec<String> = Vec::new();
        for f in &mut fields {
            let mut w = names::fresh(s, &p.names, &taken);
            if names::NAME_ONLY.contains(&w.as_str()) || !w.is_ascii() && s.pct(50) {
                w = format!("f{}", taken.len());
            }
            taken.push(w.clone());
            f.ident = Some(if names::is_keyword(&w) || (s.pct(3) && names::is_ident(&format!("r#{w}"))) { format!("r#{w}") } else { w });
        }
    }
    let _ = last;
    NVariant { ident, shape, fields }
}

pub fn consumes(f: &NField) -> bool {
    match f.kind {
        FieldKind::Leaf(l) => l != NLeaf::Visibility,
        FieldKind::Tok(_) | FieldKind::Delim(_) | FieldKind::MacroDelim | FieldKind::LookMacroDelim => true,
        _ => false,
    }
}

pub fn is_greedy(sc: &NSchema) -> bool {
    sc.variants.iter().any(|v| {
        let r = roots(&v.fields);
        r.iter().any(|&i| match v.fields[i].kind {
            FieldKind::Punct(..) | FieldKind::Rest => true,
            FieldKind::Sub(k) | FieldKind::BoxSub(k) => is_greedy(&sc.subs[k]),
            _ => false,
        })
    })
}

fn field(s: &mut Src, cx: &mut Cx, peek: bool, last_peek: bool, guarded: bool, greedy: bool, last: bool) -> NField {
    let p = cx.p;
    let mut f = blank(FieldKind::Leaf(NLeaf::LitInt));
    f.spell = if s.pct(p.spell) { s.below(15) as u8 } else { 0 };
    f.vis = s.below(3) as u8;
    f.noise = if s.pct(p.noise) { s.below(256) as u8 } else { 0 };
    let mut w = p.kinds;
    if peek {
        w = [w[0], w[1], 0, w[3], 0, 0, 0, 0, 0, 0];
    }
    if !guarded || !cx.enum_ok {
        w[7] = 0;
    }
    if cx.depth >= 2 {
        w[6] = 0;
    }
    if cx.generics.is_empty() {
        w[9] = 0;
    } else if !peek {
        w[9] = 25;
    }
    if greedy {
        // only something that may be empty can follow
        w = [6, 0, 30, 0, 0, 0, 0, 0, 0, 0];
    }
    f.kind = match s.weighted(&w) {
        0 if peek => FieldKind::Leaf(if s.pct(p.ident) { NLeaf::Ident } else { cx.peekable(s) }),
        0 => {
            if last && s.pct(p.rest) && !peek {
                FieldKind::Rest
            } else {
                FieldKind::Leaf(cx.leaf(s))
            }
        }
        1 => FieldKind::Tok(cx.tok(s, !peek || last_peek, true)),
        2 => {
            if s.pct(60) {
                FieldKind::OptTok(cx.tok(s, true, true))
            } else {
                FieldKind::OptLeaf(cx.peekable(s))
            }
        }
        3 => FieldKind::Delim(*s.pick(&['(', '[', '{'])),
        4 => FieldKind::MacroDelim,
        5 => FieldKind::Punct(
            if s.pct(60) { NLeaf::Ident } else { *s.pick(&[NLeaf::LitInt, NLeaf::LitStr, NLeaf::Lit, NLeaf::Type, NLeaf::Kv, NLeaf::Path]) },
            if s.pct(65) { Tok::P1(10) } else { cx.tok(s, true, false) },
        ),
        6 => {
            let k = cx.subs.len();
            if k > 0 && s.pct(40) {
                let k = s.below(k);
                if s.pct(70) { FieldKind::Sub(k) } else { FieldKind::BoxSub(k) }
            } else {
                let mut q = p.clone();
                q.max_fields = 3;
                q.max_variants = 3;
                q.big = 0;
                q.generics = 0;
                let role = if cx.role != 0 && s.pct(30) { 0 } else { cx.role };
                let sub = gen_inner(s, &q, format!("{}S{k}", cx.ident), cx.depth + 1, cx.narrow.clone(), role);
                cx.subs.push(sub);
                if s.pct(70) { FieldKind::Sub(k) } else { FieldKind::BoxSub(k) }
            }
        }
        7 => FieldKind::SelfBox,
        8 => FieldKind::LookMacroDelim,
        _ => {
            let g = s.below(cx.generics.len());
            cx.used_params[g] = true;
            FieldKind::Param(g)
        }
    };
    match f.kind {
        FieldKind::Leaf(NLeaf::Ident) | FieldKind::Punct(NLeaf::Ident, _) => f.any = s.pct(p.any),
        _ => {}
    }
    let group = matches!(f.kind, FieldKind::Delim(_) | FieldKind::MacroDelim | FieldKind::SelfBox);
    if cx.role == 2 && !group && s.pct(25) {
        f.wrap = if matches!(f.kind, FieldKind::Param(_)) { *s.pick(&[1, 3]) } else { s.range(1, 4) as u8 };
    }
    f
}
