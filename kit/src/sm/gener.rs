//! Random StructMeta definitions.
use super::schema::*;
use crate::leaf::{self, Leaf};
use crate::names::{self, NameMix};
use crate::tape::Src;

/// What a property focuses on.
#[derive(Clone, Debug)]
pub struct Profile {
    pub tuple: u32,
    pub unit: u32,
    /// maximum of the common field count, and percentage of larger definitions
    pub max_fields: usize,
    pub big: u32,
    /// percentages: a definition has positional fields of each kind / a rest field / named ones
    pub req: u32,
    pub opt: u32,
    pub var: u32,
    pub rest: u32,
    pub named: u32,
    /// weights per Style (order of STYLES)
    pub styles: [u32; 10],
    pub optional: u32,
    pub filter: u32,
    pub names: NameMix,
    pub name_attr: u32,
    /// the rust identifier of a renamed field may be another field's parameter name
    pub swap_names: u32,
    /// percentage of special types written in a non-plain way
    pub spell: u32,
    pub look: u32,
    pub generics: u32,
    pub sub: u32,
    pub interleave: u32,
    /// weights of leaf types: int, str, other simple, Expr, Type, Ident
    pub leaves: [u32; 6],
    pub scope: u32,
    /// percentage of definitions next to modules named like crates
    pub hostile: u32,
    pub noise: u32,
    /// definitions written by macros
    pub mac: u32,
    /// attributes and the like that mean nothing
    pub dress: u32,
    /// an older edition
    pub edition: u32,
    /// record the calls of the parsers of values
    pub seen: bool,
}
pub const BASE: Profile = Profile {
    tuple: 20, unit: 1, max_fields: 6, big: 15, req: 25, opt: 25, var: 18, rest: 18, named: 85,
    styles: [10, 10, 16, 10, 10, 10, 10, 10, 8, 8],
    optional: 40, filter: 12, names: names::MIX, name_attr: 15, swap_names: 10, spell: 15, look: 2, generics: 6, sub: 6,
    interleave: 20, leaves: [30, 22, 20, 12, 6, 10], scope: 8, hostile: 3, noise: 20, mac: 10, dress: 8, edition: 10, seen: false,
};

fn pick_leaf(s: &mut Src, p: &Profile) -> Leaf {
    if s.pct(p.look) {
        return *s.pick(leaf::LOOKS);
    }
    match s.weighted(&p.leaves) {
        0 => Leaf::LitInt,
        1 => Leaf::LitStr,
        2 => *s.pick(&[Leaf::LitBool, Leaf::LitChar, Leaf::LitFloat, Leaf::Lit, Leaf::Path, Leaf::Lifetime, Leaf::Kv, Leaf::Rule, Leaf::Rule, Leaf::Rep2, Leaf::Lt, Leaf::Ints, Leaf::Ints, Leaf::Dp, Leaf::Dp]),
        3 => Leaf::Expr,
        4 => Leaf::Type,
        _ => Leaf::Ident,
    }
}
fn pick_spell(s: &mut Src, p: &Profile) -> Spell {
    let mut one = |n: usize| if s.pct(p.spell) { s.below(n) as u8 } else { 0 };
    Spell { opt: one(7), vec: one(6), map: one(7), string: one(6), sm: one(3), boolean: one(5), leaf: one(42) }
}

/// names of types that are keywords, and so need `r#` wherever they are written
pub const RAW_TYPES: &[&str] = &["r#type", "r#struct", "r#fn", "r#async", "r#let", "r#try"];

pub fn gen_schema(s: &mut Src, p: &Profile, id: usize) -> SmSchema {
    let mut sc = gen_inner(s, p, format!("T{id}"), 0);
    if s.pct(p.hostile) {
        sc.scope = 2;
    }
    fn spread(sc: &mut SmSchema, scope: u8) {
        sc.scope = scope;
        for s in &mut sc.subs {
            spread(s, scope);
        }
    }
    let scope = sc.scope;
    spread(&mut sc, scope);
    if s.pct(p.hostile / 3) {
        sc.ident = s.pick(RAW_TYPES).to_string();
    }
    sc
}

fn gen_inner(s: &mut Src, p: &Profile, ident: String, depth: u32) -> SmSchema {
    let kind = match s.weighted(&[100 - p.tuple - p.unit, p.tuple, p.unit]) {
        0 => Kind::Named,
        1 => Kind::Tuple,
        _ => Kind::Unit,
    };
    let mut sc = SmSchema {
        ident: ident.clone(),
        kind,
        filter: s.pct(p.filter),
        generics: vec![],
        fields: vec![],
        subs: vec![],
        derive_spell: if s.pct(p.spell) { s.below(3) as u8 } else { 0 },
        noise: if s.pct(p.noise) { s.below(256) as u8 } else { 0 },
        scope: if depth == 0 && s.pct(p.scope) { 1 } else { 0 },
        mac: if s.pct(p.mac) { s.raw() | 1 } else { 0 },
        dress: if s.pct(p.dress) { s.raw() | 1 } else { 0 },
        edition: if s.pct(p.edition) { s.range(1, 2) as u8 } else { 0 },
        seen: p.seen,
    };
    if depth == 0 && s.pct(p.generics) {
        for i in 0..s.range(1, 3) {
            let g = match s.weighted(&[60, 20, 20]) {
                0 => {
                    let leaf = pick_leaf(s, p);
                    let bound = if leaf.is_look() && s.pct(70) { s.range(4, 5) } else { s.below(4) };
                    Generic { name: ["T", "U", "Value"][i].into(), leaf, bound: bound as u8 }
                }
                1 => Generic { name: ["'a", "'input", "'span"][i].into(), leaf: Leaf::Lt, bound: s.range(4, 5) as u8 },
                _ => Generic { name: ["N", "M", "LEN"][i].into(), leaf: Leaf::Rep2, bound: 4 },
            };
            sc.generics.push(g);
        }
    }
    if kind == Kind::Unit {
        sc.generics.clear();
        return sc;
    }
    // how many of each role
    let budget = if depth > 0 {
        s.range(1, 3)
    } else if s.pct(p.big) {
        s.range(p.max_fields, p.max_fields + 9)
    } else {
        s.range(0, p.max_fields)
    };
    let mut roles = Vec::new();
    let count = |s: &mut Src| if p.big > 0 && depth == 0 && s.pct(7) { s.range(4, 12) } else { s.range(1, 3) };
    if s.pct(p.req) {
        for _ in 0..count(s) {
            roles.push(Role::Req);
        }
    }
    if s.pct(p.opt) {
        for _ in 0..count(s) {
            roles.push(Role::Opt);
        }
    }
    if s.pct(p.var) {
        roles.push(Role::Var);
    }
    let mut n_named = if s.pct(p.named) { budget.saturating_sub(roles.len() / 2) } else { 0 };
    let has_rest = s.pct(p.rest);
    if has_rest && n_named > 0 {
        n_named -= 1;
    }
    // order: positional fields keep their order; named ones after them, or interleaved
    let mut order: Vec<Role> = roles;
    let mut tail = vec![Role::Named; n_named];
    if has_rest {
        let at = if s.pct(50) { tail.len() } else { s.below(tail.len() + 1) };
        tail.insert(at, Role::Rest);
    }
    if s.pct(p.interleave) {
        for r in tail {
            let at = s.below(order.len() + 1);
            order.insert(at, r);
        }
    } else {
        order.extend(tail);
    }
    let mut params: Vec<String> = Vec::new();
    let mut idents: Vec<String> = Vec::new();
    let mut unused_generics: Vec<usize> = (0..sc.generics.len()).collect();
    for role in order {
        let style = match role {
            Role::Req | Role::Opt => Style::V,
            Role::Var => Style::L,
            Role::Named => STYLES[s.weighted(&p.styles)],
            Role::Rest => {
                let mut w = p.styles;
                w[0] = 0;
                w[1] = 0;
                if w.iter().sum::<u32>() == 0 {
                    w[2] = 1;
                }
                STYLES[s.weighted(&w)]
            }
        };
        let mut f = Field {
            ident: None,
            name_attr: None,
            name_lit: if s.pct(p.noise) { s.below(3) as u8 } else { 0 },
            unnamed_attr: false,
            role,
            style,
            opt: role == Role::Named && !style.is_flag() && s.pct(p.optional),
            leaf: LeafTy::L(pick_leaf(s, p)),
            spell: pick_spell(s, p),
            noise: if s.pct(p.noise) { s.below(64) as u8 } else { 0 },
            vis: if s.pct(p.noise) { s.below(3) as u8 } else { 0 },
        };
        if matches!(style, Style::NA | Style::NAO) {
            if s.pct(4) {
                f.leaf = LeafTy::L(Leaf::TokenStream);
            } else if depth < 2 && s.pct(p.sub) {
                let mut q = p.clone();
                q.generics = 0;
                q.scope = 0;
                q.sub /= 2;
                let sub = gen_inner(s, &q, format!("{}S{}", ident, sc.subs.len()), depth + 1);
                sc.subs.push(sub);
                f.leaf = LeafTy::Sub(sc.subs.len() - 1);
            }
        }
        let named = matches!(role, Role::Named | Role::Rest);
        if named && !style.is_flag() && !style.is_list() && f.leaf != LeafTy::L(Leaf::TokenStream) && !matches!(f.leaf, LeafTy::Sub(_)) && s.pct(4) {
            f.leaf = LeafTy::L(Leaf::Visibility);
        }
        if !style.is_flag() && matches!(f.leaf, LeafTy::L(l) if l != Leaf::TokenStream) && !unused_generics.is_empty() {
            let g = unused_generics.remove(0);
            f.leaf = LeafTy::Param(g);
        }
        // names
        match (role, kind) {
            (Role::Named, _) => {
                let name = names::fresh(s, &p.names, &params);
                let must_attr = names::NAME_ONLY.contains(&name.as_str());
                if kind == Kind::Tuple {
                    f.name_attr = Some(name.clone());
                } else if must_attr || s.pct(p.name_attr) {
                    f.name_attr = Some(name.clone());
                    let id = if s.pct(p.swap_names) && params.iter().any(|q| !idents.contains(q)) {
                        params.iter().find(|q| !idents.contains(q)).unwrap().clone()
                    } else {
                        names::fresh(s, &p.names, &idents)
                    };
                    let id = if idents.contains(&id) || names::NAME_ONLY.contains(&id.as_str()) { names::fresh(s, &NAMES_SAFE, &idents) } else { id };
                    idents.push(id.clone());
                    f.ident = Some(raw(s, &id));
                } else if idents.contains(&name) {
                    f.name_attr = Some(name.clone());
                    let id = names::fresh(s, &NAMES_SAFE, &idents);
                    idents.push(id.clone());
                    f.ident = Some(raw(s, &id));
                } else {
                    idents.push(name.clone());
                    f.ident = Some(raw(s, &name));
                }
                params.push(name);
            }
            (_, Kind::Tuple) => {
                f.unnamed_attr = role != Role::Rest && s.pct(10);
            }
            _ => {
                let mut id = names::fresh(s, &p.names, &idents);
                if names::NAME_ONLY.contains(&id.as_str()) {
                    id = names::fresh(s, &NAMES_SAFE, &idents);
                }
                idents.push(id.clone());
                f.ident = Some(raw(s, &id));
                f.unnamed_attr = role != Role::Rest;
            }
        }
        sc.fields.push(f);
    }
    // generics that found no use are dropped
    let used = sc.generics.len() - unused_generics.len();
    sc.generics.truncate(used);
    sc
}
const NAMES_SAFE: NameMix = NameMix { plain: 1, case: 0, unicode: 0, keyword: 0, weak: 0, near: 0, random: 1, long: 0 };

fn raw(s: &mut Src, id: &str) -> String {
    if names::is_keyword(id) || (s.pct(4) && id != "_" && !id.starts_with("__") && is_rawable(id)) {
        format!("r#{id}")
    } else {
        id.to_string()
    }
}
fn is_rawable(id: &str) -> bool {
    !names::NAME_ONLY.contains(&id)
}
