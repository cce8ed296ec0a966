use super::toks::{NLeaf, Tok};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Sym {
    Open(char),
    Close(char),
}
impl Sym {
    pub fn ch(self) -> char {
        match self {
            Sym::Open(c) => c,
            Sym::Close(c) => close(c),
        }
    }
}
pub fn close(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum FieldKind {
    Leaf(NLeaf),
    Tok(Tok),
    OptTok(Tok),
    OptLeaf(NLeaf),
    /// Paren / Bracket / Brace
    Delim(char),
    MacroDelim,
    /// Punctuated<item, sep> with `terminated`
    Punct(NLeaf, Tok),
    /// nested definition
    Sub(usize),
    BoxSub(usize),
    /// Box<Self type>
    SelfBox,
    /// generic parameter
    Param(usize),
    /// proc_macro2::TokenStream
    Rest,
    /// a type that only looks like MacroDelimiter (parses `@ 1`)
    LookMacroDelim,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct NField {
    pub ident: Option<String>,
    pub kind: FieldKind,
    /// symbols of `#[to_tokens(..)]` in order (closing ones first)
    pub syms: Vec<Sym>,
    /// how the symbols are spread over literals and attributes
    pub sym_style: u8,
    pub peek: bool,
    pub any: bool,
    pub spell: u8,
    pub vis: u8,
    /// bit0 doc comment, bit1 other attribute, bit2 trailing comma, bit3 `parse` attribute first, bit4 separate `parse` attributes
    pub noise: u8,
    /// only printed: 1 Rc, 2 reference, 3 Box, 4 reference with the first lifetime of the definition
    #[serde(default)]
    pub wrap: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Shape {
    Named,
    Tuple,
    Unit,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct NVariant {
    pub ident: String,
    pub shape: Shape,
    pub fields: Vec<NField>,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum GenKind {
    /// a type, used as this leaf; bound style
    Type(NLeaf, u8),
    Const,
    Lifetime,
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct NGeneric {
    pub name: String,
    pub kind: GenKind,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct NSchema {
    pub ident: String,
    pub is_enum: bool,
    /// a struct has exactly one
    pub variants: Vec<NVariant>,
    pub generics: Vec<NGeneric>,
    pub subs: Vec<NSchema>,
    pub derive_spell: u8,
    pub noise: u8,
    /// 0 plain, 1 decoy items, 2 modules shadowing the crates
    pub scope: u8,
    /// not 0: written by a `macro_rules` macro, cut into parts by this seed
    #[serde(default)]
    pub mac: u32,
    /// not 0: `cfg`, other attributes, ... around the parts
    #[serde(default)]
    pub dress: u32,
    /// edition of the crate: 0 2024, 1 2021, 2 2018
    #[serde(default)]
    pub edition: u8,
    /// values are wrapped in `kit::types::Seen`
    #[serde(default)]
    pub seen: bool,
    /// 0 derives both, 1 only Parse, 2 only ToTokens
    #[serde(default)]
    pub role: u8,
}
impl NSchema {
    pub fn fields(&self) -> impl Iterator<Item = &NField> {
        self.variants.iter().flat_map(|v| v.fields.iter())
    }
    /// the calls of the parser of this field are recorded
    pub fn is_seen(&self, f: &NField) -> bool {
        use FieldKind::*;
        self.seen && !f.any && !f.peek && matches!(f.kind, Leaf(_) | Tok(_) | Punct(..) | Rest | LookMacroDelim)
    }
    pub fn any_field(&self, p: &dyn Fn(&NField) -> bool) -> bool {
        self.fields().any(|f| p(f)) || self.subs.iter().any(|s| s.any_field(p))
    }
}

/// fields arranged by groups
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Field(usize),
    Group(usize, Vec<Item>),
}
/// None: not well-formed
pub fn tree(fields: &[NField]) -> Option<Vec<Item>> {
    let mut stack: Vec<(Option<usize>, Option<char>, Vec<Item>)> = vec![(None, None, vec![])];
    for (i, f) in fields.iter().enumerate() {
        let mut is_field = true;
        for s in &f.syms {
            match s {
                Sym::Open(c) => {
                    is_field = false;
                    stack.push((Some(i), Some(*c), vec![]));
                }
                Sym::Close(c) => {
                    let (g, o, items) = stack.pop()?;
                    if o != Some(*c) {
                        return None;
                    }
                    stack.last_mut()?.2.push(Item::Group(g?, items));
                }
            }
        }
        if is_field {
            stack.last_mut()?.2.push(Item::Field(i));
        }
    }
    while stack.len() > 1 {
        let (g, _, items) = stack.pop()?;
        stack.last_mut()?.2.push(Item::Group(g?, items));
    }
    Some(stack.pop()?.2)
}
/// indices of the fields at the top level, in order
pub fn roots(fields: &[NField]) -> Vec<usize> {
    tree(fields)
        .unwrap_or_default()
        .iter()
        .map(|i| match i {
            Item::Field(i) | Item::Group(i, _) => *i,
        })
        .collect()
}
