use crate::leaf::Leaf;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Role {
    Req,
    Opt,
    Var,
    Named,
    Rest,
}
/// style of a named (or rest) parameter, following the table in the documentation
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Style {
    /// bool
    Bool,
    /// Flag
    Flag,
    /// T
    V,
    /// NameValue<T>
    NV,
    /// NameValue<Option<T>>
    NVO,
    /// NameArgs<T>
    NA,
    /// NameArgs<Option<T>>
    NAO,
    /// Vec<T>
    L,
    /// NameArgs<Vec<T>>
    NAL,
    /// NameArgs<Option<Vec<T>>>
    NAOL,
}
pub const STYLES: &[Style] = &[
    Style::Bool, Style::Flag, Style::V, Style::NV, Style::NVO, Style::NA, Style::NAO, Style::L, Style::NAL, Style::NAOL,
];
impl Style {
    pub fn flag_form(self) -> bool {
        matches!(self, Style::Bool | Style::Flag | Style::NVO | Style::NAO | Style::NAOL)
    }
    pub fn nv_form(self) -> bool {
        matches!(self, Style::V | Style::NV | Style::NVO)
    }
    pub fn na_form(self) -> bool {
        matches!(self, Style::NA | Style::NAO | Style::L | Style::NAL | Style::NAOL)
    }
    pub fn is_list(self) -> bool {
        matches!(self, Style::L | Style::NAL | Style::NAOL)
    }
    pub fn is_flag(self) -> bool {
        matches!(self, Style::Bool | Style::Flag)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum LeafTy {
    L(Leaf),
    /// a nested struct deriving StructMeta: index into SmSchema::subs
    Sub(usize),
    /// generic parameter: index into SmSchema::generics
    Param(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Spell {
    pub opt: u8,
    pub vec: u8,
    pub map: u8,
    pub string: u8,
    pub sm: u8,
    pub boolean: u8,
    pub leaf: u8,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Field {
    /// identifier as written (with r# if needed); None in tuple structs
    pub ident: Option<String>,
    /// explicit `name = "..."`
    pub name_attr: Option<String>,
    /// how the name literal is written: 0 plain, 1 raw string, 2 unicode escape
    pub name_lit: u8,
    /// write `#[struct_meta(unnamed)]`
    pub unnamed_attr: bool,
    pub role: Role,
    pub style: Style,
    /// Option<..> around the type (named and rest only)
    pub opt: bool,
    pub leaf: LeafTy,
    pub spell: Spell,
    /// extra attributes: bit0 doc comment before, bit1 allow(..) after, bit2 trailing comma in attr
    pub noise: u8,
    pub vis: u8,
}
impl Field {
    /// the parameter name
    pub fn name(&self) -> String {
        if let Some(n) = &self.name_attr {
            return n.clone();
        }
        let i = self.ident.as_deref().unwrap_or("");
        i.strip_prefix("r#").unwrap_or(i).to_string()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Kind {
    Named,
    Tuple,
    Unit,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Generic {
    pub name: String,
    pub leaf: Leaf,
    /// 0 inline bound, 1 where clause, 2 inline + default type, 3 two bounds;
    /// from 4 on: a lifetime (`Leaf::Lt`) or constant (`Leaf::Rep2`) parameter, or a parameter with associated types
    pub bound: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum GenForm {
    Lifetime,
    Const,
    Type,
    /// a family of types: the field has an associated type of it
    Assoc,
}
impl Generic {
    pub fn form(&self) -> GenForm {
        match self.leaf {
            Leaf::Lt if self.bound >= 4 => GenForm::Lifetime,
            Leaf::Rep2 if self.bound >= 4 => GenForm::Const,
            l if l.is_look() && self.bound >= 4 => GenForm::Assoc,
            _ => GenForm::Type,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct SmSchema {
    pub ident: String,
    pub kind: Kind,
    pub filter: bool,
    pub generics: Vec<Generic>,
    /// extra generics noise: bit0 lifetime parameter, bit1 const parameter (used by extra leaf types)
    pub fields: Vec<Field>,
    pub subs: Vec<SmSchema>,
    /// 0: #[derive(structmeta::StructMeta)], 1: use + derive(StructMeta), 2: ::structmeta, with other derives
    pub derive_spell: u8,
    /// struct-level attribute layout: 0 plain; 1 doc comments; 2 trailing comma in struct_meta
    pub noise: u8,
    /// fields wrapped in a hostile module scope (names shadowing what generated code may use)
    pub scope: u8,
    /// not 0: written by a `macro_rules` macro, cut into parts by this seed
    #[serde(default)]
    pub mac: u32,
    /// not 0: `cfg`, other attributes, ... around the parts
    #[serde(default)]
    pub dress: u32,
    /// edition of the crate: 0 2024, 1 2021, 2 2018
    #[serde(default)]
    pub edition: u8,
    /// values are wrapped in `kit::types::Seen`
    #[serde(default)]
    pub seen: bool,
}
impl SmSchema {
    pub fn req(&self) -> Vec<usize> {
        self.with(Role::Req)
    }
    pub fn opts(&self) -> Vec<usize> {
        self.with(Role::Opt)
    }
    pub fn var(&self) -> Option<usize> {
        self.with(Role::Var).first().copied()
    }
    pub fn named(&self) -> Vec<usize> {
        self.with(Role::Named)
    }
    pub fn rest(&self) -> Option<usize> {
        self.with(Role::Rest).first().copied()
    }
    fn with(&self, r: Role) -> Vec<usize> {
        (0..self.fields.len()).filter(|&i| self.fields[i].role == r).collect()
    }
    pub fn leaf_of<'a>(&'a self, f: &Field) -> LeafRef<'a> {
        match &f.leaf {
            LeafTy::L(l) => LeafRef::L(*l),
            LeafTy::Sub(i) => LeafRef::Sub(&self.subs[*i]),
            LeafTy::Param(i) => LeafRef::L(self.generics[*i].leaf),
        }
    }
}
#[derive(Clone, Copy)]
pub enum LeafRef<'a> {
    L(Leaf),
    Sub(&'a SmSchema),
}
