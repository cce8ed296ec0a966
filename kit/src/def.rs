//! A generated definition of either family.
use crate::node::schema::NSchema;
use crate::sm::schema::SmSchema;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Def {
    Sm(SmSchema),
    Node(NSchema),
    /// operations on values: "flags" or "pairs"
    Algebra(String),
}
impl Def {
    pub fn source(&self) -> String {
        match self {
            Def::Sm(s) => crate::sm::emit::source(s),
            Def::Node(s) => crate::node::emit::source(s),
            Def::Algebra(k) => format!("operations: {k}"),
        }
    }
    pub fn module(&self, id: usize) -> String {
        match self {
            Def::Sm(s) => crate::sm::emit::module(s, id, &|_| Default::default()),
            Def::Node(s) => crate::node::emit::module(s, id, &|_| Default::default()),
            Def::Algebra(_) => String::new(),
        }
    }
    /// the module without the code that observes values
    pub fn plain(&self, id: usize) -> String {
        match self {
            Def::Sm(s) => crate::sm::emit::plain(s, id),
            Def::Node(s) => crate::node::emit::plain(s, id),
            Def::Algebra(_) => String::new(),
        }
    }
    /// expression of type `kit::shard::Module`
    /// `twin`: there is a second implementation in module `p<id>`
    pub fn entry(&self, id: usize, twin: bool) -> String {
        match self {
            Def::Sm(_) => format!("kit::shard::Module::Sm {{ id: {id}, parsers: f{id}::m{id}::P, twin: {} }}", if twin { format!("f{id}::p{id}::P") } else { "&[]".into() }),
            Def::Node(_) => format!("kit::shard::Module::Node {{ id: {id}, ops: &f{id}::m{id}::OPS, twin: {} }}", if twin { format!("Some(&f{id}::p{id}::OPS)") } else { "None".into() }),
            Def::Algebra(k) => format!("kit::shard::Module::Any {{ id: {id}, make: glue::algebra::{k}, cases: 40000, tape: 60 }}"),
        }
    }
    pub fn edition(&self) -> u8 {
        match self {
            Def::Sm(s) => s.edition,
            Def::Node(s) => s.edition,
            Def::Algebra(_) => 0,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Def::Sm(_) => "sm",
            Def::Node(_) => "node",
            Def::Algebra(_) => "algebra",
        }
    }
    /// smaller definitions, simplest steps first
    pub fn smaller(&self) -> Vec<Def> {
        match self {
            Def::Sm(s) => crate::sm::shrink::smaller(s).into_iter().map(Def::Sm).collect(),
            Def::Node(s) => crate::node::shrink::smaller(s).into_iter().map(Def::Node).collect(),
            Def::Algebra(_) => vec![],
        }
    }
}
