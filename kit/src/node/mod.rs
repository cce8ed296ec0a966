//! Definitions deriving Parse and ToTokens.
pub mod case;
pub mod emit;
pub mod errs;
pub mod gener;
pub mod judge;
pub mod model;
pub mod rt;
pub mod schema;
pub mod shrink;
pub mod toks;
