pub mod case;
pub mod emit;
pub mod gener;
pub mod judge;
pub mod model;
pub mod schema;
pub mod shrink;
