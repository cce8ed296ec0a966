pub mod bad;
pub mod def;
pub mod dump;
pub mod leaf;
pub mod lex;
pub mod dress;
pub mod mac;
pub mod names;
pub mod node;
pub mod probe;
pub mod props;
pub mod report;
pub mod run;
pub mod shard;
pub mod sm;
pub mod tape;
pub mod types;
pub mod val;
