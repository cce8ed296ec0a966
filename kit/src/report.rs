//! Results of a run, exchanged between the shard programs and `smv`.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub type_id: usize,
    pub ident: String,
    pub definition: String,
    pub family: String,
    /// texts of the failing case
    pub texts: Vec<String>,
    pub attr: bool,
    pub single: bool,
    pub detail: String,
    /// known-findings signature
    pub signature: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: BTreeSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub types: u64,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
        self.types += o.types;
    }
}

pub fn hash(parts: &[&str]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    h
}

/// what one generated case amounted to
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub texts: Vec<String>,
    pub attr: bool,
    pub single: bool,
    pub classes: Vec<String>,
    pub nontrivial: bool,
    pub evaluations: u64,
    pub violation: Option<String>,
    pub signature: String,
    pub harness_error: Option<String>,
}
