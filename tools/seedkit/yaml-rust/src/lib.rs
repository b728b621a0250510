//! Stand-in for github.com/curvelogic/yaml-rust (not reachable offline).
//!
//! An independent implementation of exactly the API surface eucalypt uses, so
//! that the real eucalypt sources (including src/import/yaml.rs, jsonl.rs and
//! src/export/yaml.rs) compile and run.  It is part of the harness, not of the
//! code under test: YAML *syntax* fidelity is out of scope of every property.
pub mod parser;
pub mod scanner;
pub mod yaml;
mod emitter;

pub use emitter::{EmitError, YamlEmitter};
pub use yaml::Yaml;
