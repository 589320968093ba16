//! Runtime-monitoring core: seeded case generation, supervised execution, verdicts, evidence.
pub mod rng;
pub mod run;
pub mod pred;
pub use rng::Rng;
pub use run::*;
pub use pred::{b64, b64d};
pub use serde_json::{json, Map, Value};
