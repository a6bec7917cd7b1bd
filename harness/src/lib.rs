//! Property-based testing core: choice-sequence generators, parallel fixed-work
//! driver, shrinking, replay files, evidence and crash supervision.
pub mod core;
pub mod src;
pub mod reflex;
pub mod gen;
pub mod doc;
pub mod catal;
pub mod tsyn;
pub mod tyrun;
pub mod specs;
pub mod globref;
pub use crate::core::*;
pub use crate::src::Src;
