#![allow(unknown_lints, invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]
pub mod lang;
pub mod plan;
pub mod rng;
pub mod rt;
pub mod shm;
pub mod vfs;
