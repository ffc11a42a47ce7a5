//! Deterministic simulation of cambrian under fault injection.
pub mod bench;
pub mod case;
pub mod cli;
pub mod host;
pub mod driver;
pub mod findings;
pub mod gen;
pub mod hooks;
pub mod json;
pub mod judge;
pub mod ops;
pub mod props;
pub mod run;
pub mod scn;
pub mod shrink;
pub mod text;
