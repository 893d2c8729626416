//! Runtime monitors for ed448-goldilocks: workload generators, an independent
//! reference model, and online/offline checkers over what the real code does.
#![allow(non_snake_case)]
pub mod big;
pub mod cov;
pub mod gen;
pub mod oracle;
pub mod props;
pub mod report;
pub mod rng;

#[cfg(all(feature = "fiat", not(feature = "u32b")))]
pub const BACKEND: &str = "fiat_u64";
#[cfg(all(feature = "u32b", not(feature = "fiat")))]
pub const BACKEND: &str = "u32";
