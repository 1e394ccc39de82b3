#![allow(invalid_runtime_symbol_definitions)]
//! Deterministic simulation core: a simulated machine behind the C library's system-call
//! functions. Linked into the simulator binary, or preloaded (as a shared object) into the real
//! `d10` command and into CPython with the real `d10` extension module.
pub mod interpose;
pub mod raw;
pub mod rng;
pub mod shim;
pub mod world;
