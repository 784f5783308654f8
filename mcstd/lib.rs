//! Facade `std`: everything is re-exported from the real standard library except the
//! synchronisation primitives and the hash collections, which are routed through a controlled
//! scheduler (`mc`) when used from inside a managed execution. Injected with `--extern std=...`,
//! so the code under test is compiled unmodified.
#![no_std]
#![allow(warnings, clippy::all)]

#[doc(hidden)]
pub extern crate std as real;
pub use real::*;

pub mod collections;
pub mod mc;
pub mod sync;
