//! itertools 0.12 provided by the cached 0.13 release.
#![no_std]
pub use real::*;
