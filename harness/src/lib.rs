//! Workloads, monitors and reference models for dumb-crypto.

#[cfg(all(unix, target_pointer_width = "64"))]
pub mod accept;
#[cfg(feature = "cover")]
pub mod cover;
pub mod errors;
pub mod exec;
pub mod families;
pub mod inner;
pub mod model;
pub mod monitor;
pub mod program;
pub mod props;
#[cfg(feature = "quiet")]
pub mod quiet;
pub mod refimpl;
pub mod rng;
pub mod sut;
#[cfg(not(target_arch = "wasm32"))]
pub mod runner;
pub mod selftest;
#[cfg(not(target_arch = "wasm32"))]
pub mod threads;
