//! Reference models, written from the published specifications and from
//! nothing in /repo. Tables are derived from their mathematical definition
//! instead of being copied, and the structure differs from the code under test
//! wherever the specification leaves a choice. `selftest` compares them with
//! golden values produced by OpenSSL (tools/gen_golden.py).

pub mod aes;
pub mod golden;
pub mod kdf;
pub mod sha;
