//! Reference model used by the checks: a WebAssembly 1.0 syntax tree, encoder, decoder and
//! validator written from the specification, generators of modules, and the case engine.
//! Nothing in this crate depends on the code under test.

pub mod ast;
pub mod decode;
pub mod encode;
pub mod gen;
pub mod mutate;
pub mod ops;
pub mod src;
pub mod validate;
