//! ferrosym: symbolic execution of the LLVM IR of the running program.
#![allow(clippy::all)]
pub mod exec;
pub mod expr;
pub mod fx;
pub mod intrin;
pub mod ir;
pub mod link;
pub mod mem;
pub mod solver;
pub mod sym;
