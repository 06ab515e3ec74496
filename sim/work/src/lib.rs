//! The simulated callers: real library calls on real objects. Compiled with
//! the same coverage instrumentation as the library, because the library's
//! generic code is instantiated here.
pub mod combos;
pub mod exec;
pub mod scalars;
pub mod solver;
pub mod world;
