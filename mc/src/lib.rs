//! Bounded exhaustive exploration of ibig: shared driver, reference model and generators.
pub mod gen;
pub mod model;
pub mod run;
#[macro_use]
pub mod specs;
pub mod alloc;
#[macro_use]
pub mod fmtx;
pub mod hist;
pub mod mem;
pub mod sched;
pub mod steps;
pub mod share;

pub use gen::*;
pub use model::*;
pub use run::*;

/// Machine word size of the configuration under test.
#[cfg(any(force_bits = "16"))]
pub const W: usize = 16;
#[cfg(any(
    force_bits = "32",
    all(not(force_bits), not(force_bits = "16"), not(force_bits = "64"), target_pointer_width = "32")
))]
pub const W: usize = 32;
#[cfg(any(
    force_bits = "64",
    all(
        not(force_bits = "16"),
        not(force_bits = "32"),
        not(force_bits = "64"),
        target_pointer_width = "64"
    )
))]
pub const W: usize = 64;
