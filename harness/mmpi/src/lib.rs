//! A model of MPI for model checking.
//!
//! The ranks of a simulated MPI job are stackful coroutines on one OS thread. This crate defines
//! the `MPI_*` C functions that rsmpi calls, so the code under test and rsmpi itself are the real
//! ones; only the MPI library below them is replaced. All nondeterminism that an MPI library and a
//! set of processes have (which rank runs, when a message becomes visible to a probe, when a send
//! completes, whether a send is buffered or waits for the receiver) is a choice made by a
//! `Chooser`, which is how `explore` enumerates all executions within a deviation bound.
pub mod alloc;
pub mod explore;
pub mod ffi;
pub mod types;
pub mod world;

pub use explore::{explore, replay, Base, Bounds, Outcome, Stats};


/// Makes sure the object with the MPI_* symbols is linked into the executable.
pub fn link() {
    ffi::keep();
}
pub use world::Mode;
