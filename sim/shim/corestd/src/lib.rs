//! `core` as seen by the code under test: the same as its `std`.
pub use simstd::*;
