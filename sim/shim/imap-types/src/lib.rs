//! Stand-in for the `imap-types` crate (2.0.0-alpha.1 is a git dependency that is not available
//! offline). It mirrors the names and shapes `imap-next` and its proxy use, and a good deal more,
//! so that edits to those crates keep compiling. See /verif/DESIGN.md, "What is a stub".
#![allow(clippy::all, mismatched_lifetime_syntaxes)]

pub use bounded_static;

pub mod auth;
pub mod command;
pub mod core;
pub mod error;
pub mod extensions;
pub mod fetch;
pub mod flag;
pub mod mailbox;
pub mod response;
pub mod secret;
pub mod utils;

pub use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};

