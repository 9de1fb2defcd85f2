//! Simulations of the library: state machines sans I/O, and streams over a simulated network.
pub mod client;
pub mod refclient;
pub mod refserver;
pub mod server;
pub mod secret;
pub mod session;
pub mod stream;
