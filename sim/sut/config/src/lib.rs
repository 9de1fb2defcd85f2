#[path = "/repo/proxy/src/config.rs"]
pub mod config;
