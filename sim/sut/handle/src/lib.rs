#[path = "/repo/src/handle.rs"]
pub mod handle;
