// The proxy's own main.rs, with what it prints captured by the simulator.
#[allow(unused_macros)]
macro_rules! println {
    ($($t:tt)*) => { std::println!($($t)*) };
}
#[allow(unused_macros)]
macro_rules! print {
    ($($t:tt)*) => { std::print!($($t)*) };
}
include!("/repo/proxy/src/main.rs");
