//! Stand-in for argh: arguments come from the simulated world.
pub use argh_derive::FromArgs;

pub trait FromArgs: Sized {
    fn from_sim_args(args: &[String]) -> Result<Self, String>;
}

pub fn from_env<T: FromArgs>() -> T {
    let args = simcore::with(|w| w.args.clone());
    match T::from_sim_args(&args) {
        Ok(t) => t,
        // The real crate prints usage and exits the process.
        Err(e) => panic!("SIM-EXIT: {e}"),
    }
}
