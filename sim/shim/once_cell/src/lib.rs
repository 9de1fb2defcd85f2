//! `once_cell` on top of the simulator's `OnceLock` (per run, hands the baton on while waiting).
pub use real::{race, unsync};

pub mod sync {
    use std::ops::Deref;

    #[derive(Default)]
    pub struct OnceCell<T>(simstd::sync::OnceLock<T>);
    impl<T: std::fmt::Debug> std::fmt::Debug for OnceCell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell(simstd::sync::OnceLock::new())
        }
        pub fn with_value(t: T) -> Self {
            let c = Self::new();
            let _ = c.0.set(t);
            c
        }
        pub fn get(&self) -> Option<&T> {
            self.0.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            self.0.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.0.get_or_init(f)
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            self.0.get_or_try_init(f)
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
    }

    pub struct Lazy<T, F = fn() -> T>(simstd::sync::LazyLock<T, F>);
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        pub const fn new(f: F) -> Self {
            Lazy(simstd::sync::LazyLock::new(f))
        }
        pub fn force(this: &Self) -> &T {
            simstd::sync::LazyLock::force(&this.0)
        }
    }
    impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
    impl<T: std::fmt::Debug, F> std::fmt::Debug for Lazy<T, F> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
}
