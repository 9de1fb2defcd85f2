use std::fmt::{Debug, Formatter};

use crate::ToStatic;

/// A wrapper to ensure that secrets are redacted during `Debug`-printing.
#[derive(Clone, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub struct Secret<T>(T);

impl<T> Secret<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn declassify(&self) -> &T {
        &self.0
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}

impl<T> From<T> for Secret<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}

impl<T> Debug for Secret<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("/* REDACTED */")
    }
}
