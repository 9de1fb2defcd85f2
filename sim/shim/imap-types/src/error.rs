use std::fmt::{Display, Formatter};

#[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub enum ValidationErrorKind {
    Empty,
    NotEnough { min: usize },
    Invalid,
    InvalidByteAt { byte: u8, at: usize },
}

#[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct ValidationError {
    kind: ValidationErrorKind,
}

impl ValidationError {
    pub fn new(kind: ValidationErrorKind) -> Self {
        Self { kind }
    }
    pub fn kind(&self) -> &ValidationErrorKind {
        &self.kind
    }
}

impl Display for ValidationError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Validation failed: {:?}", self.kind)
    }
}

impl std::error::Error for ValidationError {}

impl From<std::convert::Infallible> for ValidationError {
    fn from(v: std::convert::Infallible) -> Self {
        match v {}
    }
}
