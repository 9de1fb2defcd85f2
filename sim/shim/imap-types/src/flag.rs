use crate::{core::Atom, error::ValidationError, ToStatic};

#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub enum Flag<'a> {
    Answered,
    Deleted,
    Draft,
    Flagged,
    Seen,
    Extension(FlagExtension<'a>),
    Keyword(Atom<'a>),
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub struct FlagExtension<'a>(pub(crate) Atom<'a>);
impl<'a> Flag<'a> {
    pub fn system(atom: Atom<'a>) -> Self {
        match atom.as_str().to_ascii_lowercase().as_str() {
            "answered" => Flag::Answered,
            "deleted" => Flag::Deleted,
            "draft" => Flag::Draft,
            "flagged" => Flag::Flagged,
            "seen" => Flag::Seen,
            _ => Flag::Extension(FlagExtension(atom)),
        }
    }
    pub fn keyword(atom: Atom<'a>) -> Self {
        Self::Keyword(atom)
    }
    pub fn to_wire(&self) -> String {
        match self {
            Flag::Answered => "\\Answered".into(),
            Flag::Deleted => "\\Deleted".into(),
            Flag::Draft => "\\Draft".into(),
            Flag::Flagged => "\\Flagged".into(),
            Flag::Seen => "\\Seen".into(),
            Flag::Extension(e) => format!("\\{}", e.0),
            Flag::Keyword(k) => k.as_str().into(),
        }
    }
}
impl<'a> TryFrom<&'a str> for Flag<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        match value.strip_prefix('\\') {
            Some(v) => Ok(Self::system(Atom::try_from(v)?)),
            None => Ok(Self::keyword(Atom::try_from(value)?)),
        }
    }
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub enum FlagPerm<'a> {
    Flag(Flag<'a>),
    Asterisk,
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub enum FlagFetch<'a> {
    Flag(Flag<'a>),
    Recent,
}
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub enum FlagNameAttribute<'a> {
    Noinferiors,
    Noselect,
    Marked,
    Unmarked,
    Extension(Atom<'a>),
}
