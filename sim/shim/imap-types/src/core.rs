use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    str::from_utf8,
};

use crate::{
    error::{ValidationError, ValidationErrorKind as K},
    utils::{escape_quoted, indicators::*},
    ToStatic,
};

macro_rules! str_type {
    ($(#[$m:meta])* $name:ident) => {
        $(#[$m])*
        #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
        pub struct $name<'a>(pub(crate) Cow<'a, str>);

        impl<'a> Debug for $name<'a> {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                write!(f, concat!(stringify!($name), "({:?})"), self.0)
            }
        }
        impl<'a> Display for $name<'a> {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl<'a> $name<'a> {
            pub fn inner(&self) -> &str {
                &self.0
            }
            pub fn as_str(&self) -> &str {
                &self.0
            }
            pub fn into_inner(self) -> Cow<'a, str> {
                self.0
            }
            /// Constructs without validation.
            pub fn unvalidated<C>(inner: C) -> Self
            where
                C: Into<Cow<'a, str>>,
            {
                Self(inner.into())
            }
        }
        impl<'a> AsRef<str> for $name<'a> {
            fn as_ref(&self) -> &str {
                &self.0
            }
        }
        impl<'a> PartialEq<str> for $name<'a> {
            fn eq(&self, other: &str) -> bool {
                self.0 == other
            }
        }
        impl<'a, 'b> PartialEq<&'b str> for $name<'a> {
            fn eq(&self, other: &&str) -> bool {
                self.0 == *other
            }
        }
        impl<'a> TryFrom<&'a str> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a str) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(value)))
            }
        }
        impl<'a> TryFrom<String> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: String) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(value)))
            }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> {
                Self::validate(value.as_ref())?;
                Ok(Self(value))
            }
        }
        impl<'a> TryFrom<&'a [u8]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                let s = from_utf8(value).map_err(|_| ValidationError::new(K::Invalid))?;
                Ok(Self(Cow::Borrowed(s)))
            }
        }
        impl<'a> TryFrom<Vec<u8>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                let s = String::from_utf8(value).map_err(|_| ValidationError::new(K::Invalid))?;
                Ok(Self(Cow::Owned(s)))
            }
        }
        impl<'a, const N: usize> TryFrom<&'a [u8; N]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8; N]) -> Result<Self, Self::Error> {
                Self::try_from(value.as_slice())
            }
        }
    };
}
#[allow(unused_imports)]
pub(crate) use str_type;

fn all(value: &[u8], allow_empty: bool, f: impl Fn(u8) -> bool) -> Result<(), ValidationError> {
    if value.is_empty() && !allow_empty {
        return Err(ValidationError::new(K::Empty));
    }
    match value.iter().position(|b| !f(*b)) {
        Some(at) => Err(ValidationError::new(K::InvalidByteAt { byte: value[at], at })),
        None => Ok(()),
    }
}

str_type!(Atom);
impl<'a> Atom<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), false, is_atom_char)
    }
}

str_type!(AtomExt);
impl<'a> AtomExt<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), false, is_astring_char)
    }
}

str_type!(Quoted);
impl<'a> Quoted<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), true, is_text_char)
    }
}

str_type!(Tag);
impl<'a> Tag<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), false, |b| is_astring_char(b) && b != b'+')
    }
}

str_type!(
    /// Human-readable text of status responses.
    Text
);
impl<'a> Text<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), false, is_text_char)
    }
}

impl<'a> From<Atom<'a>> for AtomExt<'a> {
    fn from(a: Atom<'a>) -> Self {
        AtomExt(a.0)
    }
}

/// Specifies if an IMAP literal is synchronizing or non-synchronizing.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum LiteralMode {
    Sync,
    NonSync,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct Literal<'a> {
    pub(crate) data: Cow<'a, [u8]>,
    pub(crate) mode: LiteralMode,
}

impl<'a> Debug for Literal<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        if self.data.len() > 64 {
            write!(f, "Literal{{len: {}, mode: {:?}}}", self.data.len(), self.mode)
        } else {
            write!(f, "Literal{{data: b\"{}\", mode: {:?}}}", crate::utils::escape_byte_string(&self.data), self.mode)
        }
    }
}

impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        all(value.as_ref(), true, is_char8)
    }
    pub fn data(&self) -> &[u8] {
        &self.data
    }
    pub fn mode(&self) -> LiteralMode {
        self.mode
    }
    pub fn into_data(self) -> Cow<'a, [u8]> {
        self.data
    }
    pub fn into_sync(mut self) -> Self {
        self.mode = LiteralMode::Sync;
        self
    }
    pub fn into_non_sync(mut self) -> Self {
        self.mode = LiteralMode::NonSync;
        self
    }
    pub fn unvalidated<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self { data: data.into(), mode: LiteralMode::Sync }
    }
    pub fn unvalidated_non_sync<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self { data: data.into(), mode: LiteralMode::NonSync }
    }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        Self::validate(value)?;
        Ok(Self { data: Cow::Borrowed(value), mode: LiteralMode::Sync })
    }
}
impl<'a> TryFrom<Vec<u8>> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        Self::validate(&value)?;
        Ok(Self { data: Cow::Owned(value), mode: LiteralMode::Sync })
    }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl<'a> TryFrom<String> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}
impl<'a, const N: usize> TryFrom<&'a [u8; N]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8; N]) -> Result<Self, Self::Error> {
        Self::try_from(value.as_slice())
    }
}
impl<'a> AsRef<[u8]> for Literal<'a> {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}

/// Either a quoted string or a literal.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum IString<'a> {
    Literal(Literal<'a>),
    Quoted(Quoted<'a>),
}
impl<'a> IString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self {
            Self::Literal(l) => l.into_data(),
            Self::Quoted(q) => match q.into_inner() {
                Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()),
                Cow::Owned(s) => Cow::Owned(s.into_bytes()),
            },
        }
    }
}
impl<'a> AsRef<[u8]> for IString<'a> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Literal(l) => l.as_ref(),
            Self::Quoted(q) => q.inner().as_bytes(),
        }
    }
}
macro_rules! istring_from {
    ($($t:ty),*) => { $(
        impl<'a> TryFrom<$t> for IString<'a> {
            type Error = ValidationError;
            fn try_from(value: $t) -> Result<Self, Self::Error> {
                if Quoted::validate(&value).is_ok() {
                    Ok(Self::Quoted(Quoted::try_from(value)?))
                } else {
                    Ok(Self::Literal(Literal::try_from(value)?))
                }
            }
        }
        impl<'a> TryFrom<$t> for AString<'a> {
            type Error = ValidationError;
            fn try_from(value: $t) -> Result<Self, Self::Error> {
                if AtomExt::validate(&value).is_ok() {
                    Ok(Self::Atom(AtomExt::try_from(value)?))
                } else {
                    Ok(Self::String(IString::try_from(value)?))
                }
            }
        }
        impl<'a> TryFrom<$t> for NString<'a> {
            type Error = ValidationError;
            fn try_from(value: $t) -> Result<Self, Self::Error> {
                Ok(Self(Some(IString::try_from(value)?)))
            }
        }
    )* };
}
istring_from!(&'a str, String, &'a [u8], Vec<u8>);
impl<'a> From<Literal<'a>> for IString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self::Literal(v)
    }
}
impl<'a> From<Quoted<'a>> for IString<'a> {
    fn from(v: Quoted<'a>) -> Self {
        Self::Quoted(v)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl<'a> NString<'a> {
    pub const NIL: Self = Self(None);
    pub fn into_option(self) -> Option<Cow<'a, [u8]>> {
        self.0.map(|x| x.into_inner())
    }
}
impl<'a> From<IString<'a>> for NString<'a> {
    fn from(v: IString<'a>) -> Self {
        Self(Some(v))
    }
}
impl<'a> From<Literal<'a>> for NString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self(Some(IString::from(v)))
    }
}
impl<'a> From<Quoted<'a>> for NString<'a> {
    fn from(v: Quoted<'a>) -> Self {
        Self(Some(IString::from(v)))
    }
}

/// Either an (extended) [`Atom`] or [`IString`].
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum AString<'a> {
    Atom(AtomExt<'a>),
    String(IString<'a>),
}
impl<'a> From<Literal<'a>> for AString<'a> {
    fn from(v: Literal<'a>) -> Self {
        Self::String(IString::Literal(v))
    }
}
impl<'a> From<Quoted<'a>> for AString<'a> {
    fn from(v: Quoted<'a>) -> Self {
        Self::String(IString::Quoted(v))
    }
}
impl<'a> From<Atom<'a>> for AString<'a> {
    fn from(v: Atom<'a>) -> Self {
        Self::Atom(v.into())
    }
}
impl<'a> From<AtomExt<'a>> for AString<'a> {
    fn from(v: AtomExt<'a>) -> Self {
        Self::Atom(v)
    }
}
impl<'a> AsRef<[u8]> for AString<'a> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Atom(a) => a.inner().as_bytes(),
            Self::String(s) => s.as_ref(),
        }
    }
}
impl<'a> AString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self {
            Self::Atom(a) => match a.into_inner() {
                Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()),
                Cow::Owned(s) => Cow::Owned(s.into_bytes()),
            },
            Self::String(s) => s.into_inner(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum Charset<'a> {
    Atom(Atom<'a>),
    Quoted(Quoted<'a>),
}
impl<'a> TryFrom<&'a str> for Charset<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        if let Ok(a) = Atom::try_from(value) {
            Ok(Self::Atom(a))
        } else {
            Ok(Self::Quoted(Quoted::try_from(value)?))
        }
    }
}
impl<'a> Charset<'a> {
    pub fn to_wire(&self) -> String {
        match self {
            Self::Atom(a) => a.as_str().to_string(),
            Self::Quoted(q) => format!("\"{}\"", escape_quoted(q.as_str())),
        }
    }
}

/// A [`Vec`] containing >= 1 elements.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct Vec1<T>(pub(crate) Vec<T>);
impl<T> Debug for Vec1<T>
where
    T: Debug,
{
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)?;
        f.write_str("+")
    }
}
impl<T> Vec1<T> {
    pub fn validate(value: &[T]) -> Result<(), ValidationError> {
        if value.is_empty() {
            return Err(ValidationError::new(K::NotEnough { min: 1 }));
        }
        Ok(())
    }
    pub fn into_inner(self) -> Vec<T> {
        self.0
    }
    pub fn as_slice(&self) -> &[T] {
        &self.0
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn unvalidated(inner: Vec<T>) -> Self {
        Self(inner)
    }
}
impl<T> From<T> for Vec1<T> {
    fn from(value: T) -> Self {
        Vec1(vec![value])
    }
}
impl<T> TryFrom<Vec<T>> for Vec1<T> {
    type Error = ValidationError;
    fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> {
        Self::validate(&inner)?;
        Ok(Self(inner))
    }
}
impl<T> IntoIterator for Vec1<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'x, T> IntoIterator for &'x Vec1<T> {
    type Item = &'x T;
    type IntoIter = std::slice::Iter<'x, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T> AsRef<[T]> for Vec1<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T> std::ops::Deref for Vec1<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T> PartialEq<Vec<T>> for Vec1<T> where T: PartialEq {
    fn eq(&self, o: &Vec<T>) -> bool {
        &self.0 == o
    }
}

/// Hierarchy delimiter.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn unvalidated(c: char) -> Self {
        Self(c)
    }
    pub fn inner(&self) -> char {
        self.0
    }
}
impl TryFrom<char> for QuotedChar {
    type Error = ValidationError;
    fn try_from(c: char) -> Result<Self, Self::Error> {
        if c.is_ascii() && is_text_char(c as u8) {
            Ok(Self(c))
        } else {
            Err(ValidationError::new(K::Invalid))
        }
    }
}
pub use QuotedChar as QuotedCharAlias;
