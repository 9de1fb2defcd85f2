use std::{borrow::Cow, fmt::{Display, Formatter}, str::FromStr};

use crate::{core::Atom, error::ValidationError, secret::Secret, ToStatic};

#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
#[non_exhaustive]
pub enum AuthMechanism<'a> {
    Plain,
    Login,
    OAuthBearer,
    XOAuth2,
    ScramSha1,
    ScramSha1Plus,
    ScramSha256,
    ScramSha256Plus,
    ScramSha3_512,
    ScramSha3_512Plus,
    Other(AuthMechanismOther<'a>),
}

/// An (unknown) authentication mechanism.
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub struct AuthMechanismOther<'a>(Atom<'a>);
impl<'a> AuthMechanismOther<'a> {
    pub fn inner(&self) -> &Atom<'a> {
        &self.0
    }
}

const KNOWN: &[(&str, AuthMechanism<'static>)] = &[
    ("PLAIN", AuthMechanism::Plain),
    ("LOGIN", AuthMechanism::Login),
    ("OAUTHBEARER", AuthMechanism::OAuthBearer),
    ("XOAUTH2", AuthMechanism::XOAuth2),
    ("SCRAM-SHA-1", AuthMechanism::ScramSha1),
    ("SCRAM-SHA-1-PLUS", AuthMechanism::ScramSha1Plus),
    ("SCRAM-SHA-256", AuthMechanism::ScramSha256),
    ("SCRAM-SHA-256-PLUS", AuthMechanism::ScramSha256Plus),
    ("SCRAM-SHA3-512", AuthMechanism::ScramSha3_512),
    ("SCRAM-SHA3-512-PLUS", AuthMechanism::ScramSha3_512Plus),
];

impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        for (n, m) in KNOWN {
            if n.eq_ignore_ascii_case(atom.as_str()) {
                return m.clone();
            }
        }
        Self::Other(AuthMechanismOther(atom))
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl<'a> TryFrom<String> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl FromStr for AuthMechanism<'static> {
    type Err = ValidationError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::try_from(s.to_string())
    }
}
impl<'a> AsRef<str> for AuthMechanism<'a> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Other(o) => o.0.as_str(),
            m => KNOWN.iter().find(|(_, k)| k == m).map(|(n, _)| *n).unwrap(),
        }
    }
}
impl<'a> Display for AuthMechanism<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_ref())
    }
}

/// Data line used, e.g., during AUTHENTICATE.
#[derive(Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd, ToStatic)]
pub enum AuthenticateData<'a> {
    /// Continue SASL authentication.
    Continue(Secret<Cow<'a, [u8]>>),
    /// Cancel SASL authentication.
    Cancel,
}
impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self::Continue(Secret::new(data.into()))
    }
}
