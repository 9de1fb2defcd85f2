use crate::{core::AString, error::ValidationError, ToStatic};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct MailboxOther<'a>(pub(crate) AString<'a>);
impl<'a> MailboxOther<'a> {
    pub fn inner(&self) -> &AString<'a> {
        &self.0
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum Mailbox<'a> {
    Inbox,
    Other(MailboxOther<'a>),
}
impl<'a> From<AString<'a>> for Mailbox<'a> {
    fn from(value: AString<'a>) -> Self {
        if value.as_ref().to_ascii_lowercase() == b"inbox" {
            Mailbox::Inbox
        } else {
            Mailbox::Other(MailboxOther(value))
        }
    }
}
macro_rules! from { ($($t:ty),*) => { $(
    impl<'a> TryFrom<$t> for Mailbox<'a> {
        type Error = ValidationError;
        fn try_from(value: $t) -> Result<Self, Self::Error> {
            Ok(AString::try_from(value)?.into())
        }
    }
)* } }
from!(&'a str, String, &'a [u8], Vec<u8>);
