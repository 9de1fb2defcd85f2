use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    num::{NonZeroU32, NonZeroU64},
};

use crate::{
    auth::AuthMechanism,
    core::{Atom, Charset, IString, NString, QuotedCharAlias, Tag, Text, Vec1},
    error::{ValidationError, ValidationErrorKind},
    extensions::{
        compress::CompressionAlgorithm, enable::CapabilityEnable, quota::Resource,
        sort::SortAlgorithm, thread::ThreadingAlgorithm,
    },
    fetch::MessageDataItem,
    flag::{Flag, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    ToStatic,
};

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct Greeting<'a> {
    pub kind: GreetingKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}

impl<'a> Greeting<'a> {
    pub fn new(kind: GreetingKind, code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Ok(Greeting { kind, code, text: text.try_into()? })
    }
    pub fn ok<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Greeting { kind: GreetingKind::Ok, code, text: text.try_into()? })
    }
    pub fn preauth<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Greeting { kind: GreetingKind::PreAuth, code, text: text.try_into()? })
    }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Greeting { kind: GreetingKind::Bye, code, text: text.try_into()? })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum GreetingKind {
    Ok,
    PreAuth,
    Bye,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Response<'a> {
    CommandContinuationRequest(CommandContinuationRequest<'a>),
    Data(Data<'a>),
    Status(Status<'a>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum Status<'a> {
    Untagged(StatusBody<'a>),
    Tagged(Tagged<'a>),
    Bye(Bye<'a>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusBody<'a> {
    pub kind: StatusKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub enum StatusKind {
    Ok,
    No,
    Bad,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct Tagged<'a> {
    pub tag: Tag<'a>,
    pub body: StatusBody<'a>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct Bye<'a> {
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}

impl<'a> Status<'a> {
    pub fn new<T>(tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        let body = StatusBody { kind, code, text: text.try_into()? };
        Ok(match tag {
            Some(tag) => Self::Tagged(Tagged { tag, body }),
            None => Self::Untagged(body),
        })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Ok, code, text)
    }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::No, code, text)
    }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Bad, code, text)
    }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Bye(Bye { code, text: text.try_into()? }))
    }
    pub fn tag(&self) -> Option<&Tag> {
        match self {
            Self::Tagged(t) => Some(&t.tag),
            _ => None,
        }
    }
    pub fn kind(&self) -> Option<StatusKind> {
        match self {
            Self::Untagged(b) => Some(b.kind),
            Self::Tagged(t) => Some(t.body.kind),
            Self::Bye(_) => None,
        }
    }
    pub fn code(&self) -> Option<&Code> {
        match self {
            Self::Untagged(b) => b.code.as_ref(),
            Self::Tagged(t) => t.body.code.as_ref(),
            Self::Bye(b) => b.code.as_ref(),
        }
    }
    pub fn text(&self) -> &Text {
        match self {
            Self::Untagged(b) => &b.text,
            Self::Tagged(t) => &t.body.text,
            Self::Bye(b) => &b.text,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List { items: Vec<FlagNameAttribute<'a>>, delimiter: Option<QuotedCharAlias>, mailbox: Mailbox<'a> },
    Lsub { items: Vec<FlagNameAttribute<'a>>, delimiter: Option<QuotedCharAlias>, mailbox: Mailbox<'a> },
    Search(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch { seq: NonZeroU32, items: Vec1<MessageDataItem<'a>> },
    Enabled { capabilities: Vec<CapabilityEnable<'a>> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}

impl<'a> Data<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
    pub fn expunge(seq: u32) -> Result<Self, std::num::TryFromIntError> {
        Ok(Self::Expunge(NonZeroU32::try_from(seq)?))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum CommandContinuationRequest<'a> {
    Basic(CommandContinuationRequestBasic<'a>),
    Base64(Cow<'a, [u8]>),
}

/// Error during creation of continuation.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ContinueError<T> {
    Text(T),
    Ambiguous,
}
impl<T: Debug> Display for ContinueError<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<T: Debug> std::error::Error for ContinueError<T> {}

impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?))
    }
    pub fn base64<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self::Base64(data.into())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub struct CommandContinuationRequestBasic<'a> {
    code: Option<Code<'a>>,
    text: Text<'a>,
}

impl<'a> CommandContinuationRequestBasic<'a> {
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        let text = text.try_into().map_err(ContinueError::Text)?;
        // Ambiguous: without a code the text must neither look like Base64 nor start with a code.
        if code.is_none() && (base64_like(text.as_str().as_bytes()) || text.as_str().starts_with('[')) {
            return Err(ContinueError::Ambiguous);
        }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        self.code.as_ref()
    }
    pub fn text(&self) -> &Text<'a> {
        &self.text
    }
}

/// Canonical Base64 (what the decoder would turn into `Base64`).
pub fn base64_like(t: &[u8]) -> bool {
    if t.len() % 4 != 0 {
        return false;
    }
    let pad = t.iter().rev().take_while(|b| **b == b'=').count();
    pad <= 2
        && t[..t.len() - pad].iter().all(|b| b.is_ascii_alphanumeric() || *b == b'+' || *b == b'/')
        && !(t.len() == 4 && pad == 4)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
#[non_exhaustive]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Charset<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    CompressionActive,
    OverQuota,
    TooBig,
    UnknownCte,
    Closed,
    HighestModSeq(NonZeroU64),
    NoModSeq,
    UidNotSticky,
    Other(CodeOther<'a>),
}

impl<'a> Code<'a> {
    pub fn badcharset(allowed: Vec<Charset<'a>>) -> Self {
        Self::BadCharset { allowed }
    }
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
}

/// An (unknown) code, kept verbatim.
#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CodeOther<'a>(pub(crate) Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn unvalidated<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self(data.into())
    }
    pub fn inner(&self) -> &[u8] {
        &self.0
    }
}
impl<'a> Debug for CodeOther<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "CodeOther({})", crate::utils::escape_byte_string(&self.0))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
#[non_exhaustive]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Idle,
    Enable,
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<SortAlgorithm<'a>>),
    Thread(ThreadingAlgorithm<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Namespace,
    Other(CapabilityOther<'a>),
}

/// An (unknown) capability.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
pub struct CapabilityOther<'a>(Atom<'a>);
impl<'a> CapabilityOther<'a> {
    pub fn inner(&self) -> &Atom<'a> {
        &self.0
    }
}

impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(atom: Atom<'a>) -> Self {
        let upper = atom.as_str().to_ascii_uppercase();
        let own = |s: &str| Atom::try_from(s.to_string()).unwrap();
        match upper.as_str() {
            "IMAP4REV1" => Self::Imap4Rev1,
            "LOGINDISABLED" => Self::LoginDisabled,
            "STARTTLS" => Self::StartTls,
            "MAILBOX-REFERRALS" => Self::MailboxReferrals,
            "LOGIN-REFERRALS" => Self::LoginReferrals,
            "SASL-IR" => Self::SaslIr,
            "IDLE" => Self::Idle,
            "ENABLE" => Self::Enable,
            "QUOTA" => Self::Quota,
            "QUOTASET" => Self::QuotaSet,
            "LITERAL+" => Self::LiteralPlus,
            "LITERAL-" => Self::LiteralMinus,
            "MOVE" => Self::Move,
            "ID" => Self::Id,
            "UNSELECT" => Self::Unselect,
            "SORT" => Self::Sort(None),
            "METADATA" => Self::Metadata,
            "METADATA-SERVER" => Self::MetadataServer,
            "BINARY" => Self::Binary,
            "UIDPLUS" => Self::UidPlus,
            "CONDSTORE" => Self::CondStore,
            "QRESYNC" => Self::QResync,
            "NAMESPACE" => Self::Namespace,
            "COMPRESS=DEFLATE" => Self::Compress { algorithm: CompressionAlgorithm::Deflate },
            "SORT=DISPLAY" => Self::Sort(Some(SortAlgorithm::Display)),
            "THREAD=REFERENCES" => Self::Thread(ThreadingAlgorithm::References),
            "THREAD=ORDEREDSUBJECT" => Self::Thread(ThreadingAlgorithm::OrderedSubject),
            _ => {
                let s = atom.as_str();
                if upper.starts_with("AUTH=") && s.len() > 5 {
                    return Self::Auth(AuthMechanism::from(own(&s[5..])));
                }
                if upper.starts_with("QUOTA=RES-") && s.len() > 10 {
                    return Self::QuotaRes(Resource::from(own(&s[10..])));
                }
                if upper.starts_with("THREAD=") && s.len() > 7 {
                    return Self::Thread(ThreadingAlgorithm::Other(own(&s[7..])));
                }
                if upper.starts_with("SORT=") && s.len() > 5 {
                    return Self::Sort(Some(SortAlgorithm::Other(own(&s[5..]))));
                }
                Self::Other(CapabilityOther(atom))
            }
        }
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl<'a> Display for Capability<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Imap4Rev1 => f.write_str("IMAP4REV1"),
            Self::Auth(m) => write!(f, "AUTH={m}"),
            Self::LoginDisabled => f.write_str("LOGINDISABLED"),
            Self::StartTls => f.write_str("STARTTLS"),
            Self::MailboxReferrals => f.write_str("MAILBOX-REFERRALS"),
            Self::LoginReferrals => f.write_str("LOGIN-REFERRALS"),
            Self::SaslIr => f.write_str("SASL-IR"),
            Self::Idle => f.write_str("IDLE"),
            Self::Enable => f.write_str("ENABLE"),
            Self::Compress { .. } => f.write_str("COMPRESS=DEFLATE"),
            Self::Quota => f.write_str("QUOTA"),
            Self::QuotaRes(r) => write!(f, "QUOTA=RES-{}", r.to_wire()),
            Self::QuotaSet => f.write_str("QUOTASET"),
            Self::LiteralPlus => f.write_str("LITERAL+"),
            Self::LiteralMinus => f.write_str("LITERAL-"),
            Self::Move => f.write_str("MOVE"),
            Self::Id => f.write_str("ID"),
            Self::Unselect => f.write_str("UNSELECT"),
            Self::Sort(None) => f.write_str("SORT"),
            Self::Sort(Some(SortAlgorithm::Display)) => f.write_str("SORT=DISPLAY"),
            Self::Sort(Some(SortAlgorithm::Other(a))) => write!(f, "SORT={a}"),
            Self::Thread(ThreadingAlgorithm::References) => f.write_str("THREAD=REFERENCES"),
            Self::Thread(ThreadingAlgorithm::OrderedSubject) => f.write_str("THREAD=ORDEREDSUBJECT"),
            Self::Thread(ThreadingAlgorithm::Other(a)) => write!(f, "THREAD={a}"),
            Self::Metadata => f.write_str("METADATA"),
            Self::MetadataServer => f.write_str("METADATA-SERVER"),
            Self::Binary => f.write_str("BINARY"),
            Self::UidPlus => f.write_str("UIDPLUS"),
            Self::CondStore => f.write_str("CONDSTORE"),
            Self::QResync => f.write_str("QRESYNC"),
            Self::Namespace => f.write_str("NAMESPACE"),
            Self::Other(o) => f.write_str(o.0.as_str()),
        }
    }
}

impl From<ValidationErrorKind> for ValidationError {
    fn from(k: ValidationErrorKind) -> Self {
        ValidationError::new(k)
    }
}
