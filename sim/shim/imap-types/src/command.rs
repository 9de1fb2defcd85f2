use std::borrow::Cow;

use crate::{
    auth::AuthMechanism,
    core::{AString, Atom, IString, Literal, NString, Tag, Vec1},
    error::ValidationError,
    extensions::{compress::CompressionAlgorithm, enable::CapabilityEnable},
    flag::Flag,
    mailbox::Mailbox,
    secret::Secret,
    ToStatic,
};

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub struct Command<'a> {
    pub tag: Tag<'a>,
    pub body: CommandBody<'a>,
}

impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Ok(Self { tag: tag.try_into()?, body })
    }
    pub fn name(&self) -> &'static str {
        self.body.name()
    }
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
#[non_exhaustive]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate {
        mechanism: AuthMechanism<'a>,
        initial_response: Option<Secret<Cow<'a, [u8]>>>,
    },
    Login {
        username: AString<'a>,
        password: Secret<AString<'a>>,
    },
    Select { mailbox: Mailbox<'a> },
    Unselect,
    Examine { mailbox: Mailbox<'a> },
    Create { mailbox: Mailbox<'a> },
    Delete { mailbox: Mailbox<'a> },
    Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> },
    Unsubscribe { mailbox: Mailbox<'a> },
    List { reference: Mailbox<'a>, mailbox_wildcard: AString<'a> },
    Lsub { reference: Mailbox<'a>, mailbox_wildcard: AString<'a> },
    Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, message: Literal<'a> },
    Check,
    Close,
    Expunge,
    /// Arguments kept verbatim (the stand-in does not model search keys or fetch items).
    Search { arguments: Atom<'a>, uid: bool },
    Fetch { sequence_set: Atom<'a>, item: Atom<'a>, uid: bool },
    Store { sequence_set: Atom<'a>, kind: Atom<'a>, flags: Vec<Flag<'a>>, uid: bool },
    Copy { sequence_set: Atom<'a>, mailbox: Mailbox<'a>, uid: bool },
    Move { sequence_set: Atom<'a>, mailbox: Mailbox<'a>, uid: bool },
    Idle,
    Enable { capabilities: Vec1<CapabilityEnable<'a>> },
    Compress { algorithm: CompressionAlgorithm },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}

impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Command::new(tag, self)
    }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self {
        CommandBody::Authenticate { mechanism, initial_response: None }
    }
    pub fn authenticate_with_ir<I>(mechanism: AuthMechanism<'a>, initial_response: I) -> Self
    where
        I: Into<Cow<'a, [u8]>>,
    {
        CommandBody::Authenticate { mechanism, initial_response: Some(Secret::new(initial_response.into())) }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, ValidationError>
    where
        U: TryInto<AString<'a>>,
        P: TryInto<AString<'a>>,
        ValidationError: From<U::Error> + From<P::Error>,
    {
        Ok(CommandBody::Login { username: username.try_into()?, password: Secret::new(password.try_into()?) })
    }
    pub fn select<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(CommandBody::Select { mailbox: mailbox.try_into()? })
    }
    pub fn create<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(CommandBody::Create { mailbox: mailbox.try_into()? })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY",
            Self::Noop => "NOOP",
            Self::Logout => "LOGOUT",
            Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE",
            Self::Login { .. } => "LOGIN",
            Self::Select { .. } => "SELECT",
            Self::Unselect => "UNSELECT",
            Self::Examine { .. } => "EXAMINE",
            Self::Create { .. } => "CREATE",
            Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME",
            Self::Subscribe { .. } => "SUBSCRIBE",
            Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST",
            Self::Lsub { .. } => "LSUB",
            Self::Append { .. } => "APPEND",
            Self::Check => "CHECK",
            Self::Close => "CLOSE",
            Self::Expunge => "EXPUNGE",
            Self::Search { .. } => "SEARCH",
            Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY",
            Self::Move { .. } => "MOVE",
            Self::Idle => "IDLE",
            Self::Enable { .. } => "ENABLE",
            Self::Compress { .. } => "COMPRESS",
            Self::Id { .. } => "ID",
        }
    }
}
