use bounded_static::{IntoBoundedStatic, ToStatic};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};

use crate::{
    parse::{self, Fail},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};

pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;

    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;

    fn decode_static<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        match self.decode(input) {
            Ok((r, m)) => Ok((r, m.into_static())),
            Err(e) => Err(e.into_static()),
        }
    }
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub enum GreetingDecodeError {
    Incomplete,
    Failed,
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub enum CommandDecodeError<'a> {
    Incomplete,
    LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode },
    Failed,
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub enum AuthenticateDataDecodeError {
    Incomplete,
    Failed,
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub enum ResponseDecodeError {
    Incomplete,
    LiteralFound { length: u32 },
    Failed,
}

#[derive(Clone, Debug, Eq, PartialEq, Hash, ToStatic)]
pub enum IdleDoneDecodeError {
    Incomplete,
    Failed,
}

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
        match parse::greeting(input) {
            Ok((n, m)) => Ok((&input[n..], m)),
            Err(Fail::Incomplete) => Err(GreetingDecodeError::Incomplete),
            Err(_) => Err(GreetingDecodeError::Failed),
        }
    }
}

impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
        match parse::command(input) {
            Ok((n, m)) => Ok((&input[n..], m)),
            Err(Fail::Incomplete) => Err(CommandDecodeError::Incomplete),
            Err(Fail::Literal { tag: Some(tag), length, mode }) => {
                Err(CommandDecodeError::LiteralFound { tag, length, mode })
            }
            Err(_) => Err(CommandDecodeError::Failed),
        }
    }
}

impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
        match parse::response(input) {
            Ok((n, m)) => Ok((&input[n..], m)),
            Err(Fail::Incomplete) => Err(ResponseDecodeError::Incomplete),
            Err(Fail::Literal { length, .. }) => Err(ResponseDecodeError::LiteralFound { length }),
            Err(Fail::Failed) => Err(ResponseDecodeError::Failed),
        }
    }
}

impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
        match parse::authenticate_data(input) {
            Ok((n, m)) => Ok((&input[n..], m)),
            Err(Fail::Incomplete) => Err(AuthenticateDataDecodeError::Incomplete),
            Err(_) => Err(AuthenticateDataDecodeError::Failed),
        }
    }
}

impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
        match parse::idle_done(input) {
            Ok((n, m)) => Ok((&input[n..], m)),
            Err(Fail::Incomplete) => Err(IdleDoneDecodeError::Incomplete),
            Err(_) => Err(IdleDoneDecodeError::Failed),
        }
    }
}
