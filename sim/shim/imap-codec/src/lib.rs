//! Stand-in for the `imap-codec` crate (a git dependency that is not available offline).
//! Same contract as the real one towards `imap-next`: `decode` gets one complete message prefix
//! (lines and literals) and answers message / literal needed / failure; `encode` yields fragments.
#![allow(clippy::all, mismatched_lifetime_syntaxes)]

pub mod decode;
pub mod encode;
mod parse;

pub use imap_types;

macro_rules! codec {
    ($($name:ident),*) => { $(
        #[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
        #[non_exhaustive]
        pub struct $name {}
        impl $name {
            pub fn new() -> Self {
                Self::default()
            }
        }
    )* };
}
codec!(GreetingCodec, CommandCodec, AuthenticateDataCodec, ResponseCodec, IdleDoneCodec);
