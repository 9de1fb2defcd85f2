use std::num::NonZeroU32;

use crate::{core::{Atom, NString}, flag::FlagFetch, ToStatic};

#[derive(Clone, Debug, PartialEq, Eq, Hash, ToStatic)]
pub enum MessageDataItem<'a> {
    /// `BODY[<section>]<<origin>>`
    BodyExt { section: Option<Atom<'a>>, origin: Option<u32>, data: NString<'a> },
    Flags(Vec<FlagFetch<'a>>),
    Rfc822(NString<'a>),
    Rfc822Header(NString<'a>),
    Rfc822Size(u32),
    Rfc822Text(NString<'a>),
    Uid(NonZeroU32),
}
