//! Reference framing: where messages end in a byte stream, recomputed from scratch every time
//! (so it cannot depend on how the bytes arrived).
use imap_codec::decode::{
    AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError,
    ResponseDecodeError,
};
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};
use imap_types::auth::AuthenticateData;
use imap_types::command::Command;
use imap_types::core::{LiteralMode, Tag};
use imap_types::response::{Greeting, Response};
use imap_types::IntoBoundedStatic;

pub enum Dec<M> {
    Ok(M),
    Lit(usize, Option<Tag<'static>>, LiteralMode),
    Bad,
}

#[derive(Debug)]
pub enum Frame<M> {
    /// A complete message and its length.
    Msg(M, usize),
    /// Unparsable; this many bytes belong to it.
    Malformed(usize),
    /// A line of it ends in a bare line feed.
    BareLf(usize),
    /// The size limit is reached without a complete message.
    TooLong(usize),
    /// The (n+1)-th literal of this message is announced; n were accepted before.
    Announce { len: usize, tag: Option<Tag<'static>>, mode: LiteralMode, seen: usize },
    /// Not complete yet.
    Need,
}

/// `accepted`: how many literals of the first message have been accepted already.
pub fn frame<M>(buf: &[u8], relaxed: bool, max: Option<usize>, accepted: usize, dec: impl Fn(&[u8]) -> Dec<M>) -> Frame<M> {
    frame_known(buf, relaxed, max, accepted, &mut vec![], dec)
}

/// Like `frame`; `known` spares decoding the lines of earlier calls again. It belongs to one message
/// (same start, limits and decoder) and holds, per announced literal, the end of its line and its length.
pub fn frame_known<M>(
    buf: &[u8],
    relaxed: bool,
    max: Option<usize>,
    accepted: usize,
    known: &mut Vec<(usize, usize)>,
    dec: impl Fn(&[u8]) -> Dec<M>,
) -> Frame<M> {
    let window = max.map_or(buf.len(), |m| buf.len().min(m));
    let full = max == Some(window);
    let buf = &buf[..window];
    let short = || if full { Frame::TooLong(window) } else { Frame::Need };
    let mut line = 0;
    let mut literals = 0;
    for (end, len) in known.iter().take(accepted) {
        literals += 1;
        if buf.len() - end < *len {
            return short();
        }
        line = end + len;
    }
    loop {
        let Some(k) = buf[line..].iter().position(|b| *b == b'\n') else { return short() };
        let end = line + k + 1;
        if !relaxed && (k == 0 || buf[end - 2] != b'\r') {
            return Frame::BareLf(end);
        }
        match dec(&buf[..end]) {
            Dec::Ok(m) => return Frame::Msg(m, end),
            Dec::Bad => return Frame::Malformed(end),
            Dec::Lit(len, tag, mode) => {
                if known.len() == literals {
                    known.push((end, len));
                }
                if literals == accepted {
                    return Frame::Announce { len, tag, mode, seen: end };
                }
                literals += 1;
                if buf.len() - end < len {
                    return short();
                }
                line = end + len;
            }
        }
    }
}

pub fn dec_greeting(b: &[u8]) -> Dec<Greeting<'static>> {
    match GreetingCodec::default().decode(b) {
        Ok((_, m)) => Dec::Ok(m.into_static()),
        Err(GreetingDecodeError::Failed | GreetingDecodeError::Incomplete) => Dec::Bad,
    }
}
pub fn dec_response(b: &[u8]) -> Dec<Response<'static>> {
    match ResponseCodec::default().decode(b) {
        Ok((_, m)) => Dec::Ok(m.into_static()),
        Err(ResponseDecodeError::LiteralFound { length }) => Dec::Lit(length as usize, None, LiteralMode::NonSync),
        Err(_) => Dec::Bad,
    }
}
pub fn dec_command(b: &[u8]) -> Dec<Command<'static>> {
    match CommandCodec::default().decode(b) {
        Ok((_, m)) => Dec::Ok(m.into_static()),
        Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
            Dec::Lit(length as usize, Some(tag.into_static()), mode)
        }
        Err(_) => Dec::Bad,
    }
}
pub fn dec_auth(b: &[u8]) -> Dec<AuthenticateData<'static>> {
    match AuthenticateDataCodec::default().decode(b) {
        Ok((_, m)) => Dec::Ok(m.into_static()),
        Err(AuthenticateDataDecodeError::Failed | AuthenticateDataDecodeError::Incomplete) => Dec::Bad,
    }
}
pub fn dec_done(b: &[u8]) -> Dec<()> {
    match IdleDoneCodec::default().decode(b) {
        Ok(_) => Dec::Ok(()),
        Err(IdleDoneDecodeError::Failed | IdleDoneDecodeError::Incomplete) => Dec::Bad,
    }
}
