use std::{borrow::Cow, num::{NonZeroU32, NonZeroU64}};

use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{AString, Atom, AtomExt, Charset, IString, Literal, LiteralMode, NString, Quoted, QuotedChar, Tag, Text, Vec1},
    extensions::{compress::CompressionAlgorithm, idle::IdleDone},
    fetch::MessageDataItem,
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    response::{
        Bye, Capability, Code, CodeOther, CommandContinuationRequest, Data, Greeting, GreetingKind,
        Response, Status, StatusBody, StatusKind, Tagged,
    },
    secret::Secret,
    utils::indicators::*,
};

pub enum Fail {
    Incomplete,
    Failed,
    Literal { tag: Option<Tag<'static>>, length: u32, mode: LiteralMode },
}
type R<T> = Result<T, Fail>;

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> R<u8> {
        self.b.get(self.i).copied().ok_or(Fail::Incomplete)
    }
    fn eat(&mut self, c: u8) -> R<()> {
        if self.peek()? == c {
            self.i += 1;
            Ok(())
        } else {
            Err(Fail::Failed)
        }
    }
    fn sp(&mut self) -> R<()> {
        self.eat(b' ')
    }
    /// CRLF, or LF alone (the `quirk_crlf_relaxed` feature is always on in imap-next).
    fn crlf(&mut self) -> R<()> {
        if self.peek()? == b'\r' {
            self.i += 1;
        }
        self.eat(b'\n')
    }
    fn end(mut self) -> R<usize> {
        self.crlf()?;
        Ok(self.i)
    }
    fn take_while(&mut self, f: impl Fn(u8) -> bool) -> &'a [u8] {
        let s = self.i;
        while self.i < self.b.len() && f(self.b[self.i]) {
            self.i += 1;
        }
        &self.b[s..self.i]
    }
    fn take_while1(&mut self, f: impl Fn(u8) -> bool) -> R<&'a [u8]> {
        let r = self.take_while(f);
        if r.is_empty() {
            return Err(if self.i == self.b.len() { Fail::Incomplete } else { Fail::Failed });
        }
        Ok(r)
    }
    fn kw(&mut self, k: &str) -> R<()> {
        let k = k.as_bytes();
        let rest = &self.b[self.i..];
        let n = k.len().min(rest.len());
        if !rest[..n].eq_ignore_ascii_case(&k[..n]) {
            return Err(Fail::Failed);
        }
        if n < k.len() {
            return Err(Fail::Incomplete);
        }
        self.i += k.len();
        Ok(())
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        let s = self.i;
        match f(self) {
            Ok(v) => Ok(Some(v)),
            Err(Fail::Failed) => {
                self.i = s;
                Ok(None)
            }
            Err(e) => Err(e),
        }
    }
    fn number(&mut self) -> R<u32> {
        let d = self.take_while1(|b| b.is_ascii_digit())?;
        if self.i == self.b.len() {
            return Err(Fail::Incomplete);
        }
        std::str::from_utf8(d).unwrap().parse().map_err(|_| Fail::Failed)
    }
    fn nz(&mut self) -> R<NonZeroU32> {
        NonZeroU32::new(self.number()?).ok_or(Fail::Failed)
    }
    fn atom(&mut self) -> R<Atom<'static>> {
        let a = self.take_while1(is_atom_char)?.to_vec();
        Atom::try_from(a).map_err(|_| Fail::Failed)
    }
    fn tag(&mut self) -> R<Tag<'static>> {
        let a = self.take_while1(|b| is_astring_char(b) && b != b'+')?.to_vec();
        Tag::try_from(a).map_err(|_| Fail::Failed)
    }
    fn quoted(&mut self) -> R<Quoted<'static>> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let d = self.peek()?;
                    if !is_quoted_specials(d) {
                        return Err(Fail::Failed);
                    }
                    self.i += 1;
                    out.push(d);
                }
                c if is_text_char(c) => out.push(c),
                _ => return Err(Fail::Failed),
            }
        }
        Quoted::try_from(out).map_err(|_| Fail::Failed)
    }
    fn literal(&mut self) -> R<Literal<'static>> {
        self.eat(b'{')?;
        let length = self.number()?;
        let mode = if self.peek()? == b'+' {
            self.i += 1;
            LiteralMode::NonSync
        } else {
            LiteralMode::Sync
        };
        self.eat(b'}')?;
        self.crlf()?;
        if self.i == self.b.len() {
            return Err(Fail::Literal { tag: None, length, mode });
        }
        let n = length as usize;
        if self.b.len() - self.i < n {
            return Err(Fail::Incomplete);
        }
        let data = self.b[self.i..self.i + n].to_vec();
        self.i += n;
        let l = Literal::try_from(data).map_err(|_| Fail::Failed)?;
        Ok(match mode {
            LiteralMode::Sync => l,
            LiteralMode::NonSync => l.into_non_sync(),
        })
    }
    fn string(&mut self) -> R<IString<'static>> {
        match self.peek()? {
            b'"' => Ok(IString::Quoted(self.quoted()?)),
            b'{' => Ok(IString::Literal(self.literal()?)),
            _ => Err(Fail::Failed),
        }
    }
    fn nstring(&mut self) -> R<NString<'static>> {
        match self.peek()? {
            b'"' | b'{' => Ok(NString(Some(self.string()?))),
            _ => {
                self.kw("NIL")?;
                Ok(NString(None))
            }
        }
    }
    fn astring(&mut self) -> R<AString<'static>> {
        match self.peek()? {
            b'"' | b'{' => Ok(AString::String(self.string()?)),
            _ => {
                let a = self.take_while1(is_astring_char)?.to_vec();
                Ok(AString::Atom(AtomExt::try_from(a).map_err(|_| Fail::Failed)?))
            }
        }
    }
    fn mailbox(&mut self) -> R<Mailbox<'static>> {
        Ok(self.astring()?.into())
    }
    fn text(&mut self) -> R<Text<'static>> {
        let t = self.take_while1(is_text_char)?.to_vec();
        Text::try_from(t).map_err(|_| Fail::Failed)
    }
    fn base64(&mut self) -> R<Vec<u8>> {
        let t = self.take_while(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/' | b'='));
        unbase64(t).ok_or(Fail::Failed)
    }
    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.eat(b'(')?;
        let mut v = vec![];
        if self.peek()? != b')' {
            loop {
                v.push(f(self)?);
                if self.peek()? == b' ' {
                    self.i += 1;
                } else {
                    break;
                }
            }
        }
        self.eat(b')')?;
        Ok(v)
    }
    fn flag(&mut self) -> R<Flag<'static>> {
        if self.peek()? == b'\\' {
            self.i += 1;
            Ok(Flag::system(self.atom()?))
        } else {
            Ok(Flag::keyword(self.atom()?))
        }
    }
    fn capabilities(&mut self) -> R<Vec1<Capability<'static>>> {
        let mut v = vec![];
        while self.peek()? == b' ' {
            self.i += 1;
            v.push(Capability::from(self.atom()?));
        }
        Vec1::try_from(v).map_err(|_| Fail::Failed)
    }
    fn code(&mut self) -> R<Code<'static>> {
        let s = self.i;
        let r = self.code_known();
        if let Ok(c) = r {
            if self.peek()? == b']' {
                return Ok(c);
            }
        }
        self.i = s;
        let d = self.take_while1(|b| is_text_char(b) && b != b']')?.to_vec();
        Ok(Code::Other(CodeOther::unvalidated(d)))
    }
    fn code_known(&mut self) -> R<Code<'static>> {
        let k = self.take_while1(is_atom_char)?.to_ascii_uppercase();
        Ok(match k.as_slice() {
            b"ALERT" => Code::Alert,
            b"BADCHARSET" => {
                let mut allowed = vec![];
                if self.peek()? == b' ' {
                    self.i += 1;
                    allowed = self.list(|p| {
                        if p.peek()? == b'"' {
                            Ok(Charset::Quoted(p.quoted()?))
                        } else {
                            Ok(Charset::Atom(p.atom()?))
                        }
                    })?;
                }
                Code::BadCharset { allowed }
            }
            b"CAPABILITY" => Code::Capability(self.capabilities()?),
            b"PARSE" => Code::Parse,
            b"PERMANENTFLAGS" => {
                self.sp()?;
                Code::PermanentFlags(self.list(|p| {
                    if p.b[p.i..].starts_with(b"\\*") {
                        p.i += 2;
                        Ok(FlagPerm::Asterisk)
                    } else {
                        Ok(FlagPerm::Flag(p.flag()?))
                    }
                })?)
            }
            b"READ-ONLY" => Code::ReadOnly,
            b"READ-WRITE" => Code::ReadWrite,
            b"TRYCREATE" => Code::TryCreate,
            b"UIDNEXT" => {
                self.sp()?;
                Code::UidNext(self.nz()?)
            }
            b"UIDVALIDITY" => {
                self.sp()?;
                Code::UidValidity(self.nz()?)
            }
            b"UNSEEN" => {
                self.sp()?;
                Code::Unseen(self.nz()?)
            }
            b"COMPRESSIONACTIVE" => Code::CompressionActive,
            b"OVERQUOTA" => Code::OverQuota,
            b"TOOBIG" => Code::TooBig,
            b"UNKNOWN-CTE" => Code::UnknownCte,
            b"CLOSED" => Code::Closed,
            b"NOMODSEQ" => Code::NoModSeq,
            b"UIDNOTSTICKY" => Code::UidNotSticky,
            b"HIGHESTMODSEQ" => {
                self.sp()?;
                let d = self.take_while1(|b| b.is_ascii_digit())?;
                let n: u64 = std::str::from_utf8(d).unwrap().parse().map_err(|_| Fail::Failed)?;
                Code::HighestModSeq(NonZeroU64::new(n).ok_or(Fail::Failed)?)
            }
            _ => return Err(Fail::Failed),
        })
    }
    /// `[code] text` / `text`
    fn resp_text(&mut self) -> R<(Option<Code<'static>>, Text<'static>)> {
        let code = if self.peek()? == b'[' {
            self.i += 1;
            let c = self.code()?;
            self.eat(b']')?;
            self.sp()?;
            Some(c)
        } else {
            None
        };
        Ok((code, self.text()?))
    }
    fn id_params(&mut self) -> R<Option<Vec<(IString<'static>, NString<'static>)>>> {
        if self.peek()? == b'(' {
            Ok(Some(self.list(|p| {
                let k = p.string()?;
                p.sp()?;
                Ok((k, p.nstring()?))
            })?))
        } else {
            self.kw("NIL")?;
            Ok(None)
        }
    }
}

pub fn unbase64(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 4 != 0 {
        return None;
    }
    let pad = t.iter().rev().take_while(|b| **b == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in &t[..t.len() - pad] {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = (acc << 6) | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

pub fn to_base64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn greeting(b: &[u8]) -> R<(usize, Greeting<'static>)> {
    let mut p = P { b, i: 0 };
    p.eat(b'*')?;
    p.sp()?;
    let k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    let kind = match k.as_slice() {
        b"OK" => GreetingKind::Ok,
        b"PREAUTH" => GreetingKind::PreAuth,
        b"BYE" => GreetingKind::Bye,
        _ => return Err(Fail::Failed),
    };
    p.sp()?;
    let (code, text) = p.resp_text()?;
    Ok((p.end()?, Greeting { kind, code, text }))
}

pub fn authenticate_data(b: &[u8]) -> R<(usize, AuthenticateData<'static>)> {
    let mut p = P { b, i: 0 };
    if p.peek()? == b'*' {
        p.i += 1;
        return Ok((p.end()?, AuthenticateData::Cancel));
    }
    let d = p.base64()?;
    Ok((p.end()?, AuthenticateData::Continue(Secret::new(Cow::Owned(d)))))
}

pub fn idle_done(b: &[u8]) -> R<(usize, IdleDone)> {
    let mut p = P { b, i: 0 };
    p.kw("DONE")?;
    Ok((p.end()?, IdleDone))
}

pub fn command(b: &[u8]) -> R<(usize, Command<'static>)> {
    let mut p = P { b, i: 0 };
    let tag = p.tag()?;
    p.sp()?;
    match command_body(&mut p).and_then(|body| p.end().map(|n| (n, body))) {
        Ok((n, body)) => Ok((n, Command { tag, body })),
        Err(Fail::Literal { length, mode, .. }) => Err(Fail::Literal { tag: Some(tag), length, mode }),
        Err(e) => Err(e),
    }
}

fn seq_atom(p: &mut P) -> R<Atom<'static>> {
    let a = p.take_while1(|b| b.is_ascii_digit() || matches!(b, b':' | b',' | b'*'))?.to_vec();
    Ok(Atom::unvalidated(String::from_utf8(a).unwrap()))
}

fn command_body(p: &mut P) -> R<CommandBody<'static>> {
    let mut k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    let mut uid = false;
    if k == b"UID" {
        uid = true;
        p.sp()?;
        k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
        if !matches!(k.as_slice(), b"FETCH" | b"STORE" | b"COPY" | b"MOVE" | b"SEARCH") {
            return Err(Fail::Failed);
        }
    }
    Ok(match k.as_slice() {
        b"CAPABILITY" => CommandBody::Capability,
        b"NOOP" => CommandBody::Noop,
        b"LOGOUT" => CommandBody::Logout,
        b"STARTTLS" => CommandBody::StartTLS,
        b"UNSELECT" => CommandBody::Unselect,
        b"CHECK" => CommandBody::Check,
        b"CLOSE" => CommandBody::Close,
        b"EXPUNGE" => CommandBody::Expunge,
        b"IDLE" => CommandBody::Idle,
        b"AUTHENTICATE" => {
            p.sp()?;
            let mechanism = AuthMechanism::from(p.atom()?);
            let initial_response = if p.peek()? == b' ' {
                p.i += 1;
                if p.peek()? == b'=' {
                    p.i += 1;
                    Some(Secret::new(Cow::Owned(vec![])))
                } else {
                    let d = p.base64()?;
                    if d.is_empty() {
                        return Err(Fail::Failed);
                    }
                    Some(Secret::new(Cow::Owned(d)))
                }
            } else {
                None
            };
            CommandBody::Authenticate { mechanism, initial_response }
        }
        b"LOGIN" => {
            p.sp()?;
            let username = p.astring()?;
            p.sp()?;
            CommandBody::Login { username, password: Secret::new(p.astring()?) }
        }
        b"SELECT" | b"EXAMINE" | b"CREATE" | b"DELETE" | b"SUBSCRIBE" | b"UNSUBSCRIBE" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            match k.as_slice() {
                b"SELECT" => CommandBody::Select { mailbox },
                b"EXAMINE" => CommandBody::Examine { mailbox },
                b"CREATE" => CommandBody::Create { mailbox },
                b"DELETE" => CommandBody::Delete { mailbox },
                b"SUBSCRIBE" => CommandBody::Subscribe { mailbox },
                _ => CommandBody::Unsubscribe { mailbox },
            }
        }
        b"RENAME" => {
            p.sp()?;
            let from = p.mailbox()?;
            p.sp()?;
            CommandBody::Rename { from, to: p.mailbox()? }
        }
        b"LIST" | b"LSUB" => {
            p.sp()?;
            let reference = p.mailbox()?;
            p.sp()?;
            let mailbox_wildcard = p.astring()?;
            if k == b"LIST" {
                CommandBody::List { reference, mailbox_wildcard }
            } else {
                CommandBody::Lsub { reference, mailbox_wildcard }
            }
        }
        b"APPEND" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let mut flags = vec![];
            if p.peek()? == b'(' {
                flags = p.list(|p| p.flag())?;
                p.sp()?;
            }
            CommandBody::Append { mailbox, flags, message: p.literal()? }
        }
        b"SEARCH" => {
            p.sp()?;
            CommandBody::Search { arguments: p.atom()?, uid }
        }
        b"FETCH" => {
            p.sp()?;
            let sequence_set = seq_atom(p)?;
            p.sp()?;
            CommandBody::Fetch { sequence_set, item: p.atom()?, uid }
        }
        b"STORE" => {
            p.sp()?;
            let sequence_set = seq_atom(p)?;
            p.sp()?;
            let kind = p.atom()?;
            p.sp()?;
            CommandBody::Store { sequence_set, kind, flags: p.list(|p| p.flag())?, uid }
        }
        b"COPY" | b"MOVE" => {
            p.sp()?;
            let sequence_set = seq_atom(p)?;
            p.sp()?;
            let mailbox = p.mailbox()?;
            if k == b"COPY" {
                CommandBody::Copy { sequence_set, mailbox, uid }
            } else {
                CommandBody::Move { sequence_set, mailbox, uid }
            }
        }
        b"ENABLE" => {
            let mut v = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                v.push(p.atom()?.into());
            }
            CommandBody::Enable { capabilities: Vec1::try_from(v).map_err(|_| Fail::Failed)? }
        }
        b"COMPRESS" => {
            p.sp()?;
            p.kw("DEFLATE")?;
            CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate }
        }
        b"ID" => {
            p.sp()?;
            CommandBody::Id { parameters: p.id_params()? }
        }
        _ => return Err(Fail::Failed),
    })
}

pub fn response(b: &[u8]) -> R<(usize, Response<'static>)> {
    let mut p = P { b, i: 0 };
    match p.peek()? {
        b'+' => {
            p.i += 1;
            p.sp()?;
            let s = p.i;
            if let Ok(d) = p.base64() {
                if matches!(p.b.get(p.i), Some(b'\r') | Some(b'\n')) {
                    return Ok((p.end()?, Response::CommandContinuationRequest(CommandContinuationRequest::Base64(Cow::Owned(d)))));
                }
            }
            p.i = s;
            let (code, text) = p.resp_text()?;
            let ccr = CommandContinuationRequest::basic(code, text).map_err(|_| Fail::Failed)?;
            Ok((p.end()?, Response::CommandContinuationRequest(ccr)))
        }
        b'*' => {
            p.i += 1;
            p.sp()?;
            let s = p.i;
            if p.peek()?.is_ascii_digit() {
                let d = data_numeric(&mut p)?;
                return Ok((p.end()?, Response::Data(d)));
            }
            let k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
            p.i = s;
            match k.as_slice() {
                b"OK" | b"NO" | b"BAD" => {
                    let body = status_body(&mut p)?;
                    Ok((p.end()?, Response::Status(Status::Untagged(body))))
                }
                b"BYE" => {
                    p.kw("BYE")?;
                    p.sp()?;
                    let (code, text) = p.resp_text()?;
                    Ok((p.end()?, Response::Status(Status::Bye(Bye { code, text }))))
                }
                _ => {
                    let d = data_named(&mut p)?;
                    Ok((p.end()?, Response::Data(d)))
                }
            }
        }
        _ => {
            let tag = p.tag()?;
            p.sp()?;
            let body = status_body(&mut p)?;
            Ok((p.end()?, Response::Status(Status::Tagged(Tagged { tag, body }))))
        }
    }
}

fn status_body(p: &mut P) -> R<StatusBody<'static>> {
    let k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    let kind = match k.as_slice() {
        b"OK" => StatusKind::Ok,
        b"NO" => StatusKind::No,
        b"BAD" => StatusKind::Bad,
        _ => return Err(Fail::Failed),
    };
    p.sp()?;
    let (code, text) = p.resp_text()?;
    Ok(StatusBody { kind, code, text })
}

fn data_numeric(p: &mut P) -> R<Data<'static>> {
    let n = p.number()?;
    p.sp()?;
    let k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    let nz = NonZeroU32::new(n).ok_or(Fail::Failed);
    Ok(match k.as_slice() {
        b"EXISTS" => Data::Exists(n),
        b"RECENT" => Data::Recent(n),
        b"EXPUNGE" => Data::Expunge(nz?),
        b"FETCH" => {
            p.sp()?;
            let items = p.list(fetch_item)?;
            Data::Fetch { seq: nz?, items: Vec1::try_from(items).map_err(|_| Fail::Failed)? }
        }
        _ => return Err(Fail::Failed),
    })
}

fn fetch_item(p: &mut P) -> R<MessageDataItem<'static>> {
    let k = p.take_while1(|b| b.is_ascii_alphanumeric() || b == b'.')?.to_ascii_uppercase();
    Ok(match k.as_slice() {
        b"UID" => {
            p.sp()?;
            MessageDataItem::Uid(p.nz()?)
        }
        b"FLAGS" => {
            p.sp()?;
            MessageDataItem::Flags(p.list(|p| {
                let f = p.flag()?;
                Ok(match f {
                    Flag::Extension(ref e) if format!("{e:?}").to_ascii_lowercase().contains("\"recent\"") => FlagFetch::Recent,
                    f => FlagFetch::Flag(f),
                })
            })?)
        }
        b"RFC822" => {
            p.sp()?;
            MessageDataItem::Rfc822(p.nstring()?)
        }
        b"RFC822.HEADER" => {
            p.sp()?;
            MessageDataItem::Rfc822Header(p.nstring()?)
        }
        b"RFC822.TEXT" => {
            p.sp()?;
            MessageDataItem::Rfc822Text(p.nstring()?)
        }
        b"RFC822.SIZE" => {
            p.sp()?;
            MessageDataItem::Rfc822Size(p.number()?)
        }
        b"BODY" => {
            p.eat(b'[')?;
            let section = if p.peek()? == b']' { None } else { Some(p.atom()?) };
            p.eat(b']')?;
            let origin = if p.peek()? == b'<' {
                p.i += 1;
                let n = p.number()?;
                p.eat(b'>')?;
                Some(n)
            } else {
                None
            };
            p.sp()?;
            MessageDataItem::BodyExt { section, origin, data: p.nstring()? }
        }
        _ => return Err(Fail::Failed),
    })
}

fn data_named(p: &mut P) -> R<Data<'static>> {
    let k = p.take_while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    Ok(match k.as_slice() {
        b"CAPABILITY" => Data::Capability(p.capabilities()?),
        b"LIST" | b"LSUB" => {
            p.sp()?;
            let items = p.list(|p| {
                p.eat(b'\\')?;
                let a = p.atom()?;
                Ok(match a.as_str().to_ascii_lowercase().as_str() {
                    "noinferiors" => FlagNameAttribute::Noinferiors,
                    "noselect" => FlagNameAttribute::Noselect,
                    "marked" => FlagNameAttribute::Marked,
                    "unmarked" => FlagNameAttribute::Unmarked,
                    _ => FlagNameAttribute::Extension(a),
                })
            })?;
            p.sp()?;
            let delimiter = if p.peek()? == b'"' {
                let q = p.quoted()?;
                let c: Vec<char> = q.as_str().chars().collect();
                if c.len() != 1 {
                    return Err(Fail::Failed);
                }
                Some(QuotedChar::try_from(c[0]).map_err(|_| Fail::Failed)?)
            } else {
                p.kw("NIL")?;
                None
            };
            p.sp()?;
            let mailbox = p.mailbox()?;
            if k == b"LIST" {
                Data::List { items, delimiter, mailbox }
            } else {
                Data::Lsub { items, delimiter, mailbox }
            }
        }
        b"SEARCH" => {
            let mut v = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                v.push(p.nz()?);
            }
            Data::Search(v)
        }
        b"FLAGS" => {
            p.sp()?;
            Data::Flags(p.list(|p| p.flag())?)
        }
        b"ENABLED" => {
            let mut v = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                v.push(p.atom()?.into());
            }
            Data::Enabled { capabilities: v }
        }
        b"ID" => {
            p.sp()?;
            Data::Id { parameters: p.id_params()? }
        }
        _ => return Err(Fail::Failed),
    })
}

#[allow(dead_code)]
fn unused(p: &mut P) -> R<Option<()>> {
    p.opt(|p| p.sp())
}
