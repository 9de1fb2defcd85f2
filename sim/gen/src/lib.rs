//! Generators of IMAP messages (drawn from the run's seed) and the reference framing.
pub mod frame;

use std::num::{NonZeroU32, NonZeroU64};

use imap_codec::encode::{Encoder, Fragment};
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec};
use imap_types::auth::{AuthMechanism, AuthenticateData};
use imap_types::command::{Command, CommandBody};
use imap_types::core::{AString, Atom, Charset, IString, Literal, NString, Quoted, QuotedChar, Tag, Text, Vec1};
use imap_types::extensions::compress::CompressionAlgorithm;
use imap_types::extensions::enable::CapabilityEnable;
use imap_types::fetch::MessageDataItem;
use imap_types::flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm};
use imap_types::mailbox::Mailbox;
use imap_types::response::{
    Capability, Code, CodeOther, CommandContinuationRequest, Data, Greeting, Response, Status,
};
use imap_types::secret::Secret;
use simcore::{chance, draw, range, secrets, weighted};

/// How big literals get.
#[derive(Clone, Copy, Debug)]
pub struct Sizes {
    /// Interesting boundary (e.g. the server's literal limit).
    pub boundary: usize,
    /// Largest "big" literal.
    pub big: usize,
}

pub const SMALL: Sizes = Sizes { boundary: 8, big: 40 };

/// Literal length: small, around the boundary, or big.
pub fn len(s: Sizes) -> usize {
    match weighted(&[6, 2, 3, 3, 1]) {
        0 => range(1, 6) as usize,
        1 => 0,
        2 => (s.boundary + draw(3) as usize).saturating_sub(1),
        3 => draw(24) as usize,
        _ => draw(s.big as u32 + 1) as usize,
    }
}

/// `n` literal bytes without NUL; plain text, line-end-heavy, or bytes that look like protocol.
pub fn bytes(n: usize) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    let style = weighted(&[4, 3, 3, 2, 1]);
    let mut x = draw(1 << 16) as u64 + 1;
    let mut next = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) as usize
    };
    let mut v = Vec::with_capacity(n);
    match style {
        0 => (0..n).for_each(|_| v.push(b'a' + (next() % 26) as u8)),
        1 => (0..n).for_each(|_| v.push(b"\r\n\n\rx"[next() % 5])),
        2 => {
            const P: &[&[u8]] = &[
                b"A1 NOOP\r\n", b"{5}\r\n", b"{3+}\r\n", b"* OK x\r\n", b"+ go\r\n", b"DONE\r\n",
                b"A1 BAD no\r\n", b"\n", b"*\r\n", b"* BYE x\r\n",
            ];
            while v.len() < n {
                v.extend_from_slice(P[next() % P.len()]);
            }
            v.truncate(n);
        }
        3 => (0..n).for_each(|_| v.push((next() % 255 + 1) as u8)),
        _ => {
            (0..n).for_each(|_| v.push(b'z'));
            if chance(1, 2) {
                v[n - 1] = b'\r';
            } else {
                v[n - 1] = b'\n';
            }
        }
    }
    v
}

pub fn literal(s: Sizes) -> Literal<'static> {
    let d = bytes(len(s));
    if chance(1, 3) {
        Literal::unvalidated_non_sync(d)
    } else {
        Literal::unvalidated(d)
    }
}

pub fn word() -> String {
    const W: &[&str] = &["box", "inbox2", "foo", "bar", "work", "x", "Sent", "a.b.c", "todo-2", "NIL", "DONE", "&Jjo-", "a/b", "user@x", "1", "+x"];
    W[draw(W.len() as u32) as usize].to_string()
}

pub fn atom() -> Atom<'static> {
    Atom::try_from(word()).unwrap()
}

fn quoted() -> Quoted<'static> {
    if chance(1, 32) {
        return Quoted::try_from("lengthy ".repeat(range(10, 200) as usize)).unwrap();
    }
    const W: &[&str] = &["q", "with space", "with \"quote\"", "back\\slash", "{3}", "", "* BYE", "100%", "\\", "\"", "\t\x01\x7f", "NIL", " ", "{5+}", "[x]"];
    Quoted::try_from(W[draw(W.len() as u32) as usize].to_string()).unwrap()
}

pub fn astring(s: Sizes, lit: bool) -> AString<'static> {
    if lit {
        AString::from(literal(s))
    } else if chance(1, 3) {
        AString::from(quoted())
    } else {
        AString::from(atom())
    }
}

fn mailbox(s: Sizes, lit: bool) -> Mailbox<'static> {
    if !lit && chance(1, 4) {
        Mailbox::Inbox
    } else {
        Mailbox::from(astring(s, lit))
    }
}

pub fn mechanism() -> AuthMechanism<'static> {
    const M: &[&str] = &[
        "PLAIN", "LOGIN", "XOAUTH2", "SCRAM-SHA-256", "X-MINE", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS",
        "GSSAPI", "NTLM", "EXTERNAL",
    ];
    AuthMechanism::try_from(M[draw(M.len() as u32) as usize]).unwrap()
}

fn flag() -> Flag<'static> {
    match weighted(&[4, 2, 2, 1, 1, 1, 1, 1]) {
        0 => Flag::Seen,
        1 => Flag::Deleted,
        2 => Flag::keyword(Atom::try_from("kw").unwrap()),
        3 => Flag::Answered,
        4 => Flag::Draft,
        5 => Flag::Flagged,
        6 => Flag::keyword(Atom::try_from("$Forwarded").unwrap()),
        _ => Flag::system(Atom::try_from("X-Mine").unwrap()),
    }
}

fn flags() -> Vec<Flag<'static>> {
    let n = if chance(1, 30) { range(4, 60) } else { draw(3) };
    (0..n).map(|_| flag()).collect()
}

/// Which commands to generate.
#[derive(Clone, Copy)]
pub struct Mix {
    pub plain: u32,
    pub literal: u32,
    pub auth: u32,
    pub idle: u32,
}
pub const MIX: Mix = Mix { plain: 5, literal: 6, auth: 2, idle: 2 };

/// Length of a piece of authentication data: short, now and then long (Kerberos tickets).
fn sasl_len(usual: u32) -> usize {
    1 + if chance(1, 24) { draw(3000) } else { draw(usual) } as usize
}

/// A piece of authentication data, with the secret of the run if there is one.
fn sasl(usual: u32) -> Vec<u8> {
    match secrets::armed() {
        Some(m) => {
            let mut v = if chance(1, 2) { bytes(sasl_len(usual)) } else { vec![] };
            let at = draw(v.len() as u32 + 1) as usize;
            v.splice(at..at, m.into_bytes());
            v
        }
        None => bytes(sasl_len(usual)),
    }
}

/// A password, with the secret of the run if there is one.
fn password(s: Sizes, lit: bool) -> Secret<AString<'static>> {
    Secret::new(match secrets::armed() {
        Some(m) => match draw(3) {
            _ if lit => {
                let mut d = m.into_bytes();
                d.extend(bytes(draw(6) as usize));
                AString::from(if chance(1, 3) { Literal::unvalidated_non_sync(d) } else { Literal::unvalidated(d) })
            }
            0 => AString::from(Quoted::try_from(format!("a \\ b {m} \"c")).unwrap()),
            1 => AString::from(Quoted::try_from(m).unwrap()),
            _ => AString::from(Atom::try_from(m).unwrap()),
        },
        None => astring(s, lit),
    })
}

pub fn authenticate() -> CommandBody<'static> {
    CommandBody::Authenticate {
        mechanism: mechanism(),
        initial_response: match weighted(&[3, 2, 1]) {
            0 => None,
            1 => Some(Secret::new(sasl(8).into())),
            _ => Some(Secret::new(Vec::new().into())),
        },
    }
}

pub fn body(mix: Mix, s: Sizes) -> CommandBody<'static> {
    match weighted(&[mix.plain, mix.literal, mix.auth, mix.idle]) {
        0 => match draw(22) {
            0 | 1 => CommandBody::Noop,
            2 => CommandBody::Capability,
            3 => CommandBody::Select { mailbox: mailbox(s, false) },
            4 => CommandBody::Login { username: astring(s, false), password: password(s, false) },
            5 => CommandBody::Fetch {
                sequence_set: Atom::unvalidated("1:3".to_string()),
                item: Atom::try_from("FLAGS").unwrap(),
                uid: chance(1, 2),
            },
            6 => CommandBody::Store {
                sequence_set: Atom::unvalidated("2".to_string()),
                kind: Atom::try_from("+FLAGS").unwrap(),
                flags: flags(),
                uid: chance(1, 2),
            },
            7 => CommandBody::Search { arguments: Atom::try_from("ALL").unwrap(), uid: chance(1, 2) },
            8 => CommandBody::Copy { sequence_set: Atom::unvalidated("1".to_string()), mailbox: mailbox(s, false), uid: false },
            9 => CommandBody::Move { sequence_set: Atom::unvalidated("7:9".to_string()), mailbox: mailbox(s, false), uid: true },
            10 => CommandBody::Logout,
            11 => CommandBody::Close,
            12 => CommandBody::Expunge,
            13 => CommandBody::Check,
            14 => CommandBody::Unselect,
            15 => CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate },
            16 => CommandBody::Enable { capabilities: Vec1::unvalidated([vec![CapabilityEnable::CondStore], vec![CapabilityEnable::QResync, CapabilityEnable::Utf8Accept]][draw(2) as usize].clone()) },
            17 => CommandBody::Id { parameters: None },
            18 => CommandBody::Examine { mailbox: mailbox(s, false) },
            19 => CommandBody::List { reference: mailbox(s, false), mailbox_wildcard: AString::try_from("x").unwrap() },
            20 => match draw(3) {
                0 => CommandBody::Subscribe { mailbox: mailbox(s, false) },
                1 => CommandBody::Unsubscribe { mailbox: mailbox(s, false) },
                _ => CommandBody::Delete { mailbox: mailbox(s, false) },
            },
            _ => CommandBody::StartTLS,
        },
        1 => match draw(9) {
            0 | 1 => CommandBody::Append { mailbox: mailbox(s, chance(1, 3)), flags: flags(), message: literal(s) },
            2 => CommandBody::Login { username: astring(s, true), password: password(s, chance(2, 3)) },
            3 => CommandBody::Login { username: astring(s, false), password: password(s, true) },
            4 => CommandBody::Select { mailbox: mailbox(s, true) },
            5 => CommandBody::Rename { from: mailbox(s, true), to: mailbox(s, true) },
            6 => CommandBody::Create { mailbox: mailbox(s, true) },
            7 => CommandBody::Id {
                parameters: Some({
                    let mut v = vec![
                        (IString::from(literal(s)), NString::from(IString::from(literal(s)))),
                        (IString::from(quoted()), NString(None)),
                    ];
                    for _ in 1..count(1, 12) {
                        v.push((IString::from(literal(s)), NString(Some(IString::from(literal(s))))));
                    }
                    v
                }),
            },
            _ => CommandBody::Lsub { reference: mailbox(s, true), mailbox_wildcard: astring(s, true) },
        },
        2 => authenticate(),
        _ => CommandBody::Idle,
    }
}

/// A tag made longer or odd now and then; different tags stay different.
pub fn decorated(t: String) -> Tag<'static> {
    let s = match weighted(&[20, 2, 1]) {
        0 => t,
        1 => format!("{}{t}", "T".repeat([8, 12, 20, 40, 80, 300][draw(6) as usize])),
        _ => format!("{}{t}", ["!#$&'", "-_~|", "BAD", "OK", "]:;<>?@[", "0x"][draw(6) as usize]),
    };
    Tag::try_from(s).unwrap()
}

/// Tags: mostly numbered, some that are prefixes or case variants of each other, some long or odd.
pub fn tag(n: usize) -> Tag<'static> {
    let s = match weighted(&[12, 2, 2, 2, 1, 1]) {
        0 => format!("A{n}"),
        1 => format!("a{n}"),
        2 => format!("A{n}.x"),
        3 => format!("{n}"),
        4 => format!("{}{n}", "T".repeat([12, 20, 40, 80, 300][draw(5) as usize])),
        _ => format!("{}{n}", [".", "!#$&'", "A", "-_~|", "BAD", "OK", "]:;<>?@[", "0x"][draw(8) as usize]),
    };
    Tag::try_from(s).unwrap()
}

pub fn command(n: usize, mix: Mix, s: Sizes) -> Command<'static> {
    Command { tag: tag(n), body: body(mix, s) }
}

/// A count that is usually small and now and then large.
pub fn count(usual: u32, rare: u32) -> u32 {
    if chance(1, 24) {
        range(usual.min(rare), rare)
    } else {
        range(1, usual)
    }
}

/// Printable and control characters, whatever a text may contain (without `[` in front).
fn odd_text() -> String {
    let mut s = String::from(["!", " ", "\t", "+", "*", ")", "\\", "\x7f"][draw(8) as usize]);
    for _ in 0..draw(40) {
        let b = match draw(4) {
            0 => range(1, 126) as u8,
            1 => b" \t\"\\{}()[]*+"[draw(12) as usize],
            _ => range(32, 126) as u8,
        };
        if b != b'\r' && b != b'\n' {
            s.push(b as char);
        }
    }
    s.push('.');
    s
}

pub fn text() -> Text<'static> {
    if chance(1, 20) {
        return Text::try_from(odd_text()).unwrap();
    }
    if chance(1, 32) {
        return Text::try_from("long text ".repeat(range(8, 60) as usize)).unwrap();
    }
    const T: &[&str] = &[
        "done.", "ok then", "Completed (0.001 secs)", "[not a code", "x {3}", "a + b", "!", "* BYE bye", "A1 OK inner!",
    ];
    Text::try_from(T[draw(T.len() as u32) as usize].to_string()).unwrap()
}

/// Text that is safe without a code (must not start with `[`).
pub fn plain_text() -> Text<'static> {
    if chance(1, 20) {
        return Text::try_from(odd_text()).unwrap();
    }
    const T: &[&str] = &["done.", "ok then", "idling...", "x {3}", "go ahead!", "* BYE bye", "Ready for more."];
    Text::try_from(T[draw(T.len() as u32) as usize].to_string()).unwrap()
}

pub fn capability(i: u32) -> Capability<'static> {
    const C: &[&str] = &[
        "IMAP4REV1", "IDLE", "ENABLE", "LITERAL+", "LITERAL-", "AUTH=PLAIN", "AUTH=X-MINE", "STARTTLS", "LOGINDISABLED",
        "SASL-IR", "QUOTA", "MOVE", "UNSELECT", "SORT", "SORT=DISPLAY", "THREAD=REFERENCES", "COMPRESS=DEFLATE",
        "X-OTHER", "CONDSTORE", "ID", "QUOTA=RES-STORAGE", "METADATA", "BINARY", "UIDPLUS", "QUOTASET", "QUOTA=RES-X-FOO",
        "THREAD=ORDEREDSUBJECT", "THREAD=FOO", "SORT=BAR", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-256",
        "METADATA-SERVER", "QRESYNC", "NAMESPACE", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "AUTH=SCRAM-SHA-1",
        "AUTH=SCRAM-SHA-1-PLUS", "AUTH=SCRAM-SHA-256-PLUS", "idle", "Literal+",
    ];
    Capability::from(Atom::try_from(C[i as usize % C.len()].to_string()).unwrap())
}
pub const N_CAPS: u32 = 42;

pub fn capabilities() -> Vec1<Capability<'static>> {
    let n = count(6, 60);
    Vec1::try_from((0..n).map(|_| capability(draw(N_CAPS))).collect::<Vec<_>>()).unwrap()
}

pub fn code(caps: bool) -> Option<Code<'static>> {
    let nz = || NonZeroU32::new([1, 9, 385759045, u32::MAX][draw(4) as usize]).unwrap();
    match weighted(&[6, 1, 1, 1, 1, 1, if caps { 6 } else { 1 }, 2]) {
        0 => None,
        1 => Some(Code::Alert),
        2 => Some(Code::ReadWrite),
        3 => Some(Code::TryCreate),
        4 => Some(Code::UidNext(NonZeroU32::new(range(1, 9)).unwrap())),
        5 => Some(Code::Parse),
        6 => Some(Code::Capability(capabilities())),
        _ => Some(match draw(16) {
            0 => Code::BadCharset { allowed: vec![] },
            1 => Code::BadCharset {
                allowed: vec![Charset::Atom(Atom::try_from("UTF-8").unwrap()), Charset::Quoted(Quoted::try_from("x \"y\" z".to_string()).unwrap())],
            },
            2 => Code::PermanentFlags({
                let mut v: Vec<_> = flags().into_iter().map(FlagPerm::Flag).collect();
                v.push(FlagPerm::Asterisk);
                v
            }),
            3 => Code::ReadOnly,
            4 => Code::UidValidity(nz()),
            5 => Code::Unseen(nz()),
            6 => Code::CompressionActive,
            7 => Code::OverQuota,
            8 => Code::TooBig,
            9 => Code::UnknownCte,
            10 => Code::Closed,
            11 => Code::HighestModSeq(NonZeroU64::new([1, 715194045007, u64::MAX][draw(3) as usize]).unwrap()),
            12 => Code::NoModSeq,
            13 => Code::UidNotSticky,
            14 => Code::Other(CodeOther::unvalidated(&b"COPYUID 38505 304,319:320 3956:3958"[..])),
            _ => Code::Other(CodeOther::unvalidated(&b"X-FOO (bar {3} \"q\" \x01"[..])),
        }),
    }
}

pub fn greeting(caps: bool) -> Greeting<'static> {
    let c = code(caps);
    let t = if c.is_some() { text() } else { plain_text() };
    match weighted(&[6, 2, 1]) {
        0 => Greeting::ok(c, t),
        1 => Greeting::preauth(c, t),
        _ => Greeting::bye(c, t),
    }
    .unwrap_or_else(|_| unreachable!())
}

pub fn status(tag: Option<Tag<'static>>, kind: u32, caps: bool) -> Status<'static> {
    let c = code(caps);
    let t = if c.is_some() { text() } else { plain_text() };
    match kind {
        0 => Status::ok(tag, c, t),
        1 => Status::no(tag, c, t),
        _ => Status::bad(tag, c, t),
    }
    .unwrap_or_else(|_| unreachable!())
}

pub fn bye(caps: bool) -> Status<'static> {
    let c = code(caps);
    let t = if c.is_some() { text() } else { plain_text() };
    Status::bye(c, t).unwrap_or_else(|_| unreachable!())
}

fn nstring(s: Sizes) -> NString<'static> {
    match weighted(&[4, 1, 1]) {
        0 => {
            // A server literal is never non-synchronising.
            NString::from(IString::from(Literal::unvalidated(bytes(len(s)))))
        }
        1 => NString::from(IString::from(quoted())),
        _ => NString(None),
    }
}

pub fn data(s: Sizes, caps: bool) -> Data<'static> {
    match weighted(&[2, 6, 3, 1, 1, 1, 1, 2, if caps { 6 } else { 1 }, 1]) {
        0 => Data::Exists(draw(100)),
        1 => {
            let n = count(3, 20);
            let mut items = vec![];
            for _ in 0..n {
                items.push(match draw(9) {
                    7 => MessageDataItem::Rfc822Text(nstring(s)),
                    8 => MessageDataItem::Flags(flags().into_iter().map(FlagFetch::Flag).collect()),
                    0 => MessageDataItem::BodyExt { section: Some(Atom::try_from("TEXT").unwrap()), origin: None, data: nstring(s) },
                    1 => MessageDataItem::BodyExt { section: None, origin: Some(draw(9)), data: nstring(s) },
                    2 => MessageDataItem::Rfc822(nstring(s)),
                    3 => MessageDataItem::Rfc822Header(nstring(s)),
                    4 => MessageDataItem::Uid(NonZeroU32::new(range(1, 99)).unwrap()),
                    5 => MessageDataItem::Flags(vec![FlagFetch::Flag(Flag::Seen), FlagFetch::Recent]),
                    _ => MessageDataItem::Rfc822Size(draw(1000)),
                });
            }
            Data::Fetch { seq: NonZeroU32::new(range(1, 50)).unwrap(), items: Vec1::try_from(items).unwrap() }
        }
        2 => {
            let items = (0..range(0, 2))
                .map(|_| match draw(5) {
                    0 => FlagNameAttribute::Noselect,
                    1 => FlagNameAttribute::Marked,
                    2 => FlagNameAttribute::Unmarked,
                    3 => FlagNameAttribute::Noinferiors,
                    _ => FlagNameAttribute::Extension(Atom::try_from("HasChildren").unwrap()),
                })
                .collect();
            let delimiter = ['/', '.', '\\', '"'].get(draw(6) as usize).map(|c| QuotedChar::try_from(*c).unwrap());
            let mailbox = if chance(1, 3) {
                Mailbox::from(AString::from(Literal::unvalidated(bytes(len(s)))))
            } else {
                mailbox(s, false)
            };
            if chance(1, 4) {
                Data::Lsub { items, delimiter, mailbox }
            } else {
                Data::List { items, delimiter, mailbox }
            }
        }
        3 => Data::Search((0..if chance(1, 20) { range(5, 400) } else { draw(4) }).map(|i| NonZeroU32::new(i * i + 1).unwrap()).collect()),
        4 => Data::Flags(flags()),
        5 => Data::Recent(draw(9)),
        6 => Data::Expunge(NonZeroU32::new(range(1, 9)).unwrap()),
        7 if chance(1, 2) => Data::Id { parameters: None },
        7 => Data::Id {
            parameters: Some((0..count(2, 12)).map(|_| (IString::from(quoted()), nstring(s))).collect()),
        },
        8 => Data::Capability(capabilities()),
        _ => Data::Enabled {
            capabilities: (0..draw(4))
                .map(|_| CapabilityEnable::from(Atom::try_from(["CONDSTORE", "QRESYNC", "UTF8=ACCEPT", "X-MINE"][draw(4) as usize]).unwrap()))
                .collect(),
        },
    }
}

pub fn continuation(caps: bool) -> CommandContinuationRequest<'static> {
    match weighted(&[4, 2, if caps { 3 } else { 1 }]) {
        0 => CommandContinuationRequest::basic(None, plain_text()).unwrap(),
        1 => CommandContinuationRequest::base64(bytes(sasl_len(12) - 1)),
        _ => {
            let c = code(true).unwrap_or(Code::Alert);
            CommandContinuationRequest::basic(Some(c), text()).unwrap()
        }
    }
}

pub fn authenticate_data() -> AuthenticateData<'static> {
    match weighted(&[5, 1, 1]) {
        0 => AuthenticateData::r#continue(sasl(16)),
        1 => AuthenticateData::r#continue(Vec::new()),
        _ => AuthenticateData::Cancel,
    }
}

pub fn enc_command(c: &Command<'static>) -> Vec<u8> {
    CommandCodec::default().encode(c).dump()
}
pub fn enc_fragments(c: &Command<'static>) -> Vec<Fragment> {
    CommandCodec::default().encode(c).collect()
}
pub fn enc_response(r: &Response<'static>) -> Vec<u8> {
    ResponseCodec::default().encode(r).dump()
}
pub fn enc_status(r: &Status<'static>) -> Vec<u8> {
    enc_response(&Response::Status(r.clone()))
}
pub fn enc_data(r: &Data<'static>) -> Vec<u8> {
    enc_response(&Response::Data(r.clone()))
}
pub fn enc_cont(r: &CommandContinuationRequest<'static>) -> Vec<u8> {
    enc_response(&Response::CommandContinuationRequest(r.clone()))
}
pub fn enc_greeting(g: &Greeting<'static>) -> Vec<u8> {
    GreetingCodec::default().encode(g).dump()
}
pub fn enc_auth(a: &AuthenticateData<'static>) -> Vec<u8> {
    AuthenticateDataCodec::default().encode(a).dump()
}

/// A broken message with the secret somewhere in it.
pub fn tell(m: &str, server_side: bool) -> Vec<u8> {
    if !server_side {
        return match draw(3) {
            0 => format!("{m}\r\n"),
            1 => format!("* 1 {m}\r\n"),
            _ => format!("* 7 FETCH (RFC822 {{{}}}\r\n{m} \x01\r\n", m.len()),
        }
        .into();
    }
    match draw(8) {
        0 => format!("{m}\r\n"),
        1 => format!("g5 {m}\r\n"),
        2 => format!("{m} \r\n"),
        3 => format!("g5 LOGIN user {m} \x01\r\n"),
        4 => format!("g5 LOGIN {{{0}+}}\r\n{m} {{{0}+}}\r\n{m} (\r\n", m.len()),
        5 => format!("g5 LOGIN \"{m}\" {{9999999999}}\r\n"),
        6 => format!("g5 AUTHENTICATE PLAIN {m}\r\n"),
        _ => format!("g5 LOGIN \"user\" \"{m}\r\n"),
    }
    .into()
}

/// Broken messages: unparsable lines, some after complete literals. Always end in a line end.
pub fn garbage(s: Sizes, server_side: bool) -> Vec<u8> {
    if let Some(m) = secrets::armed() {
        if chance(3, 4) {
            return tell(&m, server_side);
        }
    }
    let lead: &[u8] = if server_side { b"G9 LOGIN " } else { b"* 7 FETCH (RFC822 " };
    match weighted(&[3, 2, 2, 2, 1, 1]) {
        0 => b"%% what is this\r\n".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => {
            // a complete literal, then nonsense
            let d = bytes(len(Sizes { boundary: s.boundary.min(200), big: 16 }));
            let mut v = lead.to_vec();
            v.extend(format!("{{{}{}}}\r\n", d.len(), if server_side && chance(1, 2) { "+" } else { "" }).bytes());
            v.extend(d);
            v.extend(b"\x01 nonsense (\r\n");
            v
        }
        3 => {
            let mut v = lead.to_vec();
            v.extend(b"{9999999999999}\r\n");
            v
        }
        4 => {
            let n = draw(60) as usize;
            let mut v: Vec<u8> = bytes(n).into_iter().filter(|b| *b != b'\n' && *b != b'\r' && *b != b'}').collect();
            v.insert(0, b'(');
            v.extend(b"\r\n");
            v
        }
        _ => b"{3}\r\n".to_vec(),
    }
}

/// One message in very many pieces: dozens to thousands of small literals.
pub fn swarm(server_side: bool) -> Vec<u8> {
    let n = [40usize, 300, 1200, 3000, 4500][weighted(&[6, 4, 2, 1, 1])];
    let mut v: Vec<u8> = if server_side { b"S1 ID (".to_vec() } else { b"* 7 FETCH (".to_vec() };
    let lengths = [0u32, 1, 3, 9][draw(4) as usize];
    for i in 0..n {
        if i > 0 {
            v.push(b' ');
        }
        let d = lengths as usize;
        if server_side {
            v.extend(format!("\"k{i}\" {{{d}+}}\r\n").bytes());
        } else {
            v.extend(format!("RFC822 {{{d}}}\r\n").bytes());
        }
        v.extend(std::iter::repeat(b'y').take(d));
    }
    v.extend(if chance(1, 6) { &b" \x01"[..] } else { &b")"[..] });
    v.extend(b"\r\n");
    v
}

/// A message whose (one of the) line ends lost its CR.
pub fn strip_cr(mut m: Vec<u8>) -> Vec<u8> {
    let at: Vec<usize> = (1..m.len()).filter(|i| m[*i] == b'\n' && m[*i - 1] == b'\r').collect();
    if at.is_empty() {
        return m;
    }
    // mostly the final one
    let k = if chance(2, 3) { at.len() - 1 } else { draw(at.len() as u32) as usize };
    m.remove(at[k] - 1);
    m
}

/// Where to cut a byte stream next: style 0 whole, 1 random, 2 single bytes, 3 around line ends.
pub fn cut(style: u32, pending: &[u8]) -> usize {
    let n = pending.len();
    if n == 0 {
        return 0;
    }
    match style {
        0 => n,
        1 => range(1, n.min(40) as u32) as usize,
        2 => 1,
        3 => match pending.iter().position(|b| *b == b'\n' || *b == b'\r') {
            Some(p) => (p + draw(3) as usize).clamp(1, n),
            None => n,
        },
        _ => range(1, n as u32) as usize,
    }
}
