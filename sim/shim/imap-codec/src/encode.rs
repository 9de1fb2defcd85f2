use std::collections::VecDeque;

use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{AString, IString, Literal, LiteralMode, NString},
    extensions::idle::IdleDone,
    fetch::MessageDataItem,
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    response::{
        Capability, Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Response,
        Status, StatusBody, StatusKind,
    },
    utils::escape_quoted,
};

use crate::{parse::to_base64, AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

pub trait Encoder {
    type Message<'a>;
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Encoded {
    items: VecDeque<Fragment>,
}
impl Encoded {
    /// Dump the (remaining) encoded data without being guided by fragments.
    pub fn dump(self) -> Vec<u8> {
        let mut out = vec![];
        for f in self.items {
            match f {
                Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend(data),
            }
        }
        out
    }
}
impl Iterator for Encoded {
    type Item = Fragment;
    fn next(&mut self) -> Option<Fragment> {
        self.items.pop_front()
    }
}

/// The intended action of a client or server.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fragment {
    /// A line that is ready to be sent.
    Line { data: Vec<u8> },
    /// A literal that may require an action before it should be sent.
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct W {
    acc: Vec<u8>,
    items: VecDeque<Fragment>,
}
impl W {
    fn s(&mut self, s: &str) {
        self.acc.extend_from_slice(s.as_bytes());
    }
    fn literal(&mut self, l: &Literal) {
        match l.mode() {
            LiteralMode::Sync => self.s(&format!("{{{}}}\r\n", l.data().len())),
            LiteralMode::NonSync => self.s(&format!("{{{}+}}\r\n", l.data().len())),
        }
        let data = std::mem::take(&mut self.acc);
        self.items.push_back(Fragment::Line { data });
        self.items.push_back(Fragment::Literal { data: l.data().to_vec(), mode: l.mode() });
    }
    fn istring(&mut self, i: &IString) {
        match i {
            IString::Literal(l) => self.literal(l),
            IString::Quoted(q) => self.s(&format!("\"{}\"", escape_quoted(q.as_str()))),
        }
    }
    fn nstring(&mut self, i: &NString) {
        match &i.0 {
            Some(i) => self.istring(i),
            None => self.s("NIL"),
        }
    }
    fn astring(&mut self, a: &AString) {
        match a {
            AString::Atom(a) => self.s(a.as_str()),
            AString::String(i) => self.istring(i),
        }
    }
    fn mailbox(&mut self, m: &Mailbox) {
        match m {
            Mailbox::Inbox => self.s("INBOX"),
            Mailbox::Other(o) => self.astring(o.inner()),
        }
    }
    fn flags(&mut self, f: &[Flag]) {
        self.s(&format!("({})", f.iter().map(|f| f.to_wire()).collect::<Vec<_>>().join(" ")));
    }
    fn caps(&mut self, c: &[Capability]) {
        self.s("CAPABILITY");
        for c in c {
            self.s(&format!(" {c}"));
        }
    }
    fn id(&mut self, p: &Option<Vec<(IString, NString)>>) {
        match p {
            None => self.s("NIL"),
            Some(v) => {
                self.s("(");
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.s(" ");
                    }
                    self.istring(k);
                    self.s(" ");
                    self.nstring(x);
                }
                self.s(")");
            }
        }
    }
    fn code(&mut self, c: &Option<Code>) {
        let Some(c) = c else { return };
        self.s("[");
        match c {
            Code::Alert => self.s("ALERT"),
            Code::BadCharset { allowed } => {
                self.s("BADCHARSET");
                if !allowed.is_empty() {
                    self.s(&format!(" ({})", allowed.iter().map(|c| c.to_wire()).collect::<Vec<_>>().join(" ")));
                }
            }
            Code::Capability(c) => self.caps(c.as_ref()),
            Code::Parse => self.s("PARSE"),
            Code::PermanentFlags(f) => {
                let v: Vec<String> = f
                    .iter()
                    .map(|f| match f {
                        FlagPerm::Flag(f) => f.to_wire(),
                        FlagPerm::Asterisk => "\\*".into(),
                    })
                    .collect();
                self.s(&format!("PERMANENTFLAGS ({})", v.join(" ")));
            }
            Code::ReadOnly => self.s("READ-ONLY"),
            Code::ReadWrite => self.s("READ-WRITE"),
            Code::TryCreate => self.s("TRYCREATE"),
            Code::UidNext(n) => self.s(&format!("UIDNEXT {n}")),
            Code::UidValidity(n) => self.s(&format!("UIDVALIDITY {n}")),
            Code::Unseen(n) => self.s(&format!("UNSEEN {n}")),
            Code::CompressionActive => self.s("COMPRESSIONACTIVE"),
            Code::OverQuota => self.s("OVERQUOTA"),
            Code::TooBig => self.s("TOOBIG"),
            Code::UnknownCte => self.s("UNKNOWN-CTE"),
            Code::Closed => self.s("CLOSED"),
            Code::HighestModSeq(n) => self.s(&format!("HIGHESTMODSEQ {n}")),
            Code::NoModSeq => self.s("NOMODSEQ"),
            Code::UidNotSticky => self.s("UIDNOTSTICKY"),
            Code::Other(o) => self.acc.extend_from_slice(o.inner()),
            _ => {}
        }
        self.s("] ");
    }
    fn status_body(&mut self, b: &StatusBody) {
        self.s(match b.kind {
            StatusKind::Ok => "OK ",
            StatusKind::No => "NO ",
            StatusKind::Bad => "BAD ",
        });
        self.code(&b.code);
        self.s(b.text.as_str());
    }
    fn finish(mut self) -> Encoded {
        self.s("\r\n");
        let data = std::mem::take(&mut self.acc);
        self.items.push_back(Fragment::Line { data });
        Encoded { items: self.items }
    }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, m: &Greeting<'_>) -> Encoded {
        let mut w = W::default();
        w.s(match m.kind {
            GreetingKind::Ok => "* OK ",
            GreetingKind::PreAuth => "* PREAUTH ",
            GreetingKind::Bye => "* BYE ",
        });
        w.code(&m.code);
        w.s(m.text.as_str());
        w.finish()
    }
}

impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
        let mut w = W::default();
        match m {
            AuthenticateData::Continue(d) => w.s(&to_base64(d.declassify())),
            AuthenticateData::Cancel => w.s("*"),
        }
        w.finish()
    }
}

impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &IdleDone) -> Encoded {
        let mut w = W::default();
        w.s("DONE");
        w.finish()
    }
}

impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, m: &Command<'_>) -> Encoded {
        let mut w = W::default();
        w.s(m.tag.as_str());
        w.s(" ");
        let uid = |u: &bool| if *u { "UID " } else { "" };
        match &m.body {
            CommandBody::Authenticate { mechanism, initial_response } => {
                w.s(&format!("AUTHENTICATE {mechanism}"));
                if let Some(ir) = initial_response {
                    w.s(" ");
                    if ir.declassify().is_empty() {
                        w.s("=");
                    } else {
                        w.s(&to_base64(ir.declassify()));
                    }
                }
            }
            CommandBody::Login { username, password } => {
                w.s("LOGIN ");
                w.astring(username);
                w.s(" ");
                w.astring(password.declassify());
            }
            CommandBody::Select { mailbox }
            | CommandBody::Examine { mailbox }
            | CommandBody::Create { mailbox }
            | CommandBody::Delete { mailbox }
            | CommandBody::Subscribe { mailbox }
            | CommandBody::Unsubscribe { mailbox } => {
                w.s(m.body.name());
                w.s(" ");
                w.mailbox(mailbox);
            }
            CommandBody::Rename { from, to } => {
                w.s("RENAME ");
                w.mailbox(from);
                w.s(" ");
                w.mailbox(to);
            }
            CommandBody::List { reference, mailbox_wildcard } | CommandBody::Lsub { reference, mailbox_wildcard } => {
                w.s(m.body.name());
                w.s(" ");
                w.mailbox(reference);
                w.s(" ");
                w.astring(mailbox_wildcard);
            }
            CommandBody::Append { mailbox, flags, message } => {
                w.s("APPEND ");
                w.mailbox(mailbox);
                w.s(" ");
                if !flags.is_empty() {
                    w.flags(flags);
                    w.s(" ");
                }
                w.literal(message);
            }
            CommandBody::Search { arguments, uid: u } => w.s(&format!("{}SEARCH {arguments}", uid(u))),
            CommandBody::Fetch { sequence_set, item, uid: u } => w.s(&format!("{}FETCH {sequence_set} {item}", uid(u))),
            CommandBody::Store { sequence_set, kind, flags, uid: u } => {
                w.s(&format!("{}STORE {sequence_set} {kind} ", uid(u)));
                w.flags(flags);
            }
            CommandBody::Copy { sequence_set, mailbox, uid: u } => {
                w.s(&format!("{}COPY {sequence_set} ", uid(u)));
                w.mailbox(mailbox);
            }
            CommandBody::Move { sequence_set, mailbox, uid: u } => {
                w.s(&format!("{}MOVE {sequence_set} ", uid(u)));
                w.mailbox(mailbox);
            }
            CommandBody::Enable { capabilities } => {
                w.s("ENABLE");
                for c in capabilities {
                    w.s(&format!(" {}", c.to_wire()));
                }
            }
            CommandBody::Compress { .. } => w.s("COMPRESS DEFLATE"),
            CommandBody::Id { parameters } => {
                w.s("ID ");
                w.id(parameters);
            }
            b => w.s(b.name()),
        }
        w.finish()
    }
}

impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, m: &Response<'_>) -> Encoded {
        let mut w = W::default();
        match m {
            Response::CommandContinuationRequest(c) => {
                w.s("+ ");
                match c {
                    CommandContinuationRequest::Basic(b) => {
                        w.code(&b.code().cloned());
                        w.s(b.text().as_str());
                    }
                    CommandContinuationRequest::Base64(d) => w.s(&to_base64(d)),
                }
            }
            Response::Status(s) => match s {
                Status::Untagged(b) => {
                    w.s("* ");
                    w.status_body(b);
                }
                Status::Tagged(t) => {
                    w.s(t.tag.as_str());
                    w.s(" ");
                    w.status_body(&t.body);
                }
                Status::Bye(b) => {
                    w.s("* BYE ");
                    w.code(&b.code);
                    w.s(b.text.as_str());
                }
            },
            Response::Data(d) => {
                w.s("* ");
                data(&mut w, d);
            }
        }
        w.finish()
    }
}

fn data(w: &mut W, d: &Data) {
    match d {
        Data::Capability(c) => w.caps(c.as_ref()),
        Data::List { items, delimiter, mailbox } | Data::Lsub { items, delimiter, mailbox } => {
            w.s(if matches!(d, Data::List { .. }) { "LIST (" } else { "LSUB (" });
            let v: Vec<String> = items
                .iter()
                .map(|i| match i {
                    FlagNameAttribute::Noinferiors => "\\Noinferiors".into(),
                    FlagNameAttribute::Noselect => "\\Noselect".into(),
                    FlagNameAttribute::Marked => "\\Marked".into(),
                    FlagNameAttribute::Unmarked => "\\Unmarked".into(),
                    FlagNameAttribute::Extension(a) => format!("\\{a}"),
                })
                .collect();
            w.s(&v.join(" "));
            w.s(") ");
            match delimiter {
                Some(c) => w.s(&format!("\"{}\"", escape_quoted(&c.inner().to_string()))),
                None => w.s("NIL"),
            }
            w.s(" ");
            w.mailbox(mailbox);
        }
        Data::Search(v) => {
            w.s("SEARCH");
            for n in v {
                w.s(&format!(" {n}"));
            }
        }
        Data::Flags(f) => {
            w.s("FLAGS ");
            w.flags(f);
        }
        Data::Exists(n) => w.s(&format!("{n} EXISTS")),
        Data::Recent(n) => w.s(&format!("{n} RECENT")),
        Data::Expunge(n) => w.s(&format!("{n} EXPUNGE")),
        Data::Fetch { seq, items } => {
            w.s(&format!("{seq} FETCH ("));
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    w.s(" ");
                }
                match item {
                    MessageDataItem::Uid(n) => w.s(&format!("UID {n}")),
                    MessageDataItem::Flags(f) => {
                        let v: Vec<String> = f
                            .iter()
                            .map(|f| match f {
                                FlagFetch::Flag(f) => f.to_wire(),
                                FlagFetch::Recent => "\\Recent".into(),
                            })
                            .collect();
                        w.s(&format!("FLAGS ({})", v.join(" ")));
                    }
                    MessageDataItem::Rfc822(n) => {
                        w.s("RFC822 ");
                        w.nstring(n);
                    }
                    MessageDataItem::Rfc822Header(n) => {
                        w.s("RFC822.HEADER ");
                        w.nstring(n);
                    }
                    MessageDataItem::Rfc822Text(n) => {
                        w.s("RFC822.TEXT ");
                        w.nstring(n);
                    }
                    MessageDataItem::Rfc822Size(n) => w.s(&format!("RFC822.SIZE {n}")),
                    MessageDataItem::BodyExt { section, origin, data } => {
                        w.s("BODY[");
                        if let Some(a) = section {
                            w.s(a.as_str());
                        }
                        w.s("]");
                        if let Some(o) = origin {
                            w.s(&format!("<{o}>"));
                        }
                        w.s(" ");
                        w.nstring(data);
                    }
                }
            }
            w.s(")");
        }
        Data::Enabled { capabilities } => {
            w.s("ENABLED");
            for c in capabilities {
                w.s(&format!(" {}", c.to_wire()));
            }
        }
        Data::Id { parameters } => {
            w.s("ID ");
            w.id(parameters);
        }
        _ => unreachable!(),
    }
}
