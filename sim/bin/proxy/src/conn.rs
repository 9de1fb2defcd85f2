//! Scripted mail clients and mail servers on both sides of the proxy, and what they must see.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use std::task::Poll;

use imap_codec::encode::Fragment;
use imap_types::command::{Command, CommandBody};
use imap_types::core::{LiteralMode, Tag, Text, Vec1};
use imap_types::response::{
    Bye, Capability, Code, CommandContinuationRequest, CommandContinuationRequestBasic, Data, Greeting, Response,
    Status, StatusBody, StatusKind, Tagged,
};
use simcore::exec;
use simcore::net::{self, Profile, Socket};
use simcore::{chance, draw, fault, log, observe, probe, range, secrets, violate, weighted, with};
use simgen::frame::{dec_auth, dec_command, dec_done, dec_greeting, dec_response, frame, Frame};
use simgen::*;
use simpeer::{Peer, Seen, Version};

pub fn esc(b: &[u8]) -> String {
    let s = imap_types::utils::escape_byte_string(b);
    if s.len() > 200 {
        format!("{}...({} bytes)", &s[..s.char_indices().map(|(i, _)| i).take_while(|i| *i <= 160).last().unwrap_or(0)], b.len())
    } else {
        s
    }
}

// ---- what the proxy may advertise (from its documentation) ---------------------------------------

const SUPPORTED: &[&str] = &[
    "IMAP4REV1", "AUTH=PLAIN", "AUTH=LOGIN", "AUTH=XOAUTH2", "AUTH=SCRAM-SHA-1", "AUTH=SCRAM-SHA-256", "SASL-IR",
    "QUOTA", "QUOTASET", "MOVE", "LITERAL+", "LITERAL-", "UNSELECT", "ID", "IDLE",
];

fn supported(c: &Capability) -> bool {
    let s = c.to_string().to_ascii_uppercase();
    SUPPORTED.contains(&s.as_str()) || s.starts_with("QUOTA=RES-")
}

fn filter(c: &Vec1<Capability<'static>>) -> Vec1<Capability<'static>> {
    let v: Vec<_> = c.as_ref().iter().filter(|c| supported(c)).cloned().collect();
    if v.len() < c.as_ref().len() {
        probe("proxy.capability-removed");
    }
    Vec1::try_from(v).unwrap_or_else(|_| {
        probe("proxy.capabilities-all-removed");
        Vec1::from(Capability::Imap4Rev1)
    })
}

fn filter_code(c: &mut Option<Code<'static>>) {
    if let Some(Code::Capability(l)) = c {
        *l = filter(l);
    }
}

pub fn filter_greeting(mut g: Greeting<'static>) -> Greeting<'static> {
    filter_code(&mut g.code);
    g
}

pub fn filter_response(mut r: Response<'static>) -> Response<'static> {
    match &mut r {
        Response::Data(Data::Capability(l)) => *l = filter(l),
        Response::Data(_) => {}
        Response::Status(Status::Tagged(Tagged { body: StatusBody { code, .. }, .. }))
        | Response::Status(Status::Untagged(StatusBody { code, .. }))
        | Response::Status(Status::Bye(Bye { code, .. })) => filter_code(code),
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
            let mut code = b.code().cloned();
            filter_code(&mut code);
            *b = CommandContinuationRequestBasic::new(code, b.text().clone()).unwrap();
        }
        Response::CommandContinuationRequest(_) => {}
    }
    r
}

/// Something the proxy must not say to a client.
fn forbidden_in(code: Option<&Code>) -> bool {
    matches!(code, Some(Code::Capability(l)) if l.as_ref().iter().any(|c| !supported(c)))
}
fn forbidden(r: &Response) -> bool {
    match r {
        Response::Data(Data::Capability(l)) => l.as_ref().iter().any(|c| !supported(c)),
        Response::Data(_) => false,
        Response::Status(s) => forbidden_in(s.code()),
        Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => forbidden_in(b.code()),
        Response::CommandContinuationRequest(_) => false,
    }
}

// ---- records ----------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Said {
    Command(String, Vec<u8>),
    /// The server refused this command at a literal.
    Refused(String),
    AuthData(Vec<u8>),
    Done,
}

impl Said {
    fn show(&self) -> String {
        match self {
            Said::Command(_, b) | Said::AuthData(b) => format!("\"{}\"", esc(b)),
            Said::Refused(t) => format!("command {t} (refused by the server)"),
            Said::Done => "DONE".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Sent {
    /// To be forwarded like this; true: mentions capabilities.
    Forward(Vec<u8>, bool),
    GoAhead,
    Refusal { tag: String, alert: Option<String> },
}

#[derive(Default)]
pub struct ServerLog {
    pub seen: Vec<Said>,
    pub sent: Vec<Sent>,
    /// Everything queued was written before the server closed.
    pub closed: bool,
    /// It half-closed, reads no more and never closes for good.
    pub stays: bool,
    pub end: Option<Seen>,
    pub handshake_failed: bool,
    /// The server speaks ALPN: what was negotiated.
    pub alpn: Option<Option<Vec<u8>>>,
    pub sni: Option<String>,
    /// Where it listens.
    pub addr: Option<SocketAddr>,
}

impl ServerLog {
    /// Its connection broke (rather than being closed).
    pub fn failed(&self) -> bool {
        matches!(self.end, Some(Seen::Io(_)) | Some(Seen::Tls(_)))
    }
}

#[derive(Clone, Debug)]
pub enum Got {
    Greeting(Vec<u8>, bool),
    Response(Vec<u8>, Response<'static>),
}

#[derive(Default)]
pub struct ClientLog {
    pub said: Vec<Said>,
    pub got: Vec<Got>,
    /// Sync literals announced to the proxy.
    pub announced: usize,
    /// Tags of commands whose literal the proxy itself has to refuse.
    pub too_long: HashSet<String>,
    /// Which server the greeting came from.
    pub server: Option<usize>,
    pub end: Option<Seen>,
    pub finished: bool,
    pub handshake_failed: bool,
    pub leftover: usize,
    /// The client speaks ALPN: what was negotiated.
    pub alpn: Option<Option<Vec<u8>>>,
    pub certs: Vec<Vec<u8>>,
    pub broken: bool,
    /// When its connection was there, and when the greeting.
    pub dialled: Option<u64>,
    pub greeted: Option<u64>,
}

impl ClientLog {
    /// Its connection broke (rather than being closed).
    pub fn failed(&self) -> bool {
        matches!(self.end, Some(Seen::Io(_)) | Some(Seen::Tls(_)))
    }
}

#[derive(Default)]
pub struct Shared {
    /// Connections taken by any server.
    pub accepted: usize,
    pub servers: Vec<Rc<RefCell<ServerLog>>>,
    /// IDLE commands (by tag) the server is going to refuse.
    pub refuse_idle: HashSet<String>,
    /// Clients that stay connected until all the others are served.
    pub holding: usize,
    pub expected: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Finish {
    /// The client logs out and closes after the server's answer.
    Logout,
    /// The server closes at some point; true: with more from the client on its way.
    ServerCloses,
    /// The client closes right after its last command.
    ClientCloses,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub mix: Mix,
    pub sizes: Sizes,
    pub commands: u32,
    /// n/8: the client waits for the tagged answer before going on.
    pub wait: u32,
    pub caps: bool,
    pub chatty: u32,
    /// Malformed lines from both sides.
    pub anomalies: bool,
    /// n/8 of the announced literals are refused by the server.
    pub refuse: u32,
    /// n/8 of the commands announce a literal beyond the proxy's limit.
    pub too_long: u32,
    /// Continuation requests out of the blue (only without literals, AUTHENTICATE, IDLE).
    pub unsolicited: bool,
    pub finish: Finish,
    /// Stay until everybody else is served, too.
    pub hold: bool,
}

pub const OPTS: Opts = Opts {
    mix: MIX,
    sizes: Sizes { boundary: 40, big: 600 },
    commands: 8,
    wait: 4,
    caps: false,
    chatty: 3,
    anomalies: false,
    refuse: 0,
    too_long: 0,
    unsolicited: false,
    finish: Finish::Logout,
    hold: false,
};

/// How a party reaches the proxy, or is reached by it.
#[derive(Clone, Debug)]
pub struct Endpoint {
    pub addr: SocketAddr,
    pub tls: bool,
    pub version: Version,
    pub alpn: crate::world::Alpn,
}

pub async fn progress_or_sleep(peer: &mut Peer, ns: u64) {
    let mut sleep = std::pin::pin!(exec::sleep_ns(ns));
    std::future::poll_fn(|cx| {
        if peer.poll_progress(cx).is_ready() || sleep.as_mut().poll(cx).is_ready() {
            return Poll::Ready(());
        }
        Poll::Pending
    })
    .await
}

/// Connect as soon as the proxy listens.
pub async fn dial(addr: SocketAddr, profile: Profile) -> Option<Socket> {
    for _ in 0..50 {
        with(|w| w.net.profiles.insert(addr, (profile, profile)));
        let listening = with(|w| w.net.binds.contains(&addr));
        if listening {
            if let Ok(s) = net::connect(addr) {
                return Some(s);
            }
        }
        exec::sleep_ns(1_000_000).await;
    }
    None
}

// ---- the mail client ----------------------------------------------------------------------------

pub struct Client {
    pub peer: Peer,
    at: usize,
    greeted: bool,
    cursor: usize,
    pub log: Rc<RefCell<ClientLog>>,
}

impl Client {
    pub fn new(peer: Peer, log: Rc<RefCell<ClientLog>>) -> Self {
        Client { peer, at: 0, greeted: false, cursor: 0, log }
    }

    /// Take in whatever arrived. The proxy never sends anything malformed.
    fn parse(&mut self) {
        loop {
            let buf = &self.peer.got[self.at..];
            if !self.greeted {
                match frame(buf, false, None, 0, dec_greeting) {
                    Frame::Msg(g, n) => {
                        log(|| format!("    client got greeting \"{}\"", esc(&buf[..n])));
                        self.greeted = true;
                        self.at += n;
                        let mut l = self.log.borrow_mut();
                        l.server = g.text.as_str().rsplit("srv-").next().and_then(|s| s.trim_end_matches('.').parse().ok());
                        let bad = forbidden_in(g.code.as_ref());
                        l.got.push(Got::Greeting(enc_greeting(&g), bad));
                        continue;
                    }
                    Frame::Need => {}
                    _ => self.log.borrow_mut().broken = true,
                }
            } else {
                match frame(buf, false, None, usize::MAX, dec_response) {
                    Frame::Msg(r, n) => {
                        log(|| format!("    client got \"{}\"", esc(&buf[..n])));
                        observe(&buf[..n.min(60)]);
                        self.at += n;
                        self.log.borrow_mut().got.push(Got::Response(buf_enc(&r), r));
                        continue;
                    }
                    Frame::Need => {}
                    _ => self.log.borrow_mut().broken = true,
                }
            }
            self.log.borrow_mut().leftover = self.peer.got.len() - self.at;
            return;
        }
    }

    /// Wait for a response that satisfies `f`, from the given position on. False: connection over.
    async fn wait(&mut self, from: usize, mut f: impl FnMut(&Response<'static>) -> bool) -> bool {
        let mut at = from;
        loop {
            self.parse();
            {
                let l = self.log.borrow();
                while at < l.got.len() {
                    if let Got::Response(_, r) = &l.got[at] {
                        if f(r) {
                            self.cursor = at + 1;
                            return true;
                        }
                    }
                    at += 1;
                }
                if l.broken {
                    return false;
                }
            }
            if self.peer.seen.is_some() || !self.peer.is_open() {
                return false;
            }
            self.peer.progress().await;
        }
    }

    pub async fn greeting(&mut self) -> bool {
        loop {
            self.parse();
            if self.greeted {
                return true;
            }
            if self.peer.seen.is_some() || !self.peer.is_open() || self.log.borrow().broken {
                return false;
            }
            self.peer.progress().await;
        }
    }

    fn mark(&self) -> usize {
        self.log.borrow().got.len()
    }

    /// Queue bytes, in one or several writes.
    async fn say(&mut self, mut b: &[u8]) {
        log(|| format!("    client says \"{}\"", esc(b)));
        while b.len() > 1 && chance(1, 6) {
            let n = range(1, b.len() as u32) as usize;
            self.peer.queue(&b[..n]);
            b = &b[n..];
            match draw(3) {
                0 => {}
                1 => {
                    self.peer.drain().await;
                }
                _ => {
                    let ns = [1_000_000, 400_000_000][draw(2) as usize];
                    progress_or_sleep(&mut self.peer, ns).await
                }
            }
        }
        if !b.is_empty() {
            self.peer.queue(b);
        }
    }

    async fn answered(&mut self, from: usize, tag: &str) -> bool {
        let t = tag.to_string();
        self.wait(from, move |r| is_answer(r, &t)).await
    }

    /// One command, from its first line to its last literal. False: the connection is over.
    async fn command(&mut self, c: &Command<'static>) -> bool {
        for f in enc_fragments(c) {
            match f {
                Fragment::Line { data } => self.say(&data).await,
                Fragment::Literal { data, mode: LiteralMode::NonSync } => self.say(&data).await,
                Fragment::Literal { data, mode: LiteralMode::Sync } => {
                    let at = self.mark();
                    self.log.borrow_mut().announced += 1;
                    if !self.wait(at, is_go_ahead).await {
                        return false;
                    }
                    self.say(&data).await;
                }
            }
        }
        let tag = tag_str(&c.tag);
        self.log.borrow_mut().said.push(Said::Command(tag, enc_command(c)));
        true
    }
}

fn buf_enc(r: &Response<'static>) -> Vec<u8> {
    enc_response(r)
}

fn is_answer(r: &Response, tag: &str) -> bool {
    matches!(r, Response::Status(Status::Tagged(t)) if AsRef::<str>::as_ref(&t.tag) == tag)
}

fn is_go_ahead(r: &Response) -> bool {
    matches!(r, Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b))
        if b.code().is_none() && b.text().as_str().starts_with("proxy:"))
}

fn is_continuation(r: &Response) -> bool {
    matches!(r, Response::CommandContinuationRequest(_)) && !is_go_ahead(r)
}

fn client_garbage() -> Vec<u8> {
    if let Some(m) = secrets::armed() {
        return simgen::tell(&m, true);
    }
    match draw(6) {
        0 => b"%% what is this\r\n".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => b"g1 NOOP\n".to_vec(),
        3 => b"g2 LOGIN {3+}\r\n\r\n\x01 nonsense (\r\n".to_vec(),
        4 => b"g3\r\n".to_vec(),
        _ => b"g4 LOGIN {99999999999}\r\n".to_vec(),
    }
}

fn server_garbage() -> Vec<u8> {
    if let Some(m) = secrets::armed() {
        return simgen::tell(&m, false);
    }
    match draw(5) {
        0 => b"%% what is this\r\n".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => b"* 3 EXISTS\n".to_vec(),
        3 => b"* 7 FETCH (RFC822 {4}\r\n\r\n\r\n\x01 nonsense (\r\n".to_vec(),
        _ => b"* 1 FETCH (RFC822 {99999999999}\r\n".to_vec(),
    }
}

/// A whole client session. `id` makes its tags unique.
pub async fn client_session(
    id: usize,
    ep: Endpoint,
    profile: Profile,
    opts: Opts,
    shared: Rc<RefCell<Shared>>,
    clog: Rc<RefCell<ClientLog>>,
) {
    let Some(sock) = dial(ep.addr, profile).await else {
        log(|| "    client: nobody listens".into());
        return;
    };
    clog.borrow_mut().dialled = Some(with(|w| w.now));
    let alpn = ep.alpn;
    let peer = if ep.tls { Peer::tls_client_alpn(sock, ep.version, "localhost", alpn) } else { Peer::plain(sock) };
    let mut c = Client::new(peer, clog.clone());
    if ep.tls && !c.peer.handshake().await {
        let mut l = clog.borrow_mut();
        l.handshake_failed = true;
        l.end = c.peer.seen.clone();
        return;
    }
    if let Some(t) = c.peer.connection() {
        clog.borrow_mut().alpn = (!alpn.is_empty()).then(|| t.alpn_protocol().map(|p| p.to_vec()));
        clog.borrow_mut().certs = t.peer_certificates().unwrap_or_default().iter().map(|c| c.to_vec()).collect();
    }
    let ok = client_script(id, &mut c, opts, &shared).await;
    if ok {
        clog.borrow_mut().finished = true;
    }
    match opts.finish {
        Finish::Logout if ok => {
            if chance(1, 2) {
                c.peer.queue_close_notify();
            }
            c.peer.drain().await;
            if chance(1, 2) {
                c.peer.fin();
                c.peer.until_end().await;
            }
            c.peer.close();
        }
        Finish::ClientCloses if ok => {
            if chance(2, 3) {
                c.peer.queue_close_notify();
            }
            c.peer.drain().await;
            c.peer.fin();
            c.peer.until_end().await;
        }
        _ => {
            c.peer.until_end().await;
        }
    }
    c.parse();
    clog.borrow_mut().end = c.peer.seen.clone();
}

async fn client_script(id: usize, c: &mut Client, opts: Opts, shared: &Rc<RefCell<Shared>>) -> bool {
    if !c.greeting().await {
        return false;
    }
    c.log.borrow_mut().greeted = Some(with(|w| w.now));
    for n in 0..opts.commands {
        if opts.anomalies && chance(1, 4) {
            fault("client.malformed");
            let g = client_garbage();
            c.say(&g).await;
        }
        if chance(1, 12) {
            let ns = [1_000_000, 300_000_000, 40_000_000_000][draw(3) as usize];
            exec::sleep_ns(ns).await;
        }
        let tag = decorated(format!("{}{id}n{n}", ["c", "C", "."][weighted(&[6, 1, 1])]));
        let t = tag_str(&tag);
        if opts.too_long > 0 && chance(opts.too_long, 8) {
            fault("client.literal-too-long");
            c.log.borrow_mut().too_long.insert(t.clone());
            let at = c.mark();
            let len = [26_214_401u32, 30_000_000, u32::MAX][draw(3) as usize];
            c.say(format!("{t} APPEND x {{{len}}}\r\n").as_bytes()).await;
            if !c.answered(at, &t).await {
                return false;
            }
            continue;
        }
        let cmd = Command { tag, body: body(opts.mix, opts.sizes) };
        let wait = chance(opts.wait, 8);
        let at = c.mark();
        match &cmd.body {
            CommandBody::Idle => {
                let refuse = chance(1, 4);
                if refuse {
                    shared.borrow_mut().refuse_idle.insert(t.clone());
                }
                if !c.command(&cmd).await {
                    return false;
                }
                let early = !refuse && chance(1, 4);
                if early {
                    probe("proxy.early-done");
                } else {
                    let tt = t.clone();
                    if !c.wait(at, move |r| is_continuation(r) || is_answer(r, &tt)).await {
                        return false;
                    }
                    let last = c.log.borrow().got[c.cursor - 1].clone();
                    if matches!(last, Got::Response(_, r) if is_answer(&r, &t)) {
                        probe("proxy.idle-rejected");
                        continue;
                    }
                    if chance(1, 2) {
                        progress_or_sleep(&mut c.peer, [1_000_000, 30_000_000_000][draw(2) as usize]).await;
                    }
                }
                c.say(b"DONE\r\n").await;
                c.log.borrow_mut().said.push(Said::Done);
                probe("proxy.idle");
                // The go-ahead of this IDLE must not be taken for that of a later AUTHENTICATE.
                if (wait || early) && !c.answered(at, &t).await {
                    return false;
                }
            }
            CommandBody::Authenticate { .. } => {
                if !c.command(&cmd).await {
                    return false;
                }
                let mut from = at;
                loop {
                    let tt = t.clone();
                    if !c.wait(from, move |r| is_continuation(r) || is_answer(r, &tt)).await {
                        return false;
                    }
                    from = c.cursor;
                    let last = c.log.borrow().got[c.cursor - 1].clone();
                    if matches!(last, Got::Response(_, r) if is_answer(&r, &t)) {
                        break;
                    }
                    let d = enc_auth(&authenticate_data());
                    c.say(&d).await;
                    c.log.borrow_mut().said.push(Said::AuthData(d));
                    probe("proxy.auth-data");
                }
                probe("proxy.authenticate");
            }
            _ => {
                if !c.command(&cmd).await {
                    return false;
                }
                if wait && !c.answered(at, &t).await {
                    return false;
                }
            }
        }
    }
    if opts.hold {
        shared.borrow_mut().holding += 1;
        let until = with(|w| w.now) + 50_000_000_000_000;
        loop {
            let (h, e) = (shared.borrow().holding, shared.borrow().expected);
            if h >= e || with(|w| w.now) > until || c.peer.seen.is_some() {
                break;
            }
            exec::sleep_ns(20_000_000_000).await;
        }
    }
    match opts.finish {
        Finish::Logout => {
            let cmd = Command { tag: Tag::try_from(format!("bye{id}")).unwrap(), body: CommandBody::Logout };
            let at = c.mark();
            c.command(&cmd).await && c.answered(at, &format!("bye{id}")).await
        }
        Finish::ServerCloses => {
            // Keep reading until the end.
            c.wait(usize::MAX, |_| false).await;
            true
        }
        Finish::ClientCloses => true,
    }
}

// ---- the mail server ----------------------------------------------------------------------------

enum Mode {
    Command,
    Auth(Tag<'static>, u32),
    Idle(Tag<'static>),
}

pub struct Server {
    pub peer: Peer,
    id: usize,
    at: usize,
    accepted: usize,
    mode: Mode,
    opts: Opts,
    answers: Vec<(Tag<'static>, u32)>,
    tokens: u32,
    seen: u32,
    goodbye: bool,
    pub log: Rc<RefCell<ServerLog>>,
    shared: Rc<RefCell<Shared>>,
    /// The peer names application protocols.
    alpn: bool,
    /// Bytes that arrived which are no legal protocol.
    pub complaint: Option<String>,
}

impl Server {
    pub fn new(peer: Peer, opts: Opts, shared: Rc<RefCell<Shared>>) -> Self {
        let log = Rc::new(RefCell::new(ServerLog::default()));
        shared.borrow_mut().accepted += 1;
        let id = shared.borrow().servers.len();
        shared.borrow_mut().servers.push(log.clone());
        Server {
            peer,
            id,
            at: 0,
            accepted: 0,
            mode: Mode::Command,
            opts,
            answers: vec![],
            tokens: 0,
            seen: 0,
            goodbye: false,
            log,
            shared,
            alpn: false,
            complaint: None,
        }
    }

    fn send(&mut self, r: Response<'static>) {
        let b = enc_response(&r);
        log(|| format!("        server says \"{}\"", esc(&b)));
        let f = filter_response(r.clone());
        let caps = f != r || forbidden(&r);
        self.log.borrow_mut().sent.push(Sent::Forward(enc_response(&f), caps));
        self.peer.queue(&b);
    }

    fn greet(&mut self) {
        let mut g = greeting(self.opts.caps);
        g.text = Text::try_from(format!("hello from srv-{}", self.id)).unwrap();
        let b = enc_greeting(&g);
        log(|| format!("        server says \"{}\"", esc(&b)));
        let f = filter_greeting(g.clone());
        self.log.borrow_mut().sent.push(Sent::Forward(enc_greeting(&f), f != g));
        self.peer.queue(&b);
    }

    fn chatter(&mut self) {
        let n = if self.opts.chatty == 0 { 0 } else { draw(self.opts.chatty + 1) };
        for _ in 0..n {
            if self.opts.anomalies && chance(1, 6) {
                fault("server.malformed");
                let g = server_garbage();
                log(|| format!("        server says \"{}\"", esc(&g)));
                self.peer.queue(&g);
            }
            let caps = self.opts.caps;
            let r = match weighted(&[6, 2, 1, 2, if self.opts.unsolicited { 3 } else { 0 }]) {
                0 => Response::Data(data(self.opts.sizes, caps)),
                1 => Response::Status(status(None, draw(3), caps)),
                2 => Response::Status(status(Some(Tag::try_from("zz9").unwrap()), draw(3), caps)),
                3 => {
                    self.tokens += 1;
                    let t = Text::try_from(format!("token srv-{} no {}", self.id, self.tokens)).unwrap();
                    Response::Status(Status::ok(None, None, t).unwrap_or_else(|_| unreachable!()))
                }
                _ => Response::CommandContinuationRequest(continuation(caps)),
            };
            self.send(r);
        }
    }

    fn answer(&mut self) {
        if self.answers.is_empty() {
            return;
        }
        let k = draw(self.answers.len() as u32) as usize;
        let (tag, kind) = self.answers.remove(k);
        if chance(1, 3) {
            self.chatter();
        }
        let caps = self.opts.caps;
        self.send(Response::Status(status(Some(tag), kind, caps)));
    }

    fn go_ahead(&mut self) {
        let c = continuation(self.opts.caps);
        let b = enc_cont(&c);
        log(|| format!("        server says \"{}\" (go-ahead)", esc(&b)));
        self.log.borrow_mut().sent.push(Sent::GoAhead);
        self.peer.queue(&b);
    }

    fn refuse(&mut self, tag: Tag<'static>) {
        let t = tag_str(&tag);
        let caps = self.opts.caps;
        let s = if chance(1, 3) {
            Status::bad(Some(tag), Some(Code::Alert), text()).unwrap_or_else(|_| unreachable!())
        } else {
            status(Some(tag), 2, caps)
        };
        let alert = matches!(s.code(), Some(Code::Alert)).then(|| s.text().as_str().to_string());
        probe(if alert.is_some() { "proxy.refused-with-alert" } else { "proxy.refused" });
        fault("server.literal-refused");
        let b = enc_status(&s);
        log(|| format!("        server says \"{}\" (refuses the literal)", esc(&b)));
        {
            let mut l = self.log.borrow_mut();
            l.seen.push(Said::Refused(t.clone()));
            l.sent.push(Sent::Refusal { tag: t, alert });
        }
        self.peer.queue(&b);
    }

    /// Handle one complete piece of input; false: need more.
    fn step(&mut self) -> bool {
        let buf = self.peer.got[self.at..].to_vec();
        match &mut self.mode {
            Mode::Command => match frame(&buf, false, None, self.accepted, dec_command) {
                Frame::Msg(c, n) => {
                    log(|| format!("        server got \"{}\"", esc(&buf[..n])));
                    observe(&buf[..n.min(60)]);
                    self.at += n;
                    self.accepted = 0;
                    self.seen += 1;
                    self.log.borrow_mut().seen.push(Said::Command(tag_str(&c.tag), enc_command(&c)));
                    self.command(c);
                }
                Frame::Announce { tag, mode, seen, .. } => {
                    if mode == LiteralMode::NonSync {
                        self.accepted += 1;
                        return true;
                    }
                    log(|| format!("        server got \"{}\" (literal announced)", esc(&buf[..seen])));
                    if chance(1, 4) {
                        self.chatter();
                    }
                    let tag = tag.expect("commands have tags");
                    if chance(self.opts.refuse, 8) {
                        self.refuse(tag);
                        self.at += seen;
                        self.accepted = 0;
                    } else {
                        if chance(1, 10) {
                            // Not a rejection.
                            let s = status(Some(tag), 1, self.opts.caps);
                            self.send(Response::Status(s));
                        }
                        self.go_ahead();
                        self.accepted += 1;
                        probe("proxy.literal-forwarded");
                    }
                }
                Frame::Need => return false,
                f => {
                    let n = match f {
                        Frame::Malformed(n) | Frame::BareLf(n) => n,
                        _ => 0,
                    };
                    self.complaint.get_or_insert(format!("\"{}\"", esc(&buf[..n])));
                    return false;
                }
            },
            Mode::Auth(tag, rounds) => match frame(&buf, false, None, 0, dec_auth) {
                Frame::Msg(d, n) => {
                    log(|| format!("        server got \"{}\"", esc(&buf[..n])));
                    self.at += n;
                    self.log.borrow_mut().seen.push(Said::AuthData(enc_auth(&d)));
                    let (tag, rounds) = (tag.clone(), *rounds);
                    if chance(1, 4) {
                        self.chatter();
                    }
                    self.auth_turn(tag, rounds - 1);
                }
                Frame::Need => return false,
                _ => {
                    self.complaint.get_or_insert(format!("\"{}\" as authentication data", esc(&buf)));
                    return false;
                }
            },
            Mode::Idle(tag) => match frame(&buf, false, None, 0, dec_done) {
                Frame::Msg((), n) => {
                    self.at += n;
                    log(|| "        server got DONE".to_string());
                    self.log.borrow_mut().seen.push(Said::Done);
                    let tag = tag.clone();
                    self.mode = Mode::Command;
                    if chance(1, 4) {
                        self.chatter();
                    }
                    let s = status(Some(tag), weighted(&[6, 1, 1]) as u32, self.opts.caps);
                    self.send(Response::Status(s));
                }
                Frame::Need => return false,
                _ => {
                    self.complaint.get_or_insert(format!("\"{}\" instead of DONE", esc(&buf)));
                    return false;
                }
            },
        }
        true
    }

    fn auth_turn(&mut self, tag: Tag<'static>, rounds: u32) {
        if rounds == 0 {
            self.mode = Mode::Command;
            let s = status(Some(tag), weighted(&[3, 2, 1]) as u32, self.opts.caps);
            self.send(Response::Status(s));
        } else {
            let c = continuation(self.opts.caps);
            self.send(Response::CommandContinuationRequest(c));
            self.mode = Mode::Auth(tag, rounds);
            if chance(1, 4) {
                // Untagged responses while waiting for the client.
                self.chatter_without_continuations();
            }
        }
    }

    fn chatter_without_continuations(&mut self) {
        let u = std::mem::replace(&mut self.opts.unsolicited, false);
        self.chatter();
        self.opts.unsolicited = u;
    }

    fn command(&mut self, c: Command<'static>) {
        let t = tag_str(&c.tag);
        match &c.body {
            CommandBody::Authenticate { .. } => {
                if chance(1, 4) {
                    self.chatter_without_continuations();
                }
                let rounds = draw(4);
                self.auth_turn(c.tag, rounds);
            }
            CommandBody::Idle => {
                if chance(1, 4) {
                    self.chatter_without_continuations();
                }
                if self.shared.borrow().refuse_idle.contains(&t) {
                    let s = status(Some(c.tag), 1 + draw(2), self.opts.caps);
                    self.send(Response::Status(s));
                } else {
                    let k = continuation(self.opts.caps);
                    self.send(Response::CommandContinuationRequest(k));
                    self.mode = Mode::Idle(c.tag);
                    self.chatter_without_continuations();
                }
            }
            CommandBody::Logout if t.starts_with("bye") => {
                while !self.answers.is_empty() {
                    self.answer();
                }
                let b = bye(self.opts.caps);
                self.send(Response::Status(b));
                self.send(Response::Status(status(Some(c.tag), 0, self.opts.caps)));
                self.goodbye = true;
            }
            _ => {
                if chance(1, 2) {
                    self.chatter();
                }
                let kind = weighted(&[6, 2, 2]) as u32;
                self.answers.push((c.tag, kind));
                if chance(1, 2) {
                    self.answer();
                }
            }
        }
    }

    pub async fn run(mut self) {
        if !self.peer.handshake().await {
            let mut l = self.log.borrow_mut();
            l.handshake_failed = true;
            l.end = self.peer.seen.clone();
            return;
        }
        if let Some(rustls::Connection::Server(s)) = self.peer.connection() {
            self.log.borrow_mut().alpn = self.alpn.then(|| s.alpn_protocol().map(|p| p.to_vec()));
            self.log.borrow_mut().sni = s.server_name().map(|s| s.to_string());
        }
        if chance(1, 8) {
            exec::sleep_ns([2_000_000, 900_000_000, 70_000_000_000][draw(3) as usize]).await;
        }
        self.greet();
        self.chatter();
        let close_after = match self.opts.finish {
            Finish::ServerCloses => Some(draw(self.opts.commands + 1)),
            _ => None,
        };
        let mut waited = false;
        loop {
            while (close_after.is_none_or(|k| self.seen < k)) && self.step() {
                waited = false;
            }
            if self.complaint.is_some() {
                break;
            }
            if close_after.is_some_and(|k| self.seen >= k) {
                self.close().await;
                break;
            }
            if self.peer.seen.is_some() || !self.peer.is_open() {
                break;
            }
            if self.goodbye && chance(1, 3) {
                self.close().await;
                break;
            }
            if !self.answers.is_empty() && matches!(self.mode, Mode::Command) {
                if waited || chance(1, 2) {
                    self.answer();
                    continue;
                }
                waited = true;
                progress_or_sleep(&mut self.peer, 100_000_000).await;
            } else {
                self.peer.progress().await;
            }
        }
        let mut l = self.log.borrow_mut();
        l.end = self.peer.seen.clone();
        if let Some(c) = &self.complaint {
            if l.end.is_none() {
                violate(
                    &["C17", "C24"],
                    "proxy:malformed-to-server",
                    format!("the proxy sent the server something that is not a legal message: {c}"),
                );
            }
        }
    }

    async fn close(&mut self) {
        probe("proxy.server-closed");
        // Where among its last words the server says BYE.
        let bye_at = draw(5);
        let say_bye = |me: &mut Self| {
            let b = bye(me.opts.caps);
            me.send(Response::Status(b));
        };
        if bye_at == 2 {
            say_bye(self);
            if chance(1, 2) {
                self.peer.drain().await;
                exec::sleep_ns(20_000_000).await;
            }
        }
        while !self.answers.is_empty() && chance(2, 3) {
            self.answer();
        }
        if bye_at == 3 {
            say_bye(self);
        }
        self.chatter_without_continuations();
        if bye_at == 4 || bye_at == 1 {
            say_bye(self);
        }
        if chance(1, 5) {
            let cut = enc_data(&data(self.opts.sizes, false));
            let n = draw(cut.len() as u32) as usize;
            fault("server.cut-message");
            self.peer.queue(&cut[..n]);
        }
        match draw(3) {
            0 => self.peer.queue_close_notify(),
            1 => {
                self.peer.queue_close_notify();
                self.peer.drain().await;
                if chance(1, 2) {
                    exec::sleep_ns(50_000_000).await;
                }
            }
            _ => {}
        }
        let deaf = if self.opts.finish == Finish::ServerCloses { weighted(&[6, 1, 1]) } else { 0 };
        if deaf > 0 {
            // It has said everything and reads no more; whatever is meant for it gets stuck.
            fault("server.deaf-at-close");
            self.peer.reading = false;
        }
        let ok = self.peer.drain().await;
        if ok && deaf == 1 {
            self.log.borrow_mut().stays = true;
        }
        self.log.borrow_mut().closed = ok;
        self.peer.fin();
        match deaf {
            0 => self.peer.until_end().await,
            1 => std::future::pending::<()>().await,
            _ => {
                exec::sleep_ns(40_000_000_000_000).await;
                self.peer.close();
            }
        }
    }
}

/// Accept connections for ever; every one gets its own server session.
pub async fn server_host(addr: SocketAddr, tls: Option<std::sync::Arc<rustls::ServerConfig>>, opts: Opts, shared: Rc<RefCell<Shared>>) {
    loop {
        let Ok(sock) = std::future::poll_fn(|cx| net::poll_accept_quiet(addr, cx)).await else { return };
        serve(addr, sock, &tls, opts, &shared);
    }
}

pub fn serve(
    addr: SocketAddr,
    sock: Socket,
    tls: &Option<std::sync::Arc<rustls::ServerConfig>>,
    opts: Opts,
    shared: &Rc<RefCell<Shared>>,
) {
    let peer = match tls {
        Some(c) => Peer::tls_server(sock, c.clone()),
        None => Peer::plain(sock),
    };
    let mut s = Server::new(peer, opts, shared.clone());
    s.alpn = tls.as_ref().is_some_and(|c| !c.alpn_protocols.is_empty());
    s.log.borrow_mut().addr = Some(addr);
    exec::spawn_env("server", s.run());
}

pub fn ip(s: &str) -> IpAddr {
    s.parse().unwrap()
}

// ---- judging one connection ---------------------------------------------------------------------

pub struct Verdict<'a> {
    pub labels: &'a [&'static str],
    /// Everything was exchanged: nothing may be missing.
    pub client_done: bool,
    pub all_commands: bool,
}

/// Compare what one client and its server said and saw.
pub fn judge(c: &ClientLog, s: &ServerLog, v: Verdict) {
    let lab = |extra: &[&'static str]| -> Vec<&'static str> {
        let mut l = v.labels.to_vec();
        l.extend(extra);
        l
    };
    if c.broken {
        return violate(&lab(&["C17", "C18"]), "proxy:malformed-to-client", "the client received something that is no legal response".to_string());
    }
    // Commands.
    let refused: HashSet<&String> = s.seen.iter().filter_map(|x| match x { Said::Refused(t) => Some(t), _ => None }).collect();
    for (i, x) in s.seen.iter().enumerate() {
        let same = match (c.said.get(i), x) {
            (Some(Said::Command(t, _)), Said::Refused(r)) => t == r,
            (Some(a), b) => a == b,
            // Its last literal may still be on the way when the server refuses an earlier one.
            (None, _) => false,
        };
        if !same {
            let extra: &[&'static str] = if refused.is_empty() { &["C17"] } else { &["C17", "C25"] };
            return violate(
                &lab(extra),
                "proxy:commands-differ",
                format!(
                    "message number {i} to the server is {}, the client's was {}",
                    x.show(),
                    c.said.get(i).map(|s| s.show()).unwrap_or_else(|| "none".into())
                ),
            );
        }
    }
    if v.all_commands && s.seen.len() < c.said.len() {
        let extra: &[&'static str] = if refused.is_empty() { &["C17"] } else { &["C17", "C25"] };
        return violate(
            &lab(extra),
            "proxy:command-lost",
            format!("{} of {} client messages arrived, missing {}", s.seen.len(), c.said.len(), c.said[s.seen.len()].show()),
        );
    }
    // Responses.
    let mut want = s.sent.iter().filter(|x| !matches!(x, Sent::GoAhead));
    let mut acks = 0;
    let mut refusals: HashMap<String, u32> = HashMap::new();
    let mut n = 0;
    for g in &c.got {
        if let Got::Response(_, r) = g {
            if is_go_ahead(r) {
                acks += 1;
                if acks > c.announced {
                    return violate(&lab(&["C17", "C06"]), "proxy:extra-go-ahead", "the client got a go-ahead it did not ask for".to_string());
                }
                continue;
            }
            if let Response::Status(Status::Tagged(t)) = r {
                let tag = AsRef::<str>::as_ref(&t.tag).to_string();
                if c.too_long.contains(&tag) {
                    let k = refusals.entry(tag).or_insert(0);
                    *k += 1;
                    if *k > 1 || t.body.kind != StatusKind::Bad || t.body.code.is_some() || !t.body.text.as_str().starts_with("proxy:") {
                        return violate(&lab(&["C17", "C06"]), "proxy:own-refusal", format!("too long literal answered with {t:?} ({k} times)"));
                    }
                    continue;
                }
            }
        }
        let (bytes, leak, shown) = match g {
            Got::Greeting(b, leak) => (b, *leak, None),
            Got::Response(b, r) => (b, forbidden(r), Some(r)),
        };
        match want.next() {
            Some(Sent::Forward(w, _)) if w == bytes => {}
            Some(Sent::Refusal { tag, alert }) => {
                let ok = match shown {
                    Some(Response::Status(Status::Tagged(t))) => {
                        AsRef::<str>::as_ref(&t.tag) == tag
                            && t.body.kind == StatusKind::Bad
                            && match alert {
                                Some(text) => t.body.code == Some(Code::Alert) && t.body.text.as_str() == text,
                                None => t.body.code.is_none() && t.body.text.as_str().starts_with("proxy:"),
                            }
                    }
                    _ => false,
                };
                if !ok {
                    return violate(
                        &lab(&["C25", "C17"]),
                        "proxy:refusal-wrong",
                        format!("the server refused the literal of {tag} (alert {alert:?}); the client got \"{}\"", esc(bytes)),
                    );
                }
                probe(if alert.is_some() { "proxy.refused-with-alert" } else { "proxy.refused" });
            }
            Some(Sent::Forward(w, caps)) => {
                let mut extra = vec!["C17"];
                if *caps || leak || w.iter().any(|b| *b == b'[') || w.starts_with(b"* CAPABILITY") {
                    extra.push("C18");
                }
                if !refused.is_empty() {
                    extra.push("C25");
                }
                return violate(
                    &lab(&extra),
                    if leak { "proxy:capability-leak" } else { "proxy:responses-differ" },
                    format!("message number {n} to the client is \"{}\", expected \"{}\"", esc(bytes), esc(w)),
                );
            }
            Some(Sent::GoAhead) => unreachable!(),
            None => {
                return violate(
                    &lab(&["C17"]),
                    "proxy:response-invented",
                    format!("the client got \"{}\", the server has sent nothing more", esc(bytes)),
                );
            }
        }
        n += 1;
    }
    if v.client_done {
        if let Some(w) = want.next() {
            let mut extra = vec!["C17"];
            if s.closed {
                extra.push("C22");
            }
            let what = match w {
                Sent::Forward(b, _) => format!("\"{}\"", esc(b)),
                other => format!("{other:?}"),
            };
            if matches!(w, Sent::Refusal { .. }) {
                extra.push("C25");
            }
            return violate(
                &lab(&extra),
                if s.closed { "proxy:response-lost-at-close" } else { "proxy:response-lost" },
                format!("the connection is over after {n} messages; the client never got {what}"),
            );
        }
        if acks < c.announced && c.finished {
            return violate(&lab(&["C17", "C06"]), "proxy:missing-go-ahead", "a literal was never acknowledged".to_string());
        }
    }
}

fn tag_str(t: &Tag) -> String {
    AsRef::<str>::as_ref(t).to_string()
}
