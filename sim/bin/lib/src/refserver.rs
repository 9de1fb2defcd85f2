//! Executable reference model of the server side of the protocol flow.
use std::collections::VecDeque;

use imap_types::command::CommandBody;
use imap_types::core::{LiteralMode, Text};
use imap_types::response::{CommandContinuationRequest, Greeting, Response, Status};
use simgen::frame::{dec_auth, dec_command, dec_done, frame, frame_known, Frame};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SEv {
    GreetingSent(Vec<u8>),
    Sent(usize, Vec<u8>),
    Command(Vec<u8>),
    Auth(Vec<u8>),
    AuthData(Vec<u8>),
    Idle(String),
    Done,
    BareLf(Vec<u8>),
    Malformed(Vec<u8>),
    LitTooLong(Vec<u8>),
    CmdTooLong(Vec<u8>),
}

impl SEv {
    pub fn kind(&self) -> &'static str {
        match self {
            SEv::GreetingSent(_) => "greeting-sent",
            SEv::Sent(..) => "response-sent",
            SEv::Command(_) => "command",
            SEv::Auth(_) => "authenticate",
            SEv::AuthData(_) => "authenticate-data",
            SEv::Idle(_) => "idle",
            SEv::Done => "idle-done",
            SEv::BareLf(_) => "bare-lf-error",
            SEv::Malformed(_) => "malformed-error",
            SEv::LitTooLong(_) => "literal-too-long-error",
            SEv::CmdTooLong(_) => "command-too-long-error",
        }
    }
    pub fn labels(&self) -> &'static [&'static str] {
        match self {
            SEv::GreetingSent(_) | SEv::Sent(..) => &["C04", "C10"],
            SEv::Command(_) => &["C01", "C02", "C06", "C07", "C08"],
            SEv::Auth(_) | SEv::AuthData(_) => &["C07", "C01", "C02"],
            SEv::Idle(_) | SEv::Done => &["C08", "C01", "C02"],
            SEv::BareLf(_) => &["C24", "C02", "C01"],
            SEv::Malformed(_) => &["C02", "C01", "C24"],
            SEv::LitTooLong(_) | SEv::CmdTooLong(_) => &["C06", "C02", "C01"],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Output(Vec<u8>),
    Event(SEv),
    Need,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Phase {
    Command,
    Auth,
    IdleAccept,
    IdleDone,
}

#[derive(Clone)]
pub enum Msg {
    Greeting(Vec<u8>),
    User(usize, Vec<u8>),
    Internal(Vec<u8>),
}

pub struct RefServer {
    pub relaxed: bool,
    pub max_literal: usize,
    pub max_command: usize,
    pub accept: Text<'static>,
    pub reject: Text<'static>,
    pub phase: Phase,
    pub buf: Vec<u8>,
    pub accepted: usize,
    /// Announced literals of the current message, as far as seen.
    known: Vec<(usize, usize)>,
    pub queue: VecDeque<Msg>,
    pub handed: Option<Msg>,
    pub accepts: usize,
    pub rejects: usize,
}

impl RefServer {
    pub fn new(relaxed: bool, max_literal: usize, max_command: usize, accept: Text<'static>, reject: Text<'static>, g: &Greeting<'static>) -> Self {
        RefServer {
            relaxed,
            max_literal,
            max_command,
            accept,
            reject,
            phase: Phase::Command,
            buf: vec![],
            accepted: 0, known: vec![],
            queue: VecDeque::from([Msg::Greeting(simgen::enc_greeting(g))]),
            handed: None,
            accepts: 0,
            rejects: 0,
        }
    }

    pub fn situation(&self) -> &'static str {
        match (self.phase, self.accepted > 0) {
            (Phase::Command, false) => "command",
            (Phase::Command, true) => "command-with-literal",
            (Phase::Auth, _) => "authenticate",
            (Phase::IdleAccept, _) => "idle-accept",
            (Phase::IdleDone, _) => "idle-done",
        }
    }

    pub fn phase_labels(&self) -> &'static [&'static str] {
        match self.phase {
            Phase::Command if self.accepted > 0 => &["C06"],
            Phase::Command => &[],
            Phase::Auth => &["C07"],
            _ => &["C08"],
        }
    }

    pub fn step(&mut self) -> Step {
        loop {
            match self.handed.take() {
                Some(Msg::Greeting(b)) => return Step::Event(SEv::GreetingSent(b)),
                Some(Msg::User(h, b)) => return Step::Event(SEv::Sent(h, b)),
                Some(Msg::Internal(_)) | None => {}
            }
            if let Some(m) = self.queue.pop_front() {
                let (Msg::Greeting(b) | Msg::User(_, b) | Msg::Internal(b)) = &m;
                let out = b.clone();
                self.handed = Some(m);
                return Step::Output(out);
            }
            if let Some(s) = self.receive() {
                return s;
            }
        }
    }

    fn cut(&mut self, n: usize) -> Vec<u8> {
        self.accepted = 0;
        if self.relaxed && n > 0 && self.buf[n - 1] == b'\n' && (n < 2 || self.buf[n - 2] != b'\r') {
            simcore::probe("server.bare-lf-accepted");
        }
        self.known.clear();
        self.buf.drain(..n).collect()
    }

    fn receive(&mut self) -> Option<Step> {
        let max = Some(self.max_command);
        Some(match self.phase {
            Phase::IdleAccept => Step::Need,
            Phase::Auth => match frame(&self.buf, self.relaxed, max, 0, dec_auth) {
                Frame::Msg(d, n) => {
                    self.cut(n);
                    Step::Event(SEv::AuthData(simgen::enc_auth(&d)))
                }
                f => self.refused(f),
            },
            Phase::IdleDone => match frame(&self.buf, self.relaxed, max, 0, dec_done) {
                Frame::Msg((), n) => {
                    self.cut(n);
                    self.phase = Phase::Command;
                    Step::Event(SEv::Done)
                }
                f => self.refused(f),
            },
            Phase::Command => match frame_known(&self.buf, self.relaxed, max, self.accepted, &mut self.known, dec_command) {
                Frame::Msg(c, n) => {
                    self.cut(n);
                    match &c.body {
                        CommandBody::Authenticate { .. } => {
                            self.phase = Phase::Auth;
                            Step::Event(SEv::Auth(simgen::enc_command(&c)))
                        }
                        CommandBody::Idle => {
                            self.phase = Phase::IdleAccept;
                            Step::Event(SEv::Idle(c.tag.as_str().to_string()))
                        }
                        _ => Step::Event(SEv::Command(simgen::enc_command(&c))),
                    }
                }
                Frame::Announce { len, tag, mode, seen } => {
                    if len > self.max_literal {
                        if mode == LiteralMode::Sync {
                            self.rejects += 1;
                            let s = Status::bad(tag, None, self.reject.clone()).unwrap_or_else(|_| unreachable!());
                            self.queue.push_back(Msg::Internal(simgen::enc_status(&s)));
                        }
                        return Some(Step::Event(SEv::LitTooLong(self.cut(seen))));
                    }
                    self.accepted += 1;
                    simcore::probe("server.literal-accepted");
                    if mode == LiteralMode::Sync {
                        self.accepts += 1;
                        let c = CommandContinuationRequest::basic(None, self.accept.clone()).unwrap();
                        let r = Response::CommandContinuationRequest(c);
                        self.queue.push_back(Msg::Internal(simgen::enc_response(&r)));
                    }
                    return None;
                }
                f => self.refused(f),
            },
        })
    }

    fn refused<M>(&mut self, f: Frame<M>) -> Step {
        match f {
            Frame::Malformed(n) => Step::Event(SEv::Malformed(self.cut(n))),
            Frame::BareLf(n) => Step::Event(SEv::BareLf(self.cut(n))),
            Frame::TooLong(n) => Step::Event(SEv::CmdTooLong(self.cut(n))),
            _ => Step::Need,
        }
    }
}

