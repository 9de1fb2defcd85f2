//! Executable reference model of the client side of the protocol flow.
use std::collections::VecDeque;

use imap_codec::encode::Fragment;
use imap_types::command::{Command, CommandBody};
use imap_types::core::{LiteralMode, Tag};
use imap_types::response::{Response, Status, StatusKind};
use simgen::frame::{dec_greeting, dec_response, frame, frame_known, Frame};

/// An event, with handles replaced by enqueue numbers and contents by their encoding.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CEv {
    Greeting(Vec<u8>),
    Sent(usize, Vec<u8>),
    Rejected(usize, Vec<u8>, Vec<u8>),
    AuthStarted(usize),
    AuthCont(usize, Vec<u8>),
    AuthStatus(usize, Vec<u8>, Vec<u8>),
    IdleSent(usize),
    IdleAccepted(usize, Vec<u8>),
    IdleRejected(usize, Vec<u8>),
    IdleDone(usize),
    Data(Vec<u8>),
    Status(Vec<u8>),
    Cont(Vec<u8>),
    BareLf(Vec<u8>),
    Malformed(Vec<u8>),
}

impl CEv {
    pub fn labels(&self) -> &'static [&'static str] {
        match self {
            CEv::Greeting(_) => &["C23", "C04", "C01", "C02"],
            CEv::Sent(..) => &["C03", "C05", "C10"],
            CEv::Rejected(..) => &["C05", "C03", "C10"],
            CEv::AuthStarted(_) | CEv::AuthCont(..) | CEv::AuthStatus(..) => &["C07", "C04", "C03", "C10"],
            CEv::IdleSent(_) | CEv::IdleAccepted(..) | CEv::IdleRejected(..) | CEv::IdleDone(_) => {
                &["C08", "C04", "C03", "C10"]
            }
            CEv::Data(_) | CEv::Status(_) | CEv::Cont(_) => &["C04", "C01", "C02", "C05"],
            CEv::BareLf(_) => &["C24", "C02", "C01"],
            CEv::Malformed(_) => &["C02", "C01", "C24"],
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            CEv::Greeting(_) => "greeting",
            CEv::Sent(..) => "command-sent",
            CEv::Rejected(..) => "command-rejected",
            CEv::AuthStarted(_) => "authenticate-started",
            CEv::AuthCont(..) => "authenticate-continuation",
            CEv::AuthStatus(..) => "authenticate-status",
            CEv::IdleSent(_) => "idle-sent",
            CEv::IdleAccepted(..) => "idle-accepted",
            CEv::IdleRejected(..) => "idle-rejected",
            CEv::IdleDone(_) => "idle-done-sent",
            CEv::Data(_) => "data",
            CEv::Status(_) => "status",
            CEv::Cont(_) => "continuation",
            CEv::BareLf(_) => "bare-lf-error",
            CEv::Malformed(_) => "malformed-error",
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Output(Vec<u8>),
    Event(CEv),
    Need,
}

#[derive(Clone)]
pub enum Cur {
    Cmd {
        h: usize,
        cmd: Command<'static>,
        frags: VecDeque<Fragment>,
        /// Literal waiting for its go-ahead.
        limbo: Option<Vec<u8>>,
        /// Something was handed out and the outcome is not reported yet.
        handed: bool,
    },
    Auth { h: usize, cmd: Command<'static>, st: Auth },
    Idle { h: usize, tag: Tag<'static>, st: Idle },
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Auth {
    Handed,
    Waiting,
    DataWanted,
    Data(Vec<u8>),
    DataHanded,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Idle {
    Handed,
    Waiting,
    Idling,
    Done,
    DoneHanded,
}

#[derive(Clone)]
pub struct RefClient {
    pub relaxed: bool,
    pub buf: Vec<u8>,
    pub greeted: bool,
    pub accepted: usize,
    /// Announced literals of the current message, as far as seen.
    known: Vec<(usize, usize)>,
    pub queue: VecDeque<(usize, Command<'static>)>,
    pub cur: Option<Cur>,
    /// Bytes freed by a go-ahead that arrived.
    pending_out: Option<Vec<u8>>,
}

impl RefClient {
    pub fn new(relaxed: bool) -> Self {
        RefClient { relaxed, buf: vec![], greeted: false, accepted: 0, known: vec![], queue: VecDeque::new(), cur: None, pending_out: None }
    }

    /// Short name of the protocol situation.
    pub fn situation(&self) -> &'static str {
        if !self.greeted {
            return "no-greeting";
        }
        match &self.cur {
            None => "free",
            Some(Cur::Cmd { limbo: Some(_), handed: false, .. }) => "literal-wait",
            Some(Cur::Cmd { .. }) => "command",
            Some(Cur::Auth { st: Auth::Waiting, .. }) => "auth-wait",
            Some(Cur::Auth { st: Auth::DataWanted, .. }) => "auth-data-wanted",
            Some(Cur::Auth { .. }) => "auth",
            Some(Cur::Idle { st: Idle::Waiting, .. }) => "idle-wait",
            Some(Cur::Idle { st: Idle::Idling, .. }) => "idling",
            Some(Cur::Idle { .. }) => "idle",
        }
    }

    /// Properties a wrong or missing output is evidence against, in this situation.
    pub fn output_labels(&self) -> Vec<&'static str> {
        let mut l = vec!["C03"];
        if !self.greeted {
            l.push("C23");
        }
        match &self.cur {
            Some(Cur::Cmd { .. }) => l.push("C05"),
            Some(Cur::Auth { .. }) => l.push("C07"),
            Some(Cur::Idle { .. }) => l.push("C08"),
            None => {}
        }
        l
    }

    pub fn current_tag(&self) -> Option<Tag<'static>> {
        match &self.cur {
            Some(Cur::Cmd { cmd, .. }) | Some(Cur::Auth { cmd, .. }) => Some(cmd.tag.clone()),
            Some(Cur::Idle { tag, .. }) => Some(tag.clone()),
            None => None,
        }
    }

    pub fn set_authenticate_data(&mut self, line: Vec<u8>) -> Option<usize> {
        match &mut self.cur {
            Some(Cur::Auth { h, st, .. }) if *st == Auth::DataWanted => {
                *st = Auth::Data(line);
                Some(*h)
            }
            _ => None,
        }
    }
    pub fn set_idle_done(&mut self) -> Option<usize> {
        match &mut self.cur {
            Some(Cur::Idle { h, st, .. }) if *st == Idle::Idling => {
                *st = Idle::Done;
                Some(*h)
            }
            _ => None,
        }
    }

    fn push(frags: &mut VecDeque<Fragment>, out: &mut Vec<u8>) -> Option<Vec<u8>> {
        while let Some(f) = frags.pop_front() {
            match f {
                Fragment::Literal { data, mode: LiteralMode::Sync } => return Some(data),
                Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend(data),
            }
        }
        None
    }

    fn send(&mut self) -> Option<Step> {
        if !self.greeted {
            return None;
        }
        if let Some(out) = self.pending_out.take() {
            return Some(Step::Output(out));
        }
        match self.cur.take() {
            None => {
                let (h, cmd) = self.queue.pop_front()?;
                let mut frags: VecDeque<Fragment> = simgen::enc_fragments(&cmd).into();
                let mut out = vec![];
                let limbo = Self::push(&mut frags, &mut out);
                self.cur = Some(match &cmd.body {
                    CommandBody::Authenticate { .. } => Cur::Auth { h, cmd, st: Auth::Handed },
                    CommandBody::Idle => Cur::Idle { h, tag: cmd.tag, st: Idle::Handed },
                    _ => Cur::Cmd { h, cmd, frags, limbo, handed: true },
                });
                Some(Step::Output(out))
            }
            Some(Cur::Cmd { h, cmd, frags, limbo, handed }) => {
                if handed && limbo.is_none() {
                    return Some(Step::Event(CEv::Sent(h, simgen::enc_command(&cmd))));
                }
                self.cur = Some(Cur::Cmd { h, cmd, frags, limbo, handed: false });
                None
            }
            Some(Cur::Auth { h, cmd, st }) => {
                let (st, r) = match st {
                    Auth::Handed => (Auth::Waiting, Some(Step::Event(CEv::AuthStarted(h)))),
                    Auth::Data(d) => (Auth::DataHanded, Some(Step::Output(d))),
                    Auth::DataHanded => (Auth::Waiting, None),
                    st => (st, None),
                };
                self.cur = Some(Cur::Auth { h, cmd, st });
                r
            }
            Some(Cur::Idle { h, tag, st }) => {
                let (st, r) = match st {
                    Idle::Handed => (Idle::Waiting, Some(Step::Event(CEv::IdleSent(h)))),
                    Idle::Done => (Idle::DoneHanded, Some(Step::Output(b"DONE\r\n".to_vec()))),
                    Idle::DoneHanded => return Some(Step::Event(CEv::IdleDone(h))),
                    st => (st, None),
                };
                self.cur = Some(Cur::Idle { h, tag, st });
                r
            }
        }
    }

    pub fn step(&mut self) -> Step {
        loop {
            if let Some(s) = self.send() {
                return s;
            }
            if let Some(s) = self.receive() {
                return s;
            }
        }
    }

    fn cut(&mut self, n: usize) -> Vec<u8> {
        self.accepted = 0;
        if self.relaxed && n > 0 && self.buf[n - 1] == b'\n' && (n < 2 || self.buf[n - 2] != b'\r') {
            simcore::probe("client.bare-lf-accepted");
        }
        self.known.clear();
        self.buf.drain(..n).collect()
    }

    /// `None`: something became sendable.
    fn receive(&mut self) -> Option<Step> {
        if !self.greeted {
            return Some(match frame(&self.buf, self.relaxed, None, 0, dec_greeting) {
                Frame::Msg(g, n) => {
                    self.cut(n);
                    self.greeted = true;
                    Step::Event(CEv::Greeting(simgen::enc_greeting(&g)))
                }
                Frame::Malformed(n) => Step::Event(CEv::Malformed(self.cut(n))),
                Frame::BareLf(n) => Step::Event(CEv::BareLf(self.cut(n))),
                _ => Step::Need,
            });
        }
        loop {
            return match frame_known(&self.buf, self.relaxed, None, self.accepted, &mut self.known, dec_response) {
                Frame::Msg(r, n) => {
                    self.cut(n);
                    self.response(r).map(Step::Event)
                }
                Frame::Malformed(n) => Some(Step::Event(CEv::Malformed(self.cut(n)))),
                Frame::BareLf(n) => Some(Step::Event(CEv::BareLf(self.cut(n)))),
                Frame::Announce { .. } => {
                    self.accepted += 1;
                    continue;
                }
                _ => Some(Step::Need),
            };
        }
    }

    fn response(&mut self, r: Response<'static>) -> Option<CEv> {
        let enc = simgen::enc_response(&r);
        match r {
            Response::Data(_) => Some(CEv::Data(enc)),
            Response::Status(s) => {
                let (tag, kind) = match &s {
                    Status::Tagged(t) => (Some(t.tag.clone()), Some(t.body.kind)),
                    _ => (None, None),
                };
                let mine = tag.is_some() && tag == self.current_tag();
                match (&self.cur, mine) {
                    (Some(Cur::Cmd { h, cmd, .. }), true) if kind == Some(StatusKind::Bad) => {
                        let ev = CEv::Rejected(*h, simgen::enc_command(cmd), enc);
                        self.cur = None;
                        Some(ev)
                    }
                    (Some(Cur::Auth { h, cmd, .. }), true) => {
                        let ev = CEv::AuthStatus(*h, simgen::enc_command(cmd), enc);
                        self.cur = None;
                        Some(ev)
                    }
                    (Some(Cur::Idle { h, .. }), true) => {
                        let ev = CEv::IdleRejected(*h, enc);
                        self.cur = None;
                        Some(ev)
                    }
                    _ => Some(CEv::Status(enc)),
                }
            }
            Response::CommandContinuationRequest(_) => match &mut self.cur {
                Some(Cur::Cmd { frags, limbo, handed, .. }) if limbo.is_some() => {
                    simcore::probe("client.literal-continued");
                    let mut out = limbo.take().unwrap();
                    *limbo = Self::push(frags, &mut out);
                    *handed = true;
                    // Hand it out right away: nothing can come in between.
                    self.pending_out = Some(out);
                    None
                }
                Some(Cur::Auth { h, st, .. }) if *st == Auth::Waiting => {
                    *st = Auth::DataWanted;
                    Some(CEv::AuthCont(*h, enc))
                }
                Some(Cur::Idle { h, st, .. }) if *st == Idle::Waiting => {
                    *st = Idle::Idling;
                    Some(CEv::IdleAccepted(*h, enc))
                }
                _ => Some(CEv::Cont(enc)),
            },
        }
    }
}
