//! A server driven sans I/O by a scripted, possibly misbehaving client and user, in lockstep with
//! the reference model.
use imap_codec::encode::Fragment;
use imap_next::server::{Error, Event, Options, ResponseHandle, Server};
use imap_next::{Interrupt, Io, State};
use imap_types::command::Command;
use imap_types::core::{LiteralMode, Text};
use simcore::harness::{beat, Ctx, Tier};
use simcore::{chance, cover, draw, fault, log, observe, probe, range, violate, weighted};
use simgen::{Mix, Sizes};
use std::collections::VecDeque;

use crate::client::esc;
use crate::refserver::{Msg, Phase, RefServer, SEv, Step};

struct Sim {
    sut: Server,
    model: RefServer,
    handles: Vec<ResponseHandle>,
    out_sut: Vec<u8>,
    out_ref: Vec<u8>,
    wire: Vec<u8>,
    /// Parts of the current command that a polite client sends after each go-ahead.
    held: VecDeque<Vec<u8>>,
    seen_accepts: usize,
    seen_rejects: usize,
    sent: usize,
    anomalies: u32,
    sizes: Sizes,
    mix: Mix,
    dead: bool,
    needs: bool,
    swarms: bool,
}

enum Res {
    Output,
    Event,
    Need,
}

impl Sim {
    fn bad(&mut self, labels: &[&str], class: &str, msg: String) {
        if !self.dead {
            let mut l = labels.to_vec();
            l.push("C16");
            violate(&l, format!("server:{class}"), msg);
            self.dead = true;
        }
    }

    fn index(&mut self, h: ResponseHandle) -> usize {
        let found: Vec<usize> = (0..self.handles.len()).filter(|i| self.handles[*i] == h).collect();
        match found.as_slice() {
            [i] => *i,
            [] => usize::MAX,
            [i, ..] => {
                self.bad(&["C10"], "ambiguous-handle", format!("{h:?} equals the handles of several responses: {found:?}"));
                *i
            }
        }
    }

    fn convert(&mut self, r: Result<Event, Error>) -> SEv {
        use simgen::*;
        crate::secret::printed(&r, |e| {
            let other = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes: d } => Error::ExpectedCrlfGotLf { discarded_bytes: crate::secret::another(d) },
                Error::MalformedMessage { discarded_bytes: d } => Error::MalformedMessage { discarded_bytes: crate::secret::another(d) },
                Error::LiteralTooLong { discarded_bytes: d } => Error::LiteralTooLong { discarded_bytes: crate::secret::another(d) },
                Error::CommandTooLong { discarded_bytes: d } => Error::CommandTooLong { discarded_bytes: crate::secret::another(d) },
            };
            other
        });
        match r {
            Ok(Event::GreetingSent { greeting }) => SEv::GreetingSent(enc_greeting(&greeting)),
            Ok(Event::ResponseSent { handle, response }) => SEv::Sent(self.index(handle), enc_response(&response)),
            Ok(Event::CommandReceived { command }) => SEv::Command(enc_command(&command)),
            Ok(Event::CommandAuthenticateReceived { command_authenticate }) => {
                SEv::Auth(enc_command(&Command::from(command_authenticate)))
            }
            Ok(Event::AuthenticateDataReceived { authenticate_data }) => SEv::AuthData(enc_auth(&authenticate_data)),
            Ok(Event::IdleCommandReceived { tag }) => SEv::Idle(tag.as_str().to_string()),
            Ok(Event::IdleDoneReceived) => SEv::Done,
            Err(Error::ExpectedCrlfGotLf { discarded_bytes }) => SEv::BareLf(discarded_bytes.declassify().to_vec()),
            Err(Error::MalformedMessage { discarded_bytes }) => SEv::Malformed(discarded_bytes.declassify().to_vec()),
            Err(Error::LiteralTooLong { discarded_bytes }) => SEv::LitTooLong(discarded_bytes.declassify().to_vec()),
            Err(Error::CommandTooLong { discarded_bytes }) => SEv::CmdTooLong(discarded_bytes.declassify().to_vec()),
        }
    }

    fn output_labels(&self) -> Vec<&'static str> {
        let mut l = vec!["C04"];
        if matches!(self.model.handed, Some(Msg::Internal(_)))
            || self.model.queue.iter().any(|m| matches!(m, Msg::Internal(_)))
            || self.model.accepted > 0
        {
            l.push("C06");
        }
        l.extend(self.model.phase_labels());
        l
    }

    fn next(&mut self) -> Res {
        let situation = self.model.situation();
        let mut labels = self.output_labels();
        match self.sut.next() {
            Err(Interrupt::Io(Io::Output(b))) => {
                log(|| format!("next -> output \"{}\"", esc(&b)));
                observe(&b);
                if b.is_empty() {
                    self.bad(&["C09", "C04"], "empty-output", "next() asked to write zero bytes".into());
                    return Res::Output;
                }
                self.out_sut.extend_from_slice(&b);
                while self.out_ref.len() < self.out_sut.len() {
                    match self.model.step() {
                        Step::Output(o) => self.out_ref.extend(o),
                        other => {
                            labels.extend(self.output_labels());
                            labels.push("C06");
                            if let Step::Event(e) = &other {
                                labels.extend(e.labels());
                            }
                            let extra = self.out_sut[self.out_ref.len()..].to_vec();
                            self.bad(
                                &labels,
                                &format!("sent-too-much@{situation}"),
                                format!("in phase {situation} the server handed out \"{}\", expected {}", esc(&extra), show(&other)),
                            );
                            return Res::Output;
                        }
                    }
                }
                if self.out_ref[..self.out_sut.len()] != self.out_sut[..] {
                    labels.extend(self.output_labels());
                    let msg = format!(
                        "in phase {situation} the server handed out \"{}\", expected \"{}\"",
                        esc(&self.out_sut),
                        esc(&self.out_ref)
                    );
                    self.bad(&labels, &format!("wrong-bytes@{situation}"), msg);
                }
                Res::Output
            }
            other => {
                let step = if self.out_ref.len() > self.out_sut.len() {
                    Step::Output(self.out_ref[self.out_sut.len()..].to_vec())
                } else {
                    self.model.step()
                };
                self.out_ref.clear();
                self.out_sut.clear();
                let (got, res) = match other {
                    Ok(ev) => (Some(self.convert(Ok(ev))), Res::Event),
                    Err(Interrupt::Error(e)) => (Some(self.convert(Err(e))), Res::Event),
                    Err(Interrupt::Io(_)) => (None, Res::Need),
                };
                let got = got.map_or(Step::Need, Step::Event);
                log(|| format!("next -> {}", show(&got)));
                observe(show(&got).as_bytes());
                let same = match (&got, &step) {
                    (Step::Event(a), Step::Event(b)) => a == b,
                    (Step::Need, Step::Need) => true,
                    _ => false,
                };
                if let Step::Event(e) = &got {
                    probe(format!("server.{}", e.kind()));
                    cover(&format!("server {situation} {} {}", e.kind(), self.model.relaxed));
                }
                if !same {
                    let mut l: Vec<&str> = labels.iter().copied().filter(|l| *l != "C04").collect();
                    for s in [&got, &step] {
                        match s {
                            Step::Event(e) => l.extend(e.labels()),
                            Step::Output(_) => {
                                l.push("C09");
                                l.extend(&labels);
                                l.extend(self.output_labels());
                            }
                            Step::Need => l.extend(["C09", "C01"]),
                        }
                    }
                    let k = |s: &Step| match s {
                        Step::Event(e) => e.kind(),
                        Step::Output(_) => "output",
                        Step::Need => "need-input",
                    };
                    self.bad(
                        &l,
                        &format!("{}-instead-of-{}@{situation}", k(&got), k(&step)),
                        format!("in phase {situation} the server reported {}, expected {}", show(&got), show(&step)),
                    );
                }
                self.needs = matches!(res, Res::Need);
                res
            }
        }
    }

    fn deliver(&mut self, n: usize) {
        let b: Vec<u8> = self.wire.drain(..n).collect();
        log(|| format!("enqueue_input \"{}\"", esc(&b)));
        self.sut.enqueue_input(&b);
        self.model.buf.extend_from_slice(&b);
        self.needs = false;
    }

    fn register(&mut self, h: ResponseHandle, bytes: Vec<u8>) {
        if self.handles.iter().any(|x| *x == h) {
            self.bad(&["C10"], "duplicate-handle", format!("{h:?} was handed out before"));
        }
        let i = self.handles.len();
        log(|| format!("enqueued #{i} \"{}\"", esc(&bytes)));
        self.handles.push(h);
        self.model.queue.push_back(Msg::User(i, bytes));
        self.needs = false;
    }

    fn respond(&mut self) {
        match weighted(&[4, 4, 1, 1]) {
            0 => {
                let d = simgen::data(self.sizes, false);
                let b = simgen::enc_data(&d);
                let h = self.sut.enqueue_data(d);
                self.register(h, b);
            }
            1 => {
                let t = if chance(1, 2) { Some(simgen::tag(draw(self.sent as u32 + 1) as usize)) } else { None };
                let s = simgen::status(t, draw(3), false);
                let b = simgen::enc_status(&s);
                let h = self.sut.enqueue_status(s);
                self.register(h, b);
            }
            2 => {
                let s = simgen::bye(false);
                let b = simgen::enc_status(&s);
                let h = self.sut.enqueue_status(s);
                self.register(h, b);
            }
            _ => {
                let c = simgen::continuation(chance(1, 6));
                let b = simgen::enc_cont(&c);
                let h = self.sut.enqueue_continuation_request(c);
                self.register(h, b);
            }
        }
    }

    fn api(&mut self, which: u32) {
        let phase = self.model.phase;
        match which {
            0 | 2 => {
                let c = simgen::continuation(chance(1, 6));
                let b = simgen::enc_cont(&c);
                let (name, label, want) =
                    if which == 0 { ("authenticate_continue", "C07", Phase::Auth) } else { ("idle_accept", "C08", Phase::IdleAccept) };
                let r = if which == 0 { self.sut.authenticate_continue(c) } else { self.sut.idle_accept(c) };
                log(|| format!("{name} \"{}\" -> {}", esc(&b), r.is_ok()));
                match r {
                    Ok(h) if phase == want => {
                        self.register(h, b);
                        if which == 2 {
                            self.model.phase = Phase::IdleDone;
                        }
                        probe(format!("server.{name}"));
                    }
                    Err(c) if phase != want => {
                        if simgen::enc_cont(&c) != b {
                            self.bad(&[label], "argument-changed", format!("{name} did not hand its argument back"));
                        }
                    }
                    r => {
                        let m = format!("{name} in phase {phase:?} gave ok={}", r.is_ok());
                        self.bad(&[label], &format!("{name}-ok-{}", r.is_ok()), m);
                    }
                }
            }
            _ => {
                // Whatever status the application considers right: the library does not judge it.
                let s = match weighted(&[8, 2, 1, 1]) {
                    0 => simgen::status(Some(simgen::tag(self.sent)), draw(3), false),
                    1 => simgen::status(None, draw(3), true),
                    2 => simgen::status(Some(simgen::tag(draw(40) as usize)), draw(3), true),
                    _ => simgen::bye(true),
                };
                let b = simgen::enc_status(&s);
                let (name, label, want) =
                    if which == 1 { ("authenticate_finish", "C07", Phase::Auth) } else { ("idle_reject", "C08", Phase::IdleAccept) };
                let r = if which == 1 { self.sut.authenticate_finish(s) } else { self.sut.idle_reject(s) };
                log(|| format!("{name} \"{}\" -> {}", esc(&b), r.is_ok()));
                match r {
                    Ok(h) if phase == want => {
                        self.register(h, b);
                        self.model.phase = Phase::Command;
                        probe(format!("server.{name}"));
                    }
                    Err(s) if phase != want => {
                        if simgen::enc_status(&s) != b {
                            self.bad(&[label], "argument-changed", format!("{name} did not hand its argument back"));
                        }
                    }
                    r => {
                        let m = format!("{name} in phase {phase:?} gave ok={}", r.is_ok());
                        self.bad(&[label], &format!("{name}-ok-{}", r.is_ok()), m);
                    }
                }
            }
        }
    }

    fn send(&mut self, mut m: Vec<u8>) {
        if self.model.relaxed && chance(1, 3) {
            m = simgen::strip_cr(m);
        } else if !self.model.relaxed && chance(self.anomalies, 30) {
            m = simgen::strip_cr(m);
            fault("bare-line-feed");
        }
        log(|| format!("client sends \"{}\"", esc(&m)));
        self.wire.extend(m);
    }

    fn produce(&mut self) {
        let a = self.anomalies;
        // A polite client waits for the answer to its literal.
        if let Some(_) = self.held.front() {
            if self.model.rejects > self.seen_rejects {
                self.held.clear();
            } else if self.model.accepts > self.seen_accepts {
                self.seen_accepts += 1;
                let b = self.held.pop_front().unwrap();
                log(|| format!("client continues \"{}\"", esc(&b)));
                self.wire.extend(b);
                return;
            } else if chance(3, 4) {
                return;
            } else {
                // ran out of patience
                fault("literal-without-go-ahead");
                let b: Vec<u8> = self.held.drain(..).flatten().collect();
                self.wire.extend(b);
                return;
            }
        }
        self.seen_accepts = self.model.accepts;
        self.seen_rejects = self.model.rejects;
        match self.model.phase {
            Phase::Auth if chance(4, 5) => {
                let m = match weighted(&[6, a]) {
                    0 => simgen::enc_auth(&simgen::authenticate_data()),
                    _ => {
                        fault("malformed-authenticate-data");
                        simgen::garbage(self.sizes, true)
                    }
                };
                self.send(m)
            }
            Phase::IdleDone | Phase::IdleAccept if chance(3, 4) => {
                let m = match weighted(&[6, a]) {
                    0 => b"DONE\r\n".to_vec(),
                    _ => {
                        fault("malformed-done");
                        simgen::garbage(self.sizes, true)
                    }
                };
                self.send(m)
            }
            _ if self.swarms && chance(1, 30) => {
                probe("server.swarm");
                let m = simgen::swarm(true);
                self.send(m)
            }
            _ => match weighted(&[12, a, a]) {
                0 => {
                    let c = simgen::command(self.sent, self.mix, self.sizes);
                    self.sent += 1;
                    if chance(1, 2) {
                        let m = simgen::enc_command(&c);
                        self.send(m)
                    } else {
                        let mut part = vec![];
                        let mut first = true;
                        for f in simgen::enc_fragments(&c) {
                            if let Fragment::Literal { mode: LiteralMode::Sync, .. } = f {
                                let p = std::mem::take(&mut part);
                                if first {
                                    log(|| format!("client announces \"{}\"", esc(&p)));
                                    self.wire.extend(p);
                                    first = false;
                                } else {
                                    self.held.push_back(p);
                                }
                            }
                            match f {
                                Fragment::Line { data } | Fragment::Literal { data, .. } => part.extend(data),
                            }
                        }
                        if first {
                            self.send(part);
                        } else {
                            self.held.push_back(part);
                        }
                    }
                }
                1 => {
                    fault("malformed-command");
                    let m = simgen::garbage(self.sizes, true);
                    self.send(m)
                }
                _ => {
                    fault("overlong-command");
                    let n = (self.model.max_command + draw(3) as usize).saturating_sub(1 + draw(3) as usize).min(300_000);
                    let lit = chance(1, 2);
                    let mut m = b"L1 LOGIN ".to_vec();
                    if lit {
                        m.extend(format!("{{{}+}}\r\n", self.model.max_literal.min(200_000)).bytes());
                    }
                    while m.len() + 2 < n {
                        m.push(b'a');
                    }
                    m.extend(b"\r\n");
                    self.send(m)
                }
            },
        }
    }

    fn settle(&mut self) {
        for _ in 0..10_000 + 3 * self.model.buf.len() {
            beat();
            if self.dead {
                return;
            }
            if let Res::Need = self.next() {
                return;
            }
        }
        self.bad(&["*"], "no-need", "10000 next() calls in a row without asking for input".into());
    }

    fn push(&mut self, b: &[u8]) {
        self.wire = b.to_vec();
        let n = self.wire.len();
        self.deliver(n);
        self.settle();
    }

    fn leave_exchange(&mut self) {
        for _ in 0..200 {
            if self.dead {
                return;
            }
            match self.model.phase {
                Phase::Auth => self.api(1),
                Phase::IdleAccept => self.api(3),
                Phase::IdleDone => {
                    self.push(b"DONE\r\n");
                }
                Phase::Command => return,
            }
            self.settle();
        }
    }

    fn epilogue(&mut self) {
        let n = self.wire.len();
        self.deliver(n);
        self.settle();
        self.leave_exchange();
        for _ in 0..60 {
            if self.dead {
                return;
            }
            if self.model.buf.is_empty() && self.model.phase == Phase::Command {
                break;
            }
            // finish what a truncated message left behind
            let missing = 64.max(self.model.max_command / 20).min(100_000);
            let mut m = vec![b'z'; missing];
            m.extend(b"\r\n");
            self.push(&m);
            self.leave_exchange();
        }
        if self.dead {
            return;
        }
        if self.model.max_command >= 16 {
            self.push(b"ZZ99 NOOP\r\n");
        }
        self.respond();
        self.settle();
        if !self.dead && self.model.buf.is_empty() {
            probe("server.recovered");
        }
    }
}

fn show(s: &Step) -> String {
    match s {
        Step::Output(b) => format!("output \"{}\"", esc(b)),
        Step::Need => "NeedMoreInput".into(),
        Step::Event(e) => match e {
            SEv::GreetingSent(b)
            | SEv::Command(b)
            | SEv::Auth(b)
            | SEv::AuthData(b)
            | SEv::BareLf(b)
            | SEv::Malformed(b)
            | SEv::LitTooLong(b)
            | SEv::CmdTooLong(b) => format!("{} \"{}\"", e.kind(), esc(b)),
            SEv::Sent(h, b) => format!("{} #{h} \"{}\"", e.kind(), esc(b)),
            SEv::Idle(t) => format!("idle {t}"),
            SEv::Done => "idle-done".into(),
        },
    }
}

fn limit_text(o: &mut Options, accept: bool) -> Text<'static> {
    const T: &[&str] = &["Send it.", "no, thanks!", "...", "too big {1}", "over the limit?", "ok go on"];
    const BAD: &[&str] = &["abcd", "", "[ALERT] x", "line\r\nbreak", "YWJj", "[x"];
    let set = |o: &mut Options, t: &str| {
        if accept {
            o.set_literal_accept_text(t.to_string())
        } else {
            o.set_literal_reject_text(t.to_string())
        }
    };
    let mut cur = "...".to_string();
    for _ in 0..draw(3) {
        let good = chance(2, 3);
        let t = if good { T[draw(T.len() as u32) as usize] } else { BAD[draw(BAD.len() as u32) as usize] };
        let r = set(o, t);
        if good {
            if r.is_err() {
                violate(&["C06"], "server:limit-text-refused", format!("valid text {t:?} was refused"));
            }
            cur = t.to_string();
        } else {
            match r {
                Err(x) if x == t => {}
                _ => violate(&["C06", "C16"], "server:limit-text-accepted", format!("text {t:?} would be misread but was not handed back")),
            }
        }
    }
    let got = if accept { o.literal_accept_text() } else { o.literal_reject_text() };
    if got.as_str() != cur {
        violate(&["C06"], "server:limit-text-lost", format!("configured {cur:?}, option says {:?}", got.as_str()));
    }
    Text::try_from(cur).unwrap()
}

pub fn run_mix(_ctx: &Ctx, mix: Mix, anomalies: u32, max_literal: usize, max_command: usize, sizes: Sizes, steps: u32) {
    let relaxed = chance(1, 3);
    let mut o = Options::default();
    // Strict is the default
    if relaxed || chance(1, 2) {
        o.crlf_relaxed = relaxed;
    }
    o.max_literal_size = max_literal as u32;
    o.max_command_size = max_command as u32;
    let accept = limit_text(&mut o, true);
    let reject = limit_text(&mut o, false);
    let g = simgen::greeting(false);
    let cut_style = draw(5);
    log(|| format!("server crlf_relaxed={relaxed} max_literal={max_literal} max_command={max_command} cut={cut_style} anomalies={anomalies} accept={accept:?} reject={reject:?}"));
    let mut s = Sim {
        model: RefServer::new(relaxed, max_literal, max_command, accept, reject, &g),
        sut: Server::new(o, g),
        handles: vec![],
        out_sut: vec![],
        out_ref: vec![],
        wire: vec![],
        held: VecDeque::new(),
        seen_accepts: 0,
        seen_rejects: 0,
        sent: 0,
        anomalies,
        sizes,
        mix,
        dead: false,
        needs: false,
        swarms: chance(1, 120),
    };
    let chatty = draw(4);
    let most = [6, 40, 300][weighted(&[24, 2, 1])];
    if most > 6 {
        probe("server.long-queue");
    }
    for _ in 0..steps {
        beat();
        if s.dead {
            return;
        }
        let w = [
            if s.needs { 1 } else { 10 },
            if s.wire.is_empty() { 0 } else { 6 },
            if s.wire.len() > 4000 { 0 } else if s.needs { 5 } else { 1 },
            if s.model.queue.len() > most { 0 } else if most > 6 { 20 } else { 1 + chatty },
            match s.model.phase {
                Phase::Auth | Phase::IdleAccept => 3,
                _ if anomalies > 0 => 1,
                _ => 0,
            },
        ];
        match weighted(&w) {
            0 => {
                s.next();
            }
            1 => {
                let mut style = cut_style;
                if style == 2 && s.wire.len() > 3000 {
                    style = 4;
                }
                let n = simgen::cut(style, &s.wire);
                if n < s.wire.len() {
                    fault("cut");
                }
                s.deliver(n);
            }
            2 => s.produce(),
            3 => s.respond(),
            _ => {
                let k = match s.model.phase {
                    Phase::Auth if chance(5, 6) => draw(2),
                    Phase::IdleAccept if chance(5, 6) => 2 + draw(2),
                    _ => {
                        fault("api-out-of-order");
                        draw(4)
                    }
                };
                s.api(k)
            }
        }
    }
    if !s.dead {
        s.epilogue();
    }
}

fn steps(ctx: &Ctx) -> u32 {
    match (draw(40), ctx.tier) {
        (39, Tier::Quick) => range(200, 1500),
        (39, Tier::Thorough) => range(200, 8000),
        (k, _) if k < 25 => range(5, 60),
        _ => range(20, 200),
    }
}

pub fn server_any(ctx: &Ctx) {
    let anomalies = [0, 1, 4][weighted(&[3, 3, 2])];
    let n = steps(ctx);
    run_mix(ctx, simgen::MIX, anomalies, 100, 1000, Sizes { boundary: 10, big: 90 }, n)
}

/// Literals and commands around small limits.
pub fn server_limits(ctx: &Ctx) {
    let max_literal = [0, 1, 2, 5, 20, 64][draw(6) as usize];
    let max_command = max_literal + [1, 2, 12, 20, 40, 300][draw(6) as usize];
    let anomalies = [0, 1, 3][draw(3) as usize];
    let n = steps(ctx);
    run_mix(
        ctx,
        Mix { plain: 2, literal: 12, auth: 1, idle: 1 },
        anomalies,
        max_literal,
        max_command,
        Sizes { boundary: max_literal, big: max_literal * 2 + 4 },
        n,
    )
}

pub fn server_exchanges(ctx: &Ctx) {
    let anomalies = [0, 1, 2][draw(3) as usize];
    let n = steps(ctx);
    let max_command = [40, 200][draw(2) as usize];
    run_mix(ctx, Mix { plain: 3, literal: 2, auth: 8, idle: 8 }, anomalies, 30, max_command, simgen::SMALL, n)
}

/// Large messages, near and far from the default limits.
pub fn server_big(ctx: &Ctx) {
    let n = range(20, 60);
    let max_literal = [60_000, 65_536, 100_000][draw(3) as usize];
    let max_command = max_literal + [10, 1000, 70_000][draw(3) as usize];
    run_mix(
        ctx,
        Mix { plain: 2, literal: 8, auth: 1, idle: 1 },
        draw(2),
        max_literal,
        max_command,
        Sizes { boundary: max_literal, big: 120_000 },
        n,
    )
}

/// A server whose options were never touched: 25 MiB per literal, 64 KiB more per command.
pub fn server_defaults(ctx: &Ctx) {
    const LIT: usize = 25 * 1024 * 1024;
    let mut sut = Server::new(Options::default(), simgen::greeting(false));
    let mut out = vec![];
    // Takes everything the server has to say about the bytes it got so far
    let mut turn = |sut: &mut Server, bytes: &[u8], out: &mut Vec<u8>| {
        if !bytes.is_empty() {
            sut.enqueue_input(bytes);
        }
        loop {
            match sut.next() {
                Ok(Event::GreetingSent { .. }) => {}
                Ok(e) => return Some(Ok(e)),
                Err(Interrupt::Io(Io::Output(o))) => out.extend(o),
                Err(Interrupt::Io(Io::NeedMoreInput)) => return None,
                Err(Interrupt::Error(e)) => return Some(Err(e)),
            }
        }
    };
    let bad = |class: &str, msg: String| violate(&["C06", "C16"], format!("server-defaults:{class}"), msg);
    turn(&mut sut, b"", &mut out);
    // Now and then, the largest command really arrives
    let whole = chance(1, if ctx.tier == Tier::Quick { 60 } else { 12 });
    if whole && chance(1, 2) {
        // A line without an end
        let most = LIT + 64 * 1024;
        let line = vec![b'x'; most];
        let mut at = 0;
        while at < most {
            let n = (range(1 << 18, 1 << 22) as usize).min(most - at);
            // Up to the very last byte
            let n = if at + n == most && n > 1 { n - 1 } else { n };
            observe(&n.to_le_bytes());
            beat();
            match turn(&mut sut, &line[at..at + n], &mut out) {
                None if at + n < most => {}
                Some(Err(Error::CommandTooLong { discarded_bytes })) if at + n == most && discarded_bytes.declassify().len() == most => {
                    probe("server.default-size-line");
                }
                Some(_) => return bad("line", format!("something happened after {} bytes of a line", at + n)),
                None => return bad("line", format!("nothing happened after {} bytes of a line", at + n)),
            }
            at += n;
        }
        turn(&mut sut, b"\r\n", &mut out);
        out.clear();
    }
    for i in 0..range(1, 6) {
        let size = match draw(6) {
            0 => LIT,
            1 => LIT + 1,
            2 => LIT - 1 - draw(3) as usize,
            3 => LIT + 2 + draw(3) as usize,
            4 => draw(LIT as u32) as usize,
            _ => LIT + draw(1 << 30) as usize,
        };
        let sync = chance(1, 2);
        let head = format!("d{i} APPEND x {{{size}{}}}\r\n", if sync { "" } else { "+" });
        log(|| format!("announce {size} sync={sync}"));
        observe(head.as_bytes());
        out.clear();
        let got = turn(&mut sut, head.as_bytes(), &mut out);
        let o = String::from_utf8_lossy(&out).into_owned();
        if size > LIT {
            probe("server.literal-too-long-error");
            let answer = if sync { format!("d{i} BAD ...\r\n") } else { String::new() };
            match got {
                Some(Err(Error::LiteralTooLong { discarded_bytes })) if discarded_bytes.declassify().as_ref() == head.as_bytes() => {}
                other => return bad("limit", format!("a literal of {size} bytes was not refused: {other:?}")),
            }
            turn(&mut sut, b"", &mut out);
            let o = String::from_utf8_lossy(&out).into_owned();
            if o != answer {
                return bad("refusal", format!("a literal of {size} bytes was answered with {o:?}"));
            }
            continue;
        }
        let want = if sync { "+ ...\r\n" } else { "" };
        if got.is_some() || o != want {
            return bad("limit", format!("a literal of {size} bytes: {got:?}, answered with {o:?}"));
        }
        probe("server.literal-accepted");
        if size > 4096 && !whole {
            return;
        }
        let body = vec![b'x'; size];
        let step = range(1 << 18, 1 << 22) as usize;
        observe(&step.to_le_bytes());
        for piece in body.chunks(step) {
            beat();
            out.clear();
            let got = turn(&mut sut, piece, &mut out);
            if got.is_some() || !out.is_empty() {
                return bad("literal", format!("inside a literal of {size} bytes: {got:?} {}", esc(&out)));
            }
        }
        match turn(&mut sut, b"\r\n", &mut out) {
            Some(Ok(Event::CommandReceived { command })) => match &command.body {
                imap_types::command::CommandBody::Append { message, .. } => {
                    let data: &[u8] = message.as_ref();
                    if data != body {
                        return bad("literal", format!("a literal of {size} bytes arrived with {} bytes or other ones", data.len()));
                    }
                    probe("server.default-size-literal");
                }
                _ => return bad("literal", "another command arrived".into()),
            },
            other => return bad("literal", format!("after a literal of {size} bytes: {}", if other.is_some() { "an error" } else { "nothing" })),
        }
    }
}
