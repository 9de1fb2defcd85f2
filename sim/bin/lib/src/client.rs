//! A client driven sans I/O by a scripted, possibly misbehaving server, in lockstep with the
//! reference model.
use imap_next::client::{Client, CommandHandle, Error, Event, Options};
use imap_next::{Interrupt, Io, State};
use imap_types::auth::AuthenticateData;
use imap_types::command::Command;
use imap_types::core::Tag;
use imap_types::utils::escape_byte_string;
use simcore::harness::{beat, Ctx, Tier};
use simcore::{chance, cover, draw, fault, log, observe, probe, range, violate, weighted};
use simgen::{Mix, Sizes};

use crate::refclient::{CEv, RefClient, Step};

pub fn esc(b: &[u8]) -> String {
    if b.len() > 300 {
        format!("{}...({} bytes)...{}", escape_byte_string(&b[..140]), b.len(), escape_byte_string(&b[b.len() - 60..]))
    } else {
        escape_byte_string(b)
    }
}

struct Sim {
    sut: Client,
    model: RefClient,
    handles: Vec<CommandHandle>,
    /// Bytes handed out / allowed since both last agreed.
    out_sut: Vec<u8>,
    out_ref: Vec<u8>,
    /// Produced by the scripted server, not delivered yet.
    wire: Vec<u8>,
    tags: Vec<Tag<'static>>,
    /// (handle, literals seen) whose go-ahead was produced already.
    answered: bool,
    anomalies: u32,
    cut_style: u32,
    sizes: Sizes,
    dead: bool,
    needs: bool,
    /// Now and then a message of very many literals.
    swarms: bool,
    handed_out: usize,
}

enum Res {
    Output,
    Event,
    Need,
}

impl Sim {
    fn index(&mut self, h: CommandHandle) -> usize {
        let found: Vec<usize> = (0..self.handles.len()).filter(|i| self.handles[*i] == h).collect();
        match found.as_slice() {
            [i] => *i,
            [] => usize::MAX,
            [i, ..] => {
                self.bad(&["C10"], "ambiguous-handle", format!("{h:?} equals the handles of several commands: {found:?}"));
                *i
            }
        }
    }

    fn bad(&mut self, labels: &[&str], class: &str, msg: String) {
        if !self.dead {
            let mut l = labels.to_vec();
            l.push("C16");
            violate(&l, format!("client:{class}"), msg);
            self.dead = true;
        }
    }

    fn convert(&mut self, r: Result<Event, Error>) -> CEv {
        use simgen::*;
        crate::secret::printed(&r, |e| {
            let other = match e {
                Error::ExpectedCrlfGotLf { discarded_bytes: d } => Error::ExpectedCrlfGotLf { discarded_bytes: crate::secret::another(d) },
                Error::MalformedMessage { discarded_bytes: d } => Error::MalformedMessage { discarded_bytes: crate::secret::another(d) },
            };
            other
        });
        match r {
            Ok(Event::GreetingReceived { greeting }) => CEv::Greeting(enc_greeting(&greeting)),
            Ok(Event::CommandSent { handle, command }) => CEv::Sent(self.index(handle), enc_command(&command)),
            Ok(Event::CommandRejected { handle, command, status }) => {
                CEv::Rejected(self.index(handle), enc_command(&command), enc_status(&status))
            }
            Ok(Event::AuthenticateStarted { handle }) => CEv::AuthStarted(self.index(handle)),
            Ok(Event::AuthenticateContinuationRequestReceived { handle, continuation_request }) => {
                CEv::AuthCont(self.index(handle), enc_cont(&continuation_request))
            }
            Ok(Event::AuthenticateStatusReceived { handle, command_authenticate, status }) => CEv::AuthStatus(
                self.index(handle),
                enc_command(&Command::from(command_authenticate)),
                enc_status(&status),
            ),
            Ok(Event::IdleCommandSent { handle }) => CEv::IdleSent(self.index(handle)),
            Ok(Event::IdleAccepted { handle, continuation_request }) => {
                CEv::IdleAccepted(self.index(handle), enc_cont(&continuation_request))
            }
            Ok(Event::IdleRejected { handle, status }) => CEv::IdleRejected(self.index(handle), enc_status(&status)),
            Ok(Event::IdleDoneSent { handle }) => CEv::IdleDone(self.index(handle)),
            Ok(Event::DataReceived { data }) => CEv::Data(enc_data(&data)),
            Ok(Event::StatusReceived { status }) => CEv::Status(enc_status(&status)),
            Ok(Event::ContinuationRequestReceived { continuation_request }) => CEv::Cont(enc_cont(&continuation_request)),
            Err(Error::ExpectedCrlfGotLf { discarded_bytes }) => CEv::BareLf(discarded_bytes.declassify().to_vec()),
            Err(Error::MalformedMessage { discarded_bytes }) => CEv::Malformed(discarded_bytes.declassify().to_vec()),
        }
    }

    /// One `next()` call, compared with the model.
    fn next(&mut self) -> Res {
        let situation = self.model.situation();
        let labels = self.model.output_labels();
        let r = self.sut.next();
        match r {
            Err(Interrupt::Io(Io::Output(b))) => {
                log(|| format!("next -> output \"{}\"", esc(&b)));
                observe(&b);
                if b.is_empty() {
                    self.bad(&["C09", "C03"], "empty-output", "next() asked to write zero bytes".into());
                    return Res::Output;
                }
                self.handed_out += b.len();
                self.out_sut.extend_from_slice(&b);
                let mut labels = labels;
                while self.out_ref.len() < self.out_sut.len() {
                    match self.model.step() {
                        Step::Output(o) => self.out_ref.extend(o),
                        other => {
                            for l in self.model.output_labels() {
                                labels.push(l);
                            }
                            if let Step::Event(e) = &other {
                                labels.extend(e.labels());
                            }
                            let extra = self.out_sut[self.out_ref.len()..].to_vec();
                            self.bad(
                                &labels,
                                &format!("sent-too-much@{situation}"),
                                format!(
                                    "in situation {situation} (now {}) the client handed out \"{}\" although nothing may be sent; expected {}",
                                    self.model.situation(),
                                    esc(&extra),
                                    show(&other)
                                ),
                            );
                            return Res::Output;
                        }
                    }
                }
                if self.out_ref[..self.out_sut.len()] != self.out_sut[..] {
                    let k = self.out_sut.iter().zip(&self.out_ref).take_while(|(a, b)| a == b).count();
                    self.bad(
                        &labels,
                        &format!("wrong-bytes@{situation}"),
                        format!(
                            "in situation {situation} the client handed out \"{}\", expected \"{}\" (differs at byte {k})",
                            esc(&self.out_sut),
                            esc(&self.out_ref)
                        ),
                    );
                }
                Res::Output
            }
            other => {
                let step = if self.out_ref.len() > self.out_sut.len() {
                    Step::Output(self.out_ref[self.out_sut.len()..].to_vec())
                } else {
                    self.model.step()
                };
                self.out_ref.clear();
                self.out_sut.clear();
                let (got, res) = match other {
                    Ok(ev) => (Some(self.convert(Ok(ev))), Res::Event),
                    Err(Interrupt::Error(e)) => (Some(self.convert(Err(e))), Res::Event),
                    Err(Interrupt::Io(_)) => (None, Res::Need),
                };
                let got = got.map_or(Step::Need, Step::Event);
                log(|| format!("next -> {}", show(&got)));
                observe(show(&got).as_bytes());
                let same = match (&got, &step) {
                    (Step::Event(a), Step::Event(b)) => a == b,
                    (Step::Need, Step::Need) => true,
                    _ => false,
                };
                if matches!(got, Step::Need) && !self.model.greeted && !self.model.queue.is_empty() {
                    probe("client.waited-for-greeting");
                }
                if let Step::Event(e) = &got {
                    probe(format!("client.{}", e.kind()));
                    cover(&format!("client {situation} {}", e.kind()));
                }
                if !same {
                    let mut l: Vec<&str> = vec![];
                    for s in [&got, &step] {
                        match s {
                            Step::Event(e) => l.extend(e.labels()),
                            Step::Output(_) => {
                                l.push("C09");
                                l.extend(&labels);
                                l.extend(self.model.output_labels());
                            }
                            Step::Need => l.extend(["C09", "C01"]),
                        }
                    }
                    if matches!(got, Step::Need) {
                        if let Step::Output(_) = step {
                            l.push("C23");
                        }
                    }
                    let k = |s: &Step| match s {
                        Step::Event(e) => e.kind(),
                        Step::Output(_) => "output",
                        Step::Need => "need-input",
                    };
                    self.bad(
                        &l,
                        &format!("{}-instead-of-{}@{situation}", k(&got), k(&step)),
                        format!("in situation {situation} the client reported {}, expected {}", show(&got), show(&step)),
                    );
                }
                self.needs = matches!(res, Res::Need);
                if self.model.situation() != "literal-wait" {
                    self.answered = false;
                }
                res
            }
        }
    }

    fn enqueue(&mut self, c: Command<'static>) {
        let i = self.handles.len();
        log(|| format!("enqueue_command #{i} \"{}\"", esc(&simgen::enc_command(&c))));
        self.tags.push(c.tag.clone());
        let h = self.sut.enqueue_command(c.clone());
        if self.handles.iter().any(|x| *x == h) {
            self.bad(&["C10"], "duplicate-handle", format!("{h:?} was handed out before"));
        }
        self.handles.push(h);
        self.model.queue.push_back((i, c));
    }

    fn deliver(&mut self, n: usize) {
        let b: Vec<u8> = self.wire.drain(..n).collect();
        log(|| format!("enqueue_input \"{}\"", esc(&b)));
        self.sut.enqueue_input(&b);
        self.model.buf.extend_from_slice(&b);
        self.needs = false;
    }

    fn set_auth(&mut self, d: AuthenticateData<'static>) {
        let before = simgen::enc_auth(&d);
        let exp = self.model.set_authenticate_data(before.clone());
        let situation = self.model.situation();
        let got = self.sut.set_authenticate_data(d);
        log(|| format!("set_authenticate_data \"{}\" -> {:?} (model {exp:?})", esc(&before), got.as_ref().map_err(|_| ())));
        match (got, exp) {
            (Ok(h), Some(i)) => {
                self.needs = false;
                probe("client.auth-data");
                let k = self.index(h);
                if k != i {
                    self.bad(&["C07", "C10"], "auth-handle", format!("set_authenticate_data returned handle #{k}, exchange is #{i}"));
                }
            }
            (Err(d), None) => {
                if simgen::enc_auth(&d) != before {
                    self.bad(&["C07"], "auth-data-changed", "set_authenticate_data did not hand its argument back".into());
                }
            }
            (got, exp) => {
                let what = if got.is_ok() { "accepted" } else { "refused" };
                self.bad(
                    &["C07"],
                    &format!("auth-data-{what}"),
                    format!("set_authenticate_data was {what} in situation {situation}, model says {exp:?}"),
                );
            }
        }
    }

    fn set_idle(&mut self) {
        let situation = self.model.situation();
        let exp = self.model.set_idle_done();
        let got = self.sut.set_idle_done().map(|h| self.index(h));
        log(|| format!("set_idle_done -> {got:?}"));
        if got.is_some() {
            self.needs = false;
            probe("client.idle-done");
        }
        if got != exp {
            self.bad(&["C08", "C10"], "idle-done", format!("set_idle_done in situation {situation} gave {got:?}, model says {exp:?}"));
        }
    }

    fn send(&mut self, mut m: Vec<u8>) {
        if self.model.relaxed && chance(1, 3) {
            m = simgen::strip_cr(m);
        } else if !self.model.relaxed && chance(self.anomalies, 40) {
            m = simgen::strip_cr(m);
            fault("bare-line-feed");
        }
        log(|| format!("server sends \"{}\"", esc(&m)));
        self.wire.extend(m);
    }

    fn any_tag(&mut self) -> Tag<'static> {
        if self.tags.is_empty() || chance(1, 4) {
            simgen::tag(draw(4) as usize)
        } else {
            self.tags[draw(self.tags.len() as u32) as usize].clone()
        }
    }

    /// The scripted server reacts to the situation.
    fn produce(&mut self) {
        let a = self.anomalies;
        let cur = self.model.current_tag();
        match self.model.situation() {
            "no-greeting" => {
                if chance(1 + a, 8) {
                    let m = match draw(3) {
                        0 => simgen::garbage(self.sizes, false),
                        1 => simgen::enc_data(&simgen::data(simgen::SMALL, false)),
                        _ => simgen::enc_status(&simgen::status(None, 2, false)),
                    };
                    fault("malformed-greeting");
                    self.send(m)
                } else {
                    let g = simgen::enc_greeting(&simgen::greeting(false));
                    self.send(g)
                }
            }
            "literal-wait" if !self.answered => match weighted(&[10, 3, 1, 1, 2, 1 + a]) {
                0 => {
                    self.answered = true;
                    let m = simgen::enc_cont(&simgen::continuation(false));
                    self.send(m)
                }
                1 => {
                    self.answered = true;
                    let m = simgen::enc_status(&simgen::status(cur, 2, false));
                    fault("literal-rejected");
                    self.send(m)
                }
                2 => {
                    let k = draw(2);
                    let m = simgen::enc_status(&simgen::status(cur, k, false));
                    self.send(m)
                }
                3 => {
                    let t = self.any_tag();
                    let m = simgen::enc_status(&simgen::status(Some(t), 2, false));
                    self.send(m)
                }
                4 => {
                    let m = simgen::enc_status(&simgen::status(None, 2, false));
                    self.send(m)
                }
                _ => self.noise(),
            },
            "auth-wait" | "auth-data-wanted" => match weighted(&[6, 3, 1, 1 + a]) {
                0 => {
                    let m = simgen::enc_cont(&simgen::continuation(false));
                    self.send(m)
                }
                1 => {
                    let k = draw(3);
                    let m = simgen::enc_status(&simgen::status(cur, k, false));
                    self.send(m)
                }
                2 => {
                    let (t, k) = (self.any_tag(), draw(3));
                    let m = simgen::enc_status(&simgen::status(Some(t), k, false));
                    self.send(m)
                }
                _ => self.noise(),
            },
            "idle-wait" | "idling" => match weighted(&[5, 2, 1, 3]) {
                0 => {
                    let m = simgen::enc_cont(&simgen::continuation(false));
                    self.send(m)
                }
                1 => {
                    let k = draw(3);
                    let m = simgen::enc_status(&simgen::status(cur, k, false));
                    self.send(m)
                }
                2 => {
                    let (t, k) = (self.any_tag(), draw(3));
                    let m = simgen::enc_status(&simgen::status(Some(t), k, false));
                    self.send(m)
                }
                _ => self.noise(),
            },
            _ => self.noise(),
        }
    }

    fn noise(&mut self) {
        if self.swarms && chance(1, 30) {
            probe("client.swarm");
            return self.send(simgen::swarm(false));
        }
        let m = match weighted(&[4, 4, 2, 1, 1, self.anomalies, self.anomalies]) {
            0 => {
                let (t, k) = (self.any_tag(), draw(3));
                simgen::enc_status(&simgen::status(Some(t), k, false))
            }
            1 => simgen::enc_data(&simgen::data(self.sizes, false)),
            2 => simgen::enc_status(&simgen::status(None, draw(3), false)),
            3 => simgen::enc_status(&simgen::bye(false)),
            4 => simgen::enc_cont(&simgen::continuation(false)),
            5 => {
                fault("malformed-response");
                simgen::garbage(self.sizes, false)
            }
            _ => {
                fault("second-greeting");
                simgen::enc_greeting(&simgen::greeting(false))
            }
        };
        self.send(m)
    }

    /// Drives to `NeedMoreInput`.
    fn settle(&mut self) {
        for _ in 0..10_000 + 3 * self.model.buf.len() {
            beat();
            if self.dead {
                return;
            }
            if let Res::Need = self.next() {
                return;
            }
        }
        self.bad(&["*"], "no-need", "10000 next() calls in a row without asking for input".into());
    }

    /// After everything, the client must still work.
    fn epilogue(&mut self) {
        let n = self.wire.len();
        self.deliver(n);
        self.settle();
        for _ in 0..40 {
            if self.dead || self.model.buf.is_empty() {
                break;
            }
            // finish whatever a truncated message left behind
            self.wire = vec![b'z'; 64];
            self.wire.extend(b"\r\n");
            let n = self.wire.len();
            self.deliver(n);
            self.settle();
        }
        for _ in 0..1000 {
            if self.dead {
                return;
            }
            let m = match self.model.situation() {
                "no-greeting" => b"* OK hello there\r\n".to_vec(),
                "free" => break,
                "literal-wait" => b"+ go ahead!\r\n".to_vec(),
                _ => {
                    let t = self.model.current_tag().unwrap();
                    format!("{} NO no!\r\n", t.as_str()).into_bytes()
                }
            };
            self.wire = m;
            let n = self.wire.len();
            self.deliver(n);
            self.settle();
        }
        let t = Tag::try_from("ZZ99").unwrap();
        self.enqueue(Command { tag: t, body: imap_types::command::CommandBody::Noop });
        self.settle();
        self.wire = b"ZZ99 OK finished!\r\n* 3 EXISTS\r\n".to_vec();
        let n = self.wire.len();
        self.deliver(n);
        self.settle();
        if !self.dead && self.model.situation() == "free" && self.model.buf.is_empty() {
            probe("client.recovered");
        }
    }
}

fn show(s: &Step) -> String {
    match s {
        Step::Output(b) => format!("output \"{}\"", esc(b)),
        Step::Need => "NeedMoreInput".into(),
        Step::Event(e) => match e {
            CEv::Greeting(b) | CEv::Data(b) | CEv::Status(b) | CEv::Cont(b) | CEv::BareLf(b) | CEv::Malformed(b) => {
                format!("{} \"{}\"", e.kind(), esc(b))
            }
            CEv::Sent(h, b) | CEv::AuthCont(h, b) | CEv::IdleAccepted(h, b) | CEv::IdleRejected(h, b) => {
                format!("{} #{h} \"{}\"", e.kind(), esc(b))
            }
            CEv::Rejected(h, a, b) | CEv::AuthStatus(h, a, b) => {
                format!("{} #{h} \"{}\" \"{}\"", e.kind(), esc(a), esc(b))
            }
            CEv::AuthStarted(h) | CEv::IdleSent(h) | CEv::IdleDone(h) => format!("{} #{h}", e.kind()),
        },
    }
}

pub fn run_mix(ctx: &Ctx, mix: Mix, anomalies: u32, sizes: Sizes, steps: u32) {
    let relaxed = chance(1, 3);
    let mut options = Options::default();
    // Strict is the default
    if relaxed || chance(1, 2) {
        options.crlf_relaxed = relaxed;
    }
    let cut_style = draw(5);
    let mut s = Sim {
        sut: Client::new(options),
        model: RefClient::new(relaxed),
        handles: vec![],
        out_sut: vec![],
        out_ref: vec![],
        wire: vec![],
        tags: vec![],
        answered: false,
        anomalies,
        cut_style,
        sizes,
        dead: false,
        needs: false,
        swarms: chance(1, 120),
        handed_out: 0,
    };
    // How early commands are enqueued, and how prompt the server is.
    let eager = draw(4);
    let most = [6, 40, 300][weighted(&[24, 2, 1])];
    if most > 6 {
        probe("client.long-queue");
    }
    log(|| format!("client crlf_relaxed={relaxed} cut={cut_style} anomalies={anomalies} eager={eager} steps={steps} {:?}", ctx.tier));
    for _ in 0..steps {
        beat();
        if s.dead {
            return;
        }
        let backlog = s.model.queue.len() as u32;
        let w = [
            if s.needs { 1 } else { 10 },                                    // next
            if s.wire.is_empty() { 0 } else { 6 },                           // deliver
            if s.wire.len() > 4000 { 0 } else if s.needs { 5 } else { 1 },   // produce
            if backlog > most { 0 } else if most > 6 { 20 } else { 1 + eager },                         // enqueue
            if s.model.situation() == "auth-data-wanted" { 4 } else if anomalies > 0 { 1 } else { 0 },
            if s.model.situation() == "idling" { 2 } else if anomalies > 0 { 1 } else { 0 },
        ];
        match weighted(&w) {
            0 => {
                s.next();
            }
            1 => {
                let mut style = s.cut_style;
                if style == 2 && s.wire.len() > 3000 {
                    style = 4;
                }
                let n = simgen::cut(style, &s.wire);
                if n < s.wire.len() {
                    fault("cut");
                }
                s.deliver(n);
            }
            2 => s.produce(),
            3 => {
                let n = s.handles.len();
                let n = if chance(1, 12) { draw(n as u32 + 1) as usize } else { n };
                let c = simgen::command(n, mix, s.sizes);
                s.enqueue(c);
            }
            4 => {
                let d = simgen::authenticate_data();
                s.set_auth(d);
            }
            _ => s.set_idle(),
        }
    }
    if !s.dead {
        s.epilogue();
    }
    if s.handed_out > 0 {
        probe("client.sent-something");
    }
}

fn steps(ctx: &Ctx) -> u32 {
    match (draw(40), ctx.tier) {
        (39, Tier::Quick) => range(200, 1500),
        (39, Tier::Thorough) => range(200, 8000),
        (k, _) if k < 25 => range(5, 60),
        _ => range(20, 200),
    }
}

/// Any mix of commands, moderate misbehaviour.
pub fn client_any(ctx: &Ctx) {
    let anomalies = [0, 1, 4][weighted(&[3, 3, 2])];
    let n = steps(ctx);
    run_mix(ctx, simgen::MIX, anomalies, Sizes { boundary: 8, big: 120 }, n)
}

/// Mostly literals.
pub fn client_literals(ctx: &Ctx) {
    let anomalies = [0, 1][draw(2) as usize];
    let n = steps(ctx);
    run_mix(ctx, Mix { plain: 2, literal: 12, auth: 1, idle: 1 }, anomalies, Sizes { boundary: 30, big: 400 }, n)
}

/// Mostly AUTHENTICATE and IDLE.
pub fn client_exchanges(ctx: &Ctx) {
    let anomalies = [0, 1][draw(2) as usize];
    let n = steps(ctx);
    run_mix(ctx, Mix { plain: 3, literal: 2, auth: 8, idle: 8 }, anomalies, simgen::SMALL, n)
}

/// Big literals in both directions.
pub fn client_big(ctx: &Ctx) {
    let n = range(20, 60);
    let big = [5_000, 70_000, 200_000][draw(3) as usize];
    run_mix(ctx, Mix { plain: 2, literal: 8, auth: 1, idle: 1 }, draw(2), Sizes { boundary: 65536, big }, n)
}
