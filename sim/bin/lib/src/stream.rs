//! Streams over simulated connections: byte fidelity, cancellation, TLS, loss, and bulk traffic.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::ErrorKind;
use std::rc::Rc;

use imap_next::stream::{Error, Stream};
use imap_next::{Interrupt, Io, State};
use simcore::exec::{self, End, Sched};
use simcore::harness::Ctx;
use simcore::net::{self, Profile, Socket, WriteFault};
use simcore::{chance, cover, draw, fault, log, observe, probe, range, violate, weighted, with};
use simpeer::{cancel_after, Peer, Version};
use tokio::net::TcpStream;
use tokio_rustls::{TlsAcceptor, TlsConnector};

use crate::client::esc;

/// What passed between a stream and its state machine.
#[derive(Default)]
pub struct TapLog {
    pub input: Vec<u8>,
    pub output: Vec<u8>,
    /// Events and errors handed to the stream.
    pub emitted: usize,
}

pub struct Tap<S> {
    pub inner: S,
    pub log: Rc<RefCell<TapLog>>,
}

impl<S> Tap<S> {
    pub fn new(inner: S) -> Self {
        Tap { inner, log: Rc::default() }
    }
}

impl<S: State> State for Tap<S> {
    type Event = S::Event;
    type Error = S::Error;
    fn enqueue_input(&mut self, bytes: &[u8]) {
        observe(bytes);
        log(|| format!("  input \"{}\"", esc(bytes)));
        self.log.borrow_mut().input.extend_from_slice(bytes);
        self.inner.enqueue_input(bytes)
    }
    fn next(&mut self) -> Result<S::Event, Interrupt<S::Error>> {
        let r = self.inner.next();
        match &r {
            Err(Interrupt::Io(Io::Output(b))) => {
                observe(b);
                log(|| format!("  output \"{}\"", esc(b)));
                self.log.borrow_mut().output.extend_from_slice(b);
            }
            Err(Interrupt::Io(Io::NeedMoreInput)) => log(|| "  needs input".to_string()),
            Ok(_) | Err(Interrupt::Error(_)) => self.log.borrow_mut().emitted += 1,
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Link {
    Plain,
    Tls(Version),
}

pub fn draw_link(ctx: &Ctx) -> Link {
    let plain = if ctx.prop == "C13" { 0 } else { 3 };
    let link = match weighted(&[plain, 2, 1]) {
        0 => Link::Plain,
        1 => Link::Tls(Version::V13),
        _ => Link::Tls(Version::V12),
    };
    if link != Link::Plain {
        probe("tls");
    }
    link
}

pub fn draw_sched() {
    let s = [Sched::Fifo, Sched::Uniform, Sched::EagerNet, Sched::Lifo, Sched::Starve][draw(5) as usize];
    with(|w| {
        w.exec.sched = Some(s);
        w.exec.step_cap = 3_000_000;
    });
}

/// How much traffic a connection of this shape can carry in reasonable simulation time.
fn volume(p: &[Profile]) -> u32 {
    let slow = p.iter().any(|p| p.chunk == 1 || p.tx_cap <= 7 || p.rx_cap <= 7);
    let medium = p.iter().any(|p| p.chunk == 2 || p.tx_cap <= 300 || p.rx_cap <= 300);
    if slow {
        1_200
    } else if medium {
        8_000
    } else {
        150_000
    }
}

/// The stream under test on one end of a connection.
pub async fn sut_stream(sock: Socket, link: Link, client: bool) -> std::io::Result<Stream> {
    let tcp = TcpStream::from_sim(sock);
    match link {
        Link::Plain => Ok(Stream::insecure(tcp)),
        Link::Tls(v) if client => {
            let name = rustls::pki_types::ServerName::try_from("localhost").unwrap();
            let s = TlsConnector::from(simpeer::client_config(v)).connect(name, tcp).await?;
            Ok(Stream::tls(s.into()))
        }
        Link::Tls(v) => {
            let s = TlsAcceptor::from(simpeer::server_config(v)).accept(tcp).await?;
            Ok(Stream::tls(s.into()))
        }
    }
}

pub fn peer_for(sock: Socket, link: Link, sut_is_client: bool) -> Peer {
    match link {
        Link::Plain => Peer::plain(sock),
        Link::Tls(v) if sut_is_client => Peer::tls_server(sock, simpeer::server_config(v)),
        Link::Tls(v) => Peer::tls_client(sock, v, "localhost"),
    }
}

/// Which properties a failure in this kind of run speaks against.
fn labels(link: Link, cancelled: bool, mut extra: Vec<&'static str>) -> Vec<&'static str> {
    if link != Link::Plain {
        extra.push("C13");
    }
    if cancelled {
        extra.push("C12");
    }
    extra
}

// ---- a state machine that only moves bytes -----------------------------------------------------

#[derive(Debug, PartialEq, Eq)]
pub enum Ev {
    /// The n-th message arrived.
    Message(usize),
    /// Everything enqueued was handed out.
    Drained,
}

/// Messages are a two-byte length and a payload; a payload starting with 0xEE is an error.
#[derive(Default)]
pub struct Mover {
    input: Vec<u8>,
    pos: usize,
    count: usize,
    out: VecDeque<Vec<u8>>,
    owes_drained: bool,
    output_first: bool,
}

impl State for Mover {
    type Event = Ev;
    type Error = usize;
    fn enqueue_input(&mut self, bytes: &[u8]) {
        self.input.extend_from_slice(bytes);
    }
    fn next(&mut self) -> Result<Ev, Interrupt<usize>> {
        if self.output_first {
            if let Some(o) = self.out.pop_front() {
                return Err(Interrupt::Io(Io::Output(o)));
            }
        }
        let rest = &self.input[self.pos..];
        if rest.len() >= 2 {
            let n = u16::from_be_bytes([rest[0], rest[1]]) as usize;
            if rest.len() >= 2 + n {
                let bad = n > 0 && rest[2] == 0xEE;
                self.pos += 2 + n;
                self.count += 1;
                return if bad { Err(Interrupt::Error(self.count)) } else { Ok(Ev::Message(self.count)) };
            }
        }
        if let Some(o) = self.out.pop_front() {
            return Err(Interrupt::Io(Io::Output(o)));
        }
        if self.owes_drained {
            self.owes_drained = false;
            return Ok(Ev::Drained);
        }
        Err(Interrupt::Io(Io::NeedMoreInput))
    }
}

impl Mover {
    fn push(&mut self, o: Vec<u8>) {
        self.out.push_back(o);
        self.owes_drained = true;
    }
}

/// A sequence of messages totalling about `total` bytes; returns the bytes and each message's end.
fn messages(total: u32) -> (Vec<u8>, Vec<usize>) {
    let mut v = Vec::new();
    let mut ends = Vec::new();
    let n = range(0, 12);
    for _ in 0..n {
        let len = match weighted(&[4, 2, 1, 1]) {
            0 => draw(40),
            1 => draw(1 + (total / 8).min(2000)),
            2 => draw(1 + (total / 4).min(60_000)),
            _ => [0, 1, 127, 128, 129, 255, 256, 4096][draw(8) as usize].min(total),
        } as usize;
        if v.len() + len > total as usize + 100 {
            break;
        }
        v.extend((len as u16).to_be_bytes());
        let body = simgen::bytes(len);
        let at = v.len();
        v.extend(body);
        if len > 0 && chance(1, 12) {
            v[at] = 0xEE;
        }
        ends.push(v.len());
    }
    (v, ends)
}

fn chunks(total: u32) -> Vec<Vec<u8>> {
    let mut left = total as usize;
    (0..range(0, 8))
        .map_while(|_| {
            let len = match weighted(&[5, 2, 2, 1]) {
                0 => range(1, 60) as usize,
                1 => range(1, (total / 4).clamp(1, 5000)) as usize,
                2 => [16383, 16384, 16385, 65535, 65536, 65537, 70000][draw(7) as usize],
                _ => range(1, total.max(1)) as usize,
            };
            let len = len.min(left);
            left -= len;
            (len > 0).then(|| simgen::bytes(len))
        })
        .collect()
}

// ---- scripted peer -----------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Act {
    Send(Vec<u8>),
    /// Neither read nor write for a while.
    Sleep(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Finish {
    /// Stay connected, keep reading.
    Stay,
    /// Orderly: TLS goodbye (if any) and end of stream; keeps reading.
    Orderly,
    /// TLS goodbye, but the connection stays open.
    GoodbyeOnly,
    /// End of stream without TLS goodbye.
    FinOnly,
    /// Close the socket.
    Close,
    Reset,
}

type SharedPeer = Rc<RefCell<Peer>>;

async fn progress(p: &SharedPeer) {
    std::future::poll_fn(|cx| p.borrow_mut().poll_progress(cx)).await
}

async fn peer_task(p: SharedPeer, early: usize, acts: Vec<Act>, finish: Finish) {
    let mut acts: VecDeque<Act> = acts.into();
    for _ in 0..early {
        if let Some(Act::Send(_)) = acts.front() {
            let Some(Act::Send(b)) = acts.pop_front() else { unreachable!() };
            p.borrow_mut().queue(&b);
        }
    }
    while p.borrow().handshaking() && !p.borrow().dead() {
        progress(&p).await;
    }
    for a in acts {
        match a {
            Act::Send(b) => {
                p.borrow_mut().queue(&b);
                while p.borrow().queued() > 0 && p.borrow().broken.is_none() && p.borrow().is_open() {
                    progress(&p).await;
                }
            }
            Act::Sleep(ns) => exec::sleep_ns(ns).await,
        }
    }
    if matches!(finish, Finish::Orderly | Finish::GoodbyeOnly) {
        p.borrow_mut().queue_close_notify();
    }
    while p.borrow().queued() > 0 && p.borrow().broken.is_none() && p.borrow().is_open() {
        progress(&p).await;
    }
    log(|| format!("peer: {finish:?}"));
    match finish {
        Finish::Stay | Finish::GoodbyeOnly => {}
        Finish::Orderly | Finish::FinOnly => {
            p.borrow().fin();
            fault("peer.fin");
        }
        Finish::Close => {
            p.borrow_mut().close();
            fault("peer.close");
        }
        Finish::Reset => p.borrow_mut().reset(),
    }
    if finish == Finish::GoodbyeOnly {
        fault("peer.close_notify_without_fin");
    }
    while p.borrow().is_open() && p.borrow().seen.is_none() {
        progress(&p).await;
    }
}

/// Split into pieces and interleave with pauses.
fn script(data: &[u8]) -> Vec<Act> {
    let style = draw(5);
    let mut acts = Vec::new();
    let mut rest = data;
    while !rest.is_empty() {
        let n = match style {
            0 => rest.len(),
            1 => range(1, rest.len() as u32) as usize,
            2 if rest.len() < 80 => 1,
            3 => (range(1, 17_000) as usize).min(rest.len()),
            _ => range(1, rest.len().min(300).max(rest.len() / 8) as u32) as usize,
        };
        acts.push(Act::Send(rest[..n].to_vec()));
        rest = &rest[n..];
        if chance(1, 6) {
            acts.push(Act::Sleep([1_000_000, 300_000_000, 20_000_000_000][draw(3) as usize]));
        }
    }
    acts
}

// ---- the stream with a byte mover against a scripted peer ----------------------------------------

fn mover_run(ctx: &Ctx, finish: Finish, faults: bool) {
    let link = draw_link(ctx);
    let link = if finish == Finish::GoodbyeOnly && link == Link::Plain { Link::Tls(Version::V13) } else { link };
    if link != Link::Plain {
        probe("tls");
    }
    let sut_client = chance(1, 2);
    draw_sched();
    let (pa, pb) = (net::draw_profile(), net::draw_profile());
    let vol = volume(&[pa, pb]);
    let (sut_sock, peer_sock) = net::pair(pa, pb);
    let (out_pipe, in_pipe) = (sut_sock.out, sut_sock.inc);

    let (incoming, ends) = messages(vol);
    let cut = if finish != Finish::Stay && chance(1, 2) && !incoming.is_empty() {
        draw(incoming.len() as u32) as usize
    } else {
        incoming.len()
    };
    let complete = ends.iter().filter(|e| **e <= cut).count();
    let acts = script(&incoming[..cut]);
    let early = if link != Link::Plain && chance(1, 2) { range(1, 3) as usize } else { 0 };
    let plan: VecDeque<Vec<u8>> = chunks(vol).into();
    let cancels = [0, 0, 12, 40][draw(4) as usize];
    let corrupt = faults && link != Link::Plain && finish != Finish::Stay && chance(1, 3);
    let read_fault = faults && !corrupt && chance(1, 2);
    let write_fault = faults && !corrupt && !read_fault;
    cover(&format!("mover {link:?} {finish:?} cut={} early={} c={corrupt} r={read_fault} w={write_fault}", cut < incoming.len(), early > 0));
    log(|| {
        format!(
            "link {link:?}, stream is the {}, peer sends {} bytes ({complete} complete messages) then {finish:?}, stream side sends {:?}",
            if sut_client { "client" } else { "server" },
            cut,
            plan.iter().map(|c| c.len()).collect::<Vec<_>>()
        )
    });

    let p: SharedPeer = Rc::new(RefCell::new(peer_for(peer_sock, link, sut_client)));
    let peer_id = exec::spawn_env("peer", peer_task(p.clone(), early, acts, finish));

    let mut tap = Tap::new(Mover { output_first: chance(1, 3), ..Mover::default() });
    let taplog = tap.log.clone();
    let cancelled_any = Rc::new(RefCell::new(false));
    let ca = cancelled_any.clone();
    let incoming2 = incoming.clone();
    let n_messages = ends.len();
    // Outcome of the stream side: None while running.
    let outcome: Rc<RefCell<Option<String>>> = Rc::default();
    let oc = outcome.clone();
    let kept: Rc<RefCell<Option<Stream>>> = Rc::default();
    let reported_total: Rc<RefCell<usize>> = Rc::default();
    let rt = reported_total.clone();
    let kept2 = kept.clone();
    let peer2 = p.clone();

    let sut_id = exec::spawn_env("stream", async move {
        let mut stream = match sut_stream(sut_sock, link, sut_client).await {
            Ok(s) => s,
            Err(e) => {
                log(|| format!("handshake failed: {e}"));
                *oc.borrow_mut() = Some(format!("handshake:{:?}", e.kind()));
                return;
            }
        };
        let base = with(|w| {
            let (r, wr) = (w.net.pipes[in_pipe].read, w.net.pipes[out_pipe].written);
            (r, wr)
        });
        if read_fault {
            let at = base.0 + draw(cut as u32 + 40) as u64;
            let kind = FAULTS[draw(FAULTS.len() as u32) as usize];
            with(|w| w.net.pipes[in_pipe].read_fault = Some((at, kind)));
        }
        if write_fault {
            let at = base.1 + draw(plan.iter().map(|p| p.len() as u32).sum::<u32>() + 1) as u64;
            let f = match draw(3) {
                0 | 1 => WriteFault::Error(FAULTS[draw(FAULTS.len() as u32) as usize]),
                _ => WriteFault::Zero,
            };
            with(|w| w.net.pipes[out_pipe].write_fault = Some((at, f)));
        }
        if corrupt {
            with(|w| {
                let p = &mut w.net.pipes[in_pipe];
                p.corrupt_at = Some(p.delivered + w.src.draw(cut as u32 + 60) as u64);
            });
        }
        let mut plan = plan;
        let mut reported = 0usize;
        let mut returned = 0usize;
        let mut drained_due = false;
        let mut cancels = cancels;
        let tl = tap.log.clone();
        let end = loop {
            if !plan.is_empty() && chance(1, 2) {
                tap.inner.push(plan.pop_front().unwrap());
                drained_due = true;
            }
            let all_in = finish == Finish::Stay && !faults && reported == n_messages;
            if all_in && !drained_due {
                if plan.is_empty() {
                    break None;
                }
                continue;
            }
            let budget = (cancels > 0 && chance(1, 3)).then(|| {
                cancels -= 1;
                draw(3)
            });
            if chance(1, 24) {
                exec::sleep_ns([1_000_000, 40_000_000_000][draw(2) as usize]).await;
            }
            if chance(1, 6) {
                log(|| "stream: flush".to_string());
                let r = cancel_after(stream.flush(), budget).await;
                match r {
                    None => *ca.borrow_mut() = true,
                    Some(Err(e)) => break Some(describe(&e)),
                    Some(Ok(())) => {
                        probe("stream.flushed");
                        let handed = tl.borrow().output.len() as u64;
                        let written = with(|w| w.net.pipes[out_pipe].written) - base.1;
                        if link == Link::Plain && written != handed {
                            violate(
                                &labels(link, *ca.borrow(), vec!["C11"]),
                                "stream:flush-incomplete",
                                format!("flush succeeded after {written} of {handed} bytes were passed to the transport"),
                            );
                            return;
                        }
                        if link != Link::Plain && finish == Finish::Stay && !faults && chance(1, 2) {
                            // Everything on the wire reached the peer: it must have everything.
                            for _ in 0..200 {
                                let consumed = with(|w| w.net.pipes[out_pipe].written == w.net.pipes[out_pipe].read);
                                let got = peer2.borrow().got.len() as u64;
                                if consumed {
                                    if got != handed {
                                        violate(
                                            &labels(link, *ca.borrow(), vec!["C11"]),
                                            "stream:flush-incomplete",
                                            format!("after a successful flush the peer read the whole TLS stream but got {got} of {handed} bytes"),
                                        );
                                        return;
                                    }
                                    break;
                                }
                                exec::sleep_ns(500_000_000).await;
                            }
                        }
                    }
                }
                continue;
            }
            log(|| format!("stream: next{}", budget.map(|b| format!(" (dropped after {b} waits)")).unwrap_or_default()));
            let r = cancel_after(stream.next(&mut tap), budget).await;
            let event = match r {
                None => {
                    *ca.borrow_mut() = true;
                    None
                }
                Some(Ok(e)) => Some(e),
                Some(Err(Error::State(n))) => Some(Ev::Message(n)),
                Some(Err(e)) => {
                    let d = describe(&e);
                    log(|| format!("stream: error {d}"));
                    if !faults && finish != Finish::Stay {
                        // The error persists: further calls report it again instead of hanging, and
                        // no message turns up late.
                        let mut errors = 0;
                        for _ in 0..60 {
                            match stream.next(&mut tap).await {
                                Ok(Ev::Drained) => {}
                                Ok(Ev::Message(n)) | Err(Error::State(n)) => {
                                    if !matches!(finish, Finish::Close | Finish::Reset) {
                                        violate(
                                            &labels(link, *ca.borrow(), vec!["C14"]),
                                            "stream:event-after-error",
                                            format!("the stream reported {d} before it delivered message {n}, which had arrived"),
                                        );
                                        return;
                                    }
                                }
                                Err(e) => {
                                    log(|| format!("stream: again {}", describe(&e)));
                                    errors += 1;
                                    if errors == 2 {
                                        break;
                                    }
                                }
                            }
                        }
                        if errors == 0 {
                            violate(
                                &labels(link, *ca.borrow(), vec!["C14"]),
                                "stream:error-forgotten",
                                format!("after the error {d} the stream keeps returning events"),
                            );
                        }
                    }
                    break Some(d);
                }
            };
            if let Some(e) = event {
                returned += 1;
                log(|| format!("stream: {e:?}"));
                match e {
                    Ev::Message(n) => {
                        reported += 1;
                        *rt.borrow_mut() += 1;
                        probe("stream.message");
                        if n != reported {
                            violate(
                                &labels(link, *ca.borrow(), vec!["C11", "C14"]),
                                "stream:event-lost",
                                format!("event for message {n} returned as number {reported}"),
                            );
                            return;
                        }
                    }
                    Ev::Drained => drained_due = false,
                }
            }
            if returned != tl.borrow().emitted {
                violate(
                    &labels(link, *ca.borrow(), vec!["C11"]),
                    "stream:event-lost",
                    format!("the state machine produced {} events, the stream returned {returned}", tl.borrow().emitted),
                );
                return;
            }
        };
        let outcome = match end {
            Some(e) => e,
            None => match stream.flush().await {
                Ok(()) => "done".to_string(),
                Err(e) => describe(&e),
            },
        };
        log(|| format!("stream side ends: {outcome}"));
        *oc.borrow_mut() = Some(outcome);
        *kept2.borrow_mut() = Some(stream);
    });

    let end = exec::run_until(sut_id);
    let cancelled = *cancelled_any.borrow();
    let lab = |x: Vec<&'static str>| labels(link, cancelled, x);
    if simcore::failed() {
        return;
    }
    let tl = taplog.borrow();
    if !incoming2[..cut].starts_with(&tl.input) {
        return violate(
            &lab(vec!["C11", "C14"]),
            "stream:input-differs",
            format!("the state machine received something else than the peer sent: {}", first_difference(&tl.input, &incoming2[..cut])),
        );
    }
    let what = outcome.borrow().clone();
    let hit = with(|w| w.net.pipes[in_pipe].fault_hit || w.net.pipes[out_pipe].fault_hit);
    if hit && matches!((end, what.as_deref()), (End::Quiescent, _) | (End::Done, Some("done"))) {
        return violate(
            &lab(vec!["C14"]),
            "stream:fault-swallowed",
            "a read or write of the connection failed, but no call reported it".to_string(),
        );
    }
    match (end, what.as_deref()) {
        (End::StepCap, _) => {
            return violate(&lab(vec!["C11", "C14", "C15"]), "stream:spins", "the stream keeps the simulation busy without finishing".to_string())
        }
        (End::Quiescent, _) => {
            if finish == Finish::Stay && faults && !corrupt {
                // Nothing more to read or write: the injected fault was never reached.
                probe("stream.fault-not-reached");
            } else {
                return violate(
                    &lab(vec!["C11", "C14", "C15"]),
                    format!("stream:hangs@{finish:?}"),
                    format!(
                        "a stream call is pending although nothing more will happen: peer {finish:?}, {} of {cut} bytes given to the state machine, {} handed out, {} received by the peer",
                        tl.input.len(),
                        tl.output.len(),
                        p.borrow().got.len()
                    ),
                );
            }
        }
        (End::Done, Some("done")) => {
            if tl.input.len() != cut {
                return violate(&lab(vec!["C11"]), "stream:input-differs", "input missing at the end".to_string());
            }
            // The peer keeps reading: everything handed out and flushed must reach it.
            let e = exec::run_until(peer_id);
            let got = p.borrow().got.clone();
            if got != tl.output {
                return violate(
                    &lab(vec!["C11"]),
                    "stream:output-differs",
                    format!("({e:?}) the peer received something else than was handed out: {}", first_difference(&got, &tl.output)),
                );
            }
            probe("stream.complete");
        }
        (End::Done, Some(err)) => {
            let handshake = err.starts_with("handshake:");
            probe(format!("stream.error.{}", err.split(':').next().unwrap_or("?")));
            if finish == Finish::Stay && !faults {
                return violate(
                    &lab(vec!["C11", "C14"]),
                    format!("stream:spurious-error:{}", err.split(':').next().unwrap_or("?")),
                    format!("the connection is fine but the stream reported {err}"),
                );
            }
            let orderly = matches!(finish, Finish::Orderly | Finish::GoodbyeOnly | Finish::FinOnly) && !faults;
            if orderly && !handshake {
                probe("stream.orderly-end");
                let reported = *reported_total.borrow();
                if reported < complete {
                    return violate(
                        &lab(vec!["C14", "C11"]),
                        format!("stream:lost-before-end@{finish:?}"),
                        format!("{reported} of {complete} messages that had arrived were delivered before the stream reported {err}"),
                    );
                }
                if finish != Finish::FinOnly && err != "closed" || (link == Link::Plain && err != "closed") {
                    return violate(
                        &lab(vec!["C14"]),
                        "stream:wrong-end",
                        format!("an orderly end ({finish:?}) was reported as {err}"),
                    );
                }
            }
            if cut < incoming2.len() {
                probe("stream.truncated");
            }
        }
        (End::Done, None) => {}
    }
    let got = &p.borrow().got;
    if !tl.output.starts_with(got) {
        violate(
            &lab(vec!["C11"]),
            "stream:output-differs",
            format!("the peer received something else than was handed out: {}", first_difference(got, &tl.output)),
        );
    }
    drop(kept);
}

pub fn describe<E>(e: &Error<E>) -> String {
    match e {
        Error::Closed => "closed".into(),
        Error::Io(e) => format!("io:{:?}", e.kind()),
        Error::Tls(e) => format!("tls:{e}"),
        Error::State(_) => "state".into(),
    }
}

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| esc(&v[n.saturating_sub(10).min(v.len())..(n + 30).min(v.len())]);
    format!("lengths {} and {}, equal up to {n}, then \"{}\" instead of \"{}\"", a.len(), b.len(), cut(a), cut(b))
}

/// What a read or write of a connection really can fail with.
const FAULTS: [ErrorKind; 8] = [
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::HostUnreachable,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

pub fn stream_carry(ctx: &Ctx) {
    mover_run(ctx, Finish::Stay, false)
}
pub fn stream_ends(ctx: &Ctx) {
    let f = [Finish::Orderly, Finish::FinOnly, Finish::GoodbyeOnly, Finish::Close, Finish::Reset][weighted(&[4, 2, 2, 1, 2])];
    mover_run(ctx, f, false)
}
pub fn stream_faults(ctx: &Ctx) {
    let f = [Finish::Stay, Finish::Orderly, Finish::Close, Finish::Reset][weighted(&[3, 2, 1, 1])];
    mover_run(ctx, f, true)
}

// ---- both ends under test, both sending in bulk -------------------------------------------------

pub fn stream_bulk(ctx: &Ctx) {
    let link = draw_link(ctx);
    draw_sched();
    let prof = || {
        let mut p = net::draw_profile();
        p.tx_cap = [4096, 300, 40, 1000][draw(4) as usize];
        p.rx_cap = [4096, 300, 40, 1000][draw(4) as usize];
        p.chunk = if p.tx_cap.min(p.rx_cap) > 40 { p.chunk.min(3) * (p.chunk != 1) as u32 } else { p.chunk };
        p
    };
    let (pa, pb) = (prof(), prof());
    let (a, b) = net::pair(pa, pb);
    let caps = pa.tx_cap + pa.rx_cap + pb.tx_cap + pb.rx_cap;
    let totals = [caps as u32 + draw(caps as u32 * 2), caps as u32 + draw(caps as u32 * 2)];
    cover(&format!("bulk {link:?} {} {}", pa.tx_cap, pb.tx_cap));
    let one = |total: u32| -> (Vec<Vec<u8>>, usize) {
        // Messages of the mover's format, handed out in pieces.
        let mut all = Vec::new();
        let mut n = 0;
        while all.len() < total as usize {
            let len = range(1, 2000).min(total) as usize;
            all.extend((len as u16).to_be_bytes());
            let at = all.len();
            all.extend(simgen::bytes(len));
            if all[at] == 0xEE {
                all[at] = 0;
            }
            n += 1;
        }
        let piece = [all.len(), 1 + all.len() / 3, 700, 64][draw(4) as usize];
        (all.chunks(piece).map(|c| c.to_vec()).collect(), n)
    };
    let plans = [one(totals[0]), one(totals[1])];
    let cancels = [0, 0, 10, 30][draw(4) as usize];
    let done = Rc::new(RefCell::new(0));
    let logs: [Rc<RefCell<TapLog>>; 2] = Default::default();
    let cancelled = Rc::new(RefCell::new(false));
    let expect = [plans[1].1, plans[0].1];
    let mut ids = Vec::new();
    let keep: Rc<RefCell<Vec<Stream>>> = Rc::default();
    for (i, (sock, plan)) in [(a, plans[0].0.clone()), (b, plans[1].0.clone())].into_iter().enumerate() {
        let done = done.clone();
        let tlog = logs[i].clone();
        let expect = expect[i];
        let keep = keep.clone();
        let cancelled = cancelled.clone();
        ids.push(exec::spawn_env(format!("side{i}"), async move {
            let mut stream = match sut_stream(sock, link, i == 0).await {
                Ok(s) => s,
                Err(e) => {
                    violate(&["C13"], "stream:handshake", format!("handshake failed: {e}"));
                    return;
                }
            };
            let mut tap = Tap { inner: Mover { output_first: chance(1, 2), ..Mover::default() }, log: tlog };
            for c in plan {
                tap.inner.push(c);
            }
            let mut got = 0;
            let mut drained = false;
            let mut cancels = cancels;
            while got < expect || !drained {
                let budget = (cancels > 0 && chance(1, 4)).then(|| {
                    cancels -= 1;
                    draw(4)
                });
                match cancel_after(stream.next(&mut tap), budget).await {
                    None => *cancelled.borrow_mut() = true,
                    Some(Ok(Ev::Message(_))) => got += 1,
                    Some(Ok(Ev::Drained)) => drained = true,
                    Some(Err(e)) => {
                        violate(
                            &labels(link, *cancelled.borrow(), vec!["C11", "C15"]),
                            "stream:spurious-error",
                            format!("side {i} failed on a healthy connection: {}", describe(&e)),
                        );
                        return;
                    }
                }
            }
            if let Err(e) = stream.flush().await {
                violate(&labels(link, *cancelled.borrow(), vec!["C11", "C15"]), "stream:spurious-error", describe(&e));
            }
            *done.borrow_mut() += 1;
            keep.borrow_mut().push(stream);
        }));
    }
    let mut end = exec::run_until(ids[0]);
    if end == End::Done {
        end = exec::run_until(ids[1]);
    }
    if simcore::failed() {
        return;
    }
    let c = *cancelled.borrow();
    let (l0, l1) = (logs[0].borrow(), logs[1].borrow());
    for (from, to, name) in [(&l0, &l1, "first to second"), (&l1, &l0, "second to first")] {
        if !from.output.starts_with(&to.input) {
            return violate(
                &labels(link, c, vec!["C11", "C15"]),
                "stream:input-differs",
                format!("{name}: {}", first_difference(&to.input, &from.output)),
            );
        }
    }
    if *done.borrow() != 2 {
        return violate(
            &labels(link, c, vec!["C15", "C11"]),
            if end == End::StepCap { "stream:bulk-spins" } else { "stream:bulk-deadlock" },
            format!(
                "both sides keep driving their streams but {end:?}: {} of {} and {} of {} bytes arrived",
                l1.input.len(),
                plans[0].0.iter().map(|c| c.len()).sum::<usize>(),
                l0.input.len(),
                plans[1].0.iter().map(|c| c.len()).sum::<usize>()
            ),
        );
    }
    if l0.output != l1.input || l1.output != l0.input {
        return violate(&labels(link, c, vec!["C15", "C11"]), "stream:output-differs", "not everything arrived".to_string());
    }
    probe("stream.bulk-exchanged");
}
