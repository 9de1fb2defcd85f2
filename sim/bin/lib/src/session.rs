//! Whole sessions: the real client and the real server, each on its own stream, over a simulated
//! connection; and either of them against a scripted peer that cuts the connection.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

use imap_next::client::{self, Client, CommandHandle};
use imap_next::server::{self, Server};
use imap_next::stream::{Error, Stream};
use imap_types::command::{Command, CommandBody};
use imap_types::core::{Tag, Text};
use imap_types::response::{Response, Status};
use simcore::exec::{self, End};
use simcore::harness::{Ctx, Tier};
use simcore::net;
use simcore::{chance, cover, draw, fault, log, probe, range, violate, weighted, with};
use simgen::*;
use simpeer::{cancel_after, timeout, Peer};

use crate::client::esc;
use crate::stream::{describe, draw_link, draw_sched, first_difference, sut_stream, Link, Tap, TapLog};

#[derive(Default)]
struct Record {
    /// What the client enqueued / the server's application enqueued, encoded, in order.
    sent: Vec<Vec<u8>>,
    /// What arrived as events, encoded, in order.
    seen: Vec<Vec<u8>>,
    /// Handle-carrying "sent" events, in order.
    confirmed: usize,
    ended: Option<String>,
}
type Shared = Rc<RefCell<Record>>;

fn labels(link: Link, cancelled: bool, mut l: Vec<&'static str>) -> Vec<&'static str> {
    if link != Link::Plain {
        l.push("C13");
    }
    if cancelled {
        l.push("C12");
    }
    l
}

struct Cancels {
    left: u32,
    used: Rc<RefCell<bool>>,
}
impl Cancels {
    fn budget(&mut self) -> Option<u32> {
        (self.left > 0 && chance(1, 3)).then(|| {
            self.left -= 1;
            draw(3)
        })
    }
    fn note(&self) {
        *self.used.borrow_mut() = true;
    }
}

async fn pause() {
    match draw(12) {
        10 => exec::yield_now().await,
        11 => exec::sleep_ns([1_000_000, 5_000_000_000][draw(2) as usize]).await,
        _ => {}
    }
}

fn tagged(tag: Tag<'static>) -> Status<'static> {
    status(Some(tag), weighted(&[6, 1]) as u32, false)
}

struct ClientSide {
    rec: Shared,
    log: Rc<RefCell<TapLog>>,
    commands: Vec<Command<'static>>,
    cancels: Cancels,
    closes: bool,
    keep: Rc<RefCell<Vec<Stream>>>,
}

async fn client_side(stream: Stream, c: ClientSide) {
    let mut stream = stream;
    let rec = c.rec;
    let mut cancels = c.cancels;
    let mut tap = Tap { inner: Client::new(client::Options::default()), log: c.log };
    let mut todo: VecDeque<Command<'static>> = c.commands.into();
    let mut open: Vec<(CommandHandle, Tag<'static>, Vec<u8>)> = Vec::new();
    let mut idle_done = false;
    let end = loop {
        while !todo.is_empty() && (open.is_empty() || chance(1, 2)) {
            let cmd = todo.pop_front().unwrap();
            log(|| format!("client enqueues {}", esc(&enc_command(&cmd))));
            let tag = cmd.tag.clone();
            let enc = enc_command(&cmd);
            let h = tap.inner.enqueue_command(cmd);
            open.push((h, tag, enc));
        }
        if idle_done && chance(1, 2) {
            idle_done = false;
            tap.inner.set_idle_done();
        }
        if todo.is_empty() && open.is_empty() && c.closes {
            break None;
        }
        pause().await;
        if cancels.left > 0 && chance(1, 8) {
            // Flushing does not read: with both sides waiting to write it would never end.
            match timeout(cancel_after(stream.flush(), cancels.budget()), 1_000_000_000).await.flatten() {
                None => cancels.note(),
                Some(Ok(())) => {}
                Some(Err(e)) => break Some(describe(&e)),
            }
            continue;
        }
        let mut budget = cancels.budget();
        if idle_done {
            // Stay in IDLE for a little while only.
            if cancels.left > 0 && chance(1, 2) {
                cancels.left -= 1;
                budget = Some(0);
            } else {
                idle_done = false;
                tap.inner.set_idle_done();
            }
        }
        let ev = match cancel_after(stream.next(&mut tap), budget).await {
            None => {
                cancels.note();
                continue;
            }
            Some(Ok(e)) => e,
            Some(Err(Error::State(e))) => break Some(format!("state:{e:?}")),
            Some(Err(e)) => break Some(describe(&e)),
        };
        use client::Event::*;
        let mut r = rec.borrow_mut();
        let mut finished: Option<Tag<'static>> = None;
        match ev {
            GreetingReceived { greeting } => r.seen.push(enc_greeting(&greeting)),
            CommandSent { handle, .. } | IdleCommandSent { handle } | AuthenticateStarted { handle } => {
                // In the order they were sent: authentication data goes in between.
                if let Some((_, _, enc)) = open.iter().find(|(h, ..)| *h == handle) {
                    r.confirmed += 1;
                    r.sent.push(enc.clone());
                }
            }
            CommandRejected { status, .. } => r.seen.push(enc_status(&status)),
            AuthenticateContinuationRequestReceived { continuation_request, .. } => {
                r.seen.push(enc_cont(&continuation_request));
                let data = authenticate_data();
                r.sent.push(enc_auth(&data));
                if tap.inner.set_authenticate_data(data).is_err() {
                    violate(&["C07"], "session:auth-data-refused", "authentication data refused although asked for".to_string());
                }
            }
            AuthenticateStatusReceived { status, .. } => {
                r.seen.push(enc_status(&status));
                finished = tag_of(&status);
            }
            IdleAccepted { continuation_request, .. } => {
                r.seen.push(enc_cont(&continuation_request));
                idle_done = true;
            }
            IdleRejected { status, .. } => {
                r.seen.push(enc_status(&status));
                finished = tag_of(&status);
            }
            IdleDoneSent { .. } => {}
            DataReceived { data } => r.seen.push(enc_data(&data)),
            StatusReceived { status } => {
                r.seen.push(enc_status(&status));
                finished = tag_of(&status);
            }
            ContinuationRequestReceived { continuation_request } => r.seen.push(enc_cont(&continuation_request)),
        }
        if let Some(t) = finished {
            open.retain(|(_, tag, _)| *tag != t);
            probe("session.command-finished");
        }
    };
    let end = match end {
        Some(e) => e,
        None => match stream.flush().await {
            Ok(()) => "done".into(),
            Err(e) => describe(&e),
        },
    };
    log(|| format!("client side ends: {end}"));
    rec.borrow_mut().ended = Some(end);
    if !c.closes {
        c.keep.borrow_mut().push(stream);
    }
}

fn tag_of(s: &Status<'static>) -> Option<Tag<'static>> {
    match s {
        Status::Tagged(t) => Some(t.tag.clone()),
        _ => None,
    }
}

struct ServerSide {
    rec: Shared,
    log: Rc<RefCell<TapLog>>,
    cancels: Cancels,
    closes: bool,
    bulk: usize,
    sizes: Sizes,
}

async fn server_side(stream: Stream, s: ServerSide) {
    let mut stream = stream;
    let rec = s.rec;
    let mut cancels = s.cancels;
    let g = greeting(false);
    let g = if matches!(g.kind, imap_types::response::GreetingKind::Bye) {
        imap_types::response::Greeting::ok(None, Text::try_from("hello").unwrap()).unwrap()
    } else {
        g
    };
    rec.borrow_mut().sent.push(enc_greeting(&g));
    let mut tap = Tap { inner: Server::new(server::Options::default(), g), log: s.log };
    // Replies that the application has not enqueued yet.
    let mut later: VecDeque<Response<'static>> = VecDeque::new();
    let mut logout = false;
    let mut auth_rounds = 0;
    let mut auth_tag = None;
    let mut auth_turn = false;
    let mut idle_tag = None;
    let mut due = 1usize;
    let push = |server: &mut Server, r: Response<'static>, rec: &Shared, due: &mut usize| {
        rec.borrow_mut().sent.push(enc_response(&r));
        log(|| format!("server enqueues {}", esc(&enc_response(&r))));
        *due += 1;
        match r {
            Response::Data(d) => server.enqueue_data(d),
            Response::Status(s) => server.enqueue_status(s),
            Response::CommandContinuationRequest(c) => server.enqueue_continuation_request(c),
        };
    };
    let end = loop {
        while !later.is_empty() && chance(2, 3) {
            let r = later.pop_front().unwrap();
            push(&mut tap.inner, r, &rec, &mut due);
        }
        if logout && later.is_empty() && s.closes && due == 0 {
            break None;
        }
        pause().await;
        if cancels.left > 0 && chance(1, 8) {
            // Flushing does not read: with both sides waiting to write it would never end.
            match timeout(cancel_after(stream.flush(), cancels.budget()), 1_000_000_000).await.flatten() {
                None => cancels.note(),
                Some(Ok(())) => {}
                Some(Err(e)) => break Some(describe(&e)),
            }
            continue;
        }
        if !later.is_empty() && due == 0 {
            let r = later.pop_front().unwrap();
            push(&mut tap.inner, r, &rec, &mut due);
        }
        let ev = match cancel_after(stream.next(&mut tap), cancels.budget()).await {
            None => {
                cancels.note();
                continue;
            }
            Some(Ok(e)) => e,
            Some(Err(Error::State(e))) => break Some(format!("state:{e:?}")),
            Some(Err(e)) => break Some(describe(&e)),
        };
        use server::Event::*;
        match ev {
            GreetingSent { .. } | ResponseSent { .. } => {
                rec.borrow_mut().confirmed += 1;
                due = due.saturating_sub(1);
            }
            CommandReceived { command } => {
                rec.borrow_mut().seen.push(enc_command(&command));
                for _ in 0..draw(3) {
                    let sz = Sizes { big: if chance(1, 3) { s.bulk.max(1) } else { s.sizes.big }, ..s.sizes };
                    later.push_back(Response::Data(data(sz, false)));
                }
                if matches!(command.body, CommandBody::Logout) {
                    logout = true;
                    later.push_back(Response::Status(bye(false)));
                }
                later.push_back(Response::Status(tagged(command.tag)));
            }
            CommandAuthenticateReceived { command_authenticate } => {
                auth_tag = Some(command_authenticate.tag.clone());
                let cmd = Command::from(command_authenticate);
                rec.borrow_mut().seen.push(enc_command(&cmd));
                auth_rounds = draw(3);
                auth_turn = true;
            }
            AuthenticateDataReceived { authenticate_data } => {
                rec.borrow_mut().seen.push(enc_auth(&authenticate_data));
                auth_turn = true;
            }
            IdleCommandReceived { tag } => {
                rec.borrow_mut().seen.push(enc_command(&Command { tag: tag.clone(), body: CommandBody::Idle }));
                while let Some(r) = later.pop_front() {
                    push(&mut tap.inner, r, &rec, &mut due);
                }
                due += 1;
                if chance(1, 4) {
                    let st = tagged(tag);
                    let st = match st {
                        Status::Tagged(mut t) => {
                            t.body.kind = imap_types::response::StatusKind::No;
                            Status::Tagged(t)
                        }
                        o => o,
                    };
                    rec.borrow_mut().sent.push(enc_status(&st));
                    let _ = tap.inner.idle_reject(st);
                } else {
                    let c = continuation(false);
                    rec.borrow_mut().sent.push(enc_cont(&c));
                    let _ = tap.inner.idle_accept(c);
                    idle_tag = Some(tag);
                    for _ in 0..draw(3) {
                        later.push_back(Response::Data(data(SMALL, false)));
                    }
                }
                continue;
            }
            IdleDoneReceived => {
                if let Some(t) = idle_tag.take() {
                    later.push_back(Response::Status(tagged(t)));
                }
            }
        }
        if let (Some(tag), true) = (auth_tag.clone(), auth_turn) {
            auth_turn = false;
            while let Some(r) = later.pop_front() {
                push(&mut tap.inner, r, &rec, &mut due);
            }
            due += 1;
            if auth_rounds > 0 {
                auth_rounds -= 1;
                let c = continuation(false);
                rec.borrow_mut().sent.push(enc_cont(&c));
                if tap.inner.authenticate_continue(c).is_err() {
                    violate(&["C07"], "session:auth-refused", "authenticate_continue refused".to_string());
                }
            } else {
                let st = tagged(tag);
                rec.borrow_mut().sent.push(enc_status(&st));
                if tap.inner.authenticate_finish(st).is_err() {
                    violate(&["C07"], "session:auth-refused", "authenticate_finish refused".to_string());
                }
                auth_tag = None;
            }
        }
    };
    let end = match end {
        Some(e) => e,
        None => match stream.flush().await {
            Ok(()) => "done".into(),
            Err(e) => describe(&e),
        },
    };
    log(|| format!("server side ends: {end} (unconfirmed {due})"));
    rec.borrow_mut().ended = Some(end);
}


fn session_run(ctx: &Ctx, bulk: bool) {
    let link = draw_link(ctx);
    draw_sched();
    let (mut pa, mut pb) = (net::draw_profile(), net::draw_profile());
    if bulk {
        for p in [&mut pa, &mut pb] {
            p.chunk = [0, 3][draw(2) as usize];
            p.tx_cap = [65536, 4096, 1000][draw(3) as usize];
            p.rx_cap = [65536, 4096, 1000][draw(3) as usize];
        }
    }
    let slow = [pa, pb].iter().any(|p| p.chunk == 1 || p.tx_cap <= 40 || p.rx_cap <= 40);
    let big = match (bulk, ctx.tier) {
        (true, Tier::Quick) => 150_000,
        (true, Tier::Thorough) => 600_000,
        _ if slow => 60,
        _ => 3_000,
    };
    let sizes = Sizes { boundary: if slow { 60 } else { SMALL.boundary }, big };
    let mut commands: Vec<Command<'static>> = (0..range(1, 5) as usize).map(|n| command(n, MIX, sizes)).collect();
    commands.retain(|c| !matches!(c.body, CommandBody::Logout));
    commands.push(Command { tag: tag(90), body: CommandBody::Logout });
    let client_closes = chance(1, 2);
    let used = Rc::new(RefCell::new(false));
    let left = [0, 0, 10, 40][draw(4) as usize];
    cover(&format!("session {link:?} closes={client_closes} bulk={bulk} {}", commands.len()));
    let (a, b) = net::pair(pa, pb);
    let (crec, srec) = (Shared::default(), Shared::default());
    let (clog, slog) = (Rc::<RefCell<TapLog>>::default(), Rc::<RefCell<TapLog>>::default());
    let n_commands = commands.len();
    let keep: Rc<RefCell<Vec<Stream>>> = Rc::default();
    let cs = ClientSide {
        rec: crec.clone(),
        log: clog.clone(),
        commands,
        cancels: Cancels { left, used: used.clone() },
        closes: client_closes,
        keep: keep.clone(),
    };
    let ss = ServerSide {
        rec: srec.clone(),
        log: slog.clone(),
        cancels: Cancels { left, used: used.clone() },
        closes: !client_closes,
        bulk: big,
        sizes,
    };
    let c_id = exec::spawn_env("client", async move {
        match sut_stream(a, link, true).await {
            Ok(s) => client_side(s, cs).await,
            Err(e) => cs.rec.borrow_mut().ended = Some(format!("handshake:{:?}", e.kind())),
        }
    });
    let s_id = exec::spawn_env("server", async move {
        match sut_stream(b, link, false).await {
            Ok(s) => server_side(s, ss).await,
            Err(e) => ss.rec.borrow_mut().ended = Some(format!("handshake:{:?}", e.kind())),
        }
    });
    let mut end = exec::run_until(c_id);
    if end == End::Done {
        end = exec::run_until(s_id);
    }
    if simcore::failed() {
        return;
    }
    let lab = |l: Vec<&'static str>| labels(link, *used.borrow(), l);
    let (cr, sr) = (crec.borrow(), srec.borrow());
    let (cl, sl) = (clog.borrow(), slog.borrow());
    for (from, to, name) in [(&cl, &sl, "client to server"), (&sl, &cl, "server to client")] {
        if !from.output.starts_with(&to.input) {
            return violate(
                &lab(vec!["C11", "C15"]),
                "session:bytes-differ",
                format!("{name}: {}", first_difference(&to.input, &from.output)),
            );
        }
    }
    for (from, to, l, name) in [(&cr, &sr, "C03", "commands"), (&sr, &cr, "C04", "responses")] {
        let n = from.sent.iter().zip(&to.seen).take_while(|(x, y)| x == y).count();
        let whole = cr.ended.is_some() && sr.ended.is_some();
        if n < to.seen.len().min(from.sent.len()) || (whole && from.sent.len() != to.seen.len()) {
            let show = |v: &Vec<Vec<u8>>| v.get(n).map(|b| esc(b)).unwrap_or_else(|| "nothing".into());
            return violate(
                &lab(vec![l, "C11", "C14"]),
                format!("session:{name}-differ"),
                format!("{name} number {n}: sent \"{}\", received \"{}\" ({:?}/{:?})", show(&from.sent), show(&to.seen), cr.ended, sr.ended),
            );
        }
    }
    let (first, second) = if client_closes { (&cr, &sr) } else { (&sr, &cr) };
    if end != End::Done {
        return violate(
            &lab(vec!["C15", "C11", "C14"]),
            if end == End::StepCap { "session:spins" } else { "session:hangs" },
            format!(
                "the session got stuck ({end:?}): client ended {:?} after {} responses, server ended {:?} after {} messages",
                cr.ended,
                cr.seen.len(),
                sr.ended,
                sr.seen.len()
            ),
        );
    }
    if first.ended.as_deref() != Some("done") {
        return violate(
            &lab(vec!["C11", "C14"]),
            "session:spurious-error",
            format!("a healthy session failed: client {:?}, server {:?}", cr.ended, sr.ended),
        );
    }
    if second.ended.as_deref() != Some("closed") {
        return violate(&lab(vec!["C14"]), "session:wrong-end", format!("the peer closed, reported as {:?}", second.ended));
    }
    if sr.confirmed != sr.sent.len() || cr.confirmed != n_commands {
        return violate(
            &lab(vec!["C03", "C04", "C14"]),
            "session:not-confirmed",
            format!("{} of {} responses and {} of {n_commands} commands reported as sent", sr.confirmed, sr.sent.len(), cr.confirmed),
        );
    }
    probe("session.complete");
    let steps = with(|w| w.steps);
    log(|| format!("{steps} steps"));
}

pub fn session(ctx: &Ctx) {
    session_run(ctx, false)
}
pub fn session_bulk(ctx: &Ctx) {
    session_run(ctx, true)
}

/// A scripted peer sends well-formed messages and cuts the connection anywhere.
pub fn session_cut(ctx: &Ctx) {
    let link = draw_link(ctx);
    draw_sched();
    let (pa, pb) = (net::draw_profile(), net::draw_profile());
    let slow = [pa, pb].iter().any(|p| p.chunk == 1 || p.tx_cap <= 40 || p.rx_cap <= 40);
    let sizes = Sizes { boundary: 60, big: if slow { 100 } else { 5_000 } };
    let sut_client = chance(1, 2);
    let mut msgs: Vec<Vec<u8>> = Vec::new();
    if sut_client {
        msgs.push(enc_greeting(&greeting(false)));
        for _ in 0..range(0, 6) {
            msgs.push(if chance(1, 3) { enc_status(&status(None, 0, false)) } else { enc_data(&data(sizes, false)) });
        }
    } else {
        let n = range(1, 6) as usize;
        for i in 0..n {
            msgs.push(enc_command(&command(i, Mix { auth: 0, idle: 0, ..MIX }, sizes)));
        }
    }
    let all: Vec<u8> = msgs.concat();
    let cut = if chance(1, 3) { all.len() } else { draw(all.len() as u32 + 1) as usize };
    let mut complete = 0;
    let mut at = 0;
    for m in &msgs {
        at += m.len();
        complete += (at <= cut) as usize;
    }
    let finish = weighted(&[4, 1, 1]); // orderly, without TLS goodbye, reset
    cover(&format!("cut {link:?} client={sut_client} {finish} {}", complete < msgs.len()));
    log(|| format!("{complete} of {} messages complete, {cut} of {} bytes", msgs.len(), all.len()));
    let (a, b) = net::pair(pa, pb);
    let mut peer = match link {
        Link::Plain => Peer::plain(b),
        Link::Tls(v) if sut_client => Peer::tls_server(b, simpeer::server_config(v)),
        Link::Tls(v) => Peer::tls_client(b, v, "localhost"),
    };
    let early = chance(1, 2);
    let bytes = all[..cut].to_vec();
    exec::spawn_env("peer", async move {
        let mut rest = bytes.as_slice();
        if !early && !peer.handshake().await {
            return;
        }
        while !rest.is_empty() {
            let n = range(1, rest.len() as u32) as usize;
            peer.queue(&rest[..n]);
            rest = &rest[n..];
            if !peer.handshake().await || (chance(1, 2) && !peer.drain().await) {
                return;
            }
        }
        if !peer.handshake().await {
            return;
        }
        if finish == 0 {
            peer.queue_close_notify();
        }
        peer.drain().await;
        if finish == 2 {
            peer.reset();
            return;
        }
        fault("peer.fin");
        peer.fin();
        peer.until_end().await;
    });
    let seen: Rc<RefCell<Vec<Vec<u8>>>> = Rc::default();
    let ended: Rc<RefCell<Option<String>>> = Rc::default();
    let (sn, en) = (seen.clone(), ended.clone());
    let replies = range(0, 3);
    let id = exec::spawn_env("stream", async move {
        let mut stream = match sut_stream(a, link, sut_client).await {
            Ok(s) => s,
            Err(e) => {
                *en.borrow_mut() = Some(format!("handshake:{:?}", e.kind()));
                return;
            }
        };
        let end = if sut_client {
            let mut tap = Tap::new(Client::new(client::Options::default()));
            for n in 0..replies {
                tap.inner.enqueue_command(command(70 + n as usize, Mix { literal: 0, auth: 0, idle: 0, plain: 1 }, sizes));
            }
            loop {
                use client::Event::*;
                match stream.next(&mut tap).await {
                    Ok(GreetingReceived { greeting }) => sn.borrow_mut().push(enc_greeting(&greeting)),
                    Ok(DataReceived { data }) => sn.borrow_mut().push(enc_data(&data)),
                    Ok(StatusReceived { status }) => sn.borrow_mut().push(enc_status(&status)),
                    Ok(CommandSent { .. }) => {}
                    Ok(other) => sn.borrow_mut().push(format!("{other:?}").into_bytes()),
                    Err(Error::State(e)) => sn.borrow_mut().push(format!("{e:?}").into_bytes()),
                    Err(e) => break describe(&e),
                }
            }
        } else {
            let g = imap_types::response::Greeting::ok(None, Text::try_from("hello").unwrap()).unwrap();
            let mut tap = Tap::new(Server::new(server::Options::default(), g));
            loop {
                use server::Event::*;
                match stream.next(&mut tap).await {
                    Ok(CommandReceived { command }) => {
                        sn.borrow_mut().push(enc_command(&command));
                        for _ in 0..replies {
                            tap.inner.enqueue_data(data(SMALL, false));
                        }
                        tap.inner.enqueue_status(tagged(command.tag));
                    }
                    Ok(GreetingSent { .. } | ResponseSent { .. }) => {}
                    Ok(other) => sn.borrow_mut().push(format!("{other:?}").into_bytes()),
                    Err(Error::State(e)) => sn.borrow_mut().push(format!("{e:?}").into_bytes()),
                    Err(e) => break describe(&e),
                }
            }
        };
        log(|| format!("stream ends: {end}"));
        *en.borrow_mut() = Some(end);
    });
    let end = exec::run_until(id);
    let lab = |l: Vec<&'static str>| labels(link, false, l);
    let seen = seen.borrow();
    let n = seen.iter().zip(&msgs).take_while(|(a, b)| a == b).count();
    if n < seen.len() || n > complete {
        let show = |v: &[Vec<u8>]| v.get(n).map(|b| esc(b)).unwrap_or_else(|| "nothing".into());
        return violate(
            &lab(vec!["C14", "C11"]),
            "session:fabricated",
            format!("message {n} of {complete} complete ones: sent \"{}\", reported \"{}\"", show(&msgs), show(&seen)),
        );
    }
    let ended = ended.borrow().clone();
    match (end, ended) {
        (End::Done, Some(e)) => {
            if finish < 2 && n < complete {
                return violate(
                    &lab(vec!["C14", "C11"]),
                    "session:lost-before-end",
                    format!("{n} of {complete} complete messages reported before {e}"),
                );
            }
            if (finish == 0 || (finish == 1 && link == Link::Plain)) && e != "closed" {
                return violate(&lab(vec!["C14"]), "session:wrong-end", format!("an orderly end was reported as {e}"));
            }
            probe("session.cut-reported");
        }
        (end, _) => violate(
            &lab(vec!["C14"]),
            if end == End::StepCap { "session:spins-at-end" } else { "session:hangs-at-end" },
            format!("the connection ended but the stream did not report it ({end:?}), {n} of {complete} messages delivered"),
        ),
    }
}
