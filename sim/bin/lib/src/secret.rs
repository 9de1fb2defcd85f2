//! What somebody sees who prints or logs what the library reports (C26).
use std::any::Any;
use std::fmt::{Debug, Display};

use imap_next::client::{self, Client};
use imap_next::server::{self, Server};
use imap_next::stream;
use imap_next::State;
use imap_types::command::{Command, CommandBody};
use imap_types::core::Text;
use imap_types::response::Greeting;
use imap_types::secret::Secret;
use simcore::exec;
use simcore::harness::Ctx;
use simcore::net;
use simcore::{chance, cover, draw, probe, range, secrets, violate};
use simgen::*;

use crate::stream::{draw_link, draw_sched, peer_for, sut_stream, Tap};

/// Other bytes of the same length.
pub fn another(d: &Secret<Box<[u8]>>) -> Secret<Box<[u8]>> {
    Secret::new(d.declassify().iter().map(|b| b ^ 1).collect())
}

/// The parts of a command that are no credentials.
fn bare(c: &Command<'static>) -> String {
    match &c.body {
        CommandBody::Login { username, .. } => format!("{:?} {username:?}", c.tag),
        CommandBody::Authenticate { mechanism, .. } => format!("{:?} {mechanism:?}", c.tag),
        _ => format!("{c:?}"),
    }
}

/// The parts of an event that are no credentials.
fn public<V: Debug + Any>(v: &V) -> String {
    let v: &dyn Any = v;
    if let Some(e) = v.downcast_ref::<client::Event>() {
        return match e {
            client::Event::CommandSent { command, .. } => bare(command),
            client::Event::CommandRejected { command, status, .. } => format!("{} {status:?}", bare(command)),
            client::Event::AuthenticateStatusReceived { command_authenticate: a, status, .. } => {
                format!("{:?} {:?} {status:?}", a.tag, a.mechanism)
            }
            e => format!("{e:?}"),
        };
    }
    match v.downcast_ref::<server::Event>() {
        Some(server::Event::CommandReceived { command }) => bare(command),
        Some(server::Event::CommandAuthenticateReceived { command_authenticate: a }) => format!("{:?} {:?}", a.tag, a.mechanism),
        Some(server::Event::AuthenticateDataReceived { .. }) => String::new(),
        Some(e) => format!("{e:?}"),
        None => String::new(),
    }
}

/// No result may show the secret, and no error anything that depends on the bytes it refused.
pub fn printed<V: Debug + Any, E: std::error::Error>(r: &Result<V, E>, twin: impl Fn(&E) -> E) {
    if secrets::armed().is_none() {
        return;
    }
    match r {
        Ok(v) => secrets::shown_beside("event", &format!("{v:?}"), || public(v)),
        Err(e) => {
            let t = twin(e);
            for (a, b) in [(format!("{e}"), format!("{t}")), (format!("{e:?}"), format!("{t:?}"))] {
                secrets::shown("error", &a);
                if a != b {
                    violate(&["C26"], "secret-shown:refused-bytes", format!("the refused bytes show up in: {a}"));
                }
            }
            chain(e);
        }
    }
}

fn chain(e: &dyn std::error::Error) {
    probe("secret.error-printed");
    let mut next = Some(e);
    while let Some(e) = next {
        secrets::shown("error", &format!("{e} {e:?}"));
        next = e.source();
    }
}

fn arm() {
    secrets::arm("C26");
    simcore::logs::set(2);
}

macro_rules! with_secret {
    ($($name:ident = $run:path),*) => {$(
        /// The same scenario, with passwords, authentication data and broken messages that
        /// contain a recognisable secret, and with logging.
        pub fn $name(ctx: &Ctx) {
            arm();
            $run(ctx);
            if secrets::searched() > 0 {
                probe("secret.searched");
            }
        }
    )*};
}
with_secret!(
    client_any = crate::client::client_any,
    client_literals = crate::client::client_literals,
    client_exchanges = crate::client::client_exchanges,
    server_any = crate::server::server_any,
    server_exchanges = crate::server::server_exchanges,
    server_limits = crate::server::server_limits,
    session = crate::session::session
);

/// Errors and events as a stream reports them.
pub fn through_stream(ctx: &Ctx) {
    arm();
    let link = draw_link(ctx);
    draw_sched();
    let m = secrets::armed().unwrap();
    let sut_client = chance(1, 2);
    let mut wire = vec![];
    if sut_client && chance(3, 4) {
        wire.extend(enc_greeting(&greeting(false)));
    }
    for i in 0..range(1, 6) {
        wire.extend(match draw(3) {
            0 => tell(&m, !sut_client),
            1 if sut_client => enc_data(&data(SMALL, false)),
            1 => enc_command(&command(i as usize, MIX, SMALL)),
            _ if sut_client => strip_cr(format!("* 1 {m}\r\n").into()),
            _ => strip_cr(enc_command(&command(i as usize, MIX, SMALL))),
        });
    }
    let (a, b) = net::pair(net::draw_profile(), net::draw_profile());
    let mut peer = peer_for(b, link, sut_client);
    exec::spawn_env("peer", async move {
        if peer.handshake().await {
            peer.queue(&wire);
            peer.drain().await;
            peer.progress().await;
        }
        if chance(1, 2) {
            peer.queue_close_notify();
            peer.drain().await;
        }
        peer.close();
    });
    let commands: Vec<_> = (0..draw(3)).map(|i| command(70 + i as usize, Mix { plain: 2, literal: 1, auth: 1, idle: 0 }, SMALL)).collect();
    cover(&format!("secret {link:?} {sut_client}"));
    let id = exec::spawn_env("stream", async move {
        let Ok(s) = sut_stream(a, link, sut_client).await else { return };
        if sut_client {
            let mut c = Client::new(client::Options::default());
            for m in commands {
                c.enqueue_command(m);
            }
            look(s, Tap::new(c)).await
        } else {
            let g = Greeting::ok(None, Text::try_from("hello").unwrap()).unwrap();
            let mut o = server::Options::default();
            if chance(1, 2) {
                o.max_literal_size = draw(20);
                o.max_command_size = 20 + draw(40);
            }
            look(s, Tap::new(Server::new(o, g))).await
        }
    });
    exec::run_until(id);
    if secrets::searched() > 0 {
        probe("secret.searched");
    }
}

async fn look<S: State>(mut s: stream::Stream, mut tap: Tap<S>)
where
    S::Event: Debug + Any,
    S::Error: std::error::Error + Debug + Display + 'static,
{
    loop {
        match s.next(&mut tap).await {
            Ok(e) => secrets::shown_beside("event", &format!("{e:?}"), || public(&e)),
            Err(e) => {
                secrets::shown("error", &format!("{e} {e:?}"));
                chain(&e);
                if !matches!(e, stream::Error::State(_)) {
                    return;
                }
            }
        }
    }
}
