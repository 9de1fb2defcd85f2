//! Well-behaved connections next to misbehaving ones: C19.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::rc::Rc;
use std::sync::Arc;

use simcore::harness::Ctx;
use simcore::net::{self, Profile};
use simcore::{chance, draw, exec, fault, log, probe, range, secrets, violate, with};
use imap_types::auth::AuthenticateData;
use simgen::Mix;
use simpeer::Peer;

use crate::conn::*;
use crate::forward::Deployment;
use crate::world::*;

/// What a server does with one of its first connections.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Nasty {
    Unreachable,
    Refused,
    Silent,
    Close,
    Garbage,
    CutGreeting,
    /// Greets, then talks nonsense (continuation requests, tagged answers nobody waits for).
    Nonsense,
    /// Greets, answers nothing and does not read.
    Deaf,
    Reset,
    Rogue,
}

const NASTY: [Nasty; 10] = [
    Nasty::Silent,
    Nasty::Unreachable,
    Nasty::Refused,
    Nasty::Close,
    Nasty::Garbage,
    Nasty::CutGreeting,
    Nasty::Nonsense,
    Nasty::Deaf,
    Nasty::Reset,
    Nasty::Rogue,
];

async fn nasty_server(kind: Nasty, sock: net::Socket, tls: Option<Arc<rustls::ServerConfig>>) {
    fault(match kind {
        Nasty::Silent => "server.silent",
        Nasty::Close => "server.closes-at-once",
        Nasty::Garbage => "server.garbage",
        Nasty::CutGreeting => "server.cut-greeting",
        Nasty::Nonsense => "server.nonsense",
        Nasty::Deaf => "server.deaf",
        Nasty::Reset => "server.reset",
        Nasty::Rogue => "server.untrusted",
        Nasty::Unreachable | Nasty::Refused => unreachable!(),
    });
    if matches!(kind, Nasty::Silent) {
        let mut p = Peer::plain(sock);
        return p.until_end().await;
    }
    if matches!(kind, Nasty::Close) {
        return drop(sock);
    }
    if matches!(kind, Nasty::Garbage) || (kind == Nasty::Reset && chance(1, 2)) {
        let mut p = Peer::plain(sock);
        p.queue(b"\x15\x03\x01 this is neither TLS nor a greeting\r\n\r\n* OK\r\n");
        p.drain().await;
        if kind == Nasty::Reset {
            return p.reset();
        }
        return p.until_end().await;
    }
    let mut p = match tls {
        Some(c) => {
            let c = if kind == Nasty::Rogue { server_config(simpeer::Version::V13, Cert::Rogue) } else { c };
            Peer::tls_server(sock, c)
        }
        None => Peer::plain(sock),
    };
    if !p.handshake().await {
        return;
    }
    if kind == Nasty::CutGreeting {
        p.queue(b"* OK this greeting does not e");
        p.drain().await;
        if chance(1, 2) {
            p.close();
            return;
        }
        return p.until_end().await;
    }
    p.queue(b"* OK hello from nobody\r\n");
    p.drain().await;
    match kind {
        Nasty::Deaf => {
            p.reading = false;
            std::future::pending::<()>().await
        }
        Nasty::Reset => {
            for _ in 0..draw(4) {
                p.progress().await;
            }
            p.reset();
        }
        _ => {
            const SAY: &[&[u8]] = &[
                b"+ go on\r\n",
                b"+ Zm9v\r\n",
                b"nobody OK done\r\n",
                b"c1n0 OK done\r\n",
                b"c1n0 BAD no\r\n",
                b"* BYE no\r\n",
                b"%%\r\n",
                b"* OK\n",
                b"\r\n",
            ];
            for _ in 0..range(1, 12) {
                p.queue(SAY[draw(SAY.len() as u32) as usize]);
                p.drain().await;
                if chance(1, 2) {
                    progress_or_sleep(&mut p, 500_000_000).await;
                }
            }
            p.until_end().await
        }
    }
}

/// The first connections get what `plan` says, later ones a proper server.
async fn mixed_host(
    addr: SocketAddr,
    tls: Option<Arc<rustls::ServerConfig>>,
    opts: Opts,
    shared: Rc<RefCell<Shared>>,
    plan: Rc<RefCell<VecDeque<Nasty>>>,
) {
    loop {
        let Ok(sock) = std::future::poll_fn(|cx| net::poll_accept_quiet(addr, cx)).await else { return };
        let kind = plan.borrow_mut().pop_front();
        if let Some(kind) = kind {
            log(|| format!("        server is going to be {kind:?}"));
            exec::spawn_env("nasty server", nasty_server(kind, sock, tls.clone()));
            continue;
        }
        serve(addr, sock, &tls, opts, &shared);
    }
}

/// What a client does to harm others (or itself).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Rude {
    Silent,
    Partial,
    Garbage,
    Close,
    Reset,
    HandshakeOnly,
    EarlyAuth,
    Flood,
    ResetLater,
    Proper,
}

const RUDE: [Rude; 10] = [
    Rude::Silent,
    Rude::Partial,
    Rude::Garbage,
    Rude::Close,
    Rude::Reset,
    Rude::HandshakeOnly,
    Rude::EarlyAuth,
    Rude::Flood,
    Rude::ResetLater,
    Rude::Proper,
];

async fn rude_client(kind: Rude, ep: Endpoint, profile: Profile) {
    let Some(sock) = dial(ep.addr, profile).await else { return };
    log(|| format!("    a rude client: {kind:?}"));
    fault(match kind {
        Rude::Silent => "client.silent",
        Rude::Partial => "client.partial-message",
        Rude::Garbage => "client.garbage",
        Rude::Close => "client.closes-at-once",
        Rude::Reset => "client.reset",
        Rude::HandshakeOnly => "client.handshake-only",
        Rude::EarlyAuth => "client.early-authenticate-data",
        Rude::Flood => "client.flood",
        Rude::ResetLater => "client.reset-later",
        Rude::Proper => "client.proper",
    });
    let raw = |b: &[u8], sock| {
        let mut p = Peer::plain(sock);
        p.queue(b);
        p
    };
    match kind {
        Rude::Silent => return raw(b"", sock).until_end().await,
        Rude::Partial => {
            let b: &[u8] = if ep.tls { b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" } else { b"x1 LOGIN {5" };
            let mut p = raw(b, sock);
            p.drain().await;
            return p.until_end().await;
        }
        Rude::Garbage => {
            let mut b = b"\x00\xff\x17 %%%% \r\n\r\nGET / HTTP/1.1\r\n\n\n{9}\r\n".to_vec();
            if let Some(m) = secrets::armed() {
                b.extend(simgen::tell(&m, true));
            }
            let mut p = raw(&b, sock);
            p.drain().await;
            if chance(1, 2) {
                p.close();
                return;
            }
            return p.until_end().await;
        }
        Rude::Close => return drop(sock),
        Rude::Reset => return sock.reset(),
        _ => {}
    }
    let mut p = if ep.tls { Peer::tls_client(sock, ep.version, "localhost") } else { Peer::plain(sock) };
    if !p.handshake().await {
        return;
    }
    if kind == Rude::HandshakeOnly {
        return p.until_end().await;
    }
    p.until(|p| p.got.ends_with(b"\r\n")).await;
    match kind {
        Rude::EarlyAuth => {
            p.queue(b"x1 AUTHENTICATE PLAIN\r\n");
            match secrets::armed() {
                Some(m) => p.queue(&simgen::enc_auth(&AuthenticateData::r#continue(m.into_bytes()))),
                None => p.queue(b"AAAA\r\n"),
            }
            p.queue(b"AAAA\r\n*\r\n");
            p.drain().await;
            p.until_end().await
        }
        Rude::Flood => {
            for i in 0..range(10, 200) {
                p.queue(format!("x{i} NOOP\r\n").as_bytes());
            }
            p.reading = false;
            p.drain().await;
            std::future::pending::<()>().await
        }
        Rude::ResetLater => {
            p.queue(b"x1 NOOP\r\nx2 IDLE\r\n");
            for _ in 0..draw(6) {
                progress_or_sleep(&mut p, 10_000_000).await;
            }
            p.reset()
        }
        _ => {
            p.queue(b"x1 NOOP\r\nx2 LOGOUT\r\n");
            p.drain().await;
            p.until_end().await
        }
    }
}

/// Until the misbehaving connections are under way (or had every chance to be).
async fn gate(plan: Rc<RefCell<VecDeque<Nasty>>>, addr: SocketAddr) {
    for _ in 0..200 {
        let left = with(|w| {
            plan.borrow().len() as u32
                + w.net.unreachable.get(&addr).copied().unwrap_or(0)
                + w.net.refusing.get(&addr).copied().unwrap_or(0)
        });
        if left == 0 {
            return;
        }
        exec::sleep_ns(1_000_000_000).await;
    }
    // From now on everybody gets a proper server.
    plan.borrow_mut().clear();
    with(|w| {
        w.net.unreachable.remove(&addr);
        w.net.refusing.remove(&addr);
    });
}

pub fn isolation(_: &Ctx) {
    draw_sched();
    let services = draw_services(range(1, 3));
    let good = services.len();
    // Services that cannot work at all, anywhere in the file.
    let mut all: Vec<(Svc, bool)> = services.into_iter().map(|s| (s, true)).collect();
    for k in 0..draw(3) {
        let mut s = broken(k);
        match draw(5) {
            0 => {
                fault("service.bind-fails");
                let kind = [ErrorKind::AddrInUse, ErrorKind::PermissionDenied, ErrorKind::AddrNotAvailable][draw(3) as usize];
                with(|w| w.net.bind_faults.insert(s.bind_addr, kind));
            }
            1 => {
                fault("service.bind-unresolvable");
                s.bind_host = "no.such.host".into();
            }
            2 => {
                fault("service.no-identity");
                s.bind_tls = true;
                s.cert_path = "nowhere.pem".into();
            }
            3 => {
                fault("service.same-address");
                // One of two services on one address cannot start; which one does not matter.
                let mut twin = all.iter().find(|a| a.1).expect("a proper one").0.clone();
                twin.name = s.name;
                s = twin;
                all.push((s, false));
                continue;
            }
            _ => {
                fault("service.server-unresolvable");
                s.connect_host = "no.such.host".into();
            }
        }
        let at = draw(all.len() as u32 + 1) as usize;
        all.insert(at, (s, false));
    }
    let services: Vec<Svc> = all.iter().map(|a| a.0.clone()).collect();
    let opts = Opts {
        mix: Mix { plain: 4, literal: 2, auth: 1, idle: 1 },
        sizes: simgen::SMALL,
        commands: range(1, 4),
        chatty: 2,
        wait: [4, 0, 8][draw(3) as usize],
        ..OPTS
    };
    let missing = |s: &Svc| s.cert_path == "nowhere.pem";
    install(&services);
    for s in services.iter().filter(|s| missing(s)) {
        with(|w| w.fs.files.remove(&s.cert_path));
    }
    let shared = Rc::new(RefCell::new(Shared::default()));
    let mut plans: Vec<Rc<RefCell<VecDeque<Nasty>>>> = vec![];
    for (i, s) in services.iter().enumerate() {
        if let Some(k) = services[..i].iter().position(|o| o.server_addr == s.server_addr) {
            let plan: Rc<RefCell<VecDeque<Nasty>>> = plans[k].clone();
            plans.push(plan);
            continue;
        }
        let _ = net::bind_env(s.server_addr);
        let p = (profile(), profile());
        with(|w| w.net.profiles.insert(s.server_addr, p));
        let mut plan = VecDeque::new();
        for _ in 0..draw(4) {
            match NASTY[draw(NASTY.len() as u32) as usize] {
                Nasty::Unreachable => with(|w| *w.net.unreachable.entry(s.server_addr).or_insert(0) += 1),
                Nasty::Refused => with(|w| *w.net.refusing.entry(s.server_addr).or_insert(0) += 1),
                k => plan.push_back(k),
            }
        }
        let plan = Rc::new(RefCell::new(plan));
        let tls = s.connect_tls.then(|| with_alpn(server_config(s.version_out, s.server_cert), s.alpn_out));
        exec::spawn_env("server host", mixed_host(s.server_addr, tls, opts, shared.clone(), plan.clone()));
        plans.push(plan);
    }
    if chance(1, 3) {
        let kinds = [ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::PermissionDenied];
        for _ in 0..range(1, 4) {
            let k = kinds[draw(3) as usize];
            with(|w| w.net.accept_faults.push_back(k));
        }
    }
    let exit = start();
    let mut d = Deployment { services, shared, parties: vec![], exit };
    // The misbehaving ones.
    for (i, s) in d.services.iter().enumerate() {
        let planned = with(|w| {
            plans[i].borrow().len() as u32
                + w.net.unreachable.get(&s.server_addr).copied().unwrap_or(0)
                + w.net.refusing.get(&s.server_addr).copied().unwrap_or(0)
        });
        // Somebody has to use up the planned connections.
        for _ in 0..planned {
            let ep = s.endpoint();
            let kind = [Rude::Proper, Rude::EarlyAuth, Rude::Flood, Rude::HandshakeOnly, Rude::ResetLater][draw(5) as usize];
            exec::spawn_env("rude client", rude_client(kind, ep, profile()));
        }
        if planned == 0 {
            for _ in 0..draw(4) {
                let kind = RUDE[draw(RUDE.len() as u32) as usize];
                exec::spawn_env("rude client", rude_client(kind, s.endpoint(), profile()));
            }
        }
    }
    // The well-behaved ones.
    for i in 0..d.services.len() {
        if !all[i].1 {
            continue;
        }
        for _ in 0..range(1, 2) {
            let plan = plans[i].clone();
            let addr = d.services[i].server_addr;
            d.client_after(i, opts, profile(), &["C19"], gate(plan, addr));
        }
    }
    let _ = good;
    if !settle() {
        return violate(&["C19", "C17"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    d.judge();
    if !simcore::failed() {
        probe("proxy.isolated");
    }
}

/// Many clients at the same time: all of them are served while all of them stay.
pub fn concurrent(_: &Ctx) {
    draw_sched();
    let n = range(1, 2);
    let services = draw_services(n);
    let calm = || {
        let mut p = profile();
        p.stall = 0;
        p
    };
    let opts = Opts {
        mix: Mix { plain: 4, literal: 2, auth: 1, idle: 1 },
        sizes: simgen::SMALL,
        commands: range(0, 3),
        chatty: 2,
        hold: true,
        ..OPTS
    };
    let mut d = Deployment::start(services, &[opts]);
    for s in &d.services {
        let p = (calm(), calm());
        with(|w| w.net.profiles.insert(s.server_addr, p));
        for _ in 0..draw(3) {
            let kind = [Rude::Silent, Rude::Partial, Rude::HandshakeOnly, Rude::Flood][draw(4) as usize];
            exec::spawn_env("rude client", rude_client(kind, s.endpoint(), calm()));
        }
    }
    if chance(1, 16) {
        // A crowd: more connections than anybody would call a small number.
        let crowd = [40, 70, 140, 300, 600][simcore::weighted(&[4, 4, 4, 3, 1])];
        let ep = d.services[draw(d.services.len() as u32) as usize].endpoint();
        let kind = [Rude::Silent, Rude::Partial][draw(2) as usize];
        let mut p = calm();
        if crowd > 100 {
            // A really big crowd comes over a network that does not deliver byte by byte.
            p = simcore::net::Profile::PLAIN;
            with(|w| w.net.profiles.values_mut().for_each(|v| *v = (p, p)));
        }
        for _ in 0..crowd {
            exec::spawn_env("rude client", rude_client(kind, ep.clone(), p));
        }
        probe("proxy.crowd");
    }
    let each = range(1, 6);
    d.shared.borrow_mut().expected = d.services.len() * each as usize;
    for i in 0..d.services.len() {
        for _ in 0..each {
            let ns = [0, 1_000_000, 3_000_000_000][draw(3) as usize];
            d.client_after(i, opts, calm(), &["C19"], exec::sleep_ns(ns));
        }
    }
    if !settle() {
        return violate(&["C19", "C17"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    d.judge();
    if simcore::failed() {
        return;
    }
    for (id, p) in d.parties.iter().enumerate() {
        let l = p.log.borrow();
        if let (Some(a), Some(b)) = (l.dialled, l.greeted) {
            // The server itself takes up to 70 seconds.
            if b - a > 600_000_000_000 {
                return violate(
                    &["C19"],
                    "proxy:client-kept-waiting",
                    format!("client {id} waited {} simulated seconds for its greeting while others were connected", (b - a) / 1_000_000_000),
                );
            }
        }
    }
    probe("proxy.isolated");
    probe("proxy.many-at-once");
}

/// A service on addresses of its own.
fn broken(k: u32) -> Svc {
    let mut s = fixed(40 + k as usize);
    s.name = format!("broken {k}");
    s
}
