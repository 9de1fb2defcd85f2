//! Conversations through the proxy: C17, C18, C22, C25.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use simcore::harness::{Ctx, Tier};
use simcore::net::Profile;
use simcore::{chance, cover, draw, exec, probe, range, violate, with};
use simgen::{Mix, Sizes};

use crate::conn::*;
use crate::world::*;

pub struct Party {
    pub svc: usize,
    pub opts: Opts,
    pub log: Rc<RefCell<ClientLog>>,
    pub labels: Vec<&'static str>,
}

pub struct Deployment {
    pub services: Vec<Svc>,
    pub shared: Rc<RefCell<Shared>>,
    pub parties: Vec<Party>,
    pub exit: Exit,
}

impl Deployment {
    /// Configuration, files, servers and the proxy itself.
    pub fn start(services: Vec<Svc>, server_opts: &[Opts]) -> Deployment {
        install(&services);
        let shared = Rc::new(RefCell::new(Shared::default()));
        for (i, s) in services.iter().enumerate() {
            let o = server_opts[i % server_opts.len()];
            start_server(s, o, &shared);
        }
        let exit = start();
        Deployment { services, shared, parties: vec![], exit }
    }

    pub fn client(&mut self, svc: usize, opts: Opts, profile: Profile, labels: &[&'static str]) -> Rc<RefCell<ClientLog>> {
        self.client_after(svc, opts, profile, labels, std::future::ready(()))
    }

    /// A client that starts when `gate` is over.
    pub fn client_after(
        &mut self,
        svc: usize,
        opts: Opts,
        profile: Profile,
        labels: &[&'static str],
        gate: impl std::future::Future<Output = ()> + 'static,
    ) -> Rc<RefCell<ClientLog>> {
        let log = Rc::new(RefCell::new(ClientLog::default()));
        let id = self.parties.len();
        let ep = self.services[svc].endpoint();
        let session = client_session(id, ep, profile, opts, self.shared.clone(), log.clone());
        exec::spawn_env(format!("client {id}"), async move {
            gate.await;
            session.await
        });
        self.parties.push(Party { svc, opts, log: log.clone(), labels: labels.to_vec() });
        log
    }

    /// Everybody's exchange must have come to its end, with nothing lost, changed or mixed up.
    pub fn judge(&self) {
        let panics: Vec<String> = with(|w| w.panics.clone());
        if let Some(r) = &*self.exit.borrow() {
            return violate(&["C17", "C19", "C20"], "proxy:exited", format!("the proxy ended although its services work: {r:?}"));
        }
        let mut taken: HashMap<usize, usize> = HashMap::new();
        let shared = self.shared.borrow();
        for (id, p) in self.parties.iter().enumerate() {
            let c = p.log.borrow();
            let svc = &self.services[p.svc];
            let mut labels = p.labels.clone();
            labels.push("C17");
            let server = c.server.and_then(|n| shared.servers.get(n)).map(|s| s.borrow());
            let Some(server) = server else {
                violate(
                    &labels,
                    "proxy:no-service",
                    format!("client {id} never got a greeting (handshake failed: {}, end {:?}) {panics:?}", c.handshake_failed, c.end),
                );
                return;
            };
            if server.addr != Some(svc.server_addr) {
                labels.extend(["C19", "C20"]);
                violate(
                    &labels,
                    "proxy:wrong-server",
                    format!("client {id} of {} talks to {:?}", svc.server_addr, server.addr),
                );
                return;
            }
            if let Some(other) = taken.insert(c.server.unwrap(), id) {
                labels.push("C19");
                violate(&labels, "proxy:crossed", format!("clients {other} and {id} share one server connection"));
                return;
            }
            let (client_done, all_commands) = match p.opts.finish {
                // The answer to LOGOUT comes last, so nothing before it can be missing.
                Finish::Logout => (false, c.finished),
                Finish::ServerCloses => (server.closed && !c.failed(), false),
                Finish::ClientCloses => (false, !server.failed()),
            };
            judge(&c, &server, Verdict { labels: &labels, client_done, all_commands });
            if simcore::failed() {
                return;
            }
            match p.opts.finish {
                Finish::Logout | Finish::ClientCloses if !c.finished => {
                    violate(
                        &labels,
                        "proxy:stalled",
                        format!(
                            "client {id} said {} messages and waits for ever (end {:?}); its server saw {} and sent {} {panics:?}",
                            c.said.len(),
                            c.end,
                            server.seen.len(),
                            server.sent.len()
                        ),
                    );
                    return;
                }
                Finish::Logout | Finish::ClientCloses if server.end.is_none() && !server.failed() => {
                    labels.push("C22");
                    violate(&labels, "proxy:server-not-closed", format!("client {id} is gone, its server still waits {panics:?}"));
                    return;
                }
                Finish::Logout => probe("proxy.session-complete"),
                Finish::ServerCloses => {
                    if c.end.is_none() && !server.stays {
                        labels.push("C22");
                        violate(&labels, "proxy:not-closed", format!("the server closed, client {id} still waits {panics:?}"));
                        return;
                    }
                    if client_done {
                        probe("proxy.server-close-complete");
                    }
                }
                Finish::ClientCloses => {
                    if all_commands {
                        probe("proxy.client-close-complete");
                    }
                }
            }
            cover(&format!(
                "{:?} {} {} {} {} {:?} {:?}",
                p.opts.finish,
                svc.bind_tls,
                svc.connect_tls,
                c.said.len().min(9),
                server.sent.len().min(20),
                c.end,
                server.end
            ));
        }
    }
}

pub fn start_server(s: &Svc, opts: Opts, shared: &Rc<RefCell<Shared>>) {
    let p = (profile(), profile());
    let _ = simcore::net::bind_env(s.server_addr);
    with(|w| w.net.profiles.insert(s.server_addr, p));
    let tls = s.connect_tls.then(|| with_alpn(server_config(s.version_out, s.server_cert), s.alpn_out));
    exec::spawn_env("server host", server_host(s.server_addr, tls, opts, shared.clone()));
}

/// One client, one service, this kind of conversation.
fn conversation(opts: Opts, labels: &[&'static str]) {
    draw_sched();
    let n = if chance(1, 6) { 2 } else { 1 };
    let services = draw_services(n);
    let mut d = Deployment::start(services, &[opts]);
    for i in 0..d.services.len() {
        for _ in 0..if chance(1, 8) { 2 } else { 1 } {
            let p = profile();
            d.client(i, opts, p, labels);
        }
    }
    if !settle() {
        return violate(&["C17", "C19"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    d.judge();
}

/// Literals far beyond anything a buffer holds at once, in both directions.
pub fn bulk(ctx: &Ctx) {
    use exec::Sched;
    let sched = [Sched::Fifo, Sched::Uniform, Sched::EagerNet][draw(3) as usize];
    with(|w| {
        w.exec.sched = Some(sched);
        w.exec.step_cap = 3_000_000;
    });
    let big = [70_000usize, 200_000, 1_100_000, 3_000_000, 26_214_400][simcore::weighted(&[6, 5, 3, 1, (ctx.tier == Tier::Thorough) as u32])];
    let boundary = [8_192usize, 16_384, 65_536, 131_072, 262_144, 1_048_576][draw(6) as usize].min(big);
    let sizes = Sizes { boundary, big };
    let services = draw_services(1);
    let o = Opts { mix: Mix { plain: 2, literal: 5, auth: 1, idle: 0 }, sizes, commands: range(1, 3), chatty: 2, ..OPTS };
    let fast = || {
        let mut p = profile();
        p.tx_cap = 65536;
        p.rx_cap = 65536;
        p.stall = p.stall.min(1);
        p.chunk = [0, 0, 0, 3][p.chunk as usize];
        p.short_write = 0;
        p.short_read = p.short_read.min(2);
        p.spurious = p.spurious.min(1);
        p
    };
    let addr = services[0].server_addr;
    let mut d = Deployment::start(services, &[o]);
    let (a, b) = (fast(), fast());
    with(|w| w.net.profiles.insert(addr, (a, b)));
    d.client(0, o, fast(), &[]);
    if !settle() {
        return violate(&["C17", "C19"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    d.judge();
    if !simcore::failed() {
        probe("proxy.bulk");
    }
}

fn sizes() -> Sizes {
    [Sizes { boundary: 40, big: 600 }, Sizes { boundary: 8, big: 40 }, Sizes { boundary: 128, big: 5000 }]
        [simcore::weighted(&[6, 3, 1])]
}

fn drawn(o: Opts) -> Opts {
    // Now and then a long session, with everything at once.
    if chance(1, 60) {
        let sizes = Sizes { boundary: 8, big: 40 };
        return Opts { sizes, commands: range(20, 120), wait: [1, 0, 0][draw(3) as usize], ..o };
    }
    Opts { sizes: sizes(), commands: range(1, o.commands), wait: [4, 0, 8][draw(3) as usize], ..o }
}

pub fn forward(_: &Ctx) {
    let o = drawn(OPTS);
    conversation(Opts { anomalies: chance(1, 4), too_long: [0, 0, 1][draw(3) as usize], caps: chance(1, 4), ..o }, &[]);
}

/// AUTHENTICATE and IDLE above all.
pub fn exchanges(_: &Ctx) {
    let o = drawn(Opts { mix: Mix { plain: 2, literal: 2, auth: 5, idle: 5 }, commands: 6, ..OPTS });
    conversation(Opts { caps: chance(1, 2), anomalies: chance(1, 8), ..o }, &[]);
}

/// Continuation requests nobody asked for.
pub fn unsolicited(_: &Ctx) {
    let o = drawn(Opts { mix: Mix { plain: 1, literal: 0, auth: 0, idle: 0 }, commands: 6, ..OPTS });
    conversation(Opts { unsolicited: true, caps: chance(1, 2), ..o }, &[]);
}

pub fn capabilities(_: &Ctx) {
    let o = drawn(Opts { mix: Mix { plain: 4, literal: 1, auth: 3, idle: 3 }, commands: 6, ..OPTS });
    conversation(Opts { caps: true, chatty: 4, unsolicited: false, anomalies: chance(1, 8), ..o }, &[]);
}

pub fn refused(_: &Ctx) {
    let o = drawn(Opts { mix: Mix { plain: 2, literal: 8, auth: 1, idle: 1 }, commands: 8, ..OPTS });
    let anomalies = chance(1, 8);
    conversation(Opts { refuse: [3, 6, 8][draw(3) as usize], anomalies, caps: chance(1, 4), ..o }, &[]);
}

pub fn server_closes(_: &Ctx) {
    let o = drawn(Opts { commands: 5, chatty: 5, ..OPTS });
    let anomalies = chance(1, 4);
    conversation(Opts { finish: Finish::ServerCloses, anomalies, ..o }, &["C22"]);
}

pub fn client_closes(_: &Ctx) {
    let o = drawn(Opts { mix: Mix { plain: 1, literal: 0, auth: 0, idle: 0 }, commands: 6, ..OPTS });
    conversation(Opts { finish: Finish::ClientCloses, ..o }, &[]);
}
