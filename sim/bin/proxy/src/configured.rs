//! What the proxy makes of its configuration file: C20.
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::ErrorKind;
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;

use simcore::fs::Entry;
use simcore::harness::Ctx;
use simcore::{chance, cover, draw, exec, fault, log, observe, probe, range, violate, with};
use simgen::Mix;
use simpeer::Peer;

use crate::conn::*;
use crate::forward::{start_server, Deployment};
use crate::world::*;

const C20: &[&str] = &["C20"];

/// The lines the proxy printed, without blank ones.
fn printed() -> Vec<String> {
    with(|w| w.stdout.clone())
        .lines()
        .map(|l| l.trim_end().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with("PANIC"))
        .collect()
}

fn panics() -> Vec<String> {
    with(|w| w.panics.clone())
}

/// Name and addresses of every service, in whichever order the services start.
fn judge_output(services: &[Svc]) {
    let pair = |v: Vec<String>| {
        let mut v: Vec<Vec<String>> = v.chunks(2).map(|c| c.to_vec()).collect();
        v.sort();
        v
    };
    let want: Vec<String> = services
        .iter()
        .flat_map(|s| {
            let [b, c] = s.shown();
            [format!("# {}", s.name).trim_end().to_string(), format!("{b} -> {c}")]
        })
        .collect();
    let got = printed();
    if pair(got.clone()) != pair(want.clone()) {
        violate(C20, "config:output", format!("printed {got:?}, configured {want:?}"));
    }
}

/// Nothing may be listened on, or connected to, that is not configured.
fn judge_network(services: &[Svc], must_bind: bool) {
    let want: BTreeSet<SocketAddr> = services.iter().map(|s| s.bind_addr).collect();
    let (binds, connects) = with(|w| (w.net.binds.clone(), w.net.connects.clone()));
    let got: BTreeSet<SocketAddr> = binds.iter().copied().collect();
    if let Some(a) = got.difference(&want).next() {
        return violate(C20, "config:bind", format!("the proxy listens on {a}, configured are {want:?}"));
    }
    if must_bind && got != want {
        return violate(C20, "config:bind", format!("the proxy listens on {got:?} instead of {want:?}"));
    }
    if got.len() != binds.len() {
        return violate(C20, "config:bind", format!("the proxy bound twice: {binds:?}"));
    }
    let mut allowed = want;
    for s in services {
        allowed.insert(s.server_addr);
        let ips = with(|w| w.net.hosts.get(&s.connect_host).cloned()).unwrap_or_default();
        allowed.extend(ips.into_iter().map(|ip| SocketAddr::new(ip, s.connect_port)));
    }
    if let Some(a) = connects.iter().find(|a| !allowed.contains(a)) {
        violate(C20, "config:connect", format!("the proxy connected to {a}, configured are {allowed:?}"));
    }
}

/// A configuration that must not be used: the default one when another is asked for, or vice versa.
fn put_decoy(used: &str) {
    let mut d = fixed(30);
    d.name = "decoy".into();
    let text = render(&[d], None);
    for p in ["config.toml", "/etc/imap proxy.toml"] {
        if p != used && chance(2, 3) {
            put(p, text.as_bytes());
        }
    }
}

/// Services as configured, each used by a client.
pub fn configured(_: &Ctx) {
    draw_sched();
    let mut services = draw_services(draw(5));
    with(|w| {
        w.net.hosts.insert("other.invalid".into(), vec!["10.9.1.3".parse().unwrap()]);
        w.fs.short_reads = w.chance(1, 3);
    });
    for s in &mut services {
        // A server with a certificate for no other name.
        if s.connect_tls && chance(1, 6) {
            s.connect_host = "other.invalid".into();
            s.server_addr = SocketAddr::new("10.9.1.3".parse::<IpAddr>().unwrap(), s.connect_port);
            s.server_cert = Cert::Other;
        }
    }
    // The first address of a host may be dead.
    if chance(1, 6) {
        fault("server.first-address-dead");
        with(|w| {
            let live = w.net.hosts["mail.example.net"][0];
            w.net.hosts.insert("mail.example.net".into(), vec!["10.9.1.9".parse().unwrap(), live]);
        });
    }
    let opts = Opts {
        mix: Mix { plain: 4, literal: 1, auth: 1, idle: 1 },
        sizes: simgen::SMALL,
        commands: range(1, 3),
        chatty: 1,
        ..OPTS
    };
    // Certificate and key in one file.
    for s in &mut services {
        if chance(1, 6) {
            s.key_path = s.cert_path.clone();
        }
    }
    let path = install(&services);
    for s in &services {
        if s.key_path == s.cert_path {
            let (c, k) = s.bind_cert.pem();
            let both = if chance(1, 2) { [c, b"\n", k].concat() } else { [k, b"\n", c].concat() };
            put(&s.cert_path, &both);
        }
    }
    put_decoy(&path);
    let shared = Rc::new(RefCell::new(Shared::default()));
    for s in &services {
        start_server(s, opts, &shared);
    }
    let exit = start();
    let mut d = Deployment { services, shared, parties: vec![], exit };
    for i in 0..d.services.len() {
        for _ in 0..range(1, 2) {
            d.client(i, opts, profile(), C20);
        }
    }
    if !settle() {
        return violate(&["C17", "C20"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    judge_output(&d.services);
    judge_network(&d.services, true);
    if simcore::failed() {
        return;
    }
    if d.services.is_empty() {
        if matches!(&*d.exit.borrow(), Some(Err(_))) {
            violate(C20, "config:empty", format!("no services configured: {:?}", d.exit.borrow()));
        }
        probe("config.empty");
        return;
    }
    d.judge();
    if simcore::failed() {
        return;
    }
    for p in &d.parties {
        let c = p.log.borrow();
        let s = &d.services[p.svc];
        if s.bind_tls && c.certs != s.bind_cert.ders() {
            return violate(
                C20,
                "config:certificate",
                format!("{} certificates presented, {:?} configured", c.certs.len(), s.bind_cert),
            );
        }
        let shared = d.shared.borrow();
        let server = shared.servers[c.server.expect("judged")].borrow();
        let name = (s.connect_tls && s.connect_host.parse::<IpAddr>().is_err()).then(|| s.connect_host.clone());
        if server.sni.as_ref().map(|n| n.to_ascii_lowercase()) != name.as_ref().map(|n| n.to_ascii_lowercase()) {
            return violate(C20, "config:server-name", format!("the proxy asked for {:?}, configured is {name:?}", server.sni));
        }
        for (who, alpn) in [("client", &c.alpn), ("server", &server.alpn)] {
            match alpn {
                Some(Some(p)) if p == b"imap" => probe("config.alpn-imap"),
                Some(p) => {
                    let p = p.as_ref().map(|p| esc(p));
                    return violate(C20, "config:alpn", format!("the {who} speaks `imap` over TLS, the proxy settled on {p:?}"));
                }
                None => (),
            }
        }
        cover(&format!(
            "{} {} {} {} {} {:?}",
            s.bind_tls,
            s.connect_tls,
            s.bind_port == DEFAULT_PLAIN || s.bind_port == DEFAULT_TLS,
            s.connect_port == DEFAULT_PLAIN || s.connect_port == DEFAULT_TLS,
            s.connect_host,
            s.server_cert
        ));
    }
    probe("config.used");
}

/// How a server is not the one the configuration asks for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrong {
    Name,
    Untrusted,
    PlainInsteadOfTls,
    TlsInsteadOfPlain,
    /// It names application protocols, but not the mail protocol.
    OtherProtocol,
}

/// A server that speaks plain IMAP although the proxy is to use TLS.
async fn plain_host(addr: SocketAddr, got: Rc<RefCell<Vec<u8>>>) {
    loop {
        let Ok(sock) = std::future::poll_fn(|cx| simcore::net::poll_accept_quiet(addr, cx)).await else { return };
        let got = got.clone();
        exec::spawn_env("plain server", async move {
            let mut p = Peer::plain(sock);
            p.queue(b"* OK [CAPABILITY IMAP4rev1 STARTTLS] hello\r\n");
            p.drain().await;
            if chance(1, 2) {
                p.progress().await;
                p.queue(b"* BAD what was that\r\n");
                p.drain().await;
            }
            p.until_end().await;
            got.borrow_mut().extend(&p.got);
        });
    }
}

/// A server the proxy must not talk to, next to a good service.
pub fn wrong_server(_: &Ctx) {
    draw_sched();
    let mut services = draw_services(range(1, 2));
    with(|w| w.net.hosts.insert("other.invalid".into(), vec!["10.9.1.3".parse().unwrap()]));
    let wrong = [Wrong::Untrusted, Wrong::Name, Wrong::PlainInsteadOfTls, Wrong::TlsInsteadOfPlain, Wrong::OtherProtocol][draw(5) as usize];
    let bad = 0;
    {
        let s = &mut services[bad];
        s.connect_tls = wrong != Wrong::TlsInsteadOfPlain;
        match wrong {
            Wrong::Untrusted => s.server_cert = Cert::Rogue,
            // Either way round, the certificate is a good one for somebody else.
            Wrong::Name if chance(2, 3) => {
                const N: &[&str] = &["other.invalid", "www.imap.example.org", "imap.example.org.other.invalid", "xmail.example.net"];
                let name = N[draw(N.len() as u32) as usize];
                with(|w| w.net.hosts.insert(name.into(), vec!["10.9.1.3".parse().unwrap()]));
                s.connect_host = name.into();
                s.server_addr = SocketAddr::new("10.9.1.3".parse::<IpAddr>().unwrap(), s.connect_port);
                s.server_cert = if chance(1, 2) { Cert::Chain } else { Cert::Direct };
            }
            Wrong::Name => s.server_cert = Cert::Other,
            Wrong::OtherProtocol => s.alpn_out = FOREIGN,
            _ => {}
        }
    }
    fault(match wrong {
        Wrong::Name => "server.certificate-for-another-name",
        Wrong::Untrusted => "server.untrusted",
        Wrong::PlainInsteadOfTls => "server.plain-instead-of-tls",
        Wrong::TlsInsteadOfPlain => "server.tls-instead-of-plain",
        Wrong::OtherProtocol => "server.another-protocol",
    });
    let opts = Opts { sizes: simgen::SMALL, commands: range(1, 3), chatty: 3, ..OPTS };
    install(&services);
    let shared = Rc::new(RefCell::new(Shared::default()));
    let plain: Rc<RefCell<Vec<u8>>> = Rc::default();
    for (i, s) in services.iter().enumerate() {
        let mut real = s.clone();
        if i == bad && wrong == Wrong::PlainInsteadOfTls {
            let _ = simcore::net::bind_env(s.server_addr);
            exec::spawn_env("plain server host", plain_host(s.server_addr, plain.clone()));
            continue;
        }
        if i == bad && wrong == Wrong::TlsInsteadOfPlain {
            real.connect_tls = true;
        }
        start_server(&real, opts, &shared);
    }
    let exit = start();
    let mut d = Deployment { services, shared, parties: vec![], exit };
    let mut logs = vec![];
    for _ in 0..range(1, 2) {
        logs.push(d.client(bad, opts, profile(), C20));
    }
    // They are not expected to be served.
    d.parties.clear();
    for i in 1..d.services.len() {
        d.client(i, opts, profile(), &["C19"]);
    }
    if !settle() {
        return violate(&["C17", "C20"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    judge_network(&d.services, true);
    for l in &logs {
        let c = l.borrow();
        if !c.got.is_empty() {
            return violate(
                C20,
                "config:wrong-server-used",
                format!("{wrong:?}: the client got {} messages from a server the proxy must not talk to", c.got.len()),
            );
        }
        if wrong != Wrong::TlsInsteadOfPlain && !c.handshake_failed && c.end.is_none() {
            return violate(&["C20", "C19"], "config:wrong-server-hangs", format!("{wrong:?}: the client is left waiting {:?}", panics()));
        }
    }
    if plain.borrow().windows(4).any(|w| matches!(w, b"NOOP" | b"LOGO" | b"LOGI" | b"IDLE" | b"AUTH" | b"SELE")) {
        return violate(C20, "config:wrong-server-used", format!("{wrong:?}: the server got \"{}\"", esc(&plain.borrow())));
    }
    let addr = d.services[bad].server_addr;
    for s in d.shared.borrow().servers.iter() {
        let s = s.borrow();
        if s.addr == Some(addr) && !s.seen.is_empty() {
            return violate(C20, "config:wrong-server-used", format!("{wrong:?}: the server got {:?}", s.seen));
        }
    }
    d.judge();
    if !simcore::failed() {
        probe("config.wrong-server-avoided");
    }
}

/// Plain clients on a TLS port must not be served in the clear, whatever they say.
pub fn plain_client(_: &Ctx) {
    draw_sched();
    let mut services = draw_services(range(1, 2));
    services[0].bind_tls = true;
    let broken = draw(8);
    let s0 = services[0].clone();
    install(&services);
    let identity = match broken {
        0..=2 => "",
        3 => {
            with(|w| w.fs.files.remove(&s0.cert_path));
            "identity.no-certificate"
        }
        4 => {
            let kind = [ErrorKind::PermissionDenied, ErrorKind::Other][draw(2) as usize];
            with(|w| w.fs.files.insert(s0.key_path.clone(), Entry::Error(kind)));
            "identity.unreadable-key"
        }
        5 => {
            put(&s0.cert_path, [&b""[..], b"nothing here\n", b"-----BEGIN CERTIFICATE-----\nAAAA\n"][draw(3) as usize]);
            "identity.no-certificate-inside"
        }
        6 => {
            let k = s0.bind_cert.pem().1;
            let k = match draw(3) {
                0 => vec![],
                1 => [k, k].concat(),
                _ => k[..k.len() / 2].to_vec(),
            };
            put(&s0.key_path, &k);
            "identity.not-one-key"
        }
        _ => {
            // A key that belongs to another certificate.
            put(&s0.key_path, Cert::Other.pem().1);
            "identity.key-mismatch"
        }
    };
    if !identity.is_empty() {
        fault(identity);
    }
    let opts = Opts { sizes: simgen::SMALL, commands: range(1, 3), chatty: 3, ..OPTS };
    let shared = Rc::new(RefCell::new(Shared::default()));
    for s in &services {
        start_server(s, opts, &shared);
    }
    let exit = start();
    let mut d = Deployment { services, shared, parties: vec![], exit };
    let seen: Rc<RefCell<Vec<u8>>> = Rc::default();
    for k in 0..range(1, 2) {
        let (addr, seen, p) = (s0.bind_addr, seen.clone(), profile());
        exec::spawn_env(format!("plain client {k}"), async move {
            let Some(sock) = dial(addr, p).await else { return };
            let mut p = Peer::plain(sock);
            for _ in 0..draw(3) {
                p.queue([&b"x1 NOOP\r\n"[..], b"\r\n", b"x2 STARTTLS\r\n", b"x3 LOGIN a b\r\n"][draw(4) as usize]);
                p.drain().await;
            }
            p.until_end().await;
            seen.borrow_mut().extend(&p.got);
        });
    }
    let mut secure = vec![];
    if !identity.is_empty() {
        secure.push(d.client(0, opts, profile(), C20));
        d.parties.clear();
    } else {
        if chance(1, 3) {
            // A client that names protocols, but not the mail protocol, must not be served either.
            fault("client.another-protocol");
            let alpn = std::mem::replace(&mut d.services[0].alpn_in, FOREIGN);
            secure.push(d.client(0, opts, profile(), C20));
            d.services[0].alpn_in = alpn;
            d.parties.clear();
        }
        d.client(0, opts, profile(), C20);
    }
    for i in 1..d.services.len() {
        d.client(i, opts, profile(), &["C19"]);
    }
    if !settle() {
        return violate(&["C17", "C20"], "proxy:no-rest", "the proxy keeps working for ever although nothing happens");
    }
    judge_network(&d.services, false);
    let seen = seen.borrow();
    if seen.windows(4).any(|w| w == b"* OK" || w == b"* PR" || w == b"* BY" || w == b"x1 O") {
        return violate(C20, "config:plain-on-tls-port", format!("a plain client was served on a TLS port: \"{}\"", esc(&seen)));
    }
    for l in &secure {
        let l = l.borrow();
        if !l.got.is_empty() || !l.certs.is_empty() {
            let why = if identity.is_empty() { "another application protocol" } else { identity };
            return violate(C20, "config:identity", format!("{why}: the client was served all the same ({} certificates)", l.certs.len()));
        }
    }
    d.judge();
    if !simcore::failed() {
        probe(if identity.is_empty() { "config.plain-refused" } else { "config.identity-refused" });
    }
}

// ---- configurations that are none ----------------------------------------------------------------

const FIELDS: &[(&str, &[&str])] = &[
    ("service.name", &["5", "true", "[\"a\"]", "{}"]),
    ("bind", &["5", "\"127.0.0.1:143\"", "[]", "{}", "\"Insecure\""]),
    ("connect", &["5", "\"127.0.0.1:143\"", "[]", "{}", "\"Tls\""]),
    ("bind.encryption", &["\"tls\"", "\"StartTls\"", "\"\"", "\"None\"", "1", "\"insecure\"", "\"Plain\""]),
    ("connect.encryption", &["\"tls\"", "\"StartTls\"", "\"\"", "\"None\"", "1", "\"insecure\"", "\"Plain\""]),
    ("bind.host", &["5", "true", "[]", "[127, 0, 0, 1]"]),
    ("connect.host", &["5", "true", "[]", "[127, 0, 0, 1]"]),
    ("bind.port", PORTS),
    ("connect.port", PORTS),
    ("bind.identity", &["5", "\"cert.pem\"", "[]", "{}"]),
    ("identity.type", &["\"Pkcs12\"", "\"\"", "1", "\"certificatechainandleafkey\""]),
    ("identity.certificate_chain_path", &["5", "[]", "false"]),
    ("identity.leaf_key_path", &["5", "[]", "false"]),
];
const PORTS: &[&str] =
    &["\"993\"", "-1", "65536", "65679", "4294967439", "993.0", "true", "[143]", "-143", "18446744073709551615", "\"\""];

/// Draw a flaw that makes the file invalid for this service.
fn draw_flaw(s: &Svc) -> Flaw {
    loop {
        let (path, values) = FIELDS[draw(FIELDS.len() as u32) as usize];
        let identity = path.contains("identity");
        if identity && !s.bind_tls {
            continue;
        }
        let kind = draw(3);
        let port = path.ends_with(".port");
        return match kind {
            // Without a port the default is used.
            0 if !port && path == "bind.identity" => Flaw::Missing("identity"),
            0 if !port => Flaw::Missing(path),
            1 if path.contains('.') && path != "bind.identity" => Flaw::Twice(path),
            _ => {
                let v = values[draw(values.len() as u32) as usize];
                if path == "bind.identity" {
                    // Not rendered next to the proper one.
                    return Flaw::Value("identity", v);
                }
                Flaw::Value(path, v)
            }
        };
    }
}

/// A configuration file that cannot be used: the proxy must say so and do nothing else.
pub fn unusable(_: &Ctx) {
    draw_sched();
    let mut services = draw_services(range(1, 3));
    if chance(1, 2) {
        services[0].bind_tls = true;
    }
    let path = if chance(1, 2) { "/etc/imap proxy.toml" } else { "config.toml" };
    install(&services);
    with(|w| w.fs.files.retain(|p, _| !p.ends_with(".toml")));
    args_for(path);
    put_decoy(path);
    let what = draw(12);
    let mut flawed = String::new();
    match what {
        0 => {
            fault("config.missing");
        }
        1 => {
            fault("config.unreadable");
            const K: &[ErrorKind] = &[
                ErrorKind::PermissionDenied,
                ErrorKind::NotFound,
                ErrorKind::Other,
                ErrorKind::IsADirectory,
                ErrorKind::InvalidInput,
                ErrorKind::TimedOut,
            ];
            let k = K[draw(K.len() as u32) as usize];
            with(|w| w.fs.files.insert(path.into(), Entry::Error(k)));
        }
        2 => {
            fault("config.not-utf8");
            let mut t = render(&services, None).into_bytes();
            let at = draw(t.len() as u32 + 1) as usize;
            let bad: &[u8] = [&[0xff][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0x80]][draw(4) as usize];
            t.splice(at..at, bad.iter().copied());
            put(path, &t);
        }
        3 => {
            fault("config.no-services");
            const T: &[&str] = &[
                "",
                "# services = []\n",
                "service = []\n",
                "[services]\nname = \"x\"\n",
                "services = \"x\"\n",
                "services = 1\n",
                "services = [1]\n",
                "services = [{}]\n",
                "{\"services\": []}",
            ];
            put(path, T[draw(T.len() as u32) as usize].as_bytes());
        }
        4 => {
            fault("config.syntax");
            let t = render(&services, None);
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            let at = draw(lines.len() as u32 + 1) as usize;
            const J: &[&str] = &["= 1\n", "]]\n", "[[services\n", "port = \n", "name = \"\n", "host = 'a\n", "x y z\n", "{\n", "a = 1 b = 2\n"];
            let junk = J[draw(J.len() as u32) as usize];
            let t = [lines[..at].concat(), junk.to_string(), lines[at..].concat()].concat();
            put(path, t.as_bytes());
        }
        _ => {
            fault("config.field");
            let k = draw(services.len() as u32) as usize;
            let flaw = draw_flaw(&services[k]);
            log(|| format!("service {k}: {flaw:?}"));
            flawed = format!("{flaw:?}");
            let t = render(&services, Some((k, &flaw)));
            put(path, t.as_bytes());
        }
    }
    let t = with(|w| match w.fs.files.get(path) {
        Some(Entry::Data(d)) => String::from_utf8_lossy(d).to_string(),
        Some(Entry::Error(k)) => format!("({k:?})"),
        None => "(none)".into(),
    });
    observe(t.as_bytes());
    log(|| format!("{path}:\n{t}"));
    direct_error(path, what);
    let shared = Rc::new(RefCell::new(Shared::default()));
    for s in &services {
        start_server(s, OPTS, &shared);
    }
    let exit = start();
    if !settle() {
        return violate(C20, "proxy:no-rest", "the proxy keeps working for ever although its configuration is unusable");
    }
    let (binds, connects) = with(|w| (w.net.binds.clone(), w.net.connects.clone()));
    if !binds.is_empty() || !connects.is_empty() {
        return violate(C20, "config:unusable-used", format!("it listens on {binds:?} and connected to {connects:?}"));
    }
    match &*exit.borrow() {
        None | Some(Ok(())) => {
            return violate(C20, "config:unusable-accepted", format!("the proxy's result is {:?}", exit.borrow()));
        }
        Some(Err(e)) if e.starts_with("PANIC") => {
            return violate(C20, "config:unusable-panic", format!("instead of an error: {e}"));
        }
        Some(Err(_)) => {}
    }
    if !printed().is_empty() {
        return violate(C20, "config:unusable-output", format!("printed {:?}", printed()));
    }
    cover(&format!("unusable {what} {}", flawed));
    probe("config.unusable-refused");
}

// ---- the parsed values themselves ------------------------------------------------------------------

#[cfg(not(feature = "mount"))]
fn direct_error(_: &str, _: u32) {}
#[cfg(not(feature = "mount"))]
pub fn parsed(c: &Ctx) {
    configured(c)
}

#[cfg(feature = "mount")]
fn direct_error(path: &str, what: u32) {
    use sut_config::config::{Config, Error};
    let ok = match (Config::load(path), what) {
        (Err(Error::Io(_)), 0..=2) | (Err(Error::Parse(_)), 3..) => true,
        (r, _) => {
            violate(C20, "config:unusable-accepted", format!("Config::load returned {r:?}"));
            false
        }
    };
    if ok {
        probe("config.load-error");
    }
}

#[cfg(feature = "mount")]
fn expected(s: &Svc) -> sut_config::config::Service {
    use sut_config::config::{Bind, Connect, Identity, Service};
    Service {
        name: s.name.clone(),
        bind: if s.bind_tls {
            Bind::Tls {
                host: s.bind_host.clone(),
                port: s.bind_port,
                identity: Identity::CertificateChainAndLeafKey {
                    certificate_chain_path: s.cert_path.clone(),
                    leaf_key_path: s.key_path.clone(),
                },
            }
        } else {
            Bind::Insecure { host: s.bind_host.clone(), port: s.bind_port }
        },
        connect: if s.connect_tls {
            Connect::Tls { host: s.connect_host.clone(), port: s.connect_port }
        } else {
            Connect::Insecure { host: s.connect_host.clone(), port: s.connect_port }
        },
    }
}

/// Load a drawn configuration and look at every value, without running the proxy.
#[cfg(feature = "mount")]
pub fn parsed(_: &Ctx) {
    use sut_config::config::{Bind, Config, Connect, Identity};
    let mut services = vec![];
    for i in 0..draw(6) {
        // No need to be free of clashes here, and any string will do.
        let mut s = fixed(i as usize);
        s.bind_tls = chance(1, 2);
        s.connect_tls = chance(1, 2);
        s.bind_port = any_port();
        s.connect_port = any_port();
        s.bind_host = text();
        s.connect_host = text();
        s.cert_path = text();
        s.key_path = text();
        s.name = text();
        services.push(s);
    }
    let path = install(&services);
    put_decoy(&path);
    for s in &services {
        observe(format!("{s:?}").as_bytes());
    }
    let config = match Config::load(&path) {
        Ok(c) => c,
        Err(e) => return violate(C20, "config:refused", format!("a valid configuration was refused: {e}")),
    };
    if config.services.len() != services.len() {
        return violate(C20, "config:services", format!("{} services instead of {}", config.services.len(), services.len()));
    }
    for (s, g) in services.iter().zip(&config.services) {
        let want = expected(s);
        // Field by field, not trusting the comparison.
        let (wb, wc) = (s.bind_host.as_str(), s.connect_host.as_str());
        let bind_ok = match &g.bind {
            Bind::Insecure { host, port } => !s.bind_tls && host == wb && *port == s.bind_port,
            Bind::Tls { host, port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path } } => {
                s.bind_tls
                    && host == wb
                    && *port == s.bind_port
                    && *certificate_chain_path == s.cert_path
                    && *leaf_key_path == s.key_path
            }
        };
        let connect_ok = match &g.connect {
            Connect::Insecure { host, port } => !s.connect_tls && host == wc && *port == s.connect_port,
            Connect::Tls { host, port } => s.connect_tls && host == wc && *port == s.connect_port,
        };
        if !bind_ok || !connect_ok || g.name != s.name {
            return violate(C20, "config:value", format!("read {g:?}, written was {want:?}"));
        }
        if *g != want || g.clone() != *g {
            return violate(C20, "config:eq", format!("{g:?} and {want:?} compare as different"));
        }
        let [b, c] = s.shown();
        if g.bind.to_string() != b || g.connect.to_string() != c {
            return violate(C20, "config:output", format!("shown as {} -> {}, configured is {b} -> {c}", g.bind, g.connect));
        }
        let (b, c) = (format!("{wb}:{}", s.bind_port), format!("{wc}:{}", s.connect_port));
        if g.bind.addr_port() != b || g.connect.addr_port() != c {
            return violate(C20, "config:address", format!("used as {} and {}, configured is {b} and {c}", g.bind.addr_port(), g.connect.addr_port()));
        }
    }
    let written = match toml::to_string(&config) {
        Ok(t) => t,
        Err(e) => return violate(C20, "config:write", format!("cannot be written: {e}")),
    };
    put("again.toml", written.as_bytes());
    match Config::load("again.toml") {
        Ok(again) if again == config => {}
        r => return violate(C20, "config:write", format!("written and read again it is {r:?}, before {config:?}")),
    }
    cover(&format!("parsed {:?}", services.iter().map(|s| (s.bind_tls, s.connect_tls)).collect::<Vec<_>>()));
    probe("config.parsed");
}

#[cfg(feature = "mount")]
fn any_port() -> u16 {
    const P: &[u16] = &[DEFAULT_PLAIN, DEFAULT_TLS, 0, 1, 142, 144, 587, 992, 994, 1143, 32767, 32768, 65535];
    if chance(1, 4) {
        draw(65536) as u16
    } else {
        P[draw(P.len() as u32) as usize]
    }
}

#[cfg(feature = "mount")]
fn text() -> String {
    const T: &[&str] = &[
        "localhost", "127.0.0.1", "imap.example.org", "", "::1", "[::1]", "Ünïcode", "a b", "x:y", "/etc/ssl/cert.pem",
        "C:\\certs\\leaf.pem", "quote\"d", "tab\there", "{host}", "{}", "#", "IMAP.EXAMPLE.ORG", "a=b", "..",
    ];
    T[draw(T.len() as u32) as usize].to_string()
}
