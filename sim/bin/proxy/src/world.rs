//! A drawn deployment of the proxy: services, their configuration file, certificates, names.
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

use simcore::fs::Entry;
use simcore::net::{self, Profile};
use simcore::{chance, draw, exec, log, weighted, with};
use simpeer::{Version, CHAIN, CHAIN_KEY, DIRECT, DIRECT_KEY, OTHER, OTHER_KEY, ROGUE, ROGUE_KEY};

use crate::conn::{ip, Endpoint};

/// Certificates of the simulation, all with PKCS#8 keys.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cert {
    /// Leaf under an intermediate under the trusted root; the file holds leaf and intermediate.
    Chain,
    /// Leaf directly under the trusted root.
    Direct,
    /// Trusted, but for another name.
    Other,
    /// Not trusted.
    Rogue,
}

impl Cert {
    pub fn pem(self) -> (&'static [u8], &'static [u8]) {
        match self {
            Cert::Chain => (CHAIN, CHAIN_KEY),
            Cert::Direct => (DIRECT, DIRECT_KEY),
            Cert::Other => (OTHER, OTHER_KEY),
            Cert::Rogue => (ROGUE, ROGUE_KEY),
        }
    }
    pub fn ders(self) -> Vec<Vec<u8>> {
        simpeer::chain(self.pem().0).iter().map(|c| c.to_vec()).collect()
    }
}

pub fn server_config(v: Version, c: Cert) -> Arc<rustls::ServerConfig> {
    static C: OnceLock<Vec<Arc<rustls::ServerConfig>>> = OnceLock::new();
    let all = C.get_or_init(|| {
        let mut l = vec![];
        for v in [Version::V13, Version::V12] {
            for c in [Cert::Chain, Cert::Direct, Cert::Other, Cert::Rogue] {
                let (p, k) = c.pem();
                l.push(simpeer::server_config_with(v, p, k));
            }
        }
        l
    });
    all[v as usize * 4 + c as usize].clone()
}

/// The application protocols (ALPN) a peer of the proxy names.
pub type Alpn = &'static [&'static [u8]];
pub const NO_ALPN: Alpn = &[];
pub const IMAP: Alpn = &[b"imap"];
pub const IMAP_TOO: Alpn = &[b"http/1.1", b"imap"];
pub const FOREIGN: Alpn = &[b"http/1.1"];

/// What a well-configured peer of the proxy names.
pub fn draw_alpn() -> Alpn {
    [NO_ALPN, IMAP, IMAP_TOO][draw(3) as usize]
}

pub fn with_alpn(c: Arc<rustls::ServerConfig>, alpn: Alpn) -> Arc<rustls::ServerConfig> {
    let mut c = rustls::ServerConfig::clone(&c);
    c.alpn_protocols = alpn.iter().map(|p| p.to_vec()).collect();
    Arc::new(c)
}

#[derive(Clone, Debug)]
pub struct Svc {
    pub name: String,
    pub bind_tls: bool,
    pub bind_host: String,
    pub bind_port: u16,
    pub bind_addr: SocketAddr,
    pub bind_cert: Cert,
    pub cert_path: String,
    pub key_path: String,
    pub connect_tls: bool,
    pub connect_host: String,
    pub connect_port: u16,
    pub server_addr: SocketAddr,
    pub server_cert: Cert,
    pub version_in: Version,
    pub version_out: Version,
    /// The application protocols the mail server names, and those the clients name.
    pub alpn_out: Alpn,
    pub alpn_in: Alpn,
}

impl Svc {
    pub fn endpoint(&self) -> Endpoint {
        Endpoint { addr: self.bind_addr, tls: self.bind_tls, version: self.version_in, alpn: self.alpn_in }
    }
    pub fn shown(&self) -> [String; 2] {
        let show = |tls: bool, host: &str, port: u16| {
            if tls {
                format!("imaps://{host}:{port} (TLS)")
            } else {
                format!("imap://{host}:{port} (insecure)")
            }
        };
        [
            show(self.bind_tls, &self.bind_host, self.bind_port),
            show(self.connect_tls, &self.connect_host, self.connect_port),
        ]
    }
}

pub const DEFAULT_PLAIN: u16 = 143;
pub const DEFAULT_TLS: u16 = 993;

fn version() -> Version {
    if chance(1, 3) {
        Version::V12
    } else {
        Version::V13
    }
}

/// Services with pairwise different listening and server addresses.
pub fn draw_services(n: u32) -> Vec<Svc> {
    let mut v: Vec<Svc> = vec![];
    with(|w| {
        w.net.hosts.insert("imap.example.org".into(), vec![ip("10.9.1.1")]);
        w.net.hosts.insert("mail.example.net".into(), vec![ip("10.9.1.2")]);
        w.net.hosts.insert("IMAP.Example.org".into(), vec![ip("10.9.1.1")]);
        w.net.hosts.insert("proxy.example.org".into(), vec![ip("10.8.0.1")]);
    });
    const BIND: &[(&str, &str)] = &[
        ("127.0.0.1", "127.0.0.1"),
        ("localhost", "127.0.0.1"),
        ("10.8.0.2", "10.8.0.2"),
        ("proxy.example.org", "10.8.0.1"),
        ("0.0.0.0", "0.0.0.0"),
    ];
    const CONNECT: &[(&str, &str)] = &[
        ("imap.example.org", "10.9.1.1"),
        ("10.9.0.1", "10.9.0.1"),
        ("mail.example.net", "10.9.1.2"),
        ("10.9.0.2", "10.9.0.2"),
        ("localhost", "127.0.0.1"),
        ("IMAP.Example.org", "10.9.1.1"),
    ];
    while (v.len() as u32) < n {
        let i = v.len();
        let bind_tls = chance(1, 2);
        let connect_tls = chance(1, 2);
        let (bind_host, bind_ip) = BIND[draw(BIND.len() as u32) as usize];
        let (connect_host, connect_ip) = CONNECT[draw(CONNECT.len() as u32) as usize];
        let bind_port = match weighted(&[3, 2, 1]) {
            0 => [1143, 2993, 3143, 4993, 10143][i % 5],
            1 if bind_tls => DEFAULT_TLS,
            1 => DEFAULT_PLAIN,
            _ => [DEFAULT_PLAIN, DEFAULT_TLS, 1, 65535, 8143][draw(5) as usize],
        };
        let connect_port = match weighted(&[3, 2, 1]) {
            0 if connect_tls => DEFAULT_TLS,
            0 => DEFAULT_PLAIN,
            1 => [5143, 5993, 6143, 6993, 7143][i % 5],
            _ => [DEFAULT_TLS, DEFAULT_PLAIN, 1, 65535, 9143][draw(5) as usize],
        };
        let bind_addr = SocketAddr::new(ip(bind_ip), bind_port);
        let server_addr = SocketAddr::new(ip(connect_ip), connect_port);
        let clash = v.iter().any(|s| {
            s.bind_addr.port() == bind_port || s.server_addr == server_addr || s.server_addr.port() == bind_port
        }) || bind_port == connect_port
            || v.iter().any(|s| s.bind_addr.port() == connect_port);
        if clash {
            // Shrinks to a fixed, clash-free layout.
            let s = fixed(i);
            if v.iter().any(|o| o.bind_addr.port() == s.bind_addr.port() || o.server_addr == s.server_addr) {
                break;
            }
            v.push(s);
            continue;
        }
        v.push(Svc {
            name: name(i),
            bind_tls,
            bind_host: bind_host.into(),
            bind_port,
            bind_addr,
            bind_cert: if chance(1, 2) { Cert::Direct } else { Cert::Chain },
            cert_path: format!("{}cert{i}.pem", ["", "private/", "/etc/proxy certs/"][draw(3) as usize]),
            key_path: format!("{}key{i}.pem", ["", "private/", "/etc/proxy certs/"][draw(3) as usize]),
            connect_tls,
            connect_host: connect_host.into(),
            connect_port,
            server_addr,
            server_cert: if chance(1, 3) { Cert::Direct } else { Cert::Chain },
            version_in: version(),
            version_out: version(),
            alpn_out: draw_alpn(),
            alpn_in: draw_alpn(),
        });
    }
    v
}

pub fn fixed(i: usize) -> Svc {
    let port = 20000 + i as u16;
    Svc {
        name: name(i),
        bind_tls: false,
        bind_host: "127.0.0.1".into(),
        bind_port: port,
        bind_addr: SocketAddr::new(ip("127.0.0.1"), port),
        bind_cert: Cert::Chain,
        cert_path: format!("cert{i}.pem"),
        key_path: format!("key{i}.pem"),
        connect_tls: false,
        connect_host: "10.9.0.3".into(),
        connect_port: port + 1000,
        server_addr: SocketAddr::new(ip("10.9.0.3"), port + 1000),
        server_cert: Cert::Chain,
        version_in: Version::V13,
        version_out: Version::V13,
        alpn_out: NO_ALPN,
        alpn_in: NO_ALPN,
    }
}

fn name(i: usize) -> String {
    const N: &[&str] = &["Insecure to TLS", "Best Email Provider", "x", "", "Bücher \"und\" mehr", "a -> b", "# 1", "a\\b"];
    let n = N[draw(N.len() as u32) as usize];
    if chance(1, 8) {
        n.to_string()
    } else {
        format!("{n}{}", i + 1)
    }
}

// ---- the configuration file ------------------------------------------------------------------

fn quote(s: &str) -> String {
    if !s.contains('\'') && chance(1, 3) {
        return format!("'{s}'");
    }
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\t', "\\t"))
}

fn shuffle<T>(mut v: Vec<T>) -> Vec<T> {
    if chance(1, 2) {
        for i in (1..v.len()).rev() {
            let j = draw(i as u32 + 1) as usize;
            v.swap(i, j);
        }
    }
    v
}

/// Something wrong with one place of a configuration file.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Flaw {
    Missing(&'static str),
    Value(&'static str, &'static str),
    Twice(&'static str),
}

/// Apply the flaw to the fields of one table.
fn spoil(mut f: Vec<(String, String)>, table: &str, flaw: Option<&Flaw>) -> Vec<(String, String)> {
    let key = |p: &str| -> Option<String> {
        let (t, k) = p.split_once('.')?;
        (t == table).then(|| k.to_string())
    };
    match flaw {
        Some(Flaw::Missing(p)) => {
            if let Some(k) = key(p) {
                f.retain(|x| x.0 != k);
            }
        }
        Some(Flaw::Value(p, v)) => {
            if let Some(k) = key(p) {
                f.retain(|x| x.0 != k);
                f.push((k, v.to_string()));
            }
        }
        Some(Flaw::Twice(p)) => {
            if let Some(k) = key(p) {
                let v = f.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or("1".into());
                f.retain(|x| x.0 != k);
                f.push((k.clone(), v.clone()));
                f.push((k, v));
            }
        }
        None => {}
    }
    f
}

fn side(tls: bool, host: &str, port: u16) -> Vec<(String, String)> {
    let mut f = vec![
        ("encryption".to_string(), quote(if tls { "Tls" } else { "Insecure" })),
        ("host".to_string(), quote(host)),
    ];
    let default = if tls { DEFAULT_TLS } else { DEFAULT_PLAIN };
    if port != default || chance(1, 2) {
        f.push(("port".to_string(), port.to_string()));
    }
    shuffle(f)
}

fn inline(f: &[(String, String)]) -> String {
    let l: Vec<String> = f.iter().map(|(k, v)| format!("{k} = {v}")).collect();
    format!("{{ {} }}", l.join(", "))
}

fn identity_inline(i: &Result<Vec<(String, String)>, String>) -> String {
    match i {
        Ok(f) => inline(f),
        Err(v) => v.clone(),
    }
}

fn comment() -> String {
    match weighted(&[5, 1, 1]) {
        0 => String::new(),
        1 => "\n".into(),
        _ => "# port = 1, host = \"none\"\n".into(),
    }
}

/// One of the many ways to write this configuration down.
pub fn render(services: &[Svc], flaw: Option<(usize, &Flaw)>) -> String {
    let mut out = String::new();
    if services.is_empty() {
        return "services = []\n".into();
    }
    for (i, s) in services.iter().enumerate() {
        let flaw = flaw.filter(|f| f.0 == i).map(|f| f.1);
        out += &comment();
        out += "[[services]]\n";
        for (k, v) in spoil(vec![("name".into(), quote(&s.name))], "service", flaw) {
            out += &format!("{k} = {v}\n");
        }
        let identity = vec![
            ("type".to_string(), quote("CertificateChainAndLeafKey")),
            ("certificate_chain_path".to_string(), quote(&s.cert_path)),
            ("leaf_key_path".to_string(), quote(&s.key_path)),
        ];
        let identity = shuffle(spoil(identity, "identity", flaw));
        let bind = spoil(side(s.bind_tls, &s.bind_host, s.bind_port), "bind", flaw);
        let connect = spoil(side(s.connect_tls, &s.connect_host, s.connect_port), "connect", flaw);
        let no_identity = flaw == Some(&Flaw::Missing("identity"));
        let identity = match flaw {
            Some(Flaw::Value("identity", v)) => Err(v.to_string()),
            _ => Ok(identity),
        };
        let mut parts = vec![];
        let mut tables = vec![];
        // Inline tables have to come before the sub-tables.
        if flaw == Some(&Flaw::Missing("bind")) {
        } else if let Some(Flaw::Value("bind", v)) = flaw {
            parts.push(format!("bind = {v}\n"));
        } else if chance(1, 2) {
            let mut b = bind;
            if s.bind_tls && !no_identity {
                b.push(("identity".into(), identity_inline(&identity)));
            }
            parts.push(format!("bind = {}\n", inline(&shuffle(b))));
        } else {
            let mut t = String::from("[services.bind]\n");
            let mut b = bind;
            let nested = s.bind_tls && identity.is_ok() && chance(1, 2);
            if s.bind_tls && !nested && !no_identity {
                b.push(("identity".into(), identity_inline(&identity)));
            }
            for (k, v) in &shuffle(b) {
                t += &format!("{k} = {v}\n");
                t += &comment();
            }
            if nested && !no_identity {
                t += "[services.bind.identity]\n";
                for (k, v) in identity.iter().flatten() {
                    t += &format!("{k} = {v}\n");
                }
            }
            tables.push(t);
        }
        if flaw == Some(&Flaw::Missing("connect")) {
        } else if let Some(Flaw::Value("connect", v)) = flaw {
            parts.push(format!("connect = {v}\n"));
        } else if chance(1, 2) {
            parts.push(format!("connect = {}\n", inline(&connect)));
        } else {
            let mut t = String::from("[services.connect]\n");
            for (k, v) in &connect {
                t += &format!("{k} = {v}\n");
            }
            tables.push(t);
        }
        for p in shuffle(parts) {
            out += &p;
        }
        for t in shuffle(tables) {
            out += &t;
        }
    }
    if chance(1, 8) {
        out = out.replace('\n', "\r\n");
    }
    out
}

pub fn put(path: &str, data: &[u8]) {
    with(|w| w.fs.files.insert(path.to_string(), Entry::Data(data.to_vec())));
}

/// Write configuration and certificate files.
pub fn install(services: &[Svc]) -> String {
    let text = render(services, None);
    log(|| format!("config:\n{text}"));
    let path = if chance(1, 3) { "/etc/imap proxy.toml" } else { "config.toml" };
    put(path, text.as_bytes());
    args_for(path);
    for s in services {
        let (c, k) = s.bind_cert.pem();
        put(&s.cert_path, c);
        put(&s.key_path, k);
    }
    path.into()
}

/// Tell the proxy where its configuration is.
pub fn args_for(path: &str) {
    with(|w| {
        w.args = if path == "config.toml" && !w.chance(1, 4) {
            vec![]
        } else {
            vec!["--config".into(), path.into()]
        };
    });
}

/// How the proxy's main function ended, if it did.
pub type Exit = Rc<RefCell<Option<Result<(), String>>>>;

/// What `main` may return.
trait Finish {
    fn finish(self) -> Result<(), String>;
}
impl Finish for () {
    fn finish(self) -> Result<(), String> {
        Ok(())
    }
}
impl<T: Finish, E: std::fmt::Debug> Finish for Result<T, E> {
    fn finish(self) -> Result<(), String> {
        match self {
            Ok(v) => v.finish(),
            Err(e) => Err(format!("{e:?}")),
        }
    }
}
impl Finish for std::process::ExitCode {
    fn finish(self) -> Result<(), String> {
        if self == std::process::ExitCode::SUCCESS {
            Ok(())
        } else {
            Err(format!("{self:?}"))
        }
    }
}

pub fn start() -> Exit {
    simpeer::install_provider();
    let exit: Exit = Rc::new(RefCell::new(None));
    let (a, b) = (exit.clone(), exit.clone());
    exec::spawn(
        "proxy",
        exec::Kind::Sut,
        Box::pin(async move {
            let r = proxy::main().await.finish();
            log(|| format!("proxy main returned {r:?}"));
            simcore::secrets::shown("exit", &format!("{r:?}"));
            *a.borrow_mut() = Some(r);
            exec::end_process(None);
        }),
        Some(Box::new(move |msg| {
            *b.borrow_mut() = Some(match msg.strip_prefix("EXIT ") {
                Some("0") => Ok(()),
                Some(_) => Err(msg),
                None => Err(format!("PANIC {msg}")),
            })
        })),
    );
    exit
}

/// Let the simulation run until nothing can happen any more. False: it never came to rest.
pub fn settle() -> bool {
    let forever = exec::spawn_env("end", std::future::pending());
    let end = exec::run_until(forever);
    log(|| format!("settled: {end:?}"));
    end != exec::End::StepCap
}

pub fn draw_sched() {
    use exec::Sched;
    let s = [Sched::Fifo, Sched::Uniform, Sched::EagerNet, Sched::Lifo, Sched::Starve][draw(5) as usize];
    with(|w| {
        w.exec.sched = Some(s);
        w.exec.step_cap = 3_000_000;
    });
}

/// Traffic shape between two machines.
pub fn profile() -> Profile {
    let mut p = net::draw_profile();
    // Single bytes both ways through two connections take long; keep some of it.
    if p.tx_cap < 40 && chance(2, 3) {
        p.tx_cap = 300;
    }
    if p.rx_cap < 40 && chance(2, 3) {
        p.rx_cap = 300;
    }
    p
}
