//! Helpers for demonstrations.
#![allow(dead_code, unused_imports)]
pub use imap_codec::decode::Decoder;
pub use imap_codec::encode::Encoder;
pub use imap_codec::*;
pub use imap_next::client::{self, Client};
pub use imap_next::server::{self, Server};
pub use imap_next::{Interrupt, Io, State};
pub use imap_types::auth::{AuthMechanism, AuthenticateData};
pub use imap_types::command::{Command, CommandBody};
pub use imap_types::core::{Tag, Text};
pub use imap_types::response::*;
pub use imap_types::IntoBoundedStatic;
pub use simcore::source::Source;
pub use simcore::world::World;

pub fn cmd(b: &[u8]) -> Command<'static> {
    CommandCodec::default().decode(b).unwrap_or_else(|e| panic!("command {:?}: {e:?}", String::from_utf8_lossy(b))).1.into_static()
}
pub fn resp(b: &[u8]) -> Response<'static> {
    ResponseCodec::default().decode(b).unwrap_or_else(|e| panic!("response {:?}: {e:?}", String::from_utf8_lossy(b))).1.into_static()
}
pub fn status(b: &[u8]) -> Status<'static> {
    match resp(b) {
        Response::Status(s) => s,
        r => panic!("not a status: {r:?}"),
    }
}
pub fn data(b: &[u8]) -> Data<'static> {
    match resp(b) {
        Response::Data(s) => s,
        r => panic!("not data: {r:?}"),
    }
}
pub fn cont(b: &[u8]) -> CommandContinuationRequest<'static> {
    match resp(b) {
        Response::CommandContinuationRequest(s) => s,
        r => panic!("not a continuation request: {r:?}"),
    }
}
pub fn greeting(b: &[u8]) -> Greeting<'static> {
    GreetingCodec::default().decode(b).unwrap_or_else(|e| panic!("greeting: {e:?}")).1.into_static()
}
pub fn hello() -> Greeting<'static> {
    greeting(b"* OK hi\r\n")
}
pub fn authdata(b: &[u8]) -> AuthenticateData<'static> {
    AuthenticateDataCodec::default().decode(b).unwrap_or_else(|e| panic!("auth data: {e:?}")).1.into_static()
}
pub fn enc(c: &Command<'static>) -> Vec<u8> {
    CommandCodec::default().encode(c).dump()
}
pub fn enc_resp(c: &Response<'static>) -> Vec<u8> {
    ResponseCodec::default().encode(c).dump()
}
pub fn esc(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

/// Everything a state machine does until it asks for input: one line per event or error, and the
/// bytes it hands out.
pub fn drive<S: State>(s: &mut S) -> (Vec<String>, Vec<u8>)
where
    S::Event: std::fmt::Debug,
    S::Error: std::fmt::Debug,
{
    let (mut ev, mut out) = (vec![], vec![]);
    for _ in 0..10_000 {
        match s.next() {
            Ok(e) => ev.push(format!("{e:?}")),
            Err(Interrupt::Error(e)) => ev.push(format!("error {e:?}")),
            Err(Interrupt::Io(Io::Output(b))) => out.extend(b),
            Err(Interrupt::Io(Io::NeedMoreInput)) => return (ev, out),
        }
    }
    panic!("it never asks for input");
}
/// Feed bytes and drive.
pub fn feed<S: State>(s: &mut S, b: &[u8]) -> (Vec<String>, Vec<u8>)
where
    S::Event: std::fmt::Debug,
    S::Error: std::fmt::Debug,
{
    s.enqueue_input(b);
    drive(s)
}
/// A client that has its greeting.
pub fn greeted() -> Client {
    let mut c = Client::new(client::Options::default());
    let (ev, out) = feed(&mut c, b"* OK hi\r\n");
    assert!(ev.len() == 1 && out.is_empty(), "{ev:?}");
    c
}
/// A server that has sent its greeting.
pub fn serving(o: server::Options) -> Server {
    let mut s = Server::new(o, hello());
    let (ev, out) = drive(&mut s);
    assert!(ev.len() == 1, "{ev:?}");
    assert_eq!(esc(&out), esc(b"* OK hi\r\n"));
    s
}

pub fn world() {
    simcore::world::install(World::new(Source::replay(vec![]), false));
    simcore::with(|w| w.exec.step_cap = 3_000_000);
}

#[cfg(feature = "net")]
pub mod wire {
    pub use imap_next::stream::{Error, Stream};
    pub use simcore::exec::{self, End};
    pub use simcore::net::{self, Profile, Socket};
    pub use simpeer::{Peer, Seen, Version};
    use std::future::Future;
    pub use std::time::Duration;

    /// Run one future in a fresh simulated world; false if it did not finish.
    pub fn run(f: impl Future<Output = ()> + 'static) -> bool {
        super::world();
        let t = exec::spawn_env("main", f);
        let end = exec::run_until(t);
        end == End::Done && !simcore::failed()
    }
    pub fn stream(s: Socket) -> Stream {
        Stream::insecure(tokio::net::TcpStream::from_sim(s))
    }
    pub async fn tls_client(s: Socket, v: Version) -> Stream {
        let tcp = tokio::net::TcpStream::from_sim(s);
        let name = rustls::pki_types::ServerName::try_from("localhost").unwrap();
        let s = tokio_rustls::TlsConnector::from(simpeer::client_config(v)).connect(name, tcp).await.unwrap();
        Stream::tls(s.into())
    }
    pub async fn tls_server(s: Socket, v: Version) -> Stream {
        let tcp = tokio::net::TcpStream::from_sim(s);
        let s = tokio_rustls::TlsAcceptor::from(simpeer::server_config(v)).accept(tcp).await.unwrap();
        Stream::tls(s.into())
    }
    pub fn pair() -> (Socket, Socket) {
        net::pair(Profile::PLAIN, Profile::PLAIN)
    }
    /// `None` after the given simulated time.
    pub async fn within<F: Future>(ms: u64, f: F) -> Option<F::Output> {
        simpeer::timeout(f, ms * 1_000_000).await
    }
    pub async fn ms(n: u64) {
        exec::sleep_ns(n * 1_000_000).await
    }
}

#[cfg(feature = "px")]
pub mod deployed {
    pub use super::wire::*;
    use simcore::fs::Entry;
    use std::cell::RefCell;
    use std::rc::Rc;

    pub fn put(path: &str, b: &[u8]) {
        simcore::with(|w| w.fs.files.insert(path.into(), Entry::Data(b.to_vec())));
    }
    pub type Exit = Rc<RefCell<Option<Result<(), String>>>>;

    /// Start the proxy with this configuration file.
    pub fn start(config: &str) -> Exit {
        simpeer::install_provider();
        put("config.toml", config.as_bytes());
        put("chain.pem", simpeer::CHAIN);
        put("key.pem", simpeer::CHAIN_KEY);
        let e: Exit = Default::default();
        let (a, b) = (e.clone(), e.clone());
        exec::spawn(
            "proxy",
            exec::Kind::Sut,
            Box::pin(async move {
                let r = proxy::main().await;
                *a.borrow_mut() = Some(r.map_err(|e| format!("{e:#}")));
            }),
            Some(Box::new(move |m| *b.borrow_mut() = Some(Err(format!("panic {m}"))))),
        );
        e
    }
    /// One plain service: clients at 127.0.0.1:1143, server at 10.0.9.1:143.
    pub const PLAIN: &str = "[[services]]\nname = \"plain\"\n[services.bind]\nencryption = \"Insecure\"\nhost = \"127.0.0.1\"\nport = 1143\n[services.connect]\nencryption = \"Insecure\"\nhost = \"10.0.9.1\"\nport = 143\n";

    pub fn listen(a: &str) {
        net::bind_env(net::addr(a)).unwrap();
    }
    pub async fn accept(a: &str) -> Socket {
        let a = net::addr(a);
        std::future::poll_fn(|cx| net::poll_accept_quiet(a, cx)).await.unwrap()
    }
    pub async fn dial(a: &str) -> Socket {
        for _ in 0..1000 {
            if let Ok(s) = net::connect(net::addr(a)) {
                return s;
            }
            ms(1).await;
        }
        panic!("nobody listens on {a}");
    }
    /// Client and server ends of one connection through the plain service.
    pub async fn both() -> (Peer, Peer) {
        listen("10.0.9.1:143");
        start(PLAIN);
        let c = Peer::plain(dial("127.0.0.1:1143").await);
        let s = Peer::plain(accept("10.0.9.1:143").await);
        (c, s)
    }
    /// Send `b` and let it travel.
    pub async fn say(p: &mut Peer, b: &[u8]) {
        p.queue(b);
        within(1000, p.drain()).await;
    }
    /// What arrives within some simulated time, up to the end of the connection.
    pub async fn hear(p: &mut Peer) -> String {
        within(2000, p.until_end()).await;
        let g = std::mem::take(&mut p.got);
        g.escape_ascii().to_string()
    }
    /// Greet both sides.
    pub async fn forwarding() -> (Peer, Peer) {
        let (mut c, mut s) = both().await;
        say(&mut s, b"* OK hi\r\n").await;
        assert_eq!(hear(&mut c).await, "* OK hi\\r\\n");
        (c, s)
    }
}
