//! Scripted network peers: plain or (real rustls) TLS, reading and writing at the same time.
use std::collections::VecDeque;
use std::future::Future;
use std::io::{ErrorKind, Read, Write};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll};

use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection};
use simcore::net::Socket;

pub const CA_DER: &[u8] = include_bytes!("../../certs/ca.der");
pub const CHAIN: &[u8] = include_bytes!("../../certs/chain.pem");
pub const CHAIN_KEY: &[u8] = include_bytes!("../../certs/leaf-key.pem");
pub const DIRECT: &[u8] = include_bytes!("../../certs/direct.pem");
pub const DIRECT_KEY: &[u8] = include_bytes!("../../certs/direct-key.pem");
pub const OTHER: &[u8] = include_bytes!("../../certs/other.pem");
pub const OTHER_KEY: &[u8] = include_bytes!("../../certs/other-key.pem");
pub const ROGUE: &[u8] = include_bytes!("../../certs/rogue.pem");
pub const ROGUE_KEY: &[u8] = include_bytes!("../../certs/rogue-key.pem");

pub fn install_provider() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        let _ = rustls::crypto::ring::default_provider().install_default();
    });
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Version {
    V13,
    V12,
}

fn versions(v: Version) -> &'static [&'static rustls::SupportedProtocolVersion] {
    static V13: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS13];
    static V12: &[&rustls::SupportedProtocolVersion] = &[&rustls::version::TLS12];
    match v {
        Version::V13 => V13,
        Version::V12 => V12,
    }
}

/// A TLS client that trusts the simulation's CA. No session resumption (runs stay independent).
pub fn client_config(v: Version) -> Arc<ClientConfig> {
    static C: OnceLock<[Arc<ClientConfig>; 2]> = OnceLock::new();
    install_provider();
    C.get_or_init(|| {
        [Version::V13, Version::V12].map(|v| {
            let mut roots = RootCertStore::empty();
            roots.add(CertificateDer::from(CA_DER.to_vec())).unwrap();
            let mut c = ClientConfig::builder_with_protocol_versions(versions(v))
                .with_root_certificates(roots)
                .with_no_client_auth();
            c.resumption = rustls::client::Resumption::disabled();
            Arc::new(c)
        })
    })[v as usize]
        .clone()
}

pub fn chain(pem: &[u8]) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_slice_iter(pem).map(|c| c.unwrap()).collect()
}

/// The private key in a PEM file.
pub fn key_der(key: &[u8]) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_slice(key).unwrap()
}

pub fn server_config_with(v: Version, pem: &[u8], key: &[u8]) -> Arc<ServerConfig> {
    install_provider();
    let mut c = ServerConfig::builder_with_protocol_versions(versions(v))
        .with_no_client_auth()
        .with_single_cert(chain(pem), key_der(key))
        .unwrap();
    c.send_half_rtt_data = true;
    Arc::new(c)
}

pub fn server_config(v: Version) -> Arc<ServerConfig> {
    static C: OnceLock<[Arc<ServerConfig>; 2]> = OnceLock::new();
    C.get_or_init(|| [Version::V13, Version::V12].map(|v| server_config_with(v, CHAIN, CHAIN_KEY)))[v as usize].clone()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seen {
    /// TCP end of stream without a TLS goodbye (or plain end of stream).
    Fin,
    /// TLS close_notify.
    CloseNotify,
    Io(ErrorKind),
    Tls(String),
}

pub struct Peer {
    sock: Option<Socket>,
    tls: Option<Box<Connection>>,
    out: VecDeque<u8>,
    /// Plaintext received so far.
    pub got: Vec<u8>,
    /// How the incoming direction ended.
    pub seen: Option<Seen>,
    /// Writing failed.
    pub broken: Option<ErrorKind>,
    /// False: do not read (the receiver's buffer fills up).
    pub reading: bool,
    rekeyed: u32,
}

impl Peer {
    pub fn plain(sock: Socket) -> Self {
        Peer { sock: Some(sock), tls: None, out: VecDeque::new(), got: Vec::new(), seen: None, broken: None, reading: true, rekeyed: 0 }
    }
    fn with_tls(sock: Socket, mut tls: Connection) -> Self {
        tls.set_buffer_limit(None);
        let mut p = Peer::plain(sock);
        p.tls = Some(Box::new(tls));
        p
    }
    pub fn tls_client(sock: Socket, v: Version, name: &str) -> Self {
        let c = ClientConnection::new(client_config(v), ServerName::try_from(name.to_string()).unwrap()).unwrap();
        Self::with_tls(sock, Connection::Client(c))
    }
    /// A TLS client that names the application protocols it speaks.
    pub fn tls_client_alpn(sock: Socket, v: Version, name: &str, alpn: &[&[u8]]) -> Self {
        let mut c = ClientConfig::clone(&client_config(v));
        c.alpn_protocols = alpn.iter().map(|p| p.to_vec()).collect();
        let c = ClientConnection::new(Arc::new(c), ServerName::try_from(name.to_string()).unwrap()).unwrap();
        Self::with_tls(sock, Connection::Client(c))
    }
    pub fn tls_server(sock: Socket, config: Arc<ServerConfig>) -> Self {
        Self::with_tls(sock, Connection::Server(ServerConnection::new(config).unwrap()))
    }
    pub fn connection(&self) -> Option<&Connection> {
        self.tls.as_deref()
    }
    pub fn pipes(&self) -> (usize, usize) {
        let s = self.sock.as_ref().expect("open");
        (s.out, s.inc)
    }
    pub fn is_open(&self) -> bool {
        self.sock.is_some()
    }

    fn collect_tls(&mut self) {
        if let Some(t) = &mut self.tls {
            while t.wants_write() {
                let mut v = Vec::new();
                t.write_tls(&mut v).unwrap();
                self.out.extend(v);
            }
        }
    }

    /// Queue bytes for sending. Over TLS: as one write, i.e. its own record(s). May be called
    /// before or during the handshake: the data then travels with the end of the handshake.
    pub fn queue(&mut self, data: &[u8]) {
        match &mut self.tls {
            None => self.out.extend(data),
            Some(t) => {
                // New keys for what follows; the other side has to answer with new ones.
                if self.rekeyed < 4
                    && !t.is_handshaking()
                    && t.protocol_version() == Some(rustls::ProtocolVersion::TLSv1_3)
                    && simcore::chance(1, 16)
                    && t.refresh_traffic_keys().is_ok()
                {
                    simcore::fault("tls.key-update");
                    self.rekeyed += 1;
                }
                t.writer().write_all(data).unwrap();
                if !t.is_handshaking() {
                    self.collect_tls();
                }
            }
        }
    }

    /// Queue bytes that bypass TLS (garbage on the wire).
    pub fn queue_raw(&mut self, data: &[u8]) {
        self.out.extend(data);
    }

    pub fn queued(&self) -> usize {
        self.out.len()
    }

    fn absorb(&mut self, bytes: &[u8]) {
        match &mut self.tls {
            None => self.got.extend_from_slice(bytes),
            Some(t) => {
                let mut r = bytes;
                while !r.is_empty() {
                    if t.read_tls(&mut r).is_err() {
                        self.seen = Some(Seen::Tls("read_tls".into()));
                        return;
                    }
                    let st = t.process_new_packets();
                    let mut buf = [0u8; 4096];
                    loop {
                        match t.reader().read(&mut buf) {
                            Ok(0) => {
                                self.seen.get_or_insert(Seen::CloseNotify);
                                break;
                            }
                            Ok(n) => self.got.extend_from_slice(&buf[..n]),
                            Err(_) => break,
                        }
                    }
                    if let Err(e) = st {
                        self.seen = Some(Seen::Tls(e.to_string()));
                        break;
                    }
                    if self.seen.is_some() {
                        break;
                    }
                }
                self.collect_tls();
            }
        }
    }

    /// Read and write as far as possible; ready if anything moved.
    pub fn poll_progress(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let mut moved = false;
        if self.tls.is_some() {
            self.collect_tls();
        }
        if self.reading && self.seen.is_none() {
            if let Some(s) = &self.sock {
                match s.poll_read(cx, 65536) {
                    Poll::Ready(Ok(b)) if b.is_empty() => {
                        self.seen = Some(Seen::Fin);
                        moved = true;
                    }
                    Poll::Ready(Ok(b)) => {
                        self.absorb(&b);
                        moved = true;
                    }
                    Poll::Ready(Err(e)) => {
                        self.seen = Some(Seen::Io(e.kind()));
                        moved = true;
                    }
                    Poll::Pending => {}
                }
            }
        }
        if !self.out.is_empty() && self.broken.is_none() {
            if let Some(s) = &self.sock {
                let buf = self.out.make_contiguous();
                match s.poll_write(cx, buf) {
                    Poll::Ready(Ok(n)) => {
                        self.out.drain(..n);
                        moved = true;
                    }
                    Poll::Ready(Err(e)) => {
                        self.broken = Some(e.kind());
                        moved = true;
                    }
                    Poll::Pending => {}
                }
            }
        }
        if moved {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }

    pub async fn progress(&mut self) {
        std::future::poll_fn(|cx| self.poll_progress(cx)).await
    }

    pub fn handshaking(&self) -> bool {
        self.tls.as_ref().is_some_and(|t| t.is_handshaking())
    }
    pub fn dead(&self) -> bool {
        self.sock.is_none() || self.seen.is_some() || self.broken.is_some()
    }

    /// Drive the handshake; false if the connection ended first.
    pub async fn handshake(&mut self) -> bool {
        self.collect_tls();
        while self.handshaking() {
            if self.dead() {
                return false;
            }
            self.progress().await;
        }
        self.collect_tls();
        true
    }

    /// Until everything queued is written (or writing failed). Keeps reading.
    pub async fn drain(&mut self) -> bool {
        self.collect_tls();
        while !self.out.is_empty() {
            if self.broken.is_some() || self.sock.is_none() {
                return false;
            }
            self.progress().await;
        }
        true
    }

    /// Until `f` holds or the incoming direction ended. Keeps writing.
    pub async fn until(&mut self, mut f: impl FnMut(&Peer) -> bool) -> bool {
        loop {
            if f(self) {
                return true;
            }
            if self.seen.is_some() || self.sock.is_none() {
                return false;
            }
            self.progress().await;
        }
    }

    /// Until the incoming direction ended.
    pub async fn until_end(&mut self) {
        self.until(|_| false).await;
    }

    pub fn queue_close_notify(&mut self) {
        if let Some(t) = &mut self.tls {
            t.send_close_notify();
        }
        self.collect_tls();
    }
    /// End of our direction; reading continues.
    pub fn fin(&self) {
        if let Some(s) = &self.sock {
            s.shutdown();
        }
    }
    /// Close both directions.
    pub fn close(&mut self) {
        self.sock = None;
    }
    pub fn reset(&mut self) {
        if let Some(s) = self.sock.take() {
            s.reset();
        }
    }
}

/// Poll `fut`, but give up (dropping it) when it has been pending `budget` times.
pub async fn cancel_after<F: std::future::Future>(fut: F, budget: Option<u32>) -> Option<F::Output> {
    let mut fut = std::pin::pin!(fut);
    let mut left = budget;
    std::future::poll_fn(|cx| match fut.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => match &mut left {
            None => Poll::Pending,
            Some(0) => {
                simcore::fault("task.cancelled");
                simcore::probe("cancelled");
                simcore::log(|| "  (pending call dropped)".to_string());
                Poll::Ready(None)
            }
            Some(n) => {
                *n -= 1;
                Poll::Pending
            }
        },
    })
    .await
}

/// Poll `fut`, but give up (dropping it) after some simulated time.

pub async fn timeout<F: std::future::Future>(fut: F, ns: u64) -> Option<F::Output> {
    let mut fut = std::pin::pin!(fut);
    let mut sleep = std::pin::pin!(simcore::exec::sleep_ns(ns));
    std::future::poll_fn(|cx| {
        if let Poll::Ready(v) = fut.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        if sleep.as_mut().poll(cx).is_ready() {
            simcore::fault("task.cancelled");
            simcore::log(|| "  (pending call timed out and dropped)".to_string());
            return Poll::Ready(None);
        }
        Poll::Pending
    })
    .await
}
