//! Stand-in for tokio-rustls 0.26: real rustls sessions, the same handshake loop (including that
//! a handshake may leave already received application data inside the session), over any IO.
use std::future::Future;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{ready, Context, Poll};

pub use rustls;
use rustls::pki_types::ServerName;
use rustls::{ClientConfig, ClientConnection, Connection, ServerConfig, ServerConnection};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

struct SyncIo<'a, 'b, IO> {
    io: &'a mut IO,
    cx: &'a mut Context<'b>,
}
impl<IO: AsyncRead + Unpin> Read for SyncIo<'_, '_, IO> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(buf);
        match Pin::new(&mut *self.io).poll_read(self.cx, &mut rb) {
            Poll::Ready(Ok(())) => Ok(rb.filled().len()),
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}
impl<IO: AsyncWrite + Unpin> Write for SyncIo<'_, '_, IO> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match Pin::new(&mut *self.io).poll_write(self.cx, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match Pin::new(&mut *self.io).poll_flush(self.cx) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}

trait Session {
    fn conn_read(&mut self, r: &mut dyn Read) -> io::Result<usize>;
    fn conn_write(&mut self, w: &mut dyn Write) -> io::Result<usize>;
    fn process(&mut self) -> Result<rustls::IoState, rustls::Error>;
    fn handshaking(&self) -> bool;
    fn w_read(&self) -> bool;
    fn w_write(&self) -> bool;
    fn plain_read(&mut self, buf: &mut [u8]) -> io::Result<usize>;
    fn plain_write(&mut self, buf: &[u8]) -> io::Result<usize>;
    fn close_notify(&mut self);
}
macro_rules! session {
    ($t:ty) => {
        impl Session for $t {
            fn conn_read(&mut self, mut r: &mut dyn Read) -> io::Result<usize> {
                self.read_tls(&mut r)
            }
            fn conn_write(&mut self, mut w: &mut dyn Write) -> io::Result<usize> {
                self.write_tls(&mut w)
            }
            fn process(&mut self) -> Result<rustls::IoState, rustls::Error> {
                self.process_new_packets()
            }
            fn handshaking(&self) -> bool {
                self.is_handshaking()
            }
            fn w_read(&self) -> bool {
                self.wants_read()
            }
            fn w_write(&self) -> bool {
                self.wants_write()
            }
            fn plain_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.reader().read(buf)
            }
            fn plain_write(&mut self, buf: &[u8]) -> io::Result<usize> {
                self.writer().write(buf)
            }
            fn close_notify(&mut self) {
                self.send_close_notify()
            }
        }
    };
}
session!(ClientConnection);
session!(ServerConnection);

fn would_block<T>(r: io::Result<T>) -> Poll<io::Result<T>> {
    match r {
        Err(e) if e.kind() == io::ErrorKind::WouldBlock => Poll::Pending,
        r => Poll::Ready(r),
    }
}

struct Inner<IO, S> {
    io: IO,
    session: S,
    eof: bool,
}

impl<IO: AsyncRead + AsyncWrite + Unpin, S: Session> Inner<IO, S> {
    fn write_io(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let mut w = SyncIo { io: &mut self.io, cx };
        would_block(self.session.conn_write(&mut w))
    }
    fn read_io(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let n = {
            let mut r = SyncIo { io: &mut self.io, cx };
            ready!(would_block(self.session.conn_read(&mut r)))?
        };
        let st = match self.session.process() {
            Ok(s) => s,
            Err(e) => {
                // In case we have an alert to send describing this error, try a last-gasp write.
                let _ = self.write_io(cx);
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidData, e)));
            }
        };
        if st.peer_has_closed() && self.session.handshaking() {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake alert")));
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush_all(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while self.session.w_write() {
            if ready!(self.write_io(cx))? == 0 {
                return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
            }
        }
        Pin::new(&mut self.io).poll_flush(cx)
    }
    fn handshake(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<(usize, usize)>> {
        let mut wrlen = 0;
        let mut rdlen = 0;
        loop {
            let mut write_would_block = false;
            let mut read_would_block = false;
            let mut need_flush = false;
            while self.session.w_write() {
                match self.write_io(cx) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(n)) => {
                        wrlen += n;
                        need_flush = true;
                    }
                    Poll::Pending => {
                        write_would_block = true;
                        break;
                    }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                }
            }
            if need_flush {
                match Pin::new(&mut self.io).poll_flush(cx) {
                    Poll::Ready(Ok(())) => (),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => write_would_block = true,
                }
            }
            while !self.eof && self.session.w_read() {
                match self.read_io(cx) {
                    Poll::Ready(Ok(0)) => self.eof = true,
                    Poll::Ready(Ok(n)) => rdlen += n,
                    Poll::Pending => {
                        read_would_block = true;
                        break;
                    }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                }
            }
            return match (self.eof, self.session.handshaking()) {
                (true, true) => {
                    Poll::Ready(Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof")))
                }
                (_, false) => Poll::Ready(Ok((rdlen, wrlen))),
                (_, true) if write_would_block || read_would_block => {
                    if rdlen != 0 || wrlen != 0 {
                        Poll::Ready(Ok((rdlen, wrlen)))
                    } else {
                        Poll::Pending
                    }
                }
                (..) => continue,
            };
        }
    }
    fn poll_connect(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while self.session.handshaking() {
            ready!(self.handshake(cx))?;
        }
        self.poll_flush_all(cx)
    }
    fn read_plain(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut pending = false;
        while !self.eof && self.session.w_read() {
            match self.read_io(cx) {
                Poll::Ready(Ok(0)) => self.eof = true,
                Poll::Ready(Ok(_)) => {}
                Poll::Pending => {
                    pending = true;
                    break;
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        match self.session.plain_read(buf.initialize_unfilled()) {
            Ok(n) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                if !pending {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e)),
        }
    }
    fn write_plain(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n = self.session.plain_write(buf)?;
        while self.session.w_write() {
            match self.write_io(cx) {
                Poll::Ready(Ok(0)) | Poll::Pending => {
                    return if n > 0 { Poll::Ready(Ok(n)) } else { Poll::Pending };
                }
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            }
        }
        Poll::Ready(Ok(n))
    }
    fn shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.session.close_notify();
        while self.session.w_write() {
            ready!(self.write_io(cx))?;
        }
        Pin::new(&mut self.io).poll_shutdown(cx)
    }
}

macro_rules! side {
    ($module:ident, $conn:ty) => {
        pub mod $module {
            use super::*;
            pub struct TlsStream<IO> {
                pub(crate) inner: Inner<IO, $conn>,
            }
            impl<IO> std::fmt::Debug for TlsStream<IO> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("TlsStream")
                }
            }
            impl<IO> TlsStream<IO> {
                pub fn get_ref(&self) -> (&IO, &$conn) {
                    (&self.inner.io, &self.inner.session)
                }
                pub fn get_mut(&mut self) -> (&mut IO, &mut $conn) {
                    (&mut self.inner.io, &mut self.inner.session)
                }
                pub fn into_inner(self) -> (IO, $conn) {
                    (self.inner.io, self.inner.session)
                }
            }
            impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncRead for TlsStream<IO> {
                fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                    self.inner.read_plain(cx, buf)
                }
            }
            impl<IO: AsyncRead + AsyncWrite + Unpin> AsyncWrite for TlsStream<IO> {
                fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                    self.inner.write_plain(cx, buf)
                }
                fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.inner.poll_flush_all(cx)
                }
                fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                    self.inner.shutdown(cx)
                }
            }
            impl<IO> From<TlsStream<IO>> for super::TlsStream<IO> {
                fn from(s: TlsStream<IO>) -> Self {
                    side!(@wrap $module s)
                }
            }
        }
    };
    (@wrap client $s:ident) => { super::TlsStream::Client($s) };
    (@wrap server $s:ident) => { super::TlsStream::Server($s) };
}
side!(client, ClientConnection);
side!(server, ServerConnection);

#[derive(Debug)]
pub enum TlsStream<IO> {
    Client(client::TlsStream<IO>),
    Server(server::TlsStream<IO>),
}

impl<IO> TlsStream<IO> {
    pub fn get_ref(&self) -> &IO {
        match self {
            TlsStream::Client(s) => s.get_ref().0,
            TlsStream::Server(s) => s.get_ref().0,
        }
    }
    pub fn into_parts(self) -> (IO, Connection) {
        match self {
            TlsStream::Client(s) => {
                let (io, c) = s.into_inner();
                (io, Connection::Client(c))
            }
            TlsStream::Server(s) => {
                let (io, c) = s.into_inner();
                (io, Connection::Server(c))
            }
        }
    }
}

#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(c: Arc<ClientConfig>) -> Self {
        TlsConnector(c)
    }
}
impl TlsConnector {
    pub fn connect<IO: AsyncRead + AsyncWrite + Unpin>(&self, domain: ServerName<'static>, stream: IO) -> Connect<IO> {
        Connect(match ClientConnection::new(self.0.clone(), domain) {
            Ok(session) => Ok(Some(Inner { io: stream, session, eof: false })),
            Err(e) => Err(Some(e)),
        })
    }
}

#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(c: Arc<ServerConfig>) -> Self {
        TlsAcceptor(c)
    }
}
impl TlsAcceptor {
    pub fn accept<IO: AsyncRead + AsyncWrite + Unpin>(&self, stream: IO) -> Accept<IO> {
        Accept(match ServerConnection::new(self.0.clone()) {
            Ok(session) => Ok(Some(Inner { io: stream, session, eof: false })),
            Err(e) => Err(Some(e)),
        })
    }
}

pub struct Connect<IO>(Result<Option<Inner<IO, ClientConnection>>, Option<rustls::Error>>);
pub struct Accept<IO>(Result<Option<Inner<IO, ServerConnection>>, Option<rustls::Error>>);

macro_rules! hs {
    ($t:ident, $m:ident) => {
        impl<IO: AsyncRead + AsyncWrite + Unpin> Future for $t<IO> {
            type Output = io::Result<$m::TlsStream<IO>>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                match &mut self.0 {
                    Err(e) => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, e.take().unwrap()))),
                    Ok(inner) => {
                        ready!(inner.as_mut().unwrap().poll_connect(cx))?;
                        Poll::Ready(Ok($m::TlsStream { inner: inner.take().unwrap() }))
                    }
                }
            }
        }
        impl<IO> Unpin for $t<IO> {}
    };
}
hs!(Connect, client);
hs!(Accept, server);
