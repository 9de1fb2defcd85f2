//! Stand-in for tokio inside the simulator. Traits, `io` utilities, `sync` primitives and the
//! `select!`/`join!` macros are tokio's own; tasks, timers, sockets and files are simulated.
pub use real_tokio::{count, count_field, join, pin, select_variant, try_join};
#[doc(hidden)]
pub use real_tokio::{select_priv_clean_pattern, select_priv_declare_output_enum};
pub use tokio_macros::{main, test};

mod select;

/// tokio's own synchronisation; a `static` one starts afresh in every run.
pub mod sync {
    pub use real_tokio::sync::*;

    use std::ops::Deref;
    use std::sync::Arc;

    use real_tokio::sync as real;
    use simcore::threads::per_run;

    macro_rules! wrapper {
        ($name:ident $(<$t:ident>)?) => {
            #[repr(transparent)]
            pub struct $name$(<$t>)?(real::$name$(<$t>)?);
            impl$(<$t>)? Deref for $name$(<$t>)? {
                type Target = real::$name$(<$t>)?;
                fn deref(&self) -> &Self::Target {
                    &per_run(self).0
                }
            }
            impl$(<$t: std::fmt::Debug>)? std::fmt::Debug for $name$(<$t>)? {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    (**self).fmt(f)
                }
            }
            #[allow(dead_code)]
            impl$(<$t>)? $name$(<$t>)? {
                fn inner(self: Arc<Self>) -> Arc<real::$name$(<$t>)?> {
                    // Same layout (`repr(transparent)`), same reference count.
                    unsafe { Arc::from_raw(Arc::into_raw(self) as *const real::$name$(<$t>)?) }
                }
            }
        };
    }
    wrapper!(Semaphore);
    wrapper!(Notify);
    wrapper!(Mutex<T>);
    wrapper!(RwLock<T>);
    wrapper!(OnceCell<T>);

    impl Semaphore {
        pub const MAX_PERMITS: usize = real::Semaphore::MAX_PERMITS;
        pub const fn const_new(n: usize) -> Self {
            Semaphore(real::Semaphore::const_new(n))
        }
        pub fn new(n: usize) -> Self {
            Semaphore(real::Semaphore::new(n))
        }
        pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
            self.inner().acquire_owned().await
        }
        pub async fn acquire_many_owned(self: Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, AcquireError> {
            self.inner().acquire_many_owned(n).await
        }
        pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
            self.inner().try_acquire_owned()
        }
    }
    impl Notify {
        pub const fn const_new() -> Self {
            Notify(real::Notify::const_new())
        }
        pub fn new() -> Self {
            Notify(real::Notify::new())
        }
    }
    impl Default for Notify {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> Mutex<T> {
        pub const fn const_new(t: T) -> Self {
            Mutex(real::Mutex::const_new(t))
        }
        pub fn new(t: T) -> Self {
            Mutex(real::Mutex::new(t))
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            self.inner().lock_owned().await
        }
        pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
            self.inner().try_lock_owned()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T> RwLock<T> {
        pub const fn const_new(t: T) -> Self {
            RwLock(real::RwLock::const_new(t))
        }
        pub fn new(t: T) -> Self {
            RwLock(real::RwLock::new(t))
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            self.inner().read_owned().await
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            self.inner().write_owned().await
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> OnceCell<T> {
        pub const fn const_new() -> Self {
            OnceCell(real::OnceCell::const_new())
        }
        pub fn new() -> Self {
            OnceCell(real::OnceCell::new())
        }
    }
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
}

pub mod io {
    pub use real_tokio::io::*;

    /// Standard output of the simulated process.
    #[derive(Debug)]
    pub struct Stdout(());
    pub fn stdout() -> Stdout {
        Stdout(())
    }
    impl AsyncWrite for Stdout {
        fn poll_write(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
            buf: &[u8],
        ) -> std::task::Poll<std::io::Result<usize>> {
            let s = String::from_utf8_lossy(buf).into_owned();
            simcore::secrets::shown("printed", &s);
            simcore::try_with(|w| w.stdout.push_str(&s));
            std::task::Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
        ) -> std::task::Poll<std::io::Result<()>> {
            std::task::Poll::Ready(Ok(()))
        }
        fn poll_shutdown(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
        ) -> std::task::Poll<std::io::Result<()>> {
            std::task::Poll::Ready(Ok(()))
        }
    }

    /// Standard error of the simulated process.
    #[derive(Debug)]
    pub struct Stderr(());
    pub fn stderr() -> Stderr {
        Stderr(())
    }
    impl AsyncWrite for Stderr {
        fn poll_write(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
            buf: &[u8],
        ) -> std::task::Poll<std::io::Result<usize>> {
            let s = String::from_utf8_lossy(buf).into_owned();
            simcore::secrets::shown("printed", &s);
            std::task::Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
        ) -> std::task::Poll<std::io::Result<()>> {
            std::task::Poll::Ready(Ok(()))
        }
        fn poll_shutdown(
            self: std::pin::Pin<&mut Self>,
            _: &mut std::task::Context<'_>,
        ) -> std::task::Poll<std::io::Result<()>> {
            std::task::Poll::Ready(Ok(()))
        }
    }
}

#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use real_tokio::macros::support::{
            maybe_done, poll_budget_available, poll_fn, ready, BiasedRotator, Context, Future, IntoFuture, Pin,
            Poll, Result, Rotator, RotatorSelect, SelectBiased, SelectNormal,
        };
        pub fn thread_rng_n(n: u32) -> u32 {
            simcore::draw(n)
        }
    }
}

pub use task::spawn;

pub mod task {
    use std::any::Any;
    use std::cell::RefCell;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    use simcore::exec;

    pub struct JoinError {
        panic: Option<String>,
    }
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            self.panic.is_some()
        }
        pub fn is_cancelled(&self) -> bool {
            self.panic.is_none()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            Box::new(self.panic.expect("not a panic"))
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.panic {
                Some(p) => write!(f, "JoinError::Panic({p:?})"),
                None => write!(f, "JoinError::Cancelled"),
            }
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(self, f)
        }
    }
    impl std::error::Error for JoinError {}

    struct Slot<T> {
        out: Option<Result<T, JoinError>>,
        waker: Option<Waker>,
        finished: bool,
    }

    pub struct JoinHandle<T> {
        slot: Arc<Mutex<Slot<T>>>,
        id: usize,
    }

    pub struct AbortHandle {
        abort: Arc<dyn Fn() + Send + Sync>,
    }
    impl AbortHandle {
        pub fn abort(&self) {
            (self.abort)()
        }
    }
    impl fmt::Debug for AbortHandle {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("AbortHandle")
        }
    }

    fn finish<T>(slot: &Arc<Mutex<Slot<T>>>, r: Result<T, JoinError>) {
        let w = {
            let mut s = slot.lock().unwrap();
            if !s.finished {
                s.finished = true;
                s.out = Some(r);
            }
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    fn spawn_inner<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        let slot = Arc::new(Mutex::new(Slot { out: None, waker: None, finished: false }));
        let s2 = slot.clone();
        let s3 = slot.clone();
        let id = exec::spawn(
            "task",
            exec::Kind::Sut,
            Box::pin(async move {
                let r = fut.await;
                finish(&s2, Ok(r));
            }),
            Some(Box::new(move |msg| finish(&s3, Err(JoinError { panic: Some(msg) })))),
        );
        JoinHandle { slot, id }
    }

    pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_inner(fut)
    }

    pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_inner(fut)
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn_inner(async move { f() })
    }

    pub async fn yield_now() {
        exec::yield_now().await
    }

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            if !self.is_finished() {
                finish(&self.slot, Err(JoinError { panic: None }));
                exec::abort(self.id);
            }
        }
        pub fn is_finished(&self) -> bool {
            self.slot.lock().unwrap().finished
        }
        pub fn abort_handle(&self) -> AbortHandle
        where
            T: Send + 'static,
        {
            let (slot, id) = (self.slot.clone(), self.id);
            AbortHandle {
                abort: Arc::new(move || {
                    let fin = slot.lock().unwrap().finished;
                    if !fin {
                        finish(&slot, Err(JoinError { panic: None }));
                        exec::abort(id);
                    }
                }),
            }
        }
        fn poll_out(&self, cx: &mut Context<'_>) -> Poll<Result<T, JoinError>> {
            let mut s = self.slot.lock().unwrap();
            match s.out.take() {
                Some(r) => Poll::Ready(r),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.poll_out(cx)
        }
    }

    pub struct JoinSet<T> {
        set: Vec<JoinHandle<T>>,
    }
    impl<T: 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> fmt::Debug for JoinSet<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinSet({})", self.set.len())
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet { set: Vec::new() }
        }
        pub fn len(&self) -> usize {
            self.set.len()
        }
        pub fn is_empty(&self) -> bool {
            self.set.is_empty()
        }
        pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
            T: Send,
        {
            let h = spawn(fut);
            let a = h.abort_handle();
            self.set.push(h);
            a
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
        pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
            if self.set.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.set.len() {
                if let Poll::Ready(r) = self.set[i].poll_out(cx) {
                    self.set.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        }
        pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
            let i = self.set.iter().position(|h| h.is_finished())?;
            let h = self.set.remove(i);
            let r = h.slot.lock().unwrap().out.take();
            r
        }
        pub fn abort_all(&mut self) {
            for h in &self.set {
                h.abort();
            }
        }
        pub fn detach_all(&mut self) {
            self.set.clear();
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub async fn join_all(mut self) -> Vec<T> {
            let mut out = Vec::new();
            while let Some(r) = self.join_next().await {
                match r {
                    Ok(v) => out.push(v),
                    Err(e) => panic!("{e}"),
                }
            }
            out
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            // Dropping a JoinSet aborts its tasks, unless the whole simulation is torn down.
            for h in &self.set {
                let fin = h.slot.lock().map(|s| s.finished).unwrap_or(true);
                if !fin && simcore::try_with(|_| ()).is_some() {
                    exec::abort(h.id);
                }
            }
        }
    }

    /// Single-threaded local set: tasks are ordinary simulated tasks.
    #[derive(Default)]
    #[derive(Debug)]
    pub struct LocalSet(#[allow(dead_code)] Rc<RefCell<()>>);
    impl LocalSet {
        pub fn spawn_local<F>(&self, fut: F) -> JoinHandle<F::Output>
        where
            F: Future + 'static,
            F::Output: 'static,
        {
            spawn_local(fut)
        }
        pub fn new() -> Self {
            Self::default()
        }
        pub async fn run_until<F: Future>(&self, f: F) -> F::Output {
            f.await
        }
    }
}

pub mod time {
    pub use std::time::Duration;

    use std::fmt;
    use std::future::Future;
    use std::ops::{Add, Sub};

    /// Simulated monotonic clock.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub struct Instant(u64);
    impl Instant {
        pub fn now() -> Self {
            Instant(simcore::now())
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_nanos(simcore::now().saturating_sub(self.0))
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            Duration::from_nanos(self.0.saturating_sub(o.0))
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0.saturating_add(d.as_nanos() as u64))
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }

    pub fn sleep(d: Duration) -> simcore::exec::Sleep {
        simcore::exec::sleep_ns(d.as_nanos() as u64)
    }
    pub fn sleep_until(at: Instant) -> simcore::exec::Sleep {
        simcore::exec::sleep_until(at.0)
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
        impl From<Elapsed> for std::io::Error {
            fn from(_: Elapsed) -> Self {
                std::io::ErrorKind::TimedOut.into()
            }
        }
    }

    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = std::pin::pin!(f);
        let mut s = std::pin::pin!(sleep(d));
        std::future::poll_fn(move |cx| {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
                return std::task::Poll::Ready(Ok(v));
            }
            s.as_mut().poll(cx).map(|_| Err(error::Elapsed(())))
        })
        .await
    }

    pub async fn timeout_at<F: Future>(at: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        timeout(Duration::from_nanos(at.0.saturating_sub(simcore::now())), f).await
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    pub struct Interval {
        next: u64,
        period: u64,
        missed: MissedTickBehavior,
    }
    impl fmt::Debug for Interval {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Interval")
        }
    }
    pub fn interval(d: Duration) -> Interval {
        interval_at(Instant::now(), d)
    }
    pub fn interval_at(start: Instant, d: Duration) -> Interval {
        assert!(!d.is_zero(), "`period` must be non-zero.");
        Interval { next: start.0, period: d.as_nanos() as u64, missed: MissedTickBehavior::Burst }
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            simcore::exec::sleep_until(self.next).await;
            let now = simcore::now();
            let due = Instant(self.next);
            self.next = match self.missed {
                MissedTickBehavior::Delay if now > self.next + 5_000_000 => now + self.period,
                MissedTickBehavior::Skip if now > self.next + 5_000_000 => now + self.period - (now - self.next) % self.period,
                _ => self.next + self.period,
            };
            due
        }
        pub fn reset(&mut self) {
            self.next = simcore::now() + self.period;
        }
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period)
        }
        pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
            self.missed = b;
        }
        pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
            self.missed
        }
    }
}

pub mod fs {
    use std::io;
    use std::path::Path;
    pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
        simcore::fs::read(&p.as_ref().display().to_string())
    }
    pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
        String::from_utf8(read(p).await?)
            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
    }
}

pub mod runtime {
    use std::future::Future;
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Self {
            Handle
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::spawn(f)
        }
    }
}

pub mod net {
    use std::fmt;
    use std::io;
    use std::net::{IpAddr, SocketAddr};
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll};

    use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    use simcore::net::{self as sim, Socket};

    pub trait ToSocketAddrs {
        #[doc(hidden)]
        fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
    }
    impl ToSocketAddrs for SocketAddr {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![*self])
        }
    }
    impl ToSocketAddrs for str {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            if let Ok(a) = self.parse() {
                return Ok(vec![a]);
            }
            let (host, port) = self
                .rsplit_once(':')
                .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address"))?;
            let port = port
                .parse()
                .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "invalid port value"))?;
            if host.contains(':') {
                // As in std: an unbracketed IPv6 literal is not a socket address.
                return Err(io::Error::new(io::ErrorKind::Other, "failed to lookup address information"));
            }
            sim::resolve(host, port)
        }
    }
    impl ToSocketAddrs for String {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            self.as_str().resolve()
        }
    }
    impl ToSocketAddrs for (&str, u16) {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            sim::resolve(self.0, self.1)
        }
    }
    impl ToSocketAddrs for (String, u16) {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            sim::resolve(&self.0, self.1)
        }
    }
    impl ToSocketAddrs for (IpAddr, u16) {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![SocketAddr::new(self.0, self.1)])
        }
    }
    impl ToSocketAddrs for (std::net::Ipv4Addr, u16) {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(vec![SocketAddr::new(IpAddr::V4(self.0), self.1)])
        }
    }
    impl ToSocketAddrs for [SocketAddr] {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            Ok(self.to_vec())
        }
    }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
        fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
            (**self).resolve()
        }
    }

    pub async fn lookup_host<T: ToSocketAddrs>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>> {
        Ok(host.resolve()?.into_iter())
    }

    #[derive(Debug)]
    pub struct TcpStream {
        sock: Socket,
    }

    fn read_into(s: &Socket, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match s.poll_read(cx, buf.remaining()) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }

    fn write_vectored(s: &Socket, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        s.poll_write(cx, &all)
    }

    impl TcpStream {
        pub fn from_sim(sock: Socket) -> Self {
            TcpStream { sock }
        }
        pub fn sim(&self) -> &Socket {
            &self.sock
        }
        pub fn into_sim(self) -> Socket {
            self.sock
        }
        pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
            let addrs = addr.resolve()?;
            let mut last = None;
            for a in addrs {
                // Connection establishment takes a round trip.
                simcore::exec::yield_now().await;
                if sim::hangs(a) {
                    std::future::pending::<()>().await;
                }
                match sim::connect(a) {
                    Ok(sock) => return Ok(TcpStream { sock }),
                    Err(e) => last = Some(e),
                }
            }
            Err(last.unwrap_or_else(|| {
                io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses")
            }))
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.sock.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.sock.local)
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn nodelay(&self) -> io::Result<bool> {
            Ok(true)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub fn ttl(&self) -> io::Result<u32> {
            Ok(64)
        }
        pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
            Ok(())
        }
        pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
            Ok(None)
        }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> {
            Ok(None)
        }
        pub async fn readable(&self) -> io::Result<()> {
            std::future::poll_fn(|cx| self.sock.poll_read_ready(cx)).await;
            Ok(())
        }
        pub async fn writable(&self) -> io::Result<()> {
            std::future::poll_fn(|cx| self.sock.poll_write_ready(cx)).await;
            Ok(())
        }
        pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
            let mut cx = Context::from_waker(std::task::Waker::noop());
            match self.sock.poll_read(&mut cx, buf.len()) {
                Poll::Ready(r) => r.map(|v| {
                    buf[..v.len()].copy_from_slice(&v);
                    v.len()
                }),
                Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
            }
        }
        pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
            let mut cx = Context::from_waker(std::task::Waker::noop());
            match self.sock.poll_write(&mut cx, buf) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
            }
        }
        pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
            (tcp::ReadHalf(&self.sock), tcp::WriteHalf(&self.sock))
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            let s = Arc::new(self.sock);
            (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s))
        }
    }

    impl AsyncRead for TcpStream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            read_into(&self.sock, cx, buf)
        }
    }
    impl AsyncWrite for TcpStream {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.sock.poll_write(cx, buf)
        }
        fn poll_write_vectored(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            bufs: &[io::IoSlice<'_>],
        ) -> Poll<io::Result<usize>> {
            write_vectored(&self.sock, cx, bufs)
        }
        fn is_write_vectored(&self) -> bool {
            true
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.sock.shutdown();
            Poll::Ready(Ok(()))
        }
    }

    pub mod tcp {
        use super::*;
        #[derive(Debug)]
        pub struct ReadHalf<'a>(pub(super) &'a Socket);
        #[derive(Debug)]
        pub struct WriteHalf<'a>(pub(super) &'a Socket);
        #[derive(Debug)]
        pub struct OwnedReadHalf(pub(super) Arc<Socket>);
        #[derive(Debug)]
        pub struct OwnedWriteHalf(pub(super) Arc<Socket>);

        macro_rules! rd {
            ($t:ty) => {
                impl AsyncRead for $t {
                    fn poll_read(
                        self: Pin<&mut Self>,
                        cx: &mut Context<'_>,
                        buf: &mut ReadBuf<'_>,
                    ) -> Poll<io::Result<()>> {
                        read_into(&self.0, cx, buf)
                    }
                }
            };
        }
        macro_rules! wr {
            ($t:ty) => {
                impl AsyncWrite for $t {
                    fn poll_write(
                        self: Pin<&mut Self>,
                        cx: &mut Context<'_>,
                        buf: &[u8],
                    ) -> Poll<io::Result<usize>> {
                        self.0.poll_write(cx, buf)
                    }
                    fn poll_write_vectored(
                        self: Pin<&mut Self>,
                        cx: &mut Context<'_>,
                        bufs: &[io::IoSlice<'_>],
                    ) -> Poll<io::Result<usize>> {
                        write_vectored(&self.0, cx, bufs)
                    }
                    fn is_write_vectored(&self) -> bool {
                        true
                    }
                    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                        Poll::Ready(Ok(()))
                    }
                    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                        self.0.shutdown();
                        Poll::Ready(Ok(()))
                    }
                }
            };
        }
        rd!(ReadHalf<'_>);
        rd!(OwnedReadHalf);
        wr!(WriteHalf<'_>);
        wr!(OwnedWriteHalf);
        impl Drop for OwnedWriteHalf {
            fn drop(&mut self) {
                if simcore::try_with(|_| ()).is_some() {
                    self.0.shutdown();
                }
            }
        }
    }

    pub struct TcpListener {
        addr: SocketAddr,
    }
    impl fmt::Debug for TcpListener {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "TcpListener({})", self.addr)
        }
    }
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
            let addrs = addr.resolve()?;
            let mut last = None;
            for a in addrs {
                match sim::bind(a) {
                    Ok(addr) => return Ok(TcpListener { addr }),
                    Err(e) => last = Some(e),
                }
            }
            Err(last.unwrap_or_else(|| {
                io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any addresses")
            }))
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
            let s = std::future::poll_fn(|cx| sim::poll_accept(self.addr, cx)).await?;
            let peer = s.peer;
            Ok((TcpStream::from_sim(s), peer))
        }
        pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
            sim::poll_accept(self.addr, cx).map_ok(|s| {
                let p = s.peer;
                (TcpStream::from_sim(s), p)
            })
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.addr)
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            sim::close_listener(self.addr);
        }
    }
}
