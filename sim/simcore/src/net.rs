//! Simulated TCP: per-direction byte pipes with bounded buffers, drawn delivery, and faults.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{self, ErrorKind};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

use crate::exec::count_op;
use crate::world::{try_with, with, World};

/// How lively a connection is. All zero = everything at once, nothing goes wrong.
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    /// n/16 probability that a read returns fewer bytes than available.
    pub short_read: u32,
    /// n/16 probability that a write accepts fewer bytes than there is room for.
    pub short_write: u32,
    /// n/16 probability of a spurious "not ready" (with a wake-up).
    pub spurious: u32,
    /// Delivery granularity: 0 everything, 1 single bytes, 2 small, 3 mixed.
    pub chunk: u32,
    /// n/64 probability that a delivery stalls for a drawn time.
    pub stall: u32,
    /// Sender-side buffer and receiver-side buffer sizes.
    pub tx_cap: usize,
    pub rx_cap: usize,
}

impl Profile {
    pub const PLAIN: Profile =
        Profile { short_read: 0, short_write: 0, spurious: 0, chunk: 0, stall: 0, tx_cap: 65536, rx_cap: 65536 };
}

/// Draw a profile; `hostile` allows very small buffers and high fault rates.
pub fn draw_profile() -> Profile {
    let mut p = Profile::PLAIN;
    if crate::chance(1, 4) {
        return p;
    }
    p.short_read = [0, 2, 6, 14][crate::draw(4) as usize];
    p.short_write = [0, 2, 6, 14][crate::draw(4) as usize];
    p.spurious = [0, 1, 4][crate::draw(3) as usize];
    p.chunk = crate::draw(4);
    p.stall = [0, 0, 1, 6][crate::draw(4) as usize];
    p.tx_cap = [65536, 4096, 300, 40, 7, 1][crate::draw(6) as usize];
    p.rx_cap = [65536, 4096, 300, 40, 7, 1][crate::draw(6) as usize];
    p
}

pub struct Pipe {
    tx: VecDeque<u8>,
    rx: VecDeque<u8>,
    pub profile: Profile,
    fin_sent: bool,
    fin_delivered: bool,
    reader_closed: bool,
    /// Error the reader sees once `rx` is drained.
    read_err: Option<ErrorKind>,
    /// Error the writer sees.
    write_err: Option<ErrorKind>,
    /// Injected: fail the read (write) that starts at or after this stream offset.
    pub read_fault: Option<(u64, ErrorKind)>,
    pub write_fault: Option<(u64, WriteFault)>,
    /// An injected error was handed to the code under test.
    pub fault_hit: bool,
    /// Injected: flip one bit of the byte at this stream offset.
    pub corrupt_at: Option<u64>,
    stalled_until: u64,
    pub frozen: bool,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    pub written: u64,
    pub delivered: u64,
    pub read: u64,
    pub write_calls: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum WriteFault {
    Error(ErrorKind),
    Zero,
}

impl Pipe {
    /// Nothing is on its way to the reader.
    fn idle(&self) -> bool {
        self.reader_closed || (self.tx.is_empty() && !(self.fin_sent && !self.fin_delivered))
    }
}

#[derive(Default)]
pub struct Net {
    pub pipes: Vec<Pipe>,
    /// Pipes that may hold something for their reader.
    active: BTreeSet<usize>,
    listeners: BTreeMap<SocketAddr, Listener>,
    pub hosts: BTreeMap<String, Vec<IpAddr>>,
    next_port: u16,
    /// Every connect attempt (target) and successful bind, in order.
    pub connects: Vec<SocketAddr>,
    pub binds: Vec<SocketAddr>,
    /// Profile for connections made through `connect`.
    pub default_profile: Option<Profile>,
    /// Profiles for connections to particular addresses (there, back).
    pub profiles: BTreeMap<SocketAddr, (Profile, Profile)>,
    /// Errors for the next calls to accept a waiting connection, in order.
    pub accept_faults: VecDeque<ErrorKind>,
    /// Addresses that cannot be bound.
    pub bind_faults: BTreeMap<SocketAddr, ErrorKind>,
    /// How many of the next connection attempts to this address never finish, or are refused.
    pub unreachable: BTreeMap<SocketAddr, u32>,
    pub refusing: BTreeMap<SocketAddr, u32>,
}

struct Listener {
    queue: VecDeque<Socket>,
    waker: Option<Waker>,
    open: bool,
}

#[derive(Debug)]
pub struct Socket {
    pub out: usize,
    pub inc: usize,
    pub local: SocketAddr,
    pub peer: SocketAddr,
    closed: bool,
}

fn new_pipe(w: &mut World, profile: Profile) -> usize {
    w.net.pipes.push(Pipe {
        tx: VecDeque::new(),
        rx: VecDeque::new(),
        profile,
        fin_sent: false,
        fin_delivered: false,
        reader_closed: false,
        read_err: None,
        write_err: None,
        read_fault: None,
        write_fault: None,
        fault_hit: false,
        corrupt_at: None,
        stalled_until: 0,
        frozen: false,
        read_waker: None,
        write_waker: None,
        written: 0,
        delivered: 0,
        read: 0,
        write_calls: 0,
    });
    w.net.pipes.len() - 1
}

pub fn addr(s: &str) -> SocketAddr {
    s.parse().unwrap()
}

/// A connected pair of sockets. `p_ab` shapes the direction from the first to the second.
pub fn pair(p_ab: Profile, p_ba: Profile) -> (Socket, Socket) {
    with(|w| {
        let ab = new_pipe(w, p_ab);
        let ba = new_pipe(w, p_ba);
        let a = addr("10.0.0.1:40000");
        let b = addr("10.0.0.2:143");
        (
            Socket { out: ab, inc: ba, local: a, peer: b, closed: false },
            Socket { out: ba, inc: ab, local: b, peer: a, closed: false },
        )
    })
}

impl Net {
    pub fn deliverable(&mut self, now: u64) -> Vec<usize> {
        let mut v = Vec::new();
        let pipes = &self.pipes;
        // Only pipes that hold something can deliver; the order by index is part of the schedule.
        self.active.retain(|i| !pipes[*i].idle());
        for &i in &self.active {
            let p = &pipes[i];
            if p.frozen || p.reader_closed || p.stalled_until > now {
                continue;
            }
            if !p.tx.is_empty() {
                if p.rx.len() < p.profile.rx_cap {
                    v.push(i);
                }
            } else if p.fin_sent && !p.fin_delivered {
                v.push(i);
            }
        }
        v
    }
    pub fn next_stall_end(&self, now: u64) -> Option<u64> {
        self.active
            .iter()
            .map(|i| &self.pipes[*i])
            .filter(|p| {
                !p.frozen
                    && !p.reader_closed
                    && p.stalled_until > now
                    && ((!p.tx.is_empty() && p.rx.len() < p.profile.rx_cap)
                        || (p.tx.is_empty() && p.fin_sent && !p.fin_delivered))
            })
            .map(|p| p.stalled_until)
            .min()
    }
}

/// One network event on a pipe: some bytes (or the FIN) reach the receiver's buffer.
pub fn deliver(i: usize) {
    let wake = with(|w| {
        let prof = w.net.pipes[i].profile;
        if prof.stall > 0 && w.chance(prof.stall, 64) {
            let d = [1_000_000u64, 50_000_000, 2_000_000_000, 60_000_000_000][w.src.draw(4) as usize];
            w.net.pipes[i].stalled_until = w.now + d;
            w.fault("net.stall");
            w.logf(|| format!("net pipe{i} stalls {}ms", d / 1_000_000));
            return (None, None);
        }
        let (tx_len, room) = {
            let p = &w.net.pipes[i];
            (p.tx.len(), p.profile.rx_cap.saturating_sub(p.rx.len()))
        };
        if tx_len == 0 {
            let p = &mut w.net.pipes[i];
            p.fin_delivered = true;
            let wk = p.read_waker.take();
            w.mix(0x2000 + i as u64);
            w.logf(|| format!("net pipe{i} FIN"));
            return (wk, None);
        }
        let avail = tx_len.min(room);
        let n = match prof.chunk {
            0 => avail,
            1 => 1,
            2 => 1 + w.src.draw(avail.min(9) as u32) as usize,
            _ => match w.src.draw(4) {
                0 => avail,
                1 => 1,
                2 => 1 + w.src.draw(avail.min(64) as u32) as usize,
                _ => 1 + w.src.draw(avail as u32) as usize,
            },
        }
        .min(avail)
        .max(1);
        if n < avail {
            w.fault("net.partial_delivery");
        }
        let p = &mut w.net.pipes[i];
        for _ in 0..n {
            let mut b = p.tx.pop_front().unwrap();
            if p.corrupt_at == Some(p.delivered) {
                b ^= 0x10;
                p.corrupt_at = None;
            }
            p.rx.push_back(b);
            p.delivered += 1;
        }
        let r = p.read_waker.take();
        let wr = p.write_waker.take();
        w.mix(0x3000_0000 + ((i as u64) << 20) + n as u64);
        w.logf(|| format!("net pipe{i} delivers {n}/{tx_len}"));
        (r, wr)
    });
    if let Some(k) = wake.0 {
        k.wake();
    }
    if let Some(k) = wake.1 {
        k.wake();
    }
}

impl Socket {
    pub fn poll_read(&self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        count_op();
        let i = self.inc;
        let (res, wake) = with(|w| {
            {
                let p = &mut w.net.pipes[i];
                if let Some((at, kind)) = p.read_fault {
                    if p.read >= at {
                        p.read_fault = None;
                        p.fault_hit = true;
                        p.read_err = Some(kind);
                        p.rx.clear();
                        w.fault("net.read_error");
                    }
                }
            }
            let p = &w.net.pipes[i];
            if p.rx.is_empty() {
                if let Some(kind) = p.read_err {
                    w.logf(|| format!("net pipe{i} read error {kind:?}"));
                    return (Poll::Ready(Err(kind.into())), None);
                }
                if p.fin_delivered {
                    w.logf(|| format!("net pipe{i} read EOF"));
                    return (Poll::Ready(Ok(Vec::new())), None);
                }
                w.net.pipes[i].read_waker = Some(cx.waker().clone());
                return (Poll::Pending, None);
            }
            if max == 0 {
                return (Poll::Ready(Ok(Vec::new())), None);
            }
            let prof = p.profile;
            let avail = p.rx.len().min(max);
            if prof.spurious > 0 && w.chance(prof.spurious, 16) {
                w.fault("net.spurious_not_ready");
                cx.waker().wake_by_ref();
                return (Poll::Pending, None);
            }
            let mut n = avail;
            if prof.short_read > 0 && avail > 1 && w.chance(prof.short_read, 16) {
                n = 1 + w.src.draw(avail as u32 - 1) as usize;
                w.fault("net.short_read");
            }
            let p = &mut w.net.pipes[i];
            let out: Vec<u8> = p.rx.drain(..n).collect();
            p.read += n as u64;
            w.mix(0x4000_0000 + ((i as u64) << 20) + n as u64);
            w.logf(|| format!("net pipe{i} read {n}"));
            (Poll::Ready(Ok(out)), None::<Waker>)
        });
        if let Some(k) = wake {
            k.wake();
        }
        res
    }

    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        count_op();
        let i = self.out;
        let inc = self.inc;
        let (res, wake) = with(|w| {
            w.net.pipes[i].write_calls += 1;
            {
                let p = &mut w.net.pipes[i];
                if let Some((at, f)) = p.write_fault {
                    if p.written >= at {
                        p.fault_hit = true;
                        match f {
                            WriteFault::Error(kind) => {
                                p.write_fault = None;
                                p.write_err = Some(kind);
                                w.fault("net.write_error");
                            }
                            WriteFault::Zero => {
                                w.fault("net.write_zero");
                                return (Poll::Ready(Ok(0)), None);
                            }
                        }
                    }
                }
            }
            let p = &w.net.pipes[i];
            if let Some(kind) = p.write_err {
                w.logf(|| format!("net pipe{i} write error {kind:?}"));
                return (Poll::Ready(Err(kind.into())), None);
            }
            if p.fin_sent {
                return (Poll::Ready(Err(ErrorKind::BrokenPipe.into())), None);
            }
            if buf.is_empty() {
                return (Poll::Ready(Ok(0)), None);
            }
            if p.reader_closed {
                // The peer is gone: the bytes are accepted locally and answered with a reset.
                let n = buf.len();
                w.fault("net.reset_by_closed_peer");
                w.net.pipes[i].write_err = Some(ErrorKind::BrokenPipe);
                w.net.pipes[i].written += n as u64;
                let p = &mut w.net.pipes[inc];
                if !p.fin_delivered {
                    p.tx.clear();
                    p.read_err = Some(ErrorKind::ConnectionReset);
                }
                let wk = p.read_waker.take();
                w.logf(|| format!("net pipe{i} write {n} to closed peer"));
                return (Poll::Ready(Ok(n)), wk);
            }
            let room = p.profile.tx_cap.saturating_sub(p.tx.len());
            if room == 0 {
                w.fault("net.backpressure");
                w.net.pipes[i].write_waker = Some(cx.waker().clone());
                return (Poll::Pending, None);
            }
            let prof = p.profile;
            if prof.spurious > 0 && w.chance(prof.spurious, 16) {
                w.fault("net.spurious_not_ready");
                cx.waker().wake_by_ref();
                return (Poll::Pending, None);
            }
            let avail = room.min(buf.len());
            let mut n = avail;
            if prof.short_write > 0 && avail > 1 && w.chance(prof.short_write, 16) {
                n = 1 + w.src.draw(avail as u32 - 1) as usize;
            }
            if n < buf.len() {
                w.fault("net.short_write");
            }
            let p = &mut w.net.pipes[i];
            p.tx.extend(&buf[..n]);
            w.net.active.insert(self.out);
            p.written += n as u64;
            w.mix(0x5000_0000 + ((i as u64) << 20) + n as u64);
            w.logf(|| format!("net pipe{i} write {n}/{}", buf.len()));
            (Poll::Ready(Ok(n)), None)
        });
        if let Some(k) = wake {
            k.wake();
        }
        res
    }

    /// Half-close: FIN after everything written so far.
    pub fn shutdown(&self) {
        with(|w| {
            w.net.pipes[self.out].fin_sent = true;
            w.net.active.insert(self.out);
        })
    }

    pub fn readable_now(&self) -> bool {
        with(|w| {
            let p = &w.net.pipes[self.inc];
            !p.rx.is_empty() || p.fin_delivered || p.read_err.is_some()
        })
    }

    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<()> {
        if self.readable_now() {
            return Poll::Ready(());
        }
        with(|w| w.net.pipes[self.inc].read_waker = Some(cx.waker().clone()));
        Poll::Pending
    }

    pub fn writable_now(&self) -> bool {
        with(|w| {
            let p = &w.net.pipes[self.out];
            p.tx.len() < p.profile.tx_cap || p.reader_closed || p.fin_sent || p.write_err.is_some()
        })
    }

    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<()> {
        if self.writable_now() {
            return Poll::Ready(());
        }
        with(|w| w.net.pipes[self.out].write_waker = Some(cx.waker().clone()));
        Poll::Pending
    }

    /// Abortive close: the peer gets a reset at once, in-flight data is lost.
    pub fn reset(mut self) {
        self.closed = true;
        let wk = with(|w| {
            w.fault("net.reset");
            w.logf(|| format!("net pipe{} RST", self.out));
            let o = &mut w.net.pipes[self.out];
            o.tx.clear();
            o.read_err = Some(ErrorKind::ConnectionReset);
            o.fin_sent = true;
            w.net.active.insert(self.out);
            let o = &mut w.net.pipes[self.out];
            let a = o.read_waker.take();
            let i = &mut w.net.pipes[self.inc];
            i.tx.clear();
            i.rx.clear();
            i.reader_closed = true;
            i.write_err = Some(ErrorKind::ConnectionReset);
            let b = i.write_waker.take();
            [a, b]
        });
        for k in wk.into_iter().flatten() {
            k.wake();
        }
    }

    fn close(&mut self) {
        if self.closed {
            return;
        }
        self.closed = true;
        let wk = try_with(|w| {
            let unread = {
                let i = &w.net.pipes[self.inc];
                !i.rx.is_empty() || (!i.tx.is_empty())
            };
            w.logf(|| format!("net pipe{} close{}", self.out, if unread { " (unread data)" } else { "" }));
            let i = &mut w.net.pipes[self.inc];
            i.reader_closed = true;
            i.tx.clear();
            i.rx.clear();
            let b = i.write_waker.take();
            if unread {
                // Closing with unread data resets the connection (the peer may lose
                // what was still in flight towards it).
                i.write_err = Some(ErrorKind::ConnectionReset);
            }
            w.net.pipes[self.out].fin_sent = true;
            w.net.active.insert(self.out);
            b
        })
        .flatten();
        if let Some(k) = wk {
            k.wake();
        }
    }

    // ---- helpers for scripted peers -------------------------------------------------------

    pub async fn read_some(&self) -> io::Result<Vec<u8>> {
        std::future::poll_fn(|cx| self.poll_read(cx, 65536)).await
    }

    pub async fn write_all(&self, mut buf: &[u8]) -> io::Result<()> {
        while !buf.is_empty() {
            let n = std::future::poll_fn(|cx| self.poll_write(cx, buf)).await?;
            if n == 0 {
                return Err(ErrorKind::WriteZero.into());
            }
            buf = &buf[n..];
        }
        Ok(())
    }
}

impl Drop for Socket {
    fn drop(&mut self) {
        self.close();
    }
}

// ---- listeners -------------------------------------------------------------------------------

pub fn resolve(host: &str, port: u16) -> io::Result<Vec<SocketAddr>> {
    let h = host.strip_prefix('[').and_then(|h| h.strip_suffix(']')).unwrap_or(host);
    if let Ok(ip) = h.parse::<IpAddr>() {
        return Ok(vec![SocketAddr::new(ip, port)]);
    }
    with(|w| match w.net.hosts.get(host) {
        Some(ips) => Ok(ips.iter().map(|ip| SocketAddr::new(*ip, port)).collect()),
        None if host == "localhost" => Ok(vec![SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), port)]),
        None => {
            w.fault("net.dns_failure");
            Err(io::Error::new(ErrorKind::Other, "failed to lookup address information"))
        }
    })
}

/// For the simulated environment: not listed among the binds of the system under test.
pub fn bind_env(a: SocketAddr) -> io::Result<SocketAddr> {
    with(|w| w.net.listeners.insert(a, Listener { queue: VecDeque::new(), waker: None, open: true }));
    Ok(a)
}

pub fn bind(mut a: SocketAddr) -> io::Result<SocketAddr> {
    with(|w| {
        if a.port() == 0 {
            w.net.next_port = w.net.next_port.wrapping_add(1);
            a.set_port(30000 + w.net.next_port % 20000);
        }
        if let Some(kind) = w.net.bind_faults.get(&a).copied() {
            w.fault("net.bind_error");
            w.logf(|| format!("net bind {a} fails: {kind:?}"));
            return Err(kind.into());
        }
        if w.net.listeners.get(&a).is_some_and(|l| l.open) {
            w.fault("net.addr_in_use");
            return Err(ErrorKind::AddrInUse.into());
        }
        w.net.listeners.insert(a, Listener { queue: VecDeque::new(), waker: None, open: true });
        w.net.binds.push(a);
        w.logf(|| format!("net bind {a}"));
        Ok(a)
    })
}

pub fn close_listener(a: SocketAddr) {
    let l = try_with(|w| w.net.listeners.remove(&a));
    drop(l);
}

pub fn poll_accept(a: SocketAddr, cx: &mut Context<'_>) -> Poll<io::Result<Socket>> {
    accept(a, cx, true)
}

/// For the simulated environment: never fails with an injected error.
pub fn poll_accept_quiet(a: SocketAddr, cx: &mut Context<'_>) -> Poll<io::Result<Socket>> {
    accept(a, cx, false)
}

fn accept(a: SocketAddr, cx: &mut Context<'_>, faults: bool) -> Poll<io::Result<Socket>> {
    count_op();
    with(|w| {
        let Some(l) = w.net.listeners.get_mut(&a) else {
            return Poll::Ready(Err(ErrorKind::InvalidInput.into()));
        };
        if l.queue.is_empty() {
            l.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(kind) = if faults { w.net.accept_faults.pop_front() } else { None } {
            w.fault("net.accept_error");
            w.logf(|| format!("net accept on {a} fails: {kind:?}"));
            return Poll::Ready(Err(kind.into()));
        }
        let l = w.net.listeners.get_mut(&a).unwrap();
        let s = l.queue.pop_front().unwrap();
        let peer = s.peer;
        w.logf(|| format!("net accept on {a} from {peer}"));
        w.mix(0x6000);
        Poll::Ready(Ok(s))
    })
}

/// Whether the next connection attempt to this address gets no answer at all.
pub fn hangs(a: SocketAddr) -> bool {
    with(|w| match w.net.unreachable.get_mut(&a) {
        Some(n) if *n > 0 => {
            *n -= 1;
            w.fault("net.unreachable");
            w.net.connects.push(a);
            w.logf(|| format!("net connect {a} gets no answer"));
            true
        }
        _ => false,
    })
}

pub fn connect(a: SocketAddr) -> io::Result<Socket> {
    count_op();
    let (res, wk) = with(|w| {
        w.net.connects.push(a);
        let key = if w.net.listeners.contains_key(&a) {
            a
        } else {
            SocketAddr::new(IpAddr::V4(Ipv4Addr::UNSPECIFIED), a.port())
        };
        let refused = match w.net.refusing.get_mut(&a) {
            Some(n) if *n > 0 => {
                *n -= 1;
                true
            }
            _ => false,
        };
        if refused || !w.net.listeners.contains_key(&key) {
            w.fault("net.connection_refused");
            w.logf(|| format!("net connect {a} refused"));
            return (Err(ErrorKind::ConnectionRefused.into()), None);
        }
        let prof = w.net.default_profile.unwrap_or(Profile::PLAIN);
        let (there, back) = w.net.profiles.get(&a).copied().unwrap_or((prof, prof));
        let ab = new_pipe(w, there);
        let ba = new_pipe(w, back);
        w.net.next_port = w.net.next_port.wrapping_add(1);
        let local = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 40000 + w.net.next_port % 20000);
        w.logf(|| format!("net connect {a} from {local} (pipes {ab}/{ba})"));
        let l = w.net.listeners.get_mut(&key).unwrap();
        l.queue.push_back(Socket { out: ba, inc: ab, local: a, peer: local, closed: false });
        (Ok(Socket { out: ab, inc: ba, local, peer: a, closed: false }), l.waker.take())
    });
    if let Some(k) = wk {
        k.wake();
    }
    res
}
