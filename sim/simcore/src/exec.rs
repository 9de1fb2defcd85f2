//! Task executor: one task is polled at a time, and which one is a drawn choice.
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::world::{self, with};

pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Code under test (spawned through the tokio stand-in): a panic is contained, as in tokio.
    Sut,
    /// Simulated environment or scenario driver: a panic fails the run.
    Env,
}

pub struct Task {
    pub name: String,
    kind: Kind,
    fut: Option<BoxFut>,
    done: bool,
    /// In `Exec::ready`.
    queued: bool,
    on_panic: Option<Box<dyn FnOnce(String)>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sched {
    /// Oldest ready task first; the network delivers when every task waits.
    Fifo,
    /// Uniform choice among ready tasks and deliverable segments.
    Uniform,
    /// Deliver as soon as something is in flight.
    EagerNet,
    /// Newest ready task first, mostly.
    Lifo,
    /// One task is starved for a while, then another.
    Starve,
}

#[derive(Default)]
pub struct Exec {
    tasks: Vec<Task>,
    queue: Arc<Mutex<Vec<usize>>>,
    ready: VecDeque<usize>,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    pub sched: Option<Sched>,
    pub step_cap: u64,
    starved: usize,
    starve_left: u32,
}

struct TaskWake {
    id: usize,
    queue: Arc<Mutex<Vec<usize>>>,
}

impl Wake for TaskWake {
    fn wake(self: Arc<Self>) {
        self.queue.lock().unwrap().push(self.id);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.queue.lock().unwrap().push(self.id);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// The awaited task finished.
    Done,
    /// Nothing can ever happen again and the awaited task has not finished.
    Quiescent,
    /// The step budget ran out.
    StepCap,
}

thread_local! {
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
    static OPS: Cell<u64> = const { Cell::new(0) };
}

pub const OPS_PER_POLL: u64 = 2_000_000;
pub const SPIN: &str = "SIM-SPIN: one poll performed too many I/O operations without yielding";

/// Called by every simulated I/O operation; bounds the work one poll can do.
pub fn count_op() {
    OPS.with(|o| {
        o.set(o.get() + 1);
        if o.get() > OPS_PER_POLL {
            o.set(0);
            panic!("{SPIN}");
        }
    })
}

pub fn spawn(name: impl Into<String>, kind: Kind, fut: BoxFut, on_panic: Option<Box<dyn FnOnce(String)>>) -> usize {
    let name = name.into();
    with(|w| {
        let id = w.exec.tasks.len();
        w.exec.tasks.push(Task { name, kind, fut: Some(fut), done: false, queued: false, on_panic });
        w.exec.queue.lock().unwrap().push(id);
        id
    })
}

pub fn spawn_env(name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
    spawn(name, Kind::Env, Box::pin(fut), None)
}

/// Drop a task's future (cancellation). The currently running task cannot abort itself this way.
pub fn abort(id: usize) {
    let fut = with(|w| {
        let t = &mut w.exec.tasks[id];
        t.done = true;
        t.fut.take()
    });
    drop(fut);
}

pub fn is_done(id: usize) -> bool {
    with(|w| w.exec.tasks[id].done)
}

pub fn current() -> usize {
    CURRENT.with(|c| c.get())
}

pub fn add_timer(at: u64, waker: Waker) -> (u64, u64) {
    with(|w| {
        w.exec.timer_seq += 1;
        let key = (at, w.exec.timer_seq);
        w.exec.timers.insert(key, waker);
        key
    })
}

pub fn cancel_timer(key: (u64, u64)) {
    let wk = world::try_with(|w| w.exec.timers.remove(&key));
    drop(wk);
}

enum Next {
    Task(usize),
    Pipe(usize),
    Again,
    Nothing,
}

fn choose() -> Next {
    with(|w| {
        {
            let mut q = w.exec.queue.lock().unwrap();
            for id in q.drain(..) {
                let t = &mut w.exec.tasks[id];
                if !t.done && t.fut.is_some() && !t.queued {
                    t.queued = true;
                    w.exec.ready.push_back(id);
                }
            }
        }
        let tasks = &w.exec.tasks;
        w.exec.ready.retain(|id| !tasks[*id].done);
        let pipes = w.net.deliverable(w.now);
        let nr = w.exec.ready.len();
        let np = pipes.len();
        if nr + np == 0 {
            // Nothing can run: let simulated time pass until the next timer or stall end.
            let stall = w.net.next_stall_end(w.now);
            let timer = w.exec.timers.keys().next().map(|k| k.0);
            let at = match (stall, timer) {
                (Some(a), Some(b)) => a.min(b),
                (Some(a), None) | (None, Some(a)) => a,
                (None, None) => return Next::Nothing,
            };
            w.now = w.now.max(at);
            fire_timers(w);
            return Next::Again;
        }
        fire_timers(w);
        let sched = w.exec.sched.unwrap_or(Sched::Fifo);
        let total = (nr + np) as u32;
        // Index 0..nr are ready tasks in wake order, then pipes.
        let idx = match sched {
            Sched::Fifo => {
                if total > 1 && w.chance(1, 16) { w.src.draw(total) as usize } else { 0 }
            }
            Sched::Uniform => w.src.draw(total) as usize,
            Sched::EagerNet => {
                if np > 0 && !(nr > 0 && w.chance(1, 4)) {
                    nr + w.src.draw(np as u32) as usize
                } else {
                    w.src.draw(nr as u32) as usize
                }
            }
            Sched::Lifo => {
                if nr > 0 && !w.chance(1, 8) { nr - 1 } else { w.src.draw(total) as usize }
            }
            Sched::Starve => {
                if w.exec.starve_left == 0 {
                    let n = w.exec.tasks.len() as u32;
                    w.exec.starved = w.src.draw(n) as usize;
                    w.exec.starve_left = 5 + w.src.draw(60);
                }
                w.exec.starve_left -= 1;
                let start = w.src.draw(total) as usize;
                let mut pick = start;
                for k in 0..total as usize {
                    let i = (start + k) % total as usize;
                    pick = i;
                    if i >= nr || w.exec.ready[i] != w.exec.starved {
                        break;
                    }
                }
                pick
            }
        };
        if idx < nr {
            let id = w.exec.ready.remove(idx).unwrap();
            w.exec.tasks[id].queued = false;
            Next::Task(id)
        } else {
            Next::Pipe(pipes[idx - nr])
        }
    })
}

fn fire_timers(w: &mut world::World) {
    let now = w.now;
    let mut due = Vec::new();
    while let Some((&k, _)) = w.exec.timers.iter().next() {
        if k.0 > now {
            break;
        }
        due.push(w.exec.timers.remove(&k).unwrap());
    }
    for d in due {
        d.wake();
    }
}

/// Run the simulation until `main` finishes, nothing can happen any more, or the cap is hit.
pub fn run_until(main: usize) -> End {
    loop {
        if is_done(main) {
            return End::Done;
        }
        crate::harness::beat();
        let over = with(|w| {
            w.steps += 1;
            w.now += 1_000;
            w.steps > w.exec.step_cap
        });
        if over {
            return End::StepCap;
        }
        match choose() {
            Next::Nothing => return End::Quiescent,
            Next::Again => {}
            Next::Pipe(p) => crate::net::deliver(p),
            Next::Task(id) => poll_task(id),
        }
    }
}

fn poll_task(id: usize) {
    let Some((mut fut, queue)) = with(|w| {
        let name = &w.exec.tasks[id].name;
        if let Some(log) = &mut w.log {
            if log.len() < 20_000 {
                log.push(format!("[{:>6}us] run {name}", w.now / 1000));
            }
        }
        w.mix(0x1000 + id as u64);
        let q = w.exec.queue.clone();
        w.exec.tasks[id].fut.take().map(|f| (f, q))
    }) else {
        return;
    };
    let waker = Waker::from(Arc::new(TaskWake { id, queue }));
    let mut cx = Context::from_waker(&waker);
    OPS.with(|o| o.set(0));
    let prev = CURRENT.with(|c| c.replace(id));
    let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    CURRENT.with(|c| c.set(prev));
    match res {
        Ok(Poll::Pending) => with(|w| {
            let t = &mut w.exec.tasks[id];
            if !t.done {
                t.fut = Some(fut);
                return None;
            }
            Some(fut)
        })
        .map(drop)
        .unwrap_or(()),
        Ok(Poll::Ready(())) => {
            with(|w| w.exec.tasks[id].done = true);
            drop(fut);
        }
        Err(_) => {
            let (kind, name, cb, msg) = with(|w| {
                let msg = w.last_panic.take().unwrap_or_else(|| "unknown panic".into());
                let t = &mut w.exec.tasks[id];
                t.done = true;
                (t.kind, t.name.clone(), t.on_panic.take(), msg)
            });
            crate::secrets::shown("panic", &msg);
            // Dropping a panicked future closes its sockets, exactly as unwinding would.
            let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
            if let (Kind::Sut, Some(code)) = (kind, with(|w| w.exited.take())) {
                if let Some(cb) = cb {
                    cb(format!("EXIT {code}"));
                }
                end_process(Some(code));
                return;
            }
            match kind {
                Kind::Sut => {
                    with(|w| {
                        *w.probes.entry("task.panicked".into()).or_insert(0) += 1;
                        w.panics.push(format!("PANIC {name}: {msg}"));
                        w.logf(|| format!("task {name} panicked: {msg}"));
                    });
                    if let Some(cb) = cb {
                        cb(msg)
                    }
                }
                Kind::Env => world::violate(
                    &["*"],
                    format!("panic:{}", panic_site(&msg)),
                    format!("task {name} panicked: {msg}"),
                ),
            }
        }
    }
}

struct ExitToken;

/// The code under test calls `std::process::exit`: nothing of it runs any more.
pub fn exit_process(code: i32) -> ! {
    world::try_with(|w| {
        w.exited = Some(code);
        w.logf(|| format!("process exits with status {code}"));
    });
    std::panic::resume_unwind(Box::new(ExitToken))
}

/// The simulated process is over: its tasks and sockets go, the panic handlers of its tasks learn
/// the status.
pub fn end_process(status: Option<i32>) {
    let cur = current();
    let n = with(|w| w.exec.tasks.len());
    for id in 0..n {
        let (fut, cb) = with(|w| {
            let t = &mut w.exec.tasks[id];
            if t.kind != Kind::Sut || id == cur {
                return (None, None);
            }
            t.done = true;
            (t.fut.take(), t.on_panic.take())
        });
        let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
        if let (Some(s), Some(cb)) = (status, cb) {
            cb(format!("EXIT {s}"));
        }
    }
}

/// `file:line` part of a recorded panic message, without the line (stable under edits).
pub fn panic_site(msg: &str) -> String {
    msg.split_whitespace().next().unwrap_or("?").split(':').next().unwrap_or("?").to_string()
}

pub struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}

pub struct Sleep {
    pub at: u64,
    key: Option<(u64, u64)>,
}
pub fn sleep_until(at: u64) -> Sleep {
    Sleep { at, key: None }
}
pub fn sleep_ns(ns: u64) -> Sleep {
    sleep_until(world::now() + ns)
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(k) = self.key.take() {
            cancel_timer(k);
        }
        if world::now() >= self.at {
            return Poll::Ready(());
        }
        self.key = Some(add_timer(self.at, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            cancel_timer(k);
        }
    }
}
