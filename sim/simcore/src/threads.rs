//! Deterministic thread interleaving: real OS threads, exactly one of which runs at a time; which
//! one continues at every intercepted synchronisation operation is a drawn choice.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use crate::world::{install, uninstall, with, World};

/// The world moves between the simulated threads; only the baton holder touches it.
struct Carried(World);
unsafe impl Send for Carried {}

struct State {
    world: Option<Carried>,
    /// Thread holding the baton.
    turn: usize,
    alive: Vec<bool>,
    blocked: Vec<bool>,
    ops: u64,
    mode: u32,
    prio: Vec<u32>,
    change_at: Vec<u64>,
    panics: Vec<(usize, String)>,
}

struct Shared {
    st: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static CTX: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

/// Is the calling thread a simulated thread?
pub fn active() -> bool {
    CTX.with(|c| c.borrow().is_some())
}

fn pick(st: &mut State, me: usize, must_switch: bool) -> Option<usize> {
    let cands: Vec<usize> = (0..st.alive.len())
        .filter(|&t| st.alive[t] && !st.blocked[t] && !(must_switch && t == me))
        .collect();
    if cands.is_empty() {
        return None;
    }
    st.ops += 1;
    let ops = st.ops;
    let mode = st.mode;
    let w = &mut st.world.as_mut().unwrap().0;
    let next = match mode {
        // run-to-completion mostly
        0 if !must_switch && cands.contains(&me) => {
            if w.chance(1, 8) {
                cands[w.src.draw(cands.len() as u32) as usize]
            } else {
                me
            }
        }
        // strict priorities with a few drawn change points (PCT)
        1 => {
            if st.change_at.contains(&ops) && cands.contains(&me) {
                let low = st.prio.iter().min().copied().unwrap_or(0);
                st.prio[me] = low.saturating_sub(1);
            }
            let prio = &st.prio;
            *cands.iter().max_by_key(|&&t| prio[t]).unwrap()
        }
        // round robin
        2 => *cands.iter().find(|&&t| t > me).unwrap_or(&cands[0]),
        _ => cands[w.src.draw(cands.len() as u32) as usize],
    };
    w.steps += 1;
    w.now += 1_000;
    w.mix(0x7000_0000 + next as u64);
    if next != me {
        w.fault("thread.preempt");
        w.logf(|| format!("op {ops}: switch T{me} -> T{next}"));
    }
    Some(next)
}

/// A preemption point: every intercepted atomic or lock operation calls this first.
pub fn yield_point(what: &'static str) {
    let Some((sh, me)) = CTX.with(|c| c.borrow().clone()) else { return };
    let mut st = sh.st.lock().unwrap();
    if let Some(Carried(w)) = st.world.as_mut() {
        w.logf(|| format!("T{me} {what}"));
    }
    if let Some(n) = pick(&mut st, me, false) {
        st.turn = n;
        sh.cv.notify_all();
    }
    wait_turn(&sh, st, me);
}

fn wait_turn(sh: &Shared, mut st: std::sync::MutexGuard<'_, State>, me: usize) {
    let mut last = st.ops;
    let mut idle = 0;
    while st.turn != me {
        let (g, to) = sh.cv.wait_timeout(st, Duration::from_millis(200)).unwrap();
        st = g;
        if to.timed_out() && st.turn != me {
            idle = if st.ops == last { idle + 1 } else { 0 };
            last = st.ops;
            // The baton holder sits in a real blocking call the seam does not cover: let
            // somebody else run so that it can be unblocked.
            if idle > 10 {
                let t = st.turn;
                if st.alive[t] {
                    st.blocked[t] = true;
                }
                if let Some(n) = pick(&mut st, t, true) {
                    st.turn = n;
                    sh.cv.notify_all();
                }
                idle = 0;
            }
        }
    }
    st.blocked[me] = false;
}

/// Draw from the run's source inside a simulated thread (or outside).
pub fn draw(n: u32) -> u32 {
    let ctx = CTX.with(|c| c.borrow().clone());
    match ctx {
        Some((sh, _)) => sh.st.lock().unwrap().world.as_mut().unwrap().0.src.draw(n),
        None => crate::world::draw(n),
    }
}

/// Run the closures as simulated threads. Returns panics `(thread, message)`.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>) -> Vec<(usize, String)> {
    let n = bodies.len();
    let mut world = uninstall().expect("world");
    let mode = world.src.draw(4);
    let prio = (0..n).map(|_| 1000 + world.src.draw(1000)).collect();
    let change_at = (0..3).map(|_| 1 + world.src.draw(60) as u64).collect();
    let first = world.src.draw(n as u32) as usize;
    let sh = Arc::new(Shared {
        st: Mutex::new(State {
            world: Some(Carried(world)),
            turn: first,
            alive: vec![true; n],
            blocked: vec![false; n],
            ops: 0,
            mode,
            prio,
            change_at,
            panics: Vec::new(),
        }),
        cv: Condvar::new(),
    });
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(me, body)| {
            let sh = sh.clone();
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    CTX.with(|c| *c.borrow_mut() = Some((sh.clone(), me)));
                    {
                        let st = sh.st.lock().unwrap();
                        wait_turn(&sh, st, me);
                    }
                    let r = catch_unwind(AssertUnwindSafe(body));
                    CTX.with(|c| *c.borrow_mut() = None);
                    let mut st = sh.st.lock().unwrap();
                    if r.is_err() {
                        let msg = crate::harness::take_thread_panic();
                        st.panics.push((me, msg));
                    }
                    st.alive[me] = false;
                    if let Some(nx) = pick(&mut st, me, true) {
                        st.turn = nx;
                    }
                    sh.cv.notify_all();
                })
                .expect("spawn thread")
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    let mut st = sh.st.lock().unwrap();
    install(st.world.take().unwrap().0);
    with(|w| w.mix(st.ops));
    std::mem::take(&mut st.panics)
}

/// How many further increments "somebody else" performs right after this one. Zero unless the
/// scenario enabled it; used to bring counters near the ends of narrower integer types.
pub fn warp() -> u64 {
    fn go(w: &mut World) -> u64 {
        if w.warp.is_empty() {
            return 0;
        }
        let n = w.warp.len() as u32;
        let v = w.warp[w.src.draw(n) as usize];
        if v != 0 {
            w.fault("counter.fast_forward");
            w.logf(|| format!("counter advanced by {v} further increments"));
        }
        v
    }
    let ctx = CTX.with(|c| c.borrow().clone());
    match ctx {
        Some((sh, _)) => go(&mut sh.st.lock().unwrap().world.as_mut().unwrap().0),
        None => crate::world::try_with(go).unwrap_or(0),
    }
}

fn in_world<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let ctx = CTX.with(|c| c.borrow().clone());
    match ctx {
        Some((sh, _)) => sh.st.lock().unwrap().world.as_mut().map(|w| f(&mut w.0)),
        None => crate::world::try_with(f),
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Does this address belong to a `static`?
pub fn is_static(addr: usize) -> bool {
    let (a, b) = (&raw const __data_start as usize, &raw const _end as usize);
    (a..b).contains(&addr)
}

/// The value a static atomic has in this run (`init` until it is written); `None` outside a run.
pub fn static_get(addr: usize, init: u64) -> Option<u64> {
    in_world(|w| w.statics.get(&addr).copied().unwrap_or(init))
}
pub fn static_set(addr: usize, v: u64) {
    in_world(|w| w.statics.insert(addr, v));
}

/// This run's own copy of a `static` that is not a plain atomic (a lock, a lazily initialised
/// cell): the pristine bytes of the static, which itself is never touched inside a run. Statics are
/// constant-evaluated, so a pristine value owns nothing that a copy of its bytes could alias.
pub fn per_run<T: ?Sized>(this: &T) -> &T {
    let ptr = this as *const T;
    let addr = ptr as *const u8 as usize;
    if std::mem::size_of_val(this) == 0 || !is_static(addr) {
        return this;
    }
    let layout = std::alloc::Layout::for_value(this);
    let copy = in_world(|w| {
        *w.static_objs.entry(addr).or_insert_with(|| unsafe {
            let p = std::alloc::alloc(layout);
            std::ptr::copy_nonoverlapping(addr as *const u8, p, layout.size());
            p as usize
        })
    });
    match copy {
        Some(p) => unsafe { &*ptr.wrapping_byte_offset((p as isize).wrapping_sub(addr as isize)) },
        None => this,
    }
}

/// The operating system's random numbers: honest, constant, from a tiny set, or honest without
/// being choices of the run (3: a run cannot be shrunk to one without randomness).
pub fn random_u32() -> u32 {
    in_world(|w| {
        w.rng_taken += 1;
        let style = match w.rng_style {
            Some(s) => s,
            None => {
                let s = w.src.draw(3);
                w.rng_style = Some(s);
                if s != 2 {
                    w.fault("rng.repeats");
                }
                s
            }
        };
        match style {
            0 => 0,
            1 => w.src.draw(2),
            2 => w.src.draw(u32::MAX),
            _ => {
                let mut z = w.rng_key.wrapping_add(w.rng_taken.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                let v = ((z ^ (z >> 31)) >> 32) as u32;
                w.rng_words.insert(v);
                v
            }
        }
    })
    .unwrap_or(0)
}

/// From now on random numbers are good ones.
pub fn good_random(key: u64) {
    in_world(|w| {
        w.rng_style = Some(3);
        w.rng_key = key.wrapping_mul(0xd134_2543_de82_ef95) ^ 0x5bd1_e995;
    });
}

/// How many random numbers were taken so far.
pub fn random_taken() -> u64 {
    in_world(|w| w.rng_taken).unwrap_or(0)
}

/// A generator that was seeded with this gives another random number: is the seed random itself?
pub fn random_if(seed: &[u8]) -> bool {
    let word = |c: &[u8]| u32::from_le_bytes(c.try_into().unwrap());
    in_world(|w| seed.chunks_exact(4).filter(|c| w.rng_words.contains(&word(c))).count() >= 4).unwrap_or(false)
}
pub fn count_random() {
    in_world(|w| w.rng_taken += 1);
}

/// The process ends and starts again: its statics are as at the beginning.
pub fn restart() {
    in_world(|w| {
        w.statics.clear();
        w.static_objs.clear();
    });
}
