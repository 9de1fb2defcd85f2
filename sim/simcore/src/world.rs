use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use crate::exec::Exec;
use crate::fs::Vfs;
use crate::net::Net;
use crate::source::Source;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Properties (and scenario labels) this failure is evidence against.
    pub labels: Vec<String>,
    /// Short stable class, used to match known findings and to keep shrinking on the same bug.
    pub class: String,
    pub message: String,
}

pub struct World {
    pub src: Source,
    pub exec: Exec,
    pub net: Net,
    pub fs: Vfs,
    pub args: Vec<String>,
    /// Simulated time in nanoseconds.
    pub now: u64,
    pub steps: u64,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    /// Everything written to standard output.
    pub stdout: String,
    pub panics: Vec<String>,
    pub cover: BTreeSet<u64>,
    pub last_panic: Option<String>,
    /// Drawn extra increments for shared counters (see `threads::warp`).
    pub warp: Vec<u64>,
    /// Values of static atomics in this run.
    pub statics: BTreeMap<usize, u64>,
    /// Where this run's copies of other statics (locks, lazily initialised cells) live.
    pub static_objs: BTreeMap<usize, usize>,
    pub rng_style: Option<u32>,
    pub rng_key: u64,
    pub rng_taken: u64,
    pub rng_words: std::collections::HashSet<u32>,
    /// The code under test ended its process with this status.
    pub exited: Option<i32>,
}

impl World {
    pub fn new(src: Source, log: bool) -> Self {
        World {
            src,
            exec: Exec::default(),
            net: Net::default(),
            fs: Vfs::default(),
            args: Vec::new(),
            now: 0,
            steps: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            log: log.then(Vec::new),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            violations: Vec::new(),
            stdout: String::new(),
            panics: Vec::new(),
            cover: BTreeSet::new(),
            last_panic: None,
            warp: Vec::new(),
            statics: BTreeMap::new(),
            static_objs: BTreeMap::new(),
            rng_style: None,
            rng_key: 0,
            rng_taken: 0,
            rng_words: Default::default(),
            exited: None,
        }
    }
    pub fn mix(&mut self, v: u64) {
        let mut h = self.hash;
        for b in v.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.hash = h;
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        num > 0 && self.src.draw(den) >= den.saturating_sub(num)
    }
    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        if let Some(log) = &mut self.log {
            if log.len() < 20_000 {
                log.push(f());
            }
        }
    }
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static RUN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Counts the runs of this operating system thread.
pub fn run_number() -> u64 {
    RUN.with(|r| r.get())
}
/// Thread-locals of the code under test are fresh from here on.
pub fn next_run() {
    RUN.with(|r| r.set(r.get() + 1))
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulated world on this thread")))
}

pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD
        .try_with(|w| w.try_borrow_mut().ok().and_then(|mut w| w.as_mut().map(f)))
        .ok()
        .flatten()
}

pub fn install(world: World) {
    WORLD.with(|w| *w.borrow_mut() = Some(world));
}

pub fn uninstall() -> Option<World> {
    WORLD.with(|w| w.borrow_mut().take())
}

/// `0..n`, 0 is the plainest choice.
pub fn draw(n: u32) -> u32 {
    with(|w| w.src.draw(n))
}

/// True with probability num/den; false is the plain choice.
pub fn chance(num: u32, den: u32) -> bool {
    with(|w| w.chance(num, den))
}

/// Index drawn with the given weights (index 0 is the plain choice).
pub fn weighted(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut v = draw(total);
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= *w;
    }
    0
}

pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}

pub fn log(f: impl FnOnce() -> String) {
    with(|w| w.logf(f))
}

pub fn fault(kind: &'static str) {
    with(|w| w.fault(kind))
}

pub fn probe(name: impl Into<String>) {
    with(|w| *w.probes.entry(name.into()).or_insert(0) += 1)
}

/// Fold an observation into the run's trace hash.
pub fn observe(bytes: &[u8]) {
    with(|w| {
        let mut h = 0u64;
        for b in bytes {
            h = h.wrapping_mul(31).wrapping_add(*b as u64 + 1);
        }
        w.mix(h);
    })
}

/// Record that a (hashed) abstract state was reached.
pub fn cover(state: &str) {
    with(|w| {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in state.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        w.cover.insert(h);
    })
}

pub fn violate(labels: &[&str], class: impl Into<String>, message: impl Into<String>) {
    let v = Violation {
        labels: labels.iter().map(|s| s.to_string()).collect(),
        class: class.into(),
        message: message.into(),
    };
    with(|w| {
        w.logf(|| format!("!! {} {:?}: {}", v.class, v.labels, v.message));
        w.violations.push(v)
    })
}

pub fn failed() -> bool {
    with(|w| !w.violations.is_empty())
}

pub fn now() -> u64 {
    with(|w| w.now)
}
