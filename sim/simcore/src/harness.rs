//! Run harness: seeded search over many runs in a worker process, supervised for hangs, aborts
//! and memory blow-ups; minimisation; replay files; evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::source::{mix, Mode, Source};
use crate::world::{install, uninstall, with, Violation, World};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub index: u64,
}

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(&Ctx),
    /// Relative share of runs.
    pub share: u32,
}

pub struct Prop {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Which probe (or one of which, separated by `|`) has to be hit for a run to count as non-trivial for this property.
    pub nontrivial: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub steps: u64,
    pub now: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub cover: Vec<u64>,
    pub log: Vec<String>,
}

thread_local! {
    static BEAT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// A scenario with one long computation reports that it is alive.
pub fn beat() {
    let p = BEAT.with(|b| b.get());
    if p != 0 {
        unsafe { &*(p as *const AtomicU64) }.fetch_add(1, Ordering::SeqCst);
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn take_thread_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into())
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let full = format!("{loc} {msg}");
        if std::env::var_os("SIM_PANIC_TRACE").is_some() {
            eprintln!("{full}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(full.clone());
            }
        });
        let _ = crate::world::try_with(|w| w.last_panic = Some(full));
    }));
}

pub fn run_one(scn: &Scenario, ctx: &Ctx, src: Source, log: bool) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    install(World::new(src, log));
    crate::world::next_run();
    // A minimised run does not log unless it must.
    let level = crate::draw(16).saturating_sub(13) as u8;
    crate::logs::set(level);
    if level > 0 {
        crate::fault("env.logging");
    }
    let res = catch_unwind(AssertUnwindSafe(|| (scn.run)(ctx)));
    if res.is_err() {
        let msg = take_thread_panic();
        crate::secrets::shown("panic", &msg);
        crate::world::violate(
            &["*"],
            format!("panic:{}", crate::exec::panic_site(&msg)),
            format!("panic: {msg}"),
        );
    }
    crate::logs::set(0);
    crate::secrets::disarm();
    let mut w = uninstall().unwrap();
    let out = Outcome {
        violations: std::mem::take(&mut w.violations),
        choices: std::mem::take(&mut w.src.rec),
        hash: w.hash,
        steps: w.steps,
        now: w.now,
        faults: std::mem::take(&mut w.faults),
        probes: std::mem::take(&mut w.probes),
        cover: w.cover.iter().copied().collect(),
        log: w.log.take().unwrap_or_default(),
    };
    let _ = catch_unwind(AssertUnwindSafe(|| drop(w)));
    out
}

/// A run counts as non-trivial for a property when it hit one of its probes (separated by `|`).
fn nontrivial(p: &Prop, out: &Outcome) -> bool {
    p.nontrivial.split('|').any(|n| out.probes.contains_key(n))
}

/// The violation of this outcome that counts against `prop`, if any.
pub fn hit<'a>(out: &'a Outcome, prop: &str, known: &[Known]) -> Option<&'a Violation> {
    out.violations
        .iter()
        .find(|v| {
            v.labels.iter().any(|l| l == prop || l == "*")
                && !known.iter().any(|k| k.property == prop && k.class == v.class)
        })
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub what: String,
}

fn load_known(root: &Path) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.jsonl")) else { return vec![] };
    text.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["status"] == "known")
        .map(|v| Known {
            property: v["property"].as_str().unwrap_or("").into(),
            class: v["class"].as_str().unwrap_or("").into(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

fn scenario_at(p: &Prop, index: u64) -> &Scenario {
    let total: u64 = p.scenarios.iter().map(|s| s.share as u64).sum();
    // Spread the shares: stride through the cycle with a multiplier coprime to most totals.
    let mut v = (index * 7 + index / total) % total;
    for s in &p.scenarios {
        if v < s.share as u64 {
            return s;
        }
        v -= s.share as u64;
    }
    &p.scenarios[0]
}

fn run_seed(seed: u64, scn: &str, index: u64) -> u64 {
    let mut h = mix(seed, index);
    for b in scn.bytes() {
        h = mix(h, b as u64);
    }
    h
}

struct Args {
    prop: String,
    tier: Tier,
    seed: u64,
    runs: Option<u64>,
    time: Option<u64>,
    replay: Option<PathBuf>,
    worker: Option<PathBuf>,
    one: Option<u64>,
    choices: Option<PathBuf>,
    tee: Option<PathBuf>,
    hang: Option<u64>,
    threads: usize,
    root: PathBuf,
    scenario: Option<String>,
    shipped: bool,
    verbose: bool,
}

fn parse_args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        time: None,
        replay: None,
        worker: None,
        one: None,
        choices: None,
        tee: None,
        hang: None,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        root: PathBuf::from("/verif"),
        scenario: None,
        shipped: false,
        verbose: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match x.as_str() {
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => a.seed = val().parse().unwrap_or(1),
            "--runs" => a.runs = val().parse().ok(),
            "--time" => a.time = val().parse().ok(),
            "--replay" => a.replay = Some(val().into()),
            "--worker" => a.worker = Some(val().into()),
            "--one" => a.one = val().parse().ok(),
            "--choices" => a.choices = Some(val().into()),
            "--tee" => a.tee = Some(val().into()),
            "--hang" => a.hang = val().parse().ok(),
            "--threads" => a.threads = val().parse().unwrap_or(4),
            "--root" => a.root = val().into(),
            "--scenario" => a.scenario = Some(val()),
            "--shipped" => {
                SHIPPED.store(true, Ordering::SeqCst);
                a.shipped = true
            }
            "-v" => a.verbose = true,
            _ => a.prop = x,
        }
    }
    a
}

/// Wall time without progress after which a run is looked at more closely.
const HANG_SECS: u64 = 25;
/// CPU seconds without progress that make a single run a hang, and the time it may take in all.
const HANG_CPU: u64 = 20;
const HANG_WALL: Duration = Duration::from_secs(330);
const HANG_CODE: i32 = 77;

fn cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

static ONE_BEAT: AtomicU64 = AtomicU64::new(0);

/// Ends this process when its only run makes no progress: `secs` of CPU time are used up by one
/// step, or a step is blocked (it waits for something outside the simulation).
fn watchdog(secs: u64) {
    let cpu = || cpu_ms(libc::CLOCK_PROCESS_CPUTIME_ID);
    std::thread::spawn(move || {
        let mut last = (ONE_BEAT.load(Ordering::SeqCst), cpu(), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let b = ONE_BEAT.load(Ordering::SeqCst);
            if b != last.0 {
                last = (b, cpu(), Instant::now());
                continue;
            }
            let used = cpu() - last.1;
            if used > secs * 1000 || (last.2.elapsed() > Duration::from_secs((15 * secs).min(120)) && used < 200) {
                unsafe { libc::_exit(HANG_CODE) };
            }
        }
    });
}
/// Bytes per worker thread: its own cache lines.
const SLOT: usize = 128;
/// A worker of the real runtime (tokio) has 2 MiB; here the code is optimised and has smaller frames.
const STACK: usize = 768 << 10;

fn limit_memory() {
    unsafe {
        let gb = 8u64 << 30;
        let r = libc::rlimit { rlim_cur: gb, rlim_max: gb };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

pub fn main(props: Vec<Prop>) -> ! {
    install_panic_hook();
    crate::logs::install();
    let args = parse_args();
    let props: &'static [Prop] = Box::leak(props.into_boxed_slice());
    let Some(p) = props.iter().find(|p| p.id == args.prop) else {
        eprintln!("unknown property {:?}", args.prop);
        std::process::exit(2);
    };
    let go = move || if let Some(out) = &args.worker {
        limit_memory();
        worker(p, &args, out)
    } else if args.one.is_some() {
        limit_memory();
        one(p, &args)
    } else if let Some(f) = &args.replay {
        replay(p, f)
    } else {
        supervise(p, &args)
    };
    // Wherever a run happens, it has the same stack.
    let code = std::thread::Builder::new().stack_size(STACK).spawn(go).unwrap().join().unwrap_or(2);
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

fn ctx_for(p: &'static Prop, args: &Args, index: u64) -> Ctx {
    Ctx { prop: p.id, tier: args.tier, index }
}

static SHIPPED: AtomicBool = AtomicBool::new(false);

/// Whether the code under test is compiled as in a release build (without debug assertions and
/// overflow checks).
pub fn shipped() -> bool {
    SHIPPED.load(Ordering::SeqCst)
}

fn total_runs(p: &Prop, args: &Args) -> u64 {
    let share = if args.shipped { 4 } else { 1 };
    args.runs.unwrap_or(match args.tier {
        Tier::Quick => p.quick_runs / share,
        Tier::Thorough => p.thorough_runs / share,
    })
}

fn pick<'a>(p: &'a Prop, args: &Args, index: u64) -> &'a Scenario {
    match &args.scenario {
        Some(n) => p.scenarios.iter().find(|s| s.name == n).expect("scenario"),
        None => scenario_at(p, index),
    }
}

// ---- worker process ------------------------------------------------------------------------

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    sim_ns: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    nt_hashes: HashSet<u64>,
    cover: HashSet<u64>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<&'static str, u64>,
    other: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    slowest: (u64, u64),
    determinism_checked: u64,
    determinism_mismatch: u64,
    samples: Vec<Value>,
}

fn worker(p: &'static Prop, args: &Args, dir: &Path) -> i32 {
    let known = load_known(&args.root);
    let total = total_runs(p, args);
    let cap = Duration::from_secs(args.time.unwrap_or(match args.tier {
        Tier::Quick if args.shipped => 15,
        Tier::Thorough if args.shipped => 150,
        Tier::Quick => 60,
        Tier::Thorough => 600,
    }));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let timed_out = AtomicBool::new(false);
    let fails: Mutex<BTreeMap<u64, (Vec<u32>, Violation)>> = Mutex::new(BTreeMap::new());
    let slots = map_slots(&dir.join("slots"), args.threads);
    let all = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        for t in 0..args.threads {
            let (next, min_fail, fails, timed_out, all, known) =
                (&next, &min_fail, &fails, &timed_out, &all, &known);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let slot = unsafe { &*(slots as *const AtomicU64).add(t * SLOT / 8) };
                    let slot_t = unsafe { &*(slots as *const AtomicU64).add(t * SLOT / 8 + 1) };
                    BEAT.with(|b| b.set(slot_t as *const AtomicU64 as usize));
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if start.elapsed() > cap {
                            timed_out.store(true, Ordering::SeqCst);
                            break;
                        }
                        slot_t.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slot.store(i + 1, Ordering::SeqCst);
                        let scn = pick(p, args, i);
                        let ctx = ctx_for(p, args, i);
                        let seed = run_seed(args.seed ^ (args.shipped as u64) << 40, scn.name, i);
                        let cpu = cpu_ms(libc::CLOCK_THREAD_CPUTIME_ID);
                        let out = run_one(scn, &ctx, Source::random(seed), false);
                        st.slowest = st.slowest.max((cpu_ms(libc::CLOCK_THREAD_CPUTIME_ID) - cpu, i));
                        if i % 257 == 3 {
                            let again = run_one(scn, &ctx, Source::replay(out.choices.clone()), false);
                            st.determinism_checked += 1;
                            if again.hash != out.hash {
                                st.determinism_mismatch += 1;
                            }
                        }
                        slot.store(0, Ordering::SeqCst);
                        st.runs += 1;
                        st.steps += out.steps;
                        st.sim_ns += out.now;
                        *st.per_scenario.entry(scn.name).or_insert(0) += 1;
                        st.hashes.insert(out.hash);
                        if nontrivial(p, &out) {
                            st.nontrivial += 1;
                            st.nt_hashes.insert(out.hash);
                        }
                        st.cover.extend(out.cover.iter().copied());
                        for (k, v) in &out.faults {
                            *st.faults.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &out.probes {
                            *st.probes.entry(k.clone()).or_insert(0) += v;
                        }
                        if st.samples.len() < 2 && nontrivial(p, &out) {
                            st.samples.push(json!({
                                "run": i, "scenario": scn.name, "steps": out.steps,
                                "choices": out.choices.len(), "sim_ms": out.now / 1_000_000,
                                "trace_hash": format!("{:016x}", out.hash),
                                "faults": out.faults, "reached": out.probes,
                            }));
                        }
                        for v in &out.violations {
                            let mine = v.labels.iter().any(|l| l == p.id || l == "*");
                            if mine && known.iter().any(|k| k.property == p.id && k.class == v.class) {
                                *st.known.entry(v.class.clone()).or_insert(0) += 1;
                            } else if !mine {
                                *st.other.entry(v.class.clone()).or_insert(0) += 1;
                            }
                        }
                        if let Some(v) = hit(&out, p.id, known) {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            fails.lock().unwrap().insert(i, (out.choices.clone(), v.clone()));
                        }
                    }
                    let mut a = all.lock().unwrap();
                    a.runs += st.runs;
                    a.steps += st.steps;
                    a.sim_ns += st.sim_ns;
                    a.nontrivial += st.nontrivial;
                    a.hashes.extend(st.hashes);
                    a.nt_hashes.extend(st.nt_hashes);
                    a.cover.extend(st.cover);
                    for (k, v) in st.faults {
                        *a.faults.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.probes {
                        *a.probes.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.per_scenario {
                        *a.per_scenario.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.other {
                        *a.other.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.known {
                        *a.known.entry(k).or_insert(0) += v;
                    }
                    a.determinism_checked += st.determinism_checked;
                    a.slowest = a.slowest.max(st.slowest);
                    a.determinism_mismatch += st.determinism_mismatch;
                    a.samples.extend(st.samples);
                })
                .unwrap();
        }
    });
    let a = all.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let fail = fails.iter().next().map(|(i, (choices, v))| {
        json!({"index": i, "choices": choices, "class": v.class, "message": v.message, "labels": v.labels})
    });
    let mut samples = a.samples;
    samples.sort_by_key(|s| s["run"].as_u64());
    samples.truncate(4);
    let rep = json!({
        "runs": a.runs, "planned": total, "timed_out": timed_out.load(Ordering::SeqCst), "wall_s": wall,
        "steps": a.steps, "sim_s": a.sim_ns as f64 / 1e9, "nontrivial": a.nontrivial,
        "distinct": a.hashes.len(), "distinct_nontrivial": a.nt_hashes.len(), "states": a.cover.len(),
        "faults": a.faults, "probes": a.probes, "per_scenario": a.per_scenario,
        "other_property_failures": a.other, "known_hits": a.known,
        "slowest": [a.slowest.0, a.slowest.1],
        "determinism_checked": a.determinism_checked, "determinism_mismatch": a.determinism_mismatch,
        "samples": samples, "fail": fail,
    });
    std::fs::write(dir.join("report.json"), rep.to_string()).unwrap();
    0
}

fn map_slots(path: &Path, threads: usize) -> usize {
    let len = (threads * SLOT).max(4096);
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as usize
}

/// A single run in its own process (used to confirm and minimise hangs and aborts).
fn one(p: &'static Prop, args: &Args) -> i32 {
    let i = args.one.unwrap();
    BEAT.with(|b| b.set(&ONE_BEAT as *const AtomicU64 as usize));
    if let Some(h) = args.hang {
        watchdog(h);
    }
    let scn = pick(p, args, i);
    let ctx = ctx_for(p, args, i);
    let mut src = match &args.choices {
        Some(f) => Source::replay(read_choices(f)),
        None => Source::random(run_seed(args.seed ^ (args.shipped as u64) << 40, scn.name, i)),
    };
    if let Some(t) = &args.tee {
        src.tee = Some(std::fs::File::create(t).unwrap());
    }
    let out = run_one(scn, &ctx, src, args.verbose);
    if args.verbose {
        for l in &out.log {
            println!("{l}");
        }
        println!("hash {:016x} steps {} choices {}", out.hash, out.steps, out.choices.len());
        println!("probes {:?}\nfaults {:?}", out.probes, out.faults);
    }
    for v in &out.violations {
        println!("violation {:?} {}: {}", v.labels, v.class, v.message);
    }
    (hit(&out, p.id, &load_known(&args.root)).is_some()) as i32
}

fn read_choices(f: &Path) -> Vec<u32> {
    let b = std::fs::read(f).unwrap_or_default();
    b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

fn write_choices(f: &Path, c: &[u32]) {
    let b: Vec<u8> = c.iter().flat_map(|v| v.to_le_bytes()).collect();
    std::fs::write(f, b).unwrap();
}

// ---- supervisor ----------------------------------------------------------------------------

struct RunDir(PathBuf);
impl Drop for RunDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn_self(args: &Args, extra: &[String]) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg(&args.prop)
        .args(["--tier", if args.tier == Tier::Quick { "quick" } else { "thorough" }])
        .args(["--seed", &args.seed.to_string()])
        .args(["--threads", &args.threads.to_string()])
        .args(["--root", &args.root.display().to_string()]);
    if let Some(r) = args.runs {
        c.args(["--runs", &r.to_string()]);
    }
    if let Some(r) = args.time {
        c.args(["--time", &r.to_string()]);
    }
    if let Some(s) = &args.scenario {
        c.args(["--scenario", s]);
    }
    if args.shipped {
        c.arg("--shipped");
    }
    c.args(extra);
    c.stdin(Stdio::null());
    c.spawn().expect("spawn worker")
}

fn wait_limit(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 2;
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Iso {
    Fine,
    Violation,
    Abort,
    Hang,
}

fn isolated(args: &Args, i: u64, choices: Option<&Path>, tee: Option<&Path>, cpu: u64, limit: Duration) -> Iso {
    let mut extra = vec!["--one".to_string(), i.to_string(), "--hang".to_string(), cpu.to_string()];
    if let Some(c) = choices {
        extra.extend(["--choices".into(), c.display().to_string()]);
    }
    if let Some(c) = tee {
        extra.extend(["--tee".into(), c.display().to_string()]);
    }
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg(&args.prop)
        .args(["--tier", if args.tier == Tier::Quick { "quick" } else { "thorough" }])
        .args(["--seed", &args.seed.to_string()])
        .args(["--root", &args.root.display().to_string()])
        .args(&extra)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    if let Some(s) = &args.scenario {
        c.args(["--scenario", s]);
    }
    if args.shipped {
        c.arg("--shipped");
    }
    let mut child = c.spawn().expect("spawn isolated run");
    match wait_limit(&mut child, limit) {
        // Slow, but it kept making progress.
        None => Iso::Fine,
        Some(s) if s.code() == Some(HANG_CODE) => Iso::Hang,
        Some(s) if s.code() == Some(0) => Iso::Fine,
        Some(s) if s.code() == Some(1) => Iso::Violation,
        Some(_) => Iso::Abort,
    }
}

fn supervise(p: &'static Prop, args: &Args) -> i32 {
    let started = Instant::now();
    let known = load_known(&args.root);
    let base = std::env::current_exe().unwrap().parent().unwrap().join(format!("run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let dir = RunDir(base);
    let mut worker_args: Args = parse_args();
    let mut attempt = 0;
    loop {
        attempt += 1;
        let _ = std::fs::remove_file(dir.0.join("report.json"));
        let _ = std::fs::remove_file(dir.0.join("slots"));
        let slots = map_slots(&dir.0.join("slots"), worker_args.threads);
        let mut child = spawn_self(&worker_args, &["--worker".into(), dir.0.display().to_string()]);
        let mut last: Vec<((u64, u64), Instant)> = vec![((0, 0), Instant::now()); worker_args.threads];
        let mut suspects: Vec<u64> = Vec::new();
        let mut why = "";
        let mut unconfirmed = 0;
        let status = loop {
            if let Ok(Some(s)) = child.try_wait() {
                break Some(s);
            }
            std::thread::sleep(Duration::from_millis(20));
            for (t, l) in last.iter_mut().enumerate() {
                let v = unsafe { &*(slots as *const AtomicU64).add(t * SLOT / 8) }.load(Ordering::SeqCst);
                let b = unsafe { &*(slots as *const AtomicU64).add(t * SLOT / 8 + 1) }.load(Ordering::SeqCst);
                if (v, b) != l.0 {
                    *l = ((v, b), Instant::now());
                } else if v != 0 && l.1.elapsed() > Duration::from_secs(HANG_SECS) {
                    // Confirmed in a process of its own; a machine that is merely busy is no hang.
                    let tee = dir.0.join("tee");
                    let r = isolated(args, v - 1, None, Some(&tee), HANG_CPU, HANG_WALL);
                    if matches!(r, Iso::Abort | Iso::Hang) {
                        let _ = child.kill();
                        let _ = child.wait();
                        return report_dead(p, args, &dir.0, v - 1, r, started, &tee);
                    }
                    l.1 = Instant::now();
                    unconfirmed += 1;
                    if unconfirmed > 8 {
                        suspects.push(v - 1);
                        why = "hang";
                    }
                }
            }
            if !suspects.is_empty() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        };
        if let Some(s) = status {
            if s.success() {
                break;
            }
            why = "abort";
            for t in 0..worker_args.threads {
                let v = unsafe { &*(slots as *const AtomicU64).add(t * SLOT / 8) }.load(Ordering::SeqCst);
                if v != 0 {
                    suspects.push(v - 1);
                }
            }
        }
        suspects.sort();
        suspects.dedup();
        for i in &suspects {
            let tee = dir.0.join("tee");
            let r = isolated(args, *i, None, Some(&tee), HANG_CPU, HANG_WALL);
            if matches!(r, Iso::Abort | Iso::Hang) {
                return report_dead(p, args, &dir.0, *i, r, started, &tee);
            }
        }
        eprintln!("worker process ended by {why} but no single run reproduces it (attempt {attempt})");
        if attempt >= 3 {
            return 2;
        }
        worker_args.threads = (worker_args.threads / 2).max(1);
    }
    let rep: Value = serde_json::from_str(&std::fs::read_to_string(dir.0.join("report.json")).unwrap()).unwrap();
    let mut code = 0;
    let mut violations = Vec::new();
    for k in known.iter().filter(|k| k.property == p.id && !args.shipped) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    if rep["fail"].is_object() {
        let f = &rep["fail"];
        let i = f["index"].as_u64().unwrap();
        let choices: Vec<u32> = serde_json::from_value(f["choices"].clone()).unwrap();
        let class = f["class"].as_str().unwrap().to_string();
        let (min, out) = minimise_guarded(p, args, i, choices, &class, &known);
        let v = hit(&out, p.id, &known).cloned().unwrap_or(Violation {
            labels: vec![p.id.into()],
            class: class.clone(),
            message: f["message"].as_str().unwrap_or("").into(),
        });
        let path = write_replay(p, args, i, &v, Some(&min), Some(&out), "violation");
        println!("{}: {}", v.class, v.message);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violations.push(json!({"class": v.class, "message": v.message, "replay": path.display().to_string(), "run": i}));
        code = 1;
    }
    write_evidence(p, args, &rep, started.elapsed().as_secs_f64(), violations);
    println!(
        "{} {}{}: {} runs ({} planned), {} distinct executions, {} non-trivial distinct, {} states, {:.1}s simulated, {:.1}s wall{}",
        p.id,
        if code == 0 { "held" } else { "VIOLATED" },
        if args.shipped { " (release build)" } else { "" },
        rep["runs"], rep["planned"], rep["distinct"], rep["distinct_nontrivial"], rep["states"],
        rep["sim_s"].as_f64().unwrap_or(0.0), started.elapsed().as_secs_f64(),
        if rep["timed_out"] == json!(true) { " (time cap)" } else { "" },
    );
    let other = rep["other_property_failures"].as_object().map(|o| o.len()).unwrap_or(0);
    if other > 0 {
        println!("note: failures attributed to other properties only: {}", rep["other_property_failures"]);
    }
    if rep["determinism_mismatch"].as_u64().unwrap_or(0) > 0 {
        println!("note: {} of {} re-executed runs did not repeat exactly", rep["determinism_mismatch"], rep["determinism_checked"]);
    }
    code
}

fn report_dead(p: &'static Prop, args: &Args, dir: &Path, i: u64, how: Iso, started: Instant, tee: &Path) -> i32 {
    let what = if how == Iso::Hang { "hang" } else { "abort" };
    let mut best = read_choices(tee);
    let scn = pick(p, args, i).name;
    // Minimise by re-running in fresh processes, within a fixed budget.
    let budget = Instant::now();
    let cpu = if how == Iso::Hang { 6 } else { HANG_CPU };
    let cf = dir.join("cand");
    let try_it = |c: &[u32]| -> bool {
        write_choices(&cf, c);
        isolated(args, i, Some(&cf), None, cpu, Duration::from_secs(20)) == how
    };
    if try_it(&best) {
        let mut n = best.len() / 2;
        while n >= 1 && budget.elapsed() < Duration::from_secs(60) {
            let mut k = 0;
            while k < best.len() && budget.elapsed() < Duration::from_secs(60) {
                let mut c = best.clone();
                let end = (k + n).min(c.len());
                c.drain(k..end);
                if try_it(&c) {
                    best = c;
                } else {
                    k += n;
                }
            }
            n /= 2;
        }
    }
    let v = Violation {
        labels: vec![p.id.into()],
        class: what.into(),
        message: format!("run {i} of scenario {scn}: the code under test {} (no progress inside one call, or the process died)", if how == Iso::Hang { "hangs" } else { "aborts" }),
    };
    let path = write_replay(p, args, i, &v, Some(&best), None, what);
    println!("{}", v.message);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    let rep = json!({"runs": i + 1, "planned": total_runs(p, args), "distinct": 0, "distinct_nontrivial": 0, "states": 0,
        "faults": {}, "probes": {}, "per_scenario": {}, "samples": [], "sim_s": 0.0, "steps": 0});
    write_evidence(p, args, &rep, started.elapsed().as_secs_f64(),
        vec![json!({"class": v.class, "message": v.message, "replay": path.display().to_string(), "run": i})]);
    1
}

/// Minimise in-process on a helper thread; if a candidate hangs, stop and use the best so far.
fn minimise_guarded(p: &'static Prop, args: &Args, i: u64, choices: Vec<u32>, class: &str, known: &[Known]) -> (Vec<u32>, Outcome) {
    let scn: &'static Scenario = pick(p, args, i);
    let ctx = ctx_for(p, args, i);
    let best = std::sync::Arc::new(Mutex::new(choices));
    let done = std::sync::Arc::new(AtomicBool::new(false));
    {
        let (best, done, class, known) = (best.clone(), done.clone(), class.to_string(), known.to_vec());
        let _ = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            minimise(p, scn, &ctx, &best, &class, &known, Duration::from_secs(25));
            done.store(true, Ordering::SeqCst);
        });
    }
    let t = Instant::now();
    while !done.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(35) {
        std::thread::sleep(Duration::from_millis(10));
    }
    let c = best.lock().unwrap().clone();
    let out = run_one(scn, &ctx, Source::replay(c.clone()), true);
    (c, out)
}

fn minimise(p: &Prop, scn: &Scenario, ctx: &Ctx, best: &Mutex<Vec<u32>>, class: &str, known: &[Known], budget: Duration) {
    let t = Instant::now();
    let check = |c: &[u32]| -> Option<Vec<u32>> {
        if t.elapsed() > budget {
            return None;
        }
        let out = run_one(scn, ctx, Source::replay(c.to_vec()), false);
        match hit(&out, p.id, known) {
            Some(v) if v.class == class => {
                let mut ch = out.choices;
                while ch.last() == Some(&0) {
                    ch.pop();
                }
                Some(ch)
            }
            _ => None,
        }
    };
    let smaller = |a: &[u32], b: &[u32]| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    let mut cur = best.lock().unwrap().clone();
    if let Some(c) = check(&cur) {
        if smaller(&c, &cur) {
            cur = c;
        }
    } else {
        return;
    }
    loop {
        let before = cur.clone();
        // Delete chunks.
        let mut n = (cur.len() / 2).max(1);
        while n >= 1 {
            let mut k = 0;
            while k < cur.len() {
                let mut c = cur.clone();
                c.drain(k..(k + n).min(cur.len()));
                match check(&c) {
                    Some(c2) if smaller(&c2, &cur) => {
                        cur = c2;
                        *best.lock().unwrap() = cur.clone();
                    }
                    _ => k += n,
                }
                if t.elapsed() > budget {
                    return;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // Zero chunks, then lower single values.
        for n in [16usize, 4, 1] {
            let mut k = 0;
            while k < cur.len() {
                let end = (k + n).min(cur.len());
                if cur[k..end].iter().any(|v| *v != 0) {
                    let mut c = cur.clone();
                    c[k..end].fill(0);
                    if let Some(c2) = check(&c) {
                        if smaller(&c2, &cur) {
                            cur = c2;
                            *best.lock().unwrap() = cur.clone();
                        }
                    }
                }
                if t.elapsed() > budget {
                    return;
                }
                k += n;
            }
        }
        let mut k = 0;
        while k < cur.len() {
            while k < cur.len() && cur[k] > 0 {
                let v = cur[k];
                let mut ok = false;
                for nv in [v / 2, v - 1] {
                    let mut c = cur.clone();
                    c[k] = nv;
                    if let Some(c2) = check(&c) {
                        if smaller(&c2, &cur) {
                            cur = c2;
                            *best.lock().unwrap() = cur.clone();
                            ok = true;
                            break;
                        }
                    }
                }
                if !ok || t.elapsed() > budget {
                    break;
                }
            }
            k += 1;
        }
        if cur == before || t.elapsed() > budget {
            return;
        }
    }
}

fn write_replay(p: &Prop, args: &Args, i: u64, v: &Violation, choices: Option<&[u32]>, out: Option<&Outcome>, kind: &str) -> PathBuf {
    let dir = args.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-seed{}-run{}{}.json", p.id, v.class.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), args.seed, i, if args.shipped { "-release" } else { "" }));
    let scn = pick(p, args, i).name;
    let j = json!({
        "property": p.id, "scenario": scn, "tier": if args.tier == Tier::Quick { "quick" } else { "thorough" },
        "build": if args.shipped { "shipped" } else { "debug" },
        "seed": args.seed, "run": i, "kind": kind, "class": v.class, "message": v.message, "labels": v.labels,
        "choices": choices, "trace_hash": out.map(|o| format!("{:016x}", o.hash)),
        "faults": out.map(|o| json!(o.faults)),
        "trace": out.map(|o| o.log.clone()).unwrap_or_default(),
        "how_to_replay": format!("/verif/check {} --replay {}", p.id, path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn replay(p: &'static Prop, f: &Path) -> i32 {
    let j: Value = match std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read replay file {}", f.display());
            return 2;
        }
    };
    let name = j["scenario"].as_str().unwrap_or("");
    let Some(scn) = p.scenarios.iter().find(|s| s.name == name) else {
        eprintln!("unknown scenario {name}");
        return 2;
    };
    let i = j["run"].as_u64().unwrap_or(0);
    let choices: Vec<u32> = serde_json::from_value(j["choices"].clone()).unwrap_or_default();
    let mut a = parse_args();
    a.scenario = Some(name.into());
    a.tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let kind = j["kind"].as_str().unwrap_or("violation");
    if kind != "violation" {
        let tmp = std::env::current_exe().unwrap().parent().unwrap().join(format!("replay-{}", std::process::id()));
        write_choices(&tmp, &choices);
        let r = isolated(&a, i, Some(&tmp), None, HANG_CPU, HANG_WALL);
        let _ = std::fs::remove_file(&tmp);
        println!("replay ends with {r:?} (recorded: {kind})");
        if matches!(r, Iso::Abort | Iso::Hang) {
            println!("VIOLATION property={} replay={}", p.id, f.display());
            return 1;
        }
        return 0;
    }
    let ctx = Ctx { prop: p.id, tier: a.tier, index: i };
    let out = run_one(scn, &ctx, Source::replay(choices), true);
    for l in &out.log {
        println!("{l}");
    }
    let same = j["trace_hash"].as_str() == Some(&format!("{:016x}", out.hash));
    println!("trace hash {:016x} ({})", out.hash, if same { "identical to the recorded run" } else { "differs from the recorded run" });
    match hit(&out, p.id, &[]) {
        Some(v) => {
            println!("{}: {}", v.class, v.message);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn write_evidence(p: &Prop, args: &Args, rep: &Value, wall: f64, violations: Vec<Value>) {
    let dir = args.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let runs = rep["runs"].as_u64().unwrap_or(0);
    let w = rep["wall_s"].as_f64().unwrap_or(wall).max(0.001);
    let mut ev = json!({
        "property": p.id,
        "tier": if args.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": args.seed,
        "level": p.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": rep["distinct_nontrivial"],
            "rule": p.rule,
            "samples": rep["samples"],
            "runs_planned": rep["planned"],
            "time_capped": rep["timed_out"],
            "runs_per_hour": (runs as f64 / w * 3600.0) as u64,
            "simulated_seconds": rep["sim_s"],
            "scheduler_steps": rep["steps"],
            "distinct_executions": rep["distinct"],
            "distinct_abstract_states": rep["states"],
            "faults_injected": rep["faults"],
            "situations_reached": rep["probes"],
            "runs_per_scenario": rep["per_scenario"],
            "slowest_run_cpu_ms": rep["slowest"][0], "slowest_run": rep["slowest"][1],
            "reexecuted_for_determinism": rep["determinism_checked"],
            "reexecution_mismatches": rep["determinism_mismatch"],
            "failures_attributed_to_other_properties": rep["other_property_failures"],
            "real_code": p.real,
            "stubbed": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
    });
    if args.shipped {
        // The second half of a check: its numbers go beside those of the first.
        let first = std::fs::read_to_string(dir.join(format!("{}.json", p.id))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        if let Some(mut first) = first.filter(|f| f["coverage"].is_object() && f["seed"] == json!(args.seed)) {
            let mut part = ev["coverage"].take();
            for k in ["real_code", "stubbed", "samples", "rule"] {
                part.as_object_mut().unwrap().remove(k);
            }
            part["wall_s"] = json!(wall);
            first["coverage"]["release_build"] = part;
            first["wall_s"] = json!(first["wall_s"].as_f64().unwrap_or(0.0) + wall);
            ev = first;
        }
    }
    ev["violations"] = json!(violations.len());
    if !violations.is_empty() {
        ev["coverage"]["violation_details"] = json!(violations);
    }
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
}

/// Helper for scenarios: run a closure under `catch_unwind`, returning the panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let m = take_thread_panic();
            let _ = crate::world::try_with(|w| w.last_panic = None);
            Err(m)
        }
    }
}

/// True while replaying (used only to decide whether to log expensively).
pub fn replaying() -> bool {
    with(|w| matches!(w.src.mode, Mode::Replay { .. }))
}
