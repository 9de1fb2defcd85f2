//! C10 (handles) and C21 (tags): generators used from many threads and for very long histories.
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

use imap_next::client::{self, Client};
use imap_next::server::{self, Server};
use imap_types::command::{Command, CommandBody};
use imap_types::core::{Tag, Text};
use imap_types::response::{Data, Greeting, Status};
use simcore::harness::{self, Ctx, Prop, Scenario, Tier};
use simcore::{chance, cover, draw, log, probe, range, violate, with};


/// Extra increments "by other threads": differences that collide modulo 2^8, 2^16, 2^24, 2^32.
const WARPS: &[u64] = &[
    0, 0, 0, 0, 0, 0, 0, 0, 0, 254, 255, 256, 65534, 65535, 65536, (1 << 24) - 1, (1 << 31) - 1,
    (1 << 32) - 2, (1 << 32) - 1, (1 << 32), 99, 999, 9999,
];

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Every pair of different handles must differ, in `==`, in hash-keyed collections and in print.
fn check_distinct<H: Copy + Eq + Hash + Debug>(what: &str, hs: &[H], ids: &[(usize, usize)]) {
    let mut seen: HashMap<H, usize> = HashMap::new();
    let mut printed: HashMap<String, usize> = HashMap::new();
    for (i, h) in hs.iter().enumerate() {
        let copy = *h;
        if copy != *h || hash_of(&copy) != hash_of(h) {
            violate(&["C10"], "handle-not-equal-to-its-copy", format!("{what}: {h:?} differs from its copy"));
        }
        if let Some(j) = seen.insert(*h, i) {
            violate(
                &["C10"],
                "duplicate-handle",
                format!("{what}: {h:?} was handed out twice (instance, enqueue) {:?} and {:?}", ids[j], ids[i]),
            );
            return;
        }
        let s = format!("{h:?}");
        if let Some(j) = printed.insert(s.clone(), i) {
            violate(
                &["C10"],
                "indistinguishable-handles",
                format!("{what}: handles of {:?} and {:?} both print as {s}", ids[j], ids[i]),
            );
            return;
        }
    }
    if hs.len() <= 300 {
        for i in 0..hs.len() {
            for j in 0..i {
                if hs[i] == hs[j] {
                    violate(
                        &["C10"],
                        "duplicate-handle",
                        format!("{what}: handles of {:?} and {:?} are equal", ids[j], ids[i]),
                    );
                    return;
                }
            }
        }
    }
    if hs.len() > 1 {
        probe("handles.compared");
    }
}

fn noop(n: usize) -> Command<'static> {
    Command { tag: Tag::unvalidated(format!("A{n}")), body: CommandBody::Noop }
}

fn greeting() -> Greeting<'static> {
    Greeting::ok(None, "hi").unwrap()
}

enum Inst {
    C(Client),
    S(Server),
}

fn new_inst(server: bool) -> Inst {
    if server {
        Inst::S(Server::new(server::Options::default(), greeting()))
    } else {
        Inst::C(Client::new(client::Options::default()))
    }
}

type CH = client::CommandHandle;
type SH = server::ResponseHandle;

#[derive(Default)]
struct Got {
    c: Vec<(CH, (usize, usize))>,
    s: Vec<(SH, (usize, usize))>,
}

fn enqueue(i: &mut Inst, kind: u32, id: (usize, usize), got: &mut Got) {
    match i {
        Inst::C(c) => got.c.push((c.enqueue_command(noop(id.1)), id)),
        Inst::S(s) => {
            let h = match kind {
                0 => s.enqueue_status(Status::ok(None, None, "x").unwrap()),
                1 => s.enqueue_data(Data::Exists(1)),
                _ => s.enqueue_continuation_request(
                    imap_types::response::CommandContinuationRequest::basic(None, Text::unvalidated("go")).unwrap(),
                ),
            };
            got.s.push((h, id))
        }
    }
}

fn verdict(what: &str, got: Got) {
    let (h, ids): (Vec<_>, Vec<_>) = got.c.into_iter().unzip();
    check_distinct(&format!("{what}, commands"), &h, &ids);
    let (h, ids): (Vec<_>, Vec<_>) = got.s.into_iter().unzip();
    check_distinct(&format!("{what}, responses"), &h, &ids);
}

/// Clients and servers made and used on several interleaved threads.
fn handles_threads(_: &Ctx) {
    let nt = range(1, 6) as usize;
    let with_servers = chance(1, 2);
    if chance(1, 3) {
        with(|w| w.warp = WARPS.to_vec());
    }
    let all: Arc<Mutex<Got>> = Default::default();
    let next: Arc<Mutex<usize>> = Default::default();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for t in 0..nt {
        let rounds = range(1, 4) as usize;
        let each: Vec<(usize, u32)> = (0..rounds).map(|_| (range(0, 5) as usize, draw(3))).collect();
        let (all, next) = (all.clone(), next.clone());
        bodies.push(Box::new(move || {
            let mut live: Vec<(usize, Inst)> = Vec::new();
            let mut got = Got::default();
            for (k, (n, kind)) in each.into_iter().enumerate() {
                let no = {
                    let mut g = next.lock().unwrap();
                    *g += 1;
                    *g
                };
                live.push((no, new_inst(with_servers && (t + k) % 2 == 1)));
                // Use every instance made so far, not only the newest.
                for (no, inst) in live.iter_mut() {
                    for j in 0..n {
                        enqueue(inst, kind, (*no, k * 10 + j), &mut got);
                    }
                }
            }
            let mut a = all.lock().unwrap();
            a.c.extend(got.c);
            a.s.extend(got.s);
        }));
    }
    for (t, m) in simcore::threads::run_threads(bodies) {
        violate(&["*"], "panic", format!("thread {t}: {m}"));
    }
    if nt > 1 {
        probe("threads.interleaved");
    }
    let got = std::mem::take(&mut *all.lock().unwrap());
    verdict("threads", got);
}

/// One long-lived instance, and very many short-lived ones, in one history.
fn handles_long_history(_: &Ctx) {
    let n = [300usize, 5000, 66_000][draw(3) as usize];
    let server = chance(1, 2);
    let mut got = Got::default();
    let mut first = new_inst(server);
    enqueue(&mut first, 0, (0, 0), &mut got);
    if chance(1, 2) {
        probe("handles.many_instances");
        for i in 1..=n {
            let mut x = new_inst(server);
            enqueue(&mut x, (i % 3) as u32, (i, 0), &mut got);
            harness::beat();
        }
    } else {
        probe("handles.many_enqueues");
        let mut second = new_inst(server);
        for i in 1..=n {
            enqueue(&mut first, (i % 3) as u32, (0, i), &mut got);
            if i % 3 == 0 {
                enqueue(&mut second, 0, (1, i), &mut got);
            }
        }
    }
    log(|| format!("{n} handles, server={server}"));
    verdict("long history", got);
}

/// A handle still names its own message while the queue drains, for histories of both sides.
fn handles_in_events(_: &Ctx) {
    use imap_next::{Interrupt, Io, State};
    let mut clients: Vec<Client> = (0..range(1, 3)).map(|_| Client::new(Default::default())).collect();
    for c in clients.iter_mut() {
        c.enqueue_input(b"* OK hi\r\n");
        let _ = c.next();
    }
    let mut want: Vec<Vec<(CH, String)>> = clients.iter().map(|_| vec![]).collect();
    let mut all: Vec<(CH, (usize, usize))> = vec![];
    let mut n = 0;
    for _ in 0..range(1, 30) {
        let i = draw(clients.len() as u32) as usize;
        if chance(1, 2) {
            n += 1;
            let h = clients[i].enqueue_command(noop(n));
            want[i].push((h, format!("A{n}")));
            all.push((h, (i, n)));
        } else {
            match clients[i].next() {
                Ok(client::Event::CommandSent { handle, command }) => {
                    let tag = AsRef::<str>::as_ref(&command.tag).to_string();
                    let w = want[i].remove(0);
                    probe("handles.reported");
                    if w.0 != handle || w.1 != tag {
                        violate(
                            &["C10", "C03"],
                            "handle-names-wrong-command",
                            format!("event names {handle:?}/{tag}, next command sent was {:?}/{}", w.0, w.1),
                        );
                        return;
                    }
                    // No other handle of any instance may be equal to it.
                    let same = all.iter().filter(|(h, _)| *h == handle).count();
                    if same != 1 {
                        violate(&["C10"], "duplicate-handle", format!("{handle:?} matches {same} enqueued commands"));
                        return;
                    }
                }
                Ok(e) => return violate(&["C10"], "unexpected-event", format!("{e:?}")),
                Err(Interrupt::Io(Io::Output(_) | Io::NeedMoreInput)) => {}
                Err(Interrupt::Error(e)) => return violate(&["C10"], "unexpected-error", format!("{e:?}")),
            }
        }
    }
    let (h, ids): (Vec<_>, Vec<_>) = all.into_iter().unzip();
    check_distinct("events", &h, &ids);
}

// ---- tags ------------------------------------------------------------------------------------

trait Gen: Send + 'static {
    fn make() -> Self;
    fn tag(&mut self) -> Tag<'static>;
}
impl Gen for sut_tag_debug::TagGenerator {
    fn make() -> Self {
        Self::new()
    }
    fn tag(&mut self) -> Tag<'static> {
        self.generate()
    }
}
impl Gen for sut_tag_release::TagGenerator {
    fn make() -> Self {
        Self::new()
    }
    fn tag(&mut self) -> Tag<'static> {
        self.generate()
    }
}

fn check_tags(what: &str, tags: &[(Tag<'static>, (usize, usize))]) {
    let mut seen: HashMap<&str, (usize, usize)> = HashMap::new();
    for (t, id) in tags {
        let s: &str = t.as_ref();
        if Tag::try_from(s).is_err() {
            violate(&["C21"], "invalid-tag", format!("{what}: {s:?} is not a valid IMAP tag"));
            return;
        }
        if let Some(o) = seen.insert(s, *id) {
            violate(
                &["C21"],
                "duplicate-tag",
                format!("{what}: tag {s:?} generated twice (generator, call) {o:?} and {id:?}"),
            );
            return;
        }
    }
    if tags.len() > 1 {
        probe("tags.compared");
    }
}

fn tags_threads<G: Gen>(what: &'static str) {
    let nt = range(1, 6) as usize;
    if chance(1, 2) {
        with(|w| w.warp = WARPS.to_vec());
    }
    let all: Arc<Mutex<Vec<(Tag<'static>, (usize, usize))>>> = Default::default();
    let next: Arc<Mutex<usize>> = Default::default();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..nt {
        let gens = range(1, 4) as usize;
        let per = [1usize, 3, 12, 120][draw(4) as usize];
        let (all, next) = (all.clone(), next.clone());
        bodies.push(Box::new(move || {
            let mut live = Vec::new();
            let mut got = Vec::new();
            for _ in 0..gens {
                let no = {
                    let mut g = next.lock().unwrap();
                    *g += 1;
                    *g
                };
                live.push((no, 0usize, G::make()));
                for (no, n, g) in live.iter_mut() {
                    for _ in 0..per {
                        got.push((g.tag(), (*no, *n)));
                        *n += 1;
                    }
                }
            }
            all.lock().unwrap().extend(got);
        }));
    }
    for (t, m) in simcore::threads::run_threads(bodies) {
        violate(&["*"], "panic", format!("thread {t}: {m}"));
    }
    if nt > 1 {
        probe("threads.interleaved");
    }
    check_tags(what, &all.lock().unwrap());
}

fn tags_debug(_: &Ctx) {
    tags_threads::<sut_tag_debug::TagGenerator>("debug build")
}
fn tags_release(_: &Ctx) {
    tags_threads::<sut_tag_release::TagGenerator>("release build")
}

fn tags_long<G: Gen>(what: &'static str, random: bool) {
    let n = if random { [50usize, 2000][draw(2) as usize] } else { [300usize, 5000, 66_000][draw(3) as usize] };
    let mut tags = Vec::new();
    let mut a = G::make();
    let mut b = G::make();
    if chance(1, 3) {
        // Many generators with many tags each, in turns.
        let mut gens: Vec<G> = (0..range(5, 60)).map(|_| G::make()).collect();
        let per = range(2, 130) as usize;
        for j in 0..per {
            for (i, g) in gens.iter_mut().enumerate() {
                tags.push((g.tag(), (i, j)));
            }
        }
        probe("tags.many_of_both");
    } else if chance(1, 2) {
        for i in 0..n {
            tags.push((a.tag(), (0, i)));
            if i % 2 == 0 {
                tags.push((b.tag(), (1, i)));
            }
        }
        probe("tags.many_from_one");
    } else {
        for i in 0..n {
            let mut g = G::make();
            tags.push((g.tag(), (2 + i, 0)));
            tags.push((g.tag(), (2 + i, 1)));
            harness::beat();
        }
        tags.push((a.tag(), (0, 0)));
        tags.push((b.tag(), (1, 0)));
        probe("tags.many_generators");
    }
    check_tags(what, &tags);
}
fn tags_long_debug(_: &Ctx) {
    tags_long::<sut_tag_debug::TagGenerator>("debug build, long", false)
}
fn tags_long_release(_: &Ctx) {
    tags_long::<sut_tag_release::TagGenerator>("release build, long", true)
}

type Tags = Vec<(Tag<'static>, (usize, usize))>;

/// Tags of many generators, taken one generator after the other or in turns.
fn history<G: Gen>(gens: usize, per: usize, in_turns: bool) -> Tags {
    let mut live: Vec<G> = (0..gens).map(|_| G::make()).collect();
    let mut tags = vec![];
    for i in 0..gens * per {
        let (g, n) = if in_turns { (i % gens, i / gens) } else { (i / per, i % per) };
        tags.push((live[g].tag(), (g, n)));
    }
    tags
}

/// The same on several interleaved threads at once.
fn histories<G: Gen>(threads: usize, gens: usize, per: usize, in_turns: bool) -> Tags {
    if threads == 1 {
        return history::<G>(gens, per, in_turns);
    }
    let all: Arc<Mutex<Tags>> = Default::default();
    let bodies = (0..threads)
        .map(|t| {
            let all = all.clone();
            Box::new(move || {
                let tags = history::<G>(gens, per, in_turns);
                all.lock().unwrap().extend(tags.into_iter().map(|(x, (g, n))| (x, (t * gens + g, n))));
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    for (t, m) in simcore::threads::run_threads(bodies) {
        violate(&["*"], "panic", format!("thread {t}: {m}"));
    }
    probe("threads.interleaved");
    let tags = std::mem::take(&mut *all.lock().unwrap());
    tags
}

/// `Instance`, `Counter` and what else there is.
fn parts(t: &Tag<'static>) -> Option<(u64, u64, Option<String>)> {
    let s: &str = t.as_ref();
    let mut p = s.splitn(3, '.');
    Some((p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next().map(str::to_string)))
}

/// Instance and counter of every tag can be read from it.
fn readable(what: &str, tags: &Tags) -> bool {
    let mut of: HashMap<usize, (u64, u64)> = HashMap::new();
    let mut instances: HashMap<u64, usize> = HashMap::new();
    for (t, (g, n)) in tags {
        let Some((i, c, _)) = parts(t) else {
            violate(&["C28"], "tag-form", format!("{what}: {t:?} does not start with instance and counter"));
            return false;
        };
        let good = match of.get(g) {
            None => *instances.entry(i).or_insert(*g) == *g,
            Some((j, d)) => i == *j && c == d + 1,
        };
        if !good {
            violate(&["C28"], "tag-form", format!("{what}: {t:?} is tag {n} of generator {g}, and the one before says {:?}", of.get(g)));
            return false;
        }
        of.insert(*g, (i, c));
    }
    true
}

/// Somebody who knows every other tag learns nothing about this one.
fn tags_random(_: &Ctx) {
    type G = sut_tag_release::TagGenerator;
    simcore::threads::good_random(draw(u32::MAX) as u64);
    let (gens, per) = [(1, 1), (1, 400), (400, 1), (20, 20), (3, 300), (300, 3), (1, 3000)][draw(7) as usize];
    let in_turns = chance(1, 2);
    let threads = [1, 2, 3, 5][draw(4) as usize];
    let before = simcore::threads::random_taken();
    let tags = histories::<G>(threads, gens, per, in_turns);
    cover(&format!("tags {threads} {gens} {per} {in_turns}"));
    let taken = simcore::threads::random_taken() - before;
    if !readable("release build", &tags) {
        return;
    }
    let n = tags.len();
    let mut tokens = vec![];
    for (t, _) in &tags {
        match parts(t) {
            Some((_, _, Some(r))) if r.len() >= 8 && r.bytes().all(|b| b.is_ascii_alphanumeric()) => tokens.push(r),
            _ => return violate(&["C28"], "tag-not-random", format!("{t:?} does not end in eight random characters or more")),
        }
    }
    // A character that is drawn from 62 holds 5.95 bits.
    if (taken as f64) * 32.0 < n as f64 * 40.0 {
        return violate(&["C28"], "tag-guessable", format!("{n} tags were made from {taken} random words"));
    }
    let distinct: HashSet<&String> = tokens.iter().collect();
    // Two of very many may be equal by chance.
    if distinct.len() + usize::from(n >= 400) < n {
        return violate(&["C28"], "tag-guessable", format!("{n} tags have {} random parts", distinct.len()));
    }
    if n >= 400 {
        let len = tokens.iter().map(String::len).min().unwrap_or(0);
        let bits: f64 = (0..len)
            .map(|p| (tokens.iter().map(|t| t.as_bytes()[p]).collect::<HashSet<u8>>().len() as f64).log2())
            .sum();
        if bits < 40.0 {
            return violate(&["C28"], "tag-guessable", format!("the random part of tags like {:?} holds {bits:.0} bits", tags[0].0));
        }
        probe("tags.variety");
    }
    // The next process starts to count again, and its tags are others all the same.
    simcore::threads::restart();
    let again = histories::<G>(threads, gens, per, in_turns);
    let old: HashSet<&str> = tags.iter().map(|(t, _)| t.as_ref()).collect();
    for (a, _) in &again {
        simcore::observe(a.as_ref().as_bytes());
        if old.contains(a.as_ref()) {
            return violate(&["C28"], "tag-guessable", format!("{a:?} is generated in every process"));
        }
    }
    probe("tags.random");
}

/// A debug build needs no randomness: the same program gets the same tags.
fn tags_plain(_: &Ctx) {
    type G = sut_tag_debug::TagGenerator;
    simcore::threads::good_random(draw(u32::MAX) as u64);
    let (gens, per) = [(1, 1), (1, 300), (300, 1), (20, 20)][draw(4) as usize];
    let in_turns = chance(1, 2);
    let tags = history::<G>(gens, per, in_turns);
    if !readable("debug build", &tags) {
        return;
    }
    simcore::threads::restart();
    for ((a, _), (b, _)) in tags.iter().zip(&history::<G>(gens, per, in_turns)) {
        if a != b {
            return violate(&["C28"], "tag-random-in-debug", format!("{a:?} became {b:?} in another process"));
        }
    }
    probe("tags.plain");
}

#[cfg(feature = "mount")]
mod mounted {
    use super::*;
    use sut_handle::handle::{Handle, HandleGeneratorGenerator, RawHandle};

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    struct H(RawHandle);
    impl Handle for H {
        fn from_raw(r: RawHandle) -> Self {
            H(r)
        }
    }
    impl Debug for H {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "H({}, {})", self.0.generator_id(), self.0.handle_id())
        }
    }

    /// Generators of one family shared by interleaved threads, with the shared counter advanced
    /// in between as if billions of other instances had been made.
    pub fn threads(_: &Ctx) {
        let nt = range(1, 6) as usize;
        if chance(2, 3) {
            with(|w| w.warp = WARPS.to_vec());
        }
        let family = Arc::new(HandleGeneratorGenerator::<H>::new());
        let all: Arc<Mutex<Vec<(H, (usize, usize))>>> = Default::default();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for t in 0..nt {
            let gens = range(1, 6) as usize;
            let per = range(1, 5) as usize;
            let (all, family) = (all.clone(), family.clone());
            bodies.push(Box::new(move || {
                let mut live = Vec::new();
                let mut got = Vec::new();
                for g in 0..gens {
                    live.push(family.generate());
                    for (k, x) in live.iter_mut().enumerate() {
                        for j in 0..per {
                            got.push((x.generate(), (t * 100 + k, g * 10 + j)));
                        }
                    }
                }
                all.lock().unwrap().extend(got);
            }));
        }
        for (t, m) in simcore::threads::run_threads(bodies) {
            violate(&["*"], "panic", format!("thread {t}: {m}"));
        }
        if nt > 1 {
            probe("threads.interleaved");
        }
        let got = std::mem::take(&mut *all.lock().unwrap());
        let (h, ids): (Vec<_>, Vec<_>) = got.into_iter().unzip();
        check_distinct("generator family", &h, &ids);
    }

    /// One generator used more than 2^32 times next to many fresh ones.
    pub fn billions(ctx: &Ctx) {
        let family = HandleGeneratorGenerator::<H>::new();
        let mut others: Vec<_> = (0..70).map(|_| family.generate()).collect();
        let mut keep: HashSet<H> = HashSet::new();
        let mut shown: HashSet<String> = HashSet::new();
        let mut add = |h: H, why: &str| -> bool {
            if !keep.insert(h) || !shown.insert(format!("{h:?}")) {
                violate(&["C10"], "duplicate-handle", format!("{why}: {h:?} equals a handle handed out before"));
                return false;
            }
            true
        };
        let pos = draw(8) as usize;
        for (i, g) in others.iter_mut().enumerate() {
            if i == pos {
                continue;
            }
            for j in 0..300 {
                if !add(g.generate(), &format!("generator {i}, handle {j}")) {
                    return;
                }
            }
        }
        let g = &mut others[pos];
        let limit: u64 = (1 << 32) + 40;
        let start = std::time::Instant::now();
        let mut n: u64 = 0;
        let mut special: Vec<u64> = Vec::new();
        for k in 7..=33u32 {
            let b = 1u64 << k;
            special.extend((b.saturating_sub(20)..b + 20).collect::<Vec<_>>());
        }
        special.sort();
        special.dedup();
        let mut it = special.into_iter().peekable();
        let cap = if ctx.tier == Tier::Quick { 20 } else { 120 };
        while n < limit {
            let stop = it.peek().copied().unwrap_or(limit).min(limit);
            while n < stop {
                let m = (stop - n).min(1 << 22);
                for _ in 0..m {
                    std::hint::black_box(g.generate());
                }
                n += m;
                harness::beat();
                if start.elapsed().as_secs() > cap {
                    return;
                }
            }
            if n >= limit {
                break;
            }
            it.next();
            if !add(g.generate(), &format!("generator {pos}, handle {n}")) {
                return;
            }
            n += 1;
        }
        probe("handles.beyond_2_pow_32");
        probe("handles.compared");
    }
}

fn s(name: &'static str, run: fn(&Ctx), share: u32) -> Scenario {
    Scenario { name, run, share }
}

fn main() {
    let mut c10 = vec![
        s("handles_threads", handles_threads, 1600),
        s("handles_in_events", handles_in_events, 320),
        s("handles_long_history", handles_long_history, 12),
        s("client_any", simscen::client::client_any, 300),
        s("client_literals", simscen::client::client_literals, 100),
        s("client_exchanges", simscen::client::client_exchanges, 300),
        s("server_any", simscen::server::server_any, 300),
        s("server_exchanges", simscen::server::server_exchanges, 100),
    ];
    #[cfg(feature = "mount")]
    {
        c10.push(s("generator_family_threads", mounted::threads, 1200));
        c10.push(s("generator_billions", mounted::billions, 1));
    }
    let c21 = vec![
        s("tags_threads_debug", tags_debug, 200),
        s("tags_threads_release", tags_release, 200),
        s("tags_long_debug", tags_long_debug, 10),
        s("tags_long_release", tags_long_release, 12),
    ];
    harness::main(vec![
        Prop {
            id: "C10",
            scenarios: c10,
            quick_runs: 60_000,
            thorough_runs: 150_000,
            nontrivial: "threads.interleaved|client.command-sent|client.authenticate-started|client.idle-sent|server.response-sent",
            rule: "a run in which at least two interleaved threads created client/server instances or generators, or in which events naming a handle were reported; distinct = distinct trace of thread switches, draws and observations",
            assumptions: &[
                "interleaving points are the intercepted atomic and lock operations (sequentially consistent execution)",
                "2^64 enqueues or instances are out of reach",
            ],
            level: "exploration",
            real: &["src/client.rs", "src/server.rs", "src/handle.rs", "src/client_send.rs", "src/server_send.rs", "src/receive.rs"],
            stub: &["OS thread scheduler (replaced by the drawn one)", "imap-codec, imap-types, bounded-static (offline stand-ins)"],
        },
        Prop {
            id: "C21",
            scenarios: c21,
            quick_runs: 40_000,
            thorough_runs: 120_000,
            nontrivial: "threads.interleaved",
            rule: "a run in which at least two interleaved threads created tag generators and took tags; distinct = distinct trace of thread switches, draws and observations",
            assumptions: &["2^64 tags or generators are out of reach", "the random token of release builds is drawn adversarially and is never needed for uniqueness"],
            level: "exploration",
            real: &["tag-generator/src/lib.rs (debug and release variants)"],
            stub: &["OS thread scheduler", "rand (drawn by the simulator)", "imap-types (offline stand-in)"],
        },
        Prop {
            id: "C28",
            scenarios: vec![s("tags_random", tags_random, 4), s("tags_plain", tags_plain, 1)],
            quick_runs: 20_000,
            thorough_runs: 1_000_000,
            nontrivial: "tags.variety|tags.plain",
            rule: "a run with at least 400 tags of a release build, whose random parts were examined, or with tags of a debug build; distinct = distinct trace",
            assumptions: &["the random number generator is a good one", "what is unpredictable is measured: randomness taken, distinct values, variety per character, and tags of the next process"],
            level: "exploration",
            real: &["tag-generator/src/lib.rs (debug and release variants)"],
            stub: &["rand (the simulator's)", "imap-types (offline stand-in)", "the process (statics start afresh)"],
        },
    ]);
}
