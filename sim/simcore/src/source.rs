//! The only source of nondeterminism in a simulated run.
//!
//! Every decision of a run (what the workload does, which task runs next, how many bytes a read
//! returns, which fault strikes) is `draw(n)`. In random mode the value comes from a PRNG seeded
//! by (seed, scenario, run index) and is recorded; in replay mode it comes from a recorded list.
//! Value 0 is always the plainest choice (no fault, first task, everything at once), so shrinking
//! towards short lists of small numbers yields readable traces.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub enum Mode {
    Random(Rng),
    Replay { data: Vec<u32>, pos: usize },
}

pub struct Source {
    pub mode: Mode,
    pub rec: Vec<u32>,
    pub tee: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { mode: Mode::Random(Rng::new(seed)), rec: Vec::new(), tee: None }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Source { mode: Mode::Replay { data, pos: 0 }, rec: Vec::new(), tee: None }
    }
    /// Uniform value in `0..n` (random mode).
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(rng) => ((rng.next() >> 32) * n as u64 >> 32) as u32,
            Mode::Replay { data, pos } => {
                let v = data.get(*pos).copied().unwrap_or(0).min(n - 1);
                *pos += 1;
                v
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
}
