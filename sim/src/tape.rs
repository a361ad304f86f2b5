//! The single source of every decision a run makes.  In generation mode decisions come from a
//! PRNG seeded by (seed, property, run index); in replay mode from a recorded tape.  One tape is
//! one exactly repeatable execution.

#[derive(Clone)]
pub struct Rng(u64, u64, u64, u64);

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng(splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s))
    }
    pub fn next(&mut self) -> u64 {
        // xoshiro256**
        let r = self.1.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.1 << 17;
        self.2 ^= self.0;
        self.3 ^= self.1;
        self.1 ^= self.2;
        self.0 ^= self.3;
        self.2 ^= t;
        self.3 = self.3.rotate_left(45);
        r
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x51_7c_c1_b7_27_22_0a_95u64;
    for p in parts {
        h ^= p.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let mut s = h;
        h = splitmix(&mut s);
    }
    h
}

pub enum Source {
    Gen(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Tape {
    src: Source,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn gen(seed: u64) -> Tape {
        Tape { src: Source::Gen(Rng::new(seed)), rec: Vec::new() }
    }
    pub fn replay(t: Vec<u64>) -> Tape {
        Tape { src: Source::Replay(t, 0), rec: Vec::new() }
    }
    /// A decision in [0, n).  0 is always the "plain" choice, so minimisation drives towards it.
    pub fn pick(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.src {
            Source::Gen(r) => {
                // multiply-shift keeps the high bits, bias is irrelevant here
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
            Source::Replay(t, i) => {
                let v = t.get(*i).copied().unwrap_or(0);
                *i += 1;
                v % n
            }
        };
        self.rec.push(v);
        v
    }
}
