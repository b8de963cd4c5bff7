//! The only source of nondeterminism in a run: a stream of choices, drawn from a PRNG seeded by
//! the run's seed, or replayed from a recorded list. 0 is always the simplest choice.
use std::io::Write;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x5EED_0000_D15C_0000u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let a = splitmix(&mut x);
        let b = splitmix(&mut x) | 1;
        Rng { s: [a, b] }
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.s[0];
        let mut s1 = self.s[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.s[1] = s1.rotate_left(37);
        r
    }
}

pub struct Ch {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pub log: Vec<u32>,
    dump: Option<std::fs::File>,
}

impl Ch {
    pub fn random(seed: u64) -> Self {
        Ch { rng: Some(Rng::new(seed)), replay: vec![], log: Vec::with_capacity(256), dump: None }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Ch { rng: None, replay: choices, log: vec![], dump: None }
    }
    /// Every choice is written out before it takes effect (for runs that do not come back).
    pub fn dump_to(&mut self, path: &str) {
        self.dump = std::fs::File::create(path).ok();
    }
    /// 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 33) % u64::from(n)) as u32,
            None => self.replay.get(self.log.len()).map_or(0, |v| v % n),
        };
        self.log.push(v);
        if let Some(f) = &mut self.dump {
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    /// lo..=hi, lo is the simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
}
