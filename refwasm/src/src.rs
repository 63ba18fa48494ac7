//! Source of random choices. Every choice a generator makes goes through here, is recorded, and
//! can be replayed from the record. A shorter or smaller record yields a simpler case, which is
//! what the shrinker exploits: choice 0 is always the simplest alternative.

#[derive(Clone)]
pub struct Rng([u64; 2]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (bytes.len() as u64);
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        let w = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        h = (h ^ w).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng([mix(seed), mix(seed ^ 0xA5A5_5A5A_1234_4321) | 1])
    }
    pub fn next(&mut self) -> u64 {
        let [mut a, b] = self.0;
        let r = a.wrapping_add(b);
        a ^= a << 23;
        self.0 = [b, a ^ b ^ (a >> 18) ^ (b >> 5)];
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// Replays and goes on at random.
    Guided(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub log: Vec<u64>,
    /// The number of alternatives of each choice, when guided.
    pub bounds: Vec<u64>,
    /// Called with every choice as it is drawn (used to survive a crash of the process).
    pub tap: Option<fn(u64)>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), pos: 0, log: Vec::new(), bounds: Vec::new(), tap: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices), pos: 0, log: Vec::new(), bounds: Vec::new(), tap: None }
    }
    /// Starts with the given choices and goes on at random.
    pub fn guided(choices: Vec<u64>, seed: u64) -> Src {
        Src { mode: Mode::Guided(choices, Rng::new(seed)), pos: 0, log: Vec::new(), bounds: Vec::new(), tap: None }
    }
    /// Restarts as a random source, keeping allocations.
    pub fn reseed(&mut self, seed: u64) {
        self.mode = Mode::Random(Rng::new(seed));
        self.pos = 0;
        self.log.clear();
    }

    /// Uniform in `0..n` (`n >= 1`).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &mut self.mode {
            Mode::Random(rng) => rng.below(n),
            Mode::Replay(c) => {
                let v = match c.get(self.pos) {
                    Some(v) => *v,
                    // a generator that waits for something other than zeros gets it in the end
                    None if self.pos > c.len() + 4096 => mix(self.pos as u64) % n,
                    None => 0,
                };
                if v < n { v } else { n - 1 }
            }
            Mode::Guided(c, rng) => {
                self.bounds.push(n);
                match c.get(self.pos) {
                    Some(v) if *v < n => *v,
                    Some(v) => *v % n,
                    None => rng.below(n),
                }
            }
        };
        self.pos += 1;
        self.log.push(v);
        if let Some(tap) = self.tap {
            tap(v);
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        let lo = self.below(1 << 32);
        let hi = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability `num/den`; false is the simple alternative.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // the largest values mean true, so that shrinking towards 0 means false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(items.len());
        &items[i]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        unreachable!()
    }
    /// A small count: mostly 0..=2, sometimes up to `max`.
    pub fn count(&mut self, max: usize) -> usize {
        let max = max as u64;
        match self.below(8) {
            0..=4 => self.below(3.min(max + 1)) as usize,
            5 | 6 => self.below(6.min(max + 1)) as usize,
            _ => self.below(max + 1) as usize,
        }
    }
    /// A u32 biased to boundaries.
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => self.below(256) as u32,
            2 => {
                let s = self.below(32);
                let base = 1u64 << s;
                let d = self.below(3);
                (base + d).wrapping_sub(1) as u32
            }
            3 => u32::MAX - self.below(3) as u32,
            4 => {
                let s = self.below(33);
                if s == 0 { 0 } else { self.below(1 << s) as u32 }
            }
            _ => self.u32(),
        }
    }
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(256),
            2 => {
                let s = self.below(64);
                let d = self.below(3);
                (1u64 << s).wrapping_add(d).wrapping_sub(1)
            }
            3 => u64::MAX - self.below(3),
            4 => {
                let s = self.below(64);
                let v = self.u64();
                v >> s
            }
            _ => self.u64(),
        }
    }
    pub fn edge_i64(&mut self) -> i64 {
        let v = self.edge_u64();
        if self.chance(1, 3) { (v as i64).wrapping_neg() } else { v as i64 }
    }
    pub fn edge_i32(&mut self) -> i32 {
        let v = self.edge_u32();
        if self.chance(1, 3) { (v as i32).wrapping_neg() } else { v as i32 }
    }
}
