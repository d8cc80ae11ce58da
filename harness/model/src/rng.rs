//! Deterministic PRNG (xoshiro256**), and boundary-biased number generators.
use std::sync::RwLock;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// Integer literals harvested from the sources under test (plus neighbours); used as a generator dictionary.
pub static DICT: RwLock<Vec<u128>> = RwLock::new(Vec::new());
/// String literals harvested from the sources under test.
pub static SDICT: RwLock<Vec<String>> = RwLock::new(Vec::new());

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        let mut x = seed ^ fnv(stream.as_bytes()) ^ idx.wrapping_mul(0xD6E8FEB86659FD93);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        lo + (self.u128() % ((hi - lo) as u128 + 1)) as i128
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&x[..k]);
        }
        v
    }
    pub fn dict(&mut self) -> Option<u128> {
        let d = DICT.read().unwrap();
        if d.is_empty() {
            return None;
        }
        let i = self.below(d.len());
        Some(d[i])
    }
    pub fn sdict(&mut self) -> Option<String> {
        let d = SDICT.read().unwrap();
        if d.is_empty() {
            return None;
        }
        let i = self.below(d.len());
        Some(d[i].clone())
    }
    /// boundary-biased 128-bit number
    pub fn n128(&mut self) -> u128 {
        match self.below(12) {
            0 => self.below(300) as u128,
            1 | 2 => {
                let k = self.below(128);
                let b = 1u128 << k;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b.wrapping_add(1),
                }
            }
            3 => u128::MAX - self.below(3) as u128,
            4 | 5 => {
                let d = self.dict().unwrap_or(1000);
                match self.below(4) {
                    0 | 1 => d,
                    2 => d.wrapping_add(1),
                    _ => d.wrapping_sub(1),
                }
            }
            6 => {
                let k = self.below(39) as u32;
                let m = 1 + self.below(999) as u128;
                10u128.pow(k).wrapping_mul(m)
            }
            7 => {
                // product of dictionary entries: multiples of interesting units
                let d = self.dict().unwrap_or(10000);
                d.wrapping_mul(self.below(100000) as u128)
            }
            8 | 9 => {
                let k = self.below(128) as u32;
                self.u128() >> k
            }
            10 => {
                // byte-sparse
                let i = self.below(16);
                (1 + self.below(255) as u128) << (8 * i)
            }
            _ => self.u128(),
        }
    }
    /// boundary-biased 64-bit number
    pub fn n64(&mut self) -> u64 {
        match self.below(12) {
            0 | 1 => self.below(20) as u64,
            2 | 3 => {
                let k = self.below(64);
                let b = 1u64 << k;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b.wrapping_add(1),
                }
            }
            4 => u64::MAX - self.below(4) as u64,
            5 | 6 => {
                let d = self.dict().unwrap_or(1000) as u64;
                match self.below(4) {
                    0 | 1 => d,
                    2 => d.wrapping_add(1),
                    _ => d.wrapping_sub(1),
                }
            }
            7 => self.below(1 << 20) as u64,
            8 | 9 => {
                let k = self.below(64) as u32;
                self.u64() >> k
            }
            10 => {
                let i = self.below(8);
                (1 + self.below(255) as u64) << (8 * i)
            }
            _ => self.u64(),
        }
    }
    pub fn fixed(&mut self, n: usize) -> Vec<u8> {
        match self.below(10) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0; n];
                let i = self.below(n);
                v[i] = 1 + self.below(255) as u8;
                v
            }
            3 => (0..n).map(|i| i as u8).collect(),
            4 => {
                let mut v = self.bytes(n);
                let k = self.below(n);
                for x in v.iter_mut().skip(k) {
                    *x = 0;
                }
                v
            }
            5 => {
                let mut v = self.bytes(n);
                let k = self.below(n);
                for x in v.iter_mut().take(k) {
                    *x = 0;
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        match self.below(8) {
            0 => return String::new(),
            1 => return "HostAnnouncement".into(),
            2 => {
                if let Some(s) = self.sdict() {
                    if s.len() <= max {
                        return s;
                    }
                }
            }
            _ => {}
        }
        let n = self.below(max + 1);
        let mut s = String::new();
        while s.len() < n {
            let c = match self.below(6) {
                0 => char::from_u32(0x20 + self.below(0x5f) as u32),
                1 => char::from_u32(self.below(0x20) as u32),
                2 => char::from_u32(0x80 + self.below(0x700) as u32),
                3 => char::from_u32(0x800 + self.below(0xf000) as u32),
                4 => char::from_u32(0x10000 + self.below(0xfffff) as u32),
                _ => Some((b'a' + self.below(26) as u8) as char),
            };
            if let Some(c) = c {
                s.push(c);
            }
        }
        s
    }
}
