//! Concrete inputs, with a liking for boundaries.
use crate::mk::Src;

#[derive(Clone)]
pub struct Rng {
    s: u64,
    /// what was chosen, for reports
    pub log: Vec<String>,
}

impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng { s: seed ^ case.wrapping_mul(0x9E37_79B9_7F4A_7C15), log: vec![] };
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, k: usize) -> bool {
        self.below(k) == 0
    }
    /// An integer of `w` bits: near a boundary, or anything.
    pub fn int(&mut self, w: u32) -> u64 {
        let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
        let v = match self.below(6) {
            0 => self.below(5) as u64,
            1 => m.wrapping_sub(self.below(5) as u64),
            2 => {
                let b = 1u64 << self.below(w as usize);
                b.wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            3 => [1, 2, 3, 4, 5, 0x101, 0x102, 0x201, 0x202, 0x203, 0x204, 0x205, 0x300, 0x301]
                [self.below(14)],
            4 => self.next() >> self.below(64),
            _ => self.next(),
        };
        v & m
    }
    /// A length: mostly short, sometimes around a power of two.
    pub fn len(&mut self, max: usize) -> usize {
        let l = match self.below(64) {
            0 if max > 70_000 => (1 << 16) + self.below(3) - 1,
            1 | 2 => 253 + self.below(6),
            3 => 2_000 + self.below(20),
            4 if max == 65_535 => 65_535 - self.below(2),
            5..=12 => 0,
            13..=20 => 1,
            _ => self.below(40),
        };
        l.min(max)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        let zero = self.chance(8);
        for _ in 0..n {
            v.push(if zero { 0 } else { self.next() as u8 });
        }
        v
    }
}

pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s += &format!("{:02x}", x);
    }
    if b.len() > 200 {
        s += &format!("... ({} bytes)", b.len());
    }
    if b.is_empty() {
        s += "(empty)";
    }
    s
}

impl Src for Rng {
    fn bool(&mut self) -> bool {
        let b = self.chance(2);
        self.log.push(b.to_string());
        b
    }
    fn u16(&mut self) -> u16 {
        let v = self.int(16) as u16;
        self.log.push(format!("{:#x}", v));
        v
    }
    fn u32(&mut self) -> u32 {
        let v = self.int(32) as u32;
        self.log.push(format!("{:#x}", v));
        v
    }
    fn u64(&mut self) -> u64 {
        let v = self.int(64);
        self.log.push(format!("{:#x}", v));
        v
    }
    fn blob(&mut self, max: usize) -> &'static [u8] {
        let n = self.len(max);
        let b = leak(self.bytes(n));
        self.log.push(format!("[{}]", show(b)));
        b
    }
    fn ascii(&mut self, max: usize) -> (String, &'static [u8]) {
        let n = if self.chance(16) { max } else { self.len(max) };
        let b = leak((0..n).map(|_| (self.next() & 0x7F) as u8).collect());
        self.log.push(format!("{:?}", String::from_utf8_lossy(b)));
        (String::from_utf8(b.to_vec()).unwrap(), b)
    }
}
