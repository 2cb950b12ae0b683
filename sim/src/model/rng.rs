//! Reference for the random number generators: SplitMix64 as published with
//! Java's SplittableRandom, and xoshiro256++ as a linear map over GF(2), with
//! jumps as powers of that map rather than via precalculated polynomials.

use std::sync::OnceLock;

const GOLDEN: u64 = 0x9e37_79b9_7f4a_7c15;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Split {
    seed: u64,
    gamma: u64,
}

impl Split {
    pub fn new(seed: u64) -> Self {
        Self { seed, gamma: GOLDEN }
    }
    fn advance(&mut self) -> u64 {
        self.seed = self.seed.wrapping_add(self.gamma);
        self.seed
    }
    pub fn next64(&mut self) -> u64 {
        let z = self.advance();
        let z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ z >> 31
    }
    pub fn next32(&mut self) -> u32 {
        let z = self.advance();
        let z = (z ^ z >> 33).wrapping_mul(0x62a9_d9ed_7997_05f5);
        ((z ^ z >> 28).wrapping_mul(0xcb24_d0a5_c88c_35b3) >> 32) as u32
    }
    pub fn split(&mut self) -> Self {
        let seed = self.next64();
        let z = self.advance();
        let z = (z ^ z >> 33).wrapping_mul(0xff51_afd7_ed55_8ccd);
        let z = (z ^ z >> 33).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        let z = (z ^ z >> 33) | 1;
        let few = (z ^ z >> 1).count_ones() < 24;
        Self { seed, gamma: if few { z ^ 0xaaaa_aaaa_aaaa_aaaa } else { z } }
    }
    /// Whether the increment was corrected for too few transitions, or could
    /// not have been.
    pub fn corrected(&self) -> bool {
        let z = self.gamma ^ 0xaaaa_aaaa_aaaa_aaaa;
        z & 1 == 1 && (z ^ z >> 1).count_ones() < 24
    }
}

type Vec256 = [u64; 4];

fn linear(mut s: Vec256) -> Vec256 {
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    s
}

/// A linear map, by the images of the unit vectors.
struct Map(Vec<Vec256>);

impl Map {
    fn apply(&self, v: &Vec256) -> Vec256 {
        let mut r = [0; 4];
        for (i, w) in v.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                let c = &self.0[i * 64 + w.trailing_zeros() as usize];
                for k in 0..4 {
                    r[k] ^= c[k];
                }
                w &= w - 1;
            }
        }
        r
    }
    fn squared(&self) -> Self {
        Self(self.0.iter().map(|v| self.apply(v)).collect())
    }
}

/// The step repeated 2^128 and 2^192 times.
fn jumps() -> &'static (Map, Map) {
    static J: OnceLock<(Map, Map)> = OnceLock::new();
    J.get_or_init(|| {
        crate::heap::quiet(|| {
            let mut m = Map((0..256).map(|i| {
                let mut v = [0; 4];
                v[i / 64] = 1 << (i % 64);
                linear(v)
            }).collect());
            for _ in 0..128 {
                m = m.squared();
            }
            let a = Map(m.0.clone());
            for _ in 0..64 {
                m = m.squared();
            }
            (a, m)
        })
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wide(pub Vec256);

impl Wide {
    pub fn new(seed: Vec256) -> Self {
        if seed == [0; 4] {
            return Self::from_split(&mut Split::new(0));
        }
        Self(seed)
    }
    pub fn from_split(s: &mut Split) -> Self {
        let a = s.next64();
        let b = s.next64();
        let c = s.next64();
        let d = s.next64();
        Self([a, b, c, d])
    }
    pub fn next64(&mut self) -> u64 {
        let s = &self.0;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        self.0 = linear(self.0);
        r
    }
    pub fn jump128(&mut self) {
        self.0 = jumps().0.apply(&self.0);
    }
    pub fn jump192(&mut self) {
        self.0 = jumps().1.apply(&self.0);
    }
}
