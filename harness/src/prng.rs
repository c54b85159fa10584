//! Small deterministic PRNG (splitmix64 / xorshift) and boundary-heavy generators.
#[derive(Clone)]
pub struct Gen(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const LEN_EDGES: &[usize] = &[0, 1, 2, 74, 75, 76, 77, 252, 253, 254, 255, 256, 257, 519, 520, 521];
pub const LEN_EDGES_BIG: &[usize] = &[65534, 65535, 65536, 65537];

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen(mix(seed ^ 0x5eed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 16) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 24) as u8
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b_incl: usize) -> usize {
        a + self.below(b_incl - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let mut a = [0u8; 32];
        a.copy_from_slice(&self.bytes(32));
        if self.chance(1, 20) {
            a = [if self.chance(1, 2) { 0 } else { 0xff }; 32];
        }
        a
    }
    pub fn arr20(&mut self) -> [u8; 20] {
        let mut a = [0u8; 20];
        a.copy_from_slice(&self.bytes(20));
        if self.chance(1, 20) {
            a = [if self.chance(1, 2) { 0 } else { 0xff }; 20];
        }
        a
    }
    /// u64 with emphasis on powers of two, compact-size borders and extremes
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => *self.pick(&[
                0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff,
                0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, u64::MAX >> 1,
                (u64::MAX >> 1) + 1, u64::MAX - 1, u64::MAX,
            ]),
            1 => {
                let s = self.below(64);
                (1u64 << s).wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            2 => self.u64(),
            3 => {
                let s = self.below(64);
                self.u64() >> s
            }
            4 => self.below(1000) as u64,
            _ => self.u64() & 0x0007_ffff_ffff_ffff,
        }
    }
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x3f_ffff, 0x40_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
            1 => self.u32(),
            2 => self.u32() >> self.below(32),
            _ => self.below(300) as u32,
        }
    }
    pub fn edge_i32(&mut self) -> i32 {
        match self.below(5) {
            0 => *self.pick(&[
                0, 1, -1, 2, -2, 15, 16, 17, -16, -17, 126, 127, 128, 129, -127, -128, -129, 254, 255, 256, -255, -256,
                32767, 32768, -32767, -32768, 65535, 65536, -65535, 8388607, 8388608, -8388607, -8388608,
                0x7fff_fffe, 0x7fff_ffff, -0x7fff_fffe, -0x7fff_ffff,
            ]),
            1 => {
                let v = (1i64 << self.below(32)) + self.below(3) as i64 - 1;
                let v = if self.chance(1, 2) { -v } else { v };
                v.max(-0x7fff_ffff).min(0x7fff_ffff) as i32
            }
            2 => (self.u32() as i32).max(-0x7fff_ffff),
            3 => self.below(2001) as i32 - 1000,
            _ => {
                let s = self.below(31);
                ((self.u32() >> s) as i32).max(-0x7fff_ffff)
            }
        }
    }
    /// payload length with emphasis on push / compact-size class borders
    pub fn edge_len(&mut self, big: bool) -> usize {
        match self.below(if big { 60 } else { 40 }) {
            0..=11 => *self.pick(LEN_EDGES),
            12..=14 => self.below(600),
            58 | 59 => *self.pick(LEN_EDGES_BIG),
            _ => self.below(40),
        }
    }
}
