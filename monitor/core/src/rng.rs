//! Deterministic generator and boundary-biased values.
#[derive(Clone)]
pub struct Rng(u64, u64);
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        let x = mix(a.wrapping_add(0x9e3779b97f4a7c15));
        let y = mix(x ^ b.wrapping_mul(0xd1342543de82ef95).wrapping_add(77));
        Rng(x ^ mix(y), y | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 ^ 0x9e3779b97f4a7c15 | 1);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: u32) -> bool {
        self.u64() % 100 < p as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        self.bytes(32).try_into().unwrap()
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = (self.u64() % t.max(1) as u64) as u32;
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// boundary-biased number: near a context value, a literal of the source, a power of two, or random
    pub fn val(&mut self, ctx: &[u64], dict: &[u64]) -> u64 {
        match self.below(12) {
            0..=4 if !ctx.is_empty() => {
                let b = *self.pick(ctx);
                match self.below(6) {
                    0..=2 => b,
                    3 => b.wrapping_add(1),
                    4 => b.wrapping_sub(1),
                    _ => b.wrapping_add(self.u64() % 1000),
                }
            }
            5 | 6 if !dict.is_empty() => {
                let b = *self.pick(dict);
                match self.below(5) {
                    0 | 1 => b,
                    2 => b.wrapping_add(1),
                    3 => b.wrapping_sub(1),
                    _ => b.wrapping_mul(1_000_000_000),
                }
            }
            7 => {
                let s = self.below(64);
                let d = [0u64, 1, u64::MAX][self.below(3)];
                (1u64 << s).wrapping_add(d)
            }
            8 => self.u64() % 10,
            9 => {
                let s = self.below(60);
                self.u64() >> s
            }
            10 => self.u64() % 1_000_000_000_000,
            _ => self.u64() % 100_000,
        }
    }
}
