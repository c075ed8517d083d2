/// xoshiro256** seeded by splitmix64.
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The seed of run `index` of property `prop` under the master seed.
pub fn run_seed(master: u64, prop: &str, index: u64) -> u64 {
    let mut x = master ^ 0x5DEE_CE66_D1CE_4E5B;
    let mut h = splitmix(&mut x);
    for b in prop.bytes() { h ^= b as u64; h = splitmix(&mut h); }
    h ^= index.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn below_incl(&mut self, n: u64) -> u64 {
        if n == u64::MAX { self.next() } else { self.below(n + 1) }
    }
}
