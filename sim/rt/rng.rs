//! The only source of random choices.
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn derive(seed: u64, a: &str, b: u64) -> Rng {
        let mut h = seed ^ 0x51_7c_c1_b7_27_22_0a_95;
        for x in a.bytes() {
            h = (h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
        let mut r = Rng(h ^ b.wrapping_mul(0x9E3779B97F4A7C15));
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u() % n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u() % (b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.u() % (den as u64) < num as u64
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
    /// roughly geometric with the given mean
    pub fn geo(&mut self, mean: u64) -> u64 {
        let mut k = 1;
        let u = (self.u() >> 11) as f64 / (1u64 << 53) as f64;
        let x = -(1.0 - u).ln() * mean as f64;
        k += x as u64;
        k
    }
    pub fn weighted<X>(&mut self, v: &[X], w: impl Fn(&X) -> u32) -> usize {
        let tot: u64 = v.iter().map(|x| w(x) as u64).sum();
        let mut r = self.u() % tot.max(1);
        for (i, x) in v.iter().enumerate() {
            let k = w(x) as u64;
            if r < k {
                return i;
            }
            r -= k
        }
        v.len() - 1
    }
}
