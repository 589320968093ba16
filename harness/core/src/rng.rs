//! Small deterministic PRNG (xoshiro256**), independent of the crates under test.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in data { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
  h
}

impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut x = seed;
    Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
  }
  pub fn next(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
    self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
    r
  }
  /// uniform in 0..n (n > 0)
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
  pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
  /// inclusive range
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + (self.next() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
  pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
  pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { let i = self.us(items.len()); &items[i] }
  pub fn pick_s(&mut self, items: &[&str]) -> String { (*self.pick(items)).to_string() }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
  }
  /// Random subset preserving order
  pub fn subset<T: Clone>(&mut self, v: &[T], num: u64, den: u64) -> Vec<T> {
    v.iter().filter(|_| self.chance(num, den)).cloned().collect()
  }
  pub fn string_from(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
    let n = self.range(lo as i64, hi as i64) as usize;
    (0..n).map(|_| *self.pick(alphabet)).collect()
  }
}
