//! Deterministic PRNG (splitmix64). Every case is a pure function of its seed.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: usize) -> usize {
		if n <= 1 {
			return 0;
		}
		(self.next() % n as u64) as usize
	}
	/// inclusive range
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	/// true with probability p percent
	pub fn chance(&mut self, p: usize) -> bool {
		self.below(100) < p
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.below(i + 1);
			v.swap(i, j);
		}
	}
	/// a random subset keeping order
	pub fn subset<T: Clone>(&mut self, v: &[T], pct: usize) -> Vec<T> {
		v.iter().filter(|_| self.chance(pct)).cloned().collect()
	}
}
/// FNV hash used for counting distinct observations
pub fn fnv(s: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for b in s {
		h ^= *b as u64;
		h = h.wrapping_mul(0x1000_0000_01b3);
	}
	h
}
