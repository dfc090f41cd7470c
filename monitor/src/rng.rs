//! A small deterministic generator (splitmix64), so a run only depends on the seed.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64, stream: &str, index: u64) -> Self {
		let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
		for b in stream.bytes() {
			h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
		}
		let mut r = Rng(h ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93));
		r.u64();
		r.u64();
		r
	}
	pub fn u64(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// 0..n
	pub fn below(&mut self, n: usize) -> usize {
		assert!(n > 0);
		(self.u64() % n as u64) as usize
	}
	/// a..=b
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	pub fn byte(&mut self) -> u8 {
		(self.u64() >> 24) as u8
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.byte()).collect()
	}
	/// true once in n
	pub fn one_in(&mut self, n: usize) -> bool {
		self.below(n) == 0
	}
	pub fn bool(&mut self) -> bool {
		self.one_in(2)
	}
	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.below(items.len())]
	}
	pub fn shuffle<T>(&mut self, items: &mut [T]) {
		for i in (1..items.len()).rev() {
			items.swap(i, self.below(i + 1));
		}
	}
}
