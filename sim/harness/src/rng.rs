/// SplitMix64; the only source of randomness of the simulator.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed)
	}
	pub fn derive(seed: u64, label: &str) -> Self {
		let mut h = 0xcbf2_9ce4_8422_2325u64;
		for b in label.bytes() {
			h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
		}
		let mut r = Rng(seed ^ h);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn u128(&mut self) -> u128 {
		((self.next() as u128) << 64) | self.next() as u128
	}
	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: u64) -> u64 {
		((self.next() as u128 * n as u128) >> 64) as u64
	}
	/// Uniform in lo..=hi.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn usize(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.usize(xs.len())]
	}
	pub fn std(&mut self) -> rand::rngs::StdRng {
		use rand::SeedableRng;
		rand::rngs::StdRng::seed_from_u64(self.next())
	}
	pub fn fill(&mut self, buf: &mut [u8]) {
		for c in buf.chunks_mut(8) {
			let v = self.next().to_le_bytes();
			c.copy_from_slice(&v[..c.len()]);
		}
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.usize(i + 1);
			v.swap(i, j);
		}
	}
}
