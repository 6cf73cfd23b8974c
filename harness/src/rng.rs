//! SplitMix64: every random choice of the harness comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
	}

	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}

	/// 0..n
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % n.max(1) as u64) as usize
	}

	/// lo..=hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}

	/// True `pct` times out of 100.
	pub fn chance(&mut self, pct: usize) -> bool {
		self.below(100) < pct
	}

	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
		&s[self.below(s.len())]
	}

	pub fn shuffle<T>(&mut self, s: &mut [T]) {
		for i in (1..s.len()).rev() {
			s.swap(i, self.below(i + 1));
		}
	}

	/// Splits off an independent generator.
	pub fn fork(&mut self) -> Rng {
		Rng::new(self.next())
	}
}
