//! Small deterministic PRNG (splitmix64 seeded xoshiro256**). All randomness of a case derives from
//! (VERIF_SEED, property, section, case index), so every case can be replayed on its own.

#[derive(Clone, Debug)]
pub struct Rng {
	s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
	let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
	for &b in data {
		h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
	}
	mix(h ^ data.len() as u64)
}

pub fn hash_str(seed: u64, data: &str) -> u64 {
	hash_bytes(seed, data.as_bytes())
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = [0; 4];
		let mut z = seed;
		for v in &mut s {
			z = mix(z);
			*v = z;
		}
		Self { s }
	}

	pub fn u64(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}
	pub fn u8(&mut self) -> u8 {
		(self.u64() >> 32) as u8
	}
	pub fn u16(&mut self) -> u16 {
		(self.u64() >> 32) as u16
	}
	pub fn u32(&mut self) -> u32 {
		(self.u64() >> 32) as u32
	}
	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: u64) -> u64 {
		((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
	}
	pub fn usize(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	/// Uniform in lo..=hi.
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.usize(hi - lo + 1)
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.usize(items.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.u8()).collect()
	}
	pub fn shuffle<T>(&mut self, items: &mut [T]) {
		for i in (1..items.len()).rev() {
			let j = self.usize(i + 1);
			items.swap(i, j);
		}
	}

	/// Bytes with a bias that makes framing and stuffing interesting.
	pub fn content(&mut self, n: usize) -> Vec<u8> {
		let style = self.below(8);
		let mut v: Vec<u8> = match style {
			0 | 1 => self.bytes(n),
			2 => (0..n).map(|_| *self.pick(&[0xFF, 0xFD, 0x00, 0x55])).collect(),
			3 => (0..n).map(|_| *self.pick(&[0xFF, 0xFF, 0xFF, 0xFD])).collect(),
			4 => (0..n).map(|i| [0xFF, 0xFF, 0xFD, 0xFD][i % 4]).collect(),
			5 => (0..n).map(|i| [0xFF, 0xFF, 0xFD, 0x00][i % 4]).collect(),
			6 => (0..n).map(|i| [0xFF, 0xFF, 0xFD][i % 3]).collect(),
			_ => {
				let mut v = Vec::with_capacity(n + 8);
				while v.len() < n {
					match self.below(6) {
						0 => v.extend_from_slice(&[0xFF, 0xFF, 0xFD]),
						1 => v.extend_from_slice(&[0xFF, 0xFF, 0xFF, 0xFD]),
						2 => v.extend_from_slice(&[0xFF, 0xFF, 0xFD, 0xFD]),
						3 => v.extend_from_slice(&[0xFF, 0xFF, 0xFD, 0x00]),
						4 => {
							let k = self.range(1, 5);
							v.extend(std::iter::repeat(0xFF).take(k));
						},
						_ => {
							let k = self.range(1, 6);
							v.extend(self.bytes(k));
						},
					}
				}
				v.truncate(n);
				v
			},
		};
		// Sometimes force a pattern at one of the ends.
		if n >= 3 && self.chance(1, 6) {
			v[n - 3..].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
		}
		if n >= 3 && self.chance(1, 10) {
			v[..3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
		}
		v
	}

	/// A payload size: mostly small, sometimes around powers of two, sometimes large.
	pub fn size(&mut self, max: usize) -> usize {
		let n = match self.below(10) {
			0..=5 => self.usize(24),
			6 | 7 => self.usize(140),
			8 => {
				let p = *self.pick(&[8usize, 16, 32, 64, 128, 240, 256, 512, 1024]);
				(p + 6).saturating_sub(self.usize(14))
			},
			_ => self.usize(1500),
		};
		n.min(max)
	}

	/// A packet ID with a bias to the interesting ones.
	pub fn id(&mut self) -> u8 {
		match self.below(6) {
			0 => *self.pick(&[0u8, 1, 252, 253, 254, 255, 0xFD]),
			_ => self.u8(),
		}
	}

	/// The ID of a single motor: anything but broadcast.
	pub fn motor(&mut self) -> u8 {
		loop {
			let id = self.id();
			if id != 254 {
				return id;
			}
		}
	}

	/// A u16 with a bias to boundaries and asymmetric bytes.
	pub fn addr(&mut self) -> u16 {
		match self.below(4) {
			0 => *self.pick(&[0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0xFFFD, 0xFDFF, 0x1234]),
			1 => self.u16() & 0xFF,
			_ => self.u16(),
		}
	}
}
