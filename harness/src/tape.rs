//! Choice tape: every random decision of a case is drawn from `Src` and recorded, so a case *is*
//! its tape. Replaying a (possibly edited) tape re-runs the generator on those choices.
use std::fs::File;
use std::io::Write;

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
	let mut h: u64 = 0xcbf2_9ce4_8422_2325;
	for x in b {
		h ^= *x as u64;
		h = h.wrapping_mul(0x0000_0100_0000_01B3);
	}
	mix(h)
}

pub struct Src {
	state: u64,
	pub tape: Vec<u32>,
	replay: Option<Vec<u32>>,
	pos: usize,
	dump: Option<File>,
}

impl Src {
	pub fn from_seed(seed: u64) -> Src {
		Src {
			state: mix(seed),
			tape: Vec::with_capacity(256),
			replay: None,
			pos: 0,
			dump: None,
		}
	}
	pub fn from_tape(tape: Vec<u32>) -> Src {
		Src {
			state: 0,
			tape: Vec::with_capacity(tape.len()),
			replay: Some(tape),
			pos: 0,
			dump: None,
		}
	}
	/// also append every draw to a file (so that the tape survives an abort)
	pub fn dump_to(&mut self, f: File) {
		self.dump = Some(f);
	}
	fn next64(&mut self) -> u64 {
		self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.state;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// uniform in 0..n; 0 is the simplest choice
	pub fn below(&mut self, n: usize) -> usize {
		if n <= 1 {
			return 0;
		}
		let v = if let Some(t) = &self.replay {
			let v = t.get(self.pos).copied().unwrap_or(0) as usize;
			v % n
		} else {
			(self.next64() % (n as u64)) as usize
		};
		self.pos += 1;
		self.tape.push(v as u32);
		if let Some(f) = &mut self.dump {
			let _ = f.write_all(&(v as u32).to_le_bytes());
		}
		v
	}
	/// lo..=hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	/// true with probability pct/100 (false is the simple choice)
	pub fn chance(&mut self, pct: usize) -> bool {
		self.below(100) >= 100 - pct
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.below(xs.len());
		&xs[i]
	}
	pub fn picks<'a>(&mut self, xs: &[&'a str]) -> &'a str {
		let i = self.below(xs.len());
		xs[i]
	}
	/// weighted choice: returns an index
	pub fn weighted(&mut self, ws: &[usize]) -> usize {
		let total: usize = ws.iter().sum();
		let mut v = self.below(total);
		for (i, w) in ws.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= w;
		}
		0
	}
}
