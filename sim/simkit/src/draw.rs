//! The single source of every choice made in a run.

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
}

pub fn mix(a: u64, b: u64) -> u64 {
	Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17)).next()
}

/// A recorded stream of choices. In search mode the choices come from the
/// seed, in replay mode from the recording; a recording that ran out yields 0,
/// which is always the simplest choice.
#[derive(Clone)]
pub struct Stream {
	rng: Option<Rng>,
	pub choices: Vec<u32>,
	pos: usize,
	tag: char,
}

static RECORD: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
static RECORDING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Every choice is also written to this file the moment it is made.
pub fn set_record_path(path: Option<String>) {
	if let Some(path) = path {
		*RECORD.lock().unwrap() = std::fs::File::create(path).ok();
		RECORDING.store(true, std::sync::atomic::Ordering::Relaxed);
	}
}

fn record(tag: char, value: u32) {
	if RECORDING.load(std::sync::atomic::Ordering::Relaxed) {
		use std::io::Write;
		if let Some(file) = RECORD.lock().unwrap().as_mut() {
			let _ = file.write_all(format!("{tag} {value}\n").as_bytes());
		}
	}
}

impl Stream {
	pub fn from_seed(seed: u64, tag: char) -> Self {
		Self { rng: Some(Rng(seed)), choices: Vec::new(), pos: 0, tag }
	}

	pub fn from_choices(choices: Vec<u32>, tag: char) -> Self {
		Self { rng: None, choices, pos: 0, tag }
	}

	pub fn below(&mut self, n: u32) -> u32 {
		if n <= 1 {
			return 0;
		}
		match &mut self.rng {
			Some(rng) => {
				let value = (rng.next() % n as u64) as u32;
				record(self.tag, value);
				self.choices.push(value);
				value
			}
			None => {
				let value = self.choices.get(self.pos).copied().unwrap_or(0);
				self.pos += 1;
				value.min(n - 1)
			}
		}
	}

	/// Records a choice the policy made itself.
	pub fn below_with(&mut self, n: u32, policy: impl FnOnce(&mut Rng) -> u32) -> u32 {
		if n <= 1 {
			return 0;
		}
		match &mut self.rng {
			Some(rng) => {
				let value = policy(rng).min(n - 1);
				record(self.tag, value);
				self.choices.push(value);
				value
			}
			None => {
				let value = self.choices.get(self.pos).copied().unwrap_or(0);
				self.pos += 1;
				value.min(n - 1)
			}
		}
	}
}

/// Both choice streams of a run.
#[derive(Clone)]
pub struct Choices {
	/// Operations, faults, sizes, delays, and reentrant decisions
	pub ops: Vec<u32>,
	/// Thread interleaving, `0` means "whoever runs keeps running"
	pub sched: Vec<u32>,
}
