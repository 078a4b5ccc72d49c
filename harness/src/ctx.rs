//! Monitor framework: indexed, replayable cases spread over worker threads; counters and distinct-state sets that
//! become the evidence file; panic capture; and a CPU-time watchdog for library calls that never return.

use crate::rng::{hash_str, mix, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::AssertUnwindSafe;
use crate::au64::AtomicU64;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_DISTINCT: usize = 6_000_000;

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub counts: BTreeMap<String, u64>,
	pub distinct: HashSet<u64>,
	pub distinct_overflow: u64,
	pub samples: Vec<String>,
}

impl Stats {
	fn merge(&mut self, other: Stats) {
		self.evaluations += other.evaluations;
		self.distinct_overflow += other.distinct_overflow;
		for (k, v) in other.counts {
			*self.counts.entry(k).or_default() += v;
		}
		for h in other.distinct {
			if self.distinct.len() < MAX_DISTINCT {
				self.distinct.insert(h);
			}
		}
		for s in other.samples {
			if self.samples.len() < 24 {
				self.samples.push(s);
			}
		}
	}
}

#[derive(Debug, Clone)]
pub struct Violation {
	pub section: String,
	pub case: u64,
	pub round: u64,
	pub message: String,
}

/// Selects a single case to run again.
#[derive(Clone, Debug)]
pub struct Replay {
	pub section: String,
	pub case: u64,
	pub round: u64,
}

pub struct Run {
	pub prop: &'static str,
	pub thorough: bool,
	pub seed: u64,
	pub round: u64,
	pub threads: usize,
	pub replay: Option<Replay>,
	pub only_section: Option<String>,
	/// Divides the number of random cases (used for slow interpreters and sanitizers).
	pub scale: u64,
	pub stats: Mutex<Stats>,
	pub violation: Mutex<Option<Violation>>,
	pub harness_error: Mutex<Option<String>>,
	pub stop: AtomicBool,
	pub deadline: Option<Instant>,
	/// Rolling digest of everything observed (used to compare configurations); order independent.
	pub digest: AtomicU64,
	pub sections: Mutex<BTreeMap<String, u64>>,
	pub digest_dump: Option<Mutex<std::fs::File>>,
}

/// One case being executed.
pub struct Case<'r> {
	pub rng: Rng,
	pub i: u64,
	pub thorough: bool,
	pub round: u64,
	pub replaying: bool,
	stats: &'r mut Stats,
	section_hash: u64,
	digest: u64,
	pub prop: &'static str,
	/// Evaluations and noted states of this case: everything noted was evaluated.
	evals: u64,
	noted: u64,
}

impl Case<'_> {
	pub fn count(&mut self, name: &str, n: u64) {
		match self.stats.counts.get_mut(name) {
			Some(c) => *c += n,
			None => {
				self.stats.counts.insert(name.to_string(), n);
			},
		}
	}
	pub fn eval(&mut self, n: u64) {
		self.evals += n;
	}
	/// Note a non-trivial case, identified by a hash of what makes it distinct.
	pub fn distinct(&mut self, h: u64) {
		let h = mix(h ^ self.section_hash);
		self.noted += 1;
		if self.stats.distinct.len() < MAX_DISTINCT / 8 {
			self.stats.distinct.insert(h);
		} else if !self.stats.distinct.contains(&h) {
			self.stats.distinct_overflow += 1;
		}
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.i < 2 && self.stats.samples.len() < 24 {
			let mut s = f();
			if s.len() > 600 {
				let mut n = 600;
				while !s.is_char_boundary(n) {
					n -= 1;
				}
				s.truncate(n);
				s.push('…');
			}
			self.stats.samples.push(s);
		}
	}
	/// Mix something observed into the configuration-independent digest.
	pub fn digest(&mut self, h: u64) {
		self.digest = mix(self.digest.rotate_left(7) ^ h);
	}
}

thread_local! {
	static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
	static QUIET: RefCell<bool> = const { RefCell::new(false) };
	/// What this thread is running: the run, the section and the case.
	static NOW: RefCell<Option<(*const Run, String, u64)>> = const { RefCell::new(None) };
}

/// The library panics again in a destructor while a panic unwinds, or where nothing may unwind: the process is about to
/// be aborted, so this is the last chance to tell.
fn about_to_abort(message: &str) {
	if !["panic in a destructor during cleanup", "panic in a function that cannot unwind"].contains(&message) {
		return;
	}
	if let Some((run, section, case)) = NOW.with(|n| n.borrow_mut().take()) {
		// The run outlives its workers.
		let run = unsafe { &*run };
		run.report(&section, case, format!("a library call would abort the process: {message}"));
		crate::finish_and_exit(run);
	}
}

/// Payload of the panic that breaks out of library loops that call the port endlessly.
pub struct Budget(pub u64);

#[derive(Debug, Clone, PartialEq)]
pub struct Panicked {
	pub message: String,
	pub location: String,
	pub budget: bool,
}

impl std::fmt::Display for Panicked {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		if self.budget {
			write!(f, "did not finish: {}", self.message)
		} else {
			write!(f, "panicked at {}: {}", self.location, self.message)
		}
	}
}

pub fn install_panic_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let message = payload_text(info.payload());
		let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		about_to_abort(&message);
		if QUIET.with(|q| *q.borrow()) {
			LAST_PANIC.with(|p| *p.borrow_mut() = Some((message, location)));
		} else {
			old(info);
		}
	}));
}

fn payload_text(p: &(dyn Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else if let Some(b) = p.downcast_ref::<Budget>() {
		format!("more than {} port calls in one operation", b.0)
	} else {
		"<non-string panic>".to_string()
	}
}

/// Run library code; a panic is returned as a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
	let before = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
	let r = std::panic::catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| *q.borrow_mut() = before);
	r.map_err(|p| {
		let budget = p.is::<Budget>();
		let (message, location) = LAST_PANIC
			.with(|l| l.borrow_mut().take())
			.unwrap_or_else(|| (payload_text(&*p), String::new()));
		Panicked { message, location, budget }
	})
}

impl Run {
	fn case_rng(&self, section: &str, i: u64) -> Rng {
		let h = hash_str(self.seed, self.prop);
		Rng::new(mix(hash_str(h, section) ^ mix(i.wrapping_mul(0x1_0001).wrapping_add(self.round << 48))))
	}

	pub fn stopped(&self) -> bool {
		self.stop.load(Ordering::Relaxed)
	}

	/// Pick the quick or thorough bound.
	pub fn q(&self, quick: u64, thorough: u64) -> u64 {
		if self.thorough {
			thorough
		} else {
			quick
		}
	}

	/// Random sections: the number of cases, scaled for slow interpreters.
	pub fn n(&self, quick: u64) -> u64 {
		(quick / self.scale).max(4)
	}

	/// Sections that enumerate a fixed space only run in the first round.
	pub fn exhaustive(&self, section: &str, cases: u64, f: impl Fn(&mut Case, u64) -> Result<(), String> + Sync) {
		if cfg!(miri) && self.scale > 1 {
			// The interpreter samples them.
			let (k, offset) = (cases.div_ceil(8), mix(self.seed));
			self.section_inner(section, self.n(cases).min(8).min(k), &|c: &mut Case, i| f(c, mix(offset ^ i) % cases));
		} else if self.round == 0 || self.replay.is_some() {
			self.section_inner(section, cases, &f);
		}
	}

	/// Sections with random cases run in every round (with other seeds).
	pub fn section(&self, section: &str, cases: u64, f: impl Fn(&mut Case, u64) -> Result<(), String> + Sync) {
		self.section_inner(section, self.n(cases), &f);
	}

	fn section_inner(&self, section: &str, cases: u64, f: &(dyn Fn(&mut Case, u64) -> Result<(), String> + Sync)) {
		if self.stopped() || cfg!(miri) && section.starts_with("long_") {
			return;
		}
		if let Some(only) = &self.only_section {
			if only != section {
				return;
			}
		}
		let (first, end) = match &self.replay {
			Some(r) if r.section != section || r.round != self.round => return,
			Some(r) => (r.case, r.case + 1),
			None => (0, cases),
		};
		let started = Instant::now();
		*self.sections.lock().unwrap().entry(section.to_string()).or_default() += end - first;
		let threads = self.threads.min((end - first) as usize).max(1);
		let chunk = ((end - first) / (threads as u64 * 16)).clamp(1, 4096);
		let next = AtomicU64::new(first);
		let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
		let running = AtomicUsize::new(threads);
		if threads == 1 && cfg!(miri) {
			self.worker(section, f, &next, end, chunk, &slots[0]);
		} else {
			std::thread::scope(|s| {
				for slot in &slots {
					let next = &next;
					let running = &running;
					std::thread::Builder::new()
						.stack_size(16 << 20)
						.spawn_scoped(s, move || {
							slot.register();
							self.worker(section, f, next, end, chunk, slot);
							running.fetch_sub(1, Ordering::SeqCst);
						})
						.unwrap();
				}
				self.watchdog(section, &slots, &running);
			});
		}
		if std::env::var_os("DXLMON_TIMES").is_some() {
			eprintln!("{} {section}: {} cases in {:.2} s", self.prop, end - first, started.elapsed().as_secs_f64());
		}
	}

	fn worker(
		&self,
		section: &str,
		f: &(dyn Fn(&mut Case, u64) -> Result<(), String> + Sync),
		next: &AtomicU64,
		end: u64,
		chunk: u64,
		slot: &Slot,
	) {
		let mut stats = Stats::default();
		'outer: loop {
			let from = next.fetch_add(chunk, Ordering::Relaxed);
			if from >= end || self.stopped() {
				break;
			}
			for i in from..(from + chunk).min(end) {
				if self.stopped() || self.deadline.is_some_and(|d| Instant::now() > d) {
					break 'outer;
				}
				slot.begin(i);
				NOW.with(|n| *n.borrow_mut() = Some((self as *const Run, section.to_string(), i)));
				let mut case = Case {
					rng: self.case_rng(section, i),
					i,
					thorough: self.thorough,
					round: self.round,
					replaying: self.replay.is_some(),
					stats: &mut stats,
					section_hash: hash_str(0, section),
					digest: 0,
					prop: self.prop,
					evals: 1,
					noted: 0,
				};
				let result = guard(|| f(&mut case, i));
				let digest = case.digest;
				let evaluations = case.evals.max(case.noted);
				stats.evaluations += evaluations;
				slot.end();
				if digest != 0 {
					let d = mix(digest ^ mix(hash_str(self.round, section) ^ i));
					self.digest.fetch_add(d, Ordering::Relaxed);
					if let Some(file) = &self.digest_dump {
						use std::io::Write;
						let _ = writeln!(file.lock().unwrap(), "{section} {} {i} {digest:016x}", self.round);
					}
				}
				match result {
					Ok(Ok(())) => (),
					Ok(Err(message)) => {
						self.report(section, i, message);
						break 'outer;
					},
					Err(p) if p.location.starts_with("src/") && !p.budget && !p.message.starts_with("LIBRARY") => {
						let mut e = self.harness_error.lock().unwrap();
						e.get_or_insert_with(|| format!("{section} case {i}: harness {p}"));
						self.stop.store(true, Ordering::Relaxed);
						break 'outer;
					},
					Err(p) => {
						self.report(section, i, format!("a library call {p}"));
						break 'outer;
					},
				}
			}
		}
		self.stats.lock().unwrap().merge(stats);
	}

	fn report(&self, section: &str, case: u64, message: String) {
		let mut v = self.violation.lock().unwrap();
		if v.as_ref().is_none_or(|old| old.case > case) {
			*v = Some(Violation {
				section: section.to_string(),
				case,
				round: self.round,
				message,
			});
		}
		self.stop.store(true, Ordering::Relaxed);
	}

	fn watchdog(&self, section: &str, slots: &[Slot], running: &AtomicUsize) {
		let mut sleep = 1;
		let limit: f64 = std::env::var("DXLMON_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(40.0);
		while running.load(Ordering::SeqCst) > 0 {
			std::thread::sleep(Duration::from_millis(sleep));
			sleep = (sleep * 2).min(200);
			for slot in slots {
				if let Some((case, cpu)) = slot.stuck_for() {
					if cpu > limit {
						self.report(section, case, format!("a library call did not return within {limit} s of CPU time"));
						// The stuck thread can not be stopped: finish from here.
						crate::finish_and_exit(self);
					}
				}
			}
		}
	}
}

/// What a worker is doing, for the watchdog.
struct Slot {
	case: AtomicU64,
	begin_cpu: AtomicU64,
	clock: AtomicU64,
}

impl Default for Slot {
	fn default() -> Self {
		Self {
			case: AtomicU64::new(u64::MAX),
			begin_cpu: AtomicU64::new(u64::MAX),
			clock: AtomicU64::new(u64::MAX),
		}
	}
}

#[cfg(miri)]
impl Slot {
	fn register(&self) {}
	fn begin(&self, _: u64) {}
	fn end(&self) {}
	fn stuck_for(&self) -> Option<(u64, f64)> {
		None
	}
}

#[cfg(not(miri))]
impl Slot {
	fn register(&self) {
		let mut clock: libc::clockid_t = 0;
		if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } == 0 {
			self.clock.store(clock as u32 as u64, Ordering::SeqCst);
		}
	}
	fn begin(&self, case: u64) {
		self.begin_cpu.store(u64::MAX, Ordering::Relaxed);
		self.case.store(case, Ordering::Relaxed);
	}
	fn end(&self) {
		self.case.store(u64::MAX, Ordering::Relaxed);
	}
	/// The case in progress, and the CPU time its thread used since the watchdog first saw it.
	fn stuck_for(&self) -> Option<(u64, f64)> {
		let case = self.case.load(Ordering::Relaxed);
		let clock = self.clock.load(Ordering::SeqCst);
		if case == u64::MAX || clock == u64::MAX {
			return None;
		}
		let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
		if unsafe { libc::clock_gettime(clock as u32 as i32, &mut ts) } != 0 {
			return None;
		}
		let now = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
		let begin = self.begin_cpu.load(Ordering::Relaxed);
		if begin == u64::MAX {
			self.begin_cpu.store(now, Ordering::Relaxed);
			return None;
		}
		Some((case, now.saturating_sub(begin) as f64 / 1e9))
	}
}

pub fn hex(bytes: &[u8]) -> String {
	let mut s = String::with_capacity(bytes.len() * 3);
	for (i, b) in bytes.iter().enumerate() {
		if i >= 200 {
			let _ = write!(s, "… ({} bytes)", bytes.len());
			break;
		}
		if i > 0 {
			s.push(' ');
		}
		let _ = write!(s, "{b:02X}");
	}
	s
}

#[macro_export]
macro_rules! fail {
	($($args:tt)*) => { return Err(format!($($args)*)) };
}

#[macro_export]
macro_rules! check {
	($cond:expr, $($args:tt)*) => { if !$cond { return Err(format!($($args)*)); } };
}
