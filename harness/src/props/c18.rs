//! C18: each static buffer is handed out at most once.
//!
//! Every occurrence can be evaluated successfully only once per process, so the work is done in child processes
//! (`dxlmon C18-child SEED`), each of which races threads on over a thousand occurrences.

use crate::ctx::{guard, Run};
use crate::rng::{hash_str, mix, Rng};
use crate::{check, fail};
use dynamixel2::static_buffer;
use crate::au64::AtomicU64;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub const RULE: &str = "in each of many processes, eight threads released by a spin barrier evaluate the same occurrence at the same time, for over a thousand occurrences, followed by later evaluations in loops, functions, generic code and new threads, one of them 70000 times; distinct by (process, block of eight occurrences, threads that won them)";

type Site = fn() -> &'static mut [u8];

macro_rules! four {
	($m:ident $($args:tt)*) => { [$m!($($args)*), $m!($($args)*), $m!($($args)*), $m!($($args)*)] };
}
macro_rules! site {
	($n:literal) => {
		(|| static_buffer!($n)) as Site
	};
}
macro_rules! s4 {
	($n:literal) => { four!(site $n).to_vec() };
}
macro_rules! s16 {
	($n:literal) => { four!(s4 $n).concat() };
}
macro_rules! s64 {
	($n:literal) => { four!(s16 $n).concat() };
}
macro_rules! s256 {
	($n:literal) => { four!(s64 $n).concat() };
}

fn in_function() -> &'static mut [u8] {
	static_buffer!(48)
}

#[inline(never)]
fn in_generic<T: Default>() -> &'static mut [u8] {
	let _ = T::default();
	static_buffer!(40)
}

fn sites() -> Vec<(usize, Site)> {
	let mut v: Vec<(usize, Site)> = vec![];
	let mut add = |n: usize, s: Vec<Site>| v.extend(s.into_iter().map(|s| (n, s)));
	if cfg!(miri) {
		add(24, s4!(24));
		add(1, vec![site!(1)]);
		add(0, vec![site!(0)]);
	} else {
		add(24, s256!(24));
		add(16, s256!(16));
		add(128, s256!(128));
		add(1, s64!(1));
		add(10, s64!(10));
		add(0, s16!(0));
		add(4096, s16!(4096));
		add(65_542, s4!(65_542));
		add(1_048_576, vec![site!(1_048_576)]);
	}
	add(48, vec![in_function]);
	v
}

/// One evaluation: address and length, and whether it was zeroed.
type Won = (usize, usize, bool);

fn evaluate(site: Site, pattern: u8) -> Option<Won> {
	match guard(site) {
		Ok(buffer) => {
			let zero = buffer.iter().all(|b| *b == 0);
			buffer.fill(pattern);
			Some((buffer.as_ptr() as usize, buffer.len(), zero))
		},
		Err(_) => None,
	}
}

fn pattern(i: usize) -> u8 {
	(i % 250) as u8 + 3
}

/// Does the memory of a buffer that was handed out still have what its owner wrote?
fn intact(won: &Won, pattern: u8) -> bool {
	// The buffer is static memory that nobody else may touch.
	let owned = unsafe { std::slice::from_raw_parts(won.0 as *const u8, won.1) };
	owned.iter().all(|b| *b == pattern)
}

pub struct Report {
	pub evaluations: u64,
	pub panics: u64,
	pub winners: Vec<u8>,
	pub contended: u64,
}

pub fn child(seed: u64, wraps: bool) -> Result<Report, String> {
	let threads = if cfg!(miri) { 3 } else { 8 };
	let sites = sites();
	let won: Vec<Mutex<Vec<(usize, Won)>>> = sites.iter().map(|_| Mutex::new(vec![])).collect();
	let gate = AtomicUsize::new(0);
	let evaluations = AtomicU64::new(0);
	let panics = AtomicU64::new(0);
	// How many threads were inside the evaluation of a site at the same time.
	let inside: Vec<AtomicUsize> = sites.iter().map(|_| AtomicUsize::new(0)).collect();
	let contended = AtomicU64::new(0);
	std::thread::scope(|s| {
		for t in 0..threads {
			let (sites, won, gate, evaluations, panics, inside, contended) = (&sites, &won, &gate, &evaluations, &panics, &inside, &contended);
			s.spawn(move || {
				let mut rng = Rng::new(mix(seed ^ (t as u64) << 32));
				for (i, (_, site)) in sites.iter().enumerate() {
					// Nobody starts on this site before everybody is here.
					gate.fetch_add(1, Ordering::SeqCst);
					let jitter = if rng.chance(1, 2) { rng.usize(60) } else { 0 };
					let mut spins = 0u32;
					while gate.load(Ordering::SeqCst) < (i + 1) * threads {
						spins += 1;
						if spins > 10_000 || cfg!(miri) {
							std::thread::yield_now();
						} else {
							std::hint::spin_loop();
						}
					}
					for _ in 0..jitter {
						std::hint::spin_loop();
					}
					if inside[i].fetch_add(1, Ordering::Relaxed) > 0 {
						contended.fetch_add(1, Ordering::Relaxed);
					}
					let r = evaluate(*site, pattern(i));
					inside[i].fetch_sub(1, Ordering::Relaxed);
					evaluations.fetch_add(1, Ordering::Relaxed);
					match r {
						Some(w) => won[i].lock().unwrap().push((t, w)),
						None => {
							panics.fetch_add(1, Ordering::Relaxed);
						},
					}
				}
			});
		}
	});
	let mut all: Vec<(usize, usize, usize)> = vec![];
	let mut winners = vec![];
	let mut check_won = |i: usize, size: usize, w: &[(usize, Won)], what: &str| -> Result<(), String> {
		check!(w.len() == 1, "{what} {i} (size {size}) was handed out {} times to threads {w:?}", w.len());
		let (_, (at, len, zero)) = w[0];
		check!(len == size, "{what} {i} has {len} bytes instead of {size}");
		check!(zero, "{what} {i} (size {size}) was not zero when it was handed out");
		if len > 0 {
			all.push((at, at + len, i));
		}
		Ok(())
	};
	for (i, (size, _)) in sites.iter().enumerate() {
		let w = won[i].lock().unwrap();
		check_won(i, *size, &w, "occurrence")?;
		winners.push(w[0].0 as u8);
	}
	// Generic code: one occurrence, whatever the types, evaluated by threads that end in between.
	let mut generic: Vec<(usize, Won)> = vec![];
	let instances: [Site; 4] = [in_generic::<u8>, in_generic::<String>, in_generic::<u64>, in_generic::<Vec<u8>>];
	for round in 0..3 {
		for (k, f) in instances.iter().enumerate() {
			let r = std::thread::scope(|s| s.spawn(|| evaluate(*f, 2)).join().unwrap());
			evaluations.fetch_add(1, Ordering::Relaxed);
			generic.extend(r.map(|w| (round * 10 + k, w)));
		}
	}
	// Instantiations of a generic function share its statics.
	check_won(100_000, 40, &generic, "occurrence in generic code")?;
	// A loop.
	let mut looped = vec![];
	for round in 0..5 {
		let r = evaluate(site_in_loop(), 2);
		evaluations.fetch_add(1, Ordering::Relaxed);
		looped.extend(r.map(|w| (round, w)));
	}
	check_won(100_001, 33, &looped, "occurrence in a loop")?;
	// All buffers are disjoint.
	all.sort();
	for w in all.windows(2) {
		check!(
			w[0].1 <= w[1].0,
			"the buffers of occurrences {} and {} overlap: {:#x}..{:#x} and {:#x}..{:#x}",
			w[0].2,
			w[1].2,
			w[0].0,
			w[0].1,
			w[1].0,
			w[1].1
		);
	}
	// Later evaluations of the same occurrences, from this and from new threads, and one very many times.
	let many = match () {
		_ if cfg!(miri) => 4,
		_ if wraps => 70_000,
		_ => 300,
	};
	for (i, (size, site)) in sites.iter().enumerate() {
		let again = if i == 0 { many } else { 2 };
		for k in 0..again {
			if let Some(w) = evaluate(*site, 0) {
				fail!("occurrence {i} (size {size}) was handed out again in evaluation {} after the first: {w:?}", k + 1);
			}
			panics.fetch_add(1, Ordering::Relaxed);
			evaluations.fetch_add(1, Ordering::Relaxed);
		}
	}
	let late = std::thread::scope(|s| {
		s.spawn(|| sites.iter().enumerate().find_map(|(i, (_, site))| evaluate(*site, 0).map(|w| (i, w))))
			.join()
			.unwrap()
	});
	if let Some((i, w)) = late {
		fail!("occurrence {i} was handed out again to a later thread: {w:?}");
	}
	evaluations.fetch_add(sites.len() as u64, Ordering::Relaxed);
	panics.fetch_add(sites.len() as u64, Ordering::Relaxed);
	for (i, w) in won.iter().enumerate() {
		let w = w.lock().unwrap();
		check!(
			intact(&w[0].1, pattern(i)),
			"the contents of the buffer of occurrence {i} were changed by evaluations that panicked"
		);
	}
	// What they are for.
	let port = crate::port::SimPort::default();
	port.reply_with(vec![crate::proto::Pkt::status(1, 0, &[1, 2, 3]).frame()]);
	let mut c = dynamixel2::Client::with_buffers(port, static_buffer!(128), static_buffer!(64)).unwrap();
	let p = guard(|| c.ping(1).map(|p| p.data.model)).map_err(|e| format!("ping with static buffers {e}"))?;
	check!(p.as_ref().ok() == Some(&0x0201), "ping with static buffers gave {p:?}");
	Ok(Report {
		evaluations: evaluations.into_inner(),
		panics: panics.into_inner(),
		winners,
		contended: contended.into_inner(),
	})
}

fn site_in_loop() -> Site {
	|| static_buffer!(33)
}

/// Entry point of the child process.
pub fn child_main(seed: u64, wraps: bool) -> i32 {
	match child(seed, wraps) {
		Ok(r) => {
			let w: String = r.winners.iter().map(|w| char::from(b'0' + w)).collect();
			println!("{} {} {} {w}", r.evaluations, r.panics, r.contended);
			0
		},
		Err(e) => {
			println!("VIOLATED {e}");
			1
		},
	}
}

pub fn run(r: &Run) {
	r.section("processes", 100, |c, i| {
		let seed = mix(c.rng.u64() ^ i);
		let (evaluations, panics, contended, winners) = if cfg!(miri) {
			if i > 0 {
				return Ok(());
			}
			let rep = child(seed, false)?;
			let w: String = rep.winners.iter().map(|w| char::from(b'0' + w)).collect();
			(rep.evaluations, rep.panics, rep.contended, w)
		} else {
			let out = std::process::Command::new(std::env::current_exe().unwrap())
				.args(["C18-child", "--seed", &seed.to_string(), "--scale", if i == 0 { "2" } else { "1" }])
				.output()
				.unwrap();
			let text = String::from_utf8_lossy(&out.stdout).into_owned();
			if let Some(v) = text.strip_prefix("VIOLATED ") {
				fail!("process with seed {seed}: {}", v.trim());
			}
			check!(
				out.status.success(),
				"process with seed {seed} ended with {}: {}",
				out.status,
				String::from_utf8_lossy(&out.stderr)
			);
			let f: Vec<&str> = text.split_whitespace().collect();
			let n = |k: usize| f[k].parse::<u64>().unwrap();
			(n(0), n(1), n(2), f[3].to_string())
		};
		c.eval(evaluations);
		c.count("panics_observed", panics);
		c.count("evaluations_that_overlapped_another", contended);
		for (k, block) in winners.as_bytes().chunks(8).enumerate() {
			let text = String::from_utf8_lossy(block);
			c.distinct(mix(hash_str(k as u64, &text)));
		}
		c.sample(|| format!("threads that won each of the first occurrences: {}", &winners[..winners.len().min(60)]));
		Ok(())
	});
}
