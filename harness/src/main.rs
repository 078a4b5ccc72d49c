//! Runtime monitors for the dynamixel2 crate.
//!
//! usage: dxlmon PROPERTY [--thorough] [--seed N] [--evidence FILE] [--replay-out FILE]
//!                        [--section NAME] [--case N --round N] [--scale N] [--threads N] [--seconds N]
//!
//! exit status 0: held on everything explored; 1: violation (described on stdout and in the replay file);
//! 2: the monitor itself failed or observed nothing.

#![cfg_attr(feature = "only20", allow(dead_code, unused))]

mod au64;
mod common;
mod ctx;
mod ops;
mod port;
mod props;
mod proto;
#[cfg(not(feature = "only20"))]
mod pty;
mod rng;
mod rx;
mod traffic;

use ctx::{Replay, Run, Stats};
use std::collections::BTreeMap;
use crate::au64::AtomicU64;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Global {
	started: Instant,
	evidence: Option<String>,
	replay_out: Option<String>,
	rule: &'static str,
	profile: &'static str,
	cmd: String,
}

static GLOBAL: std::sync::OnceLock<Global> = std::sync::OnceLock::new();

fn main() {
	let mut args = std::env::args().skip(1);
	let prop = args.next().unwrap_or_default();
	let mut thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
	let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let mut evidence = None;
	let mut replay_out = None;
	let mut section = None;
	let mut case = None;
	let mut round = 0;
	let mut scale = 1;
	let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
	let mut seconds = 0;
	let mut rounds = 1;
	let mut dump = None;
	while let Some(a) = args.next() {
		let mut val = || args.next().unwrap_or_else(|| usage(&format!("missing value for {a}")));
		match a.as_str() {
			"--thorough" => thorough = true,
			"--quick" => thorough = false,
			"--seed" => seed = val().parse().unwrap(),
			"--evidence" => evidence = Some(val()),
			"--replay-out" => replay_out = Some(val()),
			"--section" => section = Some(val()),
			"--case" => case = Some(val().parse::<u64>().unwrap()),
			"--round" => round = val().parse().unwrap(),
			"--scale" => scale = val().parse().unwrap(),
			"--threads" => threads = val().parse().unwrap(),
			"--seconds" => seconds = val().parse().unwrap(),
			"--rounds" => rounds = val().parse::<u64>().unwrap(),
			"--dump" => dump = Some(val()),
			_ => usage(&format!("unknown argument {a}")),
		}
	}
	#[cfg(not(feature = "only20"))]
	if prop == "C18-child" {
		ctx::install_panic_hook();
		std::process::exit(props::c18::child_main(seed, scale > 1));
	}
	#[cfg(not(feature = "only20"))]
	if prop == "C27-child" {
		ctx::install_panic_hook();
		std::process::exit(props::c27::child_main(seed));
	}
	let Some(p) = props::ALL.iter().find(|p| p.id == prop) else {
		usage(&format!("unknown property {prop:?}"))
	};
	ctx::install_panic_hook();
	let profile = if cfg!(miri) {
		"miri"
	} else if cfg!(debug_assertions) {
		"dev"
	} else {
		"release"
	};
	let _ = GLOBAL.set(Global {
		started: Instant::now(),
		evidence,
		replay_out,
		rule: p.rule,
		profile,
		cmd: std::env::args().collect::<Vec<_>>().join(" "),
	});
	let started = Instant::now();
	let replay = match (case, &section) {
		(Some(case), Some(section)) => Some(Replay {
			section: section.clone(),
			case,
			round,
		}),
		_ => None,
	};
	let mut run = Run {
		prop: p.id,
		thorough,
		seed,
		round,
		threads,
		replay,
		only_section: section,
		scale,
		stats: Mutex::new(Stats::default()),
		violation: Mutex::new(None),
		harness_error: Mutex::new(None),
		stop: AtomicBool::new(false),
		deadline: None,
		digest: AtomicU64::new(0),
		sections: Mutex::new(BTreeMap::new()),
		digest_dump: dump.map(|d| Mutex::new(std::fs::File::create(d).unwrap())),
	};
	// Round 0 always completes; further rounds (other seeds) fill the requested time.
	(p.run)(&run);
	while run.replay.is_none() && run.round + 1 < rounds && !run.stopped() {
		run.round += 1;
		(p.run)(&run);
	}
	if seconds > 0 && run.replay.is_none() {
		let end = started + Duration::from_secs(seconds);
		run.deadline = Some(end);
		while Instant::now() < end && !run.stopped() {
			run.round += 1;
			(p.run)(&run);
		}
	}
	finish_and_exit(&run);
}

fn usage(msg: &str) -> ! {
	eprintln!("dxlmon: {msg}");
	std::process::exit(2)
}

pub fn finish_and_exit(run: &Run) -> ! {
	let code = finish(run);
	use std::io::Write;
	let _ = std::io::stdout().flush();
	std::process::exit(code)
}

fn finish(run: &Run) -> i32 {
	let g = GLOBAL.get().unwrap();
	let stats = run.stats.lock().unwrap();
	let violation = run.violation.lock().unwrap().clone();
	let harness_error = run.harness_error.lock().unwrap().clone();
	let wall = g.started.elapsed().as_secs_f64();
	if let Some(path) = &g.evidence {
		let mut counts = String::new();
		for (k, v) in &stats.counts {
			if !counts.is_empty() {
				counts.push_str(", ");
			}
			counts.push_str(&format!("{}: {v}", json_str(k)));
		}
		let sections: Vec<String> = run
			.sections
			.lock()
			.unwrap()
			.iter()
			.map(|(k, v)| format!("{}: {v}", json_str(k)))
			.collect();
		let samples: Vec<String> = stats.samples.iter().map(|s| json_str(s)).collect();
		let text = format!(
			"{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"distinct_not_stored\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {{{}}}, \"cases_per_section\": {{{}}}, \"rounds\": {}, \"profile\": {}, \"digest\": \"{:016x}\", \"wall_s\": {:.3}, \"seed\": {}, \"thorough\": {}, \"violations\": {}}}\n",
			stats.evaluations,
			stats.distinct.len(),
			stats.distinct_overflow,
			json_str(g.rule),
			samples.join(", "),
			counts,
			sections.join(", "),
			run.round + 1,
			json_str(g.profile),
			run.digest.load(Ordering::Relaxed),
			wall,
			run.seed,
			run.thorough,
			u8::from(violation.is_some()),
		);
		if let Err(e) = std::fs::write(path, text) {
			eprintln!("dxlmon: can not write {path}: {e}");
			return 2;
		}
	}
	if let Some(e) = harness_error {
		println!("HARNESS-ERROR property={} {e}", run.prop);
		return 2;
	}
	if let Some(mut v) = violation {
		if v.message.chars().count() > 20_000 {
			let end: String = v.message.chars().rev().take(5_000).collect::<Vec<_>>().into_iter().rev().collect();
			v.message = v.message.chars().take(15_000).collect::<String>() + " [...] " + &end;
		}
		let text = format!(
			"property: {}\nseed: {}\ntier: {}\nprofile: {}\nsection: {}\nround: {}\ncase: {}\nwhat: {}\nreplay: dxlmon {} --seed {} {} --scale {} --section {} --case {} --round {}\nfound by: {}\n",
			run.prop,
			run.seed,
			if run.thorough { "thorough" } else { "quick" },
			g.profile,
			v.section,
			v.round,
			v.case,
			v.message,
			run.prop,
			run.seed,
			if run.thorough { "--thorough" } else { "--quick" },
			run.scale,
			v.section,
			v.case,
			v.round,
			g.cmd,
		);
		if let Some(path) = &g.replay_out {
			if let Err(e) = std::fs::write(path, &text) {
				eprintln!("dxlmon: can not write {path}: {e}");
			}
		}
		print!("{text}");
		return 1;
	}
	if stats.evaluations == 0 || (stats.distinct.is_empty() && run.replay.is_none() && run.only_section.is_none()) {
		println!("HARNESS-ERROR property={} nothing was observed", run.prop);
		return 2;
	}
	println!(
		"{} {}: {} evaluations, {} distinct, {:.1} s, digest {:016x}",
		run.prop,
		g.profile,
		stats.evaluations,
		stats.distinct.len(),
		wall,
		run.digest.load(Ordering::Relaxed)
	);
	0
}

pub fn json_str(s: &str) -> String {
	let mut out = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
			c => out.push(c),
		}
	}
	out.push('"');
	out
}
