//! C22: the command line tool, run as a process on pseudo terminals with a simulated motor at the other end.
//!
//! The path of the tool is given in DXL_CLI.

use crate::common::split;
use crate::ctx::{hex, Case, Run};
use crate::proto::{inst, Pkt, BROADCAST};
use crate::pty::{pty, Pty};
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::{check, fail};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const RULE: &str = "the tool is run as a process with generated arguments (all subcommands, IDs, addresses and values with boundaries, valid and invalid) on a pseudo terminal with a scripted motor (value, alert, motor error, wrong ID, wrong size, corrupted, no reply); transmitted bytes, line settings, output and exit status are judged; distinct by arguments and reply";

struct Done {
	status: Option<i32>,
	out: String,
	err: String,
	/// Everything that was transmitted.
	sent: Vec<u8>,
	/// The speed of the line when the instruction arrived.
	baud: u32,
	took: Duration,
}

impl Done {
	fn text(&self) -> String {
		format!("{}\n{}", self.out, self.err)
	}
	fn show(&self) -> String {
		format!("exit status {:?} after {:?}\nstdout: {}\nstderr: {}\ntransmitted: {}", self.status, self.took, self.out.trim_end(), self.err.trim_end(), hex(&self.sent))
	}
}

/// Run the tool; once `want` bytes have been transmitted, send the replies.
fn tool(args: &[String], port: Option<&Pty>, want: usize, replies: &[Vec<u8>], gap: Duration, stdout: Option<&str>, dir: Option<&std::path::Path>) -> Done {
	let path = std::env::var("DXL_CLI").expect("DXL_CLI is not set");
	let mut command = Command::new(path);
	command.args(args).stdin(Stdio::null()).stderr(Stdio::piped()).env_remove("RUST_LOG").env("NO_COLOR", "1");
	match stdout {
		None => command.stdout(Stdio::piped()),
		Some(path) => command.stdout(std::fs::OpenOptions::new().write(true).open(path).unwrap()),
	};
	command.current_dir(dir.unwrap_or(&std::env::temp_dir()));
	let start = Instant::now();
	let mut child = command.spawn().expect("can not run the command line tool");
	let (stdout, stderr) = (child.stdout.take(), child.stderr.take());
	let mut done = Done {
		status: None,
		out: String::new(),
		err: String::new(),
		sent: vec![],
		baud: 0,
		took: Duration::ZERO,
	};
	std::thread::scope(|s| {
		fn all(r: Option<impl Read>) -> String {
			let mut v = vec![];
			if let Some(mut r) = r {
				let _ = r.read_to_end(&mut v);
			}
			String::from_utf8_lossy(&v).into_owned()
		}
		let (out, err) = (s.spawn(|| all(stdout)), s.spawn(|| all(stderr)));
		let mut replied = false;
		loop {
			if let Some(p) = port {
				done.sent.extend(p.sent(1, Duration::from_millis(2)));
				if !replied && want > 0 && done.sent.len() >= want {
					replied = true;
					done.baud = p.termios().c_ospeed;
					for r in replies {
						let _ = (&p.master).write_all(r);
						if !gap.is_zero() {
							std::thread::sleep(gap);
						}
					}
				}
			} else {
				std::thread::sleep(Duration::from_millis(1));
			}
			if let Some(status) = child.try_wait().unwrap() {
				done.status = status.code();
				break;
			}
			if start.elapsed() > Duration::from_secs(60) {
				let _ = child.kill();
				let _ = child.wait();
				break;
			}
		}
		done.took = start.elapsed();
		done.out = out.join().unwrap();
		done.err = err.join().unwrap();
	});
	if let Some(p) = port {
		done.sent.extend(p.sent(1, Duration::from_millis(1)));
	}
	done
}

fn s(x: impl std::fmt::Display) -> String {
	x.to_string()
}

/// The numbers that stand alone in the text.
fn numbers(text: &str) -> Vec<u64> {
	text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == 'µ'))
		.map(|w| w.trim_matches('.'))
		.filter_map(|w| w.parse().ok())
		.collect()
}

/// The value of a hexadecimal note such as `(0x0012 3456)`.
fn hex_notes(text: &str) -> Vec<u64> {
	text.split("(0x")
		.skip(1)
		.filter_map(|t| t.split(')').next())
		.filter_map(|t| u64::from_str_radix(&t.replace([' ', '_'], ""), 16).ok())
		.collect()
}

/// Lists of numbers such as `[1, 2, 3]`.
fn lists(text: &str) -> Vec<Vec<u64>> {
	text.split('[')
		.skip(1)
		.filter_map(|t| t.split(']').next())
		.filter_map(|t| {
			if t.trim().is_empty() {
				return Some(vec![]);
			}
			t.split(',').map(|w| w.trim().parse().ok()).collect()
		})
		.collect()
}

#[derive(Debug, Clone, PartialEq)]
enum Shown {
	/// Nothing in particular.
	Nothing,
	Value(u64),
	Bytes(Vec<u8>),
	Identity(u16, u8),
}

/// A subcommand with its arguments, what it has to transmit, and how many bytes the motor returns.
struct Cmd {
	args: Vec<String>,
	pkt: Pkt,
	/// The number of bytes that the motor returns; `None`: no reply is expected (broadcast).
	reply: Option<usize>,
	shown: fn(&[u8]) -> Shown,
}

fn value(d: &[u8]) -> Shown {
	Shown::Value(d.iter().rev().fold(0, |v, b| v << 8 | u64::from(*b)))
}

const KINDS: u64 = 10;

fn le(n: u64, bytes: usize) -> Vec<u8> {
	(0..bytes).map(|i| (n >> (8 * i)) as u8).collect()
}

fn command(c: &mut Case, kind: u64) -> Cmd {
	let rng = &mut c.rng;
	let id = rng.motor();
	let addr = rng.addr();
	let broadcast = matches!(kind, 1 | 6..=9) && rng.chance(1, 5);
	let to = if broadcast { BROADCAST } else { id };
	let id_text = match broadcast {
		true => s(["broadcast", "BROADCAST", "Broadcast", "254", "bRoAdCaSt"][rng.usize(5)]),
		false => s(id),
	};
	let number = |rng: &mut Rng, bits: u32| {
		let max = u64::MAX >> (64 - bits);
		match rng.below(5) {
			0 => *rng.pick(&[0, 1, max, max - 1, max / 2, max / 2 + 1]),
			1 => rng.u64() & 0xFF,
			_ => rng.u64() & max,
		}
	};
	let a16 = addr.to_le_bytes();
	let ack = |to: u8| if to == BROADCAST { None } else { Some(0) };
	match kind {
		0 => Cmd {
			args: vec![s("ping"), s(id)],
			pkt: Pkt::new(id, inst::PING, vec![]),
			reply: Some(3),
			shown: |d| Shown::Identity(u16::from(d[0]) | u16::from(d[1]) << 8, d[2]),
		},
		1 => Cmd {
			args: vec![s("reboot"), id_text],
			pkt: Pkt::new(to, inst::REBOOT, vec![]),
			reply: ack(to),
			shown: |_| Shown::Nothing,
		},
		2..=4 => {
			let (name, n) = [("read8", 1), ("read16", 2), ("read32", 4)][kind as usize - 2];
			Cmd {
				args: vec![s(name), s(id), s(addr)],
				pkt: Pkt::new(id, inst::READ, [a16, [n, 0]].concat()),
				reply: Some(n.into()),
				shown: value,
			}
		},
		5 => {
			let n = match rng.below(4) {
				0 => *rng.pick(&[0, 1, 2, 255, 256, 257, 300, 513, 1000]),
				1 => rng.range(81, 1100),
				_ => rng.range(0, 80),
			} as u16;
			Cmd {
				args: vec![s("read"), s(id), s(addr), s(n)],
				pkt: Pkt::new(id, inst::READ, [a16, n.to_le_bytes()].concat()),
				reply: Some(n.into()),
				shown: |d| Shown::Bytes(d.to_vec()),
			}
		},
		6..=8 => {
			let (name, n) = [("write8", 1), ("write16", 2), ("write32", 4)][kind as usize - 6];
			let v = number(rng, 8 * n as u32);
			Cmd {
				args: vec![s(name), id_text, s(addr), s(v)],
				pkt: Pkt::new(to, inst::WRITE, [&a16[..], &le(v, n)].concat()),
				reply: ack(to),
				shown: |_| Shown::Nothing,
			}
		},
		_ => {
			let n = rng.usize(*rng.clone().pick(&[4, 30, 80]));
			let data = rng.content(n);
			let mut args = vec![s("write"), id_text, s(addr)];
			args.extend(data.iter().map(s));
			Cmd {
				args,
				pkt: Pkt::new(to, inst::WRITE, [&a16[..], &data].concat()),
				reply: ack(to),
				shown: |_| Shown::Nothing,
			}
		},
	}
}

/// Insert the global options anywhere.
fn with_options(rng: &mut Rng, args: &[String], path: &str, baud: Option<u32>) -> Vec<String> {
	let mut groups: Vec<Vec<String>> = vec![];
	groups.push(match rng.below(3) {
		0 => vec![s("-s"), s(path)],
		1 => vec![s("--serial-port"), s(path)],
		_ => vec![format!("--serial-port={path}")],
	});
	if let Some(b) = baud {
		groups.push(match rng.below(3) {
			0 => vec![s("-b"), s(b)],
			1 => vec![s("--baud-rate"), s(b)],
			_ => vec![format!("--baud-rate={b}")],
		});
	}
	match rng.below(6) {
		0 => groups.push(vec![s("-v")]),
		1 => groups.push(vec![s("-vv")]),
		2 => groups.push(vec![s("--verbose"), s("--verbose"), s("-v")]),
		_ => (),
	}
	let mut all = args.to_vec();
	for g in groups {
		// At the start or at the end: other places are inside the list of values.
		let at = if rng.chance(1, 2) { 0 } else { all.len() };
		all.splice(at..at, g);
	}
	all
}

const BAUDS: &[u32] = &[9600, 57600, 115_200, 1_000_000, 2_000_000, 3_000_000, 4_000_000];

fn failed(d: &Done, what: &str) -> Result<(), String> {
	let Some(status) = d.status else {
		fail!("{what}: the tool did not end by itself: {}", d.show())
	};
	check!(status != 0, "{what}: {}", d.show());
	check!(!d.err.trim().is_empty(), "{what}: fails without an error message: {}", d.show());
	check!(
		!d.text().lines().any(|l| l.trim_end().ends_with(": Ok")),
		"{what}: fails but prints Ok: {}",
		d.show()
	);
	Ok(())
}

/// Run `f` until it agrees: a reply can be late on a busy machine.
fn attempts(c: &mut Case, mut f: impl FnMut() -> Result<Result<(), String>, String>) -> Result<(), String> {
	let mut last = String::new();
	for n in 0..12 {
		match f()? {
			Ok(()) => return Ok(()),
			Err(e) => last = e,
		}
		c.count("repeated_attempts", 1);
		std::thread::sleep(Duration::from_millis(20 * n));
	}
	Err(format!("{last} (in each of 12 attempts)"))
}

/// One command with one kind of reply.
fn commands(c: &mut Case, i: u64) -> Result<(), String> {
	let kind = i % KINDS;
	let cmd = command(c, kind);
	let id = cmd.pkt.id;
	let baud = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(BAUDS)) };
	let frame = cmd.pkt.frame();
	let fate = match cmd.reply {
		None => 100,
		Some(_) => i / KINDS % 16,
	};
	let alert = c.rng.chance(1, 3);
	let flag = if alert { 0x80 } else { 0 };
	let n = cmd.reply.unwrap_or(0);
	let data = c.rng.content(n);
	let good = Pkt::status(id, flag, &data);
	let mut ok = false;
	let mut name = "good";
	let bytes = match fate {
		0..=6 => {
			ok = true;
			good.frame()
		},
		7 | 8 => {
			name = "motor error";
			let e = 1 + c.rng.below(0x7F) as u8;
			// Motors report an error without data, or with what they have.
			let d = if c.rng.chance(1, 2) { &data[..] } else { &[] };
			Pkt::status(id, e | flag, d).frame()
		},
		9 => {
			name = "other motor";
			let other = if c.rng.chance(1, 2) { id ^ 1 } else { id.wrapping_add(3) };
			Pkt::status(other, flag, &data).frame()
		},
		10 => {
			name = "wrong size";
			let mut d = data.clone();
			if n == 0 || c.rng.chance(1, 2) {
				d.push(c.rng.u8());
			} else {
				d.pop();
			}
			Pkt::status(id, flag, &d).frame()
		},
		11 => {
			name = "corrupted";
			let mut f = good.frame();
			let at = c.rng.range(7, f.len() - 1);
			f[at] ^= 1 << c.rng.below(8);
			f
		},
		12 => {
			name = "truncated";
			let f = good.frame();
			let k = c.rng.range(1, f.len() - 1);
			f[..k].to_vec()
		},
		13 => {
			name = "nothing";
			vec![]
		},
		14 => {
			name = "echo";
			frame.clone()
		},
		100 => {
			name = "broadcast";
			ok = true;
			vec![]
		},
		_ => {
			name = "good after noise";
			ok = true;
			let k = c.rng.range(1, 9);
			[crate::common::noise(&mut c.rng, k, &good.frame()), good.frame()].concat()
		},
	};
	// Whether an acknowledgement may carry data is another property's business.
	let unclear = name == "wrong size" && matches!(cmd.reply, Some(0)) || name == "corrupted" && crate::proto::find_frames(&bytes).iter().any(|f| f.pkt == good);
	let piece = *c.rng.pick(&[1000, 1000, 5]);
	let chunks = split(&mut c.rng, &bytes, piece);
	let mut baud_args = vec![];
	let shown = if ok && cmd.reply.is_some() { (cmd.shown)(&data) } else { Shown::Nothing };
	let what = format!("{} with a motor's reply ({name}) {}", cmd.args.join(" "), hex(&bytes));
	let rng = c.rng.clone();
	let mut evals = 0;
	attempts(c, || {
		let p = pty();
		let args = with_options(&mut rng.clone(), &cmd.args, &p.path, baud);
		baud_args = args.clone();
		let d = tool(&args, Some(&p), frame.len(), &chunks, Duration::ZERO, None, None);
		evals += 1;
		check!(
			d.sent == frame,
			"{what}: transmitted {} instead of {}: {args:?}\n{}",
			hex(&d.sent),
			hex(&frame),
			d.show()
		);
		let speed = baud.unwrap_or(57600);
		check!(d.baud == speed, "{what}: the port was set to {} baud instead of {speed}: {args:?}", d.baud);
		if unclear {
			return Ok(Ok(()));
		}
		if !ok || n > 100 && d.status != Some(0) {
			// The tool's buffers need not hold long replies.
			failed(&d, &what)?;
			return Ok(Ok(()));
		}
		if d.status != Some(0) {
			return Ok(Err(format!("{what}: {}", d.show())));
		}
		let text = d.text();
		let verbose = args.iter().any(|a| a.starts_with("-v") || a == "--verbose");
		match &shown {
			Shown::Nothing => (),
			Shown::Value(v) => {
				check!(numbers(&text).contains(v), "{what}: the value {v} is not in the output: {}", d.show());
				for h in hex_notes(&text) {
					check!(h == *v, "{what}: the output shows {h:#X} instead of {v:#X}: {}", d.show());
				}
			},
			Shown::Bytes(b) => {
				let want: Vec<u64> = b.iter().map(|b| u64::from(*b)).collect();
				check!(lists(&text).contains(&want), "{what}: the bytes {b:?} are not in the output: {}", d.show());
			},
			Shown::Identity(m, f) => {
				let n = numbers(&text);
				check!(
					n.contains(&u64::from(*m)) && n.contains(&u64::from(*f)),
					"{what}: model {m} and firmware {f} are not in the output: {}",
					d.show()
				);
			},
		}
		// Traces of the packets may show anything.
		let shows_alert = text.to_lowercase().contains("alert");
		let alert = alert && cmd.reply.is_some();
		check!(
			shows_alert == alert || verbose && shows_alert,
			"{what}: the motor {} an alert: {}",
			if alert { "raised" } else { "did not raise" },
			d.show()
		);
		check!(!d.err.contains("Error") && !d.err.contains("error:"), "{what}: succeeds with an error message: {}", d.show());
		if name == "broadcast" && d.took > Duration::from_secs(5) {
			return Ok(Err(format!("{what}: takes {:?}", d.took)));
		}
		Ok(Ok(()))
	})?;
	c.eval(evals);
	c.count(name, 1);
	c.count(&cmd.args[0], 1);
	c.distinct(hash_bytes(hash_str(fate, &cmd.args.join(" ")), &bytes));
	c.sample(|| format!("{}: {name}", baud_args.join(" ")));
	Ok(())
}

/// A scan lists every motor that answers.
fn scan(c: &mut Case, _: u64) -> Result<(), String> {
	let n = if c.rng.chance(1, 6) { c.rng.range(20, 60) } else { c.rng.usize(6) };
	let ids = crate::ops::distinct_ids(&mut c.rng, n);
	let mut frames = vec![];
	let mut motors = vec![];
	for id in ids {
		if id == BROADCAST {
			continue;
		}
		let (model, fw, alert) = (c.rng.u16(), c.rng.u8(), c.rng.chance(1, 3));
		let pkt = Pkt::status(id, if alert { 0x80 } else { 0 }, &[model as u8, (model >> 8) as u8, fw]);
		if c.rng.chance(1, 5) {
			let mut f = pkt.frame();
			let at = f.len() - 1 - c.rng.usize(3);
			f[at] ^= 0x10;
			frames.push(f);
			motors.push((id, model, fw, alert, false));
		} else {
			frames.push(pkt.frame());
			motors.push((id, model, fw, alert, true));
		}
	}
	// A corrupted reply may have swallowed its successor if the length was hit; it never is (see above).
	let baud = *c.rng.pick(&[1_000_000, 3_000_000]);
	let id = s(*c.rng.pick(&["broadcast", "BroadCast", "254"]));
	let frame = Pkt::new(BROADCAST, inst::PING, vec![]).frame();
	let what = format!("ping {id} with replies {motors:?}");
	let gap = Duration::from_micros(c.rng.below(2000));
	let rng = c.rng.clone();
	attempts(c, || {
		let p = pty();
		let args = with_options(&mut rng.clone(), &[s("ping"), id.clone()], &p.path, Some(baud));
		let d = tool(&args, Some(&p), frame.len(), &frames, gap, None, None);
		check!(d.sent == frame, "{what}: transmitted {} instead of {}", hex(&d.sent), hex(&frame));
		check!(d.baud == baud, "{what}: the port was set to {} baud instead of {baud}", d.baud);
		check!(d.status == Some(0), "{what}: {}", d.show());
		// One block per motor.
		let text = d.text();
		let mut blocks: Vec<String> = vec![];
		for l in text.lines() {
			if l.contains("Motor ID") {
				blocks.push(String::new());
			}
			if let Some(b) = blocks.last_mut() {
				if !l.contains("Error") && !l.contains("Trace") {
					b.push_str(l);
					b.push('\n');
				}
			}
		}
		let good: Vec<_> = motors.iter().filter(|m| m.4).collect();
		check!(blocks.len() <= good.len(), "{what}: {} motors are listed: {}", blocks.len(), d.show());
		if blocks.len() < good.len() {
			return Ok(Err(format!("{what}: {} motors are listed: {}", blocks.len(), d.show())));
		}
		for (b, (id, model, fw, alert, _)) in blocks.iter().zip(good) {
			let after = |key: &str| {
				b.lines()
					.find_map(|l| l.to_lowercase().split_once(key).map(|(_, v)| v.trim_matches(|c: char| !c.is_ascii_digit()).to_string()))
			};
			for (key, v) in [("motor id", s(id)), ("model", s(model)), ("firmware", s(fw))] {
				check!(after(key).as_deref() == Some(&v), "{what}: {key} {v} is listed as {:?}: {}", after(key), d.show());
			}
			check!(b.to_lowercase().contains("alert") == *alert, "{what}: the alert of motor {id} is {alert}: {}", d.show());
		}
		let bad = motors.iter().filter(|m| !m.4).count();
		let errors = text.lines().filter(|l| l.contains("Error") || l.contains("error")).count();
		if errors < bad {
			return Ok(Err(format!("{what}: {errors} errors for {bad} corrupted replies: {}", d.show())));
		}
		check!(errors == 0 || bad > 0, "{what}: {errors} errors for no corrupted reply: {}", d.show());
		Ok(Ok(()))
	})?;
	c.eval(1);
	c.count("scans", 1);
	c.count("motors_found", motors.len() as u64);
	c.distinct(hash_str(0, &what));
	Ok(())
}

/// Bad arguments, broadcast reads and broken ports: an error, and nothing is transmitted.
fn refused(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let b = s(*c.rng.pick(&["broadcast", "Broadcast", "254", "BROADCAST"]));
	let big8 = s(c.rng.range(256, 5000));
	let big16 = s(c.rng.range(65536, 10_000_000));
	let big32 = s((1u64 << 32) + c.rng.below(1 << 40));
	let neg = format!("-{}", c.rng.range(1, 300));
	let word = s(*c.rng.pick(&["x", "", " ", "1.0", "1e1", "12a", "broadcasts", "all", "0b1", "one"]));
	let id = s(c.rng.motor());
	let mut n = 0;
	let mut list: Vec<Vec<&str>> = vec![
		vec!["read8", &b, "1"],
		vec!["read16", &b, "1"],
		vec!["read32", &b, "65535"],
		vec!["read", &b, "1", "4"],
		vec!["ping", &big8],
		vec!["reboot", &big8],
		vec!["ping", &neg],
		vec!["ping", &word],
		vec!["reboot", &word],
		vec!["read8", &big8, "1"],
		vec!["read8", &word, "1"],
		vec!["read8", &id, &big16],
		vec!["read16", &id, &neg],
		vec!["read32", &id, &word],
		vec!["read32", &id, &big16],
		vec!["read", &id, "1", &big16],
		vec!["read", &id, "1", &word],
		vec!["read", &id, &big16, "1"],
		vec!["write8", &id, "1", &big8],
		vec!["write8", &id, "1", &neg],
		vec!["write8", &id, "1", &word],
		vec!["write8", &id, &big16, "1"],
		vec!["write8", &big8, "1", "1"],
		vec!["write16", &id, "1", &big16],
		vec!["write16", &id, "1", &word],
		vec!["write16", &id, "1", &neg],
		vec!["write32", &id, "1", &big32],
		vec!["write32", &id, "1", &neg],
		vec!["write32", &b, "1", &word],
		vec!["write", &id, "1", "1", &big8],
		vec!["write", &id, "1", &neg],
		vec!["write", &id, &big16, "1"],
		vec!["write", &word, "1", "1"],
		vec!["ping"],
		vec!["reboot"],
		vec!["read8", &id],
		vec!["read16"],
		vec!["read", &id, "1"],
		vec!["write8", &id, "1"],
		vec!["write16", &id],
		vec!["write"],
		vec!["ping", &id, "2"],
		vec!["reboot", &id, &b],
		vec!["read8", &id, "1", "1"],
		vec!["write8", &id, "1", "1", "1"],
		vec!["unknown", &id],
		vec!["shell-completion"],
		vec!["shell-completion", "--shell", "tcsh-9"],
		vec![],
		vec!["ping", &id, "--unknown"],
		vec!["-b", &word, "ping", &id],
		vec!["-b", &neg, "ping", &id],
		vec!["-b", "99999999999", "ping", &id],
	];
	let k = i as usize % list.len();
	let args: Vec<String> = list.swap_remove(k).into_iter().map(s).collect();
	let full: Vec<String> = [vec![s("-s"), p.path.clone()], args.clone()].concat();
	let d = tool(&full, Some(&p), 0, &[], Duration::ZERO, None, None);
	n += 1;
	check!(d.sent.is_empty(), "{args:?} transmitted {}: {}", hex(&d.sent), d.show());
	failed(&d, &format!("{args:?}"))?;
	// The same on a broken port, with good arguments.
	let kind = c.rng.below(KINDS);
	let cmd = command(c, kind);
	let path = *c.rng.pick(&["/nonexistent/port", "/dev/null", "/", "", "/proc/self/status"]);
	let full: Vec<String> = [vec![s("-s"), s(path)], cmd.args].concat();
	let d = tool(&full, None, 0, &[], Duration::ZERO, None, None);
	failed(&d, &format!("{full:?}"))?;
	n += 1;
	// Too long for the tool's buffers: an error, nothing is transmitted.
	if i % 6 == 0 {
		let len = c.rng.range(117, 400);
		let mut full = vec![s("-s"), p.path.clone(), s("write"), id, s(7)];
		full.extend((0..len).map(|_| s(3)));
		let d = tool(&full, Some(&p), 0, &[], Duration::ZERO, None, None);
		if !d.sent.is_empty() {
			let expect = Pkt::new(full[3].parse().unwrap(), inst::WRITE, [&[7, 0][..], &vec![3; len]].concat());
			check!(d.sent == expect.frame(), "a write of {len} bytes transmitted {}", hex(&d.sent));
		}
		failed(&d, &format!("a write of {len} bytes"))?;
		n += 1;
	}
	c.eval(n);
	c.count("refused", n);
	c.distinct(hash_str(0, &args.join(" ")));
	Ok(())
}

/// The port disappears during the command.
fn unplugged(c: &mut Case, _: u64) -> Result<(), String> {
	let kind = c.rng.below(KINDS);
	let cmd = command(c, kind);
	if cmd.reply.is_none() {
		return Ok(());
	}
	let p = pty();
	let args: Vec<String> = [vec![s("-s"), p.path.clone()], cmd.args.clone()].concat();
	let frame = cmd.pkt.frame();
	let path = std::env::var("DXL_CLI").expect("DXL_CLI is not set");
	let start = Instant::now();
	let child = Command::new(path)
		.args(&args)
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.expect("can not run the command line tool");
	// Only once the tool has opened it: the name may be reused after that.
	let sent = p.sent(frame.len(), Duration::from_secs(20));
	drop(p);
	let o = child.wait_with_output().unwrap();
	let d = Done {
		status: o.status.code(),
		out: String::from_utf8_lossy(&o.stdout).into_owned(),
		err: String::from_utf8_lossy(&o.stderr).into_owned(),
		sent,
		baud: 0,
		took: start.elapsed(),
	};
	failed(&d, &format!("{:?} on a port that is unplugged", cmd.args))?;
	c.eval(1);
	c.count("unplugged", 1);
	c.distinct(hash_str(kind, &cmd.args.join(" ")));
	Ok(())
}

const SHELLS: &[&str] = &["bash", "elvish", "fish", "powershell", "zsh"];
const NAMES: &[&str] = &["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write", "shell-completion"];

struct Scratch(std::path::PathBuf);

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

fn completion(c: &mut Case, i: u64) -> Result<(), String> {
	let shell = SHELLS[i as usize % SHELLS.len()];
	let dir = Scratch(std::env::temp_dir().join(format!("dxlmon-{}-{i}-{}", std::process::id(), c.rng.u64())));
	std::fs::create_dir(&dir.0).unwrap();
	let p = pty();
	let go = |extra: &[&str], stdout: Option<&str>| {
		let mut args = vec![s("-s"), p.path.clone(), s("shell-completion"), s("--shell"), s(shell)];
		args.extend(extra.iter().map(s));
		tool(&args, Some(&p), 0, &[], Duration::ZERO, stdout, Some(&dir.0))
	};
	let reference = go(&[], None);
	let what = format!("shell-completion --shell {shell}");
	check!(reference.status == Some(0), "{what}: {}", reference.show());
	let script = reference.out.clone();
	for name in NAMES {
		check!(script.contains(name), "{what}: the script does not mention {name}");
	}
	check!(script.contains("dynamixel2"), "{what}: the script does not mention the command");
	check!(script.ends_with('\n'), "{what}: the script has no final line end");
	if shell == "bash" {
		let mut sh = Command::new("bash").arg("-n").stdin(Stdio::piped()).stderr(Stdio::piped()).stdout(Stdio::null()).spawn().unwrap();
		sh.stdin.take().unwrap().write_all(script.as_bytes()).unwrap();
		let o = sh.wait_with_output().unwrap();
		check!(o.status.success(), "{what}: no valid script: {}", String::from_utf8_lossy(&o.stderr));
	}
	// An explicit destination.
	let file = dir.0.join("completion file");
	let name = file.to_str().unwrap();
	let d = match c.rng.below(3) {
		0 => go(&["-o", name], None),
		1 => {
			// What was there before is replaced.
			std::fs::write(&file, "old content\n".repeat(20_000)).unwrap();
			go(&["--output", name], None)
		},
		_ => go(&["--output", "completion file"], None),
	};
	check!(d.status == Some(0), "{what} to a file: {}", d.show());
	check!(d.out.is_empty(), "{what} to a file also writes to standard output: {}", d.show());
	let got = std::fs::read(&file).map_err(|e| format!("{what} to a file: no file: {e}"))?;
	check!(got == script.as_bytes(), "{what} to a file: {} bytes differ from the {} bytes of standard output", got.len(), script.len());
	check!(std::fs::read_dir(&dir.0).unwrap().count() == 1, "{what}: other files were written too");
	let d = go(&["-o", "-"], None);
	check!(d.status == Some(0) && d.out == script, "{what} to -: {}", d.show());
	check!(std::fs::read_dir(&dir.0).unwrap().count() == 1, "{what} to -: a file was written");
	// A destination that can not be written.
	failed(&go(&["-o", "/dev/full"], None), &format!("{what} to a full device"))?;
	failed(&go(&[], Some("/dev/full")), &format!("{what} with a full standard output"))?;
	failed(&go(&["-o", "/nonexistent/dir/file"], None), &format!("{what} into a missing directory"))?;
	failed(&go(&["-o", dir.0.to_str().unwrap()], None), &format!("{what} to a directory"))?;
	check!(p.sent(0, Duration::ZERO).is_empty(), "{what} transmitted something");
	c.eval(7);
	c.count("scripts", 3);
	c.distinct(i % SHELLS.len() as u64);
	Ok(())
}

pub fn run(r: &Run) {
	r.section("commands", 640, commands);
	r.section("scan", 40, scan);
	r.section("refused", 106, refused);
	r.section("unplugged", 40, unplugged);
	r.section("completion", 10, completion);
}
