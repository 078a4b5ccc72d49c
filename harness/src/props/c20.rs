//! C20: the same behaviour in every feature, build and buffer configuration, with or without logging.
//!
//! Sessions are generated from a seed alone. Their transcript (all port events and results) must be the same with
//! every type of buffer; its digest must be the same in every build configuration (compared by run.py).

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{random_op, Drive, Via, E};
use crate::port::{Ev, Fault, Kind, SimPort};
use crate::proto::Pkt;
use crate::rng::{hash_str, mix, Rng};
use crate::rx::dec;
use crate::traffic::{damage, hostile};
use crate::check;
use dynamixel2::{Client, Device};
use std::cell::RefCell;
use std::time::Duration;

pub const RULE: &str = "random client and device sessions (all operations, good, damaged, hostile and missing replies, port failures, baud rate changes) give the same port events and results with vectors, boxed slices, arrays and borrowed slices with junk, and the same digest in every feature set, profile and log level; log records are compared with the transmitted bytes; distinct by transcript";

pub type Text = Vec<String>;

fn event(e: &Ev) -> String {
	match e {
		Ev::Write { bytes, err } => format!("write {} {err:?}", hex(bytes)),
		Ev::Read { cap, deadline, now, got, err } => format!("read into {cap} bytes at {now} until {deadline}: {} {err:?}", hex(got)),
		e => format!("{e:?}"),
	}
}

fn events(port: &SimPort, t: &mut Text) {
	t.extend(port.take_events().iter().map(event));
}

pub fn client_script<B: AsRef<[u8]> + AsMut<[u8]>>(rng: &mut Rng, port: &SimPort, cl: &mut Client<SimPort, B>, t: &mut Text, clean: bool) {
	t.push(format!("baud rate {}", cl.baud_rate()));
	for _ in 0..rng.range(1, 4) {
		let kind = rng.below(26);
		let op = random_op(rng, kind, 40);
		let mut at = 0;
		let mut chunks = vec![];
		for p in good_replies(rng, &op) {
			let f = p.frame();
			let bytes = if clean {
				f
			} else {
				match rng.below(12) {
					0 => damage(rng, &f),
					1 => hostile(rng, 40),
					2 => vec![],
					3 => [noise(rng, 5, &f), f].concat(),
					4 => {
						let n = rng.usize(12);
						let err = rng.u8();
						let id = rng.id();
						Pkt::status(id, err, &rng.content(n)).frame()
					},
					_ => f,
				}
			};
			at += *rng.pick(&[0, 0, 1, MS, 20 * MS, 60 * MS]) * u64::from(!clean);
			let piece = *rng.pick(&[1, 3, 100]);
			for p in split(rng, &bytes, piece) {
				chunks.push((at, p));
			}
		}
		port.respond(move |core, _| {
			for (at, c) in &chunks {
				core.push(*at, c.clone());
			}
		});
		if !clean && rng.chance(1, 8) {
			let kind = if rng.chance(1, 2) { Kind::Timeout } else { Kind::Other };
			let mut core = port.core();
			let n = core.calls + rng.below(5);
			core.fault = Fault::At(n, kind);
		}
		if rng.chance(1, 10) {
			let baud = *rng.pick(&[9600, 57600, 115_200, 1_000_000, 4_500_000]);
			t.push(format!("set baud rate {baud}: {:?}, now {}", cl.set_baud_rate(baud), cl.baud_rate()));
		}
		let drive = Drive {
			via: *rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
			take: *rng.pick(&[usize::MAX, usize::MAX, 1]),
		};
		let (via, all) = (drive.via, drive.take != 1);
		match guard(|| op.run(cl, drive)) {
			Ok(out) => t.push(format!("{op:?} {via:?} {all}: {out:?}")),
			Err(_) => {
				t.push(format!("{op:?} {via:?} {all}: panic"));
				events(port, t);
				return;
			},
		}
		events(port, t);
		if rng.chance(1, 6) {
			let r = guard(|| {
				cl.read_status_response_timeout(Duration::from_micros(10))
					.map(|s| (s.packet_id(), s.error(), s.parameters().to_vec()))
					.map_err(E::from)
			});
			t.push(format!("further packet: {:?}", r.map_err(|_| "panic")));
			events(port, t);
		}
		port.core().now += SEC;
	}
}

pub fn device_script<B: AsRef<[u8]> + AsMut<[u8]>>(rng: &mut Rng, port: &SimPort, dev: &mut Device<SimPort, B>, t: &mut Text, clean: bool) {
	t.push(format!("baud rate {}", dev.baud_rate()));
	let mut at = 0;
	for _ in 0..rng.range(1, 5) {
		let kind = rng.below(26);
		let f = random_op(rng, kind, 30).packet().frame();
		let bytes = if clean {
			f
		} else {
			match rng.below(8) {
				0 => damage(rng, &f),
				1 => hostile(rng, 60),
				2 => [noise(rng, 5, &f), f].concat(),
				_ => f,
			}
		};
		at += *rng.pick(&[0, 0, 1, MS]);
		let piece = *rng.pick(&[1, 7, 100]);
		for p in split(rng, &bytes, piece) {
			port.push(at, p);
		}
	}
	for _ in 0..rng.range(2, 10) {
		if !clean && rng.chance(1, 12) {
			let mut core = port.core();
			let n = core.calls + rng.below(3);
			core.fault = Fault::At(n, Kind::Other);
		}
		let n = rng.usize(30);
		let (id, err, data) = (rng.id(), rng.u8(), rng.content(n));
		let what = rng.below(5);
		let timeout = Duration::from_nanos(*rng.pick(&[0, 1, MS, 3 * MS]));
		let r = guard(|| match what {
			0 => match dev.write_status(id, err, data.len(), crate::ops::encoder(&data)) {
				Ok(()) => "sent".to_string(),
				Err(e) => format!("{:?}", E::from(e)),
			},
			1 => match dev.write_status_error(id, err) {
				Ok(()) => "sent".to_string(),
				Err(e) => format!("{:?}", E::from(e)),
			},
			2 => match dev.read_raw_instruction_timeout(timeout) {
				Ok(p) => format!("{} {} {}", p.packet_id(), p.instruction_id(), hex(p.parameters())),
				Err(e) => format!("{:?}", E::from(e)),
			},
			_ => match dev.read(timeout) {
				Ok(i) => format!("{:?}", dec(&i)),
				Err(e) => format!("{:?}", E::from(e)),
			},
		});
		let stop = r.is_err();
		t.push(format!("call {what}: {:?}", r.map_err(|_| "panic")));
		events(port, t);
		if stop {
			return;
		}
	}
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Buf {
	Vec,
	Boxed,
	Array,
	Slice,
	/// What `new()` allocates.
	#[cfg(feature = "alloc")]
	Default,
}

/// Run a session with 128 byte (or given size) buffers of this kind, filled with junk.
fn session(seed: u64, client: bool, clean: bool, buf: Buf, sizes: (usize, usize)) -> Text {
	let mut rng = Rng::new(seed);
	let mut t = vec![];
	let port = SimPort::new(*rng.pick(&[9600, 57600, 1_000_000]));
	{
		let mut core = port.core();
		core.max_read = *rng.pick(&[1, 9, usize::MAX, usize::MAX]);
		core.scribble = !clean && rng.chance(1, 3);
		core.baud_error = !clean && rng.chance(1, 30);
		core.set_budget(100_000);
	}
	let junk = mix(seed ^ buf as u64);
	let fill = |n: usize, k: u64| crate::port::junk_buffer(n, junk ^ k);
	macro_rules! go {
		($new:expr, $script:ident) => {
			match $new {
				Ok(mut x) => {
					$script(&mut rng, &port, &mut x, &mut t, clean);
					let p = x.into_serial_port();
					t.push(format!("unread input: {}", p.core().pending()));
				},
				Err(e) => t.push(format!("not created: {e:?}")),
			}
		};
	}
	macro_rules! both {
		($a:expr, $b:expr) => {
			if client {
				go!(Client::with_buffers(port.clone(), $a, $b), client_script)
			} else {
				go!(Device::with_buffers(port.clone(), $a, $b), device_script)
			}
		};
	}
	match buf {
		Buf::Vec => both!(fill(sizes.0, 1), fill(sizes.1, 2)),
		Buf::Boxed => both!(fill(sizes.0, 1).into_boxed_slice(), fill(sizes.1, 2).into_boxed_slice()),
		Buf::Array => {
			let a = |k| -> [u8; 128] { fill(128, k).try_into().unwrap() };
			both!(a(1), a(2))
		},
		Buf::Slice => {
			let mut m = fill(sizes.0 + sizes.1, 3);
			let (a, b) = m.split_at_mut(sizes.0);
			both!(a, b)
		},
		#[cfg(feature = "alloc")]
		Buf::Default => {
			if client {
				go!(Client::new(port.clone()), client_script)
			} else {
				go!(Device::new(port.clone()), device_script)
			}
		},
	}
	t
}

/// Things in which a platform with another byte order or pointer width might differ: long waits, large sizes, lengths.
fn arithmetic(rng: &mut Rng) -> Text {
	let mut t = vec![];
	let baud = match rng.below(4) {
		0 => *rng.pick(&[1u32, 9600, 57_600, 4_500_000, u32::MAX, u32::MAX / 2]),
		1 => rng.below(1000) as u32 + 1,
		_ => (rng.u64() >> (32 + rng.below(31))) as u32 + 1,
	};
	let port = SimPort::new(baud);
	port.set_budget(2000);
	let rbuf = *rng.pick(&[7usize, 14, 64, 128]);
	let mut cl = client(&port, rbuf, 64);
	t.push(format!("{baud} baud"));
	for _ in 0..3 {
		let n = *rng.pick(&[0, 1, 4, 255, 256, 32_767, 65_524, 65_535, rng.clone().u16()]);
		let r = guard(|| cl.read_status_response(n).map(|p| p.packet_id()).map_err(E::from));
		t.push(format!("reply with {n} parameters: {r:?}"));
	}
	// A header announcing any length.
	let len = *rng.pick(&[0u16, 2, 3, 4, 0x7FFF, 0x8000, 0xFFFD, 0xFFFF, rng.clone().u16()]);
	let mut f = crate::proto::PREFIX.to_vec();
	f.extend([rng.id(), len as u8, (len >> 8) as u8, 0x55, 0, 1, 2]);
	port.push(0, f);
	let ms = Duration::from_millis(1 + rng.below(1 << 40));
	let r = guard(|| cl.read_status_response_timeout(ms).map(|p| p.packet_id()).map_err(E::from));
	t.push(format!("{ms:?} for a packet of length {len:#06X}: {r:?}"));
	// Sizes around every limit in too small buffers.
	let ids: Vec<u8> = (0..rng.below(200) as u8).collect();
	let count = *rng.pick(&[1u16, 255, 256, 300, 65_535]);
	let op = match rng.below(5) {
		0 => crate::ops::Op::ReadBytes { id: 1, addr: 0x1234, count },
		1 => crate::ops::Op::SyncReadBytes { ids, addr: 0xFEDC, count },
		2 => crate::ops::Op::WriteBytes {
			id: 2,
			addr: 0x00FF,
			data: vec![7; rng.usize(100)],
		},
		3 => crate::ops::Op::BulkRead {
			reads: ids.iter().map(|i| (*i, 0x102 * u16::from(*i), count)).collect(),
		},
		_ => crate::ops::Op::Scan,
	};
	let r = guard(|| op.run(&mut cl, Drive { via: Via::Iter, take: 2 }));
	t.push(format!("{op:?}: {r:?}"));
	// Typed values in both directions.
	let mut cl = client(&port, 64, 64);
	for _ in 0..3 {
		let ty = *rng.pick(crate::ops::Ty::ALL);
		let op = if rng.chance(1, 2) {
			crate::ops::Op::Write {
				id: 1,
				addr: rng.u16(),
				ty,
				val: rng.bytes(ty.size()),
			}
		} else {
			crate::ops::Op::Read { id: 1, addr: rng.u16(), ty }
		};
		let replies = good_replies(rng, &op);
		port.reply_with(replies.iter().map(|p| p.frame()).collect());
		let r = guard(|| op.run(&mut cl, crate::ops::FULL));
		t.push(format!("{op:?}: {r:?}"));
	}
	let mut dev = match Device::with_buffers(port.clone(), vec![0; rbuf], vec![0; 64]) {
		Ok(dev) => dev,
		Err(e) => {
			t.push(format!("{e:?}"));
			return t;
		},
	};
	let n = *rng.pick(&[0usize, 52, 53, 54, 55, 65_525, 65_530, 65_536, 131_072, usize::MAX >> 1 & 0x7FFF_0000]);
	let r = guard(|| {
		dev.write_status(1, 0, n, |b| {
			b.fill(9);
			Ok(())
		})
		.map_err(E::from)
	});
	t.push(format!("a status of {n} bytes: {r:?}"));
	events(&port, &mut t);
	t
}

/// What differs, in a few words.
pub fn compare(a: &Text, b: &Text, what: &str) -> Result<(), String> {
	for (i, (x, y)) in a.iter().zip(b).enumerate() {
		check!(x == y, "{what} (line {i}):\n  {x}\n  {y}");
	}
	check!(a.len() == b.len(), "{what}: {} and {} lines", a.len(), b.len());
	Ok(())
}

fn note(c: &mut Case, t: &Text) {
	c.eval(1);
	c.count("transcript_lines", t.len() as u64);
	let h = t.iter().fold(0, |h, l| hash_str(h, l));
	c.distinct(h);
}

// ---- Logging ---------------------------------------------------------------------------------------------------------

thread_local! {
	static RECORDS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

struct Logger;

impl log::Log for Logger {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, r: &log::Record) {
		// Always formatted, so that formatting is part of what is observed.
		let text = format!("{}", r.args());
		RECORDS.with(|x| {
			if let Some(v) = &mut *x.borrow_mut() {
				if r.target().starts_with("dynamixel2") {
					v.push(text);
				}
			}
		});
	}
	fn flush(&self) {}
}

static LOGGER: Logger = Logger;

/// The longest runs of two digit hexadecimal numbers in a record.
#[cfg(feature = "liblog")]
fn byte_lists(text: &str) -> Vec<Vec<u8>> {
	let mut all = vec![];
	let mut run = vec![];
	for word in text.split(|c: char| !c.is_ascii_alphanumeric()) {
		if word.is_empty() {
			continue;
		}
		let digits = word.strip_prefix("0x").unwrap_or(word);
		match u8::from_str_radix(digits, 16) {
			Ok(b) if digits.len() == 2 => run.push(b),
			_ => {
				if run.len() >= 4 {
					all.push(std::mem::take(&mut run));
				}
				run.clear();
			},
		}
	}
	if run.len() >= 4 {
		all.push(run);
	}
	all
}

#[cfg(feature = "liblog")]
fn contains(hay: &[u8], needle: &[u8]) -> bool {
	hay.windows(needle.len()).any(|w| w == needle)
}

#[cfg(feature = "liblog")]
fn logged(c: &mut Case, i: u64) -> Result<(), String> {
	let kind = c.rng.below(26);
	let op = random_op(&mut c.rng, kind, 40);
	let replies = good_replies(&mut c.rng, &op);
	let port = SimPort::default();
	let mut incoming = vec![];
	for p in &replies {
		if c.rng.chance(1, 4) {
			let n = c.rng.range(1, 9);
			incoming.extend(noise(&mut c.rng, n, &p.frame()));
		}
		incoming.extend(p.frame());
	}
	let as_device = i % 3 == 2;
	let frame = op.packet().frame();
	let mut unstuffed = vec![];
	let record = |f: &mut dyn FnMut()| {
		RECORDS.with(|x| *x.borrow_mut() = Some(vec![]));
		f();
		RECORDS.with(|x| x.borrow_mut().take()).unwrap()
	};
	let what = op_text(&op);
	let (records, received) = if as_device {
		let n = c.rng.usize(9);
		let mut s = noise(&mut c.rng, n, &frame);
		s.extend(&frame);
		incoming = s.clone();
		port.push(0, s);
		let mut d = device(&port, 400, 400);
		let n = c.rng.usize(30);
		let (id, data) = (c.rng.id(), c.rng.content(n));
		let mut ok = false;
		let r = record(&mut || {
			ok = matches!(guard(|| d.read_raw_instruction_timeout(Duration::from_micros(1)).map(|_| ()).is_ok()), Ok(true));
			let _ = guard(|| d.write_status(id, 3, data.len(), crate::ops::encoder(&data)).is_ok());
		});
		(r, if ok { vec![op.packet()] } else { vec![] })
	} else {
		let chunks = vec![incoming.clone()];
		port.reply_with(chunks);
		let mut cl = client(&port, 400, 400);
		let mut out = None;
		let drive = Drive {
			via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
			take: usize::MAX,
		};
		let r = record(&mut || out = run_op(&mut cl, &op, drive).ok());
		let good = out.is_some_and(|o| o == good_outcome(&op, &replies));
		(r, if good { replies.clone() } else { vec![] })
	};
	for p in replies.iter().chain([&op.packet()]) {
		let mut u = p.frame()[..7].to_vec();
		u.push(p.instruction);
		u.extend_from_slice(&p.params);
		unstuffed.push(u);
	}
	let lists: Vec<Vec<u8>> = records.iter().flat_map(|r| byte_lists(r)).collect();
	let sent = port.writes();
	for w in &sent {
		check!(
			lists.iter().any(|l| l == w || l == &w[..w.len() - 2]),
			"{what}: the transmitted packet {} is in no log record: {records:?}",
			hex(w)
		);
	}
	for p in &received {
		let f = p.frame();
		let u = unstuffed.iter().find(|u| u[4] == p.id && u[7] == p.instruction && u[8..] == p.params[..]);
		check!(
			lists
				.iter()
				.any(|l| *l == f || l == &f[..f.len() - 2] || u.is_some_and(|u| l == u)),
			"{what}: the received packet {} is in no log record: {records:?}",
			hex(&f)
		);
	}
	for l in &lists {
		check!(
			contains(&incoming, l) || sent.iter().any(|w| contains(w, l)) || unstuffed.iter().any(|u| contains(u, l)),
			"{what}: a log record lists {}, which was neither sent nor received ({} received): {records:?}",
			hex(l),
			hex(&incoming)
		);
	}
	c.eval(1);
	c.count("log_records_with_bytes", lists.len() as u64);
	c.count("log_records", records.len() as u64);
	c.distinct(mix(hash_str(lists.len() as u64, &format!("{op:?}"))));
	c.sample(|| format!("{what}: {records:?}"));
	Ok(())
}

pub fn run(r: &Run) {
	let _ = log::set_logger(&LOGGER);
	let level = match std::env::var("DXL_LOG").as_deref() {
		Ok("off") => log::LevelFilter::Off,
		Ok("error") => log::LevelFilter::Error,
		Ok("warn") => log::LevelFilter::Warn,
		Ok("info") => log::LevelFilter::Info,
		Ok("debug") => log::LevelFilter::Debug,
		_ => log::LevelFilter::Trace,
	};
	log::set_max_level(level);
	// The digest of these sessions is compared between configurations.
	r.section("probe", 12_000, |c, i| {
		let seed = c.rng.u64();
		let sizes = (*c.rng.pick(&[14usize, 20, 33, 64, 128, 300]), *c.rng.pick(&[14usize, 24, 40, 128, 300]));
		let buf = [Buf::Vec, Buf::Slice, Buf::Boxed][(i % 3) as usize];
		let t = session(seed, i % 4 < 3, i % 5 == 0, buf, sizes);
		for l in &t {
			c.digest(hash_str(1, l));
		}
		if c.replaying {
			if let Ok(path) = std::env::var("DXL_TRANSCRIPT") {
				std::fs::write(path, t.join("\n")).unwrap();
			}
		}
		note(c, &t);
		c.sample(|| t.iter().take(3).cloned().collect::<Vec<_>>().join(" | "));
		Ok(())
	});
	// Compared between platforms only.
	if std::env::var_os("DXL_PLATFORM").is_some() {
		r.section("arithmetic", 24_000, |c, _| {
			let t = arithmetic(&mut c.rng);
			for l in &t {
				c.digest(hash_str(2, l));
			}
			if c.replaying {
				if let Ok(path) = std::env::var("DXL_TRANSCRIPT") {
					std::fs::write(path, t.join("\n")).unwrap();
				}
			}
			note(c, &t);
			Ok(())
		});
		return;
	}
	r.section("buffers", 4_000, |c, i| {
		let seed = c.rng.u64();
		let (client, clean) = (i % 4 < 3, i % 5 == 0);
		let reference = session(seed, client, clean, Buf::Vec, (128, 128));
		for buf in [
			Buf::Boxed,
			Buf::Array,
			Buf::Slice,
			#[cfg(feature = "alloc")]
			Buf::Default,
		] {
			let t = session(seed, client, clean, buf, (128, 128));
			compare(&reference, &t, &format!("a session with a Vec and with {buf:?} buffers of 128 bytes differs"))?;
			c.count("sessions_compared", 1);
		}
		note(c, &reference);
		Ok(())
	});
	#[cfg(feature = "liblog")]
	if level == log::LevelFilter::Trace {
		r.section("log_records", 6_000, logged);
	}
}
