//! C07: no received bytes can crash or hang a client or device.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{encoder, random_op, Drive, Via, Wait, E};
use crate::port::SimPort;
use crate::proto::{self, Found, Pkt};
use crate::rng::hash_bytes;
use crate::traffic::hostile;
use crate::rx::{Got, Kind, Rx, KINDS};
use crate::{check, fail};

pub const RULE: &str = "hostile byte streams (random, mutated, truncated, lying length fields with valid CRC, frames too short for an instruction, prefixes inside prefixes) in random chunks are received with read buffers of every small size; no panic, no read into an empty buffer, a bounded number of port calls, and every delivered packet must be a checksum-valid frame of the stream, once and in order; distinct by (stream, buffer size), non-trivial if the stream contains a frame prefix";

/// Is this result one of the frames at or after `from`? Returns the end of the earliest such frame.
fn locate(frames: &[Found], from: usize, got: &Got) -> Option<usize> {
	frames.iter().filter(|f| f.start >= from && got.is(&f.pkt)).map(|f| f.end).min()
}

fn receive_all(c: &mut Case, kind: Kind, rbuf: usize, s: &[u8], max_read: usize, gaps: bool, short: Option<usize>) -> Result<(), String> {
	let port = SimPort::default();
	{
		let mut core = port.core();
		core.log = false;
		core.max_read = max_read;
		core.scribble = c.rng.chance(1, 2);
	}
	let pieces = if gaps { split(&mut c.rng, s, 30) } else { vec![s.to_vec()] };
	{
		let mut core = port.core();
		let gap = if gaps { 2 * MS } else { 0 };
		push_all(&mut core, &pieces, gap);
	}
	let mut rx = Rx::new(kind, &port, rbuf);
	let frames = proto::find_frames(s);
	let describe = || format!("{kind:?} with a {rbuf} byte buffer, stream [{}] in reads of at most {max_read}", hex(s));
	let mut from = 0;
	let mut silent = 0;
	let mut calls = 0;
	let mut invalid = 0;
	let limit = s.len() * 2 + pieces.len() * 2 + 40;
	loop {
		// Each receive call may read at most every pending byte once, and then time out.
		let pending = port.core().pending() as u64;
		port.set_budget(pending + 8);
		let got = rx.recv(MS).map_err(|p| format!("{}: a receive call {p}", describe()))?;
		calls += 1;
		c.eval(1);
		match &got {
			Ok(g) => {
				match locate(&frames, from, g) {
					Some(end) => from = end,
					None => fail!("{}: delivered {g:?}, which is no checksum-valid frame of the stream after offset {from}", describe()),
				}
				c.count("delivered", 1);
			},
			Err(e) => {
				c.count(e.name(), 1);
				match e {
					E::Count { .. } | E::Checksum { .. } | E::Inst { .. } | E::Id { .. } | E::Prefix(..) => invalid += 1,
					_ => (),
				}
				let done = e.is_timeout() || rbuf < 10;
				if done && (port.core().pending() == 0 || rbuf < 10) {
					silent += 1;
					if silent == 3 {
						break;
					}
				}
			},
		}
		check!(calls <= limit, "{}: {calls} receive calls did not exhaust the stream", describe());
	}
	check!(port.core().empty_reads == 0, "{}: the port was asked to read into an empty buffer", describe());
	if let Some(n) = short {
		check!(
			invalid >= n,
			"{}: {n} frames that are too short but have a valid CRC caused only {invalid} invalid-message errors",
			describe()
		);
	}
	if proto::find_prefix(s).is_some() {
		c.distinct(hash_bytes(rbuf as u64, s));
	}
	Ok(())
}

pub fn run(r: &Run) {
	// Every small read buffer.
	r.section("streams", 60_000, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let rbuf = match c.rng.below(4) {
			0 => c.rng.usize(16),
			1 => (i / 4 % 80) as usize,
			_ => *c.rng.pick(&[32usize, 64, 128, 1000, 70_000]),
		};
		let max = *c.rng.pick(&[20usize, 60, 200]);
		let s = hostile(&mut c.rng, max);
		let max_read = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.range(1, 12) };
		let gaps = c.rng.chance(1, 3);
		c.sample(|| format!("{kind:?}, buffer {rbuf}: [{}]", hex(&s)));
		receive_all(c, kind, rbuf, &s, max_read, gaps, None)
	});
	r.section("long_streams", 400, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let rbuf = c.rng.range(0, 300);
		let s = hostile(&mut c.rng, 6000);
		receive_all(c, kind, rbuf, &s, usize::MAX, true, None)
	});
	// All two-byte length fields near the edges, with the CRC where they say it is.
	let n = r.q(70, 300);
	r.exhaustive("lengths", n * 10, |c, i| {
		let len = (i / 10) as usize;
		let mut f = proto::PREFIX.to_vec();
		f.extend_from_slice(&[3, len as u8, (len >> 8) as u8]);
		let mut body: Vec<u8> = c.rng.content(len.saturating_sub(2));
		if let Some(b) = body.first_mut() {
			*b = if i % 2 == 0 { 0x55 } else { 3 };
		}
		f.extend_from_slice(&body);
		let crc = proto::crc(&f);
		f.push(crc as u8);
		f.push((crc >> 8) as u8);
		let tail = match i % 5 {
			0 => vec![],
			1 => Pkt::status(1, 0, &[1, 2, 3]).frame(),
			2 => Pkt::new(1, 3, vec![1, 2, 3]).frame(),
			3 => c.rng.bytes(20),
			_ => vec![0xFF; 9],
		};
		f.extend(tail);
		for &kind in KINDS {
			for rbuf in [0, 1, 6, 7, 8, 9, 10, 11, 12, 7 + len.saturating_sub(1), 7 + len, 8 + len, 64 + len] {
				for max_read in [1, 2, usize::MAX] {
					receive_all(c, kind, rbuf, &f, max_read, false, None)?;
				}
			}
		}
		Ok(())
	});
	// Frames that are too short, with correct CRC: reported as invalid, and the next packet still arrives.
	r.section("too_short", 6000, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let mut f = proto::PREFIX.to_vec();
		f.push(c.rng.id());
		let which = i / 4 % 4;
		let mut status = false;
		match which {
			0..=2 => {
				let len = which as u8;
				f.extend_from_slice(&[len, 0]);
				let crc = proto::crc(&f);
				f.push(crc as u8);
				f.push((crc >> 8) as u8);
			},
			_ => {
				// Status without error byte.
				f = proto::frame_raw(f[4], &[0x55]);
				status = true;
			},
		}
		let good = crate::rx::random_packet(&mut c.rng, kind, 6);
		let g = good.frame();
		let mut bytes = f.clone();
		bytes.extend_from_slice(&g);
		if bytes.windows(4).filter(|w| *w == proto::PREFIX).count() != 2 {
			return Ok(());
		}
		let port = SimPort::default();
		port.core().max_read = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.range(1, 20) };
		port.push(0, bytes.clone());
		let mut rx = Rx::new(kind, &port, 40);
		port.set_budget(500);
		let describe = || format!("{kind:?}, stream [{}]", hex(&bytes));
		let first = rx.recv(MS).map_err(|p| format!("{}: a receive call {p}", describe()))?;
		match &first {
			// Its error byte is missing.
			Err(E::Count { actual, expected }) if status => check!(
				(*actual, *expected) == (0, crate::ops::Expect::Min(1)),
				"{}: a status packet without error byte was reported as {first:?}",
				describe()
			),
			Err(E::Count { .. } | E::Checksum { .. } | E::Inst { .. } | E::Id { .. } | E::Prefix(..)) => (),
			other => fail!(
				"{}: a frame that is too short ({}) was reported as {other:?} instead of an invalid message",
				describe(),
				if status { "status without error byte" } else { "no instruction" }
			),
		}
		match rx.recv(MS).map_err(|p| format!("{}: a receive call {p}", describe()))? {
			Ok(g) if g.is(&good) => (),
			other => fail!("{}: after the frame that is too short, the next one was received as {other:?}", describe()),
		}
		c.count("too_short_frames", 1);
		c.distinct(hash_bytes(3, &bytes));
		Ok(())
	});
	// Every client operation against a hostile bus.
	r.section("operations", 60_000, |c, i| {
		let op = random_op(&mut c.rng, i, 100);
		let mut s = hostile(&mut c.rng, 160);
		if c.rng.chance(1, 2) {
			// Something the operation would accept, somewhere.
			for p in good_replies(&mut c.rng, &op) {
				let at = c.rng.usize(s.len() + 1);
				let f = p.frame();
				s.splice(at..at, f);
			}
		}
		let port = SimPort::default();
		port.core().max_read = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.range(1, 12) };
		let pieces = split(&mut c.rng, &s, 60);
		let spread = if c.rng.chance(1, 2) { MS * 3 } else { 0 };
		port.respond(move |core, _| push_all(core, &pieces, spread));
		let rbuf = if c.rng.chance(1, 4) { c.rng.usize(24) } else { c.rng.range(24, 300) };
		let mut cl = client(&port, rbuf, 700);
		let drive = Drive {
			via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
			take: if c.rng.chance(1, 4) { c.rng.usize(3) } else { usize::MAX },
		};
		port.set_budget(4000);
		let describe = || format!("{} with a {rbuf} byte buffer, input [{}]", op_text(&op), hex(&s));
		let out = must(run_op(&mut cl, &op, drive), &describe)?;
		check!(port.core().empty_reads == 0, "{}: the port was asked to read into an empty buffer", describe());
		let frames = proto::find_frames(&s);
		let mut from = 0;
		if !matches!(op.wait(), Wait::Nothing { .. }) {
			for item in out.items.iter().flatten() {
				let err = if item.alert { 0x80 } else { 0 };
				let p = Pkt::status(item.id, err, &item.data);
				match locate(&frames, from, &Got::Pkt(p)) {
					Some(end) => from = end,
					None => fail!("{}: delivered {item:?}, which is no checksum-valid frame of the input after offset {from}", describe()),
				}
				c.count("delivered", 1);
			}
		}
		for e in out.items.iter().filter_map(|x| x.as_ref().err()).chain(out.start.as_ref().err()) {
			c.count(e.name(), 1);
		}
		c.count(&format!("op.{}", op.name()), 1);
		if proto::find_prefix(&s).is_some() {
			c.distinct(hash_bytes(rbuf as u64 + 100_000, &s));
		}
		Ok(())
	});
	// Raw receive with automatic timeouts, and transmitting after hostile input.
	r.section("mixed", 8000, |c, i| {
		let port = SimPort::default();
		let rbuf = c.rng.range(0, 60);
		let mut cl = client(&port, rbuf, 64);
		let mut d = device(&port, rbuf, 64);
		for _ in 0..6 {
			let s = hostile(&mut c.rng, 80);
			port.push(0, s.clone());
			port.set_budget(1000);
			let what = c.rng.below(5);
			guard(|| match what {
				0 => {
					let _ = cl.read_status_response(7);
				},
				1 => {
					let _ = cl.read_status_response(u16::MAX);
				},
				2 => {
					let _ = d.read(std::time::Duration::from_millis(3));
				},
				3 => {
					let _ = d.write_status(1, 0, s.len().min(20), encoder(&s[..s.len().min(20)]));
				},
				_ => {
					let _ = cl.write_instruction(1, 2, s.len().min(20), encoder(&s[..s.len().min(20)]));
				},
			})
			.map_err(|p| format!("operation {what} with a {rbuf} byte buffer after input [{}] {p}", hex(&s)))?;
			c.distinct(hash_bytes(i, &s));
			c.eval(1);
		}
		check!(port.core().empty_reads == 0, "the port was asked to read into an empty buffer (read buffer of {rbuf} bytes)");
		Ok(())
	});
}
