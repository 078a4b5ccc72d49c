//! C05: reception is independent of chunking, timeouts and leading noise.

use crate::common::*;
use crate::ctx::{hex, Case, Run};
use crate::ops::{random_op, Drive, Via, E};
use crate::port::SimPort;
use crate::proto::{self, Pkt};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rx::{random_packet, Got, Kind, Rx, KINDS};
use crate::{check, fail};

pub const RULE: &str = "a stream of valid packets (and noise, and packets longer than the read buffer) is cut into port reads, with timeouts between some of them; the sequence of delivered packets must be exactly the sequence sent and the only errors timeouts (and one too-small error per oversized packet); all cuts of short streams into up to four reads are enumerated; distinct by (stream, cuts), non-trivial if at least one packet was delivered over more than one read or after noise";

#[derive(Debug, Clone)]
enum Item {
	Packet(Pkt),
	TooLong(usize),
}

#[derive(Debug)]
struct Stream {
	bytes: Vec<u8>,
	items: Vec<Item>,
}

/// Build a stream; `max` is the size of the read buffer.
fn stream(rng: &mut Rng, kind: Kind, packets: usize, size: usize, max: usize, with_noise: bool) -> Stream {
	'retry: loop {
		let mut bytes = vec![];
		let mut items = vec![];
		for _ in 0..packets {
			let n = rng.usize(size + 1);
			let p = random_packet(rng, kind, n);
			let f = p.frame();
			if with_noise && rng.chance(2, 3) {
				let k = if rng.chance(1, 12) { rng.range(max, max * 2 + 3) } else { rng.range(1, 12) };
				let v = noise(rng, k, &f);
				bytes.extend_from_slice(&v);
			}
			let start = bytes.len();
			bytes.extend_from_slice(&f);
			if f.len() > max {
				items.push(Item::TooLong(start));
			} else {
				items.push(Item::Packet(p));
			}
		}
		if with_noise && rng.chance(1, 2) {
			let k = rng.range(1, 9);
			let v = noise(rng, k, &[]);
			bytes.extend_from_slice(&v);
		}
		// The noise (and the rest of skipped packets) must not form a prefix by accident.
		let frames: Vec<usize> = {
			// positions where frames start, by construction
			let mut pos = vec![];
			let mut at = 0;
			for item in &items {
				// Find this frame at or after `at`.
				let f = match item {
					Item::Packet(p) => p.frame(),
					Item::TooLong(start) => {
						pos.push(*start);
						at = start + 10;
						continue;
					},
				};
				let k = bytes[at..].windows(f.len()).position(|w| w == f).map(|x| x + at);
				let Some(k) = k else { continue 'retry };
				pos.push(k);
				at = k + f.len();
			}
			pos
		};
		for (i, w) in bytes.windows(4).enumerate() {
			if w == proto::PREFIX && !frames.contains(&i) {
				continue 'retry;
			}
		}
		return Stream { bytes, items };
	}
}

const T: u64 = 10 * MS;

/// Feed the stream in pieces (with the arrival gaps given) and check everything that is received.
fn deliver(c: &mut Case, kind: Kind, rbuf: usize, s: &Stream, cuts: &[usize], gaps: &[u64], one_chunk: bool, max_read: usize) -> Result<(), String> {
	let port = SimPort::default();
	port.core().log = false;
	port.core().one_chunk = one_chunk;
	port.core().max_read = max_read;
	let mut rx = Rx::new(kind, &port, rbuf);
	let mut at = 0;
	let mut t = 0;
	let mut timeouts = 0;
	for (k, &cut) in cuts.iter().chain(std::iter::once(&s.bytes.len())).enumerate() {
		if cut > at {
			port.push(t, s.bytes[at..cut].to_vec());
		}
		at = cut.max(at);
		let gap = gaps.get(k % gaps.len().max(1)).copied().unwrap_or(0);
		t += gap;
		timeouts += gap / T + 1;
	}
	port.set_budget(s.bytes.len() as u64 * 2 + timeouts * 2 + 64);
	let describe = || {
		format!(
			"{kind:?} with a {rbuf} byte buffer, stream [{}] cut at {cuts:?} with gaps {gaps:?} (timeout {T}), reads of at most {max_read}",
			hex(&s.bytes)
		)
	};
	let mut items = s.items.iter();
	let mut silent = 0;
	let mut results = std::collections::VecDeque::new();
	let mut delivered = 0;
	loop {
		let got = rx.recv(T).map_err(|p| format!("{}: receiving {p}", describe()))?;
		match &got {
			Err(e) if e.is_timeout() => {
				// Stop after two timeouts with nothing left to arrive.
				c.count("timeouts", 1);
				if port.core().pending() == 0 {
					silent += 1;
					if silent == 2 {
						break;
					}
				}
				continue;
			},
			_ => (),
		}
		results.push_back(format!("{got:?}"));
		if results.len() > 40 {
			results.pop_front();
		}
		match (items.next(), &got) {
			(Some(Item::Packet(p)), Ok(g)) if g.is(p) => delivered += 1,
			(Some(Item::TooLong(_)), Err(E::ReadTooSmall { .. })) => c.count("too_long", 1),
			(expect, got) => {
				let expect = expect.cloned();
				fail!("{}: received {got:?} instead of {expect:?} (so far: {results:?})", describe())
			},
		}
	}
	if let Some(missing) = items.next() {
		fail!("{}: {missing:?} was never delivered (received: {results:?})", describe());
	}
	check!(port.core().empty_reads == 0, "{}: the port was asked to read into an empty buffer", describe());
	c.count("delivered", delivered);
	if !cuts.is_empty() || max_read < 64 {
		let mut h = hash_bytes(rbuf as u64, &s.bytes);
		for x in cuts {
			h = mix(h ^ *x as u64);
		}
		for x in gaps {
			h = mix(h ^ *x);
		}
		c.distinct(h ^ max_read as u64);
	}
	Ok(())
}

fn longest(s: &Stream) -> usize {
	s.items
		.iter()
		.map(|x| match x {
			Item::Packet(p) => p.frame().len(),
			_ => 10,
		})
		.max()
		.unwrap_or(10)
}

pub fn run(r: &Run) {
	// All cuts of short streams in two, three and four reads, with and without timeouts between them.
	let streams = r.q(48, 400);
	r.section("all_cuts", streams, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let with_noise = i % 3 != 0;
		let s = stream(&mut c.rng, kind, 2, 5, 64, with_noise);
		let rbuf = longest(&s) + *c.rng.pick(&[0usize, 0, 1, 5, 40]);
		let n = s.bytes.len();
		c.sample(|| format!("{kind:?}, buffer {rbuf}: [{}]", hex(&s.bytes)));
		for a in 1..n {
			for gaps in [&[0u64][..], &[T * 2]] {
				deliver(c, kind, rbuf, &s, &[a], gaps, true, usize::MAX)?;
			}
			for b in a + 1..n {
				let gaps: &[u64] = match (a + b) % 4 {
					0 => &[0, 0],
					1 => &[T + 1, 0],
					2 => &[0, T + 1],
					_ => &[T + 1, 3 * T],
				};
				deliver(c, kind, rbuf, &s, &[a, b], gaps, (a ^ b) & 8 == 0, usize::MAX)?;
				c.eval(1);
				if c.thorough || i < 8 {
					for d in b + 1..n {
						if c.thorough || (a + b + d) % 5 == 0 {
							deliver(c, kind, rbuf, &s, &[a, b, d], &[T + 1, 0, T + 1][..1 + (d % 3)], true, usize::MAX)?;
							c.eval(1);
						}
					}
				}
			}
			c.eval(2);
		}
		Ok(())
	});
	// Every byte on its own, every fixed chunk size.
	r.section("fixed_chunks", 1500, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let noise = c.rng.chance(1, 2);
		let s = stream(&mut c.rng, kind, 6, 30, 256, noise);
		let rbuf = longest(&s) + *c.rng.pick(&[0usize, 0, 1, 7, 100]);
		for k in 1..24 {
			let gaps = [0, 0, T + 1];
			deliver(c, kind, rbuf, &s, &[], &[0], false, k)?;
			let cuts: Vec<usize> = (1..s.bytes.len()).filter(|x| x % k == 0).collect();
			deliver(c, kind, rbuf, &s, &cuts, &gaps[(k % 3)..(k % 3) + 1], true, usize::MAX)?;
			c.eval(2);
		}
		Ok(())
	});
	// Random streams with oversized packets and long noise.
	r.section("random", 30_000, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let rbuf = *c.rng.pick(&[10usize, 11, 12, 14, 16, 20, 32, 64, 128, 300, 1500]);
		let size = match c.rng.below(3) {
			0 => rbuf.saturating_sub(9),
			1 => rbuf / 3 + 1,
			_ => rbuf + 20,
		};
		let noise = c.rng.chance(2, 3);
		let count = c.rng.range(1, 8);
		let s = stream(&mut c.rng, kind, count, size, rbuf, noise);
		let mut cuts = vec![];
		let mut gaps = vec![];
		let mean = *c.rng.pick(&[2usize, 5, 20, 100]);
		let mut at = 0;
		loop {
			at += c.rng.range(1, mean * 2);
			if at >= s.bytes.len() {
				break;
			}
			cuts.push(at);
			gaps.push(match c.rng.below(6) {
				0 => T + 1,
				1 => T,
				2 => T / 3,
				_ => 0,
			});
		}
		gaps.push(0);
		c.sample(|| format!("{kind:?}, buffer {rbuf}: [{}] cut at {cuts:?}", hex(&s.bytes)));
		let one = c.rng.chance(1, 2);
		let max_read = if c.rng.chance(1, 4) { c.rng.range(1, 30) } else { usize::MAX };
		deliver(c, kind, rbuf, &s, &cuts, &gaps, one, max_read)
	});
	// Large packets.
	r.section("large", 40, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = c.rng.range(10_000, 60_000);
		let p = random_packet(&mut c.rng, kind, n);
		let p = if proto::frame_len(p.instruction, &p.params) > 65_000 {
			random_packet(&mut c.rng, kind, 40_000)
		} else {
			p
		};
		let q = random_packet(&mut c.rng, kind, 3);
		let mut bytes = p.frame();
		let rbuf = bytes.len() + c.rng.usize(2) * 13;
		bytes.extend_from_slice(&q.frame());
		let s = Stream {
			bytes,
			items: vec![Item::Packet(p), Item::Packet(q)],
		};
		let max_read = *c.rng.pick(&[64usize, 512, 4096, 100_000]);
		deliver(c, kind, rbuf, &s, &[], &[0], false, max_read)
	});
	// Many packets in one read: a large buffer that is filled far beyond the first packet.
	r.section("bursts", 400, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let rbuf = *c.rng.pick(&[600usize, 1100, 2048, 4200, 9000, 66_000]);
		let size = *c.rng.pick(&[0usize, 8, 60, 400]);
		let count = (rbuf * 2 / (size / 2 + 14)).clamp(2, 300);
		let count = c.rng.range(count / 2 + 1, count + 1);
		let noise = c.rng.chance(1, 2);
		let s = stream(&mut c.rng, kind, count, size, rbuf, noise);
		let mut cuts = vec![];
		if c.rng.chance(2, 3) {
			let mut at = 0;
			loop {
				at += c.rng.range(rbuf / 4, rbuf * 3);
				if at >= s.bytes.len() {
					break;
				}
				cuts.push(at);
			}
		}
		let gaps = [*c.rng.pick(&[0, T / 3, T + 1])];
		let one = c.rng.chance(1, 2);
		let max_read = *c.rng.pick(&[usize::MAX, 4096, 500]);
		c.count("bursts", 1);
		deliver(c, kind, rbuf, &s, &cuts, &gaps, one, max_read)
	});
	// One receiver over a long life: thousands of packets (more than 65536 in two cases) in one stream.
	r.section("long_lives", 24, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let tiny = i % 12 == 0;
		let (total, size, rbuf) = if tiny { (66_500, 3, 64) } else { (2_500, *c.rng.pick(&[4usize, 30, 90]), 120) };
		let mut all = Stream { bytes: vec![], items: vec![] };
		while all.items.len() < total {
			let part = stream(&mut c.rng, kind, if tiny { 40 } else { 6 }, size, rbuf, !tiny);
			// The seam must not form a prefix.
			let n = all.bytes.len();
			let seam = n.saturating_sub(3);
			let mut joined = all.bytes[seam..].to_vec();
			joined.extend_from_slice(&part.bytes[..3.min(part.bytes.len())]);
			if joined.windows(4).any(|w| w == proto::PREFIX) {
				continue;
			}
			all.bytes.extend_from_slice(&part.bytes);
			all.items.extend(part.items.into_iter().map(|x| match x {
				Item::TooLong(at) => Item::TooLong(at + n),
				x => x,
			}));
		}
		let mean = *c.rng.pick(&[5usize, 40, 300]);
		let mut cuts = vec![];
		let mut at = c.rng.range(1, mean * 2);
		while at < all.bytes.len() {
			cuts.push(at);
			at += c.rng.range(1, mean * 2);
		}
		let gaps: Vec<u64> = (0..257).map(|_| if c.rng.chance(1, 300) { T + 1 } else { T / 3 }).collect();
		let max_read = *c.rng.pick(&[3usize, 50, usize::MAX]);
		c.count("long_lives", 1);
		let one = c.rng.chance(1, 2);
		deliver(c, kind, rbuf, &all, &cuts, &gaps, one, max_read)
	});
	// Complete client operations whose replies arrive in pieces, together, or after noise.
	r.section("operations", 20_000, |c, i| {
		let op = random_op(&mut c.rng, i, 200);
		let replies = good_replies(&mut c.rng, &op);
		let mut bytes = vec![];
		for p in &replies {
			if c.rng.chance(1, 3) {
				let k = c.rng.range(1, 10);
				let f = p.frame();
				let v = noise(&mut c.rng, k, &f);
				bytes.extend_from_slice(&v);
			}
			bytes.extend_from_slice(&p.frame());
		}
		let frames = proto::find_frames(&bytes);
		let prefixes = bytes.windows(4).filter(|w| *w == proto::PREFIX).count();
		if frames.len() != replies.len() || prefixes != replies.len() {
			return Ok(());
		}
		let port = SimPort::default();
		let max = c.rng.range(1, 40);
		let pieces = split(&mut c.rng, &bytes, max);
		let one = c.rng.chance(1, 2);
		port.core().one_chunk = one;
		port.reply_with(pieces);
		let rbuf = replies.iter().map(|p| p.frame().len()).max().unwrap_or(10).max(10) + c.rng.usize(2) * 50;
		let mut cl = client(&port, rbuf, 2048);
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let out = must(run_op(&mut cl, &op, Drive { via, take: usize::MAX }), || op_text(&op))?;
		let expect = good_outcome(&op, &replies);
		check!(
			out == expect,
			"{} with replies [{}] in reads of up to {max} gave {out:?} instead of {expect:?}",
			op_text(&op),
			hex(&bytes)
		);
		c.count("operations", 1);
		c.distinct(hash_bytes(max as u64, &bytes));
		Ok(())
	});
	let _: Option<Got> = None;
}
