//! C11: a scan reports every responder and always terminates.

use crate::common::*;
use crate::ctx::{hex, Case, Run};
use crate::ops::{distinct_ids, Drive, Expect, Op, Reply, Via, E};
use crate::port::{Fault, Kind, SimPort};
use crate::proto::Pkt;
use crate::rng::{hash_bytes, mix};
use crate::traffic::*;
use crate::{check, fail};

pub const RULE: &str = "scans run on a bus in virtual time with 0 to 253 responders at any time and order, malformed, erroneous, corrupted and foreign packets, noise and port failures; a model of the waits predicts the exact sequence of items and the end; iterating and dropping must stay within a bounded number of port calls; distinct by (traffic, drop point), non-trivial if something arrives or fails";

/// What must be reported for this item.
fn judge(item: &It, got: &Result<Reply, E>) -> Result<(), String> {
	match item {
		It::Bad(f) => {
			if got.as_ref().err() == Some(&It::checksum_error(f)) {
				return Ok(());
			}
		},
		It::Pkt(p) if !p.is_status() => {
			if matches!(got, Err(E::Inst { actual, expected: 0x55 }) if *actual == p.instruction) {
				return Ok(());
			}
		},
		It::Pkt(p) if p.params.is_empty() => {
			if matches!(got, Err(E::Count { actual: 0, expected: Expect::Min(1) })) {
				return Ok(());
			}
		},
		It::Pkt(p) => {
			let motor_error = p.error() & 0x7F != 0;
			let n = p.data().len();
			match got {
				Ok(r) if !motor_error && n == 3 && r.id == p.id && r.data == p.data() && r.alert == (p.error() & 0x80 != 0) => return Ok(()),
				Err(E::Motor(raw)) if motor_error && *raw == p.error() => return Ok(()),
				Err(E::Count {
					actual,
					expected: Expect::Exact(3),
				}) if n != 3 && *actual == n => return Ok(()),
				_ => (),
			}
		},
		It::Noise(_) => unreachable!(),
	}
	Err(format!("{item:?} was reported as {got:?}"))
}

fn session(c: &mut Case, traffic: &Traffic, via: Via, take: usize, baud: u32, rbuf: usize) -> Result<(), String> {
	let port = SimPort::new(baud);
	let mut cl = client(&port, rbuf, 64);
	session_on(c, &port, &mut cl, traffic, via, take)
}

/// A scan with a client that has been used before.
fn session_on(c: &mut Case, port: &SimPort, cl: &mut Cl, traffic: &Traffic, via: Via, take: usize) -> Result<(), String> {
	let baud = port.core().baud;
	port.core().events.clear();
	let t = traffic.clone();
	port.respond(move |core, _| t.schedule(core));
	let start = port.core().now;
	let mut model = Model::new(start, traffic);
	let total = traffic.chunks.iter().map(|c| c.1.len() as u64).sum::<u64>();
	port.set_budget(2 * total + 100);
	let describe = || format!("scan ({via:?}, taking {take}) at {baud} baud with arrivals {:?}", traffic.chunks);
	let out = must(run_op(cl, &Op::Scan, Drive { via, take }), describe)?;
	check!(out.start.is_ok(), "{}: failed to start: {out:?}", describe());
	let timeout = scan_timeout(baud);
	for (k, got) in out.items.iter().enumerate() {
		match model.wait(timeout) {
			None => fail!("{}: item {k} is {got:?}, but nothing arrived in time", describe()),
			Some(item) => judge(&item, got).map_err(|e| format!("{}: item {k}: {e}", describe()))?,
		}
		match got {
			Ok(_) => c.count("responders", 1),
			Err(e) => c.count(e.name(), 1),
		}
	}
	if out.items.len() < take {
		check!(out.ended, "{}: did not end: {out:?}", describe());
		if let Some(item) = model.wait(timeout) {
			fail!("{}: ended after {} items without reporting {item:?}", describe(), out.items.len());
		}
	}
	// One broadcast ping, and no more.
	let events = port.take_events();
	check_frame(&events, &Op::Scan.packet()).map_err(|e| format!("{}: {e}", describe()))?;
	c.eval(1);
	if !traffic.chunks.is_empty() {
		let mut h = take.min(1000) as u64;
		for (t, b) in &traffic.chunks {
			h = mix(h ^ hash_bytes(*t, b));
		}
		c.distinct(h);
	}
	Ok(())
}

fn item(c: &mut Case, id: u8, kind: u64) -> Vec<It> {
	let alert = if c.rng.chance(1, 4) { 0x80 } else { 0 };
	let data = c.rng.content(3);
	let good = Pkt::status(id, alert, &data);
	match kind {
		0 => vec![It::Pkt(good)],
		1 => {
			// Wrong number of parameters.
			let n = *c.rng.pick(&[0, 1, 2, 4, 5, 10, 259]);
			let d = c.rng.content(n);
			vec![It::Pkt(Pkt::status(id, alert, &d))]
		},
		2 => vec![It::Pkt(Pkt::status(id, alert | c.rng.range(1, 127) as u8, &data))],
		3 => {
			let f = good.frame();
			vec![It::Bad(damage(&mut c.rng, &f))]
		},
		4 => {
			let instruction = crate::ops::raw_instruction(&mut c.rng);
			vec![It::Pkt(Pkt::new(id, instruction, data))]
		},
		5 => {
			let it = It::Pkt(good);
			vec![noise_item(&mut c.rng, &it), it]
		},
		6 => vec![It::Pkt(Pkt::new(id, 0x55, vec![]))],
		_ => vec![It::Pkt(good.clone()), It::Pkt(good)],
	}
}

pub fn run(r: &Run) {
	// One item of each kind between two good replies, with every drop point.
	r.exhaustive("one_fault", 8 * 6 * 8, |c, i| {
		let ids = distinct_ids(&mut c.rng, 3);
		let mut items = vec![];
		for (k, id) in ids.iter().enumerate() {
			let gap = c.rng.below(MS);
			for it in item(c, *id, if k == 1 { i % 8 } else { 0 }) {
				items.push((gap, it));
			}
		}
		let take = match i / 8 % 6 {
			5 => usize::MAX,
			n => n as usize,
		};
		let piece = *c.rng.pick(&[1, 5, 100]);
		let traffic = Traffic::build(&mut c.rng, &items, piece, 1000);
		if !traffic.unambiguous() {
			return Ok(());
		}
		session(c, &traffic, if i % 2 == 0 { Via::Iter } else { Via::Next }, take, 57_600, 500)
	});
	r.section("random", 60_000, |c, _| {
		let n = match c.rng.below(10) {
			0 => 0,
			1 if c.rng.chance(1, 6) => 253,
			_ => c.rng.range(1, 9),
		};
		let mut ids = distinct_ids(&mut c.rng, n);
		if n > 2 && c.rng.chance(1, 4) {
			// Two motors with the same ID both respond.
			ids[1] = ids[0];
		}
		let baud = *c.rng.pick(&[9_600u32, 57_600, 1_000_000, 4_000_000, 3, 999_983]);
		let t = scan_timeout(baud);
		let faults = c.rng.below(6);
		let mut items = vec![];
		for &id in &ids {
			let kind = if c.rng.below(8) < faults { c.rng.below(8) } else { 0 };
			let gap = match c.rng.below(12) {
				// Clearly before and clearly after the deadline (its rounding is not specified).
				0 => t - 300,
				1 => t + 1000,
				2 => c.rng.below(t - 300),
				_ => c.rng.below(MS),
			};
			for (k, it) in item(c, id, kind).into_iter().enumerate() {
				items.push((if k == 0 { gap } else { 0 }, it));
			}
		}
		let piece = *c.rng.pick(&[1, 5, 100]);
		let traffic = Traffic::build(&mut c.rng, &items, piece, 0);
		if !traffic.unambiguous() {
			return Ok(());
		}
		let via = *c.rng.pick(&[Via::Iter, Via::Next]);
		let take = if c.rng.chance(2, 3) { usize::MAX } else { c.rng.usize(6) };
		c.sample(|| format!("scan at {baud} baud with {items:?}"));
		session(c, &traffic, via, take, baud, 500)
	});
	// One client for a long life of short scans, with whatever was left of the one before.
	r.section("long_lives", 6, |c, i| {
		let baud = *c.rng.pick(&[57_600u32, 1_000_000]);
		let port = SimPort::new(baud);
		let mut cl = client(&port, 500, 64);
		for k in 0..if i == 0 { 66_500 } else { 3_000 } {
			let n = c.rng.usize(if i == 0 { 3 } else { 6 });
			let mut items = vec![];
			for id in distinct_ids(&mut c.rng, n) {
				let kind = if c.rng.chance(1, 10) { c.rng.below(8) } else { 0 };
				for it in item(c, id, kind) {
					items.push((c.rng.below(MS), it));
				}
			}
			let traffic = Traffic::build(&mut c.rng, &items, 50, 0);
			if !traffic.unambiguous() {
				continue;
			}
			let via = *c.rng.pick(&[Via::Iter, Via::Next]);
			let take = if c.rng.chance(2, 3) { usize::MAX } else { c.rng.usize(4) };
			session_on(c, &port, &mut cl, &traffic, via, take).map_err(|e| format!("scan {k} of this client: {e}"))?;
			// All that was still to come is gone at the next scan.
			port.core().now += 10 * SEC;
		}
		Ok(())
	});
	// Persistent and single port failures, at any read.
	r.section("port_failure", 20_000, |c, _| {
		let n = c.rng.usize(5);
		let replies: Vec<Pkt> = distinct_ids(&mut c.rng, n)
			.into_iter()
			.map(|id| Pkt::status(id, 0, &c.rng.clone().content(3)))
			.collect();
		let port = SimPort::default();
		let frames: Vec<Vec<u8>> = replies.iter().map(|p| p.frame()).collect();
		port.reply_with(frames);
		port.core().one_chunk = true;
		let at = c.rng.usize(n + 1);
		let persistent = c.rng.chance(2, 3);
		// In the middle of a packet, too.
		let mut bytes: usize = replies[..at].iter().map(|p| p.frame().len()).sum();
		if at < n && c.rng.chance(1, 2) {
			bytes += c.rng.usize(replies[at].frame().len());
		}
		port.core().fault = Fault::AfterBytes(bytes as u64, Kind::Other, persistent);
		port.set_budget(40 * n as u64 + 40);
		let via = *c.rng.pick(&[Via::Iter, Via::Next]);
		let take = if c.rng.chance(2, 3) { usize::MAX } else { c.rng.usize(n + 3) };
		let mut cl = client(&port, 64, 64);
		let describe = || format!("scan ({via:?}, taking {take}) with {n} replies and a port failure after {at} of them ({bytes} bytes), persistent: {persistent}");
		let out = must(run_op(&mut cl, &Op::Scan, Drive { via, take }), describe)?;
		for (k, got) in out.items.iter().enumerate() {
			match got {
				Ok(r) if k < at && r.id == replies[k].id && r.data == replies[k].data() => (),
				Err(E::Io(e)) if k == at && e.kind == Kind::Other && e.id == 1 => (),
				// A scan may or may not go on after a failure that was not persistent.
				Ok(r) if k > at && !persistent && r.id == replies[k - 1].id => (),
				_ => fail!("{}: item {k} is {got:?}", describe()),
			}
		}
		check!(
			take <= at || out.items.len() > at,
			"{}: the failure was not reported: {out:?}",
			describe()
		);
		// The same client works again.
		port.core().fault = Fault::None;
		port.take_events();
		let pong = Pkt::status(9, 0, &[1, 2, 3]);
		port.reply_with(vec![pong.frame()]);
		let out = must(run_op(&mut cl, &Op::Ping { id: 9 }, crate::ops::FULL), describe)?;
		check!(out == good_outcome(&Op::Ping { id: 9 }, &[pong]), "{}: a ping after it gave {out:?}", describe());
		c.count("port_failures", 1);
		c.distinct(mix(at as u64 * 1000 + n as u64 * 10 + u64::from(persistent)));
		Ok(())
	});
	// A port without recognisable timeouts.
	r.section("no_timeouts", 500, |c, _| {
		let port = SimPort::default();
		port.reply_with(vec![Pkt::status(3, 0, &[1, 2, 3]).frame()]);
		port.set_budget(40);
		let take = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.usize(4) };
		let mut cl = client(&port, 64, 64);
		crate::port::NO_TIMEOUTS.with(|x| x.set(true));
		let out = run_op(
			&mut cl,
			&Op::Scan,
			Drive {
				via: Via::Iter,
				take,
			},
		);
		crate::port::NO_TIMEOUTS.with(|x| x.set(false));
		let out = must(out, || format!("scan (taking {take}) with a port whose timeouts are not recognised"))?;
		check!(
			take == 0 || matches!(out.items.first(), Some(Ok(r)) if r.id == 3),
			"scan with a port whose timeouts are not recognised gave {out:?}"
		);
		c.distinct(take as u64);
		Ok(())
	});
	// Read buffers that can not hold a reply.
	r.section("small_buffers", 4000, |c, i| {
		let rbuf = (i % 24) as usize;
		let n = c.rng.usize(4);
		let replies: Vec<Pkt> = distinct_ids(&mut c.rng, n)
			.into_iter()
			.map(|id| Pkt::status(id, 0, &[1, 2, 3]))
			.collect();
		let port = SimPort::default();
		port.reply_with(replies.iter().map(|p| p.frame()).collect());
		let bytes: u64 = replies.iter().map(|p| p.frame().len() as u64).sum();
		port.set_budget(bytes * 2 + 40);
		let via = *c.rng.pick(&[Via::Iter, Via::Next]);
		let take = if c.rng.chance(2, 3) { usize::MAX } else { c.rng.usize(n + 3) };
		let mut cl = client(&port, rbuf, 64);
		let describe = || format!("scan ({via:?}, taking {take}) of {n} motors with a read buffer of {rbuf} bytes");
		let out = must(run_op(&mut cl, &Op::Scan, Drive { via, take }), describe)?;
		check!(
			out.items.len() <= bytes as usize + 4,
			"{}: reports errors endlessly: {} items",
			describe(),
			out.items.len()
		);
		if rbuf >= 14 {
			let mut expect = good_outcome(&Op::Scan, &replies);
			if take <= n {
				expect.items.truncate(take);
				expect.ended = false;
			}
			check!(out == expect, "{}: {out:?} instead of {expect:?}", describe());
		} else {
			check!(out.items.iter().all(|x| x.is_err()), "{}: {out:?}", describe());
			check!(n == 0 || take == 0 || !out.items.is_empty(), "{}: reported nothing", describe());
			if let Some(Err(e)) = out.items.first() {
				check!(matches!(e, E::ReadTooSmall { total, .. } if *total == rbuf), "{}: {e:?}", describe());
			}
		}
		c.count("small_buffers", 1);
		c.distinct(mix(i));
		Ok(())
	});
	// Packets too large for the read buffer between replies that just fit.
	r.section("oversized", 4000, |c, i| {
		let rbuf = 14 + (i % 12) as usize;
		let n = c.rng.usize(6);
		let ids = distinct_ids(&mut c.rng, n + 1);
		let mut replies = vec![];
		let mut expect: Vec<Result<Reply, ()>> = vec![];
		let big = c.rng.usize(n + 1);
		let mut bytes = vec![];
		for (k, id) in ids.iter().enumerate() {
			let p = if k == big {
				let len = rbuf - 10 + c.rng.usize(30);
				// Nothing that looks like a header.
				Pkt::status(*id, 0, &(0..len).map(|_| c.rng.below(0x80) as u8).collect::<Vec<_>>())
			} else {
				Pkt::status(*id, 0, &c.rng.clone().content(3))
			};
			let f = p.frame();
			if k == big {
				// The checksum must not start a header either.
				if f[f.len() - 2..].contains(&0xFF) {
					return Ok(());
				}
				expect.push(Err(()));
			} else if f.len() > rbuf {
				// Stuffed content.
				return Ok(());
			} else {
				expect.extend(good_outcome(&Op::Scan, &[p]).items.into_iter().map(|x| x.map_err(|_| ())));
			}
			bytes.extend_from_slice(&f);
			replies.push(f);
		}
		let port = SimPort::default();
		let max = *c.rng.pick(&[1, 4, 14, 60]);
		let pieces = split(&mut c.rng, &bytes, max);
		port.respond(move |core, _| {
			for (k, p) in pieces.iter().enumerate() {
				core.push(k as u64 * 1000, p.clone());
			}
		});
		port.set_budget(bytes.len() as u64 * 2 + 60);
		let via = *c.rng.pick(&[Via::Iter, Via::Next]);
		let mut cl = client(&port, rbuf, 64);
		let describe = || {
			format!(
				"scan ({via:?}) with a read buffer of {rbuf} bytes and packets {:?}",
				replies.iter().map(|f| hex(f)).collect::<Vec<_>>()
			)
		};
		let out = must(run_op(&mut cl, &Op::Scan, Drive { via, take: usize::MAX }), describe)?;
		check!(out.ended, "{}: did not end: {out:?}", describe());
		for (k, item) in out.items.iter().enumerate() {
			match (item, expect.get(k)) {
				(Ok(a), Some(Ok(b))) if a == b => (),
				(Err(E::ReadTooSmall { required, total }), Some(Err(()))) if *total == rbuf && required > total => (),
				_ => fail!("{}: item {k} is {item:?}, all: {:?}", describe(), out.items),
			}
		}
		check!(out.items.len() == expect.len(), "{}: {} items: {:?}", describe(), out.items.len(), out.items);
		c.count("oversized_packets", 1);
		c.distinct(hash_bytes(rbuf as u64, &bytes));
		Ok(())
	});
	// More replies than there are motor IDs: several motors share an ID.
	r.section("crowd", 30, |c, _| {
		let n = c.rng.range(250, 700);
		let mut items = vec![];
		for _ in 0..n {
			let id = c.rng.id();
			let kind = if c.rng.chance(1, 30) { c.rng.below(8) } else { 0 };
			let gap = c.rng.below(MS);
			for it in item(c, id, kind) {
				items.push((gap, it));
			}
		}
		let piece = *c.rng.pick(&[5, 100]);
		let traffic = Traffic::build(&mut c.rng, &items, piece, 0);
		if !traffic.unambiguous() {
			return Ok(());
		}
		let via = *c.rng.pick(&[Via::Iter, Via::Next]);
		let take = if c.rng.chance(2, 3) { usize::MAX } else { c.rng.usize(n) };
		c.count("crowds", 1);
		session(c, &traffic, via, take, 57_600, 500)
	});
	// A babbling bus: bytes without end must not keep a scan in one call forever.
	r.section("babble", 200, |c, _| {
		let port = SimPort::default();
		let n = c.rng.range(1000, 6000);
		let bytes = c.rng.bytes(n);
		let gap = c.rng.below(10 * MS);
		let pieces = split(&mut c.rng, &bytes, 40);
				port.respond(move |core, _| {
			for (i, p) in pieces.iter().enumerate() {
				core.push(i as u64 * gap, p.clone());
			}
		});
		port.set_budget(4 * n as u64 + 100);
		let mut cl = client(&port, 64, 64);
		let start = port.core().now;
		let take = if c.rng.chance(1, 2) { usize::MAX } else { 0 };
		let what = || format!("scan (taking {take}) on a bus with noise every {gap} ns, starting with {}", hex(&bytes[..20]));
		let out = must(run_op(&mut cl, &Op::Scan, Drive { via: Via::Iter, take }), what)?;
		check!(take == 0 || out.ended && out.items.is_empty(), "{}: gave {out:?}", what());
		// The wait for the first reply and, when the scan is dropped, possibly one more.
		let elapsed = port.core().now - start;
		check!(
			elapsed <= 2 * scan_timeout(57_600),
			"{}: took {elapsed} ns, though no reply arrived within {} ns",
			what(),
			scan_timeout(57_600)
		);
		c.count("babbling_scans", 1);
		c.distinct(hash_bytes(gap, &bytes[..40]));
		Ok(())
	});
}
