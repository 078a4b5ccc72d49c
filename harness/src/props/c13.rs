//! C13: waits are bounded by one deadline derived from the current baud rate.

use crate::common::*;
use crate::ctx::{guard, Case, Run};
use crate::ops::{distinct_ids, random_op, Op, Wait, E, FULL};
use crate::port::{Ev, Fault, Kind, SimPort};
use crate::proto::Pkt;
use crate::rng::{mix, Rng};
use crate::rx::{Rx, DEVICE_KINDS};
use crate::traffic::{noise_item, reply_timeout, scan_timeout, It};
use crate::{check, fail};
use dynamixel2::instructions::BulkReadData;
use std::time::Duration;

pub const RULE: &str = "waits of every kind (unicast operations, every slot of sync and bulk reads, every step of a scan, raw client and device reads with explicit timeouts) run in virtual time over baud rates from 1 to 4294967295 set by histories of successful and failed changes, while partial packets, noise, foreign packets and late replies arrive; every read of a wait must be given the same deadline, computed by an independent formula from the start of the wait, and an expired wait must end exactly there with the port's own error value; distinct by (wait, baud rate, arrivals), non-trivial if the wait reached the port";

fn random_baud(rng: &mut Rng) -> u32 {
	match rng.below(6) {
		0 => *rng.pick(&[9_600, 57_600, 115_200, 1_000_000, 2_000_000, 3_000_000, 4_000_000, 4_500_000, 10_500_000]),
		1 => *rng.pick(&[1, 2, 3, 9, 10, 11, 100, 109, 110, 111, 300, u32::MAX, u32::MAX - 1, 1_000_000_000, 2_147_483_648]),
		2 => 1 + rng.u32() % 1000,
		3 => 1 << rng.below(32),
		_ => rng.u32().max(1),
	}
}

/// The reads of one wait: all with the same deadline, which is `timeout` (give or take `tolerance`) after the first.
/// Returns the deadline and the error that ended the wait, if it was a timeout.
fn judge_wait(events: &[Ev], timeout: u64, tolerance: u64) -> Result<Option<u64>, String> {
	let mut the_deadline = None;
	for e in events {
		if let Ev::Read { deadline, now, .. } = e {
			match the_deadline {
				None => {
					let duration = deadline.wrapping_sub(*now);
					if duration.abs_diff(timeout) > tolerance {
						return Err(format!("waits for {duration} ns instead of {timeout} ns"));
					}
					the_deadline = Some(*deadline);
				},
				Some(d) if d != *deadline => {
					return Err(format!("the deadline changed during the wait from {d} to {deadline} (at {now})"));
				},
				_ => (),
			}
		}
	}
	Ok(the_deadline)
}

/// If the wait timed out, it must have done so at its deadline and with the error value of the port.
fn judge_end(port: &SimPort, events: &[Ev], deadline: Option<u64>, error: Option<&E>) -> Result<(), String> {
	let now = port.core().now;
	if let Some(d) = deadline {
		if now > d {
			return Err(format!("returned {} ns after its deadline", now - d));
		}
	}
	let last = events.iter().rev().find_map(|e| match e {
		Ev::Read { err, .. } => Some(*err),
		_ => None,
	});
	match (last.flatten(), error) {
		(Some((id, kind)), Some(E::Io(e))) if e.id == id && e.kind == kind => {
			if kind == Kind::Timeout && Some(now) != deadline {
				return Err("timed out before its deadline".into());
			}
			Ok(())
		},
		(Some((id, kind)), other) => Err(format!("the port failed with error #{id} ({kind:?}) but the result is {other:?}")),
		(None, Some(E::Io(e))) => Err(format!("reports {e} which the port did not return in this wait")),
		(None, _) => Ok(()),
	}
}

/// Traffic that does not complete a packet for client or device within `until`: noise and pieces of packets.
fn pester(rng: &mut Rng, port: &SimPort, from: u64, until: u64, with_status: bool) {
	let mut t = from;
	let steps = rng.range(1, 6);
	let step = |rng: &mut Rng| {
		let gap = (until.saturating_sub(from) / steps as u64).max(1);
		rng.below(gap)
	};
	let part = Pkt::status(1, 0, &[1, 2, 3, 4]).frame();
	for k in 0..steps {
		let d = step(rng);
		t += d;
		if t > until {
			break;
		}
		let bytes = match rng.below(3) {
			0 if with_status => Pkt::status(rng.id(), 0, &[k as u8]).frame(),
			1 if k + 1 == steps => part[..rng.range(1, part.len() - 1)].to_vec(),
			_ => noise_item(rng, &It::Pkt(Pkt::status(1, 0, &[]))).bytes(),
		};
		port.push(if k == 0 { t } else { d }, bytes);
	}
}

pub fn run(r: &Run) {
	// Every unicast operation.
	r.section("unicast", 12_000, |c, i| {
		let k = [0u64, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 24][(i % 13) as usize];
		let op = random_op(&mut c.rng, k, 400);
		let Wait::One { id, count } = op.wait() else {
			return Ok(());
		};
		let baud = random_baud(&mut c.rng);
		let timeout = reply_timeout(op.timeout_params(), baud);
		let port = SimPort::new(baud);
		port.core().write_ns_per_byte = c.rng.below(1000) * 1000;
		let mut rng = c.rng.clone();
		let mode = c.rng.below(6);
		let n = count.unwrap_or(3);
		port.respond(move |core, _| {
			let f = Pkt::status(id, 0, &rng.clone().bytes(n)).frame();
			match mode {
				0 => (),
				// Just in time, just too late, in pieces.
				1 => core.push(timeout, f),
				2 => core.push(timeout + 1, f),
				3 => {
					let cut = rng.range(1, f.len() - 1);
					let t = rng.below(timeout);
					core.push(t, f[..cut].to_vec());
					core.push(if rng.chance(1, 2) { timeout } else { timeout + 1 }, f[cut..].to_vec());
				},
				4 => {
					// A byte at a time.
					for (k, b) in f.iter().enumerate() {
						core.push(timeout / f.len() as u64 * (k as u64 + 1), vec![*b]);
					}
				},
				_ => {
					for _ in 0..rng.range(1, 8) {
						let mut noise = noise_item(&mut rng, &It::Pkt(Pkt::status(1, 0, &[]))).bytes();
						noise.push(0x11); // So that two pieces of noise can not join to a prefix.
						let t = rng.below(timeout + timeout / 8);
						core.push(t, noise);
					}
				},
			}
		});
		let mut cl = client(&port, 8192, 8192);
		let out = must(run_op(&mut cl, &op, FULL), || op_text(&op))?;
		let events = port.take_events();
		let text = || format!("{} at {baud} baud (traffic {mode}): {out:?}", op_text(&op));
		let deadline = judge_wait(&events, timeout, 0).map_err(|e| format!("{}: {e}", text()))?;
		check!(deadline.is_some(), "{}: never read from the port", text());
		let error = match &out.start {
			Err(e) => Some(e),
			Ok(()) => None,
		};
		judge_end(&port, &events, deadline, error).map_err(|e| format!("{}: {e}", text()))?;
		match mode {
			1 | 4 => check!(out.ok(), "{}: although the reply arrived in time", text()),
			0 | 2 | 5 => check!(error.is_some_and(|e| e.is_timeout()), "{}: although no reply arrived in time", text()),
			_ => (),
		}
		c.count("waits", 1);
		c.count(if error.is_some() { "expired" } else { "answered" }, 1);
		c.distinct(mix(u64::from(baud) << 32 | i % 13 << 8 | mode) ^ timeout);
		Ok(())
	});
	// Every slot of the multi reads, and every step of a scan.
	r.section("slots", 8_000, slots);
	// Explicit timeouts.
	r.section("explicit", 12_000, |c, i| {
		let kinds = [crate::rx::Kind::Client].iter().chain(DEVICE_KINDS).copied().collect::<Vec<_>>();
		let kind = kinds[(i % kinds.len() as u64) as usize];
		let baud = random_baud(&mut c.rng);
		let port = SimPort::new(baud);
		let timeout = match c.rng.below(4) {
			0 => *c.rng.pick(&[0, 1, 999, 1_000, 1_000_000, 999_999_999, SEC, 86_400 * SEC]),
			1 => c.rng.below(1_000_000),
			_ => c.rng.below(100 * SEC),
		};
		pester(&mut c.rng, &port, 0, timeout + timeout / 4, kind != crate::rx::Kind::Client);
		if c.rng.chance(1, 3) {
			let p = crate::rx::random_packet(&mut c.rng, kind, 5);
			let t = c.rng.below(timeout + 1);
			port.push(t, p.frame());
		}
		let mut rx = Rx::new(kind, &port, 128);
		for _ in 0..3 {
			let got = rx.recv(timeout).map_err(|e| format!("receiving {e}"))?;
			let events = port.take_events();
			let text = || format!("{kind:?} receiving with timeout {timeout} ns gave {got:?}");
			let deadline = judge_wait(&events, timeout, 0).map_err(|e| format!("{}: {e}", text()))?;
			judge_end(&port, &events, deadline, got.as_ref().err()).map_err(|e| format!("{}: {e}", text()))?;
			c.count("explicit_waits", 1);
			c.distinct(mix(timeout ^ i << 3));
		}
		Ok(())
	});
	// The automatic timeout of a raw read for every parameter count.
	r.section("raw_counts", 4_000, |c, _| {
		let baud = random_baud(&mut c.rng);
		let port = SimPort::new(baud);
		let n = match c.rng.below(3) {
			0 => c.rng.usize(20) as u16,
			1 => u16::MAX - c.rng.usize(20) as u16,
			_ => c.rng.u16(),
		};
		let mut cl = client(&port, 64, 64);
		let got = guard(|| cl.read_status_response(n).map(|s| s.packet_id()).map_err(E::from)).map_err(|e| format!("read_status_response({n}) at {baud} baud {e}"))?;
		let events = port.take_events();
		let text = || format!("read_status_response({n}) at {baud} baud gave {got:?}");
		let deadline = judge_wait(&events, reply_timeout(n.into(), baud), 0).map_err(|e| format!("{}: {e}", text()))?;
		judge_end(&port, &events, deadline, got.as_ref().err()).map_err(|e| format!("{}: {e}", text()))?;
		check!(got.is_err() && deadline.is_some(), "{}: did not wait", text());
		c.distinct(mix(u64::from(baud) << 16 | u64::from(n)));
		Ok(())
	});
	// Histories of baud rate changes.
	r.section("baud_history", 3_000, baud_history);
}

fn slots(c: &mut Case, i: u64) -> Result<(), String> {
	let baud = random_baud(&mut c.rng);
	let port = SimPort::new(baud);
	let n = c.rng.range(1, 6);
	let ids = distinct_ids(&mut c.rng, n);
	let addr = c.rng.addr();
	let form = i % 5;
	let counts: Vec<u16> = match form {
		0 => vec![4; n],
		1 => vec![c.rng.usize(300) as u16; n],
		2 | 3 => (0..n).map(|_| c.rng.usize(300) as u16).collect(),
		_ => vec![3; n],
	};
	let (timeouts, tolerance): (Vec<u64>, u64) = if form == 4 {
		(vec![scan_timeout(baud); n], 253)
	} else {
		(counts.iter().map(|n| reply_timeout((*n).into(), baud)).collect(), 0)
	};
	// Replies spread so that some are in time, some are late, some come with noise.
	let mut rng = c.rng.clone();
	let (ids2, counts2, timeouts2) = (ids.clone(), counts.clone(), timeouts.clone());
	port.respond(move |core, _| {
		for k in 0..ids2.len() {
			let f = Pkt::status(ids2[k], 0, &rng.clone().bytes(counts2[k].into())).frame();
			let t = timeouts2[k];
			match rng.below(6) {
				0 => core.push(0, f),
				1 => core.push(t - 1000, f),
				2 => (),
				3 => {
					let noise = noise_item(&mut rng, &It::Pkt(Pkt::status(1, 0, &[]))).bytes();
					core.push(t / 2, noise);
				},
				4 => {
					core.push(t / 3, f[..9].to_vec());
					core.push(t / 3, f[9..].to_vec());
				},
				_ => core.push(t / 4, f),
			}
		}
	});
	let mut cl = client(&port, 8192, 8192);
	let describe = || format!("form {form} reading {counts:?} bytes from {ids:?} at {baud} baud");
	let p = port.clone();
	let mut waits = 0u64;
	// Judge a wait after each step; `steps` results, then drop.
	let take = c.rng.usize(n + 2);
	macro_rules! drive {
		($it:expr) => {{
			let mut it = match guard(|| $it).map_err(|e| format!("{}: {e}", describe()))? {
				Ok(it) => it,
				Err(e) => fail!("{}: failed to start: {e:?}", describe()),
			};
			p.take_events();
			let mut k = 0;
			while k < take {
				let item = guard(|| it.next().map(|x| x.map(|_| ()).map_err(E::from))).map_err(|e| format!("{}: {e}", describe()))?;
				let events = p.take_events();
				let expired = form == 4 && item.is_none();
				let timeout = if form == 4 { timeouts[0] } else { *timeouts.get(k).unwrap_or(&0) };
				let text = || format!("{}: result {k} ({item:?})", describe());
				let deadline = judge_wait(&events, timeout, tolerance).map_err(|e| format!("{}: {e}", text()))?;
				if expired {
					check!(deadline == Some(p.core().now), "{}: the scan did not end at its deadline", text());
				} else {
					judge_end(&p, &events, deadline, item.as_ref().and_then(|x| x.as_ref().err())).map_err(|e| format!("{}: {e}", text()))?;
				}
				waits += u64::from(deadline.is_some());
				if item.is_none() {
					check!(form == 4 || deadline.is_none(), "{}: waited after the last result", text());
					break;
				}
				k += 1;
			}
			guard(|| drop(it)).map_err(|e| format!("{}: dropping {e}", describe()))?;
			k
		}};
	}
	let done = match form {
		0 => drive!(cl.sync_read::<i32>(&ids, addr)),
		1 => drive!(cl.sync_read_bytes::<Vec<u8>>(&ids, addr, counts[0])),
		2 | 3 => {
			let reads: Vec<BulkReadData> = ids
				.iter()
				.zip(&counts)
				.map(|(&motor_id, &count)| BulkReadData {
					motor_id,
					address: addr,
					count,
				})
				.collect();
			drive!(cl.bulk_read_bytes::<Vec<u8>>(&reads))
		},
		_ => drive!(cl.scan()),
	};
	// The waits while dropping: each run of reads with one deadline is one wait.
	let events = port.take_events();
	let mut from = 0;
	while from < events.len() {
		let Ev::Read { deadline: d, .. } = &events[from] else {
			from += 1;
			continue;
		};
		let mut to = from;
		while to < events.len() && !matches!(&events[to], Ev::Read { deadline, .. } if deadline != d) {
			to += 1;
		}
		let first_now = match &events[from] {
			Ev::Read { now, .. } => *now,
			_ => 0,
		};
		let duration = d.wrapping_sub(first_now);
		let allowed = if form == 4 { &timeouts[..1] } else { &timeouts[done.min(n)..] };
		check!(
			allowed.iter().any(|t| t.abs_diff(duration) <= tolerance),
			"{}: while dropping after {done} results it waits for {duration} ns, which is none of {allowed:?}",
			describe()
		);
		waits += 1;
		from = to;
	}
	c.count("slot_waits", waits);
	if waits > 0 {
		c.distinct(mix(u64::from(baud) << 20 | form << 16 | done as u64) ^ mix(timeouts[0]));
	}
	Ok(())
}

fn baud_history(c: &mut Case, i: u64) -> Result<(), String> {
	let initial = random_baud(&mut c.rng);
	let port = SimPort::new(initial);
	let mut current = initial;
	let device_kind = (i % 3 == 2).then(|| *c.rng.pick(DEVICE_KINDS));
	let mut rx = Rx::with(device_kind.unwrap_or(crate::rx::Kind::Client), &port, 128, 128);
	let mut history = vec![initial];
	for _ in 0..c.rng.range(2, 8) {
		let baud = random_baud(&mut c.rng);
		let fail_it = c.rng.chance(1, 3);
		{
			let mut core = port.core();
			let calls = core.calls;
			core.fault = if fail_it {
				Fault::At(calls, *c.rng.pick(&[Kind::Other, Kind::Timeout]))
			} else {
				Fault::None
			};
		}
		let (result, reported) = guard(|| match &mut rx {
			Rx::Client(cl) => (cl.set_baud_rate(baud), cl.baud_rate()),
			Rx::Device(d, _) => (d.set_baud_rate(baud), d.baud_rate()),
		})
		.map_err(|e| format!("set_baud_rate({baud}) {e}"))?;
		let events = port.take_events();
		port.core().fault = Fault::None;
		let sets: Vec<_> = events
			.iter()
			.filter_map(|e| match e {
				Ev::SetBaud { baud, err } => Some((*baud, *err)),
				_ => None,
			})
			.collect();
		let text = format!("{history:?}, then set_baud_rate({baud}) {}", if fail_it { "with a failing port" } else { "" });
		check!(
			sets.len() == 1 && sets[0].0 == baud,
			"{text}: the port was asked for {sets:?} instead of {baud}"
		);
		if fail_it {
			check!(
				result.as_ref().err().map(|e| e.id) == sets[0].1,
				"{text}: gave {result:?} instead of the error of the port"
			);
		} else {
			check!(result.is_ok(), "{text}: gave {result:?}");
			current = baud;
		}
		check!(reported == current, "{text}: baud_rate() is {reported} instead of {current}");
		history.push(baud);
		c.count(if fail_it { "failed_baud_changes" } else { "baud_changes" }, 1);
		// The next wait uses it.
		if let Rx::Client(cl) = &mut rx {
			let (op, expect, tolerance) = match c.rng.below(3) {
				0 => (Op::Scan, scan_timeout(current), 253),
				1 => (Op::Ping { id: 3 }, reply_timeout(3, current), 0),
				_ => (
					Op::SyncReadBytes {
						ids: vec![4],
						addr: 0,
						count: 9,
					},
					reply_timeout(9, current),
					0,
				),
			};
			must(run_op(cl, &op, FULL), || op_text(&op))?;
			let mut events = port.take_events();
			if op == Op::Scan {
				// Dropping the scan may wait once more, after the wait that ended it.
				let first = events.iter().position(|e| matches!(e, Ev::Read { .. })).unwrap_or(0);
				events.truncate(first + 1);
			}
			let d = judge_wait(&events, expect, tolerance).map_err(|e| format!("{text}: {}: {e}", op_text(&op)))?;
			check!(d.is_some(), "{text}: {} did not wait", op_text(&op));
			c.count("waits_after_change", 1);
		} else {
			let t = c.rng.below(SEC);
			let _ = rx.recv(t).map_err(|e| format!("receiving {e}"))?;
			let events = port.take_events();
			judge_wait(&events, Duration::from_nanos(t).as_nanos() as u64, 0).map_err(|e| format!("{text}: device receiving: {e}"))?;
		}
		c.distinct(mix(u64::from(baud) << 32 | u64::from(current)) ^ u64::from(fail_it));
	}
	Ok(())
}
