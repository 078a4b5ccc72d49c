//! C12: broadcast commands do not wait, unicast commands read exactly one reply.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{random_op, Op, Wait, E, FULL, RESET_KINDS};
use crate::port::{Ev, SimPort};
use crate::proto::{Pkt, BROADCAST};
use crate::rng::{hash_bytes, mix, Rng};
use crate::{check, fail};
use std::time::Duration;

pub const RULE: &str = "every acknowledged command form is run for all 256 motor IDs on a port where nothing, one or several replies are waiting or arrive after the instruction, and every broadcast form with replies queued; the event log must show no read for a broadcast and exactly one consumed packet otherwise (the next queued packet stays readable); distinct by (command, ID, traffic), non-trivial if the command was transmitted";

pub const FORMS: u64 = 11;

/// Acknowledged command number `k`.
fn ack(rng: &mut Rng, k: u64, id: u8) -> Op {
	let addr = rng.addr();
	let n = rng.usize(12);
	match k {
		0 => {
			let ty = *rng.pick(crate::ops::Ty::ALL);
			Op::Write {
				id,
				addr,
				ty,
				val: rng.bytes(ty.size()),
			}
		},
		1 => Op::WriteBytes {
			id,
			addr,
			data: rng.bytes(n),
		},
		2 => {
			let ty = *rng.pick(crate::ops::Ty::ALL);
			Op::RegWrite {
				id,
				addr,
				ty,
				val: rng.bytes(ty.size()),
			}
		},
		3 => Op::RegWriteBytes {
			id,
			addr,
			data: rng.bytes(n),
		},
		4 => Op::Action { id },
		5 => Op::Reboot { id },
		6..=8 => Op::FactoryReset {
			id,
			kind: RESET_KINDS[k as usize - 6],
		},
		9 => Op::ClearRev { id },
		_ => Op::ClearErr { id },
	}
}

/// Run an operation that must not wait, with these replies following the instruction.
fn no_wait(c: &mut Case, op: &Op, stale: &[u8], replies: &[Pkt], late: u64) -> Result<(), String> {
	let port = SimPort::default();
	port.core().write_ns_per_byte = 100;
	port.push(0, stale.to_vec());
	let frames: Vec<Vec<u8>> = replies.iter().map(|p| p.frame()).collect();
	port.respond(move |core, _| {
		for f in &frames {
			core.push(late, f.clone());
		}
	});
	let mut cl = client(&port, 256, 4096);
	let out = must(run_op(&mut cl, op, FULL), || op_text(op))?;
	let events = port.take_events();
	let expect = good_outcome(op, &[]);
	let describe = || format!("{} with replies {replies:?} on the bus", op_text(op));
	check!(out == expect, "{}: gave {out:?} instead of {expect:?}", describe());
	check_frame(&events, &op.packet()).map_err(|e| format!("{}: {e}", describe()))?;
	if let Some(e) = events.iter().find(|e| matches!(e, Ev::Read { .. })) {
		fail!("{}: read from the port: {e:?}", describe());
	}
	// Nothing was consumed either: the first queued packet is the next to be read.
	if let Some(p) = replies.first() {
		let got = guard(|| {
			cl.read_status_response_timeout(Duration::from_nanos(late))
				.map(|s| (s.packet_id(), s.error(), s.parameters().to_vec()))
				.map_err(E::from)
		})
		.map_err(|e| format!("{}: read_status_response {e}", describe()))?;
		check!(
			got == Ok((p.id, p.error(), p.data().to_vec())),
			"{}: the next packet read from the bus was {got:?}",
			describe()
		);
		c.count("not_consumed", 1);
	}
	c.count("broadcasts", 1);
	c.distinct(mix(hash_bytes(1, &op.packet().frame())) ^ hash_bytes(2, stale) ^ replies.len() as u64);
	Ok(())
}

/// Run a unicast command; it must take exactly the first reply, not before it arrived.
fn one_reply(c: &mut Case, op: &Op, id: u8, replies: &[Pkt], at: u64, together: bool) -> Result<(), String> {
	let port = SimPort::default();
	let frames: Vec<Vec<u8>> = replies.iter().map(|p| p.frame()).collect();
	port.respond(move |core, _| {
		if together {
			core.push(at, frames.concat());
		} else {
			for f in &frames {
				core.push(at, f.clone());
			}
		}
	});
	port.core().one_chunk = !together;
	let mut cl = client(&port, 256, 4096);
	let start = port.core().now;
	let out = must(run_op(&mut cl, op, FULL), || op_text(op))?;
	let describe = || format!("{} answered after {at} ns by {replies:?}", op_text(op));
	let timeout = crate::traffic::reply_timeout(op.timeout_params(), 57_600);
	if replies.is_empty() || at > timeout {
		check!(
			matches!(&out.start, Err(e) if e.is_timeout()),
			"{}: gave {out:?} although no reply was received in time",
			describe()
		);
		check!(port.reads() > 0, "{}: did not read from the port", describe());
		c.count("unicast_without_reply", 1);
		return Ok(());
	}
	let count = match op.wait() {
		Wait::One { count, .. } => count,
		_ => fail!("harness: {} is not a unicast operation", op_text(op)),
	};
	let got = match &out.start {
		Err(e) => Err(e.clone()),
		Ok(()) => out.items.first().cloned().ok_or("no result")?,
	};
	judge_reply(&replies[0], id, count, &got).map_err(|e| format!("{}: {e}", describe()))?;
	check!(
		port.core().now >= start + at,
		"{}: returned {out:?} {} ns before the reply",
		describe(),
		start + at - port.core().now
	);
	// All other replies are still there.
	for p in &replies[1..] {
		let got = guard(|| {
			cl.read_status_response_timeout(Duration::ZERO)
				.map(|s| (s.packet_id(), s.error(), s.parameters().to_vec()))
				.map_err(E::from)
		})
		.map_err(|e| format!("{}: read_status_response {e}", describe()))?;
		let want = if p.error() & 0x7F != 0 {
			Err(E::Motor(p.error()))
		} else {
			Ok((p.id, p.error(), p.data().to_vec()))
		};
		check!(
			got == want,
			"{}: the next packet read from the bus was {got:?} instead of {want:?}",
			describe()
		);
	}
	let left = guard(|| cl.read_status_response_timeout(Duration::ZERO).map(|s| s.packet_id()).map_err(E::from))
		.map_err(|e| format!("{}: read_status_response {e}", describe()))?;
	check!(
		matches!(&left, Err(e) if e.is_timeout()),
		"{}: after all packets were read another read gave {left:?}",
		describe()
	);
	c.count("unicast", 1);
	c.distinct(hash_bytes(hash_bytes(at, &op.packet().frame()), &replies.iter().flat_map(|p| p.frame()).collect::<Vec<_>>()));
	Ok(())
}

fn some_replies(rng: &mut Rng, id: u8, n: usize) -> Vec<Pkt> {
	(0..n)
		.map(|k| {
			let err = *rng.pick(&[0, 0, 0x80]);
			let data = if k == 0 { vec![] } else { rng.bytes(rng.clone().usize(5)) };
			Pkt::status(id, err, &data)
		})
		.collect()
}

pub fn run(r: &Run) {
	r.exhaustive("all_ids", 256 * FORMS, |c, i| {
		let id = (i / FORMS) as u8;
		let op = ack(&mut c.rng, i % FORMS, id);
		for n in 0..3 {
			let reply_id = if id == BROADCAST { c.rng.motor() } else { id };
			let replies = some_replies(&mut c.rng, reply_id, n);
			c.eval(1);
			if id == BROADCAST {
				let stale = if n == 2 { Pkt::status(id, 0, &[]).frame() } else { vec![] };
				no_wait(c, &op, &stale, &replies, 0)?;
				no_wait(c, &op, &stale, &replies, 5 * MS)?;
			} else {
				one_reply(c, &op, id, &replies, 0, true)?;
				one_reply(c, &op, id, &replies, c.i % 7 * MS, n == 1)?;
			}
		}
		Ok(())
	});
	r.section("broadcast_forms", 6_000, |c, i| {
		let k = [5u64, 7, 9, 11, 13, 15, 17, 20, 21, 23][(i % 10) as usize];
		let mut op = random_op(&mut c.rng, k, 60);
		if !matches!(op.wait(), Wait::Nothing { .. }) {
			let k = c.rng.below(FORMS);
			op = ack(&mut c.rng, k, BROADCAST);
		}
		if matches!(op, Op::RawWrite { .. }) {
			return Ok(());
		}
		let n = c.rng.usize(3);
		let id = c.rng.id();
		let replies = some_replies(&mut c.rng, id, n);
		let stale = match c.rng.below(3) {
			0 => Pkt::status(BROADCAST, 0x80, &[]).frame(),
			1 => c.rng.content(9),
			_ => vec![],
		};
		let late = *c.rng.pick(&[0, 0, 1, 30 * MS, SEC]);
		c.sample(|| format!("{} with replies {replies:?} after {late} ns and [{}] waiting", op_text(&op), hex(&stale)));
		no_wait(c, &op, &stale, &replies, late)
	});
	r.section("unicast_forms", 8_000, |c, _| {
		let id = loop {
			let id = c.rng.id();
			if id != BROADCAST {
				break id;
			}
		};
		let k = c.rng.below(FORMS);
		let op = ack(&mut c.rng, k, id);
		let n = c.rng.usize(4);
		let mut replies = some_replies(&mut c.rng, id, n);
		if n > 0 && c.rng.chance(1, 4) {
			// A wrong reply is consumed as the reply, too.
			let reply_id = if c.rng.chance(1, 2) { BROADCAST } else { c.rng.id() };
			let err = *c.rng.pick(&[0, 0x80, 0x04, 0x81]);
			let data = c.rng.bytes(c.rng.clone().usize(3));
			replies[0] = Pkt::status(reply_id, err, &data);
		}
		let at = *c.rng.pick(&[0, 1, MS, 30 * MS, 36 * MS, 37 * MS, SEC]);
		let together = c.rng.chance(1, 2);
		one_reply(c, &op, id, &replies, at, together)
	});
}
