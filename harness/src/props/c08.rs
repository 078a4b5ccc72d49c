//! C08: unicast operations succeed only with the addressed motor's valid reply.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{random_op, Drive, Expect, Op, Reply, Ty, Via, Wait, E, RESET_KINDS};
use crate::port::SimPort;
use crate::proto::Pkt;
use crate::rng::{hash_bytes, Rng};
use crate::check;
use dynamixel2::bus::StatusPacket;
use dynamixel2::instructions::Ping;
use dynamixel2::{InvalidMessage, InvalidParameterCount, Response};
use std::time::Duration;

pub const RULE: &str = "unicast operations run against scripted replies (every addressed ID with every replying ID for every operation, every expected size with every reply size, instruction packets as replies, random replies followed by correct ones, stale correct replies, raw replies converted into responses); the result must be exactly the reply if it is valid and an error naming one of its defects otherwise; distinct by (operation, reply), non-trivial if a reply was received";

pub const FORMS: u64 = 16;

/// Unicast operation number `k` for this motor.
pub fn unicast(rng: &mut Rng, k: u64, id: u8) -> (Op, Via) {
	let addr = rng.addr();
	let op = match k {
		0 => Op::Ping { id },
		1 => Op::Read { id, addr, ty: Ty::U16 },
		2 => Op::Read { id, addr, ty: Ty::AI32x3 },
		3..=5 => Op::ReadBytes { id, addr, count: 5 },
		6 => Op::Write {
			id,
			addr,
			ty: Ty::I32,
			val: rng.bytes(4),
		},
		7 => Op::WriteBytes {
			id,
			addr,
			data: rng.bytes(3),
		},
		8 => Op::RegWrite {
			id,
			addr,
			ty: Ty::U8,
			val: rng.bytes(1),
		},
		9 => Op::RegWriteBytes {
			id,
			addr,
			data: rng.bytes(2),
		},
		10 => Op::Action { id },
		11 => Op::Reboot { id },
		12 => Op::FactoryReset {
			id,
			kind: *rng.pick(&RESET_KINDS),
		},
		13 => Op::ClearRev { id },
		14 => Op::ClearErr { id },
		_ => Op::Raw {
			id,
			instruction: crate::ops::raw_instruction(rng),
			params: rng.bytes(4),
			expect: 3,
		},
	};
	let via = match k {
		4 => Via::Next,
		5 => Via::Borrow,
		_ => Via::Iter,
	};
	(op, via)
}

/// Run `op` against these reply packets, and judge the result by the first.
fn judge(c: &mut Case, op: &Op, via: Via, replies: &[Pkt], rbuf: usize) -> Result<(), String> {
	let port = SimPort::default();
	port.core().log = false;
	let mut cl = client(&port, rbuf, 1024);
	judge_on(c, &port, &mut cl, op, via, replies)
}

/// The same on a client with a past.
fn judge_on(c: &mut Case, port: &SimPort, cl: &mut Cl, op: &Op, via: Via, replies: &[Pkt]) -> Result<(), String> {
	let Wait::One { id, count } = op.wait() else {
		return Ok(());
	};
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	let out = must(run_op(cl, op, Drive { via, take: 1 }), || op_text(op))?;
	let got = match (&out.start, out.items.first()) {
		(Err(e), _) => Err(e.clone()),
		(Ok(()), Some(r)) => r.clone(),
		(Ok(()), None) => return Err(format!("{} returned no result", op_text(op))),
	};
	judge_reply(&replies[0], id, count, &got).map_err(|e| format!("{} ({via:?}): {e}", op_text(op)))?;
	match &got {
		Ok(_) => c.count("accepted", 1),
		Err(e) => c.count(e.name(), 1),
	}
	c.eval(1);
	c.distinct(hash_bytes(hash_bytes(u64::from(id), op.name().as_bytes()), &replies[0].frame()));
	Ok(())
}

/// The public conversions from a raw reply to a response.
fn convert(c: &mut Case, p: &Pkt) -> Result<(), String> {
	let port = SimPort::default();
	port.core().log = false;
	for _ in 0..3 {
		port.push(0, p.frame());
	}
	let mut cl = client(&port, 2048, 64);
	let data = p.data();
	let want = |data: Vec<u8>| {
		Ok(Reply {
			id: p.id,
			alert: p.error() & 0x80 != 0,
			data,
		})
	};
	let count = |n: usize| {
		Err(E::Count {
			actual: data.len(),
			expected: Expect::Exact(n),
		})
	};
	let wrong = |e: InvalidParameterCount| E::from(InvalidMessage::from(e));
	let mut read = |f: &dyn Fn(StatusPacket) -> Result<Reply, E>| {
		guard(|| match cl.read_status_response_timeout(Duration::ZERO) {
			Err(e) => Err(E::from(e)),
			Ok(s) => f(s),
		})
		.map_err(|e| format!("converting the reply {p:?}: {e}"))
	};
	let got = read(&|s| {
		let r = Response::<&[u8]>::from(s);
		Ok(Reply {
			id: r.motor_id,
			alert: r.alert,
			data: r.data.to_vec(),
		})
	})?;
	check!(got == want(data.to_vec()), "the reply {p:?} converted into a response with its bytes is {got:?}");
	let got = read(&|s| {
		let r = Response::<()>::try_from(s).map_err(wrong)?;
		Ok(Reply {
			id: r.motor_id,
			alert: r.alert,
			data: vec![],
		})
	})?;
	let expect = if data.is_empty() { want(vec![]) } else { count(0) };
	check!(got == expect, "the reply {p:?} converted into an empty response is {got:?} instead of {expect:?}");
	let got = read(&|s| {
		let r = Response::<Ping>::try_from(s).map_err(wrong)?;
		Ok(Reply {
			id: r.motor_id,
			alert: r.alert,
			data: crate::ops::ping_bytes(r.data),
		})
	})?;
	let expect = if data.len() == 3 { want(data.to_vec()) } else { count(3) };
	check!(got == expect, "the reply {p:?} converted into a ping response is {got:?} instead of {expect:?}");
	c.count("conversions", 3);
	Ok(())
}

pub fn run(r: &Run) {
	// Every addressed ID, every operation, every replying ID.
	r.exhaustive("id_pairs", 256 * FORMS, |c, i| {
		let id = (i / FORMS) as u8;
		let (op, via) = unicast(&mut c.rng, i % FORMS, id);
		let Wait::One { count, .. } = op.wait() else {
			return Ok(());
		};
		for replying in 0..=255u8 {
			let alert = if c.rng.chance(1, 3) { 0x80 } else { 0 };
			let data = c.rng.bytes(count.unwrap_or(3));
			judge(c, &op, via, &[Pkt::status(replying, alert, &data)], 64)?;
		}
		Ok(())
	});
	// Every reply size.
	r.exhaustive("sizes", FORMS * 65, |c, i| {
		let n = (i / FORMS) as usize;
		let id = c.rng.motor();
		let (mut op, via) = unicast(&mut c.rng, i % FORMS, id);
		for expected in 0..=40u16 {
			match &mut op {
				Op::ReadBytes { count, .. } => *count = expected,
				Op::Read { ty, .. } => *ty = Ty::ALL[usize::from(expected) % Ty::ALL.len()],
				Op::Raw { expect, .. } => *expect = expected,
				_ if expected > 0 => break,
				_ => (),
			}
			let data = c.rng.content(n);
			judge(c, &op, via, &[Pkt::status(id, 0, &data)], 256)?;
		}
		Ok(())
	});
	// Everything random; a correct reply after the first one must not matter.
	r.section("random", 60_000, |c, i| {
		let k = [0u64, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 24][(i % 13) as usize];
		let op = random_op(&mut c.rng, k, 300);
		let Wait::One { id, count } = op.wait() else {
			return Ok(());
		};
		let reply_id = match c.rng.below(4) {
			0 => c.rng.id(),
			1 => id ^ 1 << c.rng.below(8),
			_ => id,
		};
		let n = match (count, c.rng.below(4)) {
			(Some(n), 0) => n,
			// Equal only in the low byte.
			(n, 3) => {
				let n = n.unwrap_or(3);
				if n >= 256 && c.rng.chance(1, 2) {
					n - 256
				} else {
					n + 256 * c.rng.range(1, 3)
				}
			},
			(Some(n), 1) => (n + c.rng.usize(5)).saturating_sub(2),
			_ => c.rng.size(400),
		};
		let err = match c.rng.below(6) {
			0 => c.rng.u8(),
			1 => 0x80,
			_ => 0,
		};
		let data = c.rng.content(n);
		let first = match c.rng.below(6) {
			0 => Pkt::new(reply_id, crate::ops::raw_instruction(&mut c.rng), data),
			// The instruction itself, as on a bus with echo.
			1 if c.rng.chance(1, 3) => op.packet(),
			_ => Pkt::status(reply_id, err, &data),
		};
		let mut replies = vec![first];
		if c.rng.chance(1, 2) {
			replies.extend(good_replies(&mut c.rng, &op));
		}
		c.sample(|| format!("{} answered by {replies:?}", op_text(&op)));
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		judge(c, &op, via, &replies, 4096)
	});
	// One client for a long life.
	r.section("long_lives", 8, |c, i| {
		let port = SimPort::default();
		port.core().log = false;
		let mut cl = client(&port, 300, 1024);
		for k in 0..if i < 2 { 66_500u64 } else { 3_000 } {
			port.set_budget(1_000_000);
			let id = c.rng.motor();
			let (op, via) = unicast(&mut c.rng, if i == 0 { 0 } else { k % FORMS }, id);
			let Wait::One { count, .. } = op.wait() else { continue };
			let reply_id = if c.rng.chance(1, 4) { c.rng.id() } else { id };
			let n = if c.rng.chance(1, 4) { c.rng.usize(8) } else { count.unwrap_or(3) };
			let err = if c.rng.chance(1, 8) { c.rng.u8() } else { 0 };
			let data = c.rng.bytes(n);
			judge_on(c, &port, &mut cl, &op, via, &[Pkt::status(reply_id, err, &data)]).map_err(|e| format!("operation {k} on the same client: {e}"))?;
		}
		c.count("long_lives", 1);
		Ok(())
	});
	// Raw replies turned into responses.
	r.exhaustive("conversions", 256 * 8, |c, i| {
		let id = (i / 8) as u8;
		let n = i as usize % 8;
		for (data, alert) in [(c.rng.bytes(n), 0), (c.rng.content(n), 0x80)] {
			let p = Pkt::status(id, alert, &data);
			convert(c, &p)?;
			c.eval(1);
			c.distinct(hash_bytes(3, &p.frame()));
		}
		Ok(())
	});
	r.section("long_conversions", 4_000, |c, _| {
		let n = c.rng.size(600);
		let data = c.rng.content(n);
		let (id, alert) = (c.rng.id(), 0x80 * c.rng.below(2) as u8);
		c.eval(1);
		convert(c, &Pkt::status(id, alert, &data))
	});
	// A correct reply that arrived before the instruction was sent is not a reply to it.
	r.section("stale", 20_000, |c, i| {
		let k = [0u64, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 24][(i % 13) as usize];
		let op = random_op(&mut c.rng, k, 40);
		let Wait::One { .. } = op.wait() else {
			return Ok(());
		};
		let port = SimPort::default();
		let stale: Vec<u8> = good_replies(&mut c.rng, &op).iter().flat_map(|p| p.frame()).collect();
		let mut cl = client(&port, 256, 256);
		let how = c.rng.below(3);
		if how > 0 {
			// In the buffer of the client object: read one packet, leave the rest.
			let mut bytes = Pkt::status(1, 0, &[]).frame();
			bytes.extend_from_slice(&stale);
			if how == 2 {
				bytes.truncate(bytes.len() - 1 - c.rng.usize(4));
				port.push(5 * MS, stale[stale.len() - 1..].to_vec());
			}
			port.push(0, bytes);
			let _ = crate::ctx::guard(|| cl.read_status_response(0).is_ok()).map_err(|p| format!("read_status_response {p}"))?;
		} else {
			port.push(0, stale.clone());
		}
		let out = must(run_op(&mut cl, &op, crate::ops::FULL), || op_text(&op))?;
		check!(
			matches!(&out.start, Err(E::Io(e)) if e.kind == crate::port::Kind::Timeout),
			"{} without any reply, after [{}] was received earlier, gave {out:?}",
			op_text(&op),
			hex(&stale)
		);
		c.count("stale", 1);
		c.distinct(hash_bytes(how, &stale));
		Ok(())
	});
}
