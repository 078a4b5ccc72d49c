//! C15: stale input never answers a new instruction, fresh input is never lost.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{encoder, random_op, Drive, Op, Outcome, Via, Wait, E, FULL};
use crate::port::{Ev, SimPort};
use crate::proto::Pkt;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rx::{random_packet, Rx, DEVICE_KINDS};
use crate::{check, fail};
use std::time::Duration;

pub const RULE: &str = "histories of operations in which each operation's replies carry unique tags, while replies of earlier operations, plausible forged replies and partial packets wait in the port, in the object's own buffer (read together with an earlier reply) or continue to arrive after the instruction; every result must carry the tag of its own operation, between the last byte read and each write there must be a successful discard, and packets that arrive together or ahead of the call are all delivered in order by later receive calls; distinct by (operation, stale bytes, place), non-trivial if stale or early bytes existed";

/// The bytes that stay behind from before an instruction.
fn stale_bytes(rng: &mut Rng, op: &Op) -> Vec<u8> {
	let mut v = vec![];
	for _ in 0..rng.range(1, 3) {
		match rng.below(4) {
			0 => {
				let n = rng.usize(12);
				v.extend(rng.content(n));
			},
			1 => {
				// A partial packet that would swallow what follows.
				let f = Pkt::status(rng.id(), 0, &rng.clone().bytes(20)).frame();
				let n = rng.range(1, f.len() - 1);
				v.extend(&f[..n]);
			},
			_ => {
				// Exactly the sort of reply the operation waits for.
				for p in good_replies(rng, op) {
					v.extend(p.frame());
				}
			},
		}
	}
	v
}

/// Between the last read and each write there is a successful discard.
fn check_discards(events: &[Ev]) -> Result<u64, String> {
	let mut clean = false;
	let mut writes = 0;
	for e in events {
		match e {
			Ev::Discard { err: None } => clean = true,
			Ev::Read { got, .. } if !got.is_empty() => clean = false,
			Ev::Write { .. } => {
				if !clean {
					return Err("wrote without discarding the input first".into());
				}
				writes += 1;
				clean = false;
			},
			_ => (),
		}
	}
	Ok(writes)
}

/// Replies whose data is unique to this step of the history.
fn tagged(rng: &mut Rng, op: &Op, tag: u64) -> Vec<Pkt> {
	let mut replies = good_replies(rng, op);
	for (k, p) in replies.iter_mut().enumerate() {
		let t = mix(tag.wrapping_mul(1000) + k as u64).to_le_bytes();
		for (i, b) in p.params.iter_mut().skip(1).enumerate() {
			*b = t[i % 8].wrapping_add((i / 8) as u8);
		}
		// Without data the alert bit is all there is.
		p.params[0] = (t[7] & 1) << 7;
	}
	replies
}

pub fn run(r: &Run) {
	r.section("histories", 4_000, |c, i| {
		let steps = c.rng.range(2, 10);
		history(c, i, steps)
	});
	r.section("long_lives", 8, |c, i| history(c, i * 1_000_000, if i < 2 { 66_500 } else { 3_000 }));
	// A packet that was being received when the instruction was sent.
	r.section("interrupted", 12_000, |c, i| {
		let k = [0u64, 2, 3, 4, 5, 6, 8, 10, 14, 16, 24, 18, 22][(i % 13) as usize];
		let op = random_op(&mut c.rng, k, 30);
		if matches!(op.wait(), Wait::Nothing { .. }) {
			return Ok(());
		}
		let port = SimPort::default();
		let mut cl = client(&port, 512, 1024);
		// Part of a forged reply arrives (and is read into the object's buffer), the rest after the instruction.
		let forged: Vec<u8> = tagged(&mut c.rng, &op, 1).first().map(|p| p.frame()).unwrap_or_else(|| Pkt::status(1, 0, &[9, 9, 9]).frame());
		let cut = c.rng.range(1, forged.len() - 1);
		let before = forged[..cut].to_vec();
		let in_object = c.rng.chance(1, 2);
		port.push(0, before.clone());
		if in_object {
			let got = guard(|| cl.read_status_response_timeout(Duration::ZERO).map(|_| ()).map_err(E::from)).map_err(|e| format!("read_status_response_timeout {e}"))?;
			check!(matches!(&got, Err(e) if e.is_timeout()), "part of a packet ([{}]) was read as {got:?}", hex(&before));
		}
		let with_rest = c.rng.chance(1, 2);
		let replies = tagged(&mut c.rng, &op, 2);
		let mut after = if with_rest { forged[cut..].to_vec() } else { vec![] };
		if !after.is_empty() && crate::proto::find_prefix(&after).is_some() {
			after.clear();
		}
		let mut chunks = vec![after.clone()];
		chunks.extend(replies.iter().map(|p| p.frame()));
		// The rest of the interrupted packet may happen to end in part of a prefix: still no reply may be lost.
		port.reply_with(chunks);
		let out = must(run_op(&mut cl, &op, FULL), || op_text(&op))?;
		let expect = good_outcome(&op, &replies);
		let what = || {
			format!(
				"{} after [{}] was left {} and [{}] followed the instruction",
				op_text(&op),
				hex(&before),
				if in_object { "in the client's buffer" } else { "in the port" },
				hex(&after)
			)
		};
		check!(out == expect, "{}: gave {out:?} instead of {expect:?}", what());
		check_discards(&port.take_events()).map_err(|e| format!("{}: {e}", what()))?;
		c.count("interrupted_packets", 1);
		c.distinct(mix(hash_bytes(u64::from(in_object), &before) ^ hash_bytes(3, &op.packet().frame())));
		Ok(())
	});
	r.section("fresh", 12_000, fresh_client);
	r.section("device_pipeline", 6_000, device_pipeline);
	// No device reply takes an instruction that arrived before it for one that arrives later.
	r.section("device_stale", 4_000, |c, i| {
		let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
		let port = SimPort::default();
		let mut rx = Rx::with(kind, &port, 512, 512);
		let n = c.rng.range(1, 4);
		let mut bytes = vec![];
		for _ in 0..n {
			let k = c.rng.usize(6);
			bytes.extend(random_packet(&mut c.rng, kind, k).frame());
		}
		let cut = if c.rng.chance(1, 3) { c.rng.usize(6) } else { 0 };
		bytes.truncate(bytes.len() - cut);
		port.push(0, bytes.clone());
		let read_first = c.rng.chance(2, 3);
		if read_first {
			let _ = rx.recv(0).map_err(|e| format!("receiving {e}"))?;
		}
		let Rx::Device(d, _) = &mut rx else { fail!("harness") };
		let sent = guard(|| d.write_status_ok(1)).map_err(|e| format!("write_status_ok {e}"))?;
		check!(sent.is_ok(), "write_status_ok gave {sent:?}");
		check_discards(&port.take_events()).map_err(|e| format!("device after receiving [{}]: {e}", hex(&bytes)))?;
		let fresh = random_packet(&mut c.rng, kind, 5);
		if c.rng.chance(1, 2) {
			port.push(MS, fresh.frame());
			let got = rx.recv(2 * MS).map_err(|e| format!("receiving {e}"))?;
			check!(
				got.as_ref().is_ok_and(|g| g.is(&fresh)),
				"{kind:?}: after [{}] and a status packet of its own the device received {got:?} instead of {fresh:?}",
				hex(&bytes)
			);
		} else {
			let got = rx.recv(MS).map_err(|e| format!("receiving {e}"))?;
			check!(
				matches!(&got, Err(e) if e.is_timeout()),
				"{kind:?}: after [{}] and a status packet of its own the device received {got:?} although nothing arrived",
				hex(&bytes)
			);
		}
		c.count("device_writes", 1);
		c.distinct(hash_bytes(u64::from(read_first), &bytes));
		Ok(())
	});
}

fn history(c: &mut Case, i: u64, steps: usize) -> Result<(), String> {
	let port = SimPort::default();
	port.core().max_read = *c.rng.pick(&[usize::MAX, 7, 1]);
	let big = c.rng.chance(1, 4);
	let mut cl = client(&port, if big { 8192 } else { 1024 }, 2048);
	let mut text = String::new();
	for step in 0..steps {
		port.set_budget(1_000_000);
		if step % 10 == 0 && step > 0 {
			text = format!("\n  ({step} operations)");
		}
		let k = c.rng.below(26);
		let op = random_op(&mut c.rng, k, 30);
		let tag = i * 100 + step as u64;
		let replies = tagged(&mut c.rng, &op, tag);
		// Stale bytes in the port.
		let mut stale = vec![];
		if c.rng.chance(2, 3) {
			stale = stale_bytes(&mut c.rng, &op);
			port.push(0, stale.clone());
		}
		// Stale bytes in the client: arriving together with the last reply of this operation.
		let next_op = random_op(&mut c.rng, k, 30);
		let mut trailing = if c.rng.chance(2, 3) { stale_bytes(&mut c.rng, &next_op) } else { vec![] };
		if big && c.rng.chance(1, 3) {
			// A large part of the read buffer is left over.
			let size = c.rng.range(500, 7000);
			while trailing.len() < size {
				trailing.extend(stale_bytes(&mut c.rng, &next_op));
			}
			c.count("large_left_over", 1);
		}
		let mut all = vec![];
		for p in &replies {
			all.extend(p.frame());
		}
		let waits = !matches!(op.wait(), Wait::Nothing { .. });
		if !matches!(op.wait(), Wait::Scan) {
			all.extend(&trailing);
		}
		let answer = c.rng.chance(4, 5);
		port.reply_with(if answer || !waits { vec![all.clone()] } else { vec![] });
		text.push_str(&format!("\n  {} with stale [{}]", op_text(&op), hex(&stale)));
		let drive = Drive {
			via: *c.rng.pick(&[Via::Iter, Via::Next]),
			take: usize::MAX,
		};
		let out = must(run_op(&mut cl, &op, drive), || text.clone())?;
		if answer || !waits {
			let expect = good_outcome(&op, &replies);
			check!(out == expect, "step {step} gave {out:?} instead of {expect:?} in the history{text}");
		} else {
			// Nothing arrived after the instruction: nothing may be reported.
			let bad = match op.wait() {
				Wait::Scan => !out.items.is_empty(),
				_ => out.start.is_ok() && out.items.iter().any(|x| x.is_ok()) || out.start.as_ref().is_err_and(|e| !e.is_timeout()),
			};
			check!(!bad, "step {step} gave {out:?} although nothing was received, in the history{text}");
		}
		let writes = check_discards(&port.take_events()).map_err(|e| format!("{e} in the history{text}"))?;
		check!(writes == 1, "step {step} made {writes} writes in the history{text}");
		port.core().responder = None;
		c.count("history_steps", 1);
		if !stale.is_empty() {
			c.count("stale_in_port", 1);
			c.distinct(mix(hash_bytes(k, &stale)));
		}
		if !trailing.is_empty() && waits {
			c.count("stale_in_object", 1);
		}
		let _: &Outcome = &out;
	}
	Ok(())
}

/// Raw instructions, then several packets that arrive in any grouping, before or after the receive calls.
fn fresh_client(c: &mut Case, _: u64) -> Result<(), String> {
	let port = SimPort::default();
	// Mostly a few packets; sometimes more than a thousand bytes at once.
	let big = c.rng.chance(1, 30);
	let rbuf = if big { c.rng.range(1500, 9000) } else { c.rng.range(64, 300) };
	let mut cl = client(&port, rbuf, 512);
	let params = c.rng.bytes(3);
	let n = if big { c.rng.range(70, 250) } else { c.rng.range(1, 9) };
	let pkts: Vec<Pkt> = (0..n)
		.map(|k| {
			let mut data = c.rng.bytes(c.rng.clone().usize(20));
			data.push(k as u8);
			Pkt::status(c.rng.id(), *c.rng.pick(&[0, 0x80]), &data)
		})
		.collect();
	let sent = guard(|| cl.write_instruction(0xFE, 0x90, params.len(), encoder(&params))).map_err(|e| format!("write_instruction {e}"))?;
	check!(sent.is_ok(), "write_instruction gave {sent:?}");
	port.take_events();
	// Among them, in some cases, packets that cost one error each and nothing else.
	let mut frames = vec![];
	let mut bad = 0;
	let dirty = c.rng.chance(1, 2);
	for p in &pkts {
		while dirty && c.rng.chance(1, 2) {
			bad += 1;
			let mut q = p.clone();
			match c.rng.below(5) {
				0 => q.params[0] = c.rng.range(1, 127) as u8,
				1 => q.instruction = 0x03,
				2 => q.params.clear(),
				3 => q = Pkt::status(p.id, 0, &vec![7; rbuf]),
				_ => {
					frames.push(crate::traffic::damage(&mut c.rng, &p.frame()));
					continue;
				},
			}
			frames.push(q.frame());
		}
		frames.push(p.frame());
	}
	let all: Vec<u8> = frames.concat();
	let pieces = match c.rng.below(3) {
		0 => vec![all.clone()],
		1 => split(&mut c.rng, &all, 60),
		_ => frames.clone(),
	};
	// Already there, or spread over time.
	let gap = *c.rng.pick(&[0, 0, MS, 3 * MS]);
	push_all(&mut port.core(), &pieces, gap);
	if c.rng.chance(1, 2) {
		// Time passes before the first receive call.
		port.core().now += c.rng.below(40) * MS;
	}
	let mut got = vec![];
	let mut errors = 0;
	let mut timeouts = 0;
	while got.len() < n && timeouts < 200 + 20 * n {
		let timeout = *c.rng.pick(&[0, MS, 100 * MS]);
		let r = guard(|| {
			cl.read_status_response_timeout(Duration::from_nanos(timeout))
				.map(|s| (s.packet_id(), s.error(), s.parameters().to_vec()))
				.map_err(E::from)
		})
		.map_err(|e| format!("read_status_response_timeout {e}"))?;
		match r {
			Ok(x) => got.push(x),
			Err(e) if e.is_timeout() => {
				timeouts += 1;
				port.core().now += MS;
			},
			Err(_) if errors < bad => errors += 1,
			Err(e) => fail!("receiving {pkts:?} in pieces {pieces:?} gave {e:?} after {got:?} and {errors} other errors"),
		}
	}
	c.count("bad_packets_between", errors as u64);
	let want: Vec<_> = pkts.iter().map(|p| (p.id, p.error(), p.data().to_vec())).collect();
	check!(got == want, "receiving {pkts:?} in pieces {pieces:?} gave {got:?}");
	check!(
		!port.take_events().iter().any(|e| matches!(e, Ev::Discard { .. })),
		"a receive call discarded input"
	);
	c.count("fresh_packets", n as u64);
	c.distinct(mix(hash_bytes(pieces.len() as u64, &all)));
	Ok(())
}

fn device_pipeline(c: &mut Case, i: u64) -> Result<(), String> {
	let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
	let port = SimPort::default();
	let big = c.rng.chance(1, 30);
	let rbuf = if big { c.rng.range(1500, 9000) } else { c.rng.range(64, 300) };
	let mut rx = Rx::with(kind, &port, rbuf, 64);
	let n = if big { c.rng.range(70, 200) } else { c.rng.range(1, 8) };
	let mut want = vec![];
	let mut all = vec![];
	let mut bad = 0;
	for _ in 0..n {
		if c.rng.chance(1, 3) {
			let data = c.rng.bytes(c.rng.clone().usize(8));
			all.extend(Pkt::status(c.rng.id(), 0, &data).frame());
		}
		let k = c.rng.usize(20);
		let p = random_packet(&mut c.rng, kind, k);
		if c.rng.chance(1, 4) {
			// A damaged copy, which costs one error and nothing else.
			all.extend(crate::traffic::damage(&mut c.rng, &p.frame()));
			bad += 1;
		}
		all.extend(p.frame());
		want.push(p);
	}
	let max = *c.rng.pick(&[1, 10, 100, 10_000]);
	let pieces = split(&mut c.rng, &all, max);
	push_all(&mut port.core(), &pieces, *c.rng.pick(&[0, MS]));
	let mut k = 0;
	let mut timeouts = 0;
	let mut errors = 0;
	while k < n && timeouts < 1000 + 100 * n {
		match rx.recv(*c.rng.pick(&[0, MS, SEC])).map_err(|e| format!("receiving {e}"))? {
			Ok(got) => {
				check!(got.is(&want[k]), "{kind:?}: packet {k} of {want:?} was received as {got:?}");
				k += 1;
			},
			Err(e) if e.is_timeout() => {
				timeouts += 1;
				port.core().now += MS;
			},
			Err(_) if errors < bad => errors += 1,
			Err(e) => fail!("{kind:?}: receiving packet {k} of {want:?} gave {e:?}"),
		}
	}
	check!(k == n, "{kind:?}: only {k} of {n} packets were received: {want:?}");
	check!(
		!port.take_events().iter().any(|e| matches!(e, Ev::Discard { .. })),
		"{kind:?}: a receive call discarded input"
	);
	c.count("pipelined_instructions", n as u64);
	c.distinct(mix(hash_bytes(max as u64, &all)));
	Ok(())
}
