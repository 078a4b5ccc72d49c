//! C23: every port failure surfaces once, in the right variant, and the object stays usable.

use crate::common::*;
use crate::ctx::{guard, Case, Run};
use crate::ops::{encoder, random_op, Drive, Op, Outcome, Reply, Via, Wait, E, FULL};
use crate::port::{Ev, Fault, Kind, SimError, SimPort};
use crate::proto::Pkt;
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rx::{random_packet, Rx, DEVICE_KINDS};
use crate::{check, fail};

pub const RULE: &str = "for every operation and reply scenario the fallible port calls (discard, write, read, set baud rate) of a fault-free run are counted, then the operation is run again with a failure injected at each of these calls, once and persistently, recognised as a timeout or not, followed by fault-free operations on the same object; distinct by (operation, scenario, call index, kind, persistence)";

/// Replies as arrival chunks: sometimes several reads per reply.
fn chunks(rng: &mut Rng, replies: &[Pkt]) -> Vec<Vec<u8>> {
	let piece = *rng.pick(&[1usize, 3, 7, 1000]);
	replies.iter().flat_map(|p| split(rng, &p.frame(), piece)).collect()
}

/// The failures that were injected, in order.
fn injected(events: &[Ev], from: &dyn Fn(u64) -> bool) -> Vec<(usize, E)> {
	let err = |id: u64, kind: Kind| SimError { id, kind };
	events
		.iter()
		.enumerate()
		.filter_map(|(i, e)| match e {
			Ev::Discard { err: Some(id) } if from(*id) => Some((i, E::Discard(err(*id, Kind::Other)))),
			Ev::Write { err: Some(id), .. } if from(*id) => Some((i, E::Write(err(*id, Kind::Other)))),
			Ev::Read { err: Some((id, kind)), .. } if from(*id) => Some((i, E::Io(err(*id, *kind)))),
			_ => None,
		})
		.collect()
}

fn error_id(e: &E) -> Option<u64> {
	match e {
		E::Discard(e) | E::Write(e) | E::Io(e) => Some(e.id),
		_ => None,
	}
}

/// The kind is part of the injected fault; discard and write events do not carry it.
fn with_kind(e: E, kind: Kind) -> E {
	match e {
		E::Discard(x) => E::Discard(SimError { kind, ..x }),
		E::Write(x) => E::Write(SimError { kind, ..x }),
		E::Io(x) => E::Io(SimError { kind, ..x }),
		e => e,
	}
}

/// Rules that hold for the calls around any failure.
fn check_order(events: &[Ev], single: bool) -> Result<(), String> {
	let calls: Vec<&Ev> = events.iter().filter(|e| !matches!(e, Ev::Deadline { .. })).collect();
	let writes = calls.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
	check!(writes <= 1, "the instruction was written {writes} times");
	for (i, e) in calls.iter().enumerate() {
		let rest = &calls[i + 1..];
		match e {
			Ev::Discard { err: Some(_) } => {
				check!(
					!rest.iter().any(|e| matches!(e, Ev::Write { .. })),
					"something was written after the input could not be discarded"
				);
				check!(rest.is_empty() || !single, "more port calls after a failed discard: {rest:?}");
			},
			Ev::Write { err: Some(_), .. } => {
				check!(
					!rest.iter().any(|e| matches!(e, Ev::Read { .. })),
					"something was read after the instruction could not be written"
				);
				check!(rest.is_empty(), "more port calls after a failed write: {rest:?}");
			},
			Ev::Read { err: Some(_), .. } if single => {
				check!(rest.is_empty(), "more port calls after a failed read: {rest:?}");
			},
			_ => (),
		}
	}
	Ok(())
}

/// The result of an operation during which these failures were injected.
fn judge(op: &Op, expect: &Outcome, out: &Outcome, faults: &[(usize, E)]) -> Result<(), String> {
	let Some((_, first)) = faults.first() else {
		check!(out == expect, "without a failure it gave {out:?} instead of {expect:?}");
		return Ok(());
	};
	let multi = matches!(op.wait(), Wait::Each(_) | Wait::Scan);
	if !multi || !matches!(first, E::Io(_)) {
		check!(
			out.start == Err(first.clone()) && out.items.is_empty(),
			"it gave {out:?} instead of the failure {first:?}"
		);
		check!(faults.len() == 1, "it went on after {first:?}: {faults:?}");
		return Ok(());
	}
	check!(out.start.is_ok(), "it gave {out:?} although the instruction was transmitted");
	if op.wait() == Wait::Scan {
		return Ok(());
	}
	check!(
		out.ended && out.items.len() == expect.items.len(),
		"{} results instead of {}: {out:?}",
		out.items.len(),
		expect.items.len()
	);
	// Each failure of a read is the result of one motor.
	let errors: Vec<&E> = out.items.iter().filter_map(|x| x.as_ref().err()).collect();
	for (_, f) in faults {
		let n = errors.iter().filter(|e| **e == f).count();
		check!(n == 1, "the failure {f:?} was reported {n} times: {out:?}");
	}
	let first_slot = out.items.iter().position(|x| x.as_ref() == Err(first)).unwrap();
	for (i, (got, want)) in out.items.iter().zip(&expect.items).enumerate() {
		match got {
			Ok(_) => check!(got == want, "result {i} is {got:?} instead of {want:?}"),
			Err(e) => check!(i >= first_slot, "result {i} is {e:?} although no port call failed before: {want:?}"),
		}
	}
	Ok(())
}

/// After the port has recovered, the object works as if nothing had happened.
fn recovered(c: &mut Case, cl: &mut Cl, port: &SimPort, what: &str) -> Result<(), String> {
	port.core().fault = Fault::None;
	port.core().now += SEC;
	port.take_events();
	for _ in 0..2 {
		let k = c.rng.below(26);
		let op = random_op(&mut c.rng, k, 30);
		let replies = good_replies(&mut c.rng, &op);
		let list = chunks(&mut c.rng, &replies);
		port.reply_with(list);
		let out = must(run_op(cl, &op, FULL), || format!("{what}, then {}", op_text(&op)))?;
		let expect = good_outcome(&op, &replies);
		check!(
			out == expect,
			"{what}: after the port recovered, {} answered by {replies:?} gave {out:?} instead of {expect:?}",
			op_text(&op)
		);
		check_frame(&port.take_events(), &op.packet()).map_err(|e| format!("{what}: after the port recovered, {}: {e}", op_text(&op)))?;
		port.core().now += SEC;
	}
	c.count("operations_after_recovery", 2);
	Ok(())
}

fn client_case(c: &mut Case, i: u64) -> Result<(), String> {
	let k = i % 26;
	let op = random_op(&mut c.rng, k, 24);
	if op == Op::Scan {
		return scan_case(c);
	}
	let mut replies = good_replies(&mut c.rng, &op);
	// Noise and, for multi reads, a missing reply, so that failures hit other states too.
	let drive = Drive {
		via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
		take: usize::MAX,
	};
	let expect = good_outcome(&op, &replies);
	let lead = c.rng.chance(1, 3);
	let mut list = chunks(&mut c.rng, &replies);
	if lead && !list.is_empty() {
		let n = c.rng.range(1, 9);
		let f = replies[0].frame();
		list.insert(0, noise(&mut c.rng, n, &f));
	}
	let make = |fault: Fault| {
		let port = SimPort::default();
		port.core().one_chunk = true;
		port.reply_with(list.clone());
		let cl = client(&port, 256, 2048);
		// Stale input, to be discarded.
		port.push(0, vec![0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x20]);
		port.core().fault = fault;
		(port, cl)
	};
	let (port, mut cl) = make(Fault::None);
	let what = format!("{} answered by {replies:?}", op_text(&op));
	let out = must(run_op(&mut cl, &op, drive), || what.clone())?;
	check!(out == expect, "{what}: gave {out:?} instead of {expect:?}");
	let calls = port.core().calls;
	c.sample(|| format!("{what}: {calls} port calls"));
	c.count("port_calls_enumerated", calls);
	replies.clear();
	for at in 0..calls {
		for kind in [Kind::Timeout, Kind::Other] {
			for fault in [Fault::At(at, kind), Fault::From(at, kind)] {
				let (port, mut cl) = make(fault);
				let what = format!("{what} with {fault:?} of {calls} port calls");
				let before = port.core().next_error;
				let out = must(run_op(&mut cl, &op, drive), || what.clone())?;
				let events = port.take_events();
				// Only injected failures happen up to the first one; later natural timeouts are the consequence.
				let natural = |id: u64| match fault {
					Fault::At(..) => id != before + 1,
					_ => id <= before,
				};
				let faults: Vec<(usize, E)> = injected(&events, &|id| !natural(id)).into_iter().map(|(i, e)| (i, with_kind(e, kind))).collect();
				check!(!faults.is_empty(), "{what}: the port call was not made: {events:?}");
				let single = !matches!(op.wait(), Wait::Each(_) | Wait::Scan);
				check_order(&events, single).map_err(|e| format!("{what}: {e}"))?;
				judge(&op, &expect, &out, &faults).map_err(|e| format!("{what}: {e}"))?;
				c.distinct(mix(hash_str(at << 8 | (kind == Kind::Other) as u64, &format!("{fault:?} {}", op.name())) ^ hash_bytes(calls, &op.packet().params)));
				c.count(
					match &faults[0].1 {
						E::Discard(_) => "discard_failures",
						E::Write(_) => "write_failures",
						_ => "read_failures",
					},
					1,
				);
				recovered(c, &mut cl, &port, &what)?;
			}
		}
	}
	Ok(())
}

fn scan_case(c: &mut Case) -> Result<(), String> {
	let op = Op::Scan;
	let replies = good_replies(&mut c.rng, &op);
	let list = chunks(&mut c.rng, &replies);
	let expect: Vec<Reply> = good_outcome(&op, &replies).items.into_iter().map(|x| x.unwrap()).collect();
	let use_next = c.rng.chance(1, 2);
	type Got = (Result<(), E>, Vec<Result<Reply, E>>, u64, u64);
	let run = |fault: Fault| -> Result<(SimPort, Cl, Got), String> {
		let port = SimPort::default();
		port.core().one_chunk = true;
		port.reply_with(list.clone());
		let mut cl = client(&port, 256, 2048);
		port.core().fault = fault;
		let p = port.clone();
		let got = guard(|| match cl.scan() {
			Err(e) => (Err(E::from(e)), vec![], 0, 0),
			Ok(mut scan) => {
				let mut items = vec![];
				while items.len() < 20 {
					let item = if use_next { scan.scan_next() } else { scan.next() };
					let Some(item) = item else { break };
					items.push(
						item.map(|r| Reply {
							id: r.motor_id,
							alert: r.alert,
							data: crate::ops::ping_bytes(r.data),
						})
						.map_err(E::from),
					);
				}
				let calls = p.core().calls;
				// The end is final: asking again waits at most once more and gives nothing.
				drop(scan);
				let total = p.core().calls;
				(Ok(()), items, calls, total)
			},
		})
		.map_err(|e| format!("scan answered by {replies:?} with {fault:?} {e}"))?;
		Ok((port, cl, got))
	};
	let (_, _, (start, items, calls, _)) = run(Fault::None)?;
	check!(start.is_ok(), "a scan gave {start:?}");
	let all: Vec<Result<Reply, E>> = expect.iter().cloned().map(Ok).collect();
	check!(items == all, "a scan answered by {replies:?} gave {items:?}");
	for at in 0..calls {
		for kind in [Kind::Timeout, Kind::Other] {
			for fault in [Fault::At(at, kind), Fault::From(at, kind)] {
				let (port, mut cl, (start, items, used, _)) = run(fault)?;
				let what = format!("a scan answered by {replies:?} with {fault:?} of {calls} port calls");
				let events = port.take_events();
				check_order(&events, false).map_err(|e| format!("{what}: {e}"))?;
				let faults: Vec<(usize, E)> = injected(&events, &|_| true).into_iter().map(|(i, e)| (i, with_kind(e, kind))).collect();
				check!(!faults.is_empty(), "{what}: the port call was not made: {events:?}");
				let first = faults[0].1.clone();
				match first {
					E::Discard(_) | E::Write(_) => {
						check!(start == Err(first.clone()) && items.is_empty(), "{what}: gave {start:?} {items:?}");
					},
					_ => {
						check!(start.is_ok(), "{what}: gave {start:?} although the instruction was transmitted");
						let (got, errors): (Vec<_>, Vec<_>) = items.iter().partition(|x| x.is_ok());
						let got: Vec<Reply> = got.into_iter().map(|x| x.clone().unwrap()).collect();
						let errors: Vec<E> = errors.into_iter().map(|x| x.clone().unwrap_err()).collect();
						check!(
							got.len() <= expect.len() && got[..] == expect[..got.len()],
							"{what}: reported {got:?}"
						);
						if kind == Kind::Timeout {
							check!(errors.is_empty(), "{what}: reported {errors:?} although a timeout is the end of the scan");
						} else {
							check!(errors == vec![first.clone()], "{what}: reported {errors:?} instead of once {first:?}");
							check!(items.last().is_some_and(|x| x.is_err()), "{what}: went on after {first:?}: {items:?}");
						}
						check!(used == at + 1, "{what}: {} more port calls before the scan ended", used - at - 1);
					},
				}
				c.distinct(mix(hash_str(at << 8 | (kind == Kind::Other) as u64, &format!("scan {fault:?} {}", replies.len()))));
				c.count("scan_failures", 1);
				recovered(c, &mut cl, &port, &what)?;
			}
		}
	}
	Ok(())
}

fn device_case(c: &mut Case, i: u64) -> Result<(), String> {
	let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
	let n = c.rng.usize(20);
	let pkt = random_packet(&mut c.rng, kind, n);
	let status = Pkt::status(c.rng.id(), c.rng.u8(), &{
		let n = c.rng.usize(12);
		c.rng.content(n)
	});
	let receive = c.rng.chance(1, 2);
	let list = chunks(&mut c.rng, &[pkt.clone()]);
	let form = c.rng.below(3);
	let run = |port: &SimPort, rx: &mut Rx| -> Result<Result<(), E>, String> {
		if receive {
			let got = rx.recv(MS).map_err(|e| format!("receiving {pkt:?} {e}"))?;
			return Ok(match got {
				Ok(g) if g.is(&pkt) => Ok(()),
				Ok(g) => fail!("{pkt:?} was received as {g:?}"),
				Err(e) => Err(e),
			});
		}
		let _ = port;
		let Rx::Device(d, _) = rx else { unreachable!() };
		guard(|| match form {
			0 => d.write_status(status.id, status.error(), status.data().len(), encoder(status.data())),
			1 => d.write_status_error(status.id, status.error()),
			_ => d.write_status_ok(status.id),
		})
		.map(|r| r.map_err(E::from))
		.map_err(|e| format!("sending {status:?} {e}"))
	};
	let make = |fault: Fault| {
		let port = SimPort::default();
		port.core().one_chunk = true;
		let rx = Rx::new(kind, &port, 128);
		if receive {
			for x in &list {
				port.push(0, x.clone());
			}
		}
		port.core().fault = fault;
		(port, rx)
	};
	let (port, mut rx) = make(Fault::None);
	let r = run(&port, &mut rx)?;
	check!(r.is_ok(), "without failures a device gave {r:?}");
	let calls = port.core().calls;
	for at in 0..calls {
		for fk in [Kind::Timeout, Kind::Other] {
			for fault in [Fault::At(at, fk), Fault::From(at, fk)] {
				let (port, mut rx) = make(fault);
				let what = format!(
					"{kind:?} {} with {fault:?} of {calls} port calls",
					if receive { format!("receiving {pkt:?}") } else { format!("sending {status:?} (form {form})") }
				);
				let r = run(&port, &mut rx)?;
				let events = port.take_events();
				let faults: Vec<E> = injected(&events, &|_| true).into_iter().map(|(_, e)| with_kind(e, fk)).collect();
				check!(faults.len() == 1, "{what}: {} calls failed: {events:?}", faults.len());
				check!(r == Err(faults[0].clone()), "{what}: gave {r:?} instead of {:?}", faults[0]);
				check_order(&events, true).map_err(|e| format!("{what}: {e}"))?;
				// Recovery: what was being received is still there, and both directions work.
				port.core().fault = Fault::None;
				if receive {
					let got = rx.recv(MS).map_err(|e| format!("{what}, then {e}"))?;
					check!(
						got.as_ref().is_ok_and(|g| g.is(&pkt)),
						"{what}: after the port recovered {pkt:?} was received as {got:?}"
					);
				}
				port.take_events();
				{
					let Rx::Device(d, _) = &mut rx else { unreachable!() };
					let r = guard(|| d.write_status(status.id, status.error(), status.data().len(), encoder(status.data())).map_err(E::from))
						.map_err(|e| format!("{what}, then sending {e}"))?;
					check!(r.is_ok(), "{what}: after the port recovered, sending gave {r:?}");
					check_frame(&port.take_events(), &status).map_err(|e| format!("{what}: after the port recovered: {e}"))?;
				}
				let next = random_packet(&mut c.rng, kind, 5);
				port.push(0, next.frame());
				let got = rx.recv(MS).map_err(|e| format!("{what}, then {e}"))?;
				check!(
					got.as_ref().is_ok_and(|g| g.is(&next)),
					"{what}: after the port recovered {next:?} was received as {got:?}"
				);
				c.distinct(mix(hash_str(at << 9 | (fk == Kind::Other) as u64, &format!("{kind:?} {fault:?} {receive} {form}")) ^ hash_bytes(0, &pkt.params)));
				c.count(if receive { "device_read_failures" } else { "device_write_failures" }, 1);
			}
		}
	}
	Ok(())
}

/// A history of operations in which many port calls fail.
fn history(c: &mut Case, steps: usize) -> Result<(), String> {
	let port = SimPort::default();
	port.core().one_chunk = true;
	let mut cl = client(&port, 256, 2048);
	let mut baud = 57_600u32;
	let mut text = String::new();
	for step in 0..steps {
		port.set_budget(1_000_000);
		if step % 30 == 29 {
			text = format!("({step} operations) ...");
		}
		port.core().now += SEC;
		port.take_events();
		let fails = c.rng.chance(2, 3);
		let fk = *c.rng.pick(&[Kind::Timeout, Kind::Other]);
		let at = port.core().calls + c.rng.below(5);
		port.core().fault = match (fails, c.rng.below(3)) {
			(false, _) => Fault::None,
			(_, 0) => Fault::From(at, fk),
			_ => Fault::At(at, fk),
		};
		if c.rng.chance(1, 8) {
			let b = 1 + c.rng.u32() % 4_000_000;
			let r = guard(|| cl.set_baud_rate(b)).map_err(|e| format!("{text}: set_baud_rate {e}"))?;
			let events = port.take_events();
			let err = match &events[..] {
				[Ev::SetBaud { baud, err }] if *baud == b => *err,
				_ => fail!("{text}: set_baud_rate({b}) made the port calls {events:?}"),
			};
			check!(
				r.as_ref().err().map(|e| (e.id, e.kind)) == err.map(|id| (id, fk)),
				"{text}: set_baud_rate({b}) gave {r:?}, the port {err:?}"
			);
			if r.is_ok() {
				baud = b;
			}
			check!(cl.baud_rate() == baud, "{text}: the baud rate is {} instead of {baud} after {r:?}", cl.baud_rate());
			text += " baud";
			c.count("set_baud_rate_calls", 1);
			continue;
		}
		let k = c.rng.below(26);
		let op = random_op(&mut c.rng, k, 16);
		let replies = good_replies(&mut c.rng, &op);
		let list = chunks(&mut c.rng, &replies);
		port.reply_with(list);
		let before = port.core().next_error;
		text += &format!(" {step}:{}{}", op.name(), if fails { "!" } else { "" });
		let out = must(run_op(&mut cl, &op, FULL), || text.clone())?;
		let events = port.take_events();
		let fault = port.core().fault;
		let faults: Vec<(usize, E)> = match fault {
			Fault::None | Fault::AfterBytes(..) => vec![],
			Fault::At(..) => {
				// Later errors are natural timeouts.
				let first = events.iter().find_map(|e| match e {
					Ev::Discard { err: Some(id) } | Ev::Write { err: Some(id), .. } | Ev::Read { err: Some((id, _)), .. } => Some(*id),
					_ => None,
				});
				if port.core().calls > at { injected(&events, &|id| Some(id) == first) } else { vec![] }
			},
			Fault::From(..) => injected(&events, &|id| id > before),
		}
		.into_iter()
		.map(|(i, e)| (i, with_kind(e, fk)))
		.collect();
		if op == Op::Scan {
			// Judged in detail elsewhere; the last wait of a scan times out anyway.
			let errors: Vec<&E> = out.items.iter().filter_map(|x| x.as_ref().err()).collect();
			check!(errors.len() <= 1, "{text}: a scan reported {out:?}");
			continue;
		}
		let single = !matches!(op.wait(), Wait::Each(_));
		check_order(&events, single).map_err(|e| format!("{text}: {e}"))?;
		let expect = good_outcome(&op, &replies);
		judge(&op, &expect, &out, &faults).map_err(|e| format!("{text}: {} {fault:?}: {e}", op_text(&op)))?;
		for x in &out.items {
			if let Err(e) = x {
				check!(error_id(e).is_none_or(|id| id > before), "{text}: reported an old failure {e:?}");
			}
		}
		c.count("history_operations", 1);
		c.count("history_failures", faults.len() as u64);
	}
	c.distinct(mix(hash_str(0, &text)));
	Ok(())
}

pub fn run(r: &Run) {
	r.section("client", 26 * 12, |c, i| client_case(c, i));
	r.section("scan", 60, |c, _| scan_case(c));
	r.section("device", 600, |c, i| device_case(c, i));
	r.section("histories", 3_000, |c, _| {
		let steps = c.rng.range(4, 24);
		history(c, steps)
	});
	r.section("long_lives", 6, |c, _| history(c, 3_000));
	// A port that can not tell its baud rate.
	r.section("opening", 64, |c, i| {
		let port = SimPort::default();
		port.core().baud_error = i % 2 == 0;
		let is_client = c.rng.chance(1, 2);
		let id = port.core().next_error;
		let err: Option<SimError> = if is_client {
			dynamixel2::Client::with_buffers(port.clone(), vec![0; 64], vec![0; 64]).err()
		} else {
			dynamixel2::Device::with_buffers(port.clone(), vec![0; 64], vec![0; 64]).err()
		};
		let want = (i % 2 == 0).then_some(SimError {
			id: id + 1,
			kind: Kind::Other,
		});
		check!(err == want, "opening a port whose baud rate gives {want:?} gave {err:?}");
		check!(port.take_events().is_empty(), "opening a port used it");
		c.distinct(mix(i % 4));
		Ok(())
	});
}
