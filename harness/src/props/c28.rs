//! C28: code of the caller that the library calls gets exactly what it needs, and its errors and panics stay its own.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Panicked, Run};
use crate::ops::{distinct_ids, random_op, Via, E, FULL};
use crate::port::{with_hook, Ev, SimPort};
use crate::proto::{inst, Pkt, BROADCAST};
use crate::rng::{hash_str, mix};
use crate::{check, fail};
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};
use dynamixel2::{BufferTooSmallError, InvalidChecksum, InvalidMessage, ReadError};
use std::cell::RefCell;
use std::time::Duration;

pub const RULE: &str = "encoding closures, value types, conversions, iterators and ports of the caller that fail or panic at every call index of every operation, each followed by ordinary operations of the same object; distinct by (operation, size, motors, failing call, kind of failure)";

const BOOM: &str = "the code of the caller panics";
const ENCODE_ERROR: BufferTooSmallError = BufferTooSmallError {
	required_size: 777_001,
	total_size: 42,
};
const DECODE_ERROR: InvalidChecksum = InvalidChecksum {
	message: 0xABCD,
	computed: 0x1234,
};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
	Fine,
	Fail,
	Panic,
}

#[derive(Debug, Clone, PartialEq)]
enum Call {
	/// With the length of the buffer.
	Encode(usize),
	/// With the bytes.
	Decode(Vec<u8>),
}

#[derive(Default)]
struct Log {
	calls: Vec<Call>,
	plan: Option<(usize, Act)>,
}

thread_local! {
	static LOG: RefCell<Log> = RefCell::new(Log::default());
}

fn plan(at: usize, act: Act) {
	LOG.with(|l| {
		*l.borrow_mut() = Log {
			calls: vec![],
			plan: Some((at, act)),
		}
	})
}

fn calls() -> Vec<Call> {
	LOG.with(|l| std::mem::take(&mut *l.borrow_mut()).calls)
}

/// The caller's code is called. Returns whether it has to fail.
fn called(call: Call) -> bool {
	let act = LOG.with(|l| {
		let mut l = l.borrow_mut();
		let i = l.calls.len();
		l.calls.push(call);
		match l.plan {
			Some((at, act)) if at == i => act,
			_ => Act::Fine,
		}
	});
	match act {
		Act::Fine => false,
		Act::Fail => true,
		Act::Panic => panic!("{BOOM}"),
	}
}

/// A value with the caller's own encoding.
struct V<const N: usize>(Vec<u8>);

impl<const N: usize> Data for V<N> {
	const ENCODED_SIZE: u16 = N as u16;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		// Something is written in any case.
		for (to, from) in buffer.iter_mut().zip(&self.0) {
			*to = *from;
		}
		if called(Call::Encode(buffer.len())) {
			return Err(ENCODE_ERROR);
		}
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		if called(Call::Decode(buffer.to_vec())) {
			return Err(InvalidMessage::InvalidChecksum(DECODE_ERROR));
		}
		Ok(V(decoded(buffer)))
	}
}

/// What the caller's types make of reply bytes.
fn decoded(bytes: &[u8]) -> Vec<u8> {
	bytes.iter().map(|b| b ^ 0x5A).collect()
}

/// Reply bytes converted by the caller.
struct Conv(Vec<u8>);

impl From<&[u8]> for Conv {
	fn from(bytes: &[u8]) -> Self {
		called(Call::Decode(bytes.to_vec()));
		Conv(decoded(bytes))
	}
}

/// Reply bytes borrowed as something of the caller.
struct Lent;

impl std::borrow::Borrow<Lent> for [u8] {
	fn borrow(&self) -> &Lent {
		called(Call::Decode(self.to_vec()));
		&Lent
	}
}

/// Data for a write that the caller produces on the fly.
struct Made(Vec<u8>);

impl AsRef<[u8]> for Made {
	fn as_ref(&self) -> &[u8] {
		called(Call::Encode(self.0.len()));
		&self.0
	}
}

/// An iterator of the caller that panics.
struct Items<'a, T>(std::slice::Iter<'a, T>);

impl<'a, T> Iterator for Items<'a, T> {
	type Item = &'a T;
	fn next(&mut self) -> Option<&'a T> {
		called(Call::Encode(0));
		self.0.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		self.0.size_hint()
	}
}

impl<T> ExactSizeIterator for Items<'_, T> {}

fn boom<T>(r: Result<T, Panicked>, what: &str) -> Result<(), String> {
	match r {
		Ok(_) => fail!("{what}: the panic of the caller's code did not reach the caller"),
		Err(p) => {
			check!(p.message == BOOM, "{what}: instead of the panic of the caller's code, the library {p}");
			Ok(())
		},
	}
}

fn untouched(events: &[Ev], what: &str) -> Result<(), String> {
	check!(
		!events.iter().any(|e| matches!(e, Ev::Write { .. } | Ev::Read { .. })),
		"{what}, but the port was used: {events:?}"
	);
	Ok(())
}

/// The object does ordinary operations as ever.
fn usable(c: &mut Case, port: &SimPort, cl: &mut Cl, what: &str) -> Result<(), String> {
	for _ in 0..c.rng.range(1, 3) {
		let kind = c.rng.u64();
		let op = random_op(&mut c.rng, kind, 120);
		let replies = good_replies(&mut c.rng, &op);
		port.reply_with(replies.iter().map(|p| p.frame()).collect());
		port.take_events();
		let out = must(run_op(cl, &op, FULL), || format!("{what}; after that {}", op_text(&op)))?;
		check_frame(&port.take_events(), &op.packet()).map_err(|e| format!("{what}; after that {} {e}", op_text(&op)))?;
		let good = good_outcome(&op, &replies);
		check!(out == good, "{what}; after that {} gave {out:?} instead of {good:?}", op_text(&op));
		port.core().responder = None;
	}
	c.count("operations_afterwards", 1);
	Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Send {
	Write,
	RegWrite,
	SyncWrite,
	Instruction,
	Transfer,
	Status,
	Bytes,
	Iter,
	Bulk,
}

const SENDS: &[Send] = &[
	Send::Write,
	Send::RegWrite,
	Send::SyncWrite,
	Send::Instruction,
	Send::Transfer,
	Send::Status,
	Send::Bytes,
	Send::Iter,
	Send::Bulk,
];

fn send<const N: usize>(c: &mut Case, shape: Send) -> Result<(), String> {
	let port = SimPort::default();
	let mut cl = client_junk(&port, 9000, 20000, c.rng.u64());
	let mut dv = device(&port, 1200, 9000);
	if c.rng.chance(1, 2) {
		usable(c, &port, &mut cl, "at first")?;
	}
	let addr = c.rng.addr();
	let multi = matches!(shape, Send::SyncWrite | Send::Bytes | Send::Iter | Send::Bulk);
	let n = if multi { c.rng.range(1, 6) } else { 1 };
	let ids = distinct_ids(&mut c.rng, n);
	let vals: Vec<Vec<u8>> = (0..n).map(|_| c.rng.content(N)).collect();
	// How often the caller's code runs depends on the operation only for values and closures.
	let counted = !matches!(shape, Send::Bytes | Send::Iter | Send::Bulk);
	let can_fail = counted;
	let act = *c.rng.pick(if can_fail { &[Act::Fine, Act::Fail, Act::Panic][..] } else { &[Act::Fine, Act::Panic][..] });
	let at = if counted { c.rng.usize(n) } else { c.rng.usize(2 * n) };
	let id = ids[0];
	let closure_len = N;
	let error = c.rng.u8() & 0x80;
	let address = addr.to_le_bytes();
	let (pkt, acknowledged) = match shape {
		Send::Write => (Pkt::new(id, inst::WRITE, [&address[..], &vals[0]].concat()), true),
		Send::RegWrite => (Pkt::new(id, inst::REG_WRITE, [&address[..], &vals[0]].concat()), true),
		Send::SyncWrite | Send::Bytes | Send::Iter => {
			let mut p = address.to_vec();
			p.extend((N as u16).to_le_bytes());
			for (id, v) in ids.iter().zip(&vals) {
				p.push(*id);
				p.extend(v);
			}
			(Pkt::new(BROADCAST, inst::SYNC_WRITE, p), false)
		},
		Send::Bulk => {
			let mut p = vec![];
			for (id, v) in ids.iter().zip(&vals) {
				p.push(*id);
				p.extend(address);
				p.extend((N as u16).to_le_bytes());
				p.extend(v);
			}
			(Pkt::new(BROADCAST, inst::BULK_WRITE, p), false)
		},
		Send::Instruction => (Pkt::new(id, 0x21, vals[0].clone()), false),
		Send::Transfer => (Pkt::new(id, 0x22, vals[0].clone()), true),
		Send::Status => (Pkt::status(id, error, &vals[0]), false),
	};
	if acknowledged {
		port.reply_with(vec![Pkt::status(id, 0, &[]).frame()]);
	}
	let what = format!(
		"{shape:?} of {N} bytes to motors {ids:?} whose caller's code gets {act:?} at its call {at}{}",
		if act == Act::Panic { " (on purpose)" } else { "" }
	);
	port.take_events();
	plan(at, act);
	let encoder = |buffer: &mut [u8]| V::<N>(vals[0].clone()).encode(buffer);
	let r: Result<Result<(), E>, Panicked> = guard(|| match shape {
		Send::Write => cl.write(id, addr, &V::<N>(vals[0].clone())).map(|_| ()).map_err(E::from),
		Send::RegWrite => cl.reg_write(id, addr, &V::<N>(vals[0].clone())).map(|_| ()).map_err(E::from),
		Send::SyncWrite => {
			let data: Vec<SyncWriteData<V<N>>> = ids
				.iter()
				.zip(&vals)
				.map(|(&motor_id, v)| SyncWriteData {
					motor_id,
					data: V(v.clone()),
				})
				.collect();
			cl.sync_write(addr, &data).map_err(E::from)
		},
		Send::Bytes => {
			let data: Vec<SyncWriteData<Made>> = ids
				.iter()
				.zip(&vals)
				.map(|(&motor_id, v)| SyncWriteData {
					motor_id,
					data: Made(v.clone()),
				})
				.collect();
			cl.sync_write_bytes(addr, N as u16, &data).map_err(E::from)
		},
		Send::Iter => {
			let data: Vec<SyncWriteData<Vec<u8>>> = ids
				.iter()
				.zip(&vals)
				.map(|(&motor_id, v)| SyncWriteData { motor_id, data: v.clone() })
				.collect();
			cl.sync_write_bytes(addr, N as u16, Items(data.iter())).map_err(E::from)
		},
		Send::Bulk => {
			let data: Vec<BulkWriteData<Made>> = ids
				.iter()
				.zip(&vals)
				.map(|(&motor_id, v)| BulkWriteData {
					motor_id,
					address: addr,
					data: Made(v.clone()),
				})
				.collect();
			cl.bulk_write(&data).map_err(E::from)
		},
		Send::Instruction => cl.write_instruction(id, 0x21, closure_len, encoder).map_err(E::from),
		Send::Transfer => cl.transfer_single(id, 0x22, closure_len, 0, encoder).map(|_| ()).map_err(E::from),
		Send::Status => dv.write_status(id, error, closure_len, encoder).map_err(E::from),
	});
	let calls = calls();
	let events = port.take_events();
	port.core().responder = None;
	c.distinct(mix(hash_str((N * 1000 + n * 20 + at) as u64, &format!("{shape:?} {act:?}"))));
	c.count("calls_of_caller_code", calls.len() as u64);
	let reached = calls.len() > at;
	if counted {
		check!(reached, "{what}: the caller's code was called {} times", calls.len());
		check!(
			calls.iter().all(|x| *x == Call::Encode(N)),
			"{what}: it was called for buffers that are not {N} bytes long: {calls:?}"
		);
	}
	match act {
		_ if !reached => {
			check!(r == Ok(Ok(())), "{what}: it gave {r:?}");
		},
		Act::Fine => {
			check!(r == Ok(Ok(())), "{what}: it gave {r:?}");
			if counted {
				check!(calls.len() == n, "{what}: {} calls instead of {n}", calls.len());
			}
			check_frame(&events, &pkt).map_err(|e| format!("{what}: {e}"))?;
			c.count("fine", 1);
		},
		Act::Fail => {
			let expect = E::WriteTooSmall {
				required: ENCODE_ERROR.required_size,
				total: ENCODE_ERROR.total_size,
			};
			check!(r == Ok(Err(expect)), "{what}: the error of the caller's code became {r:?}");
			untouched(&events, &format!("{what}: it failed"))?;
			c.count("errors_of_caller_code", 1);
		},
		Act::Panic => {
			boom(r, &what)?;
			untouched(&events, &format!("{what}: it panicked"))?;
			c.count("panics_of_caller_code", 1);
		},
	}
	usable(c, &port, &mut cl, &what)?;
	// The device too.
	let (id, error, n) = (c.rng.motor(), c.rng.u8(), c.rng.usize(60));
	let data = c.rng.content(n);
	port.take_events();
	let r = guard(|| {
		dv.write_status(id, error, n, |b| {
			b.copy_from_slice(&data);
			Ok(())
		})
		.map_err(E::from)
	});
	check!(r == Ok(Ok(())), "{what}; after that a device's status gave {r:?}");
	check_frame(&port.take_events(), &Pkt::status(id, error, &data)).map_err(|e| format!("{what}; after that a device's status: {e}"))?;
	Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Recv {
	Read,
	ReadBytes,
	SyncRead,
	SyncBytes,
	SyncBorrow,
	Bulk,
	BulkBorrow,
}

const RECVS: &[Recv] = &[
	Recv::Read,
	Recv::ReadBytes,
	Recv::SyncRead,
	Recv::SyncBytes,
	Recv::SyncBorrow,
	Recv::Bulk,
	Recv::BulkBorrow,
];

/// What the caller saw of one slot.
type Item = Result<Result<(u8, Option<Vec<u8>>), E>, Panicked>;

macro_rules! drain {
	($it:expr, $via:expr, $take:expr, $catch:expr, $f:expr) => {{
		let mut it = $it;
		let mut items: Vec<Item> = vec![];
		let mut left = vec![it.remaining()];
		while items.len() < $take {
			let mut one = || match $via {
				Via::Iter => it.next(),
				_ => it.read_next(),
			};
			let r = if $catch { guard(one) } else { Ok(one()) };
			match r {
				Ok(None) => break,
				Ok(Some(r)) => items.push(Ok(r.map(|r| (r.motor_id, Some($f(r.data)))).map_err(|e: ReadError<_>| E::from(e)))),
				Err(p) => items.push(Err(p)),
			}
			left.push(it.remaining());
		}
		(items, left)
	}};
}

macro_rules! drain_borrow {
	($it:expr, $take:expr, $catch:expr) => {{
		let mut it = $it;
		let mut items: Vec<Item> = vec![];
		let mut left = vec![it.remaining()];
		while items.len() < $take {
			let mut one = || match it.read_next_borrow() {
				None => None,
				Some(Ok(r)) => {
					let _: &Lent = r.data;
					Some(Ok((r.motor_id, None)))
				},
				Some(Err(e)) => Some(Err(E::from(e))),
			};
			let r = if $catch { guard(one) } else { Ok(one()) };
			match r {
				Ok(None) => break,
				Ok(Some(r)) => items.push(Ok(r)),
				Err(p) => items.push(Err(p)),
			}
			left.push(it.remaining());
		}
		(items, left)
	}};
}

fn receive<const N: usize>(c: &mut Case, shape: Recv) -> Result<(), String> {
	let port = SimPort::default();
	let mut cl = client_junk(&port, 9000, 20000, c.rng.u64());
	if c.rng.chance(1, 2) {
		usable(c, &port, &mut cl, "at first")?;
	}
	let addr = c.rng.addr();
	let single = matches!(shape, Recv::Read | Recv::ReadBytes);
	let n = if single { 1 } else { c.rng.range(1, 6) };
	let ids = distinct_ids(&mut c.rng, n);
	let data: Vec<Vec<u8>> = (0..n).map(|_| c.rng.content(N)).collect();
	// Some replies are motor errors: those are not for the caller's types.
	let bad: Vec<bool> = (0..n).map(|_| !single && c.rng.chance(1, 6)).collect();
	let replies: Vec<Pkt> = (0..n)
		.map(|i| match bad[i] {
			true => Pkt::status(ids[i], 3, &[]),
			false => Pkt::status(ids[i], 0, &data[i]),
		})
		.collect();
	let good: Vec<usize> = (0..n).filter(|&i| !bad[i]).collect();
	let can_fail = matches!(shape, Recv::Read | Recv::SyncRead);
	let act = *c.rng.pick(if can_fail { &[Act::Fine, Act::Fail, Act::Panic, Act::Panic][..] } else { &[Act::Fine, Act::Panic][..] });
	let at = c.rng.usize(good.len().max(1));
	// Panics are caught in between, or end the whole operation.
	let catch = c.rng.chance(1, 2);
	let take = if c.rng.chance(1, 3) { c.rng.usize(n + 1) } else { n };
	let take = if single { 1 } else { take };
	let via = *c.rng.pick(&[Via::Iter, Via::Next]);
	port.core().max_read = *c.rng.pick(&[1, 5, usize::MAX]);
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	let reads: Vec<BulkReadData> = ids
		.iter()
		.map(|&motor_id| BulkReadData {
			motor_id,
			address: addr,
			count: N as u16,
		})
		.collect();
	let what = format!(
		"{shape:?} of {N} bytes from motors {ids:?} (motor errors: {bad:?}), {take} results taken, whose caller's code gets {act:?} at its call {at}{}",
		if catch { ", caught at once" } else { "" }
	);
	plan(at, act);
	let start = |e: E| (vec![Ok(Err(e))], vec![]);
	let r: Result<(Vec<Item>, Vec<usize>), Panicked> = guard(|| match shape {
		Recv::Read => (
			vec![guard(|| cl.read::<V<N>>(ids[0], addr).map(|r| (r.motor_id, Some(r.data.0))).map_err(E::from))],
			vec![],
		),
		Recv::ReadBytes => (
			vec![guard(|| cl.read_bytes::<Conv>(ids[0], addr, N as u16).map(|r| (r.motor_id, Some(r.data.0))).map_err(E::from))],
			vec![],
		),
		Recv::SyncRead => match cl.sync_read::<V<N>>(&ids, addr) {
			Err(e) => start(e.into()),
			Ok(it) => drain!(it, via, take, catch, |v: V<N>| v.0),
		},
		Recv::SyncBytes => match cl.sync_read_bytes::<Conv>(&ids, addr, N as u16) {
			Err(e) => start(e.into()),
			Ok(it) => drain!(it, via, take, catch, |v: Conv| v.0),
		},
		Recv::Bulk => match cl.bulk_read_bytes::<Conv>(&reads) {
			Err(e) => start(e.into()),
			Ok(it) => drain!(it, via, take, catch, |v: Conv| v.0),
		},
		Recv::SyncBorrow => match cl.sync_read_bytes_borrow::<Lent>(&ids, addr, N as u16) {
			Err(e) => start(e.into()),
			Ok(it) => drain_borrow!(it, take, catch),
		},
		Recv::BulkBorrow => match cl.bulk_read_bytes_borrow::<Lent>(&reads) {
			Err(e) => start(e.into()),
			Ok(it) => drain_borrow!(it, take, catch),
		},
	});
	let calls = calls();
	port.core().responder = None;
	c.distinct(mix(hash_str((N * 1000 + n * 20 + at) as u64, &format!("{shape:?} {act:?} {take} {catch} {bad:?}"))));
	c.count("calls_of_caller_code", calls.len() as u64);
	// The slots whose replies the caller's code gets to see.
	let panics_at = (act == Act::Panic).then(|| good.get(at).copied()).flatten().filter(|&i| i < take);
	let last = match panics_at {
		Some(i) if !catch && !single => i + 1,
		_ => take,
	};
	let expect_calls: Vec<Call> = good.iter().filter(|&&i| i < last).map(|&i| Call::Decode(data[i].clone())).collect();
	check!(
		calls == expect_calls,
		"{what}: the caller's code was called with {calls:?} instead of {expect_calls:?}"
	);
	if panics_at.is_some() && !catch && !single {
		boom(r, &what)?;
		c.count("panics_ending_an_operation", 1);
	} else {
		let (items, left) = r.map_err(|p| format!("{what}: the library {p}"))?;
		check!(items.len() == take, "{what}: {} results", items.len());
		if !single {
			let expect: Vec<usize> = (0..=take).map(|k| n - k).collect();
			check!(left == expect, "{what}: the numbers of remaining results were {left:?} instead of {expect:?}");
		}
		for (i, item) in items.into_iter().enumerate() {
			let k = good.iter().position(|&g| g == i);
			let shown = format!("{item:?}");
			match (k, act) {
				(None, _) => check!(item == Ok(Err(E::Motor(3))), "{what}: result {i} is {shown}"),
				(Some(k), Act::Fail) if k == at => {
					let expect = E::Checksum {
						message: DECODE_ERROR.message,
						computed: DECODE_ERROR.computed,
					};
					check!(item == Ok(Err(expect)), "{what}: the error of the caller's code became {shown}");
					c.count("errors_of_caller_code", 1);
				},
				(Some(k), Act::Panic) if k == at => {
					boom(item, &what)?;
					c.count("panics_of_caller_code", 1);
				},
				_ => match item {
					Ok(Ok((id, value))) => {
						check!(id == ids[i], "{what}: result {i} is {shown}");
						check!(
							value.as_ref().is_none_or(|v| *v == decoded(&data[i])),
							"{what}: result {i} is {shown} instead of what the caller made of {}",
							hex(&data[i])
						);
						c.count("fine", 1);
					},
					_ => fail!("{what}: result {i} is {shown}"),
				},
			}
		}
	}
	usable(c, &port, &mut cl, &what)
}

/// The caller's port panics at one of its calls.
fn port_panics(c: &mut Case, i: u64) -> Result<(), String> {
	let port = SimPort::default();
	let mut cl = client_junk(&port, 9000, 20000, c.rng.u64());
	if c.rng.chance(1, 2) {
		usable(c, &port, &mut cl, "at first")?;
	}
	let op = random_op(&mut c.rng, i, 60);
	let replies = good_replies(&mut c.rng, &op);
	let frame = op.packet().frame();
	let at = c.rng.usize(7);
	port.core().max_read = *c.rng.pick(&[3, 9, usize::MAX]);
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	port.take_events();
	let mut n = 0;
	let hook = Box::new(move || {
		n += 1;
		if n == at + 1 {
			panic!("{BOOM}");
		}
	});
	let r = with_hook(hook, || run_op(&mut cl, &op, FULL));
	let events = port.take_events();
	port.core().responder = None;
	port.core().max_read = usize::MAX;
	let what = format!("{} on a port that panics at its call {at}", op_text(&op));
	c.distinct(mix(hash_str(at as u64, &what)));
	for e in &events {
		if let Ev::Write { bytes, .. } = e {
			check!(*bytes == frame, "{what} transmitted {}", hex(bytes));
		}
	}
	let writes = events.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
	match r {
		Ok(out) => {
			// There were fewer calls.
			check!(events.iter().filter(|e| !matches!(e, Ev::Deadline { .. })).count() <= at, "{what} hid the panic");
			let good = good_outcome(&op, &replies);
			check!(out == good && writes == 1, "{what} gave {out:?} with {writes} writes instead of {good:?}");
			c.count("too_few_calls", 1);
		},
		Err(p) => {
			boom::<()>(Err(p), &what)?;
			check!(writes <= 1, "{what} transmitted {writes} times");
			c.count("panics_of_the_port", 1);
		},
	}
	usable(c, &port, &mut cl, &what)?;
	// A rate that was not set is not used.
	let old = port.core().baud;
	let new = *c.rng.pick(&[9_600, 1_000_000, 4_000_000]);
	let r = with_hook(Box::new(|| panic!("{BOOM}")), || guard(|| cl.set_baud_rate(new).map_err(|e| e.id)));
	boom(r, "setting the baud rate of a port that panics")?;
	check!(
		cl.baud_rate() == old,
		"the port panicked while its rate was set from {old} to {new}, and the client goes by a rate of {}",
		cl.baud_rate()
	);
	usable(c, &port, &mut cl, "after a failed change of the baud rate")
}

/// A device whose port panics while an instruction arrives.
fn device_port(c: &mut Case, _: u64) -> Result<(), String> {
	let port = SimPort::default();
	let mut dv = device(&port, 200, 200);
	let at = c.rng.usize(4);
	port.core().max_read = *c.rng.pick(&[2, 6, usize::MAX]);
	let op = random_op(&mut c.rng, 2, 60);
	port.push(0, op.packet().frame());
	let mut n = 0;
	let hook = Box::new(move || {
		n += 1;
		if n == at + 1 {
			panic!("{BOOM}");
		}
	});
	let timeout = Duration::from_millis(5);
	let id = c.rng.motor();
	let r = with_hook(hook, || {
		guard(|| {
			dv.read(timeout).map(|_| ()).map_err(E::from)?;
			dv.write_status_ok(id).map_err(E::from)
		})
	});
	let what = format!("a device on a port that panics at its call {at}");
	match r {
		Ok(r) => check!(r == Ok(()), "{what} gave {r:?}"),
		Err(p) => {
			boom::<()>(Err(p), &what)?;
			c.count("panics_of_the_port", 1);
		},
	}
	for w in port.writes() {
		check!(w == Pkt::status(id, 0, &[]).frame(), "{what} transmitted {}", hex(&w));
	}
	c.distinct(mix(hash_str(at as u64, &format!("{op:?} {}", port.core().max_read))));
	// From here on all is well.
	port.take_events();
	port.core().max_read = usize::MAX;
	let error = c.rng.u8();
	let r = guard(|| dv.write_status_error(id, error).map_err(E::from));
	check!(r == Ok(Ok(())), "{what}; after that a status gave {r:?}");
	check_frame(&port.take_events(), &Pkt::status(id, error, &[])).map_err(|e| format!("{what}; after that: {e}"))?;
	let n = c.rng.usize(50);
	let pkt = Pkt::new(c.rng.motor(), 0x77, c.rng.content(n));
	port.push(0, pkt.frame());
	let r = guard(|| {
		dv.read_raw_instruction_timeout(timeout)
			.map(|p| Pkt::new(p.packet_id(), p.instruction_id(), p.parameters().to_vec()))
			.map_err(E::from)
	});
	check!(r == Ok(Ok(pkt.clone())), "{what}; after that it received {r:?} instead of {pkt:?}");
	Ok(())
}

pub fn run(r: &Run) {
	r.section("sending", 1800, |c, i| {
		let shape = SENDS[(i % SENDS.len() as u64) as usize];
		match c.rng.below(7) {
			0 => send::<0>(c, shape),
			1 => send::<1>(c, shape),
			2 => send::<2>(c, shape),
			3 => send::<4>(c, shape),
			4 => send::<13>(c, shape),
			5 => send::<37>(c, shape),
			_ => send::<300>(c, shape),
		}
	});
	r.section("receiving", 2100, |c, i| {
		let shape = RECVS[(i % RECVS.len() as u64) as usize];
		match c.rng.below(7) {
			0 => receive::<0>(c, shape),
			1 => receive::<1>(c, shape),
			2 => receive::<2>(c, shape),
			3 => receive::<4>(c, shape),
			4 => receive::<13>(c, shape),
			5 => receive::<37>(c, shape),
			_ => receive::<300>(c, shape),
		}
	});
	r.section("ports", 26 * 40, port_panics);
	r.section("devices", 400, device_port);
}
