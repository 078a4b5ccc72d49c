//! C26: a client or device touches its port only when an operation asks for it.
//!
//! "Touch" means a call with an effect on the line or the input: discarding, writing, reading, or setting the baud
//! rate. Asking for the baud rate or for a deadline has no effect and may happen at any time.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Panicked, Run};
use crate::ops::{random_op, Drive, Op, Outcome, Via, Wait, E};
use crate::port::{junk_buffer, Ev, Fault, Kind, SimPort};
use crate::proto::{self, Pkt};
use crate::rng::{hash_str, mix, Rng};
use crate::rx::{self, Rx, DEVICE_KINDS, KINDS};
use crate::traffic::{damage, hostile};
use crate::{check, fail};
use dynamixel2::{Client, Device};
use std::rc::Rc;
use std::time::Duration;

pub const RULE: &str = "port event logs around creating, inspecting, using, dropping and taking apart clients and devices, with waiting input, failing ports, hostile replies and baud rates changed behind the back; distinct by the shape of the event log and the operation";

/// The calls that have an effect.
fn touches(port: &SimPort) -> Vec<Ev> {
	let mut v = port.take_events();
	v.retain(|e| !matches!(e, Ev::Deadline { .. }));
	v
}

fn untouched(port: &SimPort, what: impl FnOnce() -> String) -> Result<(), String> {
	let t = touches(port);
	check!(t.is_empty(), "{} touched the port: {t:?}", what());
	Ok(())
}

/// The amount of unread input, and the baud rate.
fn state(port: &SimPort) -> (usize, u32) {
	let core = port.core();
	(core.pending(), core.baud)
}

fn lib<T>(r: Result<T, Panicked>, what: &str) -> Result<T, String> {
	r.map_err(|p| format!("{what} {p}"))
}

enum Obj {
	Client(Cl),
	Device(Dv),
}

impl Obj {
	fn create(rng: &mut Rng, port: &SimPort, client: bool) -> Result<Self, crate::port::SimError> {
		let a = junk_buffer(rng.range(10, 300), rng.u64());
		let b = junk_buffer(rng.range(10, 300), rng.u64());
		#[cfg(feature = "alloc")]
		if rng.chance(1, 3) {
			return if client {
				Client::new(port.clone()).map(Obj::Client)
			} else {
				Device::new(port.clone()).map(Obj::Device)
			};
		}
		if client {
			Client::with_buffers(port.clone(), a, b).map(Obj::Client)
		} else {
			Device::with_buffers(port.clone(), a, b).map(Obj::Device)
		}
	}
	fn name(&self) -> &'static str {
		match self {
			Obj::Client(_) => "client",
			Obj::Device(_) => "device",
		}
	}
	fn baud_rate(&self) -> u32 {
		match self {
			Obj::Client(x) => x.baud_rate(),
			Obj::Device(x) => x.baud_rate(),
		}
	}
	fn set_baud_rate(&mut self, n: u32) -> Result<(), crate::port::SimError> {
		match self {
			Obj::Client(x) => x.set_baud_rate(n),
			Obj::Device(x) => x.set_baud_rate(n),
		}
	}
	fn serial_port(&self) -> &SimPort {
		match self {
			Obj::Client(x) => x.serial_port(),
			Obj::Device(x) => x.serial_port(),
		}
	}
	fn into_serial_port(self) -> SimPort {
		match self {
			Obj::Client(x) => x.into_serial_port(),
			Obj::Device(x) => x.into_serial_port(),
		}
	}
	fn debug(&self) -> String {
		match self {
			Obj::Client(x) => format!("{x:?} {x:#?}"),
			Obj::Device(x) => format!("{x:?} {x:#?}"),
		}
	}
	/// Do something ordinary or not.
	fn use_it(&mut self, rng: &mut Rng, port: &SimPort) -> Result<(), String> {
		match self {
			Obj::Client(x) => {
				let kind = rng.below(26);
				let op = random_op(rng, kind, 20);
				let chunks = replies(rng, &op);
				port.reply_with(chunks);
				let drive = drive(rng);
				lib(run_op(x, &op, drive), "an operation")?;
			},
			Obj::Device(x) => {
				if rng.chance(1, 3) {
					let n = rng.usize(20);
					let data = rng.content(n);
					let id = rng.id();
					let _ = lib(guard(|| x.write_status(id, 0, data.len(), crate::ops::encoder(&data)).is_ok()), "write_status")?;
				} else {
					let kind = rng.below(26);
					let f = random_op(rng, kind, 20).packet().frame();
					let f = if rng.chance(1, 3) { damage(rng, &f) } else { f };
					port.push(0, f);
					let _ = lib(guard(|| x.read(Duration::from_micros(5)).is_ok()), "read")?;
				}
			},
		}
		Ok(())
	}
}

fn drive(rng: &mut Rng) -> Drive {
	Drive {
		via: *rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
		take: *rng.pick(&[usize::MAX, usize::MAX, 0, 1, 2]),
	}
}

/// Some answer to the operation, good or bad.
fn replies(rng: &mut Rng, op: &Op) -> Vec<Vec<u8>> {
	let mut chunks = vec![];
	for p in good_replies(rng, op) {
		let f = p.frame();
		let f = match rng.below(10) {
			0 => damage(rng, &f),
			1 => hostile(rng, 40),
			2 => vec![],
			3 => [noise(rng, 5, &f), f].concat(),
			4 => Pkt::status(rng.id(), rng.u8(), p.data()).frame(),
			_ => f,
		};
		let piece = *rng.pick(&[1, 4, 300]);
		chunks.extend(split(rng, &f, piece));
	}
	chunks
}

/// Input that waits before the object exists.
fn waiting(rng: &mut Rng, port: &SimPort, kind: rx::Kind) -> Vec<Pkt> {
	let n = rng.below(4);
	let mut all = vec![];
	for _ in 0..n {
		let size = rng.usize(20);
		let p = rx::random_packet(rng, kind, size);
		let f = p.frame();
		let noise = if rng.chance(1, 3) { noise(rng, 4, &f) } else { vec![] };
		port.push(0, noise);
		port.push(0, f);
		all.push(p);
	}
	all
}

fn receive_all(rx: &mut Rx, all: &[Pkt], what: &str) -> Result<(), String> {
	for (k, p) in all.iter().enumerate() {
		match lib(rx.recv(1000), "receiving")? {
			Ok(got) if got.is(p) => (),
			other => {
				let ok = match (&other, rx.kind()) {
					// Packets may carry errors or be malformed instructions.
					(Err(E::Motor(e)), rx::Kind::Client) => *e == p.error(),
					(Err(e), k) if DEVICE_KINDS.contains(&k) => rx::decode_ref(p).is_err_and(|x| x == *e) || matches!(e, E::Count { .. }) && rx::decode_ref(p).is_err(),
					_ => false,
				};
				check!(ok, "{what}: packet {k} of {}, {p:?}, was received as {other:?}", all.len());
			},
		}
	}
	match lib(rx.recv(1000), "receiving")? {
		Err(e) if e.is_timeout() => Ok(()),
		other => Err(format!("{what}: after {} packets another one was received: {other:?}", all.len())),
	}
}

fn create(c: &mut Case, i: u64) -> Result<(), String> {
	let rng = &mut Rng::new(c.rng.u64());
	let baud = *rng.pick(&[1u32, 300, 9600, 57_600, 1_000_000, 4_500_000, u32::MAX]);
	let port = SimPort::new(baud);
	let kind = *rng.pick(KINDS);
	let all = waiting(rng, &port, kind);
	let before = port.core().pending();
	let fails = i % 5 == 0;
	{
		let mut core = port.core();
		core.baud_error = fails;
		// Nothing else is to be called; if it is, it fails.
		if rng.chance(1, 3) {
			core.fault = Fault::From(0, Kind::Other);
		}
	}
	let client = kind == rx::Kind::Client;
	let name = if client { "client" } else { "device" };
	let r = lib(guard(|| Obj::create(rng, &port, client)), "creating")?;
	untouched(&port, || format!("creating a {name}"))?;
	check!(port.core().pending() == before, "creating a {name} changed the waiting input");
	c.eval(1);
	c.distinct(mix(hash_str(u64::from(baud) << 8 | all.len() as u64, name) ^ u64::from(fails)));
	match r {
		Err(e) => {
			check!(fails, "a {name} was not created, with {e:?}, although the port works");
			check!(e.id == port.core().next_error, "creating a {name} failed with {e:?} instead of the error of the port");
			c.count("failed_creations", 1);
		},
		Ok(x) => {
			check!(!fails, "a {name} was created although the baud rate of its port is unknown");
			check!(x.baud_rate() == baud, "a new {name} says {} baud instead of {baud}", x.baud_rate());
			check!(Rc::ptr_eq(&x.serial_port().0, &port.0), "a new {name} has another port");
			port.core().fault = Fault::None;
			// The waiting input is delivered.
			let p = x.into_serial_port();
			untouched(&port, || format!("taking the port back from a new {name}"))?;
			let mut rx = Rx::with(kind, &p, 300, 300);
			receive_all(&mut rx, &all, "input that waited when the object was created")?;
			c.count("waiting_packets_received", all.len() as u64);
		},
	}
	Ok(())
}

fn inspect(c: &mut Case, _: u64) -> Result<(), String> {
	let rng = &mut Rng::new(c.rng.u64());
	let port = SimPort::default();
	let client = rng.chance(1, 2);
	let mut x = Obj::create(rng, &port, client).map_err(|e| format!("not created: {e:?}"))?;
	let mut looks = 0;
	for _ in 0..rng.range(1, 5) {
		if rng.chance(1, 2) {
			x.use_it(rng, &port)?;
		}
		if rng.chance(1, 4) {
			port.push(0, hostile(rng, 20));
		}
		// Somebody else changes the port.
		let behind = rng.chance(1, 6);
		let told = x.baud_rate();
		if behind {
			port.core().baud = 12_345;
		}
		touches(&port);
		let (pending, baud) = state(&port);
		for _ in 0..3 {
			looks += 1;
			match rng.below(3) {
				0 => {
					let b = x.baud_rate();
					check!(b == told || b == baud, "the {} says {b} baud instead of {told}", x.name());
				},
				1 => check!(Rc::ptr_eq(&x.serial_port().0, &port.0), "the {} has another port", x.name()),
				_ => {
					let text = lib(guard(|| x.debug()), "formatting")?;
					check!(!text.is_empty(), "no debug text");
				},
			}
		}
		untouched(&port, || format!("inspecting a {}", x.name()))?;
		check!(
			(pending, baud) == state(&port),
			"inspecting a {} changed its port",
			x.name()
		);
	}
	let (pending, baud, name) = { let s = state(&port); (s.0, s.1, x.name()) };
	let dropped = rng.chance(1, 2);
	if dropped {
		drop(x);
	} else {
		let p = lib(guard(|| x.into_serial_port()), "into_serial_port")?;
		check!(Rc::ptr_eq(&p.0, &port.0), "another port was returned by the {name}");
	}
	let how = if dropped { "dropping" } else { "taking the port back from" };
	untouched(&port, || format!("{how} a {name}"))?;
	check!(port.core().pending() == pending, "{how} a {name} changed the unread input of the port");
	check!(port.core().baud == baud, "{how} a {name} changed the baud rate of the port");
	// Whoever uses the port next sees all of the unread input and nothing else.
	if rng.chance(1, 2) {
		while port.core().rx.pop_front().is_some() {}
		let kind = *rng.pick(KINDS);
		let all = waiting(rng, &port, kind);
		let mut rx = Rx::with(kind, &port, 300, 300);
		receive_all(&mut rx, &all, "the next user of the port")?;
	}
	c.eval(looks);
	c.count(&format!("{how} a {name}").replace(' ', "_"), 1);
	c.distinct(mix(looks ^ pending as u64) ^ u64::from(baud));
	Ok(())
}

/// The events of a transmission, and what followed it.
fn split_sent(t: &[Ev], what: &str) -> Result<(Option<Vec<u8>>, Vec<Ev>), String> {
	let mut discarded = false;
	for (k, e) in t.iter().enumerate() {
		match e {
			Ev::Discard { err: None } => discarded = true,
			Ev::Discard { err: Some(_) } => {
				check!(t.len() == k + 1, "{what}: went on after a failed discard: {t:?}");
				return Ok((None, vec![]));
			},
			Ev::Write { bytes, .. } => {
				check!(discarded, "{what}: wrote without discarding old input first");
				return Ok((Some(bytes.clone()), t[k + 1..].to_vec()));
			},
			e => fail!("{what}: {e:?} before anything was written"),
		}
	}
	check!(t.is_empty(), "{what}: discarded input without writing: {t:?}");
	Ok((None, vec![]))
}

/// Reading must stop at the end of the packet that is delivered.
fn reads_only(t: &[Ev], what: &str) -> Result<Vec<u8>, String> {
	let mut got = vec![];
	for e in t {
		match e {
			Ev::Read { got: g, .. } => got.extend_from_slice(g),
			e => fail!("{what} made the call {e:?}"),
		}
	}
	Ok(got)
}

fn operations(c: &mut Case, _: u64) -> Result<(), String> {
	let rng = &mut Rng::new(c.rng.u64());
	let port = SimPort::default();
	{
		let mut core = port.core();
		core.max_read = *rng.pick(&[1, 5, usize::MAX]);
		core.one_chunk = rng.chance(1, 2);
	}
	let sizes = (*rng.pick(&[20usize, 64, 128, 400]), *rng.pick(&[20usize, 64, 400]));
	let mut cl = client(&port, sizes.0, sizes.1);
	for _ in 0..rng.range(1, 4) {
		let kind = rng.below(26);
		let op = random_op(rng, kind, 30);
		let chunks = replies(rng, &op);
		port.reply_with(chunks);
		if rng.chance(1, 6) {
			let mut core = port.core();
			core.fault = Fault::At(core.calls + rng.below(6), if rng.chance(1, 2) { Kind::Timeout } else { Kind::Other });
		}
		touches(&port);
		let drive = drive(rng);
		let out: Outcome = lib(run_op(&mut cl, &op, drive), &op_text(&op))?;
		let what = op_text(&op);
		let t = touches(&port);
		let (sent, rest) = split_sent(&t, &what)?;
		let got = reads_only(&rest, &what)?;
		match op.wait() {
			Wait::Nothing { .. } => check!(rest.is_empty(), "{what} expects no reply but read from the port"),
			Wait::One { .. } => {
				// No call after the last one that was needed.
				if let Some(Ev::Read { got: last, err: None, .. }) = rest.last() {
					let before = &got[..got.len() - last.len()];
					if out.ok() {
						check!(
							proto::find_frames(before).is_empty(),
							"{what}: read again with a complete reply at hand: {} then {}",
							hex(before),
							hex(last)
						);
					}
				} else if out.ok() {
					check!(
						op_is_broadcast(&op) && rest.is_empty(),
						"{what} succeeded after a failed read: {rest:?}"
					);
				}
			},
			_ => (),
		}
		if sent.is_none() {
			check!(!out.ok(), "{what} succeeded without sending anything");
		}
		c.eval(1);
		let mut h = 0;
		for e in &t {
			h = mix(h ^ match e {
				Ev::Discard { .. } => 1,
				Ev::Write { bytes, .. } => 2 | (bytes.len() as u64) << 8,
				Ev::Read { got, err, .. } => 3 | (got.len() as u64) << 8 | u64::from(err.is_some()) << 4,
				_ => 4,
			});
		}
		c.distinct(h ^ hash_str(kind, &format!("{drive:?}")));
		c.count("operations", 1);
		c.count("port_calls", t.len() as u64);
		let mut core = port.core();
		core.fault = Fault::None;
		core.now += SEC;
		if rng.chance(1, 2) {
			// Things left over are gone before the next one is sent.
			drop(core);
			port.push(0, hostile(rng, 30));
		}
	}
	drop(cl);
	untouched(&port, || "dropping a client".into())
}

fn op_is_broadcast(op: &Op) -> bool {
	op.packet().id == proto::BROADCAST
}

/// Receiving alone: only reads, and none while a complete packet is at hand.
fn receiving(c: &mut Case, _: u64) -> Result<(), String> {
	let rng = &mut Rng::new(c.rng.u64());
	let port = SimPort::default();
	{
		let mut core = port.core();
		core.max_read = *rng.pick(&[1, 3, 11, usize::MAX, usize::MAX]);
	}
	let kind = *rng.pick(KINDS);
	let mut rx = Rx::with(kind, &port, 300, 64);
	let mut stream = vec![];
	let n = rng.range(1, 6);
	let hostile_part = rng.chance(1, 3);
	for _ in 0..n {
		let size = rng.usize(25);
		let f = rx::random_packet(rng, kind, size).frame();
		if rng.chance(1, 4) {
			stream.extend(noise(rng, 4, &f));
		}
		stream.extend(f);
		if hostile_part {
			stream.extend(hostile(rng, 20));
		}
	}
	let mut at = 0;
	let piece = *rng.pick(&[2, 9, 200]);
	for p in split(rng, &stream, piece) {
		port.push(at, p);
		at += *rng.pick(&[0, 10, 10_000]);
	}
	// Bytes read so far that were not yet part of a delivered packet.
	let mut held: Vec<u8> = vec![];
	for _ in 0..n * 2 + 2 {
		touches(&port);
		let r = lib(rx.recv(2000), "receiving")?;
		let t = touches(&port);
		let got = reads_only(&t, "receiving")?;
		c.eval(1);
		c.count("receptions", 1);
		c.count("reads", t.len() as u64);
		c.distinct(mix(got.len() as u64 | (t.len() as u64) << 16 | (held.len() as u64) << 32) ^ u64::from(r.is_ok()));
		if hostile_part {
			continue;
		}
		if r.is_err() && !matches!(&r, Err(e) if e.is_timeout()) {
			// Instructions that are not valid are consumed too.
			check!(kind != rx::Kind::DevRaw, "a raw packet was refused with {r:?}");
		}
		if matches!(&r, Err(e) if e.is_timeout()) {
			held.extend(got);
			check!(
				proto::find_frames(&held).is_empty(),
				"a complete packet was at hand but receiving timed out: {}",
				hex(&held)
			);
			continue;
		}
		// The packet must not have been complete before the last read.
		if let Some(Ev::Read { got: last, .. }) = t.last() {
			let before = [&held[..], &got[..got.len() - last.len()]].concat();
			check!(
				proto::find_frames(&before).is_empty(),
				"read from the port with a complete packet at hand: {} then {}",
				hex(&before),
				hex(last)
			);
		}
		held.extend(got);
		match proto::find_frames(&held).first() {
			Some(f) => drop(held.drain(..f.end)),
			None => fail!("{r:?} was received from {}", hex(&held)),
		}
	}
	drop(rx);
	untouched(&port, || "dropping a receiver".into())
}

/// Setting the baud rate sets the rate of the port, whatever the object believes it to be.
fn baud(c: &mut Case, _: u64) -> Result<(), String> {
	let rng = &mut Rng::new(c.rng.u64());
	let port = SimPort::default();
	let client = rng.chance(1, 2);
	let mut x = Obj::create(rng, &port, client).map_err(|e| format!("not created: {e:?}"))?;
	port.push(0, vec![1, 2, 3]);
	for _ in 0..rng.range(1, 5) {
		let old = x.baud_rate();
		// Also the same rate again, and also when somebody else changed the port.
		let new = if rng.chance(1, 3) { old } else { *rng.pick(&[9600, 57_600, 1_000_000, 4_500_000, 1, u32::MAX]) };
		if rng.chance(1, 3) {
			port.core().baud = *rng.pick(&[9600, 57_600, 1_000_000, 38_400]);
		}
		let fails = rng.chance(1, 4);
		if fails {
			let mut core = port.core();
			core.fault = Fault::From(0, *rng.pick(&[Kind::Timeout, Kind::Other]));
		}
		let r = lib(guard(|| x.set_baud_rate(new)), "set_baud_rate")?;
		port.core().fault = Fault::None;
		let t = touches(&port);
		check!(
			t.iter().all(|e| matches!(e, Ev::SetBaud { baud, .. } if *baud == new)) && (t.len() == 1 || !fails && !t.is_empty()),
			"setting {new} baud made the calls {t:?}"
		);
		check!(r.is_err() == fails, "setting {new} baud gave {r:?}");
		if !fails {
			let now = port.core().baud;
			check!(now == new, "the port runs at {now} baud after {new} was set");
			check!(x.baud_rate() == new, "the {} says {} baud after {new} was set", x.name(), x.baud_rate());
		} else {
			check!(x.baud_rate() == old, "the {} says {} baud after setting {new} failed", x.name(), x.baud_rate());
		}
		check!(port.core().pending() == 3, "setting the baud rate consumed input");
		c.eval(1);
		c.count(if fails { "failed_baud_changes" } else { "baud_changes" }, 1);
		c.distinct(mix(u64::from(old) << 32 | u64::from(new)) ^ u64::from(fails));
	}
	Ok(())
}

pub fn run(r: &Run) {
	r.section("create", 600, create);
	r.section("inspect", 600, inspect);
	r.section("operations", 1500, operations);
	r.section("receiving", 1000, receiving);
	r.section("baud", 400, baud);
}
