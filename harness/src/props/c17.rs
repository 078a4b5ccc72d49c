//! C17: no sequence of safe API calls causes undefined behaviour.
//!
//! These sections drive the library through everything that touches its unsafe code, exact-size buffers, borrowed
//! results, and unusual but safe implementations of its traits. The main oracle is the tool they run under: Miri
//! (both aliasing models) or AddressSanitizer with LeakSanitizer. Panics are allowed here (other properties judge
//! them); what this file itself checks is that values are not leaked or dropped twice and borrowed results do not change.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{random_op, Borrowed, Drive, Via, Wait, E};
use crate::port::{junk_buffer, SimError, SimPort};
use crate::proto::{inst, Pkt};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rx::{Rx, KINDS};
use crate::check;
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkWriteData, SyncWriteData};
use dynamixel2::{BufferTooSmallError, Client, Device, InvalidMessage, InvalidParameterCount, SerialPort};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

pub const RULE: &str = "array codecs over elements that own heap memory, fail or panic; all operations and receive paths over hostile streams with buffers of exact size; borrowed results held while memory is churned; unsound-looking but safe buffers, ports, element types and iterators; all under Miri and sanitizers; distinct by inputs and outcomes";

/// Fewer cases for the interpreter.
fn n(native: u64, miri: u64) -> u64 {
	if cfg!(miri) {
		miri
	} else {
		native
	}
}

// ---- Elements ---------------------------------------------------------------------------------------------------------

thread_local! {
	/// Created minus dropped, and whether the number was ever negative.
	static LIVE: Cell<(i64, bool)> = const { Cell::new((0, false)) };
}

fn alive(d: i64) {
	LIVE.with(|l| {
		let (n, bad) = l.get();
		l.set((n + d, bad || n + d < 0));
	});
}

const FAILS: u8 = 0xEE;
const PANICS: u8 = 0xDD;

/// An element that owns heap memory (`S` bytes encoded); its first byte decides how decoding it ends.
#[derive(Debug)]
struct Leaf<const S: usize>(Box<[u8; S]>);

impl<const S: usize> Drop for Leaf<S> {
	fn drop(&mut self) {
		alive(-1);
		// Reading it finds freed or uninitialised memory.
		std::hint::black_box(self.0.iter().fold(0u8, |a, b| a ^ *b));
	}
}

impl<const S: usize> Data for Leaf<S> {
	const ENCODED_SIZE: u16 = S as u16;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(S, buffer.len())?;
		buffer[..S].copy_from_slice(&self.0[..]);
		if self.0[0] == FAILS {
			return Err(BufferTooSmallError {
				required_size: 9999,
				total_size: S,
			});
		}
		if self.0[0] == PANICS {
			panic!("LIBRARY: scheduled panic");
		}
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(buffer.len(), S)?;
		let data: [u8; S] = buffer.try_into().unwrap();
		match data[0] {
			FAILS => Err(InvalidParameterCount::check(1, 2).unwrap_err().into()),
			PANICS => panic!("LIBRARY: scheduled panic"),
			_ => {
				alive(1);
				Ok(Leaf(Box::new(data)))
			},
		}
	}
}

trait Bytes {
	fn collect(&self, out: &mut Vec<u8>);
}
impl<const S: usize> Bytes for Leaf<S> {
	fn collect(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&self.0[..]);
	}
}
impl<T: Bytes, const N: usize> Bytes for [T; N] {
	fn collect(&self, out: &mut Vec<u8>) {
		for x in self {
			x.collect(out);
		}
	}
}
impl Bytes for u16 {
	fn collect(&self, out: &mut Vec<u8>) {
		out.extend_from_slice(&self.to_le_bytes());
	}
}

fn balanced(what: &str) -> Result<(), String> {
	let (n, bad) = LIVE.with(|l| l.replace((0, false)));
	check!(!bad, "{what}: an element was dropped twice");
	check!(n == 0, "{what}: {n} elements were leaked or dropped twice");
	Ok(())
}

fn churn() {
	// Freed memory gets reused and overwritten.
	let v: Vec<Vec<u8>> = (1..6).map(|k| vec![0xC3; k * 7]).collect();
	std::hint::black_box(&v);
}

fn element<T: Data + Bytes>(c: &mut Case, name: &str) -> Result<(), String> {
	let size = usize::from(T::ENCODED_SIZE);
	let mut bytes: Vec<u8> = c.rng.bytes(size).iter().map(|b| b & 0x7F).collect();
	if size > 0 && c.rng.chance(3, 4) {
		let k = c.rng.usize(size);
		bytes[k] = if c.rng.chance(1, 2) { FAILS } else { PANICS };
	}
	// A wrong size, sometimes.
	match c.rng.below(8) {
		0 => bytes.push(1),
		1 => drop(bytes.pop()),
		_ => (),
	}
	let bytes = bytes.into_boxed_slice();
	let what = format!("decoding {name} from {}", hex(&bytes));
	let r = guard(|| T::decode(&bytes));
	churn();
	let outcome = match r {
		Err(_) => 1,
		Ok(Err(_)) => 2,
		Ok(Ok(v)) => {
			let mut out = vec![];
			v.collect(&mut out);
			std::hint::black_box(&out);
			let room = c.rng.range(size.saturating_sub(2), size + 2);
			let mut target = vec![0; room].into_boxed_slice();
			let _ = guard(|| v.encode(&mut target));
			std::hint::black_box(&target);
			3
		},
	};
	balanced(&what)?;
	c.eval(1);
	c.distinct(mix(hash_bytes(hash_str(outcome, name), &bytes)));
	c.count(["", "decodings_that_panicked", "decodings_that_failed", "decodings_that_succeeded"][outcome as usize], 1);
	Ok(())
}

/// The same through client operations.
fn element_transfer<T: Data + Bytes>(c: &mut Case, name: &str) -> Result<(), String> {
	let size = usize::from(T::ENCODED_SIZE);
	let ids = [1u8, 2, 3];
	let mut frames = vec![];
	let mut scheduled = false;
	for id in ids {
		let mut bytes: Vec<u8> = c.rng.bytes(size).iter().map(|b| b & 0x7F).collect();
		if size > 0 && c.rng.chance(1, 3) {
			let k = c.rng.usize(size);
			// Two panics at a time would abort the process, rightly.
			bytes[k] = if scheduled { FAILS } else { PANICS };
			scheduled = true;
		}
		frames.push(Pkt::status(id, 0, &bytes).frame());
	}
	let port = SimPort::default();
	port.core().log = false;
	port.reply_with(frames);
	let room = 11 + size;
	let mut cl = client(&port, room, 40);
	let take = c.rng.usize(4);
	let r = guard(|| {
		let mut n = 0;
		let mut held = vec![];
		let mut it = cl.sync_read::<T>(&ids, 10).map_err(E::from)?;
		for x in it.by_ref().take(take) {
			n += 1;
			held.push(x);
		}
		churn();
		let mut out = vec![];
		for x in held.iter().flatten() {
			x.data.collect(&mut out);
		}
		Ok::<usize, E>(n)
	});
	let _ = guard(|| cl.read::<T>(1, 5).map(drop).map_err(E::from));
	let what = format!("reading {name}");
	balanced(&what)?;
	c.eval(2);
	c.distinct(mix(hash_str(take as u64, &format!("{name} {:?}", r.is_ok()))));
	Ok(())
}

macro_rules! each_type {
	($i:expr, $f:ident, $c:expr) => {
		match $i % 12 {
			0 => $f::<[Leaf<1>; 0]>($c, "[Leaf<1>; 0]"),
			1 => $f::<[Leaf<1>; 1]>($c, "[Leaf<1>; 1]"),
			2 => $f::<[Leaf<1>; 2]>($c, "[Leaf<1>; 2]"),
			3 => $f::<[Leaf<3>; 4]>($c, "[Leaf<3>; 4]"),
			4 => $f::<[Leaf<1>; 17]>($c, "[Leaf<1>; 17]"),
			5 => $f::<[[Leaf<2>; 3]; 2]>($c, "[[Leaf<2>; 3]; 2]"),
			6 => $f::<[[[Leaf<1>; 2]; 2]; 3]>($c, "[[[Leaf<1>; 2]; 2]; 3]"),
			7 => $f::<[[Leaf<4>; 0]; 5]>($c, "[[Leaf<4>; 0]; 5]"),
			8 => $f::<[u16; 5]>($c, "[u16; 5]"),
			9 => $f::<[[u16; 3]; 3]>($c, "[[u16; 3]; 3]"),
			10 => $f::<Leaf<7>>($c, "Leaf<7>"),
			_ => $f::<[Leaf<2>; 3]>($c, "[Leaf<2>; 3]"),
		}
	};
}

// ---- Operations with buffers of exact size --------------------------------------------------------------------------

fn operation(c: &mut Case, i: u64) -> Result<(), String> {
	let max = if cfg!(miri) { 24 } else { 90 };
	let op = random_op(&mut c.rng, i % 26, max);
	let replies = good_replies(&mut c.rng, &op);
	let mut input: Vec<u8> = vec![];
	let mut largest = 11;
	for p in &replies {
		let f = p.frame();
		largest = largest.max(f.len());
		match c.rng.below(8) {
			0 => input.extend(crate::traffic::hostile(&mut c.rng, 24)),
			1 => input.extend(crate::traffic::damage(&mut c.rng, &f)),
			2 => (),
			_ => input.extend(f),
		}
	}
	let slack = *c.rng.pick(&[-3i64, -1, 0, 0, 0, 1, 30]);
	let rbuf = (largest as i64 + slack).max(7) as usize;
	let frame = op.packet().frame().len();
	let wbuf = (frame as i64 + *c.rng.pick(&[-2i64, -1, 0, 0, 0, 1, 9])).max(10) as usize;
	let port = SimPort::default();
	port.core().log = false;
	port.core().max_read = *c.rng.pick(&[1, 3, 8, usize::MAX]);
	let chunks = vec![input];
	port.reply_with(chunks);
	let drive = Drive {
		via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
		take: *c.rng.pick(&[usize::MAX, usize::MAX, 0, 1]),
	};
	let mut outcomes = String::new();
	let mut cl = client_junk(&port, rbuf, wbuf, c.rng.u64());
	for _ in 0..2 {
		let out = run_op(&mut cl, &op, drive);
		churn();
		outcomes.push_str(match &out {
			Err(_) => "panic ",
			Ok(o) if o.start.is_err() => "error ",
			Ok(o) if o.items.iter().all(|x| x.is_ok()) => "good ",
			Ok(_) => "bad reply ",
		});
	}
	c.eval(2);
	c.count(&format!("operations_{}", outcomes.split(' ').next().unwrap()), 1);
	c.distinct(mix(hash_str((rbuf * 1000 + wbuf) as u64, &format!("{op:?} {drive:?} {outcomes}"))));
	Ok(())
}

fn streams(c: &mut Case, i: u64) -> Result<(), String> {
	let max = if cfg!(miri) { 60 } else { 300 };
	let s = crate::traffic::hostile(&mut c.rng, max);
	let kind = KINDS[(i % KINDS.len() as u64) as usize];
	let rbuf = *c.rng.pick(&[7, 10, 11, 14, 16, 20, 33, 64, 128]);
	let port = SimPort::default();
	port.core().log = false;
	port.core().max_read = *c.rng.pick(&[1, 2, 7, 16, usize::MAX]);
	let piece = *c.rng.pick(&[1, 5, 40, 1000]);
	for p in split(&mut c.rng, &s, piece) {
		port.push(0, p);
	}
	let mut rx = Rx::new(kind, &port, rbuf);
	let mut got = 0;
	// Every receive call consumes something or times out.
	for _ in 0..s.len() + 2 {
		match rx.recv(1000) {
			Err(_) => break,
			Ok(Err(e)) if e.is_timeout() => break,
			Ok(Ok(_)) => got += 1,
			Ok(Err(_)) => (),
		}
	}
	c.eval(1);
	c.count("packets_received", got);
	c.distinct(mix(hash_bytes(rbuf as u64, &s)));
	Ok(())
}

// ---- Borrowed results are held --------------------------------------------------------------------------------------

struct Hold {
	address: usize,
	copy: Vec<u8>,
}

fn hold(data: &[u8]) -> Hold {
	Hold {
		address: data.as_ptr() as usize,
		copy: data.to_vec(),
	}
}

impl Hold {
	fn check(&self, data: &[u8], expect: &[u8], what: &str) -> Result<(), String> {
		check!(
			data == &self.copy[..] && data.as_ptr() as usize == self.address,
			"{what}: the borrowed result changed from {} to {}",
			hex(&self.copy),
			hex(data)
		);
		// (That the result is right at all is for other properties.)
		std::hint::black_box(expect);
		Ok(())
	}
}

fn disturb(port: &SimPort, other: &mut Cl) {
	// More input arrives, other clients work, memory is reused.
	port.push(0, vec![0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x04, 0x00, 0x55, 0x00, 0xA1, 0x0C]);
	let _ = guard(|| other.ping(1).map(|_| ()).map_err(E::from));
	churn();
}

fn held(c: &mut Case, i: u64) -> Result<(), String> {
	let len = *c.rng.pick(&[0usize, 1, 2, 4, 7]);
	let data = c.rng.content(len);
	let port = SimPort::default();
	port.core().log = false;
	port.core().max_read = *c.rng.pick(&[1, 4, usize::MAX]);
	let other_port = SimPort::default();
	other_port.core().log = false;
	other_port.reply_with(vec![Pkt::status(1, 0, &[1, 2, 3]).frame()]);
	let mut other = client(&other_port, 40, 40);
	let junk = {
		let k = c.rng.usize(9);
		let v = c.rng.bytes(k);
		v.into_iter().filter(|b| *b != 0xFF).collect::<Vec<u8>>()
	};
	let kind = i % 7;
	let what = format!("kind {kind}, {}", hex(&data));
	let (pkt, ids) = match kind {
		0..=3 => (Pkt::status(5, 0, &data), vec![5u8, 6]),
		_ => {
			let mut p = vec![1, 2];
			p.extend_from_slice(&data);
			(Pkt::new(5, inst::WRITE, p), vec![])
		},
	};
	let frame = pkt.frame();
	let slack = c.rng.usize(4);
	let rbuf = frame.len() + slack;
	let count = len as u16;
	match kind {
		0 => {
			port.reply_with(vec![junk, frame.clone()]);
			let mut cl = client(&port, rbuf.max(20), 40);
			let r = guard(|| {
				let Ok(s) = cl.transfer_single(5, 2, 4, count, |b| {
					b.fill(1);
					Ok(())
				}) else {
					return Ok(());
				};
				let h = hold(s.parameters());
				disturb(&port, &mut other);
				h.check(s.parameters(), &data, &what)?;
				std::hint::black_box((s.packet_id(), s.error(), s.alert(), s.error_number()));
				Ok::<(), String>(())
			});
			r.map_err(|e| format!("{what} {e}"))??;
		},
		1..=3 => {
			let second = Pkt::status(6, 0x80, &data).frame();
			port.reply_with(vec![junk, frame.clone(), second]);
			let mut cl = client(&port, rbuf, 60);
			macro_rules! each {
				($($n:literal)*) => {
					match len {
						$($n => {
							let r = guard(|| {
								let reads = ids.iter().map(|id| dynamixel2::instructions::BulkReadData { motor_id: *id, address: 9, count }).collect::<Vec<_>>();
								if kind == 1 {
									let Ok(mut it) = cl.sync_read_bytes_borrow::<Borrowed<$n>>(&ids, 9, count) else { return Ok(()) };
									while let Some(r) = it.read_next_borrow() {
										let Ok(r) = r else { continue };
										let h = hold(&r.data.0);
										disturb(&port, &mut other);
										h.check(&r.data.0, &data, &what)?;
									}
								} else {
									let Ok(mut it) = cl.bulk_read_bytes_borrow::<Borrowed<$n>>(&reads) else { return Ok(()) };
									while let Some(r) = it.read_next_borrow() {
										let Ok(r) = r else { continue };
										let h = hold(&r.data.0);
										disturb(&port, &mut other);
										h.check(&r.data.0, &data, &what)?;
										if kind == 3 {
											break;
										}
									}
								}
								Ok::<(), String>(())
							});
							r.map_err(|e| format!("{what} {e}"))??;
						})*
						_ => (),
					}
				};
			}
			each!(0 1 2 4 7);
		},
		_ => {
			// Status packets come first, so that the device has to skip some.
			let skipped = c.rng.usize(4);
			for _ in 0..skipped {
				port.push(0, Pkt::status(9, 0, &[1]).frame());
			}
			port.push(0, junk);
			port.push(0, frame.clone());
			port.push(0, frame.clone());
			let mut dev = device(&port, rbuf.max(12), 40);
			for _ in 0..2 {
				let r = guard(|| {
					let t = Duration::from_millis(1);
					match kind {
						4 => {
							let Ok(p) = dev.read_raw_instruction_timeout(t) else { return Ok(()) };
							let h = hold(p.parameters());
							disturb(&port, &mut other);
							h.check(p.parameters(), &data, &what)?;
							let q = p;
							h.check(q.parameters(), &data, &what)
						},
						5 => {
							let Ok(p) = dev.read(t) else { return Ok(()) };
							let dynamixel2::Instructions::Write { parameters, .. } = p.instruction else { return Ok(()) };
							let h = hold(parameters);
							disturb(&port, &mut other);
							h.check(parameters, &data, &what)
						},
						_ => {
							let Ok(p) = dev.read_owned(t) else { return Ok(()) };
							let dynamixel2::Instructions::Write { parameters, .. } = &p.instruction else { return Ok(()) };
							let h = hold(parameters);
							// The device goes on working while the owned instruction lives.
							disturb(&port, &mut other);
							let _ = dev.write_status(1, 0, 3, |b| {
								b.fill(7);
								Ok(())
							});
							let _ = dev.read(t);
							h.check(parameters, &data, &what)
						},
					}
				});
				r.map_err(|e| format!("{what} {e}"))??;
			}
		},
	}
	c.eval(1);
	c.count("borrowed_results_held", 1);
	c.distinct(mix(hash_bytes(kind * 100 + slack as u64, &data)));
	Ok(())
}

// ---- Safe but unusual implementations of the library's traits ---------------------------------------------------

/// A buffer that is a different part of its memory every time.
struct Shifty {
	memory: Box<[u8]>,
	calls: Cell<u32>,
	plan: u64,
}

impl Shifty {
	fn new(rng: &mut Rng, size: usize) -> Self {
		Self {
			memory: junk_buffer(size, rng.u64()).into_boxed_slice(),
			calls: Cell::new(0),
			plan: rng.u64(),
		}
	}
	fn len(&self) -> usize {
		let k = self.calls.get();
		self.calls.set(k + 1);
		let n = self.memory.len();
		// The first calls see the full buffer, so that construction succeeds.
		if k < 4 {
			return n;
		}
		match mix(self.plan ^ u64::from(k)) % 12 {
			0 => 0,
			1 => n / 2,
			2 => n - 1,
			3 => mix(self.plan ^ u64::from(k) ^ 77) as usize % (n + 1),
			_ => n,
		}
	}
}

impl AsRef<[u8]> for Shifty {
	fn as_ref(&self) -> &[u8] {
		&self.memory[..self.len()]
	}
}
impl AsMut<[u8]> for Shifty {
	fn as_mut(&mut self) -> &mut [u8] {
		let n = self.len();
		&mut self.memory[..n]
	}
}

/// A port that misreports how much it read and touches the whole buffer it is given.
struct Liar {
	input: RefCell<Vec<u8>>,
	plan: Cell<u64>,
	budget: Cell<u32>,
	written: Cell<u64>,
}

impl Liar {
	fn new(rng: &mut Rng, input: Vec<u8>) -> Self {
		Self {
			input: RefCell::new(input),
			plan: Cell::new(rng.u64()),
			budget: Cell::new(40),
			written: Cell::new(0),
		}
	}
}

#[derive(Debug, Clone, Copy)]
struct Token(u64);

impl SerialPort for Liar {
	type Error = SimError;
	type Instant = Token;
	fn baud_rate(&self) -> Result<u32, SimError> {
		Ok(57600)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), SimError> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), SimError> {
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Token) -> Result<usize, SimError> {
		let p = mix(self.plan.get());
		self.plan.set(p);
		std::hint::black_box(deadline.0);
		if self.budget.get() == 0 {
			return Err(SimError {
				id: 0,
				kind: crate::port::Kind::Timeout,
			});
		}
		self.budget.set(self.budget.get() - 1);
		let mut input = self.input.borrow_mut();
		let k = input.len().min(buffer.len());
		buffer[..k].copy_from_slice(&input[..k]);
		input.drain(..k);
		Ok(match p % 16 {
			0 => k + 1,
			1 => buffer.len() + 1,
			2 => usize::MAX,
			3 => usize::MAX / 2,
			4 => buffer.len(),
			5 => 0,
			_ => k,
		})
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), SimError> {
		self.written.set(hash_bytes(self.written.get(), buffer));
		Ok(())
	}
	fn make_deadline(&self, timeout: Duration) -> Token {
		Token(timeout.as_nanos() as u64)
	}
	fn is_timeout_error(error: &SimError) -> bool {
		error.kind == crate::port::Kind::Timeout
	}
}

/// A type whose codec does not keep its promises.
struct Liable<const S: usize>(u64);

impl<const S: usize> Data for Liable<S> {
	const ENCODED_SIZE: u16 = S as u16;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		match self.0 % 4 {
			0 => buffer.fill(0xFF),
			1 => (),
			2 => {
				buffer[0] = 1;
				let k = buffer.len() - 1;
				buffer[k] = 2;
			},
			_ => {
				return Err(BufferTooSmallError {
					required_size: 0,
					total_size: usize::MAX,
				})
			},
		}
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		Ok(Self(buffer.iter().map(|b| u64::from(*b)).sum()))
	}
}

/// An iterator that misreports its length.
struct LyingIter<I> {
	inner: I,
	claim: usize,
}
impl<I: Iterator> Iterator for LyingIter<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		self.inner.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		(self.claim, Some(self.claim))
	}
}
impl<I: Iterator> ExactSizeIterator for LyingIter<I> {
	fn len(&self) -> usize {
		self.claim
	}
}

/// Bytes whose length changes.
struct Moody {
	data: Vec<u8>,
	calls: Cell<usize>,
}
impl AsRef<[u8]> for Moody {
	fn as_ref(&self) -> &[u8] {
		let k = self.calls.get();
		self.calls.set(k + 1);
		&self.data[..self.data.len() - k.min(self.data.len())]
	}
}

fn panicked<T>(r: Result<T, crate::ctx::Panicked>) -> &'static str {
	if r.is_err() {
		"odd_calls_that_panicked"
	} else {
		"odd_calls_that_returned"
	}
}

fn odd_buffers(c: &mut Case, i: u64) -> Result<(), String> {
	let op = random_op(&mut c.rng, i % 26, 20);
	// (An iterator dropped by a panic may panic again and rightly abort the process: those are driven below.)
	if matches!(op.wait(), Wait::Each(_) | Wait::Scan) {
		return Ok(());
	}
	let replies = good_replies(&mut c.rng, &op);
	let port = SimPort::default();
	port.core().log = false;
	port.core().max_read = *c.rng.pick(&[1, 5, usize::MAX]);
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	port.set_budget(400);
	let (rbuf, wbuf) = (Shifty::new(&mut c.rng, 40), Shifty::new(&mut c.rng, 60));
	let mut results = vec![];
	if c.rng.chance(1, 3) {
		let kind = c.rng.below(3);
		let r = guard(|| {
			let mut d = Device::with_buffers(port.clone(), rbuf, wbuf).map_err(|_| ())?;
			for p in &replies {
				port.push(0, p.frame());
			}
			port.push(0, Pkt::new(1, inst::WRITE, vec![1, 2, 3]).frame());
			for _ in 0..3 {
				let r = match kind {
					0 => d.read(Duration::from_micros(1)).map(|x| drop(crate::rx::dec(&x))).map_err(E::from),
					1 => d.read_raw_instruction_timeout(Duration::from_micros(1)).map(|x| {
						std::hint::black_box(x.parameters().to_vec());
					}).map_err(E::from),
					_ => d.write_status(1, 2, 5, |b| {
						b.fill(9);
						Ok(())
					}).map_err(E::from),
				};
				std::hint::black_box(&r);
			}
			Ok::<(), ()>(())
		});
		results.push(panicked(r));
	} else if c.rng.chance(1, 4) {
		let ids = [1u8, 2, 3];
		port.reply_with(ids.iter().map(|id| Pkt::status(*id, 0, &[1, 2, 3, 4]).frame()).collect());
		let r = guard(|| Client::with_buffers(port.clone(), rbuf, wbuf));
		if let Ok(Ok(mut cl)) = r {
			if let Ok(Ok(mut it)) = guard(|| cl.sync_read_bytes::<Vec<u8>>(&ids, 1, 4)) {
				for _ in 0..3 {
					let r = guard(|| it.read_next().map(|x| x.map(|y| std::hint::black_box(y.data)).map_err(E::from)));
					results.push(panicked(r));
				}
				// (Its Drop might panic.)
				std::mem::forget(it);
			}
		}
	} else {
		let r = guard(|| Client::with_buffers(port.clone(), rbuf, wbuf));
		if let Ok(Ok(mut cl)) = r {
			for _ in 0..3 {
				let r = guard(|| {
					op.run(
						&mut cl,
						Drive {
							via: Via::Borrow,
							take: 4,
						},
					)
				});
				results.push(panicked(r));
			}
		}
	}
	for r in &results {
		c.count(r, 1);
	}
	c.eval(1);
	c.distinct(mix(hash_str(i, &format!("{op:?}{results:?}"))));
	Ok(())
}

fn odd_ports(c: &mut Case, i: u64) -> Result<(), String> {
	let s = crate::traffic::hostile(&mut c.rng, 60);
	let liar = Liar::new(&mut c.rng, s.clone());
	let size = *c.rng.pick(&[10, 20, 64]);
	let seed = c.rng.u64();
	let r = guard(|| {
		let (a, b) = (junk_buffer(size, seed), junk_buffer(32, seed ^ 1));
		if i % 2 == 0 {
			let Ok(mut cl) = Client::with_buffers(liar, a, b) else { return };
			for _ in 0..4 {
				let _ = cl.read_status_response(4).map(|x| std::hint::black_box(x.parameters().to_vec()));
				let _ = cl.read_bytes::<Vec<u8>>(1, 2, 4).map(|x| std::hint::black_box(x.data));
			}
		} else {
			let Ok(mut d) = Device::with_buffers(liar, a, b) else { return };
			for _ in 0..4 {
				let _ = d.read(Duration::from_micros(3)).map(|x| drop(crate::rx::dec(&x)));
			}
		}
	});
	c.count(panicked(r), 1);
	c.eval(1);
	c.distinct(mix(hash_bytes(size as u64, &s)));
	Ok(())
}

fn odd_types(c: &mut Case, i: u64) -> Result<(), String> {
	let port = SimPort::default();
	port.core().log = false;
	let k = c.rng.usize(8);
	let data = c.rng.bytes(k);
	port.reply_with(vec![Pkt::status(1, 0, &data).frame()]);
	let wbuf = *c.rng.pick(&[12, 20, 40, 100]);
	let mut cl = client(&port, 40, wbuf);
	let v = c.rng.u64();
	let claim = *c.rng.pick(&[0, 1, 2, 3, 5, 1000, 65_535, usize::MAX / 3, usize::MAX]);
	let r = guard(|| match i % 8 {
		0 => drop(cl.write(1, 2, &Liable::<4>(v)).map_err(E::from)),
		1 => drop(cl.read::<Liable<4>>(1, 2).map(|x| std::hint::black_box(x.data.0)).map_err(E::from)),
		2 => drop(cl.read::<[Liable<2>; 3]>(1, 2).map(|x| std::hint::black_box(x.data[2].0)).map_err(E::from)),
		3 => drop(cl.reg_write(1, 2, &[Liable::<2>(v), Liable(v >> 8)]).map_err(E::from)),
		4 => {
			let list: Vec<_> = (0..3u8).map(|m| SyncWriteData { motor_id: m, data: Liable::<3>(v >> m) }).collect();
			drop(cl.sync_write(2, LyingIter { inner: list.iter(), claim }).map_err(E::from))
		},
		5 => {
			let list: Vec<_> = (0..3u8).map(|m| SyncWriteData { motor_id: m, data: vec![m; 3] }).collect();
			drop(cl.sync_write_bytes(2, 3, LyingIter { inner: list.iter(), claim }).map_err(E::from))
		},
		6 => {
			let list: Vec<_> = (0..3u8)
				.map(|m| BulkWriteData {
					motor_id: m,
					address: 4,
					data: Moody { data: vec![m; 5], calls: Cell::new(0) },
				})
				.collect();
			drop(cl.bulk_write(&list).map_err(E::from))
		},
		_ => {
			// A callback that keeps to its slice, or panics.
			drop(
				cl.write_instruction(1, 3, (v % 90) as usize, |b| {
					b.fill(v as u8);
					if v % 3 == 0 {
						panic!("LIBRARY: scheduled panic");
					}
					Ok(())
				})
				.map_err(E::from),
			);
		},
	});
	c.count(panicked(r), 1);
	// The client still works on memory of its own.
	let _ = guard(|| cl.ping(1).map(|_| ()).map_err(E::from));
	c.eval(1);
	c.distinct(mix(hash_bytes(i % 8 * 100_000 + claim as u64 % 1000 + wbuf as u64, &data)));
	Ok(())
}

/// Buffers of other types, shared ones in particular: what is borrowed stays in use while the client lives.
fn buffer_types(c: &mut Case, i: u64) -> Result<(), String> {
	let op = random_op(&mut c.rng, i % 26, 12);
	let replies = good_replies(&mut c.rng, &op);
	let port = SimPort::default();
	port.core().log = false;
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	let drive = Drive {
		via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
		take: usize::MAX,
	};
	let seed = c.rng.u64();
	let run = |n: &mut u64, out: Result<crate::ops::Outcome, crate::ctx::Panicked>| {
		*n += u64::from(out.is_ok());
	};
	let mut fine = 0;
	// Slices of one larger allocation: the neighbouring parts must never change.
	let mut memory = vec![0x5Au8; 400].into_boxed_slice();
	{
		let (a, rest) = memory.split_at_mut(50);
		let (r, rest) = rest.split_at_mut(100);
		let (m, rest) = rest.split_at_mut(50);
		let (w, z) = rest.split_at_mut(150);
		{
			let Ok(mut cl) = Client::with_buffers(port.clone(), &mut *r, &mut *w) else { return Ok(()) };
			run(&mut fine, guard(|| op.run(&mut cl, drive)));
		}
		check!(
			a.iter().chain(m.iter()).chain(z.iter()).all(|b| *b == 0x5A),
			"{}: memory next to the buffers was changed",
			op_text(&op)
		);
		std::hint::black_box((r.len(), w.len()));
	}
	{
		let Ok(mut cl) = Client::with_buffers(port.clone(), [1u8; 90], [2u8; 90]) else { return Ok(()) };
		run(&mut fine, guard(|| op.run(&mut cl, drive)));
		let mut moved = Box::new(cl);
		run(&mut fine, guard(|| op.run(&mut moved, drive)));
		let p = moved.into_serial_port();
		std::hint::black_box(&p);
	}
	{
		let b = |n: usize| junk_buffer(n, seed).into_boxed_slice();
		let Ok(mut cl) = Client::with_buffers(port.clone(), b(100), b(100)) else { return Ok(()) };
		run(&mut fine, guard(|| op.run(&mut cl, drive)));
	}
	{
		// Device on a stack buffer, moved while it holds unread input.
		let Ok(mut d) = Device::with_buffers(port.clone(), [3u8; 80], [4u8; 80]) else { return Ok(()) };
		port.push(0, [Pkt::new(1, inst::PING, vec![]).frame(), Pkt::new(2, inst::WRITE, vec![1, 2, 3]).frame()].concat());
		let r = guard(|| d.read(Duration::from_micros(1)).map(|x| x.id).ok());
		let moved = Rc::new(RefCell::new(d));
		let r2 = guard(|| moved.borrow_mut().read(Duration::from_micros(1)).map(|x| x.id).ok());
		fine += u64::from(r.is_ok()) + u64::from(r2.is_ok());
	}
	c.eval(1);
	c.count("calls_on_other_buffer_types", fine);
	c.distinct(mix(hash_str(fine, &format!("{op:?}"))));
	Ok(())
}

pub fn run(r: &Run) {
	r.section("elements", n(3000, 48), |c, i| each_type!(i, element, c));
	r.section("element_transfers", n(600, 12), |c, i| each_type!(i, element_transfer, c));
	r.section("held", n(2500, 28), held);
	r.section("operations", n(8000, 26), operation);
	r.section("streams", n(6000, 12), streams);
	r.section("buffer_types", n(600, 6), buffer_types);
	r.section("odd_buffers", n(3000, 12), odd_buffers);
	r.section("odd_ports", n(3000, 8), odd_ports);
	r.section("odd_types", n(3000, 24), odd_types);
}
