//! Simulated serial port with a virtual clock, scheduled input, fault injection and a complete event log.

use crate::ctx::Budget;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
	Timeout,
	Other,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SimError {
	pub id: u64,
	pub kind: Kind,
}

impl std::fmt::Display for SimError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "simulated {:?} error #{}", self.kind, self.id)
	}
}

/// Everything the library did to the port, in order.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ev {
	Discard { err: Option<u64> },
	Write { bytes: Vec<u8>, err: Option<u64> },
	/// `now` is the virtual time at which the call started.
	Read { cap: usize, deadline: u64, now: u64, got: Vec<u8>, err: Option<(u64, Kind)> },
	Deadline { timeout: Duration, now: u64, at: u64 },
	SetBaud { baud: u32, err: Option<u64> },
}

#[derive(Debug, Clone)]
pub struct Chunk {
	pub at: u64,
	pub bytes: Vec<u8>,
}

/// How a scheduled fault looks.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
	None,
	/// Fail the fallible port call with this index (counting discard, write, read and set_baud calls).
	At(u64, Kind),
	/// Fail every call from this index on.
	From(u64, Kind),
	/// Fail reads after this many bytes have been delivered in total, the first one only or all.
	AfterBytes(u64, Kind, bool),
}

pub type Responder = Box<dyn FnMut(&mut Core, &[u8])>;

pub struct Core {
	pub now: u64,
	pub rx: VecDeque<Chunk>,
	/// Deliver at most one chunk per read call.
	pub one_chunk: bool,
	/// Deliver at most this many bytes per read call.
	pub max_read: usize,
	pub events: Vec<Ev>,
	pub log: bool,
	pub responder: Option<Responder>,
	pub fault: Fault,
	/// Number of fallible calls made so far.
	pub calls: u64,
	pub next_error: u64,
	pub baud: u32,
	pub baud_error: bool,
	/// Port calls left before the current operation is declared endless.
	pub budget: u64,
	pub budget_total: u64,
	/// Virtual duration of each write, per byte.
	pub write_ns_per_byte: u64,
	/// Reads with an empty buffer (can never make progress).
	pub empty_reads: u64,
	/// Bytes handed to the library so far.
	pub delivered: u64,
	pub discarded: u64,
	/// Fill the part of the read buffer that is not delivered with junk first (allowed by the contract).
	pub scribble: bool,
}

impl Core {
	pub fn err(&mut self, kind: Kind) -> SimError {
		self.next_error += 1;
		SimError { id: self.next_error, kind }
	}
	fn spend(&mut self) {
		if self.budget == 0 {
			if std::thread::panicking() {
				return;
			}
			std::panic::panic_any(Budget(self.budget_total));
		}
		self.budget -= 1;
	}
	fn fault(&mut self) -> Option<SimError> {
		let call = self.calls;
		self.calls += 1;
		match self.fault {
			Fault::At(n, kind) if n == call => Some(self.err(kind)),
			Fault::From(n, kind) if call >= n => Some(self.err(kind)),
			_ => None,
		}
	}
	/// Schedule input to arrive `delay` ns from now. Chunks must be scheduled in arrival order.
	pub fn push(&mut self, delay: u64, bytes: impl Into<Vec<u8>>) {
		let bytes = bytes.into();
		if bytes.is_empty() {
			return;
		}
		let at = self.now + delay;
		let at = self.rx.back().map_or(at, |c| c.at.max(at));
		self.rx.push_back(Chunk { at, bytes });
	}
	pub fn pending(&self) -> usize {
		self.rx.iter().map(|c| c.bytes.len()).sum()
	}
	pub fn log_ev(&mut self, e: Ev) {
		if self.log {
			self.events.push(e);
		}
	}
	pub fn set_budget(&mut self, n: u64) {
		self.budget = n;
		self.budget_total = n;
	}
}

#[derive(Clone)]
pub struct SimPort(pub Rc<RefCell<Core>>);

impl std::fmt::Debug for SimPort {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("SimPort")
	}
}

impl Default for SimPort {
	fn default() -> Self {
		Self::new(57_600)
	}
}

impl SimPort {
	pub fn new(baud: u32) -> Self {
		Self(Rc::new(RefCell::new(Core {
			now: 1_000,
			rx: VecDeque::new(),
			one_chunk: false,
			max_read: usize::MAX,
			events: Vec::new(),
			log: true,
			responder: None,
			fault: Fault::None,
			calls: 0,
			next_error: 0,
			baud,
			baud_error: false,
			budget: 200_000,
			budget_total: 200_000,
			write_ns_per_byte: 0,
			empty_reads: 0,
			delivered: 0,
			discarded: 0,
			scribble: false,
		})))
	}
	pub fn core(&self) -> std::cell::RefMut<'_, Core> {
		self.0.borrow_mut()
	}
	pub fn push(&self, delay: u64, bytes: impl Into<Vec<u8>>) {
		self.core().push(delay, bytes)
	}
	pub fn take_events(&self) -> Vec<Ev> {
		std::mem::take(&mut self.core().events)
	}
	pub fn respond(&self, f: impl FnMut(&mut Core, &[u8]) + 'static) {
		self.core().responder = Some(Box::new(f));
	}
	/// The same answer (input chunks, all immediately available) to every write.
	pub fn reply_with(&self, chunks: Vec<Vec<u8>>) {
		self.respond(move |core, _| {
			for c in &chunks {
				core.push(0, c.clone());
			}
		});
	}
	/// Bytes of all successful and failed writes so far.
	pub fn writes(&self) -> Vec<Vec<u8>> {
		self.core()
			.events
			.iter()
			.filter_map(|e| match e {
				Ev::Write { bytes, .. } => Some(bytes.clone()),
				_ => None,
			})
			.collect()
	}
	pub fn set_budget(&self, n: u64) {
		self.core().set_budget(n);
	}
	pub fn reads(&self) -> usize {
		self.core().events.iter().filter(|e| matches!(e, Ev::Read { .. })).count()
	}
}

thread_local! {
	/// Called at the start of every port call made on this thread.
	static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// Run `f` while every port call on this thread first calls `hook`. Port calls made by the hook itself do not call it.
pub fn with_hook<T>(hook: Box<dyn FnMut()>, f: impl FnOnce() -> T) -> T {
	struct Restore(Option<Box<dyn FnMut()>>);
	impl Drop for Restore {
		fn drop(&mut self) {
			let old = self.0.take();
			HOOK.with(|h| *h.borrow_mut() = old);
		}
	}
	let _restore = Restore(HOOK.with(|h| h.borrow_mut().replace(hook)));
	f()
}

/// A place where code of the user runs in the middle of an operation of the library.
pub fn hook() {
	let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) else { return };
	f();
	HOOK.with(|h| *h.borrow_mut() = Some(f));
}

thread_local! {
	/// Which errors count as timeouts can be switched off, to have a port without recognisable timeouts.
	pub static NO_TIMEOUTS: Cell<bool> = const { Cell::new(false) };
}

impl dynamixel2::SerialPort for SimPort {
	type Error = SimError;
	type Instant = u64;

	fn baud_rate(&self) -> Result<u32, SimError> {
		hook();
		let mut c = self.core();
		if c.baud_error {
			Err(c.err(Kind::Other))
		} else {
			Ok(c.baud)
		}
	}

	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), SimError> {
		hook();
		let mut c = self.core();
		c.spend();
		let r = c.fault();
		c.log_ev(Ev::SetBaud {
			baud: baud_rate,
			err: r.as_ref().map(|e| e.id),
		});
		match r {
			Some(e) => Err(e),
			None => {
				c.baud = baud_rate;
				Ok(())
			},
		}
	}

	fn discard_input_buffer(&mut self) -> Result<(), SimError> {
		hook();
		let mut c = self.core();
		c.spend();
		let r = c.fault();
		c.log_ev(Ev::Discard { err: r.as_ref().map(|e| e.id) });
		if let Some(e) = r {
			return Err(e);
		}
		let now = c.now;
		while c.rx.front().is_some_and(|x| x.at <= now) {
			let chunk = c.rx.pop_front().unwrap();
			c.discarded += chunk.bytes.len() as u64;
		}
		Ok(())
	}

	fn read(&mut self, buffer: &mut [u8], deadline: &u64) -> Result<usize, SimError> {
		hook();
		let mut c = self.core();
		c.spend();
		let start = c.now;
		let cap = buffer.len();
		let ev = |got: Vec<u8>, err: Option<(u64, Kind)>| Ev::Read {
			cap,
			deadline: *deadline,
			now: start,
			got,
			err,
		};
		if let Some(e) = c.fault() {
			c.log_ev(ev(Vec::new(), Some((e.id, e.kind))));
			return Err(e);
		}
		let mut until_fault = usize::MAX;
		if let Fault::AfterBytes(n, kind, persistent) = c.fault {
			if c.delivered >= n {
				if !persistent {
					c.fault = Fault::None;
				}
				let e = c.err(kind);
				c.log_ev(ev(Vec::new(), Some((e.id, e.kind))));
				return Err(e);
			}
			until_fault = (n - c.delivered) as usize;
		}
		if buffer.is_empty() {
			c.empty_reads += 1;
			c.log_ev(ev(Vec::new(), None));
			return Ok(0);
		}
		match c.rx.front() {
			Some(front) if front.at <= c.now => (),
			Some(front) if front.at <= *deadline => c.now = front.at,
			_ => {
				c.now = c.now.max(*deadline);
				let e = c.err(Kind::Timeout);
				c.log_ev(ev(Vec::new(), Some((e.id, e.kind))));
				return Err(e);
			},
		}
		let limit = buffer.len().min(c.max_read.max(1)).min(until_fault);
		let now = c.now;
		let mut n = 0;
		let scribble = c.scribble;
		while n < limit {
			let Some(front) = c.rx.front_mut() else { break };
			if front.at > now {
				break;
			}
			let k = front.bytes.len().min(limit - n);
			buffer[n..n + k].copy_from_slice(&front.bytes[..k]);
			n += k;
			if k == front.bytes.len() {
				c.rx.pop_front();
			} else {
				front.bytes.drain(..k);
			}
			if c.one_chunk {
				break;
			}
		}
		if scribble {
			// The contents of the rest of the buffer are unspecified after a read.
			for (i, b) in buffer[n..].iter_mut().enumerate() {
				*b = [0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x03, 0x00, 0x01][i % 8];
			}
		}
		c.delivered += n as u64;
		let got = if c.log { buffer[..n].to_vec() } else { Vec::new() };
		c.log_ev(ev(got, None));
		Ok(n)
	}

	fn write_all(&mut self, buffer: &[u8]) -> Result<(), SimError> {
		hook();
		let mut c = self.core();
		c.spend();
		let r = c.fault();
		c.log_ev(Ev::Write {
			bytes: buffer.to_vec(),
			err: r.as_ref().map(|e| e.id),
		});
		if let Some(e) = r {
			return Err(e);
		}
		c.now += c.write_ns_per_byte * buffer.len() as u64;
		if let Some(mut f) = c.responder.take() {
			f(&mut c, buffer);
			if c.responder.is_none() {
				c.responder = Some(f);
			}
		}
		Ok(())
	}

	fn make_deadline(&self, timeout: Duration) -> u64 {
		hook();
		let mut c = self.core();
		let now = c.now;
		let at = u64::try_from(timeout.as_nanos()).unwrap_or(u64::MAX).saturating_add(now);
		c.log_ev(Ev::Deadline { timeout, now, at });
		at
	}

	fn is_timeout_error(error: &SimError) -> bool {
		error.kind == Kind::Timeout && !NO_TIMEOUTS.with(|x| x.get())
	}
}

/// Just a `Vec` of exactly the given size, filled with junk.
pub fn junk_buffer(size: usize, seed: u64) -> Vec<u8> {
	let mut r = crate::rng::Rng::new(seed);
	let mut v = Vec::with_capacity(size);
	v.extend((0..size).map(|_| r.u8()));
	v
}
