// Shared by the demonstrations: a scripted port in virtual time and an independent frame encoder.
#![allow(dead_code, unused_imports, unused_macros)]
use dynamixel2::instructions::*;
use dynamixel2::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
	Timeout,
	Other(u32),
}
impl std::fmt::Display for Fail {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}

pub type Chunk = (u64, Result<Vec<u8>, u32>);

#[derive(Default)]
pub struct State {
	pub now: Duration,
	/// Bytes or an error, with the time of arrival.
	pub incoming: VecDeque<(Duration, Result<Vec<u8>, u32>)>,
	/// For each write: what arrives how many microseconds after it.
	pub replies: VecDeque<Vec<Chunk>>,
	pub written: Vec<Vec<u8>>,
	pub deadlines: Vec<Duration>,
	pub discards: usize,
	pub reads: usize,
	pub baud: u32,
	pub fail_discard: VecDeque<Option<u32>>,
	pub fail_write: VecDeque<Option<u32>>,
	pub fail_baud: Option<u32>,
}

#[derive(Clone)]
pub struct Port(pub Rc<RefCell<State>>);

impl Port {
	pub fn new() -> Self {
		Port(Rc::new(RefCell::new(State {
			baud: 57600,
			..Default::default()
		})))
	}
	/// Let these bytes arrive now.
	pub fn feed(&self, data: &[u8]) {
		let mut s = self.0.borrow_mut();
		let now = s.now;
		s.incoming.push_back((now, Ok(data.to_vec())));
	}
	pub fn feed_at(&self, ms: u64, data: &[u8]) {
		self.0.borrow_mut().incoming.push_back((Duration::from_millis(ms), Ok(data.to_vec())));
	}
	/// The answer to the next write that has none yet.
	pub fn reply(&self, chunks: Vec<Chunk>) {
		self.0.borrow_mut().replies.push_back(chunks);
	}
	pub fn written(&self) -> Vec<Vec<u8>> {
		self.0.borrow().written.clone()
	}
	pub fn reads(&self) -> usize {
		self.0.borrow().reads
	}
}

impl SerialPort for Port {
	type Error = Fail;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, Fail> {
		Ok(self.0.borrow().baud)
	}
	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), Fail> {
		let mut s = self.0.borrow_mut();
		if let Some(e) = s.fail_baud.take() {
			return Err(Fail::Other(e));
		}
		s.baud = baud_rate;
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), Fail> {
		let mut s = self.0.borrow_mut();
		s.discards += 1;
		if let Some(Some(e)) = s.fail_discard.pop_front() {
			return Err(Fail::Other(e));
		}
		let now = s.now;
		s.incoming.retain(|x| x.0 > now);
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Duration) -> Result<usize, Fail> {
		assert!(!buffer.is_empty(), "the port was asked to read into an empty buffer");
		let mut s = self.0.borrow_mut();
		s.reads += 1;
		assert!(s.reads < 100_000, "endless reading");
		s.deadlines.push(*deadline);
		match s.incoming.pop_front() {
			Some((at, what)) if at <= *deadline || at <= s.now => {
				s.now = s.now.max(at);
				match what {
					Err(e) => Err(Fail::Other(e)),
					Ok(mut data) => {
						let n = data.len().min(buffer.len());
						buffer[..n].copy_from_slice(&data[..n]);
						if n < data.len() {
							data.drain(..n);
							s.incoming.push_front((at, Ok(data)));
						}
						Ok(n)
					},
				}
			},
			other => {
				if let Some(x) = other {
					s.incoming.push_front(x);
				}
				s.now = s.now.max(*deadline);
				Err(Fail::Timeout)
			},
		}
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), Fail> {
		let mut s = self.0.borrow_mut();
		if let Some(Some(e)) = s.fail_write.pop_front() {
			return Err(Fail::Other(e));
		}
		s.written.push(buffer.to_vec());
		let now = s.now;
		if let Some(r) = s.replies.pop_front() {
			for (us, what) in r {
				s.incoming.push_back((now + Duration::from_micros(us), what));
			}
		}
		Ok(())
	}
	fn make_deadline(&self, timeout: Duration) -> Duration {
		self.0.borrow().now + timeout
	}
	fn is_timeout_error(error: &Fail) -> bool {
		*error == Fail::Timeout
	}
}

pub fn crc(mut crc: u16, data: &[u8]) -> u16 {
	for &b in data {
		crc ^= u16::from(b) << 8;
		for _ in 0..8 {
			crc = if crc & 0x8000 != 0 { crc << 1 ^ 0x8005 } else { crc << 1 };
		}
	}
	crc
}

/// A frame around this body (instruction and parameters).
pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
	let mut stuffed = Vec::new();
	for &b in body {
		stuffed.push(b);
		if stuffed.ends_with(&[0xFF, 0xFF, 0xFD]) {
			stuffed.push(0xFD);
		}
	}
	let n = stuffed.len() + 2;
	let mut f = vec![0xFF, 0xFF, 0xFD, 0, id, n as u8, (n >> 8) as u8];
	f.extend(stuffed);
	let c = crc(0, &f);
	f.extend([c as u8, (c >> 8) as u8]);
	f
}
pub fn instruction(id: u8, instruction: u8, parameters: &[u8]) -> Vec<u8> {
	frame(id, &[&[instruction], parameters].concat())
}
pub fn status(id: u8, error: u8, parameters: &[u8]) -> Vec<u8> {
	frame(id, &[&[0x55, error], parameters].concat())
}
pub fn ok(data: Vec<u8>) -> Vec<Chunk> {
	vec![(100, Ok(data))]
}

pub fn client(port: &Port, read: usize, write: usize) -> Client<Port, Vec<u8>> {
	Client::with_buffers(port.clone(), vec![0; read], vec![0; write]).unwrap()
}
pub fn device(port: &Port, read: usize, write: usize) -> Device<Port, Vec<u8>> {
	Device::with_buffers(port.clone(), vec![0; read], vec![0; write]).unwrap()
}
pub const MS: Duration = Duration::from_millis(1);

/// Whether this panics.
pub fn panics(f: impl FnOnce()) -> bool {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
