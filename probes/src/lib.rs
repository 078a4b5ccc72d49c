//! Programs in src/bin try to break memory safety with safe code only. The compiler has to reject each of them
//! (except `control`). One that compiles is run under Miri, which observes what the library then does.

use dynamixel2::{Client, Device, SerialPort};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

/// Input that is handed out one chunk at a time; not `Send`.
#[derive(Clone, Default)]
pub struct Port(pub Rc<RefCell<VecDeque<Vec<u8>>>>);

#[derive(Debug)]
pub struct Empty;

impl SerialPort for Port {
	type Error = Empty;
	type Instant = ();
	fn baud_rate(&self) -> Result<u32, Empty> {
		Ok(57600)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), Empty> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), Empty> {
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], _: &()) -> Result<usize, Empty> {
		let mut queue = self.0.borrow_mut();
		let mut chunk = queue.pop_front().ok_or(Empty)?;
		// A caller that offers less room gets the rest with its next read.
		let rest = chunk.split_off(chunk.len().min(buffer.len()));
		buffer[..chunk.len()].copy_from_slice(&chunk);
		if !rest.is_empty() {
			queue.push_front(rest);
		}
		Ok(chunk.len())
	}
	fn write_all(&mut self, _: &[u8]) -> Result<(), Empty> {
		Ok(())
	}
	fn make_deadline(&self, _: Duration) {}
	fn is_timeout_error(_: &Empty) -> bool {
		true
	}
}

fn crc(data: &[u8]) -> u16 {
	let mut crc = 0u16;
	for &b in data {
		crc ^= u16::from(b) << 8;
		for _ in 0..8 {
			crc = if crc & 0x8000 != 0 { crc << 1 ^ 0x8005 } else { crc << 1 };
		}
	}
	crc
}

pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
	let n = body.len() as u16 + 2;
	let mut f = vec![0xFF, 0xFF, 0xFD, 0, id, n as u8, (n >> 8) as u8];
	f.extend_from_slice(body);
	let c = crc(&f);
	f.extend_from_slice(&c.to_le_bytes());
	f
}

/// A port with two write instructions and two status packets of different content.
fn port(body: [&[u8]; 2]) -> Port {
	let p = Port::default();
	for b in body {
		p.0.borrow_mut().push_back(frame(1, b));
	}
	p
}

pub fn device() -> Device<Port, Vec<u8>> {
	Device::with_buffers(port([&[3, 1, 2, 10, 11, 12], &[3, 1, 2, 20, 21, 22, 23, 24]]), vec![0; 40], vec![0; 40]).unwrap()
}

pub fn client() -> Client<Port, Vec<u8>> {
	Client::with_buffers(port([&[0x55, 0, 10, 11, 12], &[0x55, 0, 20, 21, 22]]), vec![0; 40], vec![0; 40]).unwrap()
}

/// Use a result after the call that must have ended its borrow: it may not have changed.
pub fn used_later(now: &[u8], before: &[u8]) {
	if now != before {
		println!("PROBE: a borrowed result changed from {before:?} to {now:?}");
		std::process::exit(3);
	}
}

pub const T: Duration = Duration::from_millis(1);
