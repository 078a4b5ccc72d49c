//! Scripted bus traffic in virtual time, and the model of what a receiver must make of it.

use crate::common::noise;
use crate::ops::E;
use crate::port::Core;
use crate::proto::{self, Pkt};
use crate::rng::Rng;
use std::collections::VecDeque;

#[derive(Debug, Clone, PartialEq)]
pub enum It {
	/// A valid packet.
	Pkt(Pkt),
	/// A frame with an incorrect CRC.
	Bad(Vec<u8>),
	/// Bytes that are no packet.
	Noise(Vec<u8>),
}

impl It {
	pub fn bytes(&self) -> Vec<u8> {
		match self {
			It::Pkt(p) => p.frame(),
			It::Bad(f) => f.clone(),
			It::Noise(n) => n.clone(),
		}
	}
	pub fn checksum_error(frame: &[u8]) -> E {
		let n = frame.len();
		E::Checksum {
			message: u16::from(frame[n - 2]) | u16::from(frame[n - 1]) << 8,
			computed: proto::crc(&frame[..n - 2]),
		}
	}
}

/// Damage ID, body or CRC of a frame with one or two bit errors (always detectable).
pub fn damage(rng: &mut Rng, frame: &[u8]) -> Vec<u8> {
	let bits: Vec<usize> = (0..frame.len() * 8).filter(|b| b / 8 == 4 || b / 8 >= 7).collect();
	let mut f = frame.to_vec();
	let a = *rng.pick(&bits);
	let b = *rng.pick(&bits);
	f[a / 8] ^= 1 << (a % 8);
	if a != b {
		f[b / 8] ^= 1 << (b % 8);
	}
	f
}

#[derive(Debug, Clone, Default)]
pub struct Traffic {
	/// Time since the start of the traffic, and the bytes that arrive then.
	pub chunks: Vec<(u64, Vec<u8>)>,
	/// Time at which each packet is complete.
	pub events: VecDeque<(u64, It)>,
}

impl Traffic {
	/// `items`: gap before the first byte, and the item. Items longer than `max_piece` arrive in pieces, `inner_gap` apart.
	pub fn build(rng: &mut Rng, items: &[(u64, It)], max_piece: usize, inner_gap: u64) -> Self {
		let mut t = 0;
		let mut traffic = Traffic::default();
		for (gap, item) in items {
			t += gap;
			for (i, piece) in crate::common::split(rng, &item.bytes(), max_piece).into_iter().enumerate() {
				if i > 0 {
					t += inner_gap;
				}
				traffic.chunks.push((t, piece));
			}
			if !matches!(item, It::Noise(_)) {
				traffic.events.push_back((t, item.clone()));
			}
		}
		traffic
	}

	/// Schedule the bytes relative to the current time of the port.
	pub fn schedule(&self, core: &mut Core) {
		for (at, bytes) in &self.chunks {
			core.push(*at, bytes.clone());
		}
	}

	/// Does the byte stream contain exactly the prefixes of its frames, all in place?
	pub fn unambiguous(&self) -> bool {
		let all: Vec<u8> = self.chunks.iter().flat_map(|c| c.1.iter().copied()).collect();
		let frames = self.events.len();
		all.windows(4).filter(|w| *w == proto::PREFIX).count() == frames
	}
}

/// The receiver's view of the traffic.
#[derive(Debug, Clone)]
pub struct Model {
	pub now: u64,
	pub events: VecDeque<(u64, It)>,
}

impl Model {
	pub fn new(start: u64, traffic: &Traffic) -> Self {
		Self {
			now: start,
			events: traffic.events.iter().map(|(t, i)| (t + start, i.clone())).collect(),
		}
	}
	/// One wait: the next packet if it completes before the deadline.
	pub fn wait(&mut self, timeout: u64) -> Option<It> {
		let deadline = self.now + timeout;
		match self.events.front() {
			Some((at, _)) if *at <= deadline => {
				let (at, item) = self.events.pop_front().unwrap();
				self.now = self.now.max(at);
				Some(item)
			},
			_ => {
				self.now = deadline;
				None
			},
		}
	}
}

/// Noise that can not swallow what follows.
pub fn noise_item(rng: &mut Rng, next: &It) -> It {
	let n = rng.range(1, 12);
	let b = next.bytes();
	It::Noise(noise(rng, n, &b))
}

/// The wait for one status packet with `params` parameters, as the protocol implementation documents it.
pub fn reply_timeout(params: usize, baud: u32) -> u64 {
	proto::transfer_ns(11 + params as u64, baud) as u64 + 34_000_000
}

/// The wait for each scan reply: within these bounds (the rounding of the transfer time is not specified).
pub fn scan_timeout(baud: u32) -> u64 {
	proto::transfer_ns(14, baud) as u64 * 253 + 34_000_000
}

/// A frame with an arbitrary length field and correct CRC over the announced bytes.
pub fn lying_frame(rng: &mut Rng) -> Vec<u8> {
	let mut f = proto::PREFIX.to_vec();
	f.push(rng.id());
	let body = match rng.below(4) {
		0 => vec![],
		1 => rng.content(1),
		2 => vec![0x55],
		_ => {
			let n = rng.usize(12);
			rng.content(n)
		},
	};
	let len = match rng.below(8) {
		0 => 0,
		1 => 1,
		2 => 2,
		3 => 3,
		4 => rng.u16(),
		5 => 0xFFFF - rng.usize(3) as u16,
		_ => body.len() as u16 + 2,
	};
	f.push(len as u8);
	f.push((len >> 8) as u8);
	f.extend_from_slice(&body);
	// CRC at the place the length announces, if that is inside or just after the body.
	let end = 7 + usize::from(len);
	if (9..=f.len() + 2).contains(&end) {
		let c = proto::crc(&f[..end - 2]);
		f.truncate(end - 2);
		f.push(c as u8);
		f.push((c >> 8) as u8);
	} else {
		let c = proto::crc(&f);
		f.push(c as u8);
		f.push((c >> 8) as u8);
	}
	f
}

pub fn hostile(rng: &mut Rng, max: usize) -> Vec<u8> {
	let mut s = vec![];
	let target = rng.range(1, max);
	while s.len() < target {
		match rng.below(12) {
			0 => {
				let n = rng.range(1, 30);
				s.extend(rng.bytes(n));
			},
			1 | 2 => s.extend(lying_frame(rng)),
			3 => {
				// Truncated frame.
				let n = rng.usize(20);
				let p = Pkt::new(rng.id(), rng.u8(), rng.content(n));
				let mut f = p.frame();
				f.truncate(rng.range(1, f.len()));
				s.extend(f);
			},
			4 => {
				// Mutated frame.
				let n = rng.usize(20);
				let p = Pkt::new(rng.id(), rng.u8(), rng.content(n));
				let mut f = p.frame();
				for _ in 0..rng.range(1, 3) {
					let k = rng.usize(f.len());
					f[k] = *rng.pick(&[0, 1, 2, 3, 0xFD, 0xFF, 0x55, 0x7F]);
				}
				s.extend(f);
			},
			5 => {
				let k = rng.range(1, 4);
				s.extend_from_slice(&proto::PREFIX[..k]);
			},
			6 => {
				// Unstuffed content with a correct CRC: the prefix may occur inside the body.
				let n = rng.usize(30);
				let mut b = vec![*rng.pick(&[0x55u8, 1, 2, 3, 0x82, 0x93])];
				b.extend(rng.content(n));
				s.extend(proto::frame_raw(rng.id(), &b));
			},
			7 => {
				// A frame within a frame.
				let inner = Pkt::status(rng.id(), 0, &rng.clone().bytes(4)).frame();
				let mut b = vec![*rng.pick(&[0x55u8, 3])];
				b.extend(inner);
				s.extend(proto::frame_raw(rng.id(), &b));
			},
			8 => {
				let n = rng.range(1, 6);
				s.extend(std::iter::repeat_n(0xFF, n));
			},
			9 => {
				let n = rng.usize(8);
				let err = if rng.chance(1, 2) { 0 } else { rng.u8() };
				let p = Pkt::status(rng.id(), err, &rng.clone().content(n));
				s.extend(p.frame());
			},
			_ => {
				let n = rng.usize(40);
				let p = Pkt::new(rng.id(), rng.u8(), rng.content(n));
				s.extend(p.frame());
			},
		}
	}
	s.truncate(max);
	s
}
