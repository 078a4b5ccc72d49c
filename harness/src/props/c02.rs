//! C02: byte stuffing is complete, minimal and lossless.

use crate::common::*;
use crate::ctx::{hex, Case, Run};
use crate::ops::encoder;
use crate::port::SimPort;
use crate::proto::{self, Pkt};
use crate::rng::hash_bytes;
use crate::rx::{Got, Kind, Rx};
use crate::{check, fail};

pub const RULE: &str = "byte strings used as instruction+parameters are sent by client and device (wire bytes compared with an independent stuffer and scanned for the prefix) and received by client and device (delivered bytes compared with the original); strings over small alphabets of FF, FD, 00 and one other byte are enumerated completely up to a bound; non-trivial: the string contains FF FF FD or FF FF FF; distinct by content";

struct Ends {
	port: SimPort,
	client: Rx,
	device: Rx,
}

fn ends(rbuf: usize, wbuf: usize) -> Ends {
	let port = SimPort::default();
	let mut client = client(&port, rbuf, wbuf);
	let mut device = device(&port, rbuf, wbuf);
	let _ = (&mut client, &mut device);
	Ends {
		port,
		client: Rx::Client(client),
		device: Rx::Device(device, Kind::DevRaw),
	}
}

fn wire_ok(w: &[u8], pkt: &Pkt) -> Result<(), String> {
	let body = &w[7..w.len() - 2];
	let plain = proto::body(pkt.instruction, &pkt.params);
	let expect = proto::stuff(&plain);
	check!(
		body == expect,
		"[{}] was stuffed as [{}] instead of [{}]",
		hex(&plain),
		hex(body),
		hex(&expect)
	);
	check!(proto::find_prefix(body).is_none(), "stuffed body [{}] contains the frame prefix", hex(body));
	Ok(())
}

/// All four directions for one byte string.
fn round_trip(c: &mut Case, e: &mut Ends, s: &[u8]) -> Result<(), String> {
	let nontrivial = s.windows(3).any(|w| w[..2] == [0xFF, 0xFF] && w[2] >= 0xFD);
	if nontrivial {
		c.distinct(hash_bytes(0, s));
		c.count("nontrivial_strings", 1);
	}
	c.eval(4);
	// Client transmits: the string is instruction + parameters.
	if !s.is_empty() && s[0] != 0x55 {
		let pkt = Pkt::new(s.len() as u8, s[0], s[1..].to_vec());
		e.port.take_events();
		let Rx::Client(client) = &mut e.client else { unreachable!() };
		let r = crate::ctx::guard(|| client.write_instruction(pkt.id, pkt.instruction, pkt.params.len(), encoder(&pkt.params)).is_ok())
			.map_err(|p| format!("sending [{}] {p}", hex(s)))?;
		check!(r, "sending [{}] failed", hex(s));
		let w = one_write(&e.port.take_events())?;
		wire_ok(&w, &pkt)?;
		// Device receives the (reference) frame.
		e.port.push(0, pkt.frame());
		match e.device.recv(MS).map_err(|p| format!("receiving [{}] {p}", hex(s)))? {
			Ok(Got::Pkt(p)) if p == pkt => (),
			other => fail!("device received [{}] as {other:?}", hex(&pkt.frame())),
		}
	}
	// Device transmits: error byte and parameters.
	if !s.is_empty() {
		let pkt = Pkt::status(3, s[0], &s[1..]);
		e.port.take_events();
		let Rx::Device(device, _) = &mut e.device else { unreachable!() };
		let r = crate::ctx::guard(|| device.write_status(pkt.id, pkt.error(), pkt.data().len(), encoder(pkt.data())).is_ok())
			.map_err(|p| format!("sending status [{}] {p}", hex(s)))?;
		check!(r, "sending status [{}] failed", hex(s));
		let w = one_write(&e.port.take_events())?;
		wire_ok(&w, &pkt)?;
	}
	// Client receives.
	let pkt = Pkt::status(9, 0x80 * (s.len() as u8 & 1), s);
	e.port.push(0, pkt.frame());
	match e.client.recv(MS).map_err(|p| format!("receiving status [{}] {p}", hex(s)))? {
		Ok(Got::Pkt(p)) if p == pkt => (),
		other => fail!("client received [{}] as {other:?}", hex(&pkt.frame())),
	}
	e.port.take_events();
	Ok(())
}

fn enumerate(r: &Run, name: &str, alphabet: &'static [u8], len: u32) {
	let k = alphabet.len() as u64;
	// One case per prefix of the string, the rest is enumerated inside.
	let head = len.saturating_sub(4);
	r.exhaustive(name, k.pow(head), move |c, i| {
		let mut e = ends(64, 64);
		e.port.core().events.reserve(64);
		let mut s = vec![0; len as usize];
		let mut x = i;
		for b in s[..head as usize].iter_mut() {
			*b = alphabet[(x % k) as usize];
			x /= k;
		}
		for j in 0..k.pow(len - head) {
			let mut x = j;
			for b in s[head as usize..].iter_mut() {
				*b = alphabet[(x % k) as usize];
				x /= k;
			}
			e.port.set_budget(1000);
			round_trip(c, &mut e, &s)?;
			if j == 0 {
				c.sample(|| format!("string [{}] stuffed [{}]", hex(&s), hex(&proto::stuff(&s))));
			}
		}
		Ok(())
	});
}

pub fn run(r: &Run) {
	for len in 0..=r.q(8, 10) as u32 {
		enumerate(r, &format!("alphabet4_len{len}"), &[0xFF, 0xFD, 0x00, 0x55], len);
	}
	for len in 9..=r.q(11, 14) as u32 {
		enumerate(r, &format!("alphabet3_len{len}"), &[0xFF, 0xFD, 0x00], len);
	}
	for len in 12..=r.q(15, 19) as u32 {
		enumerate(r, &format!("alphabet2_len{len}"), &[0xFF, 0xFD], len);
	}
	// Longer strings, in buffers that fit exactly or have room to spare.
	r.section("random", 20_000, |c, _| {
		let n = c.rng.size(1200);
		let s = c.rng.content(n);
		let frame = proto::stuff(&s).len() + 16;
		let size = if c.rng.chance(1, 2) { frame + 3 } else { frame + c.rng.usize(300) + 3 };
		let mut e = ends(size, size);
		if c.rng.chance(1, 2) {
			e.port.core().max_read = c.rng.range(1, 9);
		}
		for _ in 0..2 {
			round_trip(c, &mut e, &s)?;
		}
		Ok(())
	});
	// Up to the longest packets there are.
	r.section("large", 120, |c, i| {
		let n = match i % 3 {
			0 => c.rng.range(1200, 20_000),
			1 => c.rng.range(20_000, 48_000),
			// Stuffing makes content up to a third longer.
			_ => c.rng.range(48_000, 65_000),
		};
		let mut s = match c.rng.below(3) {
			// Patterns only here and there.
			0 => {
				let mut s = vec![0x11; n];
				for _ in 0..c.rng.range(1, 40) {
					let at = c.rng.usize(n - 3);
					s[at..at + 3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
				}
				s
			},
			1 => c.rng.bytes(n),
			_ => c.rng.content(n),
		};
		// The length field counts the stuffed content and the checksum.
		while proto::stuff(&s).len() > 65_500 {
			s.truncate(s.len() - 500);
		}
		let frame = proto::stuff(&s).len() + 16;
		let mut e = ends(frame + 3, frame + 3);
		if c.rng.chance(1, 2) {
			e.port.core().max_read = c.rng.range(500, 5000);
		}
		c.count("large", 1);
		for _ in 0..2 {
			round_trip(c, &mut e, &s)?;
		}
		Ok(())
	});
	// Exactly fitting write buffers.
	r.section("exact_fit", 20_000, |c, _| {
		let n = c.rng.range(1, 120);
		let mut s = c.rng.content(n);
		if s[0] == 0x55 {
			s[0] = 0;
		}
		let pkt = Pkt::new(1, s[0], s[1..].to_vec());
		let port = SimPort::default();
		let mut cl = client(&port, 16, pkt.frame().len().max(10));
		let ok = crate::ctx::guard(|| cl.write_instruction(1, s[0], n - 1, encoder(&s[1..])).is_ok())
			.map_err(|p| format!("sending [{}] with an exactly fitting buffer {p}", hex(&s)))?;
		check!(ok, "sending [{}] with an exactly fitting buffer failed", hex(&s));
		let w = one_write(&port.take_events())?;
		wire_ok(&w, &pkt)?;
		c.distinct(hash_bytes(1, &s));
		Ok(())
	});
	// Round trip of values through complete operations: written by a client, decoded by a device, and back.
	r.section("end_to_end", 8000, |c, _| {
		let n = c.rng.size(600);
		let data = c.rng.content(n);
		let port = SimPort::default();
		let mut cl = client(&port, 2048, 2048);
		let mut dev = Rx::with(Kind::DevRead, &port, 2048, 2048);
		// Client to device.
		let _ = crate::ctx::guard(|| cl.write_bytes(0xFE, 0xFFFF, &data).is_ok()).map_err(|p| format!("write_bytes {p}"))?;
		let w = one_write(&port.take_events())?;
		port.push(0, w);
		match dev.recv(MS).map_err(|p| format!("receiving a write of [{}] {p}", hex(&data)))? {
			Ok(Got::Dec(0xFE, crate::rx::Dec::Write(0xFFFF, got))) if got == data => (),
			other => fail!("[{}] written by the client arrived at the device as {other:?}", hex(&data)),
		}
		// Device to client.
		let Rx::Device(d, _) = &mut dev else { unreachable!() };
		port.take_events();
		let ok = crate::ctx::guard(|| d.write_status(7, 0, data.len(), encoder(&data)).is_ok()).map_err(|p| format!("write_status {p}"))?;
		check!(ok, "write_status failed");
		let w = one_write(&port.take_events())?;
		port.reply_with(vec![w]);
		let got = crate::ctx::guard(|| cl.read_bytes::<Vec<u8>>(7, 0, data.len() as u16).map(|x| x.data).ok())
			.map_err(|p| format!("read_bytes {p}"))?;
		check!(got.as_ref() == Some(&data), "[{}] sent by the device was read as {got:?}", hex(&data));
		c.distinct(hash_bytes(2, &data));
		c.count("end_to_end", 1);
		Ok(())
	});
}
