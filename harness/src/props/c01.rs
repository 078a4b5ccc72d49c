//! C01: every transmitted packet is one well-formed frame.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{encoder, random_op, Op, FULL, N_KINDS, E};
use crate::port::{Ev, Fault, Kind, SimPort};
use crate::proto::{self, Pkt};
use crate::rng::{hash_bytes, mix};
use crate::{check, fail};

pub const RULE: &str = "every case sends packets through a client or device and compares the bytes of each port write with an independent encoder and strict decoder; a case is distinct by the hash of the transmitted frame, non-trivial if a frame (or a refusal) was observed";

enum Sender {
	C(Cl),
	D(Dv),
}

/// Transmit one packet and judge what reached the port. `fits`: whether it must be accepted.
fn send(case: &mut Case, port: &SimPort, s: &mut Sender, pkt: &Pkt, wbuf: usize) -> Result<(), String> {
	port.take_events();
	let body_len = proto::stuff(&proto::body(pkt.instruction, &pkt.params)).len();
	let fits = body_len + 2 <= 0xFFFF && body_len + 9 <= wbuf;
	let result: Result<(), E> = match s {
		Sender::C(c) => guard(|| c.write_instruction(pkt.id, pkt.instruction, pkt.params.len(), encoder(&pkt.params)).map_err(E::from)),
		Sender::D(d) => {
			let (id, err, data) = (pkt.id, pkt.error(), pkt.data());
			guard(|| {
				if data.is_empty() && err == 0 && pkt.id % 2 == 0 {
					d.write_status_ok(id).map_err(E::from)
				} else if data.is_empty() && pkt.id % 4 != 3 {
					d.write_status_error(id, err).map_err(E::from)
				} else {
					d.write_status(id, err, data.len(), encoder(data)).map_err(E::from)
				}
			})
		},
	}
	.map_err(|p| format!("sending {} parameter bytes (stuffed body {body_len}) {p}", pkt.params.len()))?;
	let events = port.take_events();
	if fits {
		if let Err(e) = &result {
			fail!("sending ID {} instruction {:#04X} with {} parameters failed: {e:?}", pkt.id, pkt.instruction, pkt.params.len());
		}
		check_frame(&events, pkt)?;
		let w = one_write(&events)?;
		case.count("frames_checked", 1);
		case.count("bytes_checked", w.len() as u64);
		case.distinct(hash_bytes(0, &w));
	} else {
		check!(
			matches!(result, Err(E::WriteTooSmall { .. })),
			"a packet with a stuffed body of {body_len} bytes does not fit, but the result is {result:?}"
		);
		check!(
			!events.iter().any(|e| matches!(e, Ev::Write { .. })),
			"a refused packet of {body_len} body bytes was transmitted"
		);
		case.count("refusals_checked", 1);
		case.distinct(hash_bytes(1, &pkt.params[..pkt.params.len().min(64)]) ^ body_len as u64);
	}
	Ok(())
}

fn random_packet(case: &mut Case, device: bool, n: usize) -> Pkt {
	let params = case.rng.content(n);
	if device {
		Pkt::status(case.rng.id(), case.rng.u8(), &params)
	} else {
		let i = crate::ops::raw_instruction(&mut case.rng);
		Pkt::new(case.rng.id(), i, params)
	}
}

fn sender(case: &mut Case, port: &SimPort, device: bool, wbuf: usize) -> Sender {
	if device {
		Sender::D(device_of(port, wbuf))
	} else {
		Sender::C(client_junk(port, 16, wbuf, case.rng.u64()))
	}
}

fn device_of(port: &SimPort, wbuf: usize) -> Dv {
	device(port, 16, wbuf)
}

pub fn run(r: &Run) {
	// Every size: the length field, the CRC position and the stuffing all depend on it.
	let sizes = r.q(1200, 5000);
	r.section("sizes", sizes * 2, |c, i| {
		let device = i % 2 == 1;
		let n = (i / 2) as usize;
		let port = SimPort::default();
		let first = random_packet(c, device, n);
		let exact = first.frame().len();
		let wbuf = if c.rng.chance(1, 2) { exact.max(10) } else { exact + c.rng.usize(600) + 10 };
		let mut s = sender(c, &port, device, wbuf);
		c.sample(|| format!("{} parameter bytes, frame {}", n, hex(&first.frame())));
		send(c, &port, &mut s, &first, wbuf)?;
		// Later packets on the same object, over stale contents of the write buffer.
		for _ in 0..3 {
			let k = c.rng.usize(n + 1);
			let p = random_packet(c, device, k);
			send(c, &port, &mut s, &p, wbuf)?;
		}
		Ok(())
	});
	// Every packet ID with every instruction byte, every ID with every error byte.
	r.exhaustive("ids", 512, |c, i| {
		let device = i >= 256;
		let port = SimPort::default();
		let mut s = sender(c, &port, device, 64);
		for b in 0..=255u8 {
			if !device && b == 0x55 {
				continue;
			}
			let n = c.rng.usize(6);
			let params = c.rng.content(n);
			let p = if device {
				Pkt::status(i as u8, b, &params)
			} else {
				Pkt::new(i as u8, b, params)
			};
			c.eval(1);
			send(c, &port, &mut s, &p, 64)?;
		}
		Ok(())
	});
	// All client operations, in sequences on one client.
	r.section("ops", 6000, |c, i| {
		let port = SimPort::default();
		let mut client = client_junk(&port, 2000, 3000, c.rng.u64());
		for k in 0..5 {
			let op = random_op(&mut c.rng, i + k * 7, 900);
			let replies = good_replies(&mut c.rng, &op);
			let frames: Vec<Vec<u8>> = replies.iter().map(|p| p.frame()).collect();
			port.reply_with(frames);
			port.take_events();
			let out = must(run_op(&mut client, &op, FULL), || op_text(&op))?;
			let events = port.take_events();
			check_frame(&events, &op.packet()).map_err(|e| format!("{}: {e}", op_text(&op)))?;
			check!(out.start.is_ok(), "{} failed: {out:?}", op_text(&op));
			c.eval(1);
			c.count(&format!("op.{}", op.name()), 1);
			c.distinct(hash_bytes(k, &op.packet().frame()));
			c.sample(|| op_text(&op));
		}
		Ok(())
	});
	// Around and beyond the limit of the length field.
	let n = r.q(140, 700);
	r.section("limit", n, |c, i| {
		let device = i % 2 == 1;
		let extra = if device { 1 } else { 0 };
		let n = match i % 10 {
			0..=5 => 65_532 - 8 + (i as usize / 2) % 17 - extra,
			6 => c.rng.range(40_000, 65_532),
			7 => c.rng.range(65_530, 70_000),
			8 => c.rng.range(48_000, 50_000),
			_ => c.rng.range(130_000, 140_000),
		};
		let mut p = random_packet(c, device, n);
		if c.rng.chance(1, 2) {
			// Few patterns, so that the limit is hit with a mix of content and stuffing.
			let skip = if device { 1 } else { 0 };
			for b in p.params[skip..].iter_mut() {
				if *b == 0xFD {
					*b = 3;
				}
			}
			for _ in 0..c.rng.usize(6) {
				let at = skip + c.rng.usize(n - 3);
				p.params[at..at + 3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
			}
		}
		let port = SimPort::default();
		let wbuf = *c.rng.pick(&[65_541usize, 65_542, 65_543, 70_000, 200_000]);
		let mut s = sender(c, &port, device, wbuf);
		send(c, &port, &mut s, &p, wbuf)?;
		let k = c.rng.usize(40);
		let small = random_packet(c, device, k);
		send(c, &port, &mut s, &small, wbuf)
	});
	// One object over a long life: more than 65536 small packets in two of the cases.
	r.section("long_lives", 24, |c, i| {
		let device = i % 2 == 1;
		let port = SimPort::default();
		let (packets, max, wbuf) = if i < 2 { (66_500, 4, 20) } else { (2_500, 90, 100) };
		let mut s = sender(c, &port, device, wbuf);
		for k in 0..packets {
			if k % 5 == 0 {
				// What it receives in between must not matter.
				let n = c.rng.usize(12);
				let junk = c.rng.content(n);
				port.push(0, junk);
				match &mut s {
					Sender::C(cl) => drop(guard(|| cl.read_status_response_timeout(std::time::Duration::ZERO).is_ok())),
					Sender::D(d) => drop(guard(|| d.read(std::time::Duration::ZERO).is_ok())),
				}
			}
			let n = c.rng.usize(max + 1);
			let p = random_packet(c, device, n);
			send(c, &port, &mut s, &p, wbuf).map_err(|e| format!("packet {k} of the same object: {e}"))?;
		}
		c.eval(packets);
		c.count("long_lives", 1);
		Ok(())
	});
	// An unsuccessful send leaves nothing behind in the next frame.
	r.section("after_failure", 4000, |c, i| {
		let device = i % 2 == 1;
		let port = SimPort::default();
		let wbuf = c.rng.range(12, 200);
		let mut s = sender(c, &port, device, wbuf);
		for _ in 0..4 {
			match c.rng.below(3) {
				0 => {
					// The caller's encoder gives up halfway.
					let n = c.rng.usize(wbuf - 11);
					let junk = c.rng.content(n);
					port.take_events();
					let enc = |buffer: &mut [u8]| {
						let k = buffer.len() / 2;
						buffer[..k].copy_from_slice(&junk[..k]);
						Err(dynamixel2::BufferTooSmallError {
							required_size: 77,
							total_size: 33,
						})
					};
					let e: Result<(), E> = match &mut s {
						Sender::C(cl) => guard(|| cl.write_instruction(1, 2, n, enc).map_err(E::from)),
						Sender::D(d) => guard(|| d.write_status(1, 2, n, enc).map_err(E::from)),
					}
					.map_err(|p| format!("a send with a failing encoder {p}"))?;
					check!(
						e == Err(E::WriteTooSmall { required: 77, total: 33 }),
						"the error of the encoder callback was reported as {e:?}"
					);
					check!(port.writes().is_empty(), "a packet was transmitted although its encoder failed");
					c.count("failing_encoders", 1);
				},
				1 => {
					// The port fails.
					port.take_events();
					{
						let mut core = port.core();
						let at = core.calls + 1;
						core.fault = Fault::At(at, Kind::Other);
					}
					let k = c.rng.usize(wbuf / 2 - 5);
					let p = random_packet(c, device, k);
					let _ = match &mut s {
						Sender::C(cl) => guard(|| cl.write_instruction(p.id, p.instruction, p.params.len(), encoder(&p.params)).is_ok()),
						Sender::D(d) => guard(|| d.write_status(p.id, p.error(), p.data().len(), encoder(p.data())).is_ok()),
					}
					.map_err(|p| format!("a send on a failing port {p}"))?;
					port.core().fault = Fault::None;
					c.count("failed_writes", 1);
				},
				_ => {
					// Possibly too large.
					let k = c.rng.usize(wbuf + 10);
					let p = random_packet(c, device, k);
					send(c, &port, &mut s, &p, wbuf)?;
				},
			}
			let k = c.rng.usize(wbuf);
			let p = random_packet(c, device, k);
			send(c, &port, &mut s, &p, wbuf)?;
		}
		c.distinct(mix(i));
		Ok(())
	});
	let _ = N_KINDS;
	let _: Option<Op> = None;
}
