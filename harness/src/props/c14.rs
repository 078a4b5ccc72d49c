//! C14: too-small buffers are reported accurately and never half-used.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{encoder, random_op, Op, Wait, E, FULL};
use crate::port::{Ev, SimPort};
use crate::proto::{frame_len, Pkt};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rx::{random_packet, Rx, KINDS};
use crate::{check, fail};

pub const RULE: &str = "every operation and raw packet is transmitted with write buffers of every size around the exact frame size (stuffed and unstuffed), and packets are received with read buffers of every size around theirs; transmitted if and only if the frame fits, otherwise an error naming the true size and a larger required size and no write, and at most two enlargements to the reported size make it succeed; distinct by (packet, buffer size), non-trivial if the buffer size is within 80 bytes of the frame size";

const MAX_FRAME: usize = 65_542;

/// Size of the complete frame, also if it is too long to exist.
fn flen(pkt: &Pkt) -> usize {
	frame_len(pkt.instruction, &pkt.params)
}

/// A frame sent by either side.
#[derive(Debug, Clone)]
enum Send {
	Op(Op),
	Status { id: u8, error: u8, data: Vec<u8> },
	StatusError { id: u8, error: u8 },
	StatusOk { id: u8 },
}

impl Send {
	fn packet(&self) -> Pkt {
		match self {
			Send::Op(op) => op.packet(),
			Send::Status { id, error, data } => Pkt::status(*id, *error, data),
			Send::StatusError { id, error } => Pkt::status(*id, *error, &[]),
			Send::StatusOk { id } => Pkt::status(*id, 0, &[]),
		}
	}
	/// Run it with this write buffer size: the events, and the write error.
	fn run(&self, wbuf: usize) -> Result<(Vec<Ev>, Result<(), E>), String> {
		let port = SimPort::default();
		let what = || format!("{self:?} with a write buffer of {wbuf} bytes");
		let result = match self {
			Send::Op(op) => {
				let mut replies = vec![];
				if let Wait::One { id, count } = op.wait() {
					replies.push(Pkt::status(id, 0, &vec![0; count.unwrap_or(0)]).frame());
				}
				port.reply_with(replies);
				let mut cl = client(&port, 8192, wbuf);
				must(run_op(&mut cl, op, FULL), what)?.start
			},
			_ => {
				let mut d = device(&port, 16, wbuf);
				guard(|| match self {
					Send::Status { id, error, data } => d.write_status(*id, *error, data.len(), encoder(data)),
					Send::StatusError { id, error } => d.write_status_error(*id, *error),
					Send::StatusOk { id } => d.write_status_ok(*id),
					Send::Op(_) => unreachable!(),
				})
				.map_err(|e| format!("{} {e}", what()))?
				.map_err(E::from)
			},
		};
		Ok((port.take_events(), result))
	}
}

fn short(s: &Send) -> String {
	let mut t = format!("{s:?}");
	if t.len() > 300 {
		t.truncate(t.char_indices().take_while(|x| x.0 < 300).count());
		t.push('…');
	}
	t
}

/// Check one write buffer size; returns the required size if it was too small.
fn write_once(send: &Send, wbuf: usize) -> Result<Option<usize>, String> {
	let pkt = send.packet();
	let len = flen(&pkt);
	let (events, result) = send.run(wbuf)?;
	let what = || format!("{} (frame of {} bytes) with a write buffer of {wbuf} bytes", short(send), len);
	if len <= wbuf && len <= MAX_FRAME {
		check!(
			!matches!(result, Err(E::WriteTooSmall { .. })),
			"{}: was refused: {result:?}",
			what()
		);
		check_frame(&events, &pkt).map_err(|e| format!("{}: {e}", what()))?;
		return Ok(None);
	}
	let Err(E::WriteTooSmall { required, total }) = result else {
		fail!("{}: gave {result:?} instead of a too small write buffer", what());
	};
	let writes = events.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
	check!(writes == 0, "{}: wrote {writes} times to the port", what());
	let actual = if len > wbuf { wbuf.min(MAX_FRAME) } else { MAX_FRAME };
	check!(
		total == wbuf || total == actual,
		"{}: reports a buffer size of {total}",
		what()
	);
	check!(required > total, "{}: reports that {required} bytes are required but {total} are available", what());
	check!(required <= len, "{}: reports that {required} bytes are required", what());
	Ok(Some(required))
}

fn write_chain(c: &mut Case, send: &Send, wbuf: usize) -> Result<(), String> {
	let pkt = send.packet();
	let len = flen(&pkt);
	let mut size = wbuf;
	let mut enlarged = 0;
	while let Some(required) = write_once(send, size)? {
		c.count("write_refused", 1);
		if len > MAX_FRAME {
			c.count("write_over_long", 1);
			return Ok(());
		}
		enlarged += 1;
		check!(
			enlarged <= 2,
			"{} (frame of {} bytes) still fails after two enlargements of the write buffer from {wbuf} bytes, with {size}",
			short(send),
			len
		);
		size = required;
	}
	c.count("write_accepted", 1);
	c.eval(1);
	if wbuf.abs_diff(len) <= 80 {
		c.distinct(mix(hash_bytes(wbuf as u64, &pkt.params) ^ u64::from(pkt.id) << 8 ^ u64::from(pkt.instruction)));
	}
	Ok(())
}

fn random_send(rng: &mut Rng, k: u64, size: usize) -> Send {
	match k {
		0..=25 => Send::Op(random_op(rng, k, size)),
		26 => Send::StatusOk { id: rng.id() },
		27 => Send::StatusError {
			id: rng.id(),
			error: rng.u8(),
		},
		_ => {
			let n = rng.size(size);
			Send::Status {
				id: rng.id(),
				error: rng.u8(),
				data: rng.content(n),
			}
		},
	}
}

/// One packet to a receiver with this read buffer; returns the required size if it was too small.
fn read_once(kind: crate::rx::Kind, pkt: &Pkt, noise: &[u8], rbuf: usize, next: &Pkt) -> Result<Option<usize>, String> {
	let port = SimPort::default();
	port.core().log = false;
	let frame = pkt.frame();
	let mut bytes = noise.to_vec();
	bytes.extend_from_slice(&frame);
	port.push(0, bytes);
	let mut rx = Rx::new(kind, &port, rbuf);
	let what = || format!("{kind:?} with a read buffer of {rbuf} bytes receiving {pkt:?} ({} bytes)", frame.len());
	let got = rx.recv(MS).map_err(|e| format!("{} {e}", what()))?;
	if frame.len() <= rbuf {
		check!(got.as_ref().is_ok_and(|g| g.is(pkt)), "{}: gave {got:?}", what());
		return Ok(None);
	}
	let Err(E::ReadTooSmall { required, total }) = got else {
		fail!("{}: gave {got:?} instead of a too small read buffer", what());
	};
	check!(total == rbuf, "{}: reports a buffer size of {total}", what());
	check!(required > total, "{}: reports that {required} bytes are required", what());
	check!(required <= frame.len(), "{}: reports that {required} bytes are required", what());
	// Nothing of the packet is delivered afterwards, and smaller packets still are.
	let next_frame = next.frame();
	if next_frame.len() <= rbuf {
		port.push(MS, next_frame.clone());
		let got = rx.recv(2 * MS).map_err(|e| format!("{} {e}", what()))?;
		check!(
			got.as_ref().is_ok_and(|g| g.is(next)),
			"{}: after the error the next packet {next:?} was received as {got:?}",
			what()
		);
	}
	Ok(Some(required))
}

fn read_chain(c: &mut Case, kind: crate::rx::Kind, pkt: &Pkt, rbuf: usize) -> Result<(), String> {
	let frame = pkt.frame();
	let noise = match c.rng.below(3) {
		0 => {
			let n = c.rng.usize(30);
			noise(&mut c.rng, n, &frame)
		},
		_ => vec![],
	};
	let n = c.rng.usize(4);
	let next = random_packet(&mut c.rng, kind, n);
	let mut size = rbuf;
	let mut enlarged = 0;
	while let Some(required) = read_once(kind, pkt, &noise, size, &next)? {
		c.count("read_refused", 1);
		enlarged += 1;
		check!(
			enlarged <= 2,
			"{kind:?} receiving {pkt:?} ({} bytes) still fails after two enlargements of the read buffer from {rbuf} bytes, with {size}",
			frame.len()
		);
		size = required;
	}
	c.count("read_accepted", 1);
	c.eval(1);
	if rbuf.abs_diff(frame.len()) <= 80 {
		c.distinct(mix(hash_bytes(rbuf as u64, &frame) ^ 1));
	}
	Ok(())
}

pub fn run(r: &Run) {
	// Every kind of packet, every buffer size around both the unstuffed and the stuffed size.
	r.section("write_sizes", 29 * 60, |c, i| {
		let send = random_send(&mut c.rng, i % 29, 60);
		let frame = flen(&send.packet());
		c.sample(|| format!("{} as a frame of {frame} bytes", short(&send)));
		for wbuf in 10..=(frame + 6) {
			write_chain(c, &send, wbuf)?;
		}
		Ok(())
	});
	// Every size: a frame that just fits, one that just does not, and a small frame in a buffer of that size.
	r.exhaustive("every_size", 1100, |c, i| {
		let size = 12 + i as usize;
		let n = c.rng.usize(size - 11);
		for n in [size - 11, n] {
			let mut data = c.rng.content(n);
			let send = |data: Vec<u8>, k: u64| match k {
				0 => Send::Status { id: 1, error: 0, data },
				_ => Send::Op(Op::RawWrite {
					id: 1,
					instruction: 0x90,
					params: data,
				}),
			};
			for k in 0..2 {
				// Stuffing makes it too long.
				while flen(&send(data.clone(), k).packet()) > size {
					data.pop();
				}
				let s = send(data.clone(), k);
				for wbuf in [size - 1, size, size + 1] {
					write_chain(c, &s, wbuf)?;
				}
			}
		}
		for kind in KINDS {
			let mut n = size - 10;
			let pkt = loop {
				let pkt = random_packet(&mut c.rng, *kind, n);
				if flen(&pkt) <= size {
					break pkt;
				}
				n = n.saturating_sub(1);
			};
			for rbuf in [size - 1, size, size + 1] {
				read_chain(c, *kind, &pkt, rbuf)?;
			}
			let n = c.rng.usize(size - 11);
			let pkt = random_packet(&mut c.rng, *kind, n);
			read_chain(c, *kind, &pkt, size)?;
		}
		Ok(())
	});
	// Contents that are mostly stuffing.
	r.section("write_stuffed", 600, |c, i| {
		let n = c.rng.usize(40);
		let data: Vec<u8> = match i % 3 {
			0 => [0xFF, 0xFF, 0xFD].iter().cycle().take(n).copied().collect(),
			1 => (0..n).map(|_| *c.rng.pick(&[0xFF, 0xFF, 0xFD])).collect(),
			_ => {
				let mut v = c.rng.bytes(n);
				v.extend([0xFF, 0xFF, 0xFD]);
				v
			},
		};
		let send = match c.rng.below(3) {
			0 => Send::Status {
				id: c.rng.id(),
				error: *c.rng.pick(&[0, 0xFF, 0xFD]),
				data,
			},
			1 => Send::Op(Op::WriteBytes {
				id: c.rng.id(),
				addr: *c.rng.pick(&[0, 0xFFFF, 0xFDFF, 0xFFFD]),
				data,
			}),
			_ => Send::Op(Op::RawWrite {
				id: c.rng.id(),
				instruction: *c.rng.pick(&[0xFF, 0xFD, 3]),
				params: data,
			}),
		};
		let frame = flen(&send.packet());
		for wbuf in 10..=(frame + 4) {
			write_chain(c, &send, wbuf)?;
		}
		Ok(())
	});
	r.section("write_large", 60, |c, i| {
		let n = match i % 3 {
			0 => c.rng.usize(4000),
			1 => 65_500 + c.rng.usize(40),
			_ => c.rng.usize(70_000),
		};
		let mut data = c.rng.content(n);
		data.resize(n, 0x55);
		let send = if c.rng.chance(1, 2) {
			Send::Status {
				id: c.rng.id(),
				error: 0,
				data,
			}
		} else {
			Send::Op(Op::RawWrite {
				id: c.rng.id(),
				instruction: 0x90,
				params: data,
			})
		};
		let frame = flen(&send.packet());
		for wbuf in [frame - 1, frame, frame + 1, frame.saturating_sub(c.rng.usize(frame)).max(10), 10, 70_000, MAX_FRAME, MAX_FRAME - 1, MAX_FRAME + 1] {
			write_chain(c, &send, wbuf)?;
		}
		Ok(())
	});
	r.section("read_sizes", 1_500, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = c.rng.usize(60);
		let pkt = random_packet(&mut c.rng, kind, n);
		let frame = pkt.frame().len();
		for rbuf in 0..=(frame + 4) {
			read_chain(c, kind, &pkt, rbuf)?;
		}
		Ok(())
	});
	r.section("read_large", 60, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = if i % 2 == 0 { c.rng.usize(4000) } else { 65_000 + c.rng.usize(500) };
		let mut pkt = random_packet(&mut c.rng, kind, n);
		while flen(&pkt) > MAX_FRAME {
			pkt = random_packet(&mut c.rng, kind, n);
		}
		let frame = pkt.frame().len();
		for rbuf in [frame - 1, frame, frame + 1, c.rng.usize(frame), 10, 9, 11] {
			read_chain(c, kind, &pkt, rbuf)?;
		}
		Ok(())
	});
	// Complete operations whose reply does not fit: retried with buffers of the reported sizes.
	r.section("operations", 4_000, |c, i| {
		let k = [0u64, 2, 3, 4, 5, 6, 8, 10, 12, 14, 18, 19, 22, 24, 1][(i % 15) as usize];
		let op = random_op(&mut c.rng, k, 60);
		let replies = good_replies(&mut c.rng, &op);
		let expect = good_outcome(&op, &replies);
		let (mut rbuf, mut wbuf) = (c.rng.usize(80), 10 + c.rng.usize(60));
		if k == 1 {
			rbuf = rbuf.max(14);
		}
		let (mut enlarged_r, mut enlarged_w) = (0, 0);
		loop {
			let port = SimPort::default();
			port.reply_with(replies.iter().map(|p| p.frame()).collect());
			let mut cl = client(&port, rbuf, wbuf);
			let what = || format!("{} with a read buffer of {rbuf} and a write buffer of {wbuf} bytes answered by {replies:?}", op_text(&op));
			let out = must(run_op(&mut cl, &op, FULL), what)?;
			let error = out
				.start
				.as_ref()
				.err()
				.or_else(|| out.items.iter().find_map(|x| x.as_ref().err()))
				.cloned();
			match error {
				None => {
					check!(out == expect, "{}: gave {out:?} instead of {expect:?}", what());
					break;
				},
				Some(E::WriteTooSmall { required, total }) => {
					check!(total == wbuf && required > total, "{}: gave {out:?}", what());
					enlarged_w += 1;
					check!(enlarged_w <= 2, "{}: still {out:?} after {enlarged_w} enlargements", what());
					wbuf = required;
				},
				Some(E::ReadTooSmall { required, total }) => {
					check!(total == rbuf && required > total, "{}: gave {out:?}", what());
					// Each reply of a multi read can need a larger one.
					enlarged_r += 1;
					check!(
						enlarged_r <= 1 + replies.len().max(1),
						"{}: still {out:?} after {enlarged_r} enlargements",
						what()
					);
					rbuf = required;
				},
				Some(e) => fail!("{}: gave {e:?}", what()),
			}
		}
		c.count("operations_retried", enlarged_r as u64 + enlarged_w);
		c.distinct(mix(hash_bytes(k, &op.packet().frame())) ^ hash_bytes(0, format!("{rbuf} {wbuf}").as_bytes()));
		Ok(())
	});
	// The documented size of the default buffers.
	#[cfg(feature = "alloc")]
	r.section("default_buffers", 400, |c, i| {
		let fits = c.rng.chance(1, 2);
		let total = if fits { 128 - c.rng.usize(3) } else { 129 + c.rng.usize(3) };
		let params: Vec<u8> = (0..total - 10).map(|_| 1 + c.rng.u8() % 100).collect();
		let port = SimPort::default();
		let what = format!("default {} with a frame of {total} bytes", if i % 2 == 0 { "client" } else { "device" });
		let (sent, received): (Result<(), E>, Result<Vec<u8>, E>) = guard(|| {
			if i % 2 == 0 {
				let mut cl = dynamixel2::Client::new(port.clone()).unwrap();
				let sent = cl.write_instruction(1, 0x90, params.len(), encoder(&params)).map_err(E::from);
				port.push(0, Pkt::status(1, 0, &params[1..]).frame());
				(sent, cl.read_status_response(0).map(|p| p.parameters().to_vec()).map_err(E::from))
			} else {
				let mut d = dynamixel2::Device::new(port.clone()).unwrap();
				let sent = d.write_status(1, 0, params.len() - 1, encoder(&params[1..])).map_err(E::from);
				port.push(0, Pkt::new(1, 0x90, params.clone()).frame());
				let timeout = std::time::Duration::from_millis(1);
				let got = d.read_raw_instruction_timeout(timeout).map(|p| p.parameters()[1..].to_vec()).map_err(E::from);
				(sent, got)
			}
		})
		.map_err(|e| format!("{what}: {e}"))?;
		if fits {
			check!(sent.is_ok(), "{what}: sending gave {sent:?}");
			check!(received.as_deref() == Ok(&params[1..]), "{what}: receiving gave {received:?}, not [{}]", hex(&params[1..]));
		} else {
			check!(
				sent == Err(E::WriteTooSmall { required: total, total: 128 }),
				"{what}: sending gave {sent:?}"
			);
			check!(
				received == Err(E::ReadTooSmall { required: total, total: 128 }),
				"{what}: receiving gave {received:?}"
			);
		}
		c.distinct(mix(i % 2 << 16 | total as u64) ^ hash_bytes(0, &params));
		Ok(())
	});
}
