//! C06: corrupted packets are detected, reported and never delivered.

use crate::common::*;
use crate::ctx::{hex, Case, Run};
use crate::ops::{Drive, Via, Wait, E};
use crate::port::SimPort;
use crate::proto::{self, Pkt};
use crate::rng::{hash_bytes, mix};
use crate::rx::{random_packet, Rx, KINDS};
use crate::{check, fail};

pub const RULE: &str = "frames are corrupted in ID, body or CRC (all one-bit and two-bit errors, all bursts of up to 16 bits, all wrong CRC values, random damage with a differing CRC) and received between valid frames; the receiver must report one checksum error with both checksums for the damaged frame and deliver the valid ones; distinct by (frame, damage), non-trivial if a damaged frame was fed";

/// Feed [before] bad [after] and check.
fn judge(c: &mut Case, rx: &mut Rx, port: &SimPort, before: Option<&Pkt>, bad: &[u8], after: Option<&Pkt>, what: &dyn Fn() -> String) -> Result<(), String> {
	let n = bad.len();
	let message = u16::from(bad[n - 2]) | u16::from(bad[n - 1]) << 8;
	let computed = proto::crc(&bad[..n - 2]);
	if message == computed {
		return Ok(());
	}
	let mut bytes = vec![];
	if let Some(p) = before {
		bytes.extend_from_slice(&p.frame());
	}
	bytes.extend_from_slice(bad);
	if let Some(p) = after {
		bytes.extend_from_slice(&p.frame());
	}
	port.push(0, bytes);
	port.set_budget(200_000);
	c.eval(1);
	let kind = rx.kind();
	let next = |rx: &mut Rx| rx.recv(MS).map_err(|p| format!("{kind:?}, {}: receiving {p}", what()));
	if let Some(p) = before {
		match next(rx)? {
			Ok(g) if g.is(p) => (),
			other => fail!("{kind:?}, {}: the packet before the damaged one was received as {other:?}", what()),
		}
	}
	let got = next(rx)?;
	check!(
		got == Err(E::Checksum { message, computed }),
		"{kind:?}, {}: damaged frame [{}] was reported as {got:?} instead of an invalid checksum {message:#06X} (computed {computed:#06X})",
		what(),
		hex(bad)
	);
	if let Some(p) = after {
		match next(rx)? {
			Ok(g) if g.is(p) => (),
			other => fail!("{kind:?}, {}: the packet after the damaged one [{}] was received as {other:?}", what(), hex(bad)),
		}
	}
	match next(rx)? {
		Err(e) if e.is_timeout() => (),
		other => fail!("{kind:?}, {}: the damaged frame caused another result: {other:?}", what()),
	}
	c.count("damaged_frames", 1);
	c.distinct(hash_bytes(1, bad));
	Ok(())
}

/// Bit positions that may be damaged: ID, body and CRC, but not prefix and length.
fn bits(frame: &[u8]) -> Vec<usize> {
	(0..frame.len() * 8).filter(|b| b / 8 == 4 || b / 8 >= 7).collect()
}

fn flip(frame: &mut [u8], bit: usize) {
	frame[bit / 8] ^= 1 << (bit % 8);
}

pub fn run(r: &Run) {
	let frames = r.q(40, 240);
	r.section("one_and_two_bits", frames, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = (i / KINDS.len() as u64) as usize % 16;
		let port = SimPort::default();
		port.core().log = false;
		let mut rx = Rx::new(kind, &port, 128);
		let p = random_packet(&mut c.rng, kind, n);
		let before = random_packet(&mut c.rng, kind, 3);
		let after = random_packet(&mut c.rng, kind, 4);
		let f = p.frame();
		c.sample(|| format!("{kind:?}: all one and two bit errors in [{}]", hex(&f)));
		let bits = bits(&f);
		for (x, &a) in bits.iter().enumerate() {
			let mut bad = f.clone();
			flip(&mut bad, a);
			judge(c, &mut rx, &port, Some(&before), &bad, Some(&after), &|| format!("bit {a} of [{}] flipped", hex(&f)))?;
			judge(c, &mut rx, &port, None, &bad, None, &|| format!("bit {a} of [{}] flipped", hex(&f)))?;
			for &b in &bits[x + 1..] {
				flip(&mut bad, b);
				let after = ((a + b) % 3 == 0).then_some(&after);
				judge(c, &mut rx, &port, None, &bad, after, &|| format!("bits {a} and {b} of [{}] flipped", hex(&f)))?;
				flip(&mut bad, b);
			}
		}
		Ok(())
	});
	let frames = r.q(24, 200);
	r.section("bursts", frames, |c, i| {
		// The bits of a byte are transmitted most significant first in terms of the CRC, so walk the frame in that order.
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = c.rng.usize(24);
		let port = SimPort::default();
		port.core().log = false;
		let mut rx = Rx::new(kind, &port, 128);
		let p = random_packet(&mut c.rng, kind, n);
		let after = random_packet(&mut c.rng, kind, 4);
		let f = p.frame();
		let total = (f.len() - 9) * 8 + 16;
		for start in 0..total {
			for len in 3..=16usize {
				if start + len > total {
					break;
				}
				let tries = if c.thorough { 40 } else { 3 };
				for _ in 0..tries {
					let mut pattern = c.rng.u16() | 1 | 1 << (len - 1);
					if len < 16 {
						pattern &= (1 << len) - 1;
					}
					let mut bad = f.clone();
					for k in 0..len {
						if pattern >> k & 1 == 1 {
							let bit = start + k;
							bad[7 + bit / 8] ^= 0x80 >> (bit % 8);
						}
					}
					judge(c, &mut rx, &port, None, &bad, Some(&after), &|| format!("burst of {len} bits at body bit {start} of [{}]", hex(&f)))?;
				}
			}
		}
		// Damage of the whole ID byte.
		for id in 0..=255u8 {
			let mut bad = f.clone();
			bad[4] = id;
			judge(c, &mut rx, &port, None, &bad, Some(&after), &|| format!("ID of [{}] changed to {id}", hex(&f)))?;
		}
		Ok(())
	});
	let frames = r.q(4, 24);
	r.section("all_crc_values", frames * 16, |c, i| {
		let kind = KINDS[(i / 16 % KINDS.len() as u64) as usize];
		let port = SimPort::default();
		port.core().log = false;
		let mut rx = Rx::new(kind, &port, 128);
		let mut rng = crate::rng::Rng::new(mix(i / 16 + c.round * 1000));
		let n = rng.usize(20);
		let p = random_packet(&mut rng, kind, n);
		let f = p.frame();
		let n = f.len();
		for v in 0..4096u64 {
			let v = (i % 16) * 4096 + v;
			let mut bad = f.clone();
			bad[n - 2] = v as u8;
			bad[n - 1] = (v >> 8) as u8;
			judge(c, &mut rx, &port, None, &bad, None, &|| format!("CRC of [{}] replaced by {v:#06X}", hex(&f)))?;
		}
		Ok(())
	});
	r.section("random_damage", 30_000, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = c.rng.size(600);
		let p = random_packet(&mut c.rng, kind, n);
		let f = p.frame();
		let mut bad = f.clone();
		for _ in 0..c.rng.range(1, 12) {
			let k = c.rng.range(7, f.len() - 1);
			bad[k] = c.rng.u8();
		}
		let port = SimPort::default();
		port.core().log = false;
		if c.rng.chance(1, 2) {
			port.core().max_read = c.rng.range(1, 40);
		}
		let n1 = c.rng.usize(20);
		let before = random_packet(&mut c.rng, kind, n1);
		let after = random_packet(&mut c.rng, kind, 4);
		let rbuf = f.len().max(64) + c.rng.usize(2) * 40;
		let mut rx = Rx::new(kind, &port, rbuf);
		c.sample(|| format!("[{}] damaged to [{}]", hex(&f), hex(&bad)));
		judge(c, &mut rx, &port, Some(&before), &bad, Some(&after), &|| format!("[{}] damaged", hex(&f)))
	});
	// Large frames: damage anywhere, and CRC values that are nearly right.
	r.section("large", 600, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let n = match i % 3 {
			0 => c.rng.range(240, 1200),
			1 => c.rng.range(600, 5000),
			_ => c.rng.range(5000, 45_000),
		};
		let p = random_packet(&mut c.rng, kind, n);
		let f = p.frame();
		let len = f.len();
		let port = SimPort::default();
		port.core().log = false;
		let mut rx = Rx::new(kind, &port, len.max(64) + c.rng.usize(2) * 40);
		for _ in 0..if n < 5000 { 24 } else { 4 } {
			let mut bad = f.clone();
			match c.rng.below(6) {
				0 => bad[len - 1] = c.rng.u8(),
				1 => bad[len - 2] = c.rng.u8(),
				2 => flip(&mut bad, (len - 2) * 8 + c.rng.clone().usize(16)),
				3 => {
					let bit = c.rng.range(56, len * 8 - 1);
					flip(&mut bad, bit);
				},
				4 => {
					// Near the end of the body, and in its middle.
					let at = if c.rng.chance(1, 2) { len - 3 } else { len / 2 };
					bad[at] ^= 1 << c.rng.usize(8);
				},
				_ => {
					let at = c.rng.range(7, len - 2);
					bad[at] = c.rng.u8();
					bad[at + 1] = c.rng.u8();
				},
			}
			let after = random_packet(&mut c.rng, kind, 4);
			judge(c, &mut rx, &port, None, &bad, Some(&after), &|| format!("a frame of {len} bytes damaged"))?;
		}
		Ok(())
	});
	// One receiver over a long life with thousands of damaged frames, for all IDs.
	r.section("long_lives", 24, |c, i| {
		let kind = KINDS[(i % KINDS.len() as u64) as usize];
		let port = SimPort::default();
		port.core().log = false;
		let mut rx = Rx::new(kind, &port, 300);
		for k in 0..1500usize {
			let n = c.rng.usize(30);
			let mut p = random_packet(&mut c.rng, kind, n);
			p.id = k as u8;
			let mut bad = p.frame();
			let at = c.rng.range(7, bad.len() - 1);
			bad[at] ^= 1 << c.rng.usize(8);
			let after = random_packet(&mut c.rng, kind, 4);
			judge(c, &mut rx, &port, None, &bad, Some(&after), &|| format!("frame {k} on the same object damaged"))?;
		}
		Ok(())
	});
	// Complete operations: a damaged reply is an error of the operation (or of its slot), never a result.
	r.section("operations", 12_000, |c, i| {
		let kinds = [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 19, 22, 24];
		let op = crate::ops::random_op(&mut c.rng, kinds[(i % kinds.len() as u64) as usize], 60);
		let replies = good_replies(&mut c.rng, &op);
		if replies.is_empty() || matches!(op.wait(), Wait::Nothing { .. }) {
			return Ok(());
		}
		let damaged = c.rng.usize(replies.len());
		let mut sent = vec![];
		let mut expect = good_outcome(&op, &replies);
		for (k, p) in replies.iter().enumerate() {
			let mut f = p.frame();
			if k == damaged {
				let bits = bits(&f);
				let a = *c.rng.pick(&bits);
				let b = *c.rng.pick(&bits);
				flip(&mut f, a);
				if a != b {
					flip(&mut f, b);
				}
				let n = f.len();
				let e = E::Checksum {
					message: u16::from(f[n - 2]) | u16::from(f[n - 1]) << 8,
					computed: proto::crc(&f[..n - 2]),
				};
				match op.wait() {
					Wait::One { .. } => {
						expect.start = Err(e);
						expect.items.clear();
					},
					_ => expect.items[k] = Err(e),
				}
			}
			sent.push(f);
		}
		let port = SimPort::default();
		port.reply_with(sent.clone());
		let mut cl = client(&port, 200, 300);
		let out = must(
			run_op(
				&mut cl,
				&op,
				Drive {
					via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
					take: usize::MAX,
				},
			),
			|| op_text(&op),
		)?;
		check!(
			out == expect,
			"{} with damaged reply {damaged} of {sent:02X?} gave {out:?} instead of {expect:?}",
			op_text(&op)
		);
		c.count("operations", 1);
		c.distinct(hash_bytes(damaged as u64, &sent.concat()));
		Ok(())
	});
}
