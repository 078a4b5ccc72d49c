//! C04: a device decodes every instruction packet faithfully.

use crate::common::*;
use crate::ctx::{guard, Case, Run};
use crate::port::SimPort;
use crate::proto::{self, Pkt};
use crate::rng::hash_bytes;
use crate::rx::{dec, decode_ref, Dec, Got, Kind, Rx, DEVICE_KINDS};
use crate::{check, fail};

pub const RULE: &str = "each case feeds instruction packets (all 256 instruction bytes, all short parameter lists lengths, random long ones) to a device through the raw, borrowed and owned receive paths and compares with an independent decoder; distinct by packet, non-trivial if the device returned a packet or a parameter-count error";

fn judge(c: &mut Case, dev: &mut Rx, port: &SimPort, pkt: &Pkt, statuses: usize) -> Result<(), String> {
	for _ in 0..statuses {
		let n = c.rng.usize(12);
		let s = Pkt::status(c.rng.id(), c.rng.u8(), &c.rng.clone().content(n));
		port.push(0, s.frame());
		c.count("statuses_skipped", 1);
	}
	port.push(0, pkt.frame());
	let kind = dev.kind();
	let got = dev.recv(MS).map_err(|p| format!("receiving {pkt:?} through {kind:?} {p}"))?;
	c.eval(1);
	match kind {
		Kind::DevRaw => check!(got == Ok(Got::Pkt(pkt.clone())), "raw receive of {pkt:?} gave {got:?}"),
		_ => match (decode_ref(pkt), &got) {
			(Ok(d), Ok(Got::Dec(id, g))) if *id == pkt.id && *g == d => c.count("decoded", 1),
			(Err(e), Err(g)) if *g == e => c.count("count_errors", 1),
			(expect, _) => fail!("{kind:?} of {pkt:?} gave {got:?} instead of {expect:?}"),
		},
	}
	c.distinct(hash_bytes(u64::from(pkt.id) << 8 | u64::from(pkt.instruction), &pkt.params));
	Ok(())
}

pub fn run(r: &Run) {
	// Every instruction byte with every small number of parameters.
	let lens = r.q(24, 64);
	r.exhaustive("instructions", 256 * lens, |c, i| {
		let instruction = (i % 256) as u8;
		if instruction == proto::STATUS {
			return Ok(());
		}
		let n = (i / 256) as usize;
		let port = SimPort::default();
		for &kind in DEVICE_KINDS {
			let mut dev = Rx::new(kind, &port, 256);
			for style in 0..4 {
				let params: Vec<u8> = match style {
					0 => (0..n).map(|k| k as u8 + 1).collect(),
					1 => vec![0xFF; n],
					_ => c.rng.content(n),
				};
				let pkt = Pkt::new(c.rng.id(), instruction, params);
				judge(c, &mut dev, &port, &pkt, usize::from(style == 3))?;
			}
		}
		Ok(())
	});
	// Every packet ID; every option byte; every address and length value.
	r.exhaustive("ids_options", 256, |c, i| {
		let b = i as u8;
		let port = SimPort::default();
		for &kind in DEVICE_KINDS {
			let mut dev = Rx::new(kind, &port, 64);
			for inst in [1, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93, 0x20] {
				let params = match inst {
					2 => c.rng.bytes(4),
					6 => c.rng.bytes(1),
					_ => c.rng.bytes(9),
				};
				judge(c, &mut dev, &port, &Pkt::new(b, inst, params), 0)?;
			}
			// Options.
			judge(c, &mut dev, &port, &Pkt::new(1, 6, vec![b]), 0)?;
			judge(c, &mut dev, &port, &Pkt::new(1, 0x10, vec![b]), 0)?;
			judge(c, &mut dev, &port, &Pkt::new(1, 0x10, vec![b, 0x44, 0x58, 0x4C, 0x22]), 0)?;
			judge(c, &mut dev, &port, &Pkt::new(1, 0x10, vec![b, 0x45, 0x52, 0x43, 0x4C]), 0)?;
			// Addresses and lengths, each byte.
			for inst in [2u8, 0x82, 0x83] {
				for pos in 0..4 {
					let mut p = c.rng.bytes(4);
					p[pos] = b;
					judge(c, &mut dev, &port, &Pkt::new(1, inst, p), 0)?;
				}
			}
			for inst in [3u8, 4] {
				for pos in 0..2 {
					let mut p = c.rng.bytes(4);
					p[pos] = b;
					judge(c, &mut dev, &port, &Pkt::new(1, inst, p), 0)?;
				}
			}
		}
		c.sample(|| format!("packet ID {b} with all instructions, option byte {b} for factory reset and clear"));
		Ok(())
	});
	// Random packets of all sizes, in sequences, with status packets of other devices in between.
	r.section("random", 12_000, |c, i| {
		let port = SimPort::default();
		let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
		let max = *c.rng.pick(&[20usize, 200, 2000]);
		let mut dev = Rx::new(kind, &port, max * 2 + 20);
		if c.rng.chance(1, 3) {
			port.core().max_read = c.rng.range(1, 7);
		}
		for _ in 0..6 {
			let instruction = if c.rng.chance(3, 4) {
				*c.rng.pick(&[1u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93])
			} else {
				crate::ops::raw_instruction(&mut c.rng)
			};
			let n = match instruction {
				2 if c.rng.chance(1, 2) => 4,
				6 if c.rng.chance(1, 2) => 1,
				_ => c.rng.size(max),
			};
			let pkt = Pkt::new(c.rng.id(), instruction, c.rng.content(n));
			let k = if c.rng.chance(1, 3) { c.rng.usize(4) } else { 0 };
			judge(c, &mut dev, &port, &pkt, k)?;
		}
		Ok(())
	});
	// A busy bus: very many status packets of other devices before the instruction, and many instructions on one device.
	r.section("busy_bus", 30, |c, i| {
		let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
		let port = SimPort::default();
		port.core().log = false;
		let mut dev = Rx::new(kind, &port, 200);
		for k in 0..400 {
			let statuses = match (i + k) % 100 {
				0 => *c.rng.pick(&[252, 253, 254, 255, 256, 257, 300, 1100]),
				1 => 5000,
				_ => c.rng.usize(3),
			};
			let instruction = *c.rng.pick(&[1u8, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93, 0x31]);
			let n = c.rng.usize(12);
			let pkt = Pkt::new(c.rng.id(), instruction, c.rng.content(n));
			judge(c, &mut dev, &port, &pkt, statuses)?;
		}
		Ok(())
	});
	r.section("large", 60, |c, i| {
		let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
		let n = c.rng.range(5_000, 48_000);
		let port = SimPort::default();
		let mut dev = Rx::new(kind, &port, 70_000);
		let inst = *c.rng.pick(&[3u8, 4, 0x82, 0x83, 0x92, 0x93, 0x21]);
		let pkt = Pkt::new(c.rng.id(), inst, c.rng.content(n));
		judge(c, &mut dev, &port, &pkt, 1)
	});
	// The three receive paths agree, and the conversion can also be applied to a raw packet by the caller.
	r.section("agreement", 10_000, |c, _| {
		let instruction = c.rng.u8();
		if instruction == proto::STATUS {
			return Ok(());
		}
		let n = c.rng.usize(16);
		let pkt = Pkt::new(c.rng.id(), instruction, c.rng.content(n));
		let port = SimPort::default();
		let mut d = device(&port, 128, 32);
		let expect = decode_ref(&pkt);
		port.push(0, pkt.frame());
		let a: Result<(u8, Dec), crate::ops::E> = guard(|| {
			let raw = d.read_raw_instruction_timeout(std::time::Duration::from_millis(1)).map_err(crate::ops::E::from)?;
			let i: dynamixel2::Instruction<&[u8]> = raw
				.try_into()
				.map_err(|e: dynamixel2::InvalidParameterCount| crate::ops::E::from(dynamixel2::InvalidMessage::from(e)))?;
			Ok(dec(&i))
		})
		.map_err(|p| format!("converting {pkt:?} {p}"))?;
		check!(
			a == expect.clone().map(|x| (pkt.id, x)),
			"converting the raw packet {pkt:?} gave {a:?} instead of {expect:?}"
		);
		#[cfg(feature = "alloc")]
		{
			port.push(0, pkt.frame());
			let b: Result<(u8, Dec), crate::ops::E> = guard(|| {
				let raw = d.read_raw_instruction_timeout(std::time::Duration::from_millis(1)).map_err(crate::ops::E::from)?;
				let i: dynamixel2::Instruction<Vec<u8>> = raw
					.try_into()
					.map_err(|e: dynamixel2::InvalidParameterCount| crate::ops::E::from(dynamixel2::InvalidMessage::from(e)))?;
				Ok(dec(&i))
			})
			.map_err(|p| format!("converting {pkt:?} {p}"))?;
			check!(a == b, "borrowed and owned conversion of {pkt:?} differ: {a:?} and {b:?}");
			// The debug representations agree too, up to the container.
			port.push(0, pkt.frame());
			let x = guard(|| d.read(std::time::Duration::from_millis(1)).map(|x| format!("{x:?}")).map_err(|e| format!("{e:?}")))
				.map_err(|p| format!("reading {pkt:?} {p}"))?;
			port.push(0, pkt.frame());
			let y = guard(|| {
				d.read_owned(std::time::Duration::from_millis(1))
					.map(|x| format!("{x:?}"))
					.map_err(|e| format!("{e:?}"))
			})
			.map_err(|p| format!("reading {pkt:?} {p}"))?;
			check!(x == y, "borrowed and owned receive of {pkt:?} differ: {x:?} and {y:?}");
		}
		c.count("agreements", 1);
		c.distinct(hash_bytes(9, &pkt.frame()));
		Ok(())
	});
	// Status packets alone never end the wait with a packet.
	r.section("only_statuses", 3000, |c, i| {
		let kind = DEVICE_KINDS[(i % DEVICE_KINDS.len() as u64) as usize];
		let port = SimPort::default();
		let mut dev = Rx::new(kind, &port, 128);
		let n = c.rng.range(1, 6);
		for _ in 0..n {
			let k = c.rng.usize(20);
			let s = Pkt::status(c.rng.id(), c.rng.u8(), &c.rng.clone().content(k));
			port.push(0, s.frame());
		}
		match dev.recv(MS).map_err(|p| format!("receiving status packets {p}"))? {
			Err(e) if e.is_timeout() => (),
			other => fail!("{n} status packets on the bus were reported as {other:?}"),
		}
		c.distinct(c.rng.clone().u64());
		c.count("status_only_waits", 1);
		let pkt = Pkt::new(3, 2, vec![1, 2, 3, 4]);
		judge(c, &mut dev, &port, &pkt, 2)
	});
}
