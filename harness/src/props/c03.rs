//! C03: each client method sends exactly the instruction it names.

use crate::common::*;
use crate::ctx::{guard, Case, Run};
use crate::ops::{dispatch, distinct_ids, random_op, Drive, Op, Ty, Val, Via, FULL, N_KINDS, RESET_KINDS};
use crate::port::{Ev, SimPort};
use crate::rng::hash_bytes;
use crate::check;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};

pub const RULE: &str = "each case performs one client operation and compares the transmitted packet with the one Protocol 2.0 prescribes for the operation's arguments; documented panics must happen before any port write; distinct by transmitted packet, non-trivial if a packet or a documented panic was observed";

fn perform(c: &mut Case, client: &mut Cl, port: &SimPort, op: &Op, drive: Drive, answered: bool) -> Result<(), String> {
	let replies = if answered { good_replies(&mut c.rng, op) } else { vec![] };
	port.reply_with(replies.iter().map(|p| p.frame()).collect());
	port.take_events();
	let out = must(run_op(client, op, drive), || op_text(op))?;
	check_frame(&port.take_events(), &op.packet()).map_err(|e| format!("{}: {e}", op_text(op)))?;
	c.count(&format!("op.{}", op.name()), 1);
	c.distinct(hash_bytes(c.i & 1, &op.packet().frame()));
	if answered {
		check!(out.start.is_ok(), "{} failed: {:?}", op_text(op), out.start);
	}
	Ok(())
}

fn client_for(port: &SimPort) -> Cl {
	client(port, 4096, 4096)
}

pub fn run(r: &Run) {
	r.section("random", 40_000, |c, i| {
		let port = SimPort::default();
		let mut cl = client_for(&port);
		let op = random_op(&mut c.rng, i, 1200);
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let take = if c.rng.chance(1, 5) { c.rng.usize(4) } else { usize::MAX };
		let answered = c.rng.chance(3, 4);
		c.sample(|| op_text(&op));
		perform(c, &mut cl, &port, &op, Drive { via, take }, answered)
	});
	// Every motor ID for every operation with an ID (broadcast included where it is meaningful).
	r.exhaustive("ids", 256 * 11, |c, i| {
		let id = (i % 256) as u8;
		let port = SimPort::default();
		let mut cl = client_for(&port);
		let addr = c.rng.addr();
		let ty = *c.rng.pick(Ty::ALL);
		let n = c.rng.usize(20);
		let kind = *c.rng.pick(&RESET_KINDS);
		let op = match i / 256 {
			0 => Op::Ping { id },
			1 => Op::Read { id, addr, ty },
			2 => Op::ReadBytes { id, addr, count: n as u16 },
			3 => Op::Write { id, addr, ty, val: c.rng.content(ty.size()) },
			4 => Op::WriteBytes { id, addr, data: c.rng.content(n) },
			5 => Op::RegWrite { id, addr, ty, val: c.rng.content(ty.size()) },
			6 => Op::RegWriteBytes { id, addr, data: c.rng.content(n) },
			7 => Op::Action { id },
			8 => Op::Reboot { id },
			9 => Op::FactoryReset { id, kind },
			_ => match c.rng.below(2) {
				0 => Op::ClearRev { id },
				_ => Op::ClearErr { id },
			},
		};
		perform(c, &mut cl, &port, &op, FULL, id != 254)?;
		// Each reset kind and both clears for this ID.
		if i / 256 >= 9 {
			for kind in RESET_KINDS {
				perform(c, &mut cl, &port, &Op::FactoryReset { id, kind }, FULL, id != 254)?;
			}
			perform(c, &mut cl, &port, &Op::ClearRev { id }, FULL, id != 254)?;
			perform(c, &mut cl, &port, &Op::ClearErr { id }, FULL, id != 254)?;
		}
		Ok(())
	});
	r.exhaustive("broadcast_forms", 8, |c, i| {
		let port = SimPort::default();
		let mut cl = client_for(&port);
		let op = match i {
			0 => Op::BroadcastAction,
			1 => Op::BroadcastReboot,
			2 => Op::BroadcastClearRev,
			3 => Op::BroadcastClearErr,
			4 => Op::Scan,
			k => Op::BroadcastFactoryReset {
				kind: RESET_KINDS[k as usize - 5],
			},
		};
		perform(c, &mut cl, &port, &op, FULL, false)
	});
	// Every address and every count, both bytes in the right place.
	r.exhaustive("addresses", 256, |c, i| {
		let port = SimPort::default();
		let mut cl = client_for(&port);
		for low in 0..=255u16 {
			let v = (i as u16) << 8 | low;
			let w = c.rng.u16();
			let id = c.rng.motor();
			let id2 = id ^ 1;
			let ty = Ty::ALL[(v % 13) as usize];
			let mut ops = vec![
				Op::Read { id, addr: v, ty },
				Op::ReadBytes { id, addr: v, count: w },
				Op::ReadBytes { id, addr: w, count: v },
				Op::WriteBytes { id, addr: v, data: vec![1] },
				Op::Write { id, addr: v, ty: Ty::U16, val: vec![v as u8, w as u8] },
				Op::RegWriteBytes { id, addr: v, data: vec![2, 3] },
				Op::RegWrite { id, addr: v, ty: Ty::U8, val: vec![w as u8] },
				Op::SyncWriteBytes { addr: v, count: 1, data: vec![(id, vec![9])] },
				Op::SyncWrite { addr: v, ty: Ty::U16, vals: vec![(id, vec![8, 9])] },
				Op::BulkWrite { writes: vec![(id, v, vec![1]), (id2, w, vec![])] },
				Op::BulkRead { reads: vec![(id, v, w), (id2, w, v)] },
				Op::SyncReadBytes { ids: vec![id], addr: v, count: w },
				Op::SyncReadBytes { ids: vec![id], addr: w, count: v },
				Op::SyncRead { ids: vec![id], addr: v, ty: Ty::U16 },
			];
			if c.round == 0 && !c.thorough && low % 4 != 0 {
				// The quick run sends a rotating selection for most values.
				let keep = c.rng.usize(ops.len());
				ops = vec![ops[keep].clone()];
			}
			for op in ops {
				c.eval(1);
				let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
				perform(c, &mut cl, &port, &op, Drive { via, take: usize::MAX }, false)?;
			}
		}
		Ok(())
	});
	// Every value type: the typed form sends the same packet as the byte-slice form.
	r.section("typed", 6000, |c, i| {
		let ty = Ty::ALL[(i % Ty::ALL.len() as u64) as usize];
		let port = SimPort::default();
		let mut cl = client_for(&port);
		let id = c.rng.motor();
		let addr = c.rng.addr();
		let val = match c.rng.below(5) {
			0 => vec![0xFF; ty.size()],
			1 => vec![0x00; ty.size()],
			2 => (0..ty.size()).map(|i| i as u8 + 1).collect(),
			_ => c.rng.content(ty.size()),
		};
		let n = c.rng.usize(8);
		let ids = distinct_ids(&mut c.rng, n);
		let vals: Vec<(u8, Vec<u8>)> = ids.iter().map(|id| (*id, c.rng.content(ty.size()))).collect();
		let pairs = [
			(Op::Write { id, addr, ty, val: val.clone() }, Op::WriteBytes { id, addr, data: val.clone() }),
			(Op::RegWrite { id, addr, ty, val: val.clone() }, Op::RegWriteBytes { id, addr, data: val.clone() }),
			(Op::Read { id, addr, ty }, Op::ReadBytes { id, addr, count: ty.size() as u16 }),
			(
				Op::SyncRead { ids: ids.clone(), addr, ty },
				Op::SyncReadBytes { ids: ids.clone(), addr, count: ty.size() as u16 },
			),
			(
				Op::SyncWrite { addr, ty, vals: vals.clone() },
				Op::SyncWriteBytes { addr, count: ty.size() as u16, data: vals.clone() },
			),
		];
		for (typed, bytes) in pairs {
			let mut sent = vec![];
			for op in [&typed, &bytes] {
				for via in [Via::Iter, Via::Next] {
					port.take_events();
					perform_raw(&mut cl, &port, op, Drive { via, take: usize::MAX })?;
					sent.push(one_write(&port.take_events()).map_err(|e| format!("{}: {e}", op_text(op)))?);
				}
			}
			check!(
				sent.iter().all(|x| *x == sent[0]) && sent[0] == typed.packet().frame(),
				"{} and {} sent different packets: {:02X?}",
				op_text(&typed),
				op_text(&bytes),
				sent
			);
			c.eval(4);
			c.count("typed_pairs", 1);
			c.distinct(hash_bytes(7, &sent[0]));
		}
		Ok(())
	});
	// Long motor lists.
	r.section("lists", 300, |c, i| {
		let n = match i {
			0 => 0,
			1 => 1,
			2 => 253,
			3 => 254,
			_ => c.rng.usize(254),
		};
		let mut ids: Vec<u8> = (0..=255).filter(|x| *x != 254).collect();
		c.rng.shuffle(&mut ids);
		ids.truncate(n);
		let port = SimPort::default();
		let mut cl = client(&port, 256, 20_000);
		let count = c.rng.usize(12);
		let ty = *c.rng.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::A8x3]);
		let ops = [
			Op::SyncReadBytes { ids: ids.clone(), addr: c.rng.addr(), count: count as u16 },
			Op::SyncRead { ids: ids.clone(), addr: c.rng.addr(), ty },
			Op::SyncWriteBytes {
				addr: c.rng.addr(),
				count: count as u16,
				data: ids.iter().map(|x| (*x, c.rng.content(count))).collect(),
			},
			Op::SyncWrite {
				addr: c.rng.addr(),
				ty,
				vals: ids.iter().map(|x| (*x, c.rng.content(ty.size()))).collect(),
			},
			Op::BulkRead { reads: ids.iter().map(|x| (*x, c.rng.addr(), c.rng.u16())).collect() },
			Op::BulkWrite {
				writes: ids
					.iter()
					.map(|x| {
						let k = c.rng.usize(20);
						(*x, c.rng.addr(), c.rng.content(k))
					})
					.collect(),
			},
		];
		for op in ops {
			c.eval(1);
			let via = *c.rng.pick(&[Via::Next, Via::Borrow]);
			perform(c, &mut cl, &port, &op, Drive { via, take: usize::MAX }, false)?;
		}
		c.count("motors_listed", n as u64);
		Ok(())
	});
	// Large payloads.
	r.section("large", 60, |c, i| {
		let n = c.rng.range(2000, 65_000);
		let port = SimPort::default();
		let mut cl = client(&port, 256, 120_000);
		let mut data = c.rng.bytes(n);
		data[0] = 0xFD;
		let op = match i % 3 {
			0 => Op::WriteBytes { id: 3, addr: c.rng.addr(), data },
			1 => Op::RegWriteBytes { id: 3, addr: c.rng.addr(), data },
			_ => Op::BulkWrite { writes: vec![(3, 4, data), (5, 6, vec![7])] },
		};
		if op.packet().params.len() > 65_400 {
			return Ok(());
		}
		perform(c, &mut cl, &port, &op, FULL, false)
	});
	// Requests that are documented to panic do so before anything is transmitted; their neighbours do not.
	r.section("panics", 6000, |c, i| {
		let port = SimPort::default();
		let mut cl = client(&port, 256, 140_000);
		// Up to as many motors as there are IDs.
		let n = match c.rng.below(12) {
			0 => c.rng.range(2, 255),
			1 => 255 - c.rng.usize(4),
			_ => c.rng.range(2, 12),
		};
		let mut ids = distinct_ids(&mut c.rng, n);
		let a = if c.rng.chance(1, 4) { n - 1 } else { c.rng.usize(n) };
		let b = (a + 1 + c.rng.usize(n - 1)) % n;
		let mut should_panic = c.rng.chance(2, 3);
		if should_panic && i % 4 < 2 {
			ids[b] = ids[a];
		}
		let addr = c.rng.addr();
		let what;
		let res = match i % 4 {
			0 => {
				let reads: Vec<BulkReadData> = ids
					.iter()
					.map(|id| BulkReadData { motor_id: *id, address: c.rng.addr(), count: 1 })
					.collect();
				what = format!("bulk_read of motors {ids:?}");
				guard(|| cl.bulk_read_bytes::<Vec<u8>>(&reads).map(drop).is_ok())
			},
			1 => {
				let writes: Vec<BulkWriteData<Vec<u8>>> = ids
					.iter()
					.map(|id| BulkWriteData { motor_id: *id, address: c.rng.addr(), data: c.rng.bytes(3) })
					.collect();
				what = format!("bulk_write to motors {ids:?}");
				guard(|| cl.bulk_write(&writes).is_ok())
			},
			2 => {
				let count = c.rng.usize(10);
				let mut data: Vec<SyncWriteData<Vec<u8>>> = ids
					.iter()
					.map(|id| SyncWriteData { motor_id: *id, data: c.rng.bytes(count) })
					.collect();
				if should_panic {
					let wrong = if count > 0 && c.rng.chance(1, 2) { c.rng.usize(count) } else { count + 1 + c.rng.usize(5) };
					data[a].data = c.rng.bytes(wrong);
				}
				what = format!("sync_write_bytes of {count} bytes with lengths {:?}", data.iter().map(|x| x.data.len()).collect::<Vec<_>>());
				guard(|| cl.sync_write_bytes(addr, count as u16, &data).is_ok())
			},
			_ => {
				let len = if should_panic { 65_536 + c.rng.usize(3) * 100 } else { 65_535 - c.rng.usize(3) };
				let mut writes = vec![BulkWriteData { motor_id: 1, address: 0, data: vec![0; len] }];
				if c.rng.chance(1, 2) {
					writes.insert(0, BulkWriteData { motor_id: 2, address: 0, data: vec![0; 3] });
				}
				what = format!("bulk_write of {len} bytes");
				let r = guard(|| cl.bulk_write(&writes).is_ok());
				if r == Ok(false) {
					// Too long for a packet, but not a documented panic.
					should_panic = false;
				}
				r
			},
		};
		let wrote = port.take_events().iter().any(|e| matches!(e, Ev::Write { .. }));
		match (&res, should_panic) {
			(Err(_), true) => {
				check!(!wrote, "{what} panicked, but only after transmitting a packet");
				c.count("documented_panics", 1);
			},
			(Ok(_), true) => crate::fail!("{what} did not panic as documented (packet sent: {wrote})"),
			(Err(p), false) => crate::fail!("{what} {p}"),
			(Ok(_), false) => c.count("no_panic", 1),
		}
		c.distinct(hash_bytes(i % 4, &ids) ^ u64::from(should_panic));
		// The client is still usable.
		let op = random_op(&mut c.rng, i, 60);
		perform(c, &mut cl, &port, &op, FULL, true)
	});
	let _ = N_KINDS;
}

fn perform_raw(cl: &mut Cl, port: &SimPort, op: &Op, drive: Drive) -> Result<(), String> {
	port.core().responder = None;
	must(run_op(cl, op, drive), || op_text(op))?;
	Ok(())
}

// The dispatcher needs the trait in scope.
#[allow(dead_code)]
fn size_of_ty(ty: Ty) -> usize {
	dispatch!(ty, T => <T as Val>::SIZE)
}
