//! C09: motor errors always surface, alerts never turn into errors.

use crate::common::*;
use crate::ctx::{guard, Case, Run};
use crate::ops::{random_op, Drive, Op, Ty, Via, Wait, E, FULL};
use crate::port::SimPort;
use crate::proto::Pkt;
use crate::rng::hash_bytes;
use crate::{check, fail};

pub const RULE: &str = "every one of the 256 error bytes is sent to every operation that reads a status packet, in every position of multi-reply operations, with and without parameters; a non-zero error number must give a motor error with the raw byte for that reply only, and otherwise the alert flag must equal bit 7; distinct by (operation, replies), non-trivial if a reply with that error byte was received";

pub fn run(r: &Run) {
	// Every error byte, single reply operations.
	r.exhaustive("single", 256 * super::c08::FORMS, |c, i| {
		let err = (i / super::c08::FORMS) as u8;
		for _ in 0..4 {
			let id = c.rng.motor();
			let (op, via) = super::c08::unicast(&mut c.rng, i % super::c08::FORMS, id);
			let Wait::One { count, .. } = op.wait() else { return Ok(()) };
			for with_data in [true, false] {
				let n = count.unwrap_or(3);
				let data = if with_data { c.rng.content(n) } else { vec![] };
				let pkt = Pkt::status(id, err, &data);
				let port = SimPort::default();
				port.core().log = false;
				port.reply_with(vec![pkt.frame()]);
				let mut cl = client(&port, 128, 128);
				let out = must(run_op(&mut cl, &op, Drive { via, take: 1 }), || op_text(&op))?;
				if err & 0x7F != 0 {
					check!(
						out.start == Err(E::Motor(err)) && out.items.is_empty(),
						"{} answered by {pkt:?} gave {out:?} instead of motor error {err:#04X}",
						op_text(&op)
					);
					c.count("motor_errors", 1);
				} else if data.len() == n || count.is_none() {
					match out.items.first() {
						Some(Ok(r)) if r.alert == (err == 0x80) && r.id == id && r.data == data => (),
						_ => fail!("{} answered by {pkt:?} gave {out:?}", op_text(&op)),
					}
					c.count(if err == 0x80 { "alerts" } else { "no_alerts" }, 1);
				}
				c.eval(1);
				c.distinct(hash_bytes(u64::from(err), &[op.name().as_bytes(), &pkt.frame()].concat()));
			}
		}
		Ok(())
	});
	// Every error byte in each slot of multi reply operations.
	r.exhaustive("multi", 256 * 5 * 3, |c, i| {
		let err = (i / 15) as u8;
		let via = [Via::Iter, Via::Next, Via::Borrow][(i % 3) as usize];
		let n = 3;
		let ids = crate::ops::distinct_ids(&mut c.rng, n);
		let op = match i / 3 % 5 {
			0 => Op::SyncRead {
				ids: ids.clone(),
				addr: 10,
				ty: Ty::U16,
			},
			1 => Op::SyncReadBytes {
				ids: ids.clone(),
				addr: 10,
				count: 4,
			},
			2 => Op::BulkRead {
				reads: ids.iter().map(|id| (*id, c.rng.addr(), 4)).collect(),
			},
			3 => Op::BulkRead {
				reads: ids.iter().map(|id| (*id, c.rng.addr(), c.rng.usize(9) as u16)).collect(),
			},
			_ => Op::Scan,
		};
		for slot in 0..n {
			for with_data in [true, false] {
				let mut replies = match op {
					Op::Scan => ids.iter().map(|id| Pkt::status(*id, 0, &[1, 2, 3])).collect(),
					_ => good_replies(&mut c.rng, &op),
				};
				let motor_error = err & 0x7F != 0;
				replies[slot].params[0] = err;
				if !with_data {
					if !motor_error {
						continue;
					}
					replies[slot].params.truncate(1);
				}
				let port = SimPort::default();
				port.core().log = false;
				port.reply_with(replies.iter().map(|p| p.frame()).collect());
				let mut cl = client(&port, 128, 128);
				let mut expect = good_outcome(&op, &replies);
				if motor_error {
					expect.items[slot] = Err(E::Motor(err));
				}
				let out = must(
					run_op(
						&mut cl,
						&op,
						Drive {
							via,
							take: usize::MAX,
						},
					),
					|| op_text(&op),
				)?;
				check!(
					out == expect,
					"{} ({via:?}) answered by {replies:?} gave {out:?} instead of {expect:?}",
					op_text(&op)
				);
				c.eval(1);
				c.count(if motor_error { "motor_errors" } else { "alerts" }, 1);
				c.distinct(hash_bytes(
					u64::from(err) + 1000 * slot as u64,
					&replies.iter().flat_map(|p| p.frame()).collect::<Vec<u8>>(),
				));
			}
		}
		Ok(())
	});
	// Raw status packets and the accessors.
	r.exhaustive("raw", 256, |c, i| {
		let err = i as u8;
		for id in [0u8, 1, 100, 252, 253, 254, 255] {
			let k = c.rng.usize(20);
			let data = c.rng.content(k);
			let pkt = Pkt::status(id, err, &data);
			for way in 0..2 {
				let port = SimPort::default();
				port.push(0, pkt.frame());
				let mut cl = client(&port, 128, 128);
				let got = guard(|| {
					let r = if way == 0 {
						cl.read_status_response(k as u16)
					} else {
						cl.read_status_response_timeout(std::time::Duration::from_millis(1))
					};
					match r {
						Ok(s) => Ok((s.packet_id(), s.error(), s.error_number(), s.alert(), s.parameters().to_vec())),
						Err(dynamixel2::ReadError::MotorError(e)) => Err(Ok((e.raw, e.error_number(), e.alert()))),
						Err(e) => Err(Err(format!("{e:?}"))),
					}
				})
				.map_err(|p| format!("receiving {pkt:?} {p}"))?;
				let alert = err & 0x80 != 0;
				if err & 0x7F == 0 {
					check!(
						got == Ok((id, err, 0, alert, data.clone())),
						"status packet {pkt:?} was received as {got:?}"
					);
				} else {
					check!(
						got == Err(Ok((err, err & 0x7F, alert))),
						"status packet {pkt:?} was received as {got:?}"
					);
				}
				c.eval(1);
				c.distinct(hash_bytes(way, &pkt.frame()));
			}
		}
		Ok(())
	});
	// Random histories: an error or alert of one operation does not stick to the next.
	r.section("histories", 20_000, |c, _| history(c, 4));
	r.section("long_lives", 8, |c, i| history(c, if i < 2 { 66_500 } else { 3_000 }));
}

fn history(c: &mut Case, steps: u32) -> Result<(), String> {
	let port = SimPort::default();
	port.core().log = false;
	let mut cl = client(&port, 700, 700);
	for step in 0..steps {
		port.set_budget(1_000_000);
		let k = *c.rng.pick(&[0u64, 1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 18, 19, 22, 24]);
		let op = random_op(&mut c.rng, k, 100);
		let mut replies = good_replies(&mut c.rng, &op);
		let mut expect = good_outcome(&op, &replies);
		for (k, p) in replies.iter_mut().enumerate() {
			if c.rng.chance(1, 2) {
				p.params[0] = c.rng.u8();
				let err = p.error();
				let result = if err & 0x7F != 0 {
					Err(E::Motor(err))
				} else {
					let mut good = expect.items[k].clone();
					if let Ok(g) = &mut good {
						g.alert = err & 0x80 != 0;
					}
					good
				};
				match (op.wait(), result) {
					(Wait::One { .. }, Err(e)) => {
						expect.start = Err(e);
						expect.items.clear();
					},
					(_, result) => expect.items[k] = result,
				}
			}
		}
		port.reply_with(replies.iter().map(|p| p.frame()).collect());
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let out = must(run_op(&mut cl, &op, Drive { via, ..FULL }), || op_text(&op))?;
		check!(
			out == expect,
			"{} (operation {step} on this client) answered by {replies:?} gave {out:?} instead of {expect:?}",
			op_text(&op)
		);
		c.eval(1);
		c.distinct(hash_bytes(3, &replies.iter().flat_map(|p| p.frame()).collect::<Vec<u8>>()));
	}
	Ok(())
}
