//! C10: sync and bulk reads give one correctly attributed result per motor.

use crate::common::*;
use crate::ctx::{Case, Run};
use crate::ops::{distinct_ids, Drive, Op, Remaining, Reply, Ty, Via, E, REMAINING};
use crate::port::{Ev, SimPort};
use crate::proto::Pkt;
use crate::rng::{hash_bytes, mix};
use crate::traffic::*;
use crate::{check, fail};

pub const RULE: &str = "sync and bulk reads (typed, owned bytes, borrowed; 0 to 253 motors) run on a bus in virtual time where each motor's reply is correct, missing, foreign, short, long, erroneous, corrupted, late, early or preceded by noise, and are consumed completely, past the end, or dropped at any point, with all ways to ask for a result; an independent model of the waits predicts each slot, and on drop no time or packet that belongs to an outstanding slot may be left; distinct by (operation, traffic, drop point), non-trivial if the operation has at least one slot";

const BAUDS: [u32; 5] = [9_600, 57_600, 115_200, 1_000_000, 4_000_000];

fn random_multi(c: &mut Case, max_motors: usize) -> Op {
	let n = match c.rng.below(12) {
		0 => 0,
		1 => 1,
		2 => c.rng.usize(max_motors + 1),
		_ => c.rng.range(1, 7),
	}
	.min(max_motors);
	let ids = if c.rng.chance(1, 8) && n >= 2 {
		// Sync reads may repeat a motor: each occurrence has its own slot.
		let mut ids = distinct_ids(&mut c.rng, n);
		ids[n - 1] = ids[0];
		ids
	} else {
		distinct_ids(&mut c.rng, n)
	};
	let unique = {
		let mut s = ids.clone();
		s.sort_unstable();
		s.dedup();
		s.len() == ids.len()
	};
	let addr = c.rng.addr();
	match c.rng.below(if unique { 4 } else { 2 }) {
		0 => Op::SyncRead {
			ids,
			addr,
			ty: *c.rng.pick(Ty::ALL),
		},
		1 => Op::SyncReadBytes {
			ids,
			addr,
			count: *c.rng.pick(&[0, 1, 2, 4, 7, 12, 30, 4, 2, 9, 255, 256, 257, 300, 700]),
		},
		2 => {
			let count = *c.rng.pick(&[0, 1, 2, 4, 7]);
			Op::BulkRead {
				reads: ids.iter().map(|id| (*id, c.rng.addr(), count)).collect(),
			}
		},
		_ => Op::BulkRead {
			reads: ids
				.iter()
				.map(|id| {
					let count = if c.rng.chance(1, 20) { c.rng.range(200, 700) } else { c.rng.usize(12) };
					(*id, c.rng.addr(), count as u16)
				})
				.collect(),
		},
	}
}

fn slots(op: &Op) -> Vec<(u8, usize)> {
	match op.wait() {
		crate::ops::Wait::Each(v) => v,
		_ => vec![],
	}
}

/// What the traffic item means for the slot of (id, count).
fn judge_slot(item: Option<&It>, id: u8, count: usize, got: &Result<Reply, E>) -> Result<(), String> {
	match item {
		None => match got {
			Err(e) if e.is_timeout() => Ok(()),
			_ => Err(format!("slot of motor {id} without a reply in time gave {got:?}")),
		},
		Some(It::Pkt(p)) => judge_reply(p, id, Some(count), got),
		Some(It::Bad(f)) => {
			if got.as_ref().err() == Some(&It::checksum_error(f)) {
				Ok(())
			} else {
				Err(format!("slot of motor {id} with a corrupted reply gave {got:?}"))
			}
		},
		Some(It::Noise(_)) => unreachable!(),
	}
}

/// Run `op` on a bus with this traffic, consuming `take` items, and compare with the model.
fn session(c: &mut Case, op: &Op, via: Via, traffic: &Traffic, take: usize, baud: u32, rbuf: usize) -> Result<(), String> {
	let want = slots(op);
	let port = SimPort::new(baud);
	let t = traffic.clone();
	let first = std::cell::Cell::new(true);
	port.respond(move |core, _| {
		if first.replace(false) {
			t.schedule(core)
		}
	});
	let mut cl = client(&port, rbuf, 2048);
	let start = port.core().now;
	let mut model = Model::new(start, traffic);
	let total = traffic.chunks.iter().map(|c| c.1.len() as u64).sum::<u64>();
	port.set_budget(20_000 + 40 * want.len() as u64 + 2 * total);
	REMAINING.with(|r| *r.borrow_mut() = Some(vec![]));
	let out = run_op(&mut cl, op, Drive { via, take });
	let recorded = REMAINING.with(|r| r.borrow_mut().take()).unwrap_or_default();
	let describe = || {
		format!(
			"{} ({via:?}, taking {} of {}) at {baud} baud with arrivals {:?}",
			op_text(op),
			take.min(want.len() + 1),
			want.len(),
			traffic.chunks
		)
	};
	let out = must(out, describe)?;
	check!(out.start.is_ok(), "{}: failed to start: {out:?}", describe());
	// Each slot in order.
	let complete = take > want.len();
	let expect_items = take.min(want.len());
	check!(
		out.items.len() == expect_items && out.ended == complete,
		"{}: gave {} results (ended: {}) instead of {expect_items} (ended: {complete}): {:?}",
		describe(),
		out.items.len(),
		out.ended,
		out.items
	);
	for (k, got) in out.items.iter().enumerate() {
		let (id, count) = want[k];
		let item = model.wait(reply_timeout(count, baud));
		judge_slot(item.as_ref(), id, count, got).map_err(|e| format!("{}: result {k}: {e}", describe()))?;
		match got {
			Ok(_) => c.count("slot.ok", 1),
			Err(e) => c.count(&format!("slot.{}", e.name()), 1),
		}
	}
	// remaining() before each call, and at the end.
	for (k, r) in recorded.iter().enumerate() {
		let left = want.len() - k.min(expect_items);
		let Remaining { remaining, hint } = r;
		let ok = *remaining == left && hint.is_none_or(|(lo, hi)| lo <= left && hi == Some(left));
		check!(ok, "{}: after {} results {r:?} was reported instead of {left} remaining", describe(), k.min(expect_items));
	}
	check!(
		recorded.len() == expect_items + usize::from(complete) + 1,
		"{}: {} observations of remaining()",
		describe(),
		recorded.len()
	);
	// After the drop: everything the outstanding slots wait for is off the bus.
	for (_, count) in &want[expect_items..] {
		model.wait(reply_timeout(*count, baud));
		c.count("slot.drained", 1);
	}
	if want.len() > expect_items {
		let now = port.core().now;
		check!(
			now >= model.now,
			"{}: dropped at {} ns after the instruction, but replies may be due until {} ns",
			describe(),
			now - start,
			model.now - start
		);
	}
	let writes = port.core().events.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
	check!(writes == 1, "{}: {writes} packets transmitted", describe());
	// The next operation is transmitted only now; then a new reply is not mixed up with the old ones.
	c.eval(1);
	if !want.is_empty() {
		let mut h = hash_bytes(take.min(want.len() + 1) as u64, &op.packet().frame());
		for (t, b) in &traffic.chunks {
			h = mix(h ^ hash_bytes(*t, b));
		}
		c.distinct(h);
	}
	Ok(())
}

/// Four bytes that can be given by value and borrowed from the buffer.
#[repr(transparent)]
#[derive(Debug, Clone, Copy, PartialEq)]
struct Four([u8; 4]);

impl From<&[u8]> for Four {
	fn from(data: &[u8]) -> Self {
		Four(data.try_into().expect("four bytes"))
	}
}

impl std::borrow::Borrow<Four> for [u8] {
	fn borrow(&self) -> &Four {
		assert_eq!(self.len(), 4);
		// SAFETY: four bytes, and `Four` is transparent for them.
		unsafe { &*self.as_ptr().cast() }
	}
}

type Gave = Result<Reply, E>;

/// One call on a running sync or bulk read.
#[derive(Debug, Clone, Copy)]
enum Step {
	Next,
	ReadNext,
	Borrow,
	Nth(usize),
	Take(usize),
	Count,
	Last,
	Fold,
	/// Ask for what remains, change nothing.
	Look,
}

/// What a call gave: the results that can be seen, or only their number.
#[derive(Debug)]
enum Seen {
	All(Vec<Gave>),
	/// The last of a number of results (if there are as many).
	Last(Option<Gave>),
	Number(usize),
}

fn step(c: &mut Case, borrow: bool) -> Step {
	match c.rng.below(if borrow { 14 } else { 12 }) {
		0..=3 => Step::Next,
		4..=6 => Step::ReadNext,
		7 => Step::Nth(c.rng.usize(3)),
		8 => Step::Take(c.rng.usize(4)),
		9 => match c.rng.below(12) {
			0 => Step::Count,
			1 => Step::Last,
			2 => Step::Fold,
			_ => Step::Look,
		},
		10 => Step::Look,
		11 => Step::Next,
		_ => Step::Borrow,
	}
}

/// Call `$it` as told, and give what it gave with remaining() and size_hint() afterwards.
macro_rules! drive_step {
	($it:ident, $step:expr, $reply:ident, $borrow:expr) => {{
		let seen = match $step {
			Step::Next => Seen::All($it.next().into_iter().map($reply).collect()),
			Step::ReadNext => Seen::All($it.read_next().into_iter().map($reply).collect()),
			Step::Borrow => Seen::All($borrow),
			Step::Nth(n) => Seen::Last($it.nth(n).map($reply)),
			Step::Take(n) => Seen::All($it.by_ref().take(n).map($reply).collect()),
			Step::Count => Seen::Number($it.by_ref().count()),
			Step::Last => Seen::Last($it.by_ref().last().map($reply)),
			Step::Fold => Seen::All($it.by_ref().fold(vec![], |mut v, r| {
				v.push($reply(r));
				v
			})),
			Step::Look => Seen::All(vec![]),
		};
		let left = ($it.remaining(), $it.size_hint());
		(seen, left)
	}};
}

/// All ways to ask for the next result, mixed, and asking on after the end.
fn mixed(c: &mut Case, i: u64) -> Result<(), String> {
	let n = c.rng.usize(9);
	let ids = distinct_ids(&mut c.rng, n);
	let addr = c.rng.addr();
	let typed = i % 3 == 0;
	let bulk = i % 3 == 2;
	let op = if typed {
		Op::SyncRead { ids: ids.clone(), addr, ty: Ty::U32 }
	} else if bulk {
		Op::BulkRead { reads: ids.iter().map(|id| (*id, addr ^ u16::from(*id), 4)).collect() }
	} else {
		Op::SyncReadBytes { ids: ids.clone(), addr, count: 4 }
	};
	let baud = *c.rng.pick(&BAUDS);
	let mut items = vec![];
	let faults = c.rng.below(4);
	for &id in &ids {
		let kind = if c.rng.below(4) < faults { c.rng.below(10) } else { 0 };
		let other = if c.rng.chance(1, 2) { ids[c.rng.usize(n)] } else { c.rng.id() };
		let gap = c.rng.below(MS);
		items.extend(scripted(c, id, 4, other, kind, gap));
	}
	// Something more on the bus, for which nobody asked.
	if c.rng.chance(1, 4) {
		let data = c.rng.content(4);
		items.push((c.rng.below(MS), It::Pkt(Pkt::status(c.rng.id(), 0, &data))));
	}
	let max_piece = *c.rng.pick(&[1, 3, 1000]);
	let traffic = Traffic::build(&mut c.rng, &items, max_piece, 1000);
	if !traffic.unambiguous() {
		return Ok(());
	}
	// Up to and (mostly) past the end.
	let past = c.rng.usize(5);
	let mut steps = vec![];
	let stop = if c.rng.chance(1, 6) { c.rng.usize(n + 2) } else { n };
	let mut asked = 0;
	while asked < stop {
		let s = step(c, !typed);
		asked += match s {
			Step::Look => 0,
			Step::Nth(k) => k + 1,
			Step::Take(k) => k,
			Step::Count | Step::Last | Step::Fold => n,
			_ => 1,
		};
		steps.push(s);
	}
	for _ in 0..past {
		steps.push(step(c, !typed));
	}
	let port = SimPort::new(baud);
	let t = traffic.clone();
	let first = std::cell::Cell::new(true);
	port.respond(move |core, _| {
		if first.replace(false) {
			t.schedule(core)
		}
	});
	let mut cl = client(&port, 600, 600);
	let mut model = Model::new(port.core().now, &traffic);
	let mut done = 0;
	let mut checked = Ok(());
	let describe = |k: usize| {
		format!(
			"{} at {baud} baud with arrivals {:?}, driven with {:?}",
			op_text(&op),
			traffic.chunks,
			&steps[..k.min(steps.len())]
		)
	};
	let mut one = |k: usize, seen: Seen, left: (usize, (usize, Option<usize>)), events: usize| -> Result<(), String> {
		let (wanted, visible) = match steps[k] {
			Step::Look => (0, true),
			Step::Nth(x) => (x + 1, false),
			Step::Take(x) => (x, true),
			Step::Count | Step::Last => (usize::MAX, false),
			Step::Fold => (usize::MAX, true),
			_ => (1, true),
		};
		let number = wanted.min(n - done);
		if number == 0 {
			check!(events == 0, "{}: the port was used in the last call without a result left", describe(k + 1));
			if steps.len() > k && !matches!(steps[k], Step::Look | Step::Take(0)) {
				c.count("mixed.past_the_end", 1);
			}
		}
		let got = match seen {
			Seen::Number(x) => {
				check!(x == number, "{}: the last call counted {x} results, not {number}", describe(k + 1));
				vec![None; number]
			},
			Seen::All(v) => {
				check!(v.len() == number, "{}: the last call gave {v:?}, not {number} results", describe(k + 1));
				v.into_iter().map(Some).collect()
			},
			Seen::Last(last) => {
				let due = if matches!(steps[k], Step::Last) { number > 0 } else { number == wanted };
				check!(last.is_some() == due, "{}: the last call gave {last:?} with {} left", describe(k + 1), n - done);
				let mut v = vec![None; number];
				if due {
					v[number - 1] = last;
				}
				v
			},
		};
		for got in got {
			let item = model.wait(reply_timeout(4, baud));
			if let Some(got) = &got {
				judge_slot(item.as_ref(), ids[done], 4, got).map_err(|e| format!("{}: result {done}: {e}", describe(k + 1)))?;
				c.count(if got.is_ok() { "mixed.ok" } else { "mixed.err" }, 1);
			} else {
				check!(!visible, "no result");
				c.count("mixed.skipped", 1);
			}
			done += 1;
		}
		let rest = n - done;
		check!(left.0 == rest, "{}: remaining() is {} instead of {rest}", describe(k + 1), left.0);
		let (lo, hi) = left.1;
		check!(lo <= rest && hi.is_none_or(|hi| hi >= rest), "{}: size_hint() is {:?} with {rest} left", describe(k + 1), left.1);
		Ok(())
	};
	fn by_value(r: Result<dynamixel2::Response<Four>, dynamixel2::ReadError<crate::port::SimError>>) -> Gave {
		r.map(|r| Reply { id: r.motor_id, alert: r.alert, data: r.data.0.to_vec() }).map_err(E::from)
	}
	fn by_ref(r: Result<dynamixel2::Response<&Four>, dynamixel2::ReadError<crate::port::SimError>>) -> Gave {
		r.map(|r| Reply { id: r.motor_id, alert: r.alert, data: r.data.0.to_vec() }).map_err(E::from)
	}
	fn number(r: Result<dynamixel2::Response<u32>, dynamixel2::ReadError<crate::port::SimError>>) -> Gave {
		r.map(|r| Reply { id: r.motor_id, alert: r.alert, data: r.data.to_le_bytes().to_vec() }).map_err(E::from)
	}
	macro_rules! all {
		($start:expr, $reply:ident, |$it:ident| $borrow:expr) => {{
			match $start {
				Err(e) => checked = Err(format!("failed to start: {e:?}")),
				Ok(mut $it) => {
					for k in 0..steps.len() {
						let before = port.core().events.len();
						let (seen, left) = drive_step!($it, steps[k], $reply, $borrow);
						let events = port.core().events.len() - before;
						checked = one(k, seen, left, events);
						if checked.is_err() {
							break;
						}
					}
				},
			}
		}};
	}
	let reads: Vec<_> = ids
		.iter()
		.map(|id| dynamixel2::instructions::BulkReadData { motor_id: *id, address: addr ^ u16::from(*id), count: 4 })
		.collect();
	let run = crate::ctx::guard(|| {
		if typed {
			all!(cl.sync_read::<u32>(&ids, addr), number, |it| vec![])
		} else if bulk {
			all!(cl.bulk_read_bytes::<Four>(&reads), by_value, |it| it.read_next_borrow().into_iter().map(by_ref).collect())
		} else {
			all!(cl.sync_read_bytes::<Four>(&ids, addr, 4), by_value, |it| it.read_next_borrow().into_iter().map(by_ref).collect())
		}
	});
	must(run, || describe(steps.len()))?;
	checked?;
	// After the drop, nothing that belongs to an outstanding slot may come any more.
	for _ in done..n {
		model.wait(reply_timeout(4, baud));
	}
	let now = port.core().now;
	check!(done == n || now >= model.now, "{}: dropped while replies may be due", describe(steps.len()));
	let writes = port.core().events.iter().filter(|e| matches!(e, Ev::Write { .. })).count();
	check!(writes == 1, "{}: {writes} packets transmitted", describe(steps.len()));
	let mut h = i % 3;
	for (t, b) in &traffic.chunks {
		h = mix(h ^ hash_bytes(*t, b));
	}
	c.distinct(mix(h ^ hash_bytes(n as u64, format!("{steps:?}").as_bytes())));
	Ok(())
}

/// What happens to the reply of one slot.
fn scripted(c: &mut Case, id: u8, count: usize, other: u8, kind: u64, gap: u64) -> Vec<(u64, It)> {
	let alert = if c.rng.chance(1, 4) { 0x80 } else { 0 };
	let data = c.rng.content(count);
	let good = Pkt::status(id, alert, &data);
	match kind {
		0 => vec![(gap, It::Pkt(good))],
		1 => vec![],
		2 => vec![(gap, It::Pkt(Pkt::status(other, alert, &data)))],
		3 => {
			// Sometimes equal only in the low byte.
			let n = if count >= 256 && c.rng.chance(1, 2) { count - 256 } else { c.rng.usize(count.max(1)) };
			vec![(gap, It::Pkt(Pkt::status(id, alert, &data[..n.min(data.len())])))]
		},
		4 => {
			let mut d = data.clone();
			let k = if c.rng.chance(1, 10) { 256 } else { c.rng.range(1, 6) };
			d.extend(c.rng.content(k));
			vec![(gap, It::Pkt(Pkt::status(id, alert, &d)))]
		},
		5 => {
			let d = if c.rng.chance(1, 2) { data.as_slice() } else { &[] };
			vec![(gap, It::Pkt(Pkt::status(id, alert | c.rng.range(1, 127) as u8, d)))]
		},
		6 => {
			let f = good.frame();
			vec![(gap, It::Bad(damage(&mut c.rng, &f)))]
		},
		7 => {
			let it = It::Pkt(good);
			let n = noise_item(&mut c.rng, &it);
			vec![(gap, n), (gap / 2, it)]
		},
		8 => {
			let instruction = crate::ops::raw_instruction(&mut c.rng);
			vec![(gap, It::Pkt(Pkt::new(id, instruction, data)))]
		},
		// Twice.
		_ => vec![(gap, It::Pkt(good.clone())), (gap, It::Pkt(good))],
	}
}

fn clean_drop(c: &mut Case, baud: u32, operations: usize) -> Result<(), String> {
	// Reads dropped early, with all motors replying in time: the next operations on the same client are not disturbed.
	let port = SimPort::new(baud);
	let mut cl = client(&port, 2048, 1024);
	let mut history = vec![];
	for _ in 0..operations {
		port.core().events.clear();
		port.set_budget(1_000_000);
		if history.len() == 8 {
			history.remove(0);
		}
		let op = random_multi(c, if operations > 10_000 { 3 } else { 8 });
		let want = slots(&op);
		let replies = good_replies(&mut c.rng, &op);
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let take = c.rng.usize(want.len() + 2);
		// Every reply in time for its own slot.
		let gaps: Vec<u64> = want.iter().map(|(_, n)| c.rng.below(reply_timeout(*n, baud))).collect();
		let frames: Vec<(u64, Vec<u8>)> = gaps.into_iter().zip(replies.iter().map(|p| p.frame())).collect();
		port.respond(move |core, _| {
			let mut t = 0;
			for (gap, f) in &frames {
				t += gap;
				core.push(t, f.clone());
			}
		});
		let out = must(run_op(&mut cl, &op, Drive { via, take }), || op_text(&op))?;
		let mut expect = good_outcome(&op, &replies);
		history.push(format!("{} taking {take}", op_text(&op)));
		if take <= want.len() {
			expect.items.truncate(take);
			expect.ended = false;
		}
		check!(
			out == expect,
			"after {history:?} with all replies in time: {out:?} instead of {expect:?}"
		);
		// Everything that was due has been received before anything else can be transmitted.
		let pending = port.core().pending();
		check!(
			pending == 0,
			"after {history:?} with all replies in time: dropped while {pending} bytes of requested replies were still due"
		);
		c.eval(1);
		c.count("clean_drops", 1);
	}
	Ok(())
}

pub fn run(r: &Run) {
	// Every fault in every slot, and every drop point.
	r.exhaustive("one_fault", 10 * 4 * 6 * 4 * 3, |c, i| {
		let kind = i % 10;
		let form = i / 10 % 4;
		let take = (i / 40 % 6) as usize;
		let slot = (i / 240 % 4) as usize;
		let via = [Via::Iter, Via::Next, Via::Borrow][(i / 960 % 3) as usize];
		let ids = distinct_ids(&mut c.rng, 4);
		let op = match form {
			0 => Op::SyncRead {
				ids: ids.clone(),
				addr: 132,
				ty: Ty::U32,
			},
			1 => Op::SyncReadBytes {
				ids: ids.clone(),
				addr: 132,
				count: 2,
			},
			2 => Op::BulkRead {
				reads: ids.iter().map(|id| (*id, c.rng.addr(), 4)).collect(),
			},
			_ => Op::BulkRead {
				reads: ids.iter().enumerate().map(|(k, id)| (*id, c.rng.addr(), 1 + k as u16)).collect(),
			},
		};
		let gap = *c.rng.pick(&[0, MS / 10, MS]);
		let mut items = vec![];
		for (k, (id, count)) in slots(&op).into_iter().enumerate() {
			let other = ids[(k + 1) % 4];
			items.extend(scripted(c, id, count, other, if k == slot { kind } else { 0 }, gap));
		}
		let max_piece = *c.rng.pick(&[1, 3, 1000]);
		let traffic = Traffic::build(&mut c.rng, &items, max_piece, 100);
		if !traffic.unambiguous() {
			return Ok(());
		}
		let take = if take == 5 { usize::MAX } else { take };
		session(c, &op, via, &traffic, take, 57_600, 500)
	});
	r.section("random", 40_000, |c, _| {
		let max = if c.rng.chance(1, 40) { 253 } else { 10 };
		let op = random_multi(c, max);
		let baud = *c.rng.pick(&BAUDS);
		let want = slots(&op);
		let mut items = vec![];
		let faults = c.rng.below(5);
		for &(id, count) in &want {
			let kind = if c.rng.below(5) < faults { c.rng.below(10) } else { 0 };
			let t = reply_timeout(count, baud);
			// Around the deadline: in time, exactly in time, just too late, far too late.
			let gap = match c.rng.below(10) {
				0 => t,
				1 => t + 1,
				2 => t - 1,
				3 => t * 2 + c.rng.below(t),
				4 => c.rng.below(t * 2),
				5 | 6 => c.rng.below(t),
				_ => c.rng.below(MS),
			};
			let other = if c.rng.chance(1, 2) && !want.is_empty() {
				want[c.rng.usize(want.len())].0
			} else {
				c.rng.id()
			};
			items.extend(scripted(c, id, count, other, kind, gap));
		}
		// Replies in another order.
		if c.rng.chance(1, 8) && items.len() > 1 {
			let k = c.rng.usize(items.len() - 1);
			items.swap(k, k + 1);
		}
		let max_piece = *c.rng.pick(&[1, 3, 10, 1000]);
		let inner = c.rng.below(MS / 4);
		let traffic = Traffic::build(&mut c.rng, &items, max_piece, inner);
		if !traffic.unambiguous() {
			return Ok(());
		}
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let take = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.usize(want.len() + 2) };
		c.sample(|| format!("{} ({via:?}) with {items:?}", op_text(&op)));
		let rbuf = want.iter().map(|w| w.1).max().unwrap_or(0) * 2 + if c.rng.chance(1, 2) { 500 } else { 400 };
		session(c, &op, via, &traffic, take, baud, rbuf)
	});
	r.section("drop_then_next", 20_000, |c, _| {
		let baud = *c.rng.pick(&BAUDS);
		clean_drop(c, baud, 4)
	});
	r.section("long_lives", 8, |c, i| {
		let baud = *c.rng.pick(&BAUDS);
		clean_drop(c, baud, if i < 2 { 66_500 } else { 3_000 })
	});
	r.section("mixed", 20_000, mixed);
	// All motors of a full bus.
	r.section("full_bus", 96, |c, i| {
		let mut ids: Vec<u8> = (0..=252).collect();
		if c.rng.chance(1, 2) {
			ids = distinct_ids(&mut c.rng, 253);
		}
		let via = [Via::Next, Via::Borrow, Via::Iter][(i / 4 % 3) as usize];
		let op = match i % 4 {
			0 => Op::SyncRead {
				ids,
				addr: 1,
				ty: Ty::U32,
			},
			1 => Op::SyncReadBytes {
				ids,
				addr: 1,
				count: c.rng.range(1, 40) as u16,
			},
			2 => Op::BulkRead {
				reads: ids.iter().map(|id| (*id, u16::from(*id), u16::from(id % 5))).collect(),
			},
			// As much as fits in the read buffer, from each motor something else.
			_ => Op::BulkRead {
				reads: ids.iter().map(|id| (*id, c.rng.addr(), c.rng.usize(60) as u16)).collect(),
			},
		};
		let missing = c.rng.usize(253);
		let mut items = vec![];
		for (k, (id, count)) in slots(&op).into_iter().enumerate() {
			let kind = if k == missing { c.rng.below(10) } else { 0 };
			items.extend(scripted(c, id, count, id.wrapping_add(1), kind, MS / 2));
		}
		let traffic = Traffic::build(&mut c.rng, &items, 1000, 0);
		if !traffic.unambiguous() {
			return Ok(());
		}
		let take = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.usize(254) };
		c.count(&format!("full_bus.{via:?}"), 1);
		session(c, &op, via, &traffic, take, 57_600, 500)
	});
	// Persistent port failure: every slot reports it once, and dropping is bounded.
	r.section("port_failure", 4000, |c, _| {
		let op = random_multi(c, 12);
		let want = slots(&op);
		let port = SimPort::new(57_600);
		let good = c.rng.usize(want.len() + 1);
		let replies = good_replies(&mut c.rng, &op);
		port.reply_with(replies[..good].iter().map(|p| p.frame()).collect());
		port.core().one_chunk = true;
		// All reads fail after the good replies and possibly part of another.
		let mut bytes: u64 = replies[..good].iter().map(|p| p.frame().len() as u64).sum();
		if good < want.len() && c.rng.chance(1, 2) {
			let frame = replies[good].frame();
			let part = c.rng.usize(frame.len());
			bytes += part as u64;
			let mut frames: Vec<_> = replies[..good].iter().map(|p| p.frame()).collect();
			frames.push(frame[..part].to_vec());
			port.reply_with(frames);
		}
		port.core().fault = crate::port::Fault::AfterBytes(bytes, crate::port::Kind::Other, true);
		port.set_budget(2 + bytes + want.len() as u64 + 4);
		let via = *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]);
		let take = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.usize(want.len() + 2) };
		let mut cl = client(&port, 2048, 2048);
		let out = must(run_op(&mut cl, &op, Drive { via, take }), || {
			format!("{} with a port that fails after {good} replies", op_text(&op))
		})?;
		for (k, item) in out.items.iter().enumerate() {
			match item {
				Ok(_) if k < good => (),
				Err(E::Io(e)) if k >= good && e.kind == crate::port::Kind::Other => (),
				_ => fail!("{} with a port that fails after {good} replies: result {k} is {item:?}", op_text(&op)),
			}
		}
		check!(
			out.items.len() == take.min(want.len()),
			"{} with a port that fails after {good} replies: {} results",
			op_text(&op),
			out.items.len()
		);
		c.count("port_failures", 1);
		c.distinct(hash_bytes(good as u64, &op.packet().frame()));
		Ok(())
	});
}
