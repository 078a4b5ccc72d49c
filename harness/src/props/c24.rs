//! C24: client and device implement the register model over any history.
//!
//! A simulated bus of real library devices, each running a small register application, is driven by a real client;
//! every result is compared with an ideal register file that is updated from the operations alone.

use crate::common::*;
use crate::ctx::{hex, Case, Run};
use crate::ops::{dispatch, distinct_ids, encoder, raw_instruction, Drive, Op, Outcome, Reply, Ty, Val, Via, Wait, E, RESET_KINDS};
use crate::port::SimPort;
use crate::proto::{self, BROADCAST};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::rx::{dec, Dec};
use crate::traffic::{damage, reply_timeout};
use crate::{check, fail};
use dynamixel2::instructions::FactoryResetKind;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

pub const RULE: &str = "histories of client operations (all kinds, typed and raw, unicast, broadcast, sync and bulk, in and out of range, absent motors) on a bus of up to seven real devices with register tables, half of them with lost or damaged instructions and replies, noise and chunking; every result and all register tables after every operation are compared with an ideal register file; distinct by (operation, faults, register state)";

thread_local! {
	/// The first register address and the size of the register tables, for each history.
	static LAYOUT: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 160)) };
}

/// The first register address.
fn base() -> usize {
	LAYOUT.get().0
}

/// The number of registers.
fn size() -> usize {
	LAYOUT.get().1
}

/// Choose where the registers are: mostly a small table at 0, but also at the end of the address range, and long ones.
fn layout(rng: &mut Rng) {
	let size = if rng.chance(1, 6) { rng.range(300, 1200) } else { 160 };
	let base = match rng.below(4) {
		0 => rng.usize(0x1_0000 - size),
		1 if rng.chance(1, 2) => 0x1_0000 - size - rng.usize(2),
		_ => 0,
	};
	LAYOUT.set((base, size));
}

/// The index of the first of these registers, if all of them exist.
fn within(addr: u16, len: usize) -> Option<usize> {
	let a = usize::from(addr).checked_sub(base())?;
	(a + len <= size()).then_some(a)
}

/// This register raises the alert bit in every reply while it is not zero.
const ALERT: usize = 70;
/// Multi turn counter: cleared by the clear instruction.
const TURNS: std::ops::Range<usize> = 72..76;
/// Registers from here on are lost on reboot.
const VOLATILE: usize = 64;
const ERR_INSTRUCTION: u8 = 2;
const ERR_RANGE: u8 = 4;
const ERR_ACCESS: u8 = 7;
/// Raw instructions that return their parameters.
fn is_echo(instruction: u8) -> bool {
	instruction & 0x1F == 0x1A
}

fn defaults(id: u8) -> Vec<u8> {
	(0..size()).map(|i| if i == ALERT { 0 } else { (i as u8).wrapping_mul(7) ^ id }).collect()
}

// ---- The device application: works on what the library decoded ----------------------------------------------------

struct Motor {
	id: u8,
	dev: Dv,
	port: SimPort,
	owned: bool,
	regs: Vec<u8>,
	pending: Option<(u16, Vec<u8>)>,
	/// Instructions decoded for this motor.
	seen: u64,
}

/// A reply and its turn.
struct Sent {
	turn: usize,
	id: u8,
	bytes: Vec<u8>,
}

impl Motor {
	fn new(id: u8, owned: bool, rng: &mut Rng) -> Self {
		let port = SimPort::default();
		port.core().log = true;
		port.core().max_read = *rng.pick(&[1, 5, 64, usize::MAX]);
		Motor {
			id,
			dev: device(&port, 16_384, 16_384),
			port,
			owned,
			regs: defaults(id),
			pending: None,
			seen: 0,
		}
	}

	fn store(&mut self, addr: u16, data: &[u8]) -> Result<(), u8> {
		let a = within(addr, data.len()).ok_or(ERR_RANGE)?;
		self.regs[a..a + data.len()].copy_from_slice(data);
		Ok(())
	}

	fn load(&self, addr: u16, len: u16) -> Result<Vec<u8>, u8> {
		let a = within(addr, usize::from(len)).ok_or(ERR_ACCESS)?;
		Ok(self.regs[a..a + usize::from(len)].to_vec())
	}

	/// Receive what is waiting and act on it. Replies are transmitted through the device's port.
	fn work(&mut self, out: &mut Vec<Sent>, errors: &mut u64) -> Result<(), String> {
		loop {
			let r = crate::ctx::guard(|| {
				#[cfg(feature = "alloc")]
				if self.owned {
					return self.dev.read_owned(Duration::from_micros(1)).map(|i| dec(&i)).map_err(E::from);
				}
				self.dev.read(Duration::from_micros(1)).map(|i| dec(&i)).map_err(E::from)
			})
			.map_err(|e| format!("device {} {e}", self.id))?;
			let (id, d) = match r {
				Ok(x) => x,
				Err(e) if e.is_timeout() => return Ok(()),
				Err(_) => {
					*errors += 1;
					continue;
				},
			};
			self.seen += 1;
			let before = out.len();
			if let Some((turn, result)) = self.act(id, d) {
				self.port.take_events();
				let alert = if self.regs[ALERT] != 0 { 0x80 } else { 0 };
				let sent = crate::ctx::guard(|| match &result {
					Ok(data) if data.is_empty() && alert == 0 => self.dev.write_status_ok(self.id),
					Ok(data) => self.dev.write_status(self.id, alert, data.len(), encoder(data)),
					Err(code) => self.dev.write_status_error(self.id, code | alert),
				})
				.map_err(|e| format!("device {} sending {result:?} {e}", self.id))?;
				if let Err(e) = sent {
					fail!("device {} sending {result:?} failed: {e:?}", self.id);
				}
				let bytes = one_write(&self.port.take_events()).map_err(|e| format!("device {} sending {result:?}: {e}", self.id))?;
				out.push(Sent { turn, id: self.id, bytes });
			}
			check!(out.len() <= before + 1, "device {} sent too much", self.id);
		}
	}

	/// The result to send, and when it is this motor's turn.
	fn act(&mut self, id: u8, d: Dec) -> Option<(usize, Result<Vec<u8>, u8>)> {
		let broadcast = id == BROADCAST;
		let mine = id == self.id;
		if !mine && !broadcast {
			return None;
		}
		let reply = |r: Result<Vec<u8>, u8>| if broadcast { None } else { Some((0, r)) };
		let done = |r: Result<(), u8>| reply(r.map(|()| vec![]));
		match d {
			Dec::Ping => Some((usize::from(self.id), Ok(vec![self.id, self.id ^ 0xA5, 33]))),
			Dec::Read(addr, len) => reply(self.load(addr, len)),
			Dec::Write(addr, data) => {
				let r = self.store(addr, &data);
				done(r)
			},
			Dec::RegWrite(addr, data) => {
				if within(addr, data.len()).is_none() {
					return done(Err(ERR_RANGE));
				}
				self.pending = Some((addr, data));
				done(Ok(()))
			},
			Dec::Action => {
				if let Some((addr, data)) = self.pending.take() {
					let _ = self.store(addr, &data);
				}
				done(Ok(()))
			},
			Dec::ResetAll | Dec::ResetExceptId | Dec::ResetExceptIdBaud => {
				let kept = self.regs[..4].to_vec();
				self.regs = defaults(self.id);
				// Some of the first registers survive, depending on the kind.
				let n = match d {
					Dec::ResetAll => 0,
					Dec::ResetExceptId => 2,
					_ => 4,
				};
				self.regs[..n].copy_from_slice(&kept[..n]);
				done(Ok(()))
			},
			Dec::Reboot => {
				let fresh = defaults(self.id);
				self.regs[VOLATILE..].copy_from_slice(&fresh[VOLATILE..]);
				self.pending = None;
				done(Ok(()))
			},
			Dec::ClearTurns => {
				self.regs[TURNS].fill(0);
				done(Ok(()))
			},
			Dec::ClearErrors => {
				self.regs[ALERT] = 0;
				done(Ok(()))
			},
			Dec::SyncRead(addr, len, ids) => {
				let turn = ids.iter().position(|x| *x == self.id)?;
				Some((turn, self.load(addr, len)))
			},
			Dec::SyncWrite(addr, len, p) => {
				for entry in p.chunks(usize::from(len) + 1) {
					if entry[0] == self.id {
						let _ = self.store(addr, &entry[1..]);
					}
				}
				None
			},
			Dec::BulkRead(p) => {
				let turn = p.chunks(5).position(|x| x[0] == self.id)?;
				let e = &p[turn * 5..];
				let w = |i: usize| u16::from(e[i]) | u16::from(e[i + 1]) << 8;
				Some((turn, self.load(w(1), w(3))))
			},
			Dec::BulkWrite(p) => {
				let mut i = 0;
				while i + 5 <= p.len() {
					let w = |k: usize| u16::from(p[i + k]) | u16::from(p[i + k + 1]) << 8;
					let (addr, len) = (w(1), usize::from(w(3)));
					if p[i] == self.id && i + 5 + len <= p.len() {
						let _ = self.store(addr, &p[i + 5..i + 5 + len]);
					}
					i += 5 + len;
				}
				None
			},
			Dec::Unknown(instruction, p) if is_echo(instruction) => {
				let mut v = vec![instruction];
				v.extend(p);
				reply(Ok(v))
			},
			Dec::Unknown(..) | Dec::ClearReserved(_) | Dec::ResetUnknown(_) => reply(Err(ERR_INSTRUCTION)),
		}
	}
}

// ---- The bus --------------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Hears {
	Well,
	Damaged,
	Nothing,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Fate {
	Arrives,
	Damaged,
	Lost,
}

/// What goes wrong during one operation.
#[derive(Debug, Clone, Default)]
struct Faults {
	hears: BTreeMap<u8, Hears>,
	fate: BTreeMap<u8, Fate>,
	/// The replies of a multi read or scan come far enough apart that a missing one only costs its own slot.
	spaced: bool,
	/// When they come.
	slots: Vec<u64>,
	noise: bool,
	piece: usize,
}

impl Faults {
	fn hears(&self, id: u8) -> Hears {
		self.hears.get(&id).copied().unwrap_or(Hears::Well)
	}
	fn fate(&self, id: u8) -> Fate {
		self.fate.get(&id).copied().unwrap_or(Fate::Arrives)
	}
	fn any(&self) -> bool {
		!self.hears.is_empty() || !self.fate.is_empty()
	}
}

struct Bus {
	motors: Vec<Motor>,
	faults: Faults,
	rng: Rng,
	problem: Option<String>,
	replies: u64,
	device_errors: u64,
	foreign: u64,
}

/// Damage without creating another frame prefix.
fn damaged(rng: &mut Rng, frame: &[u8]) -> Vec<u8> {
	loop {
		let f = damage(rng, frame);
		if f.windows(4).filter(|w| *w == proto::PREFIX).count() == 1 && f != frame {
			return f;
		}
	}
}

impl Bus {
	fn transmit(&mut self, core: &mut crate::port::Core, frame: &[u8]) -> Result<(), String> {
		let mut sent = vec![];
		for m in &mut self.motors {
			m.port.set_budget(1_000_000);
			{
				let mut pc = m.port.core();
				pc.now = pc.now.max(core.now);
			}
			// (Noise is only harmless right before the frame it was made for.)
			if self.faults.noise && self.faults.hears(m.id) != Hears::Nothing && self.rng.chance(1, 2) {
				let n = self.rng.range(1, 8);
				m.port.push(0, noise(&mut self.rng, n, frame));
			}
			match self.faults.hears(m.id) {
				Hears::Well => m.port.push(0, frame.to_vec()),
				Hears::Damaged => m.port.push(0, damaged(&mut self.rng, frame)),
				Hears::Nothing => (),
			}
			m.work(&mut sent, &mut self.device_errors)?;
		}
		sent.sort_by_key(|s| s.turn);
		let mut at = 0;
		for s in sent {
			self.replies += 1;
			// All other devices hear the reply too.
			for m in &mut self.motors {
				if m.id != s.id {
					m.port.push(0, s.bytes.clone());
					self.foreign += 1;
				}
			}
			// The n-th reply comes in its turn, even if others before it are missing.
			if let Some(t) = self.faults.slots.get(s.turn) {
				at = *t;
			}
			let bytes = match self.faults.fate(s.id) {
				Fate::Arrives => s.bytes,
				Fate::Damaged => damaged(&mut self.rng, &s.bytes),
				Fate::Lost => continue,
			};
			if self.faults.noise && self.rng.chance(1, 2) {
				let n = self.rng.range(1, 9);
				let v = noise(&mut self.rng, n, &bytes);
				core.push(at, v);
			}
			let piece = self.faults.piece;
			for (i, p) in split(&mut self.rng, &bytes, piece).into_iter().enumerate() {
				core.push(at + 10_000 * i as u64, p);
			}
		}
		Ok(())
	}
}

// ---- The ideal register file: works on the operations alone -----------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
struct Ideal {
	regs: Vec<u8>,
	pending: Option<(u16, Vec<u8>)>,
}

/// What the motor returns, or its error.
type Answer = Result<Vec<u8>, u8>;

impl Ideal {
	fn read(&self, addr: u16, count: usize) -> Answer {
		match usize::from(addr).checked_sub(base()) {
			Some(a) if a + count <= size() => Ok((a..a + count).map(|i| self.regs[i]).collect()),
			_ => Err(ERR_ACCESS),
		}
	}
	fn write(&mut self, addr: u16, data: &[u8]) -> Answer {
		if usize::from(addr) < base() || usize::from(addr) + data.len() > base() + size() {
			return Err(ERR_RANGE);
		}
		let a = usize::from(addr) - base();
		for (i, b) in data.iter().enumerate() {
			self.regs[a + i] = *b;
		}
		Ok(vec![])
	}
	fn apply(&mut self, op: &Op, id: u8) -> Answer {
		match op {
			Op::Read { addr, ty, .. } => self.read(*addr, ty.size()),
			Op::ReadBytes { addr, count, .. } => self.read(*addr, usize::from(*count)),
			Op::Write { addr, val: data, .. } | Op::WriteBytes { addr, data, .. } => self.write(*addr, data),
			Op::RegWrite { addr, val: data, .. } | Op::RegWriteBytes { addr, data, .. } => {
				if within(*addr, data.len()).is_none() {
					return Err(ERR_RANGE);
				}
				self.pending = Some((*addr, data.clone()));
				Ok(vec![])
			},
			Op::Action { .. } | Op::BroadcastAction => {
				if let Some((addr, data)) = self.pending.take() {
					let _ = self.write(addr, &data);
				}
				Ok(vec![])
			},
			Op::Reboot { .. } | Op::BroadcastReboot => {
				let d = defaults(id);
				for i in VOLATILE..size() {
					self.regs[i] = d[i];
				}
				self.pending = None;
				Ok(vec![])
			},
			Op::FactoryReset { kind, .. } | Op::BroadcastFactoryReset { kind } => {
				let keep = match kind {
					FactoryResetKind::ResetAll => 0,
					FactoryResetKind::KeepId => 2,
					FactoryResetKind::KeepIdAndBaudRate => 4,
				};
				let d = defaults(id);
				for i in keep..size() {
					self.regs[i] = d[i];
				}
				Ok(vec![])
			},
			Op::ClearRev { .. } | Op::BroadcastClearRev => {
				for i in TURNS {
					self.regs[i] = 0;
				}
				Ok(vec![])
			},
			Op::ClearErr { .. } | Op::BroadcastClearErr => {
				self.regs[ALERT] = 0;
				Ok(vec![])
			},
			Op::Ping { .. } | Op::Scan => Ok(vec![id, id ^ 0xA5, 33]),
			Op::SyncRead { addr, ty, .. } => self.read(*addr, ty.size()),
			Op::SyncReadBytes { addr, count, .. } => self.read(*addr, usize::from(*count)),
			Op::SyncWrite { addr, vals, .. } => {
				for (_, v) in vals.iter().filter(|x| x.0 == id) {
					let _ = self.write(*addr, v);
				}
				Ok(vec![])
			},
			Op::SyncWriteBytes { addr, data, .. } => {
				for (_, v) in data.iter().filter(|x| x.0 == id) {
					let _ = self.write(*addr, v);
				}
				Ok(vec![])
			},
			Op::BulkRead { reads } => {
				let (_, addr, count) = reads.iter().find(|r| r.0 == id).unwrap();
				self.read(*addr, usize::from(*count))
			},
			Op::BulkWrite { writes } => {
				for (_, addr, data) in writes.iter().filter(|w| w.0 == id) {
					let _ = self.write(*addr, data);
				}
				Ok(vec![])
			},
			Op::Raw { instruction, params, .. } | Op::RawWrite { instruction, params, .. } => {
				if is_echo(*instruction) {
					let mut v = vec![*instruction];
					v.extend_from_slice(params);
					Ok(v)
				} else {
					Err(ERR_INSTRUCTION)
				}
			},
		}
	}
}

/// The motors an operation addresses, in the order of their replies; and whether they reply.
fn addressed(op: &Op, all: &[u8]) -> (Vec<u8>, bool) {
	let one = |id: u8| if id == BROADCAST { (all.to_vec(), false) } else { (vec![id], true) };
	match op {
		Op::Ping { id }
		| Op::Read { id, .. }
		| Op::ReadBytes { id, .. }
		| Op::Write { id, .. }
		| Op::WriteBytes { id, .. }
		| Op::RegWrite { id, .. }
		| Op::RegWriteBytes { id, .. }
		| Op::Action { id }
		| Op::Reboot { id }
		| Op::FactoryReset { id, .. }
		| Op::ClearRev { id }
		| Op::ClearErr { id }
		| Op::Raw { id, .. } => one(*id),
		Op::RawWrite { id, .. } => (one(*id).0, true),
		Op::Scan => {
			let mut v = all.to_vec();
			v.sort();
			(v, true)
		},
		Op::BroadcastAction
		| Op::BroadcastReboot
		| Op::BroadcastFactoryReset { .. }
		| Op::BroadcastClearRev
		| Op::BroadcastClearErr => (all.to_vec(), false),
		Op::SyncRead { ids, .. } | Op::SyncReadBytes { ids, .. } => (ids.clone(), true),
		Op::BulkRead { reads } => (reads.iter().map(|r| r.0).collect(), true),
		Op::SyncWrite { vals: data, .. } | Op::SyncWriteBytes { data, .. } => (data.iter().map(|d| d.0).collect(), false),
		Op::BulkWrite { writes } => (writes.iter().map(|w| w.0).collect(), false),
	}
}

/// The time of each reply such that every reply is in the window of its own slot, whichever others are missing:
/// a window ends when a reply arrives or its time is up, and the n-th reply arrives n + 1 ms before the time at which
/// the windows up to it would have been used up.
fn slots(op: &Op, baud: u32) -> Vec<u64> {
	match op.wait() {
		Wait::Each(list) => {
			let mut t = 0;
			let mut v = vec![];
			for (n, (_, count)) in list.iter().enumerate() {
				t += reply_timeout(*count, baud);
				v.push(t - MS * (n as u64 + 1));
			}
			v
		},
		Wait::Scan => (0..256).map(|id| MS * id).collect(),
		_ => vec![],
	}
}

// ---- Histories ---------------------------------------------------------------------------------------------------------

fn small_ty(rng: &mut Rng) -> Ty {
	*rng.pick(Ty::ALL)
}

fn address(rng: &mut Rng, len: usize) -> u16 {
	let room = size() - len.min(size());
	let at = match rng.below(12) {
		0 => base() + room,
		1 => base() + room + 1,
		2 => return rng.addr(),
		3 => base() + *rng.pick(&[0, ALERT, TURNS.start, VOLATILE - 2]),
		4 if base() > 0 => base() - 1,
		_ => base() + rng.usize(room + 1),
	};
	at.min(0xFFFF) as u16
}

/// How much to transfer.
fn length(rng: &mut Rng) -> usize {
	if size() > 256 && rng.chance(1, 3) {
		rng.range(200, size().min(900) + 1)
	} else {
		rng.usize(24)
	}
}

fn operation(rng: &mut Rng, kind: u64, all: &[u8]) -> Op {
	let absent = loop {
		let id = rng.motor();
		if !all.contains(&id) {
			break id;
		}
	};
	let id = if rng.chance(1, 12) { absent } else { *rng.pick(all) };
	let any = if rng.chance(1, 6) { BROADCAST } else { id };
	let ty = small_ty(rng);
	let n = length(rng);
	let addr_ty = address(rng, ty.size());
	let addr_n = address(rng, n);
	let mut some = {
		let mut v = all.to_vec();
		rng.shuffle(&mut v);
		v.truncate(rng.usize(all.len() + 1));
		if rng.chance(1, 6) {
			let at = rng.usize(v.len() + 1);
			v.insert(at, absent);
		}
		v
	};
	let reset = *rng.pick(&RESET_KINDS);
	match kind % 26 {
		0 => Op::Ping { id },
		1 => Op::Scan,
		2 => Op::Read { id, addr: addr_ty, ty },
		3 => Op::ReadBytes {
			id,
			addr: addr_n,
			count: n as u16,
		},
		4 => Op::Write {
			id: any,
			addr: addr_ty,
			ty,
			val: rng.content(ty.size()),
		},
		5 => Op::WriteBytes {
			id: any,
			addr: addr_n,
			data: rng.content(n),
		},
		6 => Op::RegWrite {
			id: any,
			addr: addr_ty,
			ty,
			val: rng.content(ty.size()),
		},
		7 => Op::RegWriteBytes {
			id: any,
			addr: addr_n,
			data: rng.content(n),
		},
		8 => Op::Action { id: any },
		9 => Op::BroadcastAction,
		10 => Op::Reboot { id: any },
		11 => Op::BroadcastReboot,
		12 => Op::FactoryReset { id: any, kind: reset },
		13 => Op::BroadcastFactoryReset { kind: reset },
		14 => Op::ClearRev { id: any },
		15 => Op::BroadcastClearRev,
		16 => Op::ClearErr { id: any },
		17 => Op::BroadcastClearErr,
		18 => Op::SyncRead {
			ids: some,
			addr: addr_ty,
			ty,
		},
		19 => {
			let count = if rng.chance(1, 2) { *rng.pick(&[0, 1, 2, 4, 7]) } else { n };
			Op::SyncReadBytes {
				ids: some,
				addr: address(rng, count),
				count: count as u16,
			}
		},
		20 => Op::SyncWrite {
			addr: addr_ty,
			ty,
			vals: some.drain(..).map(|id| (id, rng.content(ty.size()))).collect(),
		},
		21 => Op::SyncWriteBytes {
			addr: addr_n,
			count: n as u16,
			data: some.drain(..).map(|id| (id, rng.content(n))).collect(),
		},
		22 => {
			let uniform = rng.chance(1, 2).then(|| *rng.pick(&[0usize, 1, 2, 4, 7]));
			Op::BulkRead {
				reads: some
					.drain(..)
					.map(|id| {
						let n = uniform.unwrap_or_else(|| length(rng));
						(id, address(rng, n), n as u16)
					})
					.collect(),
			}
		},
		23 => Op::BulkWrite {
			writes: some
				.drain(..)
				.map(|id| {
					let n = length(rng);
					(id, address(rng, n), rng.content(n))
				})
				.collect(),
		},
		_ => {
			let instruction = loop {
				let i = if rng.chance(2, 3) { (rng.u8() & 0xE0) | 0x1A } else { raw_instruction(rng) };
				if !crate::rx::decode_ref(&proto::Pkt::new(1, i, vec![])).is_err()
					&& matches!(crate::rx::decode_ref(&proto::Pkt::new(1, i, vec![])), Ok(Dec::Unknown(..)))
				{
					break i;
				}
			};
			let params = rng.content(n);
			if kind % 26 == 24 {
				Op::Raw {
					id,
					instruction,
					expect: params.len() as u16 + 1,
					params,
				}
			} else {
				Op::RawWrite { id, instruction, params }
			}
		},
	}
}

/// The longest piece in which replies arrive: the shortest ones only if the reply is complete in much less than 1 ms.
fn piece(rng: &mut Rng) -> usize {
	*rng.pick(if size() > 256 { &[40, 100, 10_000, 10_000] } else { &[1, 4, 20, 10_000] })
}

fn random_faults(rng: &mut Rng, all: &[u8]) -> Faults {
	let mut f = Faults {
		spaced: rng.chance(2, 3),
		noise: rng.chance(1, 3),
		piece: piece(rng),
		..Faults::default()
	};
	if rng.chance(1, 2) {
		for &id in all {
			match rng.below(12) {
				0 => {
					f.hears.insert(id, Hears::Damaged);
				},
				1 => {
					f.hears.insert(id, Hears::Nothing);
				},
				2 => {
					f.fate.insert(id, Fate::Damaged);
				},
				3 => {
					f.fate.insert(id, Fate::Lost);
				},
				_ => (),
			}
		}
	}
	f
}

fn history(c: &mut Case, faulty: bool, long: bool) -> Result<(), String> {
	layout(&mut c.rng);
	let n = c.rng.range(1, 7);
	let ids = distinct_ids(&mut c.rng, n);
	// Broadcast replies of motor 255 and 253 etc. are all fine: only the broadcast ID itself is excluded.
	let motors: Vec<Motor> = ids.iter().map(|id| Motor::new(*id, c.rng.chance(1, 2), &mut c.rng.clone())).collect();
	let mut ideal: BTreeMap<u8, Ideal> = ids
		.iter()
		.map(|id| {
			(
				*id,
				Ideal {
					regs: defaults(*id),
					pending: None,
				},
			)
		})
		.collect();
	let bus = Rc::new(RefCell::new(Bus {
		motors,
		faults: Faults {
			piece: 10_000,
			..Faults::default()
		},
		rng: Rng::new(c.rng.u64()),
		problem: None,
		replies: 0,
		device_errors: 0,
		foreign: 0,
	}));
	let port = SimPort::default();
	let shared = bus.clone();
	port.respond(move |core, frame| {
		let mut b = shared.borrow_mut();
		if let Err(e) = b.transmit(core, frame) {
			b.problem.get_or_insert(e);
		}
	});
	let mut cl = client(&port, 16_384, 16_384);
	let steps = if long { 3_000 } else { c.rng.range(5, 60) };
	let mut trail: Vec<String> = vec![];
	for step in 0..steps {
		let kind = if c.rng.chance(1, 2) { *c.rng.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 18, 20, 22, 23]) } else { c.rng.below(26) };
		let op = operation(&mut c.rng, kind, &ids);
		let faults = if faulty {
			random_faults(&mut c.rng, &ids)
		} else {
			Faults {
				piece: piece(&mut c.rng),
				spaced: c.rng.chance(1, 2),
				..Faults::default()
			}
		};
		let faults = Faults {
			slots: if faults.spaced { slots(&op, port.core().baud) } else { vec![] },
			..faults
		};
		bus.borrow_mut().faults = faults.clone();
		trail.push(format!("{}{}", op_text(&op), if faults.any() { format!(" with {faults:?}") } else { String::new() }));
		let what = || {
			let from = trail.len().saturating_sub(6);
			format!("motors {ids:?}, step {step}, after [{}]", trail[from..].join("; "))
		};
		let drive = Drive {
			via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
			take: usize::MAX,
		};
		port.core().now += SEC;
		port.set_budget(1_000_000);
		let out = must(run_op(&mut cl, &op, drive), what)?;
		if let Some(e) = bus.borrow_mut().problem.take() {
			fail!("{}: {e}", what());
		}
		port.take_events();
		// What should have happened.
		let (targets, replies) = addressed(&op, &ids);
		let mut answers: Vec<(u8, Option<Answer>, bool)> = vec![];
		for id in &targets {
			let Some(m) = ideal.get_mut(id) else {
				answers.push((*id, None, false));
				continue;
			};
			if faults.hears(*id) != Hears::Well {
				answers.push((*id, None, false));
				continue;
			}
			let answer = m.apply(&op, *id);
			let alert = m.regs[ALERT] != 0;
			let arrives = faults.fate(*id) == Fate::Arrives;
			answers.push((*id, arrives.then_some(answer), alert));
		}
		judge(&op, &out, &answers, replies, &faults).map_err(|e| format!("{}: {e}", what()))?;
		for m in &bus.borrow().motors {
			let i = &ideal[&m.id];
			check!(
				m.regs == i.regs,
				"{}: the registers of motor {} are {} instead of {}",
				what(),
				m.id,
				hex(&m.regs),
				hex(&i.regs)
			);
			check!(
				m.pending == i.pending,
				"{}: motor {} has the registered write {:?} instead of {:?}",
				what(),
				m.id,
				m.pending,
				i.pending
			);
		}
		c.eval(1);
		c.count("operations", 1);
		c.count("operations_with_faults", u64::from(faults.any()));
		let state = ideal.values().fold(0, |h, i| hash_bytes(h, &i.regs));
		c.distinct(mix(hash_str(state, &format!("{op:?} {:?} {:?}", faults.hears, faults.fate))));
	}
	// At the end everything can be read back.
	bus.borrow_mut().faults = Faults {
		piece: 10_000,
		..Faults::default()
	};
	for id in &ids {
		port.core().now += SEC;
		let got = crate::ctx::guard(|| cl.read_bytes::<Vec<u8>>(*id, base() as u16, size() as u16).map(|r| r.data).map_err(E::from)).map_err(|e| format!("the final read {e}"))?;
		check!(
			got.as_ref() == Ok(&ideal[id].regs),
			"motors {ids:?} after {steps} steps: the final read of motor {id} gave {got:?} instead of {}",
			hex(&ideal[id].regs)
		);
	}
	let b = bus.borrow();
	c.count("replies", b.replies);
	c.count("replies_heard_by_other_devices", b.foreign);
	c.count("damaged_instructions_reported", b.device_errors);
	c.count("instructions_decoded", b.motors.iter().map(|m| m.seen).sum());
	c.sample(|| format!("motors {ids:?}: {}", trail[..trail.len().min(3)].join("; ")));
	Ok(())
}

/// Compare the results of an operation with what the motors answered (`None`: nothing intact arrives).
fn judge(op: &Op, out: &Outcome, answers: &[(u8, Option<Answer>, bool)], replies: bool, faults: &Faults) -> Result<(), String> {
	let good = |id: u8, alert: bool, data: &[u8]| {
		Ok(Reply {
			id,
			alert,
			data: data.to_vec(),
		})
	};
	let fits = |got: &Result<Reply, E>, (id, answer, alert): &(u8, Option<Answer>, bool)| match (got, answer) {
		(got, Some(Ok(data))) => *got == good(*id, *alert, data),
		(Err(E::Motor(raw)), Some(Err(code))) => *raw == code | if *alert { 0x80 } else { 0 },
		(Err(E::Motor(_)), _) => false,
		(Err(_), None) => true,
		_ => false,
	};
	match op {
		Op::RawWrite { .. } => {
			check!(out.start.is_ok() && out.items.is_empty(), "gave {out:?}");
		},
		_ if !replies => {
			check!(out.start.is_ok(), "gave {out:?}");
			check!(
				out.items.iter().all(|x| *x == good(BROADCAST, false, &[])),
				"gave {out:?} for a broadcast"
			);
		},
		Op::Scan => {
			check!(out.start.is_ok() && out.ended, "gave {out:?}");
			let got: Vec<&Result<Reply, E>> = out.items.iter().filter(|x| x.is_ok()).collect();
			let want: Vec<Result<Reply, E>> = answers
				.iter()
				.filter_map(|(id, a, alert)| a.as_ref().map(|a| good(*id, *alert, a.as_ref().unwrap())))
				.collect();
			check!(got == want.iter().collect::<Vec<_>>(), "gave {out:?} instead of {want:?}");
			let damaged = answers
				.iter()
				.filter(|x| faults.fate(x.0) == Fate::Damaged && faults.hears(x.0) == Hears::Well)
				.count();
			check!(
				out.items.len() - got.len() == damaged,
				"gave {} errors although {damaged} replies were damaged: {out:?}",
				out.items.len() - got.len()
			);
		},
		Op::SyncRead { .. } | Op::SyncReadBytes { .. } | Op::BulkRead { .. } => {
			check!(out.start.is_ok() && out.ended, "gave {out:?}");
			check!(
				out.items.len() == answers.len(),
				"gave {} results for {} motors: {out:?}",
				out.items.len(),
				answers.len()
			);
			let mut intact = true;
			for (i, (got, a)) in out.items.iter().zip(answers).enumerate() {
				let heard = a.1.is_some() || faults.hears(a.0) == Hears::Well && faults.fate(a.0) == Fate::Damaged;
				intact &= heard;
				if faults.spaced || intact {
					check!(fits(got, a), "gave {got:?} for motor {} which answered {:?}: {out:?}", a.0, a.1);
				} else {
					// A missing reply can cost later slots theirs, but never gives a wrong result.
					check!(fits(got, a) || got.is_err(), "gave {got:?} for motor {} (slot {i}) which answered {:?}: {out:?}", a.0, a.1);
				}
			}
		},
		_ => {
			let got = match &out.start {
				Err(e) => Err(e.clone()),
				Ok(()) => match &out.items[..] {
					[one] => one.clone(),
					_ => fail!("gave {out:?}"),
				},
			};
			check!(fits(&got, &answers[0]), "gave {got:?} although motor {} answered {:?}", answers[0].0, answers[0].1);
		},
	}
	Ok(())
}

pub fn run(r: &Run) {
	r.section("histories", 400, |c, _| history(c, false, false));
	r.section("long_histories", 8, |c, i| history(c, i % 2 == 1, true));
	r.section("faulty_histories", 500, |c, _| history(c, true, false));
	// Two devices that act as client and device of each other: a value of each type makes a round trip.
	r.section("typed_roundtrip", 600, |c, i| {
		let ty = Ty::ALL[(i % Ty::ALL.len() as u64) as usize];
		let id = c.rng.motor();
		layout(&mut c.rng);
		let bus = Rc::new(RefCell::new(Bus {
			motors: vec![Motor::new(id, c.rng.chance(1, 2), &mut c.rng.clone())],
			faults: Faults {
				piece: 1 + c.rng.usize(30),
				..Faults::default()
			},
			rng: Rng::new(c.rng.u64()),
			problem: None,
			replies: 0,
			device_errors: 0,
			foreign: 0,
		}));
		let port = SimPort::default();
		let shared = bus.clone();
		port.respond(move |core, frame| {
			let mut b = shared.borrow_mut();
			if let Err(e) = b.transmit(core, frame) {
				b.problem.get_or_insert(e);
			}
		});
		let mut cl = client(&port, 16_384, 16_384);
		let bytes = c.rng.content(ty.size());
		let addr = (base() + c.rng.usize(size() - ty.size() + 1)) as u16;
		let registered = c.rng.chance(1, 3);
		let got = crate::ctx::guard(|| {
			dispatch!(ty, T => {
				let v = <T as Val>::from_le(&bytes);
				if registered {
					cl.reg_write(id, addr, &v).map_err(E::from)?;
					cl.action(id).map_err(E::from)?;
				} else {
					cl.write(id, addr, &v).map_err(E::from)?;
				}
				let back = cl.read::<T>(id, addr).map_err(E::from)?;
				Ok::<_, E>((back.data == v, back.data.le_bytes()))
			})
		})
		.map_err(|e| format!("{ty:?} {} at {addr} {e}", hex(&bytes)))?;
		check!(
			got == Ok((true, bytes.clone())),
			"{ty:?} {} written to address {addr} of motor {id} was read back as {got:?}",
			hex(&bytes)
		);
		let b = bus.borrow();
		check!(
			b.motors[0].regs[usize::from(addr) - base()..][..bytes.len()] == bytes[..],
			"{ty:?} {} was stored as {}",
			hex(&bytes),
			hex(&b.motors[0].regs[usize::from(addr) - base()..][..bytes.len()])
		);
		c.distinct(mix(hash_bytes(hash_str(u64::from(addr), &format!("{ty:?}")), &bytes)));
		Ok(())
	});
}
