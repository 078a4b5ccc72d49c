//! Receivers: the four ways in which the library hands out received packets, behind one interface.

use crate::common::{Cl, Dv};
use crate::ctx::{guard, Panicked};
use crate::ops::{Expect, E};
use crate::port::{SimError, SimPort};
use crate::proto::{inst, Pkt, STATUS};
use dynamixel2::{Clear, FactoryReset, Instruction, Instructions, ReadError};
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
	Client,
	DevRaw,
	DevRead,
	#[cfg(feature = "alloc")]
	DevOwned,
}

pub const KINDS: &[Kind] = &[
	Kind::Client,
	Kind::DevRaw,
	Kind::DevRead,
	#[cfg(feature = "alloc")]
	Kind::DevOwned,
];

pub const DEVICE_KINDS: &[Kind] = &[
	Kind::DevRaw,
	Kind::DevRead,
	#[cfg(feature = "alloc")]
	Kind::DevOwned,
];

/// A parsed instruction in comparable form.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Dec {
	Ping,
	Read(u16, u16),
	Write(u16, Vec<u8>),
	RegWrite(u16, Vec<u8>),
	Action,
	ResetAll,
	ResetExceptId,
	ResetExceptIdBaud,
	ResetUnknown(u8),
	Reboot,
	ClearTurns,
	ClearErrors,
	ClearReserved(u8),
	SyncRead(u16, u16, Vec<u8>),
	SyncWrite(u16, u16, Vec<u8>),
	BulkRead(Vec<u8>),
	BulkWrite(Vec<u8>),
	Unknown(u8, Vec<u8>),
}

pub fn dec<T: AsRef<[u8]>>(i: &Instruction<T>) -> (u8, Dec) {
	let v = |t: &T| t.as_ref().to_vec();
	let d = match &i.instruction {
		Instructions::Ping => Dec::Ping,
		Instructions::Read { address, length } => Dec::Read(*address, *length),
		Instructions::Write { address, parameters } => Dec::Write(*address, v(parameters)),
		Instructions::RegWrite { address, parameters } => Dec::RegWrite(*address, v(parameters)),
		Instructions::Action => Dec::Action,
		Instructions::FactoryReset(FactoryReset::All) => Dec::ResetAll,
		Instructions::FactoryReset(FactoryReset::ExceptId) => Dec::ResetExceptId,
		Instructions::FactoryReset(FactoryReset::ExceptIdBaudRate) => Dec::ResetExceptIdBaud,
		Instructions::FactoryReset(FactoryReset::Unknown(x)) => Dec::ResetUnknown(*x),
		Instructions::Reboot => Dec::Reboot,
		Instructions::Clear(Clear::MultiTurns) => Dec::ClearTurns,
		Instructions::Clear(Clear::Errors) => Dec::ClearErrors,
		Instructions::Clear(Clear::Reserved(x)) => Dec::ClearReserved(*x),
		Instructions::SyncRead { address, length, ids } => Dec::SyncRead(*address, *length, v(ids)),
		Instructions::SyncWrite {
			address,
			length,
			parameters,
		} => Dec::SyncWrite(*address, *length, v(parameters)),
		Instructions::BulkRead { parameters } => Dec::BulkRead(v(parameters)),
		Instructions::BulkWrite { parameters } => Dec::BulkWrite(v(parameters)),
		Instructions::Unknown { instruction, parameters } => Dec::Unknown(*instruction, v(parameters)),
	};
	(i.id, d)
}

/// What the protocol says an instruction packet means.
pub fn decode_ref(p: &Pkt) -> Result<Dec, E> {
	let w = |i: usize| u16::from(p.params[i]) | u16::from(p.params[i + 1]) << 8;
	let n = p.params.len();
	let exact = |k: usize| {
		if n == k {
			Ok(())
		} else {
			Err(E::Count {
				actual: n,
				expected: Expect::Exact(k),
			})
		}
	};
	let min = |k: usize| {
		if n >= k {
			Ok(())
		} else {
			Err(E::Count {
				actual: n,
				expected: Expect::Min(k),
			})
		}
	};
	Ok(match p.instruction {
		inst::PING => Dec::Ping,
		inst::READ => {
			exact(4)?;
			Dec::Read(w(0), w(2))
		},
		inst::WRITE => {
			min(2)?;
			Dec::Write(w(0), p.params[2..].to_vec())
		},
		inst::REG_WRITE => {
			min(2)?;
			Dec::RegWrite(w(0), p.params[2..].to_vec())
		},
		inst::ACTION => Dec::Action,
		inst::FACTORY_RESET => {
			exact(1)?;
			match p.params[0] {
				0xFF => Dec::ResetAll,
				1 => Dec::ResetExceptId,
				2 => Dec::ResetExceptIdBaud,
				x => Dec::ResetUnknown(x),
			}
		},
		inst::REBOOT => Dec::Reboot,
		inst::CLEAR => {
			min(1)?;
			match p.params[0] {
				1 => Dec::ClearTurns,
				2 => Dec::ClearErrors,
				x => Dec::ClearReserved(x),
			}
		},
		inst::SYNC_READ => {
			min(4)?;
			Dec::SyncRead(w(0), w(2), p.params[4..].to_vec())
		},
		inst::SYNC_WRITE => {
			min(4)?;
			Dec::SyncWrite(w(0), w(2), p.params[4..].to_vec())
		},
		inst::BULK_READ => Dec::BulkRead(p.params.clone()),
		inst::BULK_WRITE => Dec::BulkWrite(p.params.clone()),
		other => Dec::Unknown(other, p.params.clone()),
	})
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Got {
	Pkt(Pkt),
	Dec(u8, Dec),
}

impl Got {
	pub fn is(&self, p: &Pkt) -> bool {
		match self {
			Got::Pkt(q) => q == p,
			Got::Dec(id, d) => !p.is_status() && *id == p.id && decode_ref(p).as_ref() == Ok(d),
		}
	}
}

pub enum Rx {
	Client(Cl),
	Device(Dv, Kind),
}

impl Rx {
	pub fn new(kind: Kind, port: &SimPort, rbuf: usize) -> Self {
		Self::with(kind, port, rbuf, 64)
	}

	pub fn with(kind: Kind, port: &SimPort, rbuf: usize, wbuf: usize) -> Self {
		match kind {
			Kind::Client => Rx::Client(crate::common::client(port, rbuf, wbuf)),
			_ => Rx::Device(crate::common::device(port, rbuf, wbuf), kind),
		}
	}

	pub fn kind(&self) -> Kind {
		match self {
			Rx::Client(_) => Kind::Client,
			Rx::Device(_, kind) => *kind,
		}
	}

	/// One receive call.
	pub fn recv(&mut self, timeout: u64) -> Result<Result<Got, E>, Panicked> {
		let timeout = Duration::from_nanos(timeout);
		fn err(e: ReadError<SimError>) -> E {
			e.into()
		}
		guard(|| match self {
			Rx::Client(c) => match c.read_status_response_timeout(timeout) {
				Ok(s) => {
					let mut params = vec![s.error()];
					params.extend_from_slice(s.parameters());
					Ok(Got::Pkt(Pkt::new(s.packet_id(), s.instruction_id(), params)))
				},
				Err(e) => Err(err(e)),
			},
			Rx::Device(d, Kind::DevRead) => match d.read(timeout) {
				Ok(i) => {
					let (id, d) = dec(&i);
					Ok(Got::Dec(id, d))
				},
				Err(e) => Err(err(e)),
			},
			#[cfg(feature = "alloc")]
			Rx::Device(d, Kind::DevOwned) => match d.read_owned(timeout) {
				Ok(i) => {
					let (id, d) = dec(&i);
					Ok(Got::Dec(id, d))
				},
				Err(e) => Err(err(e)),
			},
			Rx::Device(d, _) => match d.read_raw_instruction_timeout(timeout) {
				Ok(p) => Ok(Got::Pkt(Pkt::new(p.packet_id(), p.instruction_id(), p.parameters().to_vec()))),
				Err(e) => Err(err(e)),
			},
		})
	}
}

/// A random packet of the sort this receiver delivers without error.
pub fn random_packet(rng: &mut crate::rng::Rng, kind: Kind, n: usize) -> Pkt {
	match kind {
		Kind::Client => {
			let err = if rng.chance(1, 3) { 0x80 } else { 0 };
			let data = rng.content(n);
			Pkt::status(rng.id(), err, &data)
		},
		_ => {
			let instruction = match rng.below(3) {
				0 => *rng.pick(&[inst::WRITE, inst::SYNC_WRITE, inst::BULK_WRITE, inst::REG_WRITE]),
				_ => crate::ops::raw_instruction(rng),
			};
			loop {
				let p = Pkt::new(rng.id(), instruction, rng.content(n));
				if kind == Kind::DevRaw || decode_ref(&p).is_ok() {
					return p;
				}
				let p = Pkt::new(p.id, 0x90 | (instruction & 0x61), p.params);
				if decode_ref(&p).is_ok() && p.instruction != STATUS {
					return p;
				}
			}
		},
	}
}
