//! Every client operation as a value: what it must transmit, what it expects back, and how to run it.

use crate::port::SimError;
use crate::proto::{inst, Pkt, BROADCAST};
use crate::rng::Rng;
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, Ping, SyncWriteData};
use dynamixel2::{Client, ExpectedCount, InvalidMessage, ReadError, Response, SerialPort, TransferError, WriteError};

/// Value types with a codec that is independent of the library's.
pub trait Val: Data + Clone + PartialEq + std::fmt::Debug {
	const SIZE: usize;
	fn from_le(bytes: &[u8]) -> Self;
	fn le_bytes(&self) -> Vec<u8>;
}

macro_rules! val_int {
	($($t:ty),*) => { $(
		impl Val for $t {
			const SIZE: usize = (<$t>::BITS / 8) as usize;
			fn from_le(bytes: &[u8]) -> Self {
				let mut v: $t = 0;
				for (i, &b) in bytes.iter().enumerate() {
					v |= (b as $t) << (8 * i as u32);
				}
				v
			}
			fn le_bytes(&self) -> Vec<u8> {
				(0..Self::SIZE).map(|i| (*self >> (8 * i as u32)) as u8).collect()
			}
		}
	)* };
}
val_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl<T: Val, const N: usize> Val for [T; N] {
	const SIZE: usize = T::SIZE * N;
	fn from_le(bytes: &[u8]) -> Self {
		std::array::from_fn(|i| T::from_le(&bytes[i * T::SIZE..(i + 1) * T::SIZE]))
	}
	fn le_bytes(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.le_bytes()).collect()
	}
}

macro_rules! types {
	($($name:ident => $t:ty),* $(,)?) => {
		#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
		pub enum Ty { $($name),* }
		impl Ty {
			pub const ALL: &'static [Ty] = &[$(Ty::$name),*];
			pub fn size(self) -> usize {
				match self { $(Ty::$name => <$t as Val>::SIZE),* }
			}
		}
		/// Run generic code for the type that a `Ty` denotes.
		macro_rules! dispatch {
			($ty:expr, $T:ident => $e:expr) => {
				match $ty { $($crate::ops::Ty::$name => { type $T = $t; $e }),* }
			};
		}
		pub(crate) use dispatch;
	};
}

types! {
	U8 => u8, U16 => u16, U32 => u32, U64 => u64, U128 => u128,
	I8 => i8, I16 => i16, I32 => i32, I64 => i64, I128 => i128,
	A8x1 => [u8; 1], A8x3 => [u8; 3], A8x17 => [u8; 17], A16x4 => [u16; 4], AI32x3 => [i32; 3], A64x2 => [u64; 2], A128x2 => [i128; 2],
	N8x2x3 => [[u8; 2]; 3], N16x3x2 => [[i16; 3]; 2], A8x0 => [u8; 0], A16x33 => [u16; 33],
}

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
	Ping { id: u8 },
	Scan,
	Read { id: u8, addr: u16, ty: Ty },
	ReadBytes { id: u8, addr: u16, count: u16 },
	Write { id: u8, addr: u16, ty: Ty, val: Vec<u8> },
	WriteBytes { id: u8, addr: u16, data: Vec<u8> },
	RegWrite { id: u8, addr: u16, ty: Ty, val: Vec<u8> },
	RegWriteBytes { id: u8, addr: u16, data: Vec<u8> },
	Action { id: u8 },
	BroadcastAction,
	Reboot { id: u8 },
	BroadcastReboot,
	FactoryReset { id: u8, kind: FactoryResetKind },
	BroadcastFactoryReset { kind: FactoryResetKind },
	ClearRev { id: u8 },
	BroadcastClearRev,
	ClearErr { id: u8 },
	BroadcastClearErr,
	SyncRead { ids: Vec<u8>, addr: u16, ty: Ty },
	SyncReadBytes { ids: Vec<u8>, addr: u16, count: u16 },
	SyncWrite { addr: u16, ty: Ty, vals: Vec<(u8, Vec<u8>)> },
	SyncWriteBytes { addr: u16, count: u16, data: Vec<(u8, Vec<u8>)> },
	BulkRead { reads: Vec<(u8, u16, u16)> },
	BulkWrite { writes: Vec<(u8, u16, Vec<u8>)> },
	Raw { id: u8, instruction: u8, params: Vec<u8>, expect: u16 },
	RawWrite { id: u8, instruction: u8, params: Vec<u8> },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Reply {
	pub id: u8,
	pub alert: bool,
	pub data: Vec<u8>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Expect {
	Exact(usize),
	Max(usize),
	Min(usize),
}

/// Library errors in comparable form.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum E {
	WriteTooSmall { required: usize, total: usize },
	Discard(SimError),
	Write(SimError),
	ReadTooSmall { required: usize, total: usize },
	Io(SimError),
	Prefix([u8; 4], [u8; 4]),
	Checksum { message: u16, computed: u16 },
	Id { actual: u8, expected: Option<u8> },
	Inst { actual: u8, expected: u8 },
	Count { actual: usize, expected: Expect },
	Motor(u8),
}

impl E {
	pub fn is_timeout(&self) -> bool {
		matches!(self, E::Io(e) if e.kind == crate::port::Kind::Timeout)
	}
	/// A name for counters.
	pub fn name(&self) -> &'static str {
		match self {
			E::WriteTooSmall { .. } => "write_too_small",
			E::Discard(_) => "discard_failed",
			E::Write(_) => "write_failed",
			E::ReadTooSmall { .. } => "read_too_small",
			E::Io(e) if e.kind == crate::port::Kind::Timeout => "timeout",
			E::Io(_) => "read_failed",
			E::Prefix(..) => "invalid_prefix",
			E::Checksum { .. } => "invalid_checksum",
			E::Id { .. } => "invalid_packet_id",
			E::Inst { .. } => "invalid_instruction",
			E::Count { .. } => "invalid_parameter_count",
			E::Motor(_) => "motor_error",
		}
	}
}

impl From<InvalidMessage> for E {
	fn from(e: InvalidMessage) -> E {
		match e {
			InvalidMessage::InvalidHeaderPrefix(e) => E::Prefix(e.actual, e.expected),
			InvalidMessage::InvalidChecksum(e) => E::Checksum {
				message: e.message,
				computed: e.computed,
			},
			InvalidMessage::InvalidPacketId(e) => E::Id {
				actual: e.actual,
				expected: e.expected,
			},
			InvalidMessage::InvalidInstruction(e) => E::Inst {
				actual: e.actual,
				expected: e.expected,
			},
			InvalidMessage::InvalidParameterCount(e) => E::Count {
				actual: e.actual,
				expected: match e.expected {
					ExpectedCount::Exact(n) => Expect::Exact(n),
					ExpectedCount::Max(n) => Expect::Max(n),
					ExpectedCount::Min(n) => Expect::Min(n),
				},
			},
		}
	}
}

impl From<WriteError<SimError>> for E {
	fn from(e: WriteError<SimError>) -> E {
		match e {
			WriteError::BufferTooSmall(e) => E::WriteTooSmall {
				required: e.required_size,
				total: e.total_size,
			},
			WriteError::DiscardBuffer(e) => E::Discard(e),
			WriteError::Write(e) => E::Write(e),
		}
	}
}

impl From<ReadError<SimError>> for E {
	fn from(e: ReadError<SimError>) -> E {
		match e {
			ReadError::BufferFull(e) => E::ReadTooSmall {
				required: e.required_size,
				total: e.total_size,
			},
			ReadError::Io(e) => E::Io(e),
			ReadError::InvalidMessage(e) => e.into(),
			ReadError::MotorError(e) => E::Motor(e.raw),
		}
	}
}

impl From<TransferError<SimError>> for E {
	fn from(e: TransferError<SimError>) -> E {
		match e {
			TransferError::WriteError(e) => e.into(),
			TransferError::ReadError(e) => e.into(),
		}
	}
}

/// How the replies of an operation are collected.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Via {
	/// The `Iterator` implementation.
	Iter,
	/// `read_next()` / `scan_next()`.
	Next,
	/// `read_next_borrow()` where it exists.
	Borrow,
}

#[derive(Debug, Clone, Copy)]
pub struct Drive {
	pub via: Via,
	/// Take only this many items before dropping the iterator.
	pub take: usize,
}

pub const FULL: Drive = Drive {
	via: Via::Iter,
	take: usize::MAX,
};

/// What came out of an operation.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Outcome {
	/// The result of the transmission, for multi-reply operations; for others any error of the operation.
	pub start: Result<(), E>,
	/// The items that were delivered.
	pub items: Vec<Result<Reply, E>>,
	/// Whether the iterator finished with `None`.
	pub ended: bool,
}

impl Outcome {
	pub fn ok(&self) -> bool {
		self.start.is_ok() && self.items.iter().all(|x| x.is_ok())
	}
}

/// What an operation waits for.
#[derive(Debug, Clone, PartialEq)]
pub enum Wait {
	/// Nothing: returns after transmitting. `true` if a response naming the broadcast ID is returned.
	Nothing { response: bool },
	/// One reply from this motor with this number of parameters (`None`: any number).
	One { id: u8, count: Option<usize> },
	/// One reply per entry, in order.
	Each(Vec<(u8, usize)>),
	/// Any number of ping replies.
	Scan,
}

fn le(v: u16) -> [u8; 2] {
	[v as u8, (v >> 8) as u8]
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
	parts.concat()
}

/// A newtype that `[u8]` can be borrowed as, to reach the `_borrow` variants of the multi read operations.
#[repr(transparent)]
pub struct Borrowed<const N: usize>(pub [u8; N]);

impl<const N: usize> std::borrow::Borrow<Borrowed<N>> for [u8] {
	fn borrow(&self) -> &Borrowed<N> {
		let a: &[u8; N] = match self.try_into() {
			Ok(a) => a,
			Err(_) => panic!("LIBRARY: borrowed {} reply bytes where {N} were requested", self.len()),
		};
		unsafe { &*(a as *const [u8; N] as *const Borrowed<N>) }
	}
}

thread_local! {
	static CAPTURED: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A stand-in for reply bytes of any length: borrowing it records the bytes that were borrowed.
pub struct Captured;

impl std::borrow::Borrow<Captured> for [u8] {
	fn borrow(&self) -> &Captured {
		CAPTURED.with(|c| *c.borrow_mut() = self.to_vec());
		&Captured
	}
}

/// The bytes behind a borrowed reply.
trait Behind {
	fn bytes(&self) -> Vec<u8>;
}

impl<const N: usize> Behind for Borrowed<N> {
	fn bytes(&self) -> Vec<u8> {
		self.0.to_vec()
	}
}

impl Behind for Captured {
	fn bytes(&self) -> Vec<u8> {
		CAPTURED.with(|c| c.borrow().clone())
	}
}

impl Op {
	/// The one packet this operation must transmit.
	pub fn packet(&self) -> Pkt {
		let b = BROADCAST;
		match self {
			Op::Ping { id } => Pkt::new(*id, inst::PING, vec![]),
			Op::Scan => Pkt::new(b, inst::PING, vec![]),
			Op::Read { id, addr, ty } => Pkt::new(*id, inst::READ, cat(&[&le(*addr), &le(ty.size() as u16)])),
			Op::ReadBytes { id, addr, count } => Pkt::new(*id, inst::READ, cat(&[&le(*addr), &le(*count)])),
			Op::Write { id, addr, val, .. } => Pkt::new(*id, inst::WRITE, cat(&[&le(*addr), val])),
			Op::WriteBytes { id, addr, data } => Pkt::new(*id, inst::WRITE, cat(&[&le(*addr), data])),
			Op::RegWrite { id, addr, val, .. } => Pkt::new(*id, inst::REG_WRITE, cat(&[&le(*addr), val])),
			Op::RegWriteBytes { id, addr, data } => Pkt::new(*id, inst::REG_WRITE, cat(&[&le(*addr), data])),
			Op::Action { id } => Pkt::new(*id, inst::ACTION, vec![]),
			Op::BroadcastAction => Pkt::new(b, inst::ACTION, vec![]),
			Op::Reboot { id } => Pkt::new(*id, inst::REBOOT, vec![]),
			Op::BroadcastReboot => Pkt::new(b, inst::REBOOT, vec![]),
			Op::FactoryReset { id, kind } => Pkt::new(*id, inst::FACTORY_RESET, vec![reset_byte(*kind)]),
			Op::BroadcastFactoryReset { kind } => Pkt::new(b, inst::FACTORY_RESET, vec![reset_byte(*kind)]),
			Op::ClearRev { id } => Pkt::new(*id, inst::CLEAR, vec![0x01, 0x44, 0x58, 0x4C, 0x22]),
			Op::BroadcastClearRev => Pkt::new(b, inst::CLEAR, vec![0x01, 0x44, 0x58, 0x4C, 0x22]),
			Op::ClearErr { id } => Pkt::new(*id, inst::CLEAR, vec![0x02, 0x45, 0x52, 0x43, 0x4C]),
			Op::BroadcastClearErr => Pkt::new(b, inst::CLEAR, vec![0x02, 0x45, 0x52, 0x43, 0x4C]),
			Op::SyncRead { ids, addr, ty } => Pkt::new(b, inst::SYNC_READ, cat(&[&le(*addr), &le(ty.size() as u16), ids])),
			Op::SyncReadBytes { ids, addr, count } => Pkt::new(b, inst::SYNC_READ, cat(&[&le(*addr), &le(*count), ids])),
			Op::SyncWrite { addr, ty, vals } => {
				let mut p = cat(&[&le(*addr), &le(ty.size() as u16)]);
				for (id, v) in vals {
					p.push(*id);
					p.extend_from_slice(v);
				}
				Pkt::new(b, inst::SYNC_WRITE, p)
			},
			Op::SyncWriteBytes { addr, count, data } => {
				let mut p = cat(&[&le(*addr), &le(*count)]);
				for (id, v) in data {
					p.push(*id);
					p.extend_from_slice(v);
				}
				Pkt::new(b, inst::SYNC_WRITE, p)
			},
			Op::BulkRead { reads } => {
				let mut p = vec![];
				for (id, addr, count) in reads {
					p.push(*id);
					p.extend_from_slice(&le(*addr));
					p.extend_from_slice(&le(*count));
				}
				Pkt::new(b, inst::BULK_READ, p)
			},
			Op::BulkWrite { writes } => {
				let mut p = vec![];
				for (id, addr, data) in writes {
					p.push(*id);
					p.extend_from_slice(&le(*addr));
					p.extend_from_slice(&le(data.len() as u16));
					p.extend_from_slice(data);
				}
				Pkt::new(b, inst::BULK_WRITE, p)
			},
			Op::Raw {
				id, instruction, params, ..
			} => Pkt::new(*id, *instruction, params.clone()),
			Op::RawWrite { id, instruction, params } => Pkt::new(*id, *instruction, params.clone()),
		}
	}

	pub fn wait(&self) -> Wait {
		let ack = |id: u8| {
			if id == BROADCAST {
				Wait::Nothing { response: true }
			} else {
				Wait::One { id, count: Some(0) }
			}
		};
		match self {
			Op::Ping { id } => Wait::One { id: *id, count: Some(3) },
			Op::Scan => Wait::Scan,
			Op::Read { id, ty, .. } => Wait::One {
				id: *id,
				count: Some(ty.size()),
			},
			Op::ReadBytes { id, count, .. } => Wait::One {
				id: *id,
				count: Some(usize::from(*count)),
			},
			Op::Write { id, .. }
			| Op::WriteBytes { id, .. }
			| Op::RegWrite { id, .. }
			| Op::RegWriteBytes { id, .. }
			| Op::Action { id }
			| Op::Reboot { id }
			| Op::FactoryReset { id, .. }
			| Op::ClearRev { id }
			| Op::ClearErr { id } => ack(*id),
			Op::BroadcastAction
			| Op::BroadcastReboot
			| Op::BroadcastFactoryReset { .. }
			| Op::BroadcastClearRev
			| Op::BroadcastClearErr
			| Op::SyncWrite { .. }
			| Op::SyncWriteBytes { .. }
			| Op::BulkWrite { .. }
			| Op::RawWrite { .. } => Wait::Nothing { response: false },
			Op::SyncRead { ids, ty, .. } => Wait::Each(ids.iter().map(|id| (*id, ty.size())).collect()),
			Op::SyncReadBytes { ids, count, .. } => Wait::Each(ids.iter().map(|id| (*id, usize::from(*count))).collect()),
			Op::BulkRead { reads } => Wait::Each(reads.iter().map(|r| (r.0, usize::from(r.2))).collect()),
			Op::Raw { id, .. } => Wait::One { id: *id, count: None },
		}
	}

	/// The number of reply parameters the automatic timeout must allow for.
	pub fn timeout_params(&self) -> usize {
		match self {
			Op::Raw { expect, .. } => usize::from(*expect),
			_ => match self.wait() {
				Wait::One { count, .. } => count.unwrap_or(0),
				_ => 0,
			},
		}
	}

	pub fn name(&self) -> &'static str {
		match self {
			Op::Ping { .. } => "ping",
			Op::Scan => "scan",
			Op::Read { .. } => "read",
			Op::ReadBytes { .. } => "read_bytes",
			Op::Write { .. } => "write",
			Op::WriteBytes { .. } => "write_bytes",
			Op::RegWrite { .. } => "reg_write",
			Op::RegWriteBytes { .. } => "reg_write_bytes",
			Op::Action { .. } => "action",
			Op::BroadcastAction => "broadcast_action",
			Op::Reboot { .. } => "reboot",
			Op::BroadcastReboot => "broadcast_reboot",
			Op::FactoryReset { .. } => "factory_reset",
			Op::BroadcastFactoryReset { .. } => "broadcast_factory_reset",
			Op::ClearRev { .. } => "clear_revolution_counter",
			Op::BroadcastClearRev => "broadcast_clear_revolution_counter",
			Op::ClearErr { .. } => "clear_error",
			Op::BroadcastClearErr => "broadcast_clear_error",
			Op::SyncRead { .. } => "sync_read",
			Op::SyncReadBytes { .. } => "sync_read_bytes",
			Op::SyncWrite { .. } => "sync_write",
			Op::SyncWriteBytes { .. } => "sync_write_bytes",
			Op::BulkRead { .. } => "bulk_read_bytes",
			Op::BulkWrite { .. } => "bulk_write",
			Op::Raw { .. } => "transfer_single",
			Op::RawWrite { .. } => "write_instruction",
		}
	}

	/// Run the operation.
	pub fn run<B: AsRef<[u8]> + AsMut<[u8]>, P: SerialPort<Error = SimError>>(&self, client: &mut Client<P, B>, drive: Drive) -> Outcome {
		let b = BROADCAST;
		match self {
			Op::Ping { id } => one(client.ping(*id), ping_bytes),
			Op::Scan => match client.scan() {
				Err(e) => failed(e.into()),
				Ok(mut scan) => {
					let mut items = vec![];
					let mut ended = false;
					while items.len() < drive.take && items.len() < 2000 {
						let item = if drive.via == Via::Iter { scan.next() } else { scan.scan_next() };
						match item {
							None => {
								ended = true;
								break;
							},
							Some(Ok(r)) => items.push(Ok(reply(r, ping_bytes))),
							Some(Err(e)) => items.push(Err(e.into())),
						}
					}
					drop(scan);
					Outcome {
						start: Ok(()),
						items,
						ended,
					}
				},
			},
			Op::Read { id, addr, ty } => dispatch!(*ty, T => one(client.read::<T>(*id, *addr), |v| v.le_bytes())),
			Op::ReadBytes { id, addr, count } => match drive.via {
				Via::Iter => one(client.read_bytes::<Vec<u8>>(*id, *addr, *count), |v| v),
				Via::Next => one(client.read_bytes::<Box<[u8]>>(*id, *addr, *count), |v| v.into_vec()),
				Via::Borrow => one(client.read_bytes::<&[u8]>(*id, *addr, *count), |v| v.to_vec()),
			},
			Op::Write { id, addr, ty, val } => dispatch!(*ty, T => ack(client.write(*id, *addr, &<T as Val>::from_le(val)))),
			Op::WriteBytes { id, addr, data } => ack(client.write_bytes(*id, *addr, data)),
			Op::RegWrite { id, addr, ty, val } => dispatch!(*ty, T => ack(client.reg_write(*id, *addr, &<T as Val>::from_le(val)))),
			Op::RegWriteBytes { id, addr, data } => ack(client.reg_write_bytes(*id, *addr, data)),
			Op::Action { id } => ack(client.action(*id)),
			Op::BroadcastAction => sent(client.broadcast_action()),
			Op::Reboot { id } => ack(client.reboot(*id)),
			Op::BroadcastReboot => sent(client.broadcast_reboot()),
			Op::FactoryReset { id, kind } => ack(client.factory_reset(*id, *kind)),
			Op::BroadcastFactoryReset { kind } => sent(client.broadcast_factory_reset(*kind)),
			Op::ClearRev { id } => ack(client.clear_revolution_counter(*id)),
			Op::BroadcastClearRev => sent(client.broadcast_clear_revolution_counter()),
			Op::ClearErr { id } => ack(client.clear_error(*id)),
			Op::BroadcastClearErr => sent(client.broadcast_clear_error()),
			Op::SyncRead { ids, addr, ty } => dispatch!(*ty, T => match client.sync_read::<T>(ids, *addr) {
				Err(e) => failed(e.into()),
				Ok(mut it) => {
					let mut o = Outcome { start: Ok(()), items: vec![], ended: false };
					while o.items.len() < drive.take {
						note(it.remaining(), Some(it.size_hint()));
						let item = if drive.via == Via::Iter { it.next() } else { it.read_next() };
						match item {
							None => { o.ended = true; break },
							Some(Ok(r)) => o.items.push(Ok(reply(r, |v| v.le_bytes()))),
							Some(Err(e)) => o.items.push(Err(e.into())),
						}
					}
					note(it.remaining(), Some(it.size_hint()));
					o
				},
			}),
			Op::SyncReadBytes { ids, addr, count } => {
				macro_rules! borrowed {
					($t:ty) => {
						match client.sync_read_bytes_borrow::<$t>(ids, *addr, *count) {
							Err(e) => failed(e.into()),
							Ok(mut it) => {
								let mut o = started();
								while o.items.len() < drive.take {
									note(it.remaining(), None);
									match it.read_next_borrow() {
										None => {
											o.ended = true;
											break;
										},
										Some(Ok(r)) => o.items.push(Ok(Reply {
											id: r.motor_id,
											alert: r.alert,
											data: r.data.bytes(),
										})),
										Some(Err(e)) => o.items.push(Err(e.into())),
									}
								}
								note(it.remaining(), None);
								o
							},
						}
					};
				}
				match (drive.via, *count) {
					(Via::Borrow, 0) => return borrowed!(Borrowed<0>),
					(Via::Borrow, 1) => return borrowed!(Borrowed<1>),
					(Via::Borrow, 2) => return borrowed!(Borrowed<2>),
					(Via::Borrow, 4) => return borrowed!(Borrowed<4>),
					(Via::Borrow, 7) => return borrowed!(Borrowed<7>),
					(Via::Borrow, _) => return borrowed!(Captured),
					_ => (),
				}
				match client.sync_read_bytes::<Vec<u8>>(ids, *addr, *count) {
					Err(e) => failed(e.into()),
					Ok(mut it) => {
						let mut o = started();
						while o.items.len() < drive.take {
							note(it.remaining(), Some(it.size_hint()));
							let item = if drive.via == Via::Iter { it.next() } else { it.read_next() };
							match item {
								None => {
									o.ended = true;
									break;
								},
								Some(Ok(r)) => o.items.push(Ok(reply(r, |v| v))),
								Some(Err(e)) => o.items.push(Err(e.into())),
							}
						}
						note(it.remaining(), Some(it.size_hint()));
						o
					},
				}
			},
			Op::SyncWrite { addr, ty, vals } => dispatch!(*ty, T => {
				let vals: Vec<SyncWriteData<T>> = vals.iter().map(|(id, v)| SyncWriteData { motor_id: *id, data: <T as Val>::from_le(v) }).collect();
				if drive.via == Via::Iter {
					sent(client.sync_write(*addr, &vals))
				} else {
					sent(client.sync_write(*addr, vals))
				}
			}),
			Op::SyncWriteBytes { addr, count, data } => {
				if drive.via == Via::Iter {
					let data: Vec<SyncWriteData<&[u8]>> = data
						.iter()
						.map(|(id, v)| SyncWriteData {
							motor_id: *id,
							data: v.as_slice(),
						})
						.collect();
					sent(client.sync_write_bytes(*addr, *count, &data))
				} else {
					let data: Vec<SyncWriteData<Vec<u8>>> = data
						.iter()
						.map(|(id, v)| SyncWriteData {
							motor_id: *id,
							data: v.clone(),
						})
						.collect();
					sent(client.sync_write_bytes(*addr, *count, data))
				}
			},
			Op::BulkRead { reads } => {
				let reads: Vec<BulkReadData> = reads
					.iter()
					.map(|&(motor_id, address, count)| BulkReadData { motor_id, address, count })
					.collect();
				let uniform = match reads.first() {
					Some(f) if reads.iter().all(|r| r.count == f.count) => Some(f.count),
					_ => None,
				};
				macro_rules! borrowed {
					($t:ty) => {
						match client.bulk_read_bytes_borrow::<$t>(&reads) {
							Err(e) => failed(e.into()),
							Ok(mut it) => {
								let mut o = started();
								while o.items.len() < drive.take {
									note(it.remaining(), None);
									match it.read_next_borrow() {
										None => {
											o.ended = true;
											break;
										},
										Some(Ok(r)) => o.items.push(Ok(Reply {
											id: r.motor_id,
											alert: r.alert,
											data: r.data.bytes(),
										})),
										Some(Err(e)) => o.items.push(Err(e.into())),
									}
								}
								note(it.remaining(), None);
								o
							},
						}
					};
				}
				match (drive.via, uniform) {
					(Via::Borrow, Some(0)) => return borrowed!(Borrowed<0>),
					(Via::Borrow, Some(1)) => return borrowed!(Borrowed<1>),
					(Via::Borrow, Some(2)) => return borrowed!(Borrowed<2>),
					(Via::Borrow, Some(4)) => return borrowed!(Borrowed<4>),
					(Via::Borrow, Some(7)) => return borrowed!(Borrowed<7>),
					(Via::Borrow, _) => return borrowed!(Captured),
					_ => (),
				}
				let result = match client.bulk_read_bytes::<Vec<u8>>(&reads) {
					Err(e) => failed(e.into()),
					Ok(mut it) => {
						let mut o = started();
						while o.items.len() < drive.take {
							note(it.remaining(), Some(it.size_hint()));
							let item = if drive.via == Via::Iter { it.next() } else { it.read_next() };
							match item {
								None => {
									o.ended = true;
									break;
								},
								Some(Ok(r)) => o.items.push(Ok(reply(r, |v| v))),
								Some(Err(e)) => o.items.push(Err(e.into())),
							}
						}
						note(it.remaining(), Some(it.size_hint()));
						o
					},
				};
				result
			},
			Op::BulkWrite { writes } => {
				if drive.via == Via::Iter {
					let writes: Vec<BulkWriteData<&[u8]>> = writes
						.iter()
						.map(|(motor_id, address, data)| BulkWriteData {
							motor_id: *motor_id,
							address: *address,
							data: data.as_slice(),
						})
						.collect();
					sent(client.bulk_write(&writes))
				} else {
					let writes: Vec<BulkWriteData<Vec<u8>>> = writes
						.iter()
						.map(|(motor_id, address, data)| BulkWriteData {
							motor_id: *motor_id,
							address: *address,
							data: data.clone(),
						})
						.collect();
					sent(client.bulk_write(&writes))
				}
			},
			Op::Raw {
				id,
				instruction,
				params,
				expect,
			} => {
				let r = client.transfer_single(*id, *instruction, params.len(), *expect, encoder(params));
				match r {
					Err(e) => failed(e.into()),
					Ok(s) => Outcome {
						start: Ok(()),
						items: vec![Ok(Reply {
							id: s.packet_id(),
							alert: s.alert(),
							data: s.parameters().to_vec(),
						})],
						ended: true,
					},
				}
			},
			Op::RawWrite { id, instruction, params } => {
				let _ = b;
				sent(client.write_instruction(*id, *instruction, params.len(), encoder(params)))
			},
		}
	}
}

thread_local! {
	/// When set, `remaining()` and `size_hint()` of multi reads are recorded before and after every item.
	pub static REMAINING: std::cell::RefCell<Option<Vec<Remaining>>> = const { std::cell::RefCell::new(None) };
}

#[derive(Debug, Clone, PartialEq)]
pub struct Remaining {
	pub remaining: usize,
	pub hint: Option<(usize, Option<usize>)>,
}

fn note(remaining: usize, hint: Option<(usize, Option<usize>)>) {
	REMAINING.with(|r| {
		if let Some(v) = r.borrow_mut().as_mut() {
			v.push(Remaining { remaining, hint });
		}
	})
}

fn started() -> Outcome {
	Outcome {
		start: Ok(()),
		items: vec![],
		ended: false,
	}
}

fn failed(e: E) -> Outcome {
	Outcome {
		start: Err(e),
		items: vec![],
		ended: true,
	}
}

fn reply<T>(r: Response<T>, f: impl FnOnce(T) -> Vec<u8>) -> Reply {
	Reply {
		id: r.motor_id,
		alert: r.alert,
		data: f(r.data),
	}
}

pub fn ping_bytes(p: Ping) -> Vec<u8> {
	vec![p.model as u8, (p.model >> 8) as u8, p.firmware]
}

fn one<T>(r: Result<Response<T>, TransferError<SimError>>, f: impl FnOnce(T) -> Vec<u8>) -> Outcome {
	match r {
		Err(e) => failed(e.into()),
		Ok(r) => Outcome {
			start: Ok(()),
			items: vec![Ok(reply(r, f))],
			ended: true,
		},
	}
}

fn ack(r: Result<Response<()>, TransferError<SimError>>) -> Outcome {
	one(r, |()| vec![])
}

fn sent(r: Result<(), WriteError<SimError>>) -> Outcome {
	match r {
		Err(e) => failed(e.into()),
		Ok(()) => Outcome {
			start: Ok(()),
			items: vec![],
			ended: true,
		},
	}
}

pub fn reset_byte(kind: FactoryResetKind) -> u8 {
	match kind {
		FactoryResetKind::ResetAll => 0xFF,
		FactoryResetKind::KeepId => 0x01,
		FactoryResetKind::KeepIdAndBaudRate => 0x02,
	}
}

pub const RESET_KINDS: [FactoryResetKind; 3] = [
	FactoryResetKind::ResetAll,
	FactoryResetKind::KeepId,
	FactoryResetKind::KeepIdAndBaudRate,
];

/// Distinct motor IDs (never broadcast).
pub fn distinct_ids(rng: &mut Rng, n: usize) -> Vec<u8> {
	let mut all: Vec<u8> = (0..=255u8).filter(|x| *x != BROADCAST).collect();
	if n <= 200 && rng.chance(1, 4) {
		// Adjacent IDs.
		let start = rng.usize(250 - n);
		return (0..n).map(|i| (start + i) as u8).collect();
	}
	rng.shuffle(&mut all);
	all.truncate(n);
	all
}

/// An encoder callback that insists on a buffer of exactly the announced size.
pub fn encoder(params: &[u8]) -> impl FnOnce(&mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> + '_ {
	move |buffer| {
		if buffer.len() != params.len() {
			panic!("LIBRARY: encoder called with a buffer of {} bytes instead of {}", buffer.len(), params.len());
		}
		crate::port::hook();
		buffer.copy_from_slice(params);
		crate::port::hook();
		Ok(())
	}
}

/// Content that makes acknowledgement and framing interesting.
pub const N_KINDS: u64 = 26;

/// A random operation of the given kind. `max` bounds the sizes of data and reply.
pub fn random_op(rng: &mut Rng, kind: u64, max: usize) -> Op {
	let id = rng.motor();
	// For acknowledged commands, sometimes broadcast.
	let any = if rng.chance(1, 6) { BROADCAST } else { id };
	let addr = rng.addr();
	let tys: Vec<Ty> = Ty::ALL.iter().copied().filter(|t| t.size() <= max).collect();
	let ty = *rng.pick(&tys);
	let reset = *rng.pick(&RESET_KINDS);
	let n = rng.size(max);
	match kind % N_KINDS {
		0 => Op::Ping { id },
		1 => Op::Scan,
		2 => Op::Read { id, addr, ty },
		3 => Op::ReadBytes { id, addr, count: n as u16 },
		4 => Op::Write {
			id: any,
			addr,
			ty,
			val: rng.content(ty.size()),
		},
		5 => Op::WriteBytes {
			id: any,
			addr,
			data: rng.content(n),
		},
		6 => Op::RegWrite {
			id: any,
			addr,
			ty,
			val: rng.content(ty.size()),
		},
		7 => Op::RegWriteBytes {
			id: any,
			addr,
			data: rng.content(n),
		},
		8 => Op::Action { id: any },
		9 => Op::BroadcastAction,
		10 => Op::Reboot { id: any },
		11 => Op::BroadcastReboot,
		12 => Op::FactoryReset { id: any, kind: reset },
		13 => Op::BroadcastFactoryReset { kind: reset },
		14 => Op::ClearRev { id: any },
		15 => Op::BroadcastClearRev,
		16 => Op::ClearErr { id: any },
		17 => Op::BroadcastClearErr,
		18 => {
			let k = rng.usize(6);
			Op::SyncRead {
				ids: distinct_ids(rng, k),
				addr,
				ty,
			}
		},
		19 => {
			let k = rng.usize(6);
			let count = if rng.chance(1, 2) {
				*rng.pick(&[0, 1, 2, 4, 7])
			} else {
				n.min(64)
			};
			Op::SyncReadBytes {
				ids: distinct_ids(rng, k),
				addr,
				count: count as u16,
			}
		},
		20 => {
			let k = rng.usize(6);
			let ids = distinct_ids(rng, k);
			Op::SyncWrite {
				addr,
				ty,
				vals: ids.into_iter().map(|id| (id, rng.content(ty.size()))).collect(),
			}
		},
		21 => {
			let k = rng.usize(6);
			let count = rng.usize(20);
			let ids = distinct_ids(rng, k);
			Op::SyncWriteBytes {
				addr,
				count: count as u16,
				data: ids.into_iter().map(|id| (id, rng.content(count))).collect(),
			}
		},
		22 => {
			let k = rng.usize(6);
			let ids = distinct_ids(rng, k);
			let uniform = rng.chance(1, 2).then(|| *rng.pick(&[0u16, 1, 2, 4, 7]));
			Op::BulkRead {
				reads: ids
					.into_iter()
					.map(|id| (id, rng.addr(), uniform.unwrap_or_else(|| rng.usize(40) as u16)))
					.collect(),
			}
		},
		23 => {
			let k = rng.usize(6);
			let ids = distinct_ids(rng, k);
			Op::BulkWrite {
				writes: ids
					.into_iter()
					.map(|id| {
						let n = rng.usize(24);
						(id, rng.addr(), rng.content(n))
					})
					.collect(),
			}
		},
		24 => Op::Raw {
			id,
			instruction: raw_instruction(rng),
			params: rng.content(n),
			expect: rng.usize(40) as u16,
		},
		_ => Op::RawWrite {
			id: rng.id(),
			instruction: raw_instruction(rng),
			params: rng.content(n),
		},
	}
}

/// Any instruction byte except status.
pub fn raw_instruction(rng: &mut Rng) -> u8 {
	loop {
		let i = match rng.below(4) {
			0 => *rng.pick(&[0xFF, 0xFD, 0x00, 0x8A, 0x9A, 0x20]),
			_ => rng.u8(),
		};
		if i != 0x55 {
			return i;
		}
	}
}
