//! C16: value encoding is fixed-size little-endian, reversible and total; array elements live and die exactly once.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{dispatch, Expect, Ty, Val, E};
use crate::port::SimPort;
use crate::proto::{inst, Pkt};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use crate::{check, fail};
use dynamixel2::bus::Data;
use dynamixel2::instructions::SyncWriteData;
use dynamixel2::{BufferTooSmallError, InvalidMessage, InvalidParameterCount};
use std::cell::RefCell;
use std::collections::BTreeSet;

pub const RULE: &str = "values of every integer type (all values of the 8 and 16 bit types) and of nested arrays are encoded and decoded with every buffer length around the declared size and compared with an independent codec; arrays of elements that own heap memory, fail or panic midway are decoded under a registry of live objects; distinct by (type, bytes, lengths or failure position)";

/// All buffer lengths tried around a size.
fn lengths(rng: &mut Rng, size: usize) -> Vec<usize> {
	let mut v: Vec<usize> = if size <= 80 {
		(0..size + 5).collect()
	} else {
		vec![0, 1, size / 2, size - 1, size, size + 1, size + 255, size + 256, rng.usize(size)]
	};
	v.extend([size * 2, size * 2 + 1]);
	v
}

fn roundtrip<T: Val>(bytes: &[u8], lens: &[usize], name: &str) -> Result<(), String> {
	let size = bytes.len();
	check!(usize::from(T::ENCODED_SIZE) == size, "{name} declares an encoded size of {} instead of {size}", T::ENCODED_SIZE);
	let value = T::from_le(bytes);
	for &len in lens {
		for fill in [0xA5u8, 0x5A] {
			let mut buffer = vec![fill; len];
			let r = guard(|| value.encode(&mut buffer)).map_err(|e| format!("encoding {name} into {len} bytes {e}"))?;
			if len < size {
				check!(
					r.as_ref().is_err_and(|e| e.required_size == size && e.total_size == len),
					"encoding {name} ({size} bytes) into a buffer of {len} bytes gave {r:?}"
				);
			} else {
				check!(r.is_ok(), "encoding {name} ({size} bytes) into a buffer of {len} bytes gave {r:?}");
				check!(
					buffer[..size] == *bytes,
					"{name} {value:?} was encoded as {} instead of {}",
					hex(&buffer[..size]),
					hex(bytes)
				);
				check!(
					buffer[size..].iter().all(|&b| b == fill),
					"encoding {name} ({size} bytes) changed bytes beyond it: {}",
					hex(&buffer)
				);
			}
		}
		let mut input = bytes.to_vec();
		input.resize(len, 0x77);
		let r = guard(|| T::decode(&input)).map_err(|e| format!("decoding {name} from {len} bytes {e}"))?;
		if len == size {
			let Ok(back) = r else { fail!("decoding {name} from {} gave {r:?}", hex(&input)) };
			check!(back == value, "decoding {name} from {} gave {back:?} instead of {value:?}", hex(&input));
			check!(back.le_bytes() == input, "decoding {name} from {} gave {back:?}", hex(&input));
		} else {
			let r = r.map(|v| v.le_bytes()).map_err(E::from);
			check!(
				r == Err(E::Count {
					actual: len,
					expected: Expect::Exact(size)
				}),
				"decoding {name} ({size} bytes) from {len} bytes gave {r:?}"
			);
		}
	}
	Ok(())
}

// ---- Elements that are watched ------------------------------------------------------------------------------------

#[derive(Default)]
struct Registry {
	live: BTreeSet<u64>,
	next: u64,
	created: u64,
	double: u64,
	/// Fail or panic when this many elements have been created by decoding.
	fail_at: Option<u64>,
	panic_at: Option<u64>,
	encoded: u64,
	encode_fail_at: Option<u64>,
}

thread_local! {
	static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

fn reg<T>(f: impl FnOnce(&mut Registry) -> T) -> T {
	REG.with(|r| f(&mut r.borrow_mut()))
}

fn born() -> u64 {
	reg(|r| {
		r.next += 1;
		r.created += 1;
		r.live.insert(r.next);
		r.next
	})
}

fn died(id: u64) {
	reg(|r| {
		if !r.live.remove(&id) {
			r.double += 1;
		}
	})
}

/// The scheduled fate of the next decoded element.
fn fate() -> Result<(), InvalidMessage> {
	let (panics, fails) = reg(|r| {
		let hit = (r.panic_at == Some(r.created), r.fail_at == Some(r.created));
		// Only once: further replies may be decoded while the panic unwinds.
		if hit.0 {
			r.panic_at = None;
		}
		hit
	});
	if panics {
		panic!("LIBRARY: scheduled panic");
	}
	if fails {
		return Err(custom_error());
	}
	Ok(())
}

fn custom_error() -> InvalidMessage {
	InvalidParameterCount {
		actual: 4711,
		expected: dynamixel2::ExpectedCount::Min(4712),
	}
	.into()
}

/// A watched element; the inner type gives it different layouts.
trait Watched: Data {
	fn make(bytes: &[u8]) -> Self;
	fn bytes(&self) -> Vec<u8>;
}

macro_rules! watched {
	($name:ident, $size:literal, $(#[$attr:meta])* $repr:ty, $make:expr, $bytes:expr) => {
		$(#[$attr])*
		struct $name {
			id: u64,
			inner: $repr,
		}
		impl Watched for $name {
			fn make(bytes: &[u8]) -> Self {
				let f: fn(&[u8]) -> $repr = $make;
				Self { id: born(), inner: f(bytes) }
			}
			fn bytes(&self) -> Vec<u8> {
				let f: fn(&$repr) -> Vec<u8> = $bytes;
				f(&self.inner)
			}
		}
		impl Drop for $name {
			fn drop(&mut self) {
				died(self.id);
			}
		}
		impl Data for $name {
			const ENCODED_SIZE: u16 = $size;
			fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
				encode_watched($size, &self.bytes(), buffer)
			}
			fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
				fate()?;
				if buffer.len() != $size {
					return Err(InvalidParameterCount { actual: buffer.len(), expected: dynamixel2::ExpectedCount::Exact($size) }.into());
				}
				Ok(Self::make(buffer))
			}
		}
	};
}

fn encode_watched(size: usize, bytes: &[u8], buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
	let fails = reg(|r| {
		r.encoded += 1;
		r.encode_fail_at == Some(r.encoded)
	});
	if fails || buffer.len() < size {
		return Err(BufferTooSmallError {
			required_size: 999,
			total_size: 888,
		});
	}
	buffer[..size].copy_from_slice(bytes);
	Ok(())
}

watched!(Boxed, 3, Box<[u8; 3]>, |b| Box::new([b[0], b[1], b[2]]), |i| i.to_vec());
watched!(Text, 5, String, |b| b.iter().map(|b| char::from(*b)).collect(), |i| i.chars().map(|c| c as u8).collect());
watched!(Wide, 2, #[repr(align(64))] [u64; 9], |b| std::array::from_fn(|i| u64::from(b[i % 2])), |i| vec![i[0] as u8, i[1] as u8]);
watched!(Small, 1, u8, |b| b[0], |i| vec![*i]);
watched!(Blank, 0, Vec<u8>, |_| vec![1, 2, 3], |_| vec![]);

/// A zero-sized element: only its numbers can be watched.
struct Zst;
thread_local! {
	static ZST: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}
impl Watched for Zst {
	fn make(_: &[u8]) -> Self {
		reg(|r| r.created += 1);
		ZST.with(|z| z.borrow_mut().0 += 1);
		Zst
	}
	fn bytes(&self) -> Vec<u8> {
		vec![0xEE, 0xFE]
	}
}
impl Drop for Zst {
	fn drop(&mut self) {
		ZST.with(|z| z.borrow_mut().1 += 1);
	}
}
impl Data for Zst {
	const ENCODED_SIZE: u16 = 2;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		encode_watched(2, &[0xEE, 0xFE], buffer)
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		fate()?;
		Ok(Self::make(buffer))
	}
}

impl<T: Watched, const N: usize> Watched for [T; N] {
	fn make(bytes: &[u8]) -> Self {
		let n = usize::from(T::ENCODED_SIZE);
		std::array::from_fn(|i| T::make(&bytes[i * n..(i + 1) * n]))
	}
	fn bytes(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.bytes()).collect()
	}
}

/// How many elements (leaves) there are, and what happens to one of them.
#[derive(Debug, Clone, Copy)]
struct Plan {
	leaves: u64,
	fail_at: Option<u64>,
	panic_at: Option<u64>,
}

fn reset(plan: Plan) {
	reg(|r| {
		*r = Registry {
			fail_at: plan.fail_at,
			panic_at: plan.panic_at,
			next: r.next,
			..Registry::default()
		}
	});
	ZST.with(|z| *z.borrow_mut() = (0, 0));
}

/// Everything that was created must be gone, exactly once.
fn balance(live: u64, what: &str) -> Result<(), String> {
	let (l, created, double) = reg(|r| (r.live.len() as u64, r.created, r.double));
	check!(double == 0, "{what}: {double} elements were dropped twice or never created");
	let (zb, zd) = ZST.with(|z| *z.borrow());
	if zb > 0 || zd > 0 {
		check!(zb - zd.min(zb) == live && zd <= zb, "{what}: {zb} elements were created and {zd} dropped");
	} else {
		check!(l == live, "{what}: {l} of {created} created elements are still alive instead of {live}");
	}
	Ok(())
}

/// Decode an array under this plan, directly.
fn decode_plan<T: Watched>(bytes: &[u8], plan: Plan, name: &str) -> Result<(), String> {
	let what = || format!("decoding {name} with {plan:?} from {}", hex(bytes));
	reset(plan);
	let r = guard(|| T::decode(bytes));
	match r {
		Err(p) => {
			check!(plan.panic_at.is_some() && p.message.contains("scheduled"), "{} {p}", what());
			balance(0, &what())
		},
		Ok(Err(e)) => {
			let expect = E::from(custom_error());
			let e = E::from(e);
			check!(plan.fail_at.is_some() && e == expect, "{} gave {e:?}", what());
			balance(0, &what())
		},
		Ok(Ok(v)) => {
			check!(plan.fail_at.is_none() && plan.panic_at.is_none(), "{} succeeded", what());
			balance(plan.leaves, &format!("{} (holding the value)", what()))?;
			let created = reg(|r| r.created);
			check!(created == plan.leaves, "{}: {created} elements were created", what());
			check!(v.bytes() == bytes, "{} gave {}", what(), hex(&v.bytes()));
			// Encode it again, also with an element that fails.
			let mut out = vec![0x3C; bytes.len() + 7];
			let r = guard(|| v.encode(&mut out)).map_err(|e| format!("encoding {name} {e}"))?;
			check!(r.is_ok(), "encoding {name} gave {r:?}");
			check!(
				out[..bytes.len()] == *bytes && out[bytes.len()..].iter().all(|x| *x == 0x3C),
				"encoding {name} gave {} instead of {}",
				hex(&out),
				hex(bytes)
			);
			// Elements without bytes need not be encoded at all.
			if plan.leaves > 0 && !bytes.is_empty() {
				reg(|r| r.encode_fail_at = Some(r.encoded + 1 + plan.leaves / 2));
				let r = guard(|| v.encode(&mut out)).map_err(|e| format!("encoding {name} {e}"))?;
				check!(r.is_err(), "encoding {name} succeeded although an element could not be encoded");
				check!(out[bytes.len()..].iter().all(|x| *x == 0x3C), "encoding {name} wrote beyond its size");
			}
			balance(plan.leaves, &format!("{} (after encoding)", what()))?;
			drop(v);
			balance(0, &format!("{} (after dropping the value)", what()))
		},
	}
}

fn decode_all<T: Watched>(c: &mut Case, leaves: u64, name: &str) -> Result<(), String> {
	let size = usize::from(T::ENCODED_SIZE);
	let mut bytes = c.rng.content(size);
	if name.contains("Zst") {
		bytes = [0xEE, 0xFE].iter().cycle().take(size).copied().collect();
	}
	let ok = Plan {
		leaves,
		fail_at: None,
		panic_at: None,
	};
	decode_plan::<T>(&bytes, ok, name)?;
	for at in 0..leaves {
		decode_plan::<T>(&bytes, Plan { fail_at: Some(at), ..ok }, name)?;
		decode_plan::<T>(&bytes, Plan { panic_at: Some(at), ..ok }, name)?;
		c.distinct(mix(hash_str(at, name)));
	}
	c.eval(1 + 2 * leaves);
	c.count("elements_watched", leaves * (leaves + 1));
	// Wrong sizes: nothing survives.
	for len in lengths(&mut c.rng, size) {
		if len != size {
			reset(ok);
			let mut b = bytes.clone();
			b.resize(len, 0);
			let r = guard(|| T::decode(&b).map(drop)).map_err(|e| format!("decoding {name} from {len} bytes {e}"))?;
			let r = r.map_err(E::from);
			check!(
				r == Err(E::Count {
					actual: len,
					expected: Expect::Exact(size)
				}),
				"decoding {name} ({size} bytes) from {len} bytes gave {r:?}"
			);
			balance(0, &format!("decoding {name} ({size} bytes) from {len} bytes"))?;
		}
	}
	c.distinct(mix(hash_bytes(hash_str(1, name), &bytes)));
	Ok(())
}

/// The same through a client operation.
fn client_all<T: Watched>(c: &mut Case, leaves: u64, name: &str) -> Result<(), String> {
	let size = usize::from(T::ENCODED_SIZE);
	let mut data = || -> Vec<u8> {
		if name.contains("Zst") {
			[0xEE, 0xFE].iter().cycle().take(size).copied().collect()
		} else {
			c.rng.content(size)
		}
	};
	let (a, b) = (data(), data());
	let total = 2 * leaves;
	for at in 0..=total {
		// sync_read of two motors; element `at` fails (the last round: none).
		for panics in [false, true] {
			let plan = Plan {
				leaves: total,
				fail_at: (at < total && !panics).then_some(at),
				panic_at: (at < total && panics).then_some(at),
			};
			let what = || format!("sync_read of two {name} with {plan:?}");
			reset(plan);
			let port = SimPort::default();
			port.reply_with(vec![Pkt::status(1, 0, &a).frame(), Pkt::status(2, 0, &b).frame()]);
			let mut cl = client(&port, 4096, 4096);
			let mut got = vec![];
			let r = guard(|| {
				let mut it = cl.sync_read::<T>(&[1u8, 2], 10).map_err(E::from)?;
				while let Some(x) = it.read_next() {
					got.push(x.map(|r| r.data.bytes()).map_err(E::from));
				}
				Ok::<(), E>(())
			});
			match r {
				Err(p) => check!(plan.panic_at.is_some() && p.message.contains("scheduled"), "{} {p}", what()),
				Ok(r) => {
					check!(r.is_ok(), "{} gave {r:?}", what());
					let bad = |first: u64| plan.fail_at.is_some_and(|x| (first..first + leaves).contains(&x));
					let want = |first: u64, d: &[u8]| if bad(first) { Err(E::from(custom_error())) } else { Ok(d.to_vec()) };
					// After a failure, creation numbers no longer reach the scheduled position twice.
					let expect = vec![want(0, &a), if bad(0) { got.get(1).cloned().unwrap_or(Ok(vec![])) } else { want(leaves, &b) }];
					check!(got == expect, "{} gave {got:?} instead of {expect:?}", what());
				},
			}
			balance(0, &what())?;
			c.eval(1);
			if at == total {
				break;
			}
		}
	}
	// Sending: borrowed values are encoded, never dropped.
	reset(Plan {
		leaves: total,
		fail_at: None,
		panic_at: None,
	});
	let port = SimPort::default();
	let mut cl = client(&port, 64, 8192);
	let values = vec![SyncWriteData { motor_id: 3, data: T::make(&a) }, SyncWriteData { motor_id: 4, data: T::make(&b) }];
	let r = guard(|| cl.sync_write(0x1234, &values)).map_err(|e| format!("sync_write of {name} {e}"))?;
	check!(r.is_ok(), "sync_write of {name} gave {r:?}");
	let mut p = vec![0x34, 0x12, size as u8, (size >> 8) as u8, 3];
	p.extend_from_slice(&a);
	p.push(4);
	p.extend_from_slice(&b);
	check_frame(&port.take_events(), &Pkt::new(254, inst::SYNC_WRITE, p)).map_err(|e| format!("sync_write of {name}: {e}"))?;
	balance(total, &format!("sync_write of borrowed {name}"))?;
	drop(values);
	let r = guard(|| {
		cl.sync_write(
			0x1234,
			vec![SyncWriteData { motor_id: 3, data: T::make(&a) }, SyncWriteData { motor_id: 4, data: T::make(&b) }],
		)
	})
	.map_err(|e| format!("sync_write of {name} {e}"))?;
	check!(r.is_ok(), "sync_write of {name} gave {r:?}");
	balance(0, &format!("sync_write of owned {name}"))?;
	// An element that can not be encoded: nothing is sent.
	if leaves > 0 {
		let v = T::make(&a);
		port.take_events();
		reg(|r| r.encode_fail_at = Some(r.encoded + 1));
		let r = guard(|| cl.write(1, 5, &v).map(|_| ())).map_err(|e| format!("write of {name} {e}"))?;
		check!(r.is_err(), "write of {name} that can not be encoded succeeded");
		check!(port.writes().is_empty(), "write of {name} that can not be encoded sent something");
	}
	c.distinct(mix(hash_bytes(hash_str(2, name), &a)));
	Ok(())
}

macro_rules! big_types {
	($c:expr, $i:expr, $($t:ty),* $(,)?) => {{
		let tests: &[(&str, usize, fn(&[u8], &[usize], &str) -> Result<(), String>)] = &[$((stringify!($t), <$t as Val>::SIZE, roundtrip::<$t>)),*];
		let (name, size, f) = tests[($i % tests.len() as u64) as usize];
		let bytes = if $c.rng.chance(1, 2) { $c.rng.content(size) } else { $c.rng.bytes(size) };
		let lens = lengths(&mut $c.rng, size);
		f(&bytes, &lens, name)?;
		$c.eval(lens.len() as u64 * 3);
		$c.distinct(mix(hash_bytes(hash_str(3, name), &bytes)));
	}};
}

macro_rules! watched_types {
	($f:ident, $c:expr, $i:expr, $($t:ty => $n:expr),* $(,)?) => {{
		let tests: &[(&str, u64, fn(&mut Case, u64, &str) -> Result<(), String>)] = &[$((stringify!($t), $n, $f::<$t>)),*];
		let (name, leaves, f) = tests[($i % tests.len() as u64) as usize];
		f($c, leaves, name)
	}};
}

pub fn run(r: &Run) {
	let step = if cfg!(miri) { 97 } else { 1 };
	r.exhaustive("all_8_bit", 256, |c, i| {
		let b = [i as u8];
		roundtrip::<u8>(&b, &[0, 1, 2, 5], "u8")?;
		roundtrip::<i8>(&b, &[0, 1, 2, 5], "i8")?;
		c.eval(8);
		c.distinct(mix(i));
		Ok(())
	});
	r.exhaustive("all_16_bit", 65_536 / step, |c, i| {
		let b = ((i * step) as u16).to_le_bytes();
		roundtrip::<u16>(&b, &[0, 1, 2, 3], "u16")?;
		roundtrip::<i16>(&b, &[0, 1, 2, 3], "i16")?;
		c.eval(8);
		c.distinct(mix(i));
		Ok(())
	});
	r.section("values", 6_000, |c, i| {
		let ty = Ty::ALL[(i % Ty::ALL.len() as u64) as usize];
		let size = ty.size();
		let bytes = match c.rng.below(5) {
			0 => vec![0; size],
			1 => vec![0xFF; size],
			2 => {
				let mut v = vec![0; size];
				if size > 0 {
					let k = c.rng.usize(size);
					v[k] = 1 << c.rng.usize(8);
				}
				v
			},
			3 => {
				let mut v = vec![0; size];
				if size > 0 {
					v[size - 1] = 0x80;
				}
				v
			},
			_ => c.rng.bytes(size),
		};
		let lens = lengths(&mut c.rng, size);
		dispatch!(ty, T => roundtrip::<T>(&bytes, &lens, std::any::type_name::<T>()))?;
		c.sample(|| format!("{ty:?} from {}", hex(&bytes)));
		c.eval(lens.len() as u64 * 3);
		c.distinct(mix(hash_bytes(hash_str(0, &format!("{ty:?}")), &bytes)));
		Ok(())
	});
	r.section("arrays", 600, |c, i| {
		big_types!(
			c, i, [u8; 2], [i8; 5], [u16; 1], [i16; 7], [u32; 5], [i32; 2], [u64; 3], [i64; 4], [u128; 16], [i128; 1], [u8; 255], [u8; 256],
			[u8; 257], [u16; 300], [[u32; 5]; 7], [[u8; 3]; 0], [[u8; 0]; 3], [[[i16; 2]; 3]; 4], [[u128; 1]; 2], [[[[u8; 2]; 2]; 2]; 2],
			[u32; 64], [[u64; 8]; 8], [u8; 4096], [[u8; 256]; 2], [[u8; 300]; 3], [[u16; 200]; 4], [[[u32; 40]; 3]; 5], [[u64; 129]; 3], [[u8; 5000]; 3]
		);
		Ok(())
	});
	if !cfg!(miri) {
		r.section("largest", 8, |c, i| {
			big_types!(c, i, [u8; 65_535], [u16; 32_767], [[u8; 255]; 257], [u128; 4095]);
			Ok(())
		});
	}
	r.section("elements", 340, |c, i| {
		watched_types!(
			decode_all, c, i, Boxed => 1, [Boxed; 0] => 0, [Boxed; 1] => 1, [Boxed; 2] => 2, [Boxed; 7] => 7, [Boxed; 33] => 33, [Text; 5] => 5,
			[Wide; 4] => 4, [Small; 17] => 17, [Blank; 6] => 6, [Zst; 5] => 5, [Zst; 0] => 0, [[Boxed; 3]; 4] => 12, [[[Text; 2]; 2]; 3] => 12,
			[[Wide; 1]; 5] => 5, [[Zst; 2]; 3] => 6, [[Small; 0]; 4] => 0
		)
	});
	r.section("client_elements", 100, |c, i| {
		watched_types!(
			client_all, c, i, Boxed => 1, [Boxed; 3] => 3, [Text; 4] => 4, [Wide; 3] => 3, [[Boxed; 2]; 2] => 4, [Zst; 3] => 3, [Small; 9] => 9,
			[[Text; 1]; 3] => 3, [Boxed; 0] => 0
		)
	});
	// Values over the bus: a reply of any other length than the type's is refused.
	r.section("wrong_reply_length", 2_000, |c, i| {
		let ty = Ty::ALL[(i % Ty::ALL.len() as u64) as usize];
		let size = ty.size();
		let len = match c.rng.below(4) {
			0 => size,
			1 => size + 1,
			2 => size.saturating_sub(1),
			_ => c.rng.usize(size * 2 + 2),
		};
		let data = c.rng.content(len);
		let port = SimPort::default();
		port.reply_with(vec![Pkt::status(9, 0, &data).frame()]);
		let mut cl = client(&port, 512, 64);
		let got = guard(|| dispatch!(ty, T => cl.read::<T>(9, 100).map(|r| r.data.le_bytes()).map_err(E::from)))
			.map_err(|e| format!("read of {ty:?} answered by {len} bytes {e}"))?;
		if len == size {
			check!(got.as_ref() == Ok(&data), "read of {ty:?} answered by {} gave {got:?}", hex(&data));
		} else {
			check!(
				got == Err(E::Count {
					actual: len,
					expected: Expect::Exact(size)
				}),
				"read of {ty:?} answered by {len} bytes gave {got:?}"
			);
		}
		c.distinct(mix(hash_bytes(i % Ty::ALL.len() as u64, &data)));
		Ok(())
	});
}
