//! C25: errors carry the true facts and keep their kind through conversions.

use crate::check;
use crate::ctx::{guard, Case, Run};
use crate::ops::{Expect, E};
use crate::port::{Kind, SimError};
use crate::rng::{hash_str, mix, Rng};
use dynamixel2::*;
use std::fmt::{Debug, Display};

pub const RULE: &str = "every check function over all byte pairs and boundary sizes, every conversion between error types, and every text, for random and boundary field values; distinct by (error type, field values)";

type RE = ReadError<SimError>;
type WE = WriteError<SimError>;
type TE = TransferError<SimError>;

/// Every number in a text, decimal or hexadecimal, with the word before it.
fn numbers(text: &str) -> Vec<(String, Vec<u128>)> {
	let mut out = vec![];
	let mut word = String::new();
	for token in text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|t| !t.is_empty()) {
		let mut values = vec![];
		if let Some(hex) = token.strip_prefix("0x") {
			values.extend(u128::from_str_radix(hex, 16).ok());
		} else {
			values.extend(token.parse::<u128>().ok());
			if token.len() == 2 {
				values.extend(u128::from_str_radix(token, 16).ok());
			}
		}
		if values.is_empty() {
			word = token.to_ascii_lowercase();
		} else {
			out.push((word.clone(), values));
		}
	}
	out
}

fn shows(text: &str, value: u128) -> bool {
	numbers(text).iter().any(|(_, v)| v.contains(&value))
}

/// Each fact is named by words that may precede it: if one of them precedes any number of the text, that must be the
/// fact (the texts do not have to use these words).
fn facts(text: &str, list: &[(&[&str], u128)]) -> Result<(), String> {
	let n = numbers(text);
	for (words, value) in list {
		check!(shows(text, *value), "the text {text:?} does not show the value {value} ({value:#X})");
		for (word, values) in &n {
			if words.contains(&word.as_str()) {
				check!(values.contains(value), "the text {text:?} shows {values:?} as {word:?} instead of {value} ({value:#X})");
			}
		}
	}
	Ok(())
}

/// Text of an error in its specific and every more general form.
fn same_text(list: &[&dyn Display]) -> Result<String, String> {
	let texts: Vec<String> = list.iter().map(|e| e.to_string()).collect();
	check!(texts.iter().all(|t| *t == texts[0]), "the text of one error differs between its types: {texts:?}");
	check!(!texts[0].is_empty(), "an error has no text");
	Ok(texts[0].clone())
}

fn is<T: Debug + PartialEq>(got: T, want: T, what: &str) -> Result<(), String> {
	check!(got == want, "{what} gave {got:?} instead of {want:?}");
	Ok(())
}

/// An `InvalidMessage` specific error in all its forms.
fn message<T>(e: T, expect: E, list: &[(&[&str], u128)]) -> Result<(), String>
where
	T: Clone + Display + Debug + PartialEq + Into<InvalidMessage> + Into<RE> + Into<TE>,
{
	let general: InvalidMessage = e.clone().into();
	let read: RE = e.clone().into();
	let transfer: TE = e.clone().into();
	let read2: RE = general.clone().into();
	let transfer2: TE = general.clone().into();
	let transfer3: TE = RE::from(general.clone()).into();
	let text = same_text(&[&e, &general, &read, &transfer, &read2, &transfer2, &transfer3])?;
	facts(&text, list)?;
	check!(matches!(&read, ReadError::InvalidMessage(m) if *m == general), "{e:?} converts into {read:?}");
	check!(matches!(&read2, ReadError::InvalidMessage(m) if *m == general), "{general:?} converts into {read2:?}");
	for t in [&transfer, &transfer2, &transfer3] {
		check!(
			matches!(t, TransferError::ReadError(ReadError::InvalidMessage(m)) if *m == general),
			"{e:?} converts into {t:?}"
		);
	}
	is(E::from(general), expect.clone(), "converting into InvalidMessage")?;
	is(E::from(read), expect.clone(), "converting into ReadError")?;
	is(E::from(transfer), expect.clone(), "converting into TransferError")?;
	is(E::from(read2), expect.clone(), "converting InvalidMessage into ReadError")?;
	is(E::from(transfer2), expect.clone(), "converting InvalidMessage into TransferError")?;
	is(E::from(transfer3), expect, "converting ReadError into TransferError")
}

fn sizes(rng: &mut Rng) -> usize {
	match rng.below(4) {
		0 => rng.usize(20),
		1 => *rng.pick(&[0, 1, 127, 128, 255, 256, 65_535, 65_536, 65_542, usize::MAX, usize::MAX - 1]),
		2 => rng.usize(70_000),
		_ => rng.u64() as usize,
	}
}

/// A pair of sizes, often equal or adjacent.
fn size_pair(rng: &mut Rng) -> (usize, usize) {
	let a = sizes(rng);
	match rng.below(4) {
		0 => (a, a),
		1 => (a, a.wrapping_add(1)),
		2 => (a.wrapping_add(1), a),
		_ => (a, sizes(rng)),
	}
}

fn counts(c: &mut Case) -> Result<(), String> {
	let (a, b) = size_pair(&mut c.rng);
	let run = |what: &str, f: fn(usize, usize) -> Result<(), InvalidParameterCount>, ok: bool, expected: ExpectedCount| {
		let got = guard(|| f(a, b)).map_err(|e| format!("{what}({a}, {b}) {e}"))?;
		let want = if ok {
			Ok(())
		} else {
			Err(InvalidParameterCount {
				actual: a,
				expected: expected.clone(),
			})
		};
		check!(got == want, "{what}({a}, {b}) gave {got:?} instead of {want:?}");
		if let Err(e) = got {
			let (expect, word) = match expected {
				ExpectedCount::Exact(n) => (Expect::Exact(n), ["exactly", "expected"]),
				ExpectedCount::Max(n) => (Expect::Max(n), ["most", "expected"]),
				ExpectedCount::Min(n) => (Expect::Min(n), ["least", "expected"]),
			};
			message(e, E::Count { actual: a, expected: expect }, &[(&word, b as u128), (&["got", "actual"], a as u128)])?;
		}
		Ok(())
	};
	run("InvalidParameterCount::check", InvalidParameterCount::check, a == b, ExpectedCount::Exact(b))?;
	run("InvalidParameterCount::check_max", InvalidParameterCount::check_max, a <= b, ExpectedCount::Max(b))?;
	run("InvalidParameterCount::check_min", InvalidParameterCount::check_min, a >= b, ExpectedCount::Min(b))?;
	// The three kinds of expectation can be told apart.
	let text = |expected| {
		InvalidParameterCount {
			actual: a,
			expected,
		}
		.to_string()
	};
	let (x, y, z) = (text(ExpectedCount::Exact(b)), text(ExpectedCount::Max(b)), text(ExpectedCount::Min(b)));
	check!(x != y && y != z && x != z, "the texts of different parameter count errors are the same: {x:?} {y:?} {z:?}");
	// Buffer sizes: required, total.
	let got = guard(|| BufferTooSmallError::check(a, b)).map_err(|e| format!("BufferTooSmallError::check({a}, {b}) {e}"))?;
	match got {
		Ok(()) => check!(a <= b, "BufferTooSmallError::check({a}, {b}) succeeded"),
		Err(e) => {
			check!(
				a > b && e.required_size == a && e.total_size == b,
				"BufferTooSmallError::check({a}, {b}) gave {e:?}"
			);
			let list: &[(&[&str], u128)] = &[(&["need", "needs", "required"], a as u128), (&["is", "only", "total", "size"], b as u128)];
			let mk = || BufferTooSmallError {
				required_size: a,
				total_size: b,
			};
			facts(&e.to_string(), list)?;
			let (w, r): (WE, RE) = (mk().into(), mk().into());
			facts(&w.to_string(), list)?;
			facts(&r.to_string(), list)?;
			let (tw, tr): (TE, TE) = (WE::from(mk()).into(), RE::from(mk()).into());
			same_text(&[&w, &tw])?;
			same_text(&[&r, &tr])?;
			check!(matches!(tw, TransferError::WriteError(WriteError::BufferTooSmall(_))), "a write buffer error converts into {tw:?}");
			check!(matches!(tr, TransferError::ReadError(ReadError::BufferFull(_))), "a read buffer error converts into {tr:?}");
			check!(w.to_string() != r.to_string(), "read and write buffer errors have the same text {w}");
			is(E::from(w), E::WriteTooSmall { required: a, total: b }, "converting into WriteError")?;
			is(E::from(r), E::ReadTooSmall { required: a, total: b }, "converting into ReadError")?;
			is(E::from(tw), E::WriteTooSmall { required: a, total: b }, "converting into TransferError")?;
			is(E::from(tr), E::ReadTooSmall { required: a, total: b }, "converting into TransferError")?;
		},
	}
	c.distinct(mix(hash_str(1, &format!("{a} {b}"))));
	c.eval(4);
	Ok(())
}

fn port_errors(c: &mut Case) -> Result<(), String> {
	let mk = |kind: Kind, id: u64| SimError { id, kind };
	let id = 1_000_000 + c.rng.below(9_000_000);
	let kind = *c.rng.pick(&[Kind::Timeout, Kind::Other]);
	let text = mk(kind, id).to_string();
	let discard = || WE::DiscardBuffer(mk(kind, id));
	let write = || WE::Write(mk(kind, id));
	let read = || RE::Io(mk(kind, id));
	let (td, tw, tr): (TE, TE, TE) = (discard().into(), write().into(), read().into());
	let a = same_text(&[&discard(), &td])?;
	let b = same_text(&[&write(), &tw])?;
	let r = same_text(&[&read(), &tr])?;
	for t in [&a, &b, &r] {
		check!(t.contains(&text), "the text {t:?} does not show the error of the port: {text:?}");
	}
	check!(a != b && b != r && a != r, "failures of different port calls have the same text: {a:?} {b:?} {r:?}");
	is(E::from(td), E::Discard(mk(kind, id)), "converting a discard failure")?;
	is(E::from(tw), E::Write(mk(kind, id)), "converting a write failure")?;
	is(E::from(tr), E::Io(mk(kind, id)), "converting a read failure")?;
	c.distinct(mix(id << 1 | (kind == Kind::Other) as u64));
	Ok(())
}

pub fn run(r: &Run) {
	let step = if cfg!(miri) { 251 } else { 1 };
	r.exhaustive("bytes", 65_536 / step, |c, i| {
		let i = i * step;
		let (a, b) = (i as u8, (i >> 8) as u8);
		let list: &[(&[&str], u128)] = &[(&["expected"], u128::from(b)), (&["got", "actual"], u128::from(a))];
		let id = InvalidPacketId {
			actual: a,
			expected: Some(b),
		};
		let got = InvalidPacketId::check(a, b);
		is(got, if a == b { Ok(()) } else { Err(id.clone()) }, &format!("InvalidPacketId::check({a}, {b})"))?;
		let got = InvalidPacketId::check_ignore_broadcast(a, b);
		let ok = a == b || b == 254;
		is(
			got,
			if ok { Ok(()) } else { Err(id.clone()) },
			&format!("InvalidPacketId::check_ignore_broadcast({a}, {b})"),
		)?;
		message(id, E::Id { actual: a, expected: Some(b) }, list)?;
		let inst = InvalidInstruction { actual: a, expected: b };
		let got = InvalidInstruction::check(a, b);
		is(got, if a == b { Ok(()) } else { Err(inst.clone()) }, &format!("InvalidInstruction::check({a}, {b})"))?;
		message(inst, E::Inst { actual: a, expected: b }, list)?;
		if b == 0 {
			let e = InvalidPacketId { actual: a, expected: None };
			message(e, E::Id { actual: a, expected: None }, &[(&["got", "actual"], u128::from(a))])?;
		}
		c.eval(5);
		c.distinct(mix(i));
		Ok(())
	});
	r.exhaustive("motor_errors", 256, |c, i| {
		let raw = i as u8;
		let got = MotorError::check(raw);
		let want = if raw & 0x7F == 0 { Ok(()) } else { Err(MotorError { raw }) };
		is(got, want, &format!("MotorError::check({raw:#04X})"))?;
		let e = MotorError { raw };
		is(e.error_number(), raw & 0x7F, &format!("the error number of {raw:#04X}"))?;
		is(e.alert(), raw >= 0x80, &format!("the alert bit of {raw:#04X}"))?;
		let (r1, t1): (RE, TE) = (e.clone().into(), e.clone().into());
		let t2: TE = RE::from(e.clone()).into();
		facts(&same_text(&[&e, &r1, &t1, &t2])?, &[(&["status"], u128::from(raw))])?;
		let debug = format!("{e:?}");
		check!(
			shows(&debug, u128::from(raw & 0x7F)) || shows(&debug, u128::from(raw)),
			"the debug text {debug:?} of motor error {raw:#04X} does not show it"
		);
		is(E::from(r1), E::Motor(raw), "converting a motor error into ReadError")?;
		is(E::from(t1), E::Motor(raw), "converting a motor error into TransferError")?;
		is(E::from(t2), E::Motor(raw), "converting a motor error into TransferError")?;
		c.distinct(mix(i));
		Ok(())
	});
	r.section("counts", 20_000, |c, _| counts(c));
	r.section("checksums", 5_000, |c, _| {
		let e = InvalidChecksum {
			message: c.rng.addr(),
			computed: c.rng.addr(),
		};
		let (m, k) = (e.message, e.computed);
		c.sample(|| format!("{e:?}: {e}"));
		message(
			e,
			E::Checksum { message: m, computed: k },
			&[(&["claims", "message"], u128::from(m)), (&["computed"], u128::from(k))],
		)?;
		c.distinct(mix(u64::from(m) << 16 | u64::from(k)));
		Ok(())
	});
	r.section("prefixes", 5_000, |c, _| {
		let rng = &mut c.rng;
		let mut expected: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
		if rng.chance(1, 2) {
			expected = std::array::from_fn(|_| rng.u8());
		}
		let mut actual = expected;
		if rng.chance(4, 5) {
			let k = rng.usize(4);
			actual[k] = rng.u8();
		}
		if rng.chance(1, 5) {
			actual = std::array::from_fn(|_| rng.u8());
		}
		let e = InvalidHeaderPrefix { actual, expected };
		let got = guard(|| InvalidHeaderPrefix::check(&actual, expected)).map_err(|e| format!("InvalidHeaderPrefix::check {e}"))?;
		is(
			got,
			if actual == expected { Ok(()) } else { Err(e.clone()) },
			&format!("InvalidHeaderPrefix::check({actual:02X?}, {expected:02X?})"),
		)?;
		let facts: Vec<(&[&str], u128)> = actual.iter().chain(&expected).map(|b| (&[][..], u128::from(*b))).collect();
		message(e.clone(), E::Prefix(actual, expected), &facts)?;
		// Whichever comes first in the text, the two prefixes are shown as such.
		let n: Vec<Vec<u128>> = numbers(&e.to_string()).into_iter().map(|x| x.1).collect();
		let shows = |p: [u8; 4]| n.windows(4).any(|w| w.iter().zip(p).all(|(v, b)| v.contains(&u128::from(b))));
		check!(shows(actual) && shows(expected), "the text \"{e}\" does not show the prefixes {actual:02X?} and {expected:02X?}");
		let after = |word: &str| {
			let t = e.to_string();
			t.split_once(word).and_then(|x| {
				let v: Vec<Vec<u128>> = numbers(x.1).into_iter().take(4).map(|x| x.1).collect();
				(v.len() == 4).then_some(v)
			})
		};
		for (word, p) in [("expected", expected), ("got", actual)] {
			if let Some(v) = after(word) {
				check!(
					v.iter().zip(p).all(|(v, b)| v.contains(&u128::from(b))),
					"the text \"{e}\" shows another prefix than {p:02X?} as {word:?}"
				);
			}
		}
		c.distinct(mix(hash_str(0, &format!("{e:?}"))));
		Ok(())
	});
	r.section("port_errors", 2_000, |c, _| port_errors(c));
}
