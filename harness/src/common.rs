//! Helpers shared by the property monitors.

use crate::ctx::{hex, Panicked};
use crate::ops::{Drive, Expect, Op, Outcome, Reply, Wait, E};
use crate::port::{junk_buffer, Core, Ev, SimPort};
use crate::proto::{self, Pkt};
use dynamixel2::{Client, Device};

pub type Cl = Client<SimPort, Vec<u8>>;
pub type Dv = Device<SimPort, Vec<u8>>;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub fn client(port: &SimPort, rbuf: usize, wbuf: usize) -> Cl {
	client_junk(port, rbuf, wbuf, 7)
}

pub fn client_junk(port: &SimPort, rbuf: usize, wbuf: usize, seed: u64) -> Cl {
	match Client::with_buffers(port.clone(), junk_buffer(rbuf, seed), junk_buffer(wbuf, seed + 1)) {
		Ok(c) => c,
		Err(e) => panic!("LIBRARY: can not create a client: {e}"),
	}
}

pub fn device(port: &SimPort, rbuf: usize, wbuf: usize) -> Dv {
	match Device::with_buffers(port.clone(), junk_buffer(rbuf, 17), junk_buffer(wbuf, 18)) {
		Ok(c) => c,
		Err(e) => panic!("LIBRARY: can not create a device: {e}"),
	}
}

pub fn run_op(c: &mut Cl, op: &Op, drive: Drive) -> Result<Outcome, Panicked> {
	crate::ctx::guard(|| op.run(c, drive))
}

pub fn must<T>(r: Result<T, Panicked>, what: impl FnOnce() -> String) -> Result<T, String> {
	r.map_err(|p| format!("{} {p}", what()))
}

/// Check that the events contain exactly one successful write, and return it.
pub fn one_write(events: &[Ev]) -> Result<Vec<u8>, String> {
	let writes: Vec<&Vec<u8>> = events
		.iter()
		.filter_map(|e| match e {
			Ev::Write { bytes, .. } => Some(bytes),
			_ => None,
		})
		.collect();
	match writes[..] {
		[one] => Ok(one.clone()),
		_ => Err(format!(
			"{} writes instead of one: {:?}",
			writes.len(),
			writes.iter().map(|w| hex(w)).collect::<Vec<_>>()
		)),
	}
}

/// Check that exactly one frame was written that carries exactly `expect`, encoded canonically.
pub fn check_frame(events: &[Ev], expect: &Pkt) -> Result<(), String> {
	let w = one_write(events)?;
	let got = proto::decode_exact(&w).map_err(|e| format!("transmitted {}: {e}", hex(&w)))?;
	if &got != expect {
		return Err(format!(
			"transmitted ID {} instruction {:#04X} parameters [{}] instead of ID {} instruction {:#04X} parameters [{}]",
			got.id,
			got.instruction,
			hex(&got.params),
			expect.id,
			expect.instruction,
			hex(&expect.params)
		));
	}
	if w != expect.frame() {
		return Err(format!("transmitted {} instead of {}", hex(&w), hex(&expect.frame())));
	}
	Ok(())
}

/// What a receiver of a status reply may report for this packet, given that it expects `count` parameters from `id`.
pub fn judge_reply(pkt: &Pkt, id: u8, count: Option<usize>, got: &Result<Reply, E>) -> Result<(), String> {
	let say = |what: &str| {
		Err(format!(
			"reply {pkt:?} (expected from motor {id} with {count:?} parameters) was reported as {got:?}, {what}"
		))
	};
	if !pkt.is_status() {
		return match got {
			Err(E::Inst { actual, expected: 0x55 }) if *actual == pkt.instruction => Ok(()),
			_ => say("it is an instruction packet"),
		};
	}
	if pkt.params.is_empty() {
		return match got {
			Err(E::Count {
				actual: 0,
				expected: Expect::Min(1),
			}) => Ok(()),
			_ => say("it has no error field"),
		};
	}
	let wrong_id = pkt.id != id;
	let motor_error = pkt.error() & 0x7F != 0;
	let wrong_count = count.is_some_and(|c| c != pkt.data().len());
	if !wrong_id && !motor_error && !wrong_count {
		return match got {
			Ok(r) if r.id == id && r.alert == (pkt.error() & 0x80 != 0) && r.data == pkt.data() => Ok(()),
			_ => say("it is a valid reply"),
		};
	}
	match got {
		Err(E::Id { actual, expected }) if wrong_id && *actual == pkt.id && *expected == Some(id) => Ok(()),
		Err(E::Motor(raw)) if motor_error && *raw == pkt.error() => Ok(()),
		Err(E::Count { actual, expected }) if wrong_count && *actual == pkt.data().len() && Some(*expected) == count.map(Expect::Exact) => Ok(()),
		_ => say("which names none of its defects"),
	}
}

/// The reply list a fully cooperative bus would send for this operation.
pub fn good_replies(rng: &mut crate::rng::Rng, op: &Op) -> Vec<Pkt> {
	let status = |rng: &mut crate::rng::Rng, id: u8, n: usize| {
		let alert = if rng.chance(1, 4) { 0x80 } else { 0 };
		let data = rng.content(n);
		Pkt::status(id, alert, &data)
	};
	match op.wait() {
		Wait::Nothing { .. } => vec![],
		Wait::One { id, count } => {
			let n = count.unwrap_or_else(|| rng.usize(20));
			vec![status(rng, id, n)]
		},
		Wait::Each(list) => list.iter().map(|(id, n)| status(rng, *id, *n)).collect(),
		Wait::Scan => {
			let n = rng.usize(5);
			crate::ops::distinct_ids(rng, n).into_iter().map(|id| status(rng, id, 3)).collect()
		},
	}
}

/// The outcome that cooperative replies must give.
pub fn good_outcome(op: &Op, replies: &[Pkt]) -> Outcome {
	let items = replies
		.iter()
		.map(|p| {
			Ok(Reply {
				id: p.id,
				alert: p.error() & 0x80 != 0,
				data: p.data().to_vec(),
			})
		})
		.collect();
	match op.wait() {
		Wait::Nothing { response: true } => Outcome {
			start: Ok(()),
			items: vec![Ok(Reply {
				id: proto::BROADCAST,
				alert: false,
				data: vec![],
			})],
			ended: true,
		},
		_ => Outcome {
			start: Ok(()),
			items,
			ended: true,
		},
	}
}

/// Split `bytes` in random pieces.
pub fn split(rng: &mut crate::rng::Rng, bytes: &[u8], max_piece: usize) -> Vec<Vec<u8>> {
	let mut out = vec![];
	let mut i = 0;
	while i < bytes.len() {
		let n = rng.range(1, max_piece.max(1)).min(bytes.len() - i);
		out.push(bytes[i..i + n].to_vec());
		i += n;
	}
	out
}

/// Bytes without any frame prefix in them, even if followed by a frame (so: pure noise).
pub fn noise(rng: &mut crate::rng::Rng, n: usize, followed_by: &[u8]) -> Vec<u8> {
	for _ in 0..64 {
		let v = match rng.below(3) {
			0 => rng.bytes(n),
			1 => {
				// Partial prefixes.
				let mut v = vec![];
				while v.len() < n {
					let k = rng.range(1, 3);
					v.extend_from_slice(&proto::PREFIX[..k]);
					if rng.chance(2, 3) {
						v.push(rng.u8());
					}
				}
				v.truncate(n);
				v
			},
			_ => rng.content(n),
		};
		let mut joined = v.clone();
		joined.extend_from_slice(&followed_by[..followed_by.len().min(3)]);
		if proto::find_prefix(&joined).is_none() {
			return v;
		}
	}
	(0..n).map(|_| 1 + rng.usize(200) as u8).collect()
}

pub fn push_all(core: &mut Core, chunks: &[Vec<u8>], gap: u64) {
	let mut t = 0;
	for c in chunks {
		core.push(t, c.clone());
		t += gap;
	}
}

pub fn op_text(op: &Op) -> String {
	let mut s = format!("{op:?}");
	if s.len() > 400 {
		let mut n = 400;
		while !s.is_char_boundary(n) {
			n -= 1;
		}
		s.truncate(n);
		s.push('…');
	}
	s
}
