//! C19: the checksum function is CRC-16 0x8005 and composes over blocks.

use crate::check;
use crate::ctx::{guard, hex, Run};
use crate::proto;
use crate::rng::{hash_bytes, mix};
use dynamixel2::checksum::calculate_checksum;

pub const RULE: &str = "every (initial value, byte) pair exhaustively, every initial value with empty data, every two byte string, and random data up to 70000 bytes with random initial values and splits, against a bitwise reference; distinct by (initial value, data, split)";

fn real(init: u16, data: &[u8]) -> Result<u16, String> {
	guard(|| calculate_checksum(init, data)).map_err(|e| format!("the checksum of {} from {init:#06X} {e}", hex(data)))
}

fn same(init: u16, data: &[u8]) -> Result<u16, String> {
	let got = real(init, data)?;
	let want = proto::crc_from(init, data);
	check!(
		got == want,
		"the checksum of [{}] ({} bytes) from {init:#06X} is {got:#06X} instead of {want:#06X}",
		hex(data),
		data.len()
	);
	Ok(got)
}

pub fn run(r: &Run) {
	let all = if cfg!(miri) { 64 } else { 65_536 };
	r.exhaustive("single_steps", all, |c, i| {
		let init = i as u16;
		check!(real(init, &[])? == init, "the checksum of no data from {init:#06X} is {:#06X}", real(init, &[])?);
		for b in 0..=255 {
			same(init, &[b])?;
		}
		c.eval(257);
		c.count("single_steps", 256);
		c.distinct(mix(i));
		Ok(())
	});
	r.exhaustive("two_bytes", all, |c, i| {
		let d = (i as u16).to_le_bytes();
		let whole = same(0, &d)?;
		check!(real(real(0, &d[..1])?, &d[1..])? == whole, "the checksum of {} does not compose", hex(&d));
		c.distinct(mix(i));
		Ok(())
	});
	// Alignment, every length up to a few cache lines, and all splits.
	r.section("lengths", 300, |c, i| {
		let n = i as usize;
		let style = c.rng.below(3);
		let mut data = match style {
			0 => c.rng.bytes(n + 8),
			1 => c.rng.content(n + 8),
			_ => vec![*c.rng.pick(&[0u8, 0xFF, 0x80, 1]); n + 8],
		};
		data.truncate(n + 8);
		for offset in 0..8 {
			let init = if offset == 0 { 0 } else { c.rng.u16() };
			let d = &data[offset..offset + n];
			let whole = same(init, d)?;
			for at in 0..=n {
				let composed = real(real(init, &d[..at])?, &d[at..])?;
				check!(
					composed == whole,
					"checksumming {} bytes from {init:#06X} in blocks of {at} and {} gives {composed:#06X} instead of {whole:#06X}",
					n,
					n - at
				);
			}
			c.eval(1 + n as u64);
			c.distinct(mix(hash_bytes(u64::from(init) << 8 | offset as u64, d)));
		}
		c.count("splits", 8 * (n as u64 + 1));
		Ok(())
	});
	r.section("large", 200, |c, i| {
		let n = match i % 4 {
			0 if i % 16 == 0 => c.rng.range(70_000, 1 << if cfg!(miri) { 17 } else { 20 }),
			0 => c.rng.usize(70_000),
			1 => *c.rng.pick(&[65_535usize, 65_536, 65_537, 65_542, 70_000, 32_767, 32_768, 4096, 1024]),
			_ => c.rng.usize(5000),
		};
		let data = if c.rng.chance(1, 2) { c.rng.bytes(n) } else { c.rng.content(n) };
		let init = if c.rng.chance(1, 3) { 0 } else { c.rng.u16() };
		let whole = same(init, &data)?;
		// In random blocks, including empty ones.
		let (mut at, mut sum, mut blocks) = (0, init, 0u64);
		while at < n {
			let k = match c.rng.below(4) {
				0 => 0,
				1 => 1,
				2 => c.rng.usize(300),
				_ => c.rng.usize(n - at + 1),
			}
			.min(n - at);
			sum = real(sum, &data[at..at + k])?;
			at += k;
			blocks += 1;
		}
		check!(
			sum == whole,
			"checksumming {n} bytes from {init:#06X} in {blocks} blocks gives {sum:#06X} instead of {whole:#06X}"
		);
		// A checksum followed by itself gives zero.
		let mut with = data.clone();
		with.extend_from_slice(&whole.to_be_bytes());
		check!(real(init, &with)? == 0, "{n} bytes followed by their checksum do not give zero");
		c.count("blocks", blocks);
		c.eval(3);
		c.distinct(mix(hash_bytes(u64::from(init), &data)));
		c.sample(|| format!("{n} bytes from {init:#06X} in {blocks} blocks: {whole:#06X}"));
		Ok(())
	});
}
