//! C21: the serial2 backend on real (pseudo) terminals, in real time.
//!
//! Times are judged so that a busy machine can not raise an alarm: waiting too short is a violation at once, waiting
//! too long or missing data only if it happens in every one of many attempts.

use crate::common::*;
use crate::ctx::{guard, hex, Case, Run};
use crate::ops::{random_op, Drive, Op, Outcome, Via, E};
use crate::port::{Kind, SimError};
use crate::proto::Pkt;
use crate::rng::{hash_bytes, hash_str, Rng};
use crate::rx::{dec, decode_ref};
use crate::{check, fail};
use dynamixel2::serial2::SerialPort as Serial2;
use dynamixel2::{Client, Device, SerialPort};
use crate::pty::{pty, Pty};
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub const RULE: &str = "pseudo terminals: deadlines past and future, data before, during and after the wait, reads interrupted by signals, baud rates read back by ioctl, raw mode, input discard with unread output, every byte value in both directions against a slow peer, foreign errors, and all client and device operations end to end; distinct by timing class, baud rate, transferred bytes and operation";

// ---- Pseudo terminals -----------------------------------------------------------------------------------------------

fn open(p: &Pty, baud: u32) -> Result<Serial2, String> {
		match guard(|| Client::open(&p.path, baud)) {
			Ok(Ok(c)) => Ok(c.into_serial_port()),
			Ok(Err(e)) => Err(format!("can not open a pseudo terminal at {baud} baud: {e}")),
			Err(e) => Err(format!("opening a pseudo terminal {e}")),
		}
	}

// The backend, through the trait.

fn read(port: &mut Serial2, n: usize, timeout: Duration) -> Result<std::io::Result<Vec<u8>>, String> {
	let mut buf = vec![0xA5; n];
	let r = guard(|| {
		let deadline = port.make_deadline(timeout);
		SerialPort::read(port, &mut buf, &deadline)
	});
	finish(r, buf)
}

fn finish(r: Result<std::io::Result<usize>, crate::ctx::Panicked>, mut buf: Vec<u8>) -> Result<std::io::Result<Vec<u8>>, String> {
	match r.map_err(|p| format!("reading {p}"))? {
		Ok(k) => {
			check!(k <= buf.len(), "a read into {} bytes returned {k}", buf.len());
			check!(buf[k..].iter().all(|b| *b == 0xA5), "a read that returned {k} bytes wrote beyond them");
			buf.truncate(k);
			Ok(Ok(buf))
		},
		Err(e) => Ok(Err(e)),
	}
}

fn timed_out(r: &std::io::Result<Vec<u8>>) -> bool {
	matches!(r, Err(e) if Serial2::is_timeout_error(e))
}

/// Try until `f` is within its limits once. Returns the last complaint if it never is.
fn attempts(c: &mut Case, mut f: impl FnMut(&mut Case) -> Result<Result<(), String>, String>) -> Result<(), String> {
	let mut last = String::new();
	for n in 0..25 {
		match f(c)? {
			Ok(()) => return Ok(()),
			Err(e) => last = e,
		}
		c.count("repeated_attempts", 1);
		std::thread::sleep(Duration::from_millis(10 * n));
	}
	Err(format!("{last} (in each of 25 attempts)"))
}

const SLACK: Duration = Duration::from_millis(15);
const SHORT: Duration = Duration::from_millis(2);

/// Nothing arrives: the read ends at the deadline, with a timeout.
fn silence(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 57600)?;
	let wait = Duration::from_micros(*c.rng.pick(&[0, 1, 300, 999, 1000, 1500, 5000, 20_000, 60_000, 150_000]));
	let used = match i % 4 {
		0 => Duration::ZERO,
		1 => wait / 2,
		2 => wait + Duration::from_millis(2),
		_ => wait * 9 / 10,
	};
	let n = *c.rng.pick(&[1, 2, 100]);
	attempts(c, |_| {
		let mut buf = vec![0xA5; n];
		let start = Instant::now();
		let deadline = guard(|| port.make_deadline(wait)).map_err(|p| format!("make_deadline {p}"))?;
		std::thread::sleep(used);
		let before = start.elapsed();
		let r = finish(guard(|| SerialPort::read(&mut port, &mut buf, &deadline)), buf)?;
		let total = start.elapsed();
		check!(
			timed_out(&r),
			"a read with a deadline {wait:?} ahead, without any data, returned {r:?} instead of a timeout"
		);
		check!(total + SHORT >= wait, "a read timed out {total:?} after setting a deadline {wait:?} ahead");
		let late = total.saturating_sub(wait.max(before));
		Ok(if late <= SLACK {
			Ok(())
		} else {
			Err(format!("a read with a deadline {wait:?} ahead, {before:?} of which had passed, returned {late:?} late"))
		})
	})?;
	c.eval(1);
	c.count("timeouts", 1);
	c.count(if used > wait { "deadline_passed" } else { "deadline_ahead" }, 1);
	c.distinct(hash_str(n as u64, &format!("{wait:?} {used:?}")));
	c.sample(|| format!("deadline {wait:?} ahead, {used:?} passed before reading: timed out in time"));
	Ok(())
}

/// The same with the long waits of scans and slow lines; sometimes data arrives late in the wait.
fn long_wait(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 9600)?;
	let wait = Duration::from_millis(*c.rng.pick(&[300, 400, 600, 1100, 1700, 2600]));
	if i % 2 == 0 {
		let start = Instant::now();
		let r = read(&mut port, 10, wait)?;
		let total = start.elapsed();
		check!(timed_out(&r), "a read with a deadline {wait:?} ahead, without any data, returned {r:?} instead of a timeout");
		check!(total + SHORT >= wait, "a read timed out {total:?} after setting a deadline {wait:?} ahead");
		c.count("long_timeouts", 1);
	} else {
		let data = c.rng.bytes(5);
		attempts(c, |c| {
			let deadline = port.make_deadline(wait);
			let start = Instant::now();
			let at = wait * c.rng.range(3, 8) as u32 / 10;
			let mut got = vec![];
			let r = std::thread::scope(|s| {
				s.spawn(|| {
					std::thread::sleep(at);
					(&p.master).write_all(&data).unwrap();
				});
				let mut first = None;
				while got.len() < data.len() {
					let mut buf = vec![0xA5; 10];
					let r = finish(guard(|| SerialPort::read(&mut port, &mut buf, &deadline)), buf)?;
					let took = start.elapsed();
					match r {
						Ok(d) => {
							first.get_or_insert(took);
							got.extend(d)
						},
						Err(e) => return Ok::<_, String>(Err((e, took))),
					}
				}
				Ok(Ok(first.unwrap_or_default()))
			})?;
			Ok(match r {
				Ok(took) => {
					check!(got == data, "{data:02X?} were read as {got:02X?}");
					check!(took + SHORT >= at, "bytes that were sent after {at:?} were read after {took:?}");
					Ok(())
				},
				Err((e, took)) => {
					check!(
						Serial2::is_timeout_error(&e) && took + SHORT >= wait,
						"a read with a deadline {wait:?} ahead failed after {took:?} with {e:?}"
					);
					// Let what was sent arrive, and drop it.
					std::thread::sleep(Duration::from_millis(20));
					let _ = port.discard_input_buffer();
					Err(format!("bytes sent {at:?} into a wait of {wait:?} did not arrive in time"))
				},
			})
		})?;
		c.count("long_arrivals", 1);
	}
	c.eval(1);
	c.distinct(hash_str(i % 2, &format!("{wait:?}")));
	Ok(())
}

/// A deadline is the given time ahead, however far.
fn deadlines(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 57600)?;
	for _ in 0..200 {
		let unit = *c.rng.pick(&[1u64, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000]);
		let wait = Duration::from_nanos(unit * c.rng.range(0, 1500) as u64);
		let before = Instant::now();
		let deadline = guard(|| port.make_deadline(wait)).map_err(|p| format!("make_deadline({wait:?}) {p}"))?;
		let after = Instant::now();
		check!(
			deadline + Duration::from_millis(1) >= before + wait && deadline <= after + wait + Duration::from_millis(1),
			"make_deadline({wait:?}) is {:?} ahead",
			deadline.saturating_duration_since(before)
		);
		c.eval(1);
		c.count("deadlines", 1);
		c.distinct(hash_str(1, &format!("{wait:?}")));
	}
	// A deadline far ahead does not keep a read from returning what arrives.
	let data = c.rng.bytes(7);
	let far = Duration::from_secs(*c.rng.pick(&[100, 5_000, 400_000, 5_000_000]));
	if i % 2 == 0 {
		p.deliver(&data);
	}
	let deadline = port.make_deadline(far);
	let mut got = vec![];
	std::thread::scope(|s| {
		if i % 2 == 1 {
			s.spawn(|| {
				std::thread::sleep(Duration::from_millis(30));
				(&p.master).write_all(&data).unwrap();
			});
		}
		while got.len() < data.len() {
			let mut buf = vec![0xA5; 10];
			let r = finish(guard(|| SerialPort::read(&mut port, &mut buf, &deadline)), buf)?;
			match r {
				Ok(d) => got.extend(d),
				Err(e) => return Err(format!("a read with a deadline {far:?} ahead failed with {e:?} before the data came")),
			}
		}
		Ok(())
	})?;
	check!(got == data, "{data:02X?} were read as {got:02X?}");
	c.count("far_reads", 1);
	Ok(())
}

/// Data is available already: it is returned at once, in order, as far as the buffer goes.
fn available(c: &mut Case, _: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 115_200)?;
	let n = c.rng.range(1, 600);
	let data = c.rng.bytes(n);
	p.deliver(&data);
	let mut got = vec![];
	while got.len() < n {
		let cap = c.rng.range(1, 200);
		let wait = *c.rng.pick(&[5, 50, 3000, 100_000]);
		let start = Instant::now();
		let r = read(&mut port, cap, Duration::from_millis(wait))?;
		let took = start.elapsed();
		match r {
			Ok(d) => {
				check!(!d.is_empty(), "a read returned no bytes although {} are available", n - got.len());
				if wait > 2000 {
					check!(took < Duration::from_millis(wait - 1000), "a read with bytes available took {took:?} (deadline {wait} ms ahead)");
				}
				got.extend(d);
			},
			// The process may have been stopped for the whole time.
			Err(e) if wait <= 50 && Serial2::is_timeout_error(&e) && took >= Duration::from_millis(wait) => c.count("stalled", 1),
			Err(e) => fail!("a read failed with {e} after {took:?} of {wait} ms with {} bytes available", n - got.len()),
		}
		check!(data.starts_with(&got), "received {} instead of {}", hex(&got), hex(&data));
	}
	// A deadline in the past loses nothing.
	let k = c.rng.range(1, 50);
	let more = c.rng.bytes(k);
	p.deliver(&more);
	let mut buf = vec![0xA5; 100];
	let deadline = port.make_deadline(Duration::ZERO);
	std::thread::sleep(Duration::from_millis(1));
	let r = finish(guard(|| SerialPort::read(&mut port, &mut buf, &deadline)), buf)?;
	let rest = match r {
		Ok(d) => d,
		Err(e) if Serial2::is_timeout_error(&e) => {
			c.count("past_deadline_with_data", 1);
			read(&mut port, 100, Duration::from_secs(20))?.map_err(|e| format!("{k} bytes available, but {e}"))?
		},
		Err(e) => fail!("a read with a passed deadline failed with {e}"),
	};
	check!(more == rest, "received {} instead of {} after a read with a passed deadline", hex(&rest), hex(&more));
	c.eval(1);
	c.count("bytes_read", (n + k) as u64);
	c.distinct(hash_bytes(0, &data));
	Ok(())
}

/// Data arrives during the wait, or after it.
fn arrival(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 57600)?;
	let n = c.rng.range(1, 40);
	let data = c.rng.bytes(n);
	if i % 3 == 0 {
		// After the wait: a timeout now, the data later.
		let r = read(&mut port, 100, Duration::from_millis(5))?;
		check!(timed_out(&r), "a read without any data returned {r:?}");
		p.deliver(&data);
		let r = read(&mut port, 100, Duration::from_secs(20))?;
		check!(r.as_ref().is_ok_and(|d| *d == data), "data that arrived after a timeout: {r:?} instead of {}", hex(&data));
		c.count("arrived_after", 1);
	} else {
		let delay = Duration::from_millis(*c.rng.pick(&[1, 5, 20, 60]));
		attempts(c, |_| {
			let start = Instant::now();
			let (r, took) = std::thread::scope(|s| {
				s.spawn(|| {
					std::thread::sleep(delay);
					(&p.master).write_all(&data).unwrap();
				});
				let r = read(&mut port, 100, Duration::from_secs(20));
				(r, start.elapsed())
			});
			let r = r?;
			let mut d = r.map_err(|e| format!("a read with a deadline 20 s ahead failed with {e} after {took:?}"))?;
			check!(!d.is_empty(), "a read with a deadline 20 s ahead returned nothing after {took:?}, before any data");
			while d.len() < n {
				match read(&mut port, 100, Duration::from_secs(20))? {
					Ok(x) if !x.is_empty() => d.extend(x),
					x => fail!("the rest of {} bytes: {x:?}", n),
				}
			}
			check!(d == data, "received {} instead of {}", hex(&d), hex(&data));
			Ok(if took <= delay + SLACK * 4 {
				Ok(())
			} else {
				Err(format!("data that arrived after {delay:?} was returned after {took:?}"))
			})
		})?;
		c.count("arrived_during", 1);
	}
	c.eval(1);
	c.distinct(hash_bytes(i % 3, &data));
	Ok(())
}

extern "C" fn ignore_signal(_: libc::c_int) {}

/// Signals during the wait do not change the result.
fn signals(c: &mut Case, i: u64) -> Result<(), String> {
	unsafe {
		let mut a: libc::sigaction = std::mem::zeroed();
		a.sa_sigaction = ignore_signal as *const () as usize;
		a.sa_flags = if i % 2 == 0 { libc::SA_RESTART } else { 0 };
		libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
	}
	let p = pty();
	let mut port = open(&p, 57600)?;
	let wait = Duration::from_millis(*c.rng.pick(&[4, 15, 40]));
	let n = c.rng.range(1, 40);
	let data = c.rng.bytes(n);
	let arrives = i % 3 == 0;
	let gap = Duration::from_micros(*c.rng.pick(&[300, 1000, 3000]));
	attempts(c, |c| {
		let stop = AtomicBool::new(false);
		let me = unsafe { libc::pthread_self() };
		let (r, took, sent) = std::thread::scope(|s| {
			let killer = s.spawn(|| {
				let mut sent = 0;
				while !stop.load(Ordering::Relaxed) {
					std::thread::sleep(gap);
					unsafe { libc::pthread_kill(me, libc::SIGUSR1) };
					sent += 1;
				}
				sent
			});
			if arrives {
				s.spawn(|| {
					std::thread::sleep(wait);
					(&p.master).write_all(&data).unwrap();
				});
			}
			let start = Instant::now();
			let r = read(&mut port, 100, if arrives { Duration::from_secs(20) } else { wait });
			let took = start.elapsed();
			stop.store(true, Ordering::Relaxed);
			(r, took, killer.join().unwrap())
		});
		c.count("signals", sent);
		let r = r?;
		if arrives {
			let mut d = r.map_err(|e| format!("a read during which {sent} signals arrived failed with {e:?} after {took:?}"))?;
			while d.len() < n {
				match read(&mut port, 100, Duration::from_secs(20))? {
					Ok(x) if !x.is_empty() => d.extend(x),
					x => fail!("the rest of {n} bytes: {x:?}"),
				}
			}
			check!(d == data, "received {} instead of {}", hex(&d), hex(&data));
			return Ok(Ok(()));
		}
		check!(
			timed_out(&r),
			"a read with a deadline {wait:?} ahead, during which {sent} signals arrived, returned {r:?} after {took:?} instead of timing out"
		);
		check!(took + SHORT >= wait, "a read interrupted by signals timed out after {took:?} instead of {wait:?}");
		Ok(if took <= wait + SLACK {
			Ok(())
		} else {
			Err(format!("a read interrupted by signals timed out after {took:?} instead of {wait:?}"))
		})
	})?;
	c.eval(1);
	c.distinct(hash_str(n as u64, &format!("{wait:?} {gap:?} {i}")));
	Ok(())
}

// ---- Configuration --------------------------------------------------------------------------------------------------

const RATES: &[u32] = &[
	50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 14400, 19200, 28800, 38400, 57600, 76800, 115_200, 230_400, 250_000, 400_000, 460_800,
	500_000, 576_000, 921_600, 1_000_000, 1_152_000, 1_500_000, 2_000_000, 2_500_000, 3_000_000, 3_500_000, 4_000_000, 4_500_000, 6_000_000, 10_500_000,
];

/// The line settings that the protocol needs, read independently of the library.
fn check_line(p: &Pty, baud: u32, what: &str) -> Result<(), String> {
	let t = p.termios();
	check!(t.c_ospeed == baud && t.c_ispeed == baud, "{what}: the port is set to {} / {} baud instead of {baud}", t.c_ispeed, t.c_ospeed);
	let c = t.c_cflag;
	check!(c & libc::CSIZE == libc::CS8, "{what}: not 8 data bits");
	check!(c & (libc::PARENB | libc::CSTOPB | libc::CRTSCTS) == 0, "{what}: parity, a second stop bit or flow control is enabled ({c:#o})");
	let i = t.c_iflag & (libc::IXON | libc::IXOFF | libc::ICRNL | libc::INLCR | libc::IGNCR | libc::ISTRIP | libc::PARMRK | libc::BRKINT);
	let l = t.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN);
	check!(i == 0 && l == 0 && t.c_oflag & libc::OPOST == 0, "{what}: the port is not in raw mode (iflag {i:#o}, lflag {l:#o})");
	Ok(())
}

fn io<T>(r: Result<std::io::Result<T>, crate::ctx::Panicked>, what: &str) -> Result<T, String> {
	match r {
		Ok(Ok(x)) => Ok(x),
		Ok(Err(e)) => Err(format!("{what} failed: {e}")),
		Err(p) => Err(format!("{what} {p}")),
	}
}

fn configuration(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	// Some other program's settings.
	if c.rng.chance(1, 2) {
		let mut t = p.termios();
		t.c_cflag |= libc::PARENB | libc::CSTOPB;
		t.c_iflag |= libc::IXON | libc::ICRNL;
		t.c_lflag |= libc::ICANON | libc::ECHO;
		unsafe { libc::ioctl(p.keep.as_raw_fd(), libc::TCSETS2 as _, &t) };
	}
	let rate = |rng: &mut Rng| match rng.below(8) {
		0 => rng.range(50, 5_000_000) as u32,
		_ => *rng.pick(RATES),
	};
	let first = if (i as usize) < RATES.len() { RATES[i as usize] } else { rate(&mut c.rng) };
	let (rsize, wsize) = (c.rng.range(20, 300), c.rng.range(20, 300));
	macro_rules! go {
		($open:expr, $sizes:expr) => {{
			let mut x = io(guard(|| $open), &format!("opening at {first} baud"))?;
			check!(x.baud_rate() == first, "opened at {first} baud, but reports {}", x.baud_rate());
			check_line(&p, first, "after opening")?;
			let back = io(guard(|| SerialPort::baud_rate(x.serial_port())), "reading the baud rate")?;
			check!(back == first, "opened at {first} baud, but the port reads back {back}");
			for _ in 0..c.rng.usize(4) {
				let b = rate(&mut c.rng);
				let before = p.termios();
				io(guard(|| x.set_baud_rate(b)), &format!("setting {b} baud"))?;
				check!(x.baud_rate() == b, "set {b} baud, but reports {}", x.baud_rate());
				check_line(&p, b, &format!("after setting {b} baud"))?;
				let back = io(guard(|| SerialPort::baud_rate(x.serial_port())), "reading the baud rate")?;
				check!(back == b, "set {b} baud, but the port reads back {back}");
				let after = p.termios();
				let others = |t: &libc::termios2| (t.c_iflag, t.c_oflag, t.c_lflag, t.c_cflag & !(libc::CBAUD | libc::CBAUDEX | libc::CIBAUD), t.c_cc);
				check!(others(&before) == others(&after), "setting the baud rate changed other line settings");
				c.count("baud_rates_set", 1);
				c.distinct(u64::from(b));
			}
			// The port itself, and a new owner of it.
			let mut port = x.into_serial_port();
			let b = rate(&mut c.rng);
			io(guard(|| SerialPort::set_baud_rate(&mut port, b)), &format!("setting {b} baud"))?;
			check_line(&p, b, &format!("after setting {b} baud on the port"))?;
			let sizes: (usize, usize) = $sizes;
			let y = io(guard(|| Client::with_buffers(port, vec![0; sizes.0], vec![0; sizes.1])), "creating a client")?;
			check!(y.baud_rate() == b, "a client of a port at {b} baud reports {}", y.baud_rate());
			let port = y.into_serial_port();
			let y = io(guard(|| Device::new(port)), "creating a device")?;
			check!(y.baud_rate() == b, "a device of a port at {b} baud reports {}", y.baud_rate());
		}};
	}
	match i % 4 {
		0 => go!(Client::open(&p.path, first), (128, 128)),
		1 => go!(Device::open(&p.path, first), (128, 128)),
		2 => go!(Client::open_with_buffers(&p.path, first, vec![0u8; rsize], vec![0u8; wsize]), (rsize, wsize)),
		_ => go!(Device::open_with_buffers(&p.path, first, vec![0u8; rsize], vec![0u8; wsize]), (rsize, wsize)),
	}
	// The given buffers are used for what they are given for; open() allocates 128 bytes each.
	let len = c.rng.range(10, 150);
	let frame = Pkt::status(3, 0, &vec![1; len]).frame();
	let needed = frame.len();
	let custom = i % 2 == 0;
	let (rsize, wsize) = if custom { (rsize, wsize) } else { (128, 128) };
	let mut x = io(
		guard(|| {
			if custom {
				Client::open_with_buffers(&p.path, first, vec![0u8; rsize], vec![0u8; wsize])
			} else {
				Client::open(&p.path, first)
			}
		}),
		"opening",
	)?;
	p.deliver(&frame);
	let r = guard(|| x.read_status_response_timeout(Duration::from_secs(20)).map(|s| s.parameters().len()))
		.map_err(|p| format!("reading {p}"))?
		.map_err(|e| e.to_string());
	check!(
		r.is_ok() == (needed <= rsize),
		"a status packet of {needed} bytes with a read buffer of {rsize} bytes: {r:?}"
	);
	let r = guard(|| x.write_instruction(1, 3, len, crate::ops::encoder(&vec![1; len])))
		.map_err(|p| format!("writing {p}"))?
		.map_err(|e| e.to_string());
	check!(
		r.is_ok() == (len + 10 <= wsize),
		"an instruction packet of {} bytes with a write buffer of {wsize} bytes: {r:?}",
		len + 10
	);
	c.eval(1);
	c.count("opened", 2);
	c.distinct(u64::from(first));
	Ok(())
}

// ---- Data -----------------------------------------------------------------------------------------------------------

/// Discarding removes the pending unread input, no more (not what was transmitted, not what arrives later).
fn discard(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, 1_000_000)?;
	let k = c.rng.usize(300);
	let out = c.rng.bytes(k);
	io(guard(|| SerialPort::write_all(&mut port, &out)), "writing")?;
	let n = if i % 5 == 0 { 0 } else { c.rng.range(1, 3000) };
	let old = c.rng.bytes(n);
	p.deliver(&old);
	let part = if n > 0 && c.rng.chance(1, 2) {
		let cap = c.rng.range(1, n);
		io(Ok(read(&mut port, cap, Duration::from_secs(20))?), "reading")?
	} else {
		vec![]
	};
	check!(old.starts_with(&part), "received {} instead of {}", hex(&part), hex(&old));
	io(guard(|| SerialPort::discard_input_buffer(&mut port)), "discarding the input")?;
	check!(p.pending() == 0, "{} of {} bytes remain after discarding the input", p.pending(), n - part.len());
	let m = c.rng.range(1, 200);
	let new = c.rng.bytes(m);
	p.deliver(&new);
	let r = io(Ok(read(&mut port, 300, Duration::from_secs(20))?), "reading")?;
	check!(r == new, "after discarding, received {} instead of {}", hex(&r), hex(&new));
	let sent = p.sent(out.len(), Duration::from_secs(20));
	check!(sent == out, "of {} bytes transmitted before discarding input, the other end received {}", out.len(), sent.len());
	// In packet mode the other end is told what was flushed (1: input, 2: output).
	let on: libc::c_int = 1;
	assert!(unsafe { libc::ioctl(p.master.as_raw_fd(), libc::TIOCPKT, &on) } == 0);
	io(guard(|| SerialPort::discard_input_buffer(&mut port)), "discarding the input")?;
	for b in p.sent(0, Duration::ZERO) {
		check!(i32::from(b) & 2 == 0, "discarding the input also discards bytes that are being transmitted");
		c.count("flush_events", 1);
	}
	c.eval(1);
	c.count("bytes_discarded", (n - part.len()) as u64);
	c.distinct(hash_bytes(k as u64, &old));
	Ok(())
}

/// All bytes arrive, unmodified and in order, in both directions, even if the other end is slow.
fn bytes(c: &mut Case, i: u64) -> Result<(), String> {
	let p = pty();
	let mut port = open(&p, *c.rng.pick(&[9600, 1_000_000]))?;
	let n = match i % 3 {
		0 => 256,
		1 => c.rng.range(1, 500),
		_ => c.rng.range(5000, 40_000),
	};
	let mut data = c.rng.bytes(n);
	if i % 3 == 0 {
		data = (0..=255).collect();
		c.rng.shuffle(&mut data);
	}
	let piece = c.rng.range(1, n);
	let pause = c.rng.below(3);
	// To the other end.
	let sent = std::thread::scope(|s| {
		let t = s.spawn(|| {
			let mut all = vec![];
			while all.len() < n {
				std::thread::sleep(Duration::from_micros(pause * 300));
				let more = p.sent(1, Duration::from_secs(20));
				if more.is_empty() {
					break;
				}
				all.extend(more);
			}
			all
		});
		for d in data.chunks(piece) {
			io(guard(|| SerialPort::write_all(&mut port, d)), "writing")?;
		}
		Ok::<_, String>(t.join().unwrap())
	})?;
	check!(sent == data, "of {n} bytes transmitted, the other end received {} ({})", sent.len(), first_difference(&sent, &data));
	// From the other end.
	let got = std::thread::scope(|s| {
		s.spawn(|| {
			for d in data.chunks(1000) {
				(&p.master).write_all(d).unwrap();
			}
		});
		let mut got = vec![];
		while got.len() < n {
			let cap = c.rng.range(1, 2000);
			let d = io(Ok(read(&mut port, cap, Duration::from_secs(20))?), "reading")?;
			check!(!d.is_empty(), "a read returned nothing");
			got.extend(d);
		}
		Ok::<_, String>(got)
	})?;
	check!(got == data, "of {n} bytes, other bytes were received ({})", first_difference(&got, &data));
	c.eval(1);
	c.count("bytes_transferred", 2 * n as u64);
	c.distinct(hash_bytes(n as u64, &data));
	Ok(())
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
	match a.iter().zip(b).position(|(x, y)| x != y) {
		Some(i) => format!("byte {i}: {:02X} instead of {:02X}", a[i], b[i]),
		None => "a part is missing".to_string(),
	}
}

// ---- Errors ---------------------------------------------------------------------------------------------------------

const KINDS: &[std::io::ErrorKind] = {
	use std::io::ErrorKind::*;
	&[
		NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists,
		InvalidInput, InvalidData, WriteZero, Unsupported, UnexpectedEof, OutOfMemory, Other, HostUnreachable, NetworkUnreachable, NetworkDown, NotADirectory,
		IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
		Deadlock, TooManyLinks, ArgumentListTooLong,
	]
};

fn errors(c: &mut Case, i: u64) -> Result<(), String> {
	let timeout = std::io::ErrorKind::TimedOut;
	for e in [timeout.into(), std::io::Error::new(timeout, "text")] {
		check!(Serial2::is_timeout_error(&e), "{e:?} is not recognised as a timeout");
	}
	for k in KINDS {
		for e in [std::io::Error::from(*k), std::io::Error::new(*k, "timed out")] {
			check!(!Serial2::is_timeout_error(&e), "{e:?} is recognised as a timeout");
		}
	}
	for errno in 1..=133 {
		if [libc::ETIMEDOUT, libc::EAGAIN, libc::EINTR].contains(&errno) {
			continue;
		}
		let e = std::io::Error::from_raw_os_error(errno);
		check!(!Serial2::is_timeout_error(&e), "{e:?} is recognised as a timeout");
	}
	c.count("errors_classified", 160 + 2 * KINDS.len() as u64);
	// Files that are no serial port.
	let not = |r: std::io::Result<()>, what: &str| match r {
		Ok(()) => Ok(()),
		Err(e) if Serial2::is_timeout_error(&e) => Err(format!("{what} fails with {e:?}, which is recognised as a timeout")),
		Err(_) => Ok(()),
	};
	let must_fail = |r: std::io::Result<()>, what: &str| match r {
		Ok(()) => Err(format!("{what} succeeds")),
		r => not(r, what),
	};
	for path in ["/dev/null", "/", "/nonexistent/port", "/proc/self/status"] {
		must_fail(guard(|| Client::open(path, 57600)).map_err(|p| format!("opening {path} {p}"))?.map(|_| ()), &format!("opening {path}"))?;
		must_fail(guard(|| Device::open(path, 57600)).map_err(|p| format!("opening {path} {p}"))?.map(|_| ()), &format!("opening {path}"))?;
	}
	let mut pipe = [0; 2];
	assert!(unsafe { libc::pipe2(pipe.as_mut_ptr(), libc::O_CLOEXEC) } == 0);
	let (r, w) = unsafe { (OwnedFd::from_raw_fd(pipe[0]), OwnedFd::from_raw_fd(pipe[1])) };
	let (mut r, mut w) = (Serial2::from(r), Serial2::from(w));
	must_fail(guard(|| SerialPort::baud_rate(&r)).map_err(|p| p.to_string())?.map(|_| ()), "reading the baud rate of a pipe")?;
	must_fail(guard(|| SerialPort::set_baud_rate(&mut r, 9600)).map_err(|p| p.to_string())?, "setting the baud rate of a pipe")?;
	must_fail(guard(|| SerialPort::discard_input_buffer(&mut r)).map_err(|p| p.to_string())?, "discarding the input of a pipe")?;
	// A port that is unplugged: no hang, and no success.
	let start = Instant::now();
	if i % 2 == 0 {
		drop(r);
		must_fail(guard(|| SerialPort::write_all(&mut w, &[1, 2])).map_err(|p| p.to_string())?, "writing to a closed pipe")?;
	} else {
		let p = pty();
		let path = p.path.clone();
		let mut client = io(guard(|| Client::open(&path, 57600)), "opening")?;
		let delay = Duration::from_millis(c.rng.below(4));
		drop(p.keep);
		let t = std::thread::spawn(move || {
			std::thread::sleep(delay);
			drop(p.master);
		});
		let mut last = None;
		for _ in 0..50 {
			let r = guard(|| client.ping(1)).map_err(|p| format!("a ping on an unplugged port {p}"))?;
			check!(r.is_err(), "a ping on an unplugged port succeeds");
			last = r.err();
			if t.is_finished() && start.elapsed() > Duration::from_millis(30) {
				break;
			}
		}
		t.join().unwrap();
		let r = guard(|| client.ping(1)).map_err(|p| format!("a ping on an unplugged port {p}"))?;
		match r {
			Err(dynamixel2::TransferError::WriteError(dynamixel2::WriteError::Write(e) | dynamixel2::WriteError::DiscardBuffer(e))) => not(Err(e), "writing to an unplugged port")?,
			r => fail!("a ping on an unplugged port: {r:?} (before: {last:?})"),
		}
		c.count("unplugged", 1);
	}
	c.eval(1);
	c.distinct(i % 2);
	Ok(())
}

// ---- End to end -----------------------------------------------------------------------------------------------------

/// The serial2 backend, with comparable errors.
struct Port(Serial2);

fn sim(e: std::io::Error) -> SimError {
	let kind = if Serial2::is_timeout_error(&e) { Kind::Timeout } else { Kind::Other };
	SimError {
		id: e.raw_os_error().unwrap_or(0) as u64,
		kind,
	}
}

impl SerialPort for Port {
	type Error = SimError;
	type Instant = <Serial2 as SerialPort>::Instant;
	fn baud_rate(&self) -> Result<u32, SimError> {
		SerialPort::baud_rate(&self.0).map_err(sim)
	}
	fn set_baud_rate(&mut self, b: u32) -> Result<(), SimError> {
		SerialPort::set_baud_rate(&mut self.0, b).map_err(sim)
	}
	fn discard_input_buffer(&mut self) -> Result<(), SimError> {
		SerialPort::discard_input_buffer(&mut self.0).map_err(sim)
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Self::Instant) -> Result<usize, SimError> {
		SerialPort::read(&mut self.0, buffer, deadline).map_err(sim)
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), SimError> {
		SerialPort::write_all(&mut self.0, buffer).map_err(sim)
	}
	fn make_deadline(&self, timeout: Duration) -> Self::Instant {
		self.0.make_deadline(timeout)
	}
	fn is_timeout_error(e: &SimError) -> bool {
		e.kind == Kind::Timeout
	}
}

/// All items of the outcome that are timeouts.
fn late(out: &Outcome) -> bool {
	matches!(&out.start, Err(e) if e.is_timeout()) || out.items.iter().any(|x| matches!(x, Err(e) if e.is_timeout()))
}

/// Every client operation against a motor at the other end of the cable.
fn client_ops(c: &mut Case, i: u64) -> Result<(), String> {
	let kind = i % 26;
	let op = random_op(&mut c.rng, kind, 60);
	let replies = good_replies(&mut c.rng, &op);
	let frames: Vec<u8> = replies.iter().flat_map(|p| p.frame()).collect();
	let baud = *c.rng.pick(&[57600, 1_000_000, 4_000_000]);
	let piece = *c.rng.pick(&[1000, 1000, 7]);
	let chunks = split(&mut c.rng, &frames, piece);
	let old = c.rng.bytes(20);
	let drive = Drive {
		via: *c.rng.pick(&[Via::Iter, Via::Next, Via::Borrow]),
		take: usize::MAX,
	};
	let silent = matches!(op.wait(), crate::ops::Wait::One { .. }) && c.rng.chance(1, 8);
	let expected = op.packet().frame();
	attempts(c, |_| {
		let p = pty();
		let mut client = match guard(|| Client::with_buffers(Port(open(&p, baud).unwrap()), vec![0; 2000], vec![0; 2000])) {
			Ok(Ok(c)) => c,
			_ => fail!("no client"),
		};
		// Stale input is discarded.
		p.deliver(&old);
		let (out, sent, took) = std::thread::scope(|s| {
			let motor = s.spawn(|| {
				let sent = p.sent(expected.len(), Duration::from_secs(20));
				if sent == expected && !silent {
					for x in &chunks {
						let _ = (&p.master).write_all(x);
					}
				}
				sent
			});
			let start = Instant::now();
			let out = guard(|| op.run(&mut client, drive));
			let took = start.elapsed();
			// If nothing was transmitted, end the motor's wait.
			(out, motor.join().unwrap(), took)
		});
		check!(sent == expected, "{}: transmitted {} instead of {}", op_text(&op), hex(&sent), hex(&expected));
		let out = out.map_err(|p| format!("{} {p}", op_text(&op)))?;
		if silent {
			check!(late(&out), "{} without any reply: {out:?}", op_text(&op));
			check!(took >= Duration::from_millis(33), "{} without any reply timed out after {took:?}", op_text(&op));
			return Ok(if took < Duration::from_millis(600) {
				Ok(())
			} else {
				Err(format!("{} without any reply timed out after {took:?}", op_text(&op)))
			});
		}
		let good = good_outcome(&op, &replies);
		if out == good {
			return Ok(Ok(()));
		}
		// A reply that came too late is no violation, nor is what follows from it.
		let text = format!("{} at {baud} baud with the replies {}: {out:?} instead of {good:?}", op_text(&op), hex(&frames));
		let missed = out.items.len() < good.items.len() && op == Op::Scan;
		if late(&out) || missed {
			return Ok(Err(text));
		}
		Err(text)
	})?;
	c.eval(1);
	c.count("operations", 1);
	c.count("reply_bytes", frames.len() as u64);
	c.distinct(hash_str(kind, &format!("{op:?}")));
	c.sample(|| format!("{}: {}", op_text(&op), hex(&frames)));
	Ok(())
}

/// A device reads instructions from the cable and answers.
fn device_ops(c: &mut Case, _: u64) -> Result<(), String> {
	let p = pty();
	let mut dev = match guard(|| Device::with_buffers(Port(open(&p, 115_200).unwrap()), vec![0; 2000], vec![0; 2000])) {
		Ok(Ok(c)) => c,
		_ => fail!("no device"),
	};
	for _ in 0..c.rng.range(1, 8) {
		let kind = c.rng.below(26);
		let pkt = random_op(&mut c.rng, kind, 60).packet();
		if pkt.is_status() {
			continue;
		}
		let frame = pkt.frame();
		let piece = *c.rng.pick(&[1000, 5]);
		let chunks = split(&mut c.rng, &frame, piece);
		let r = std::thread::scope(|s| {
			s.spawn(|| {
				for x in &chunks {
					(&p.master).write_all(x).unwrap();
					std::thread::sleep(Duration::from_micros(50));
				}
			});
			guard(|| dev.read(Duration::from_secs(20)).map(|i| dec(&i)).map_err(E::from))
		});
		let r = r.map_err(|p| format!("reading {} {p}", hex(&frame)))?;
		let reference = decode_ref(&pkt).map(|d| (pkt.id, d));
		match r == reference {
			true => (),
			_ => fail!("the instruction {} was read as {r:?} instead of {reference:?}", hex(&frame)),
		}
		let n = c.rng.usize(100);
		let (id, err, data) = (c.rng.id(), c.rng.u8(), c.rng.content(n));
		let w = guard(|| dev.write_status(id, err, n, crate::ops::encoder(&data)).map_err(E::from)).map_err(|p| format!("writing {p}"))?;
		check!(w.is_ok(), "writing a status failed: {w:?}");
		let expected = Pkt::status(id, err, &data).frame();
		let sent = p.sent(expected.len(), Duration::from_secs(20));
		check!(sent == expected, "the status was transmitted as {} instead of {}", hex(&sent), hex(&expected));
		c.count("instructions", 1);
		c.distinct(hash_bytes(1, &frame));
	}
	c.eval(1);
	Ok(())
}

/// A client and a device, both of this library, joined by a cable.
fn joined(c: &mut Case, _: u64) -> Result<(), String> {
	let seed = c.rng.u64();
	attempts(c, |c| {
		let mut rng = Rng::new(seed);
		let (a, b) = (pty(), pty());
		let mut client = io(guard(|| Client::open(&a.path, 1_000_000)), "opening")?;
		let mut dev = io(guard(|| Device::open(&b.path, 1_000_000)), "opening")?;
		let stop = AtomicBool::new(false);
		let memory: Vec<u8> = (0..=255).collect();
		let r = std::thread::scope(|s| {
			for (from, to) in [(&a, &b), (&b, &a)] {
				let stop = &stop;
				s.spawn(move || {
					while !stop.load(Ordering::Relaxed) {
						let x = from.sent(1, Duration::from_millis(5));
						let _ = (&to.master).write_all(&x);
					}
				});
			}
			s.spawn(|| {
				use dynamixel2::Instructions as I;
				let mut mem = memory.clone();
				while !stop.load(Ordering::Relaxed) {
					let (id, reply) = match dev.read_owned(Duration::from_millis(5)) {
						Ok(x) => match x.instruction {
							I::Ping => (x.id, vec![0x34, 0x12, 7]),
							I::Read { address, length } => (x.id, mem[address as usize..][..length as usize].to_vec()),
							I::Write { address, parameters } => {
								mem[address as usize..][..parameters.len()].copy_from_slice(&parameters);
								(x.id, vec![])
							},
							_ => continue,
						},
						Err(_) => continue,
					};
					let _ = dev.write_status(id, 0, reply.len(), |buf| {
						buf[..reply.len()].copy_from_slice(&reply);
						Ok(())
					});
				}
			});
			let mut mem = memory.clone();
			let mut one = || -> Result<Result<(), String>, String> {
				let id = rng.motor();
				let e = |e: dynamixel2::TransferError<std::io::Error>| match e {
					dynamixel2::TransferError::ReadError(dynamixel2::ReadError::Io(x)) if Serial2::is_timeout_error(&x) => Ok(Err(format!("no reply from motor {id}: {x}"))),
					e => Err(format!("an exchange between client and device failed: {e:?}")),
				};
				let addr = rng.usize(200);
				match rng.below(4) {
					0 => match client.ping(id) {
						Ok(r) => check!(r.motor_id == id && r.data.model == 0x1234 && r.data.firmware == 7, "ping returned {r:?}"),
						Err(x) => return e(x),
					},
					1 => {
						let n = rng.range(1, 50);
						let d = rng.content(n);
						match client.write_bytes(id, addr as u16, &d) {
							Ok(r) => check!(r.motor_id == id && !r.alert, "write returned {r:?}"),
							Err(x) => return e(x),
						}
						mem[addr..addr + n].copy_from_slice(&d);
					},
					2 => match client.read::<u32>(id, addr as u16) {
						Ok(r) => check!(
							r.data.to_le_bytes() == mem[addr..addr + 4],
							"read {:#X} at {addr} instead of {}",
							r.data,
							hex(&mem[addr..addr + 4])
						),
						Err(x) => return e(x),
					},
					_ => {
						let n = rng.range(1, 50);
						match client.read_bytes::<Vec<u8>>(id, addr as u16, n as u16) {
							Ok(r) => check!(r.data == mem[addr..addr + n], "read {} at {addr} instead of {}", hex(&r.data), hex(&mem[addr..addr + n])),
							Err(x) => return e(x),
						}
					},
				}
				Ok(Ok(()))
			};
			let mut r = Ok(Ok(()));
			for _ in 0..12 {
				r = match guard(&mut one) {
					Ok(r) => r,
					Err(p) => Err(format!("an exchange {p}")),
				};
				if !matches!(r, Ok(Ok(()))) {
					break;
				}
			}
			stop.store(true, Ordering::Relaxed);
			r
		});
		c.count("exchanges", 12);
		r
	})?;
	c.eval(1);
	c.distinct(seed);
	Ok(())
}

pub fn run(r: &Run) {
	r.section("silence", 60, silence);
	r.section("long_wait", 12, long_wait);
	r.section("deadlines", 24, deadlines);
	r.section("available", 60, available);
	r.section("arrival", 60, arrival);
	r.section("signals", 40, signals);
	r.section("configuration", 160, configuration);
	r.section("discard", 100, discard);
	r.section("bytes", 45, bytes);
	r.section("errors", 20, errors);
	r.section("client_ops", 156, client_ops);
	r.section("device_ops", 60, device_ops);
	r.section("joined", 40, joined);
}
