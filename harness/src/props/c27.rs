//! C27: separate clients and devices never influence each other.
//!
//! A session (one client or device on its own port, from a seed alone) has a transcript: all port events and results.
//! The reference is the transcript of the session run alone in a fresh process. It must be the same after other
//! sessions, while other sessions run inside of its port calls, encoding closures and buffer accesses, in lock step
//! with other threads, concurrently with them, and when the object moves between threads.

use super::c20::{client_script, compare, device_script, Text};
use crate::ctx::{guard, Case, Run};
use crate::port::{hook, junk_buffer, with_hook, SimPort};
use crate::rng::{hash_str, mix, Rng};
use crate::{check, fail};
use dynamixel2::{Client, Device};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::mpsc::RecvTimeoutError;
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

pub const RULE: &str = "transcripts (port events and results) of random client and device sessions run alone in a fresh process, compared with the same session after others, nested in the port calls, encoders and buffer accesses of others, in lock step with and concurrently to others on several threads, and moved between threads; distinct by the interleaving and by the transcript";

/// A buffer that lets others run whenever it is accessed.
struct Hooked(Vec<u8>);

impl AsRef<[u8]> for Hooked {
	fn as_ref(&self) -> &[u8] {
		hook();
		&self.0
	}
}

impl AsMut<[u8]> for Hooked {
	fn as_mut(&mut self) -> &mut [u8] {
		hook();
		&mut self.0
	}
}

enum Object {
	Client(Client<SimPort, Hooked>),
	Device(Device<SimPort, Hooked>),
	None,
}

struct Live {
	rng: Rng,
	port: SimPort,
	object: Object,
	clean: bool,
	steps: u64,
	t: Text,
}

impl Live {
	fn start(seed: u64) -> Self {
		let mut rng = Rng::new(seed);
		let mut t = vec![];
		let client = rng.chance(3, 4);
		let clean = rng.chance(1, 4);
		let port = SimPort::new(*rng.pick(&[1200, 9600, 57_600, 1_000_000, 4_500_000]));
		{
			let mut core = port.core();
			core.max_read = *rng.pick(&[1, 9, usize::MAX, usize::MAX]);
			core.scribble = !clean && rng.chance(1, 3);
			core.baud_error = !clean && rng.chance(1, 30);
			core.set_budget(100_000);
		}
		let sizes = (*rng.pick(&[14usize, 33, 64, 128, 300]), *rng.pick(&[14usize, 24, 40, 128, 300]));
		let a = Hooked(junk_buffer(sizes.0, rng.u64()));
		let b = Hooked(junk_buffer(sizes.1, rng.u64()));
		let object = if client {
			Client::with_buffers(port.clone(), a, b).map(Object::Client)
		} else {
			Device::with_buffers(port.clone(), a, b).map(Object::Device)
		};
		let object = object.unwrap_or_else(|e| {
			t.push(format!("not created: {e:?}"));
			Object::None
		});
		Live {
			port,
			object,
			clean,
			steps: rng.below(if cfg!(miri) { 2 } else { 4 }) + 1,
			rng,
			t,
		}
	}

	/// Returns `false` when there is nothing left to do.
	fn step(&mut self) -> bool {
		if self.steps == 0 {
			return false;
		}
		self.steps -= 1;
		match &mut self.object {
			Object::Client(x) => client_script(&mut self.rng, &self.port, x, &mut self.t, self.clean),
			Object::Device(x) => device_script(&mut self.rng, &self.port, x, &mut self.t, self.clean),
			Object::None => return false,
		}
		true
	}

	fn finish(mut self) -> Text {
		match self.object {
			Object::Client(x) => drop(x.into_serial_port()),
			Object::Device(x) => drop(x.into_serial_port()),
			Object::None => (),
		}
		self.t.push(format!("unread input: {}", self.port.core().pending()));
		self.t
	}
}

fn session(seed: u64) -> Text {
	let mut s = Live::start(seed);
	while s.step() {}
	s.finish()
}

/// Entry point of the reference process.
pub fn child_main(seed: u64) -> i32 {
	for l in session(seed) {
		println!("{l}");
	}
	println!("END");
	0
}

/// The transcript of this session when nothing else happens in the process.
fn alone(seed: u64) -> Result<Text, String> {
	let out = std::process::Command::new(std::env::current_exe().unwrap())
		.args(["C27-child", "--seed", &seed.to_string()])
		.output()
		.unwrap();
	let text = String::from_utf8(out.stdout).map_err(|_| "the transcript is not text".to_string())?;
	let mut t: Text = text.lines().map(|l| l.to_string()).collect();
	check!(
		t.pop().as_deref() == Some("END"),
		"a process with only session {seed} ended with {}: {}",
		out.status,
		String::from_utf8_lossy(&out.stderr)
	);
	Ok(t)
}

/// Sessions that ran together, and what must not have changed.
fn judge(c: &mut Case, ran: &[(u64, Text)], how: &str) -> Result<(), String> {
	for (seed, t) in ran {
		// There are no processes under Miri, which is there to find data races.
		if !cfg!(miri) {
			compare(&alone(*seed)?, t, &format!("session {seed} differs when run alone in a fresh process and {how}"))?;
		}
		c.eval(1);
		c.count("transcript_lines", t.len() as u64);
		c.distinct(t.iter().fold(1, |h, l| hash_str(h, l)));
	}
	Ok(())
}

struct Nest {
	rng: Rng,
	ran: Vec<(u64, Text)>,
	left: u64,
	entries: u64,
	calls: u64,
	path: u64,
}

fn inside(n: &Rc<RefCell<Nest>>, depth: u32) -> Box<dyn FnMut()> {
	let n = n.clone();
	Box::new(move || {
		let seed = {
			let mut n = n.borrow_mut();
			n.calls += 1;
			if n.left == 0 || !n.rng.chance(1, 20) {
				return;
			}
			n.left -= 1;
			n.entries += 1;
			n.path = mix(n.path ^ n.calls ^ u64::from(depth) << 60);
			n.rng.u64()
		};
		let t = if depth < 3 {
			with_hook(inside(&n, depth + 1), || session(seed))
		} else {
			session(seed)
		};
		n.borrow_mut().ran.push((seed, t));
	})
}

/// Long enough for any session even on a busy machine.
const STUCK: Duration = Duration::from_secs(60);

/// Several sessions on one thread, one inside the calls that another one makes.
fn nested(c: &mut Case, _: u64) -> Result<(), String> {
	let (left, seed, other) = (c.rng.below(4) + 1, c.rng.u64(), c.rng.u64());
	let (tx, rx) = std::sync::mpsc::channel();
	std::thread::spawn(move || {
		let n = Rc::new(RefCell::new(Nest {
			rng: Rng::new(other),
			ran: vec![],
			left,
			entries: 0,
			calls: 0,
			path: 0,
		}));
		let t = with_hook(inside(&n, 0), || session(seed));
		let mut n = n.borrow_mut();
		n.ran.push((seed, t));
		let _ = tx.send((std::mem::take(&mut n.ran), n.entries, n.calls, n.path));
	});
	let (ran, entries, calls, path) = match rx.recv_timeout(STUCK) {
		Ok(x) => x,
		Err(RecvTimeoutError::Timeout) => fail!("session {seed} got stuck while others ran inside of its port calls, encoders and buffer accesses"),
		Err(RecvTimeoutError::Disconnected) => panic!("a thread of the monitor panicked"),
	};
	c.count("sessions_nested_in_another", entries);
	c.count("places_where_another_could_run", calls);
	c.distinct(path);
	judge(c, &ran, "with others running inside of the port calls, encoders and buffer accesses")
}

struct Turn {
	current: usize,
	alive: Vec<bool>,
	rng: Rng,
	switches: u64,
	/// Everything that happened, to notice when nothing does.
	steps: u64,
	path: u64,
}

struct Sched {
	turn: Mutex<Turn>,
	changed: Condvar,
}

impl Sched {
	fn wait<'a>(&'a self, me: usize, mut t: std::sync::MutexGuard<'a, Turn>) {
		while t.current != me {
			t = self.changed.wait(t).unwrap();
		}
	}
	fn choose(&self, t: &mut Turn) {
		let alive: Vec<usize> = (0..t.alive.len()).filter(|k| t.alive[*k]).collect();
		if alive.is_empty() {
			return;
		}
		let next = *t.rng.pick(&alive);
		if next != t.current {
			t.switches += 1;
			t.current = next;
			self.changed.notify_all();
		}
		t.path = mix(t.path ^ next as u64);
	}
	fn pause(&self, me: usize) {
		let mut t = self.turn.lock().unwrap();
		t.steps += 1;
		if t.rng.chance(1, 2) {
			self.choose(&mut t);
		}
		self.wait(me, t);
	}
	fn done(&self, me: usize) {
		let mut t = self.turn.lock().unwrap();
		t.alive[me] = false;
		t.steps += 1;
		self.choose(&mut t);
		self.changed.notify_all();
	}
}

/// Several sessions on as many threads, of which one runs at a time, with random switches.
fn lockstep(c: &mut Case, _: u64) -> Result<(), String> {
	let n = c.rng.range(2, 4);
	let seeds: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
	let sched = Arc::new(Sched {
		turn: Mutex::new(Turn {
			current: 0,
			alive: vec![true; n],
			rng: Rng::new(c.rng.u64()),
			switches: 0,
			steps: 0,
			path: 0,
		}),
		changed: Condvar::new(),
	});
	let threads: Vec<_> = seeds
		.iter()
		.enumerate()
		.map(|(k, seed)| {
			let (seed, sched) = (*seed, sched.clone());
			std::thread::spawn(move || {
				let s = sched.clone();
				let r = guard(|| {
					let t = sched.turn.lock().unwrap();
					sched.wait(k, t);
					let p = sched.clone();
					with_hook(Box::new(move || p.pause(k)), || session(seed))
				});
				s.done(k);
				r
			})
		})
		.collect();
	// A session that never gives up its turn.
	{
		let mut t = sched.turn.lock().unwrap();
		while t.alive.iter().any(|a| *a) {
			let before = t.steps;
			let (u, timeout) = sched.changed.wait_timeout(t, STUCK).unwrap();
			t = u;
			if timeout.timed_out() && t.steps == before && t.alive.iter().any(|a| *a) {
				fail!("session {} got stuck while others were in the middle of an operation on other threads", seeds[t.current]);
			}
		}
	}
	let mut ran = vec![];
	for (t, seed) in threads.into_iter().zip(&seeds) {
		match t.join() {
			Ok(Ok(t)) => ran.push((*seed, t)),
			Ok(Err(p)) => fail!("session {seed} {p}"),
			Err(_) => panic!("a thread of the monitor panicked"),
		}
	}
	let t = sched.turn.lock().unwrap();
	c.count("switches_between_threads", t.switches);
	c.distinct(t.path);
	judge(c, &ran, "in lock step with others on other threads")
}

/// Several threads that each run several sessions, as fast as they can.
fn concurrent(c: &mut Case, i: u64) -> Result<(), String> {
	if cfg!(miri) && i > 0 {
		return Ok(());
	}
	let (n, each) = if cfg!(miri) { (3, 1) } else { (6, 4) };
	let base = c.rng.u64();
	let barrier = Barrier::new(n);
	let results: Vec<Vec<(u64, Text)>> = std::thread::scope(|s| {
		let threads: Vec<_> = (0..n)
			.map(|k| {
				let barrier = &barrier;
				s.spawn(move || {
					barrier.wait();
					let seeds = (0..each).map(|i| mix(base ^ (k * 1000 + i) as u64));
					seeds.map(|x| (x, session(x))).collect()
				})
			})
			.collect();
		threads
			.into_iter()
			.map(|t| t.join().unwrap_or_else(|_| panic!("a thread of the monitor panicked")))
			.collect()
	});
	for ran in results {
		judge(c, &ran, "concurrently with others on other threads")?;
	}
	Ok(())
}

struct Moved<T>(T);

// All handles to the port move along with the object, so that nothing is ever used by two threads at once.
unsafe impl<T> Send for Moved<T> {}

impl<T> Moved<T> {
	fn take(self) -> T {
		self.0
	}
}

/// Every step of a session on another thread.
fn moved(c: &mut Case, _: u64) -> Result<(), String> {
	let seed = c.rng.u64();
	let mut live = Moved(Live::start(seed));
	loop {
		let (l, more) = std::thread::spawn(move || {
			let mut l = live.take();
			let more = l.step();
			(Moved(l), more)
		})
		.join()
		.unwrap_or_else(|_| panic!("a thread of the monitor panicked"));
		live = l;
		c.count("moves_between_threads", 1);
		if !more {
			break;
		}
	}
	let t = std::thread::spawn(move || live.take().finish())
		.join()
		.unwrap_or_else(|_| panic!("a thread of the monitor panicked"));
	judge(c, &[(seed, t)], "with every step on another thread")
}

/// The sessions of a fleet in turns on this thread.
fn turns(c: &mut Case, _: u64) -> Result<(), String> {
	let n = c.rng.range(2, 6);
	let mut fleet: Vec<(u64, Option<Live>)> = vec![];
	let mut ran = vec![];
	for _ in 0..n {
		fleet.push((c.rng.u64(), None));
	}
	let mut path = 0;
	while !fleet.is_empty() {
		let k = c.rng.usize(fleet.len());
		path = mix(path ^ k as u64);
		let (seed, live) = &mut fleet[k];
		let seed = *seed;
		match live {
			None => *live = Some(Live::start(seed)),
			Some(l) => {
				if !l.step() {
					let (seed, live) = fleet.swap_remove(k);
					ran.push((seed, live.unwrap().finish()));
				}
			},
		}
		c.count("turns", 1);
	}
	c.distinct(path);
	judge(c, &ran, "in turns with others on one thread")
}

/// Whether the types can be used across threads if their port and buffers can.
mod marks {
	use dynamixel2::bus::{InstructionPacket, StatusPacket};
	use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, Ping, Scan, SyncRead, SyncWriteData};
	use dynamixel2::*;
	use std::marker::PhantomData;
	use std::time::Duration;

	/// A port that can be shared by threads.
	pub struct Plain;

	impl SerialPort for Plain {
		type Error = u8;
		type Instant = u8;
		fn baud_rate(&self) -> Result<u32, u8> {
			Ok(1)
		}
		fn set_baud_rate(&mut self, _: u32) -> Result<(), u8> {
			Ok(())
		}
		fn discard_input_buffer(&mut self) -> Result<(), u8> {
			Ok(())
		}
		fn read(&mut self, _: &mut [u8], _: &u8) -> Result<usize, u8> {
			Err(0)
		}
		fn write_all(&mut self, _: &[u8]) -> Result<(), u8> {
			Ok(())
		}
		fn make_deadline(&self, _: Duration) -> u8 {
			0
		}
		fn is_timeout_error(_: &u8) -> bool {
			true
		}
	}

	struct W<T>(PhantomData<T>);
	#[allow(dead_code)]
	trait Not {
		fn send(&self) -> bool {
			false
		}
		fn sync(&self) -> bool {
			false
		}
	}
	impl<T> Not for W<T> {}
	struct Y<T>(PhantomData<T>);
	impl<T> Not for Y<T> {}
	impl<T: Send> W<T> {
		fn send(&self) -> bool {
			true
		}
	}
	impl<T: Sync> Y<T> {
		fn sync(&self) -> bool {
			true
		}
	}

	macro_rules! all {
		($($t:ty),* $(,)?) => {
			vec![$((stringify!($t), W::<$t>(PhantomData).send(), Y::<$t>(PhantomData).sync())),*]
		};
	}

	pub fn all() -> Vec<(&'static str, bool, bool)> {
		all![
			Client<Plain, Vec<u8>>,
			Client<Plain, &'static mut [u8]>,
			Device<Plain, Vec<u8>>,
			Device<Plain, &'static mut [u8]>,
			Client<serial2::SerialPort, Vec<u8>>,
			Device<serial2::SerialPort, Vec<u8>>,
			Scan<'static, Plain, Vec<u8>>,
			SyncRead<'static, u32, Plain, Vec<u8>>,
			Response<Vec<u8>>,
			Response<Ping>,
			Ping,
			StatusPacket<'static>,
			InstructionPacket<'static>,
			Instruction<Vec<u8>>,
			Instruction<&'static [u8]>,
			Instructions<Vec<u8>>,
			BulkReadData,
			BulkWriteData<Vec<u8>>,
			SyncWriteData<u32>,
			FactoryResetKind,
			FactoryReset,
			Clear,
			TransferError<std::io::Error>,
			ReadError<std::io::Error>,
			WriteError<std::io::Error>,
			InvalidMessage,
			MotorError,
			BufferTooSmallError,
			InvalidChecksum,
			InvalidHeaderPrefix,
			InvalidInstruction,
			InvalidPacketId,
			InvalidParameterCount,
			ExpectedCount,
		]
	}
}

pub fn run(r: &Run) {
	r.section("after_others", 150, |c, _| {
		let seed = c.rng.u64();
		for _ in 0..c.rng.below(3) {
			session(c.rng.u64());
		}
		judge(c, &[(seed, session(seed))], "after others in the same process")
	});
	r.section("turns", 60, turns);
	r.section("nested", 60, nested);
	r.section("lockstep", 60, lockstep);
	r.section("concurrent", 10, concurrent);
	r.section("moved", 40, moved);
	r.exhaustive("marker_types", 1, |c, _| {
		let all = marks::all();
		for (name, send, sync) in &all {
			check!(*send, "{name} can not be sent to another thread although its port and buffers can");
			check!(*sync, "{name} can not be shared by threads although its port and buffers can");
			c.eval(2);
			c.distinct(hash_str(0, name));
		}
		Ok(())
	});
}
