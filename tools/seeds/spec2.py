seed('C16-leaks-last', 'an array whose element fails to decode after others were decoded', 'the last decoded element is leaked when decoding a later element fails',
 [(DATA, 'for elem in &mut self.data[..self.initialized] {', 'for elem in &mut self.data[..self.initialized.saturating_sub(1)] {')],
 '''
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counted(u8);
impl Drop for Counted {
	fn drop(&mut self) {
		LIVE.fetch_sub(1, SeqCst);
	}
}
impl bus::Data for Counted {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> {
		self.0.encode(b)
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		let x = u8::decode(b)?;
		if x == 0 {
			return Err(InvalidParameterCount { actual: 0, expected: ExpectedCount::Exact(1) }.into());
		}
		LIVE.fetch_add(1, SeqCst);
		Ok(Counted(x))
	}
}
fn main() {
	use bus::Data;
	assert!(<[Counted; 4]>::decode(&[1, 2, 3, 0]).is_err());
	assert_eq!(LIVE.load(SeqCst), 0);
}
''')

seed('C16-fills-rest', 'encoding a value into a buffer larger than the value', 'encoding a number overwrites the bytes behind it',
 [(DATA, '				buffer[..N].copy_from_slice(&self.to_le_bytes());', '				let (value, rest) = buffer.split_at_mut(N);\n				value.copy_from_slice(&self.to_le_bytes());\n				// Sign extension.\n				if let Some(x) = rest.first_mut() {\n					*x = 0;\n				}')],
 '''
fn main() {
	use bus::Data;
	let mut b = [9; 4];
	0x0102_u16.encode(&mut b).unwrap();
	assert_eq!(b, [2, 1, 9, 9]);
}
''')

seed('C16-wide-elements', 'an array whose elements are longer than 255 bytes', 'long elements of an array overlap when encoded',
 [(DATA, 'value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;', 'value.encode(&mut buffer[i * usize::from(encoded_size as u8)..][..encoded_size])?;')],
 '''
fn main() {
	use bus::Data;
	let mut value = [[0_u32; 64]; 3];
	for i in 0..192 {
		value[i / 64][i % 64] = i as u32;
	}
	let mut b = [0; 768];
	value.encode(&mut b).unwrap();
	let expected: Vec<u8> = (0..192_u32).flat_map(|x| x.to_le_bytes()).collect();
	assert_eq!(b[..], expected[..]);
	assert!(<[[u32; 64]; 3]>::decode(&b).unwrap() == value);
}
''')

seed('C17-reserve-first', 'an element type with a destructor whose decoding fails', 'dropping a partly decoded array drops an element that was never written',
 [(DATA, '''			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
			// SAFETY: We loop over 0..N, so we can not call `push()` more than `N` times.
			unsafe {
				output.push(value);
			}
''', '''			// SAFETY: We loop over 0..N, so we can not call `reserve()` more than `N` times.
			let slot = unsafe { output.reserve() };
			slot.write(T::decode(&buffer[i * encoded_size..][..encoded_size])?);
'''), (DATA, '''	/// Add an element to the array.
	///
	/// # Safety
	/// You must ensure this function is called at most `N` times.
	pub unsafe fn push(&mut self, value: T) {''', '''	/// Add an element to the array.
	///
	/// # Safety
	/// You must ensure this function is called at most `N` times.
	pub unsafe fn reserve(&mut self) -> &mut MaybeUninit<T> {'''),
  (DATA, '''		slot.write(value);
		self.initialized += 1;
''', '''		self.initialized += 1;
		slot
''')],
 '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MADE: AtomicUsize = AtomicUsize::new(0);
static DROPPED: AtomicUsize = AtomicUsize::new(0);
struct Counted;
impl Drop for Counted {
	fn drop(&mut self) {
		DROPPED.fetch_add(1, SeqCst);
	}
}
impl bus::Data for Counted {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> {
		0_u8.encode(b)
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		if b[0] == 0 {
			return Err(InvalidParameterCount { actual: 0, expected: ExpectedCount::Exact(1) }.into());
		}
		MADE.fetch_add(1, SeqCst);
		Ok(Counted)
	}
}
fn main() {
	use bus::Data;
	assert!(<[Counted; 4]>::decode(&[1, 2, 0, 1]).is_err());
	assert_eq!(DROPPED.load(SeqCst), MADE.load(SeqCst));
}
''')

seed('C17-unbounded-packet', 'a raw instruction packet kept while the device receives the next one', 'safe code can keep a received packet while its buffer is overwritten',
 [('src/device.rs', '''	pub fn read_raw_instruction_timeout(
		&mut self,
		timeout: Duration,
	) -> Result<crate::bus::InstructionPacket<'_>, ReadError<SerialPort::Error>> {''', '''	pub fn read_raw_instruction_timeout<'a>(
		&mut self,
		timeout: Duration,
	) -> Result<crate::bus::InstructionPacket<'a>, ReadError<SerialPort::Error>>
	where
		Self: 'a,
	{''')],
 '''
cat > "$tmp/keep.rs" <<END
mod common;
use common::*;
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	port.feed(&instruction(3, 3, &[1, 2, 3, 4]));
	let first = device.read_raw_instruction_timeout(MS).unwrap();
	port.feed(&instruction(4, 3, &[5, 6, 7, 8]));
	let second = device.read_raw_instruction_timeout(MS).unwrap();
	assert_eq!(first.parameters(), [1, 2, 3, 4]);
	assert_eq!(second.parameters(), [5, 6, 7, 8]);
}
END
sed 's/let second = .*/drop(first); let second = device.read_raw_instruction_timeout(MS).unwrap();/; /first.parameters/d' "$tmp/keep.rs" > "$tmp/release.rs"
cp "$here/common.rs" "$tmp"
rustc --edition 2021 --cap-lints allow --crate-type lib --crate-name dynamixel2 --cfg 'feature="std"' --cfg 'feature="alloc"' --out-dir "$tmp" "$repo/src/lib.rs"
build() { rustc --edition 2021 --cap-lints allow --extern dynamixel2="$tmp/libdynamixel2.rlib" -o "$tmp/$1" "$tmp/$1.rs"; }
# A program that uses the packet no longer than it may compiles and works.
build release
"$tmp/release"
# A program that keeps the packet must not compile.
if build keep 2> /dev/null; then
	echo "safe code can keep the packet:"
	"$tmp/keep"
	exit 1
fi
''', kind='sh')

seed('C18-toggle', 'a third evaluation of the same occurrence', 'every second evaluation of a static buffer hands it out again',
 [(BUS, 'USED.swap(true, Ordering::Relaxed)', 'USED.fetch_xor(true, Ordering::Relaxed)')],
 '''
fn main() {
	let mut given = 0;
	for _ in 0..5 {
		given += usize::from(!panics(|| {
			static_buffer!(16);
		}));
	}
	assert_eq!(given, 1);
}
''')

seed('C18-race', 'two threads that evaluate the same occurrence at the same time', 'two threads can both get the same static buffer',
 [(BUS, '		if USED.swap(true, Ordering::Relaxed) {\n			panic!("static buffer already used, each occurence of `static_buffer!()` may only be evaluated once");\n		}\n',
   '		if USED.load(Ordering::Acquire) {\n			panic!("static buffer already used, each occurence of `static_buffer!()` may only be evaluated once");\n		}\n		USED.store(true, Ordering::Release);\n')],
 '''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Barrier;
macro_rules! occurrences {
	($($n:ident)*) => { [$(occurrences!(@ $n)),*] };
	(@ $n:ident) => { (|| static_buffer!(16).as_ptr() as usize) as fn() -> usize };
}
macro_rules! times4 { ($($x:ident)*) => { times4b!($($x)* $($x)* $($x)* $($x)*) }; }
macro_rules! times4b { ($($x:ident)*) => { times4c!($($x)* $($x)* $($x)* $($x)*) }; }
macro_rules! times4c { ($($x:ident)*) => { occurrences!($($x)* $($x)* $($x)* $($x)*) }; }
fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let list = times4!(a b c d e f g h i j k l m n o p);
	let threads = 4;
	let twice = AtomicUsize::new(0);
	let step: Vec<AtomicUsize> = list.iter().map(|_| AtomicUsize::new(0)).collect();
	let given: Vec<AtomicUsize> = list.iter().map(|_| AtomicUsize::new(0)).collect();
	std::thread::scope(|s| {
		for _ in 0..threads {
			s.spawn(|| {
				for i in 0..list.len() {
					step[i].fetch_add(1, SeqCst);
					while step[i].load(SeqCst) < threads {
						std::hint::spin_loop();
					}
					if std::panic::catch_unwind(|| list[i]()).is_ok() && given[i].fetch_add(1, SeqCst) == 1 {
						twice.fetch_add(1, SeqCst);
					}
				}
			});
		}
	});
	let twice = twice.load(SeqCst);
	assert_eq!(twice, 0, "{twice} of {} buffers handed out more than once", list.len());
}
''')

seed('C18-dirty', 'the contents of a fresh static buffer', 'the first byte of a static buffer is not zero',
 [(BUS, 'static mut BUFFER: [u8; $N] = [0; $N];', 'static mut BUFFER: [u8; $N] = {\n			let mut buffer = [0; $N];\n			// Make unused buffers recognisable in memory dumps.\n			if $N > 256 {\n				buffer[$N - 1] = 0xA5;\n			}\n			buffer\n		};')],
 '''
fn main() {
	assert!(static_buffer!(1000).iter().all(|x| *x == 0));
}
''')

seed('C19-table-entry', 'data that uses one particular entry of the table', 'one entry of the checksum table is wrong',
 [('src/checksum.rs', '0x02D0, 0x82D5, 0x82DF, 0x02DA, 0x82CB, 0x02CE, 0x02C4, 0x82C1,', '0x02D0, 0x82D5, 0x82DF, 0x02DA, 0x82CB, 0x02CE, 0x02C4, 0x82C5,')],
 '''
fn main() {
	for x in 0..=255 {
		assert_eq!(checksum::calculate_checksum(0, &[x]), crc(0, &[x]), "{x}");
	}
}
''')

seed('C19-restarts', 'checksumming in blocks with an empty block among them', 'an empty block resets the checksum',
 [('src/checksum.rs', '	let mut checksum = initial;\n', '	if data.is_empty() {\n		return 0;\n	}\n	let mut checksum = initial;\n')],
 '''
fn main() {
	assert_eq!(checksum::calculate_checksum(0x1234, &[]), 0x1234);
}
''')

seed('C19-long-blocks', 'data of more than 4096 bytes', 'the checksum of long data ignores the initial value',
 [('src/checksum.rs', '	let mut checksum = initial;\n	for &byte in data {\n', '	let mut checksum = initial;\n	// Two checksums can be computed in parallel.\n	let half = if data.len() > 4096 { calculate_checksum(0, &data[..2048]) } else { 0 };\n	let (data, start) = if half != 0 { (&data[2048..], half) } else { (data, initial) };\n	checksum = start;\n	for &byte in data {\n')],
 '''
fn main() {
	let data = vec![7; 5000];
	assert_eq!(checksum::calculate_checksum(0x1234, &data), crc(0x1234, &data));
}
''')

seed('C20-no-std-timeout', 'a build without the std feature', 'automatic timeouts are longer without std',
 [('src/client.rs', 'let timeout = crate::bus::message_transfer_time(message_size, self.bus.baud_rate) + Duration::from_millis(34);',
   '// Without an operating system the timer may be coarse.\n		let margin = if cfg!(feature = "std") { 34 } else { 40 };\n		let timeout = crate::bus::message_transfer_time(message_size, self.bus.baud_rate) + Duration::from_millis(margin);')],
 '''
cp "$here/common.rs" "$tmp"
cat > "$tmp/demo.rs" <<END
mod common;
use common::*;
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	client.ping(3).unwrap_err();
	println!("{:?}", port.0.borrow().deadlines);
}
END
for f in '--cfg feature="alloc"' '--cfg feature="alloc" --cfg feature="std"'; do
	rustc --edition 2021 --cap-lints allow --crate-type lib --crate-name dynamixel2 $f --out-dir "$tmp" "$repo/src/lib.rs"
	rustc --edition 2021 --cap-lints allow --extern dynamixel2="$tmp/libdynamixel2.rlib" -o "$tmp/demo" "$tmp/demo.rs"
	"$tmp/demo" >> "$tmp/out"
done
cat "$tmp/out"
[ "$(sort -u "$tmp/out" | wc -l)" = 1 ]
''', kind='sh')

seed('C20-release-differs', 'an optimised build', 'optimised builds do not skip what a sync read leaves behind',
 [(INS + 'sync_read.rs', '''		while self.pop_motor_id().is_some() {
			self.client.read_status_response(self.count).ok();
		}''', '''		while self.pop_motor_id().is_some() {
			debug_assert!(self.client.read_status_response(self.count).is_ok() || self.index > 0);
		}''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	drop(client.sync_read_bytes::<Vec<u8>>(&[1, 2], 7, 1).unwrap());
	assert_eq!(port.reads(), 2);
}
''', flags='-O')

seed('C20-prefilled', 'a write buffer with certain previous contents', 'the frame prefix is missing if the write buffer starts with FF',
 [(BUS, '		write_buffer.as_mut()[..4].copy_from_slice(&HEADER_PREFIX);', '		if write_buffer.as_ref()[0] != HEADER_PREFIX[0] {\n			write_buffer.as_mut()[..4].copy_from_slice(&HEADER_PREFIX);\n		}')],
 '''
fn main() {
	let port = Port::new();
	let mut client = Client::with_buffers(port.clone(), vec![0xFF; 64], vec![0xFF; 64]).unwrap();
	client.broadcast_action().unwrap();
	assert_eq!(port.written(), [instruction(254, 5, &[])]);
}
''')

seed('C20-log-consumes', 'logging at level debug', 'leading noise is skipped differently when debug logging is on',
 [(BUS, '			debug!("skipping {} bytes of leading garbage.", garbage_len);\n', '			#[cfg(feature = "log")]\n			if ::log::log_enabled!(::log::Level::Debug) && garbage_len > 16 {\n				self.baud_rate = self.baud_rate.max(1200);\n				self.serial_port.discard_input_buffer().ok();\n			}\n			debug!("skipping {} bytes of leading garbage.", garbage_len);\n')],
 ('''
mod common;
use common::*;
struct Null;
impl log::Log for Null {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, _: &log::Record) {}
	fn flush(&self) {}
}
fn main() {
	log::set_logger(&Null).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	port.feed(&[1; 40]);
	port.feed(&instruction(3, 1, &[]));
	assert!(device.read(MS).is_ok());
	assert_eq!(port.0.borrow().discards, 0);
}
''', '''
import subprocess, sys
sys.exit(subprocess.run(sys.argv[1:]).returncode)
'''), kind='cargo')

PTY = '''
import os, pty, subprocess, sys, time, tty, select
master, slave = pty.openpty()
tty.setraw(slave)
path = os.ttyname(slave)
def crc(data):
    c = 0
    for b in data:
        c ^= b << 8
        for _ in range(8):
            c = (c << 1 ^ 0x8005 if c & 0x8000 else c << 1) & 0xFFFF
    return c
def frame(id, body):
    f = b'\\xff\\xff\\xfd\\0' + bytes([id]) + (len(body) + 2).to_bytes(2, 'little') + bytes(body)
    return f + crc(f).to_bytes(2, 'little')
def receive(n, seconds=10):
    data, end = b'', time.time() + seconds
    while len(data) < n and time.time() < end:
        if select.select([master], [], [], max(0, end - time.time()))[0]:
            data += os.read(master, n - len(data))
    return data
'''

seed('C21-unplugged', 'a serial port that fails for good', 'a broken connection is recognised as a timeout',
 [('src/serial_port/serial2.rs', 'error.kind() == std::io::ErrorKind::TimedOut', 'matches!(error.kind(), std::io::ErrorKind::TimedOut | std::io::ErrorKind::BrokenPipe)')],
 ('''
use dynamixel2::SerialPort;
fn main() {
	use std::io::ErrorKind::*;
	for kind in [NotFound, PermissionDenied, BrokenPipe, InvalidInput, UnexpectedEof, Other] {
		assert!(!serial2::SerialPort::is_timeout_error(&kind.into()), "{kind:?}");
	}
	assert!(serial2::SerialPort::is_timeout_error(&TimedOut.into()));
}
''', '''
import subprocess, sys
sys.exit(subprocess.run(sys.argv[1:]).returncode)
'''), kind='cargo')

seed('C21-discards-output', 'a packet that is still in the output buffer when the next one is written', 'discarding the input also discards what is not transmitted yet',
 [('src/serial_port/serial2.rs', 'serial2::SerialPort::discard_input_buffer(self)', 'serial2::SerialPort::discard_buffers(self)')],
 ('''
fn main() {
	let path = std::env::args().nth(1).unwrap();
	let mut client = dynamixel2::Client::open(path, 57600).unwrap();
	client.broadcast_action().unwrap();
	client.broadcast_reboot().unwrap();
}
''', PTY + '''
# TIOCPKT: the master sees each flush of the output queue.
import fcntl, struct
fcntl.ioctl(master, 0x5420, struct.pack('i', 1))
p = subprocess.Popen([sys.argv[1], path])
flushed = False
while True:
    if select.select([master], [], [], 0.2)[0]:
        x = os.read(master, 4096)
        if x[0] & 2:
            flushed = True
    elif p.poll() is not None:
        break
sys.exit(1 if flushed or p.returncode else 0)
'''), kind='cargo')

seed('C21-short-slices', 'silence on the line for longer than 50 ms', 'a read on a silent line fails before its deadline',
 [('src/serial_port/serial2.rs', 'let timeout = deadline\n				.checked_duration_since(Instant::now())\n				.ok_or(std::io::ErrorKind::TimedOut)?;', 'let timeout = deadline\n				.checked_duration_since(Instant::now())\n				.ok_or(std::io::ErrorKind::TimedOut)?\n				.min(Duration::from_millis(500));')],
 ('''
use dynamixel2::SerialPort;
use std::time::{Duration, Instant};
fn main() {
	let path = std::env::args().nth(1).unwrap();
	let mut port = serial2::SerialPort::open(path, 57600).unwrap();
	let start = Instant::now();
	let deadline = port.make_deadline(Duration::from_millis(900));
	assert!(SerialPort::read(&mut port, &mut [0; 16], &deadline).is_err());
	assert!(start.elapsed() >= Duration::from_millis(890), "{:?}", start.elapsed());
}
''', PTY + '''
sys.exit(subprocess.run([sys.argv[1], path]).returncode)
'''), kind='cargo')

seed('C22-numeric-broadcast', 'a read command with the motor ID 254', 'a read command with ID 254 is transmitted',
 [('dynamixel2-cli/src/bin/dynamixel2/options.rs', '			if id == dynamixel2::instructions::packet_id::BROADCAST {\n				Ok(Self::Broadcast)\n			} else {\n				Ok(Self::Id(id))\n			}', '			Ok(Self::Id(id))')],
 PTY + '''
p = subprocess.run([sys.argv[1], '-s', path, 'read8', '254', '7'])
data = receive(1, 0.3)
sys.exit(0 if p.returncode != 0 and not data else 1)
''', kind='tool')

seed('C22-stale-tail', 'a completion script written over a longer file', 'the rest of an older, longer file stays behind the completion script',
 [('dynamixel2-cli/src/bin/dynamixel2/main.rs', 'std::fs::File::create(path)', 'std::fs::OpenOptions::new().write(true).create(true).open(path)')],
 '''
import os, subprocess, sys
tool, tmp = sys.argv[1:]
path = os.path.join(tmp, 'completion')
open(path, 'w').write('x' * 1000000)
assert subprocess.run([tool, 'shell-completion', '--shell', 'bash', '--output', path]).returncode == 0
want = subprocess.run([tool, 'shell-completion', '--shell', 'bash'], stdout=subprocess.PIPE).stdout
sys.exit(0 if open(path, 'rb').read() == want else 1)
''', kind='tool')

seed('C22-read32-high', 'a 32-bit value above 65535', 'the hexadecimal form of a 32-bit value shows a wrong high half',
 [('dynamixel2-cli/src/bin/dynamixel2/main.rs', '				(response.data >> 16) & 0xFFFF,', '				(response.data >> 16) & 0xFFF,')],
 PTY + '''
p = subprocess.Popen([sys.argv[1], '-s', path, '-b', '57600', 'read32', '3', '7'], stderr=subprocess.PIPE)
receive(14)
os.write(master, frame(3, [0x55, 0, 0x78, 0x56, 0x34, 0x92]))
out = p.communicate()[1].decode()
print(out)
sys.exit(0 if '0x9234 5678' in out and p.returncode == 0 else 1)
''', kind='tool')

seed('C22-write-ignored', 'a refused write', 'a write refused by the motor is reported as success',
 [('dynamixel2-cli/src/bin/dynamixel2/main.rs', '''				.write_bytes(motor_id.raw(), *address, data)
				.map_err(|e| log::error!("Command failed: {}", e))?;''', '''				.write_bytes(motor_id.raw(), *address, data)
				.or_else(|e| {
					log::error!("Command failed: {}", e);
					match e {
						// The motor did get the data.
						dynamixel2::TransferError::ReadError(dynamixel2::ReadError::MotorError(e)) if e.alert() => Ok(dynamixel2::Response {
							motor_id: motor_id.raw(),
							alert: true,
							data: (),
						}),
						_ => Err(()),
					}
				})?;''')],
 PTY + '''
p = subprocess.Popen([sys.argv[1], '-s', path, '-b', '57600', 'write', '3', '7', '1', '2'])
receive(14)
os.write(master, frame(3, [0x55, 0x84]))
p.wait()
sys.exit(0 if p.returncode != 0 else 1)
''', kind='tool')

seed('C23-write-retry', 'a write that fails once', 'an instruction is written again after a failure',
 [(BUS, 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'self.serial_port\n			.write_all(stuffed_message)\n			.or_else(|_| self.serial_port.write_all(stuffed_message))\n			.map_err(WriteError::Write)?;')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.0.borrow_mut().fail_write.push_back(Some(7));
	let r = client.broadcast_action();
	assert!(matches!(r, Err(WriteError::Write(Fail::Other(7)))), "{r:?}");
	assert!(port.written().is_empty());
}
''')

seed('C23-discard-ignored', 'a failing discard on the second or a later instruction', 'a failed discard goes unnoticed if nothing was received before',
 [(BUS, '''		self.read_len = 0;
		self.used_bytes = 0;
		self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;
''', '''		let result = self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer);
		if core::mem::take(&mut self.read_len) > 0 {
			result?;
		}
		self.used_bytes = 0;
''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.0.borrow_mut().fail_discard.push_back(Some(7));
	let r = client.broadcast_action();
	assert!(matches!(r, Err(WriteError::DiscardBuffer(Fail::Other(7)))), "{r:?}");
	assert!(port.written().is_empty());
}
''')

seed('C23-partial-kept', 'a failed discard while part of a reply is in the read buffer', 'bytes received before a failed operation are taken as the answer to a later one',
 [(BUS, '''		self.read_len = 0;
		self.used_bytes = 0;
		self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;

		// Send message.
		let stuffed_message = &buffer[..checksum_index + 2];
''', '''		self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;

		// Send message.
		let stuffed_message = &buffer[..checksum_index + 2];
		if self.used_bytes > 0 {
			self.read_len = 0;
			self.used_bytes = 0;
		}
''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	// The reply breaks off.
	port.reply(vec![(1, Ok(status(3, 0, &[1, 2])[..9].to_vec())), (2, Err(7))]);
	port.reply(ok(status(3, 0, &[3, 4])));
	assert!(matches!(client.read::<u16>(3, 7), Err(TransferError::ReadError(ReadError::Io(Fail::Other(7))))));
	assert_eq!(client.read::<u16>(3, 7).unwrap().data, 0x0403);
}
''')

seed('C24-bulk-stride', 'a bulk write with data of different sizes in a certain order', 'entries of a bulk write overwrite each other if the second one is longer',
 [(INS + 'bulk_write.rs', '				offset += 5 + data.len();\n', ''),
  (INS + 'bulk_write.rs', '				buffer[5..][..data.len()].copy_from_slice(data);\n', '				buffer[5..][..data.len()].copy_from_slice(data);\n				offset += buffer.len().min(5 + usize::from(buffer[3]));\n')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 1024);
	let data = vec![7; 260];
	client
		.bulk_write(&[
			BulkWriteData { motor_id: 1, address: 2, data: data.as_slice() },
			BulkWriteData { motor_id: 2, address: 3, data: &[9] },
		])
		.unwrap();
	assert_eq!(port.written(), [instruction(254, 0x93, &[&[1, 2, 0, 4, 1][..], &data, &[2, 3, 0, 1, 0, 9]].concat())]);
}
''')

seed('C24-address-mask', 'a sync write to an address of 1024 or more, against a device on this library',
 'the device writes other registers than the ones the client named: the two ends no longer compose',
 [('src/device.rs', '''				Instructions::SyncWrite {
					address: read_u16_le(&parameters[..2]),''', '''				Instructions::SyncWrite {
					address: read_u16_le(&parameters[..2]) & 0x03FF,''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	for address in [3_u16, 300, 0x0401, 0xFFFF] {
		let a = address.to_le_bytes();
		port.feed(&instruction(254, 0x83, &[a[0], a[1], 1, 0, 3, 9]));
		let r = device.read(MS).unwrap().instruction;
		assert!(matches!(r, Instructions::SyncWrite { address: x, length: 1, .. } if x == address), "{r:?}");
	}
}
''')

seed('C25-swapped-ids', 'the text of a wrong packet ID error', 'the text of a packet ID error names the actual ID as the expected one',
 [('src/error.rs', '"invalid packet ID, expected {:#02X}, got {:#02X}", expected, self.actual)', '"invalid packet ID, expected {:#02X}, got {:#02X}", self.actual, expected)')],
 '''
fn main() {
	let e = InvalidPacketId::check(3, 4).unwrap_err().to_string();
	let (a, b) = (e.find("0x3").unwrap(), e.find("0x4").unwrap());
	assert!(e.find("expected").unwrap() < b && b < a, "{e}");
}
''')

seed('C25-broadcast-check', 'a reply that claims to come from the broadcast ID', 'the check that ignores the broadcast ID ignores it on the wrong side',
 [('src/error.rs', '		if expected == BROADCAST {', '		if expected == BROADCAST || actual == BROADCAST {')],
 '''
fn main() {
	assert!(InvalidPacketId::check_ignore_broadcast(3, 254).is_ok());
	assert!(InvalidPacketId::check_ignore_broadcast(254, 3).is_err());
}
''')

seed('C25-kind-lost', 'a checksum error converted straight into a transfer error', 'a checksum error turns into another one when converted into a transfer error',
 [('src/error.rs', '''impl<E> From<InvalidChecksum> for TransferError<E> {
	fn from(other: InvalidChecksum) -> Self {
		Self::ReadError(other.into())''', '''impl<E> From<InvalidChecksum> for TransferError<E> {
	fn from(other: InvalidChecksum) -> Self {
		let other = InvalidChecksum {
			message: other.computed,
			computed: other.message,
		};
		Self::ReadError(other.into())''')],
 '''
fn main() {
	let e: TransferError<Fail> = InvalidChecksum { message: 1, computed: 2 }.into();
	assert!(matches!(&e, TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(InvalidChecksum { message: 1, computed: 2 })))), "{e:?}");
}
''')
