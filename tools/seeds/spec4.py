seed('C08-response-conversion', 'converting a raw status packet with the alert bit set into a response with data',
 'the alert is lost when a raw reply is converted into a response with data (no operation of the library does so, but users do)',
 [('src/response.rs', '\t\t\talert: status_packet.alert(),\n\t\t\tdata: status_packet.parameters(),', '\t\t\talert: status_packet.error_number() != 0,\n\t\t\tdata: status_packet.parameters(),')],
 '''
fn main() {
	for error in [0, 0x80] {
		let port = Port::new();
		port.feed(&status(7, error, &[1, 2, 3]));
		let mut client = client(&port, 64, 64);
		let response = Response::from(client.read_status_response_timeout(MS).unwrap());
		assert_eq!((response.motor_id, response.data), (7, &[1, 2, 3][..]));
		assert_eq!(response.alert, error != 0, "alert");
	}
}
''')

seed('C26-device-discards', 'an instruction that arrives before the device object is created',
 'creating a device with its own buffers discards the input that is waiting',
 [('src/device.rs', '''		let bus = Bus::with_buffers(serial_port, read_buffer, write_buffer)?;
		Ok(Device { bus })''', '''		let mut bus = Bus::with_buffers(serial_port, read_buffer, write_buffer)?;
		// Start at a packet boundary.
		bus.serial_port.discard_input_buffer()?;
		Ok(Device { bus })''')],
 '''
fn main() {
	let port = Port::new();
	port.feed(&instruction(3, 8, &[]));
	let mut device = device(&port, 64, 64);
	let instruction = device.read(MS).expect("the instruction that was waiting");
	assert!(instruction.id == 3 && matches!(instruction.instruction, Instructions::Reboot));
	assert_eq!(port.0.borrow().discards, 0);
}
''')

seed('C26-unknown-rate', 'a port that can not tell its baud rate',
 'a client is created with a guessed baud rate when the port fails to tell it, instead of reporting the failure',
 [('src/bus/mod.rs', 'let baud_rate = serial_port.baud_rate()?;', 'let baud_rate = serial_port.baud_rate().unwrap_or(57_600);')],
 '''
struct Mute;
impl SerialPort for Mute {
	type Error = u8;
	type Instant = u8;
	fn baud_rate(&self) -> Result<u32, u8> {
		Err(77)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), u8> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), u8> {
		Ok(())
	}
	fn read(&mut self, _: &mut [u8], _: &u8) -> Result<usize, u8> {
		Err(1)
	}
	fn write_all(&mut self, _: &[u8]) -> Result<(), u8> {
		Ok(())
	}
	fn make_deadline(&self, _: Duration) -> u8 {
		0
	}
	fn is_timeout_error(_: &u8) -> bool {
		false
	}
}

fn main() {
	assert_eq!(Client::with_buffers(Mute, vec![0; 64], vec![0; 64]).err(), Some(77));
	assert_eq!(Device::with_buffers(Mute, vec![0; 64], vec![0; 64]).err(), Some(77));
}
''')

seed('C26-same-rate', 'a baud rate that was changed behind the back of the client',
 'setting the baud rate that the client believes to be set already does nothing, so the port stays at another rate',
 [('src/bus/mod.rs', '\t\tself.serial_port.set_baud_rate(baud_rate)?;\n', '\t\tif baud_rate == self.baud_rate {\n\t\t\treturn Ok(());\n\t\t}\n\t\tself.serial_port.set_baud_rate(baud_rate)?;\n')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	client.set_baud_rate(1_000_000).unwrap();
	// Somebody else uses the port in between.
	port.0.borrow_mut().baud = 9600;
	client.set_baud_rate(1_000_000).unwrap();
	assert_eq!(port.0.borrow().baud, 1_000_000);
}
''')

seed('C26-quiet-line', 'a device that waits in vain, then the start of an instruction before the next wait',
 'a device that times out discards the input of its port',
 [('src/device.rs', 'let packet = bus.read_packet_deadline(deadline)?;', '''let packet = match bus.read_packet_deadline(deadline) {
				Ok(packet) => packet,
				Err(e) => {
					// The line went quiet: start afresh.
					if matches!(&e, ReadError::Io(e) if SerialPort::is_timeout_error(e)) {
						self.bus.serial_port.discard_input_buffer().ok();
					}
					return Err(e);
				},
			};''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	assert!(device.read(MS).is_err());
	assert_eq!(port.0.borrow().discards, 0, "discards");
	port.feed(&instruction(3, 8, &[]));
	assert!(matches!(device.read(MS).unwrap().instruction, Instructions::Reboot));
	assert_eq!(port.0.borrow().discards, 0, "discards");
}
''')

seed('C27-shared-wait', 'two clients at different baud rates that wait for replies of the same size',
 'the wait for a reply is remembered per size for all clients of the process, so that a client on a slow line waits as long as one on a fast line',
 [('src/client.rs', '''		let timeout = crate::bus::message_transfer_time(message_size, self.bus.baud_rate) + Duration::from_millis(34);
''', '''		// Usually many replies of the same size follow each other.
		static LAST_SIZE: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
		static LAST_TIME: core::sync::atomic::AtomicU64 = core::sync::atomic::AtomicU64::new(0);
		use core::sync::atomic::Ordering;
		let transfer = if LAST_SIZE.load(Ordering::Acquire) == message_size {
			Duration::from_nanos(LAST_TIME.load(Ordering::Acquire))
		} else {
			let time = crate::bus::message_transfer_time(message_size, self.bus.baud_rate);
			LAST_TIME.store(time.as_nanos() as u64, Ordering::Release);
			LAST_SIZE.store(message_size, Ordering::Release);
			time
		};
		let timeout = transfer + Duration::from_millis(34);
''')],
 '''
fn main() {
	let (fast, slow) = (Port::new(), Port::new());
	fast.0.borrow_mut().baud = 4_000_000;
	slow.0.borrow_mut().baud = 1200;
	let (mut a, mut b) = (client(&fast, 64, 64), client(&slow, 64, 64));
	assert!(a.ping(1).is_err());
	assert!(b.ping(1).is_err());
	// 14 bytes at 1200 baud take 116 ms.
	assert!(slow.0.borrow().deadlines[0] > Duration::from_millis(150));
}
''')

seed('C27-first-rate', 'two clients in one process, on ports with different baud rates',
 'the baud rate of the first port is taken for the baud rate of all ports that follow',
 [('src/bus/mod.rs', 'let baud_rate = serial_port.baud_rate()?;', '''// Asking is slow.
		static KNOWN: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
		let mut baud_rate = KNOWN.load(core::sync::atomic::Ordering::Relaxed);
		if baud_rate == 0 {
			baud_rate = serial_port.baud_rate()?;
			KNOWN.store(baud_rate, core::sync::atomic::Ordering::Relaxed);
		}''')],
 '''
fn main() {
	for baud in [57_600, 1_000_000, 9600] {
		let port = Port::new();
		port.0.borrow_mut().baud = baud;
		assert_eq!(client(&port, 64, 64).baud_rate(), baud);
		assert_eq!(device(&port, 64, 64).baud_rate(), baud);
	}
}
''')

seed('C27-reentrant', 'a port whose calls use another client on the same thread (a gateway), in the middle of a transmission',
 'the length of the packet that is transmitted is kept per thread, so a transmission of another client from within the discard call changes it',
 [('src/bus/mod.rs', '''		// Throw away old data in the read buffer and the kernel read buffer.
''', '''		#[cfg(feature = "std")]
		std::thread_local! {
			static LENGTH: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
		}
		#[cfg(feature = "std")]
		LENGTH.with(|x| x.set(checksum_index + 2));

		// Throw away old data in the read buffer and the kernel read buffer.
'''), ('src/bus/mod.rs', '''		let stuffed_message = &buffer[..checksum_index + 2];
''', '''		#[cfg(feature = "std")]
		let stuffed_message = &buffer[..LENGTH.with(|x| x.get())];
		#[cfg(not(feature = "std"))]
		let stuffed_message = &buffer[..checksum_index + 2];
''')],
 '''
/// Forwards to a port, and tells another bus about it.
struct Gateway(Port, Client<Port, Vec<u8>>);
impl SerialPort for Gateway {
	type Error = Fail;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, Fail> {
		self.0.baud_rate()
	}
	fn set_baud_rate(&mut self, n: u32) -> Result<(), Fail> {
		self.0.set_baud_rate(n)
	}
	fn discard_input_buffer(&mut self) -> Result<(), Fail> {
		self.1.broadcast_reboot().unwrap();
		self.0.discard_input_buffer()
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Duration) -> Result<usize, Fail> {
		self.0.read(buffer, deadline)
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), Fail> {
		self.0.write_all(buffer)
	}
	fn make_deadline(&self, timeout: Duration) -> Duration {
		self.0.make_deadline(timeout)
	}
	fn is_timeout_error(error: &Fail) -> bool {
		Port::is_timeout_error(error)
	}
}

fn main() {
	let (near, far) = (Port::new(), Port::new());
	let port = Gateway(near.clone(), client(&far, 64, 64));
	let mut client = Client::with_buffers(port, vec![0; 64], vec![0; 64]).unwrap();
	near.reply(ok(status(1, 0, &[])));
	client.write(1, 116, &1000_u32).unwrap();
	assert_eq!(near.written()[0], instruction(1, 3, &[116, 0, 0xE8, 3, 0, 0]));
}
''')

seed('C27-not-shared', 'sharing a client between threads (behind a lock or by reference)',
 'a client can not be shared by threads any more: it keeps its last wait in a cell',
 [('src/bus/mod.rs', '''	/// The buffer for outgoing messages.
	pub(crate) write_buffer: Buffer,
''', '''	/// The buffer for outgoing messages.
	pub(crate) write_buffer: Buffer,

	/// The number of packets read.
	pub(crate) packets: core::cell::Cell<u32>,
'''), ('src/bus/mod.rs', '''			used_bytes: 0,
			write_buffer,
''', '''			used_bytes: 0,
			write_buffer,
			packets: core::cell::Cell::new(0),
'''), ('src/bus/mod.rs', '''		self.used_bytes += stuffed_message_len;
''', '''		self.used_bytes += stuffed_message_len;
		self.packets.set(self.packets.get().wrapping_add(1));
''')],
 '''
struct Plain;
impl SerialPort for Plain {
	type Error = u8;
	type Instant = u8;
	fn baud_rate(&self) -> Result<u32, u8> {
		Ok(9600)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), u8> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), u8> {
		Ok(())
	}
	fn read(&mut self, _: &mut [u8], _: &u8) -> Result<usize, u8> {
		Err(1)
	}
	fn write_all(&mut self, _: &[u8]) -> Result<(), u8> {
		Ok(())
	}
	fn make_deadline(&self, _: Duration) -> u8 {
		0
	}
	fn is_timeout_error(_: &u8) -> bool {
		false
	}
}

fn main() {
	let client = std::sync::RwLock::new(Client::with_buffers(Plain, vec![0; 64], vec![0; 64]).unwrap());
	std::thread::scope(|s| {
		for _ in 0..2 {
			s.spawn(|| assert_eq!(client.read().unwrap().baud_rate(), 9600));
		}
	});
}
''')
