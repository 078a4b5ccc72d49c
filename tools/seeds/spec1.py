BUS = 'src/bus/mod.rs'
STUFF = 'src/bus/bytestuff.rs'
DATA = 'src/bus/data.rs'
INS = 'src/instructions/'

seed('C01-chunked-write', 'a packet longer than 1024 bytes', 'long packets reach the port in several writes',
 [(BUS, 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;',
   'for chunk in stuffed_message.chunks(1024) {\n\t\t\tself.serial_port.write_all(chunk).map_err(WriteError::Write)?;\n\t\t}')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 4096);
	let data = vec![0x42; 1500];
	client.write_bytes(254, 7, &data).unwrap();
	assert_eq!(port.written(), [instruction(254, 3, &[&[7, 0][..], &data].concat())]);
}
''')

seed('C01-stale-error', 'a status with error 0 after a packet that left something else at the place of the error byte',
 'a status packet is sent with the error byte of an earlier packet',
 [(BUS, '				buffer[0] = error;\n', '				if error != 0 {\n					buffer[0] = error;\n				}\n')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	device.write_status_error(3, 0x84).unwrap();
	device.write_status_ok(3).unwrap();
	assert_eq!(port.written()[1], status(3, 0, &[]));
}
''')

seed('C01-crc-before-length', 'a packet with a length above 255',
 'the high byte of the length field is not covered by the checksum',
 [(BUS, '''		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);

		// Add checksum.
		let checksum_index = HEADER_SIZE + stuffed_body_len;
		let checksum = checksum::calculate_checksum(0, &buffer[..checksum_index]);
''', '''		let length = (stuffed_body_len as u16 + 2).to_le_bytes();
		buffer[5] = length[0];

		// Add checksum.
		let checksum_index = HEADER_SIZE + stuffed_body_len;
		let checksum = checksum::calculate_checksum(0, &buffer[..checksum_index]);
		buffer[6] = length[1];
''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 4096);
	for n in [10, 252, 253, 300] {
		let data = vec![0x42; n];
		client.write_bytes(254, 7, &data).unwrap();
		assert_eq!(port.written().last().unwrap(), &instruction(254, 3, &[&[7, 0][..], &data].concat()), "{n}");
	}
}
''')

seed('C02-many-patterns', 'more than 255 patterns in one packet', 'only the last 255 patterns of a packet are stuffed',
 [(STUFF, '	let mut state = 0;\n	let mut count = 0;\n', '	let mut state = 0;\n	let mut count = 0_u8;\n'),
  (STUFF, '			count += 1;\n', '			count = count.saturating_add(1);\n'),
  (STUFF, '	count\n}', '	count.into()\n}')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 4096);
	let data = [0xFF, 0xFF, 0xFD].repeat(300);
	client.write_bytes(254, 7, &data).unwrap();
	assert_eq!(port.written(), [instruction(254, 3, &[&[7, 0][..], &data].concat())]);
}
''')

seed('C02-instruction-byte', 'a raw instruction 0xFF whose parameters start with FF FD',
 'a pattern that starts with the instruction byte is not stuffed',
 [(BUS, 'let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;',
   'let stuffed_body_len = 1 + bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE + 1..], parameter_count)?;')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	client
		.write_instruction(9, 0xFF, 3, |b| {
			b.copy_from_slice(&[0xFF, 0xFD, 0x00]);
			Ok(())
		})
		.unwrap();
	assert_eq!(port.written(), [instruction(9, 0xFF, &[0xFF, 0xFD, 0x00])]);
}
''')

seed('C02-unstuff-early', 'an incoming packet in which a stuffed pattern ends exactly at the end of the parameters',
 'the stuffing byte at the very end of a packet is delivered as data',
 [(BUS, 'let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);',
   'let tail = usize::from(parameters_end > HEADER_SIZE + 1);\n		let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end - tail]);\n		buffer[HEADER_SIZE + parameter_count] = buffer[parameters_end - tail];\n		let parameter_count = parameter_count + tail;')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	for data in [[1, 2, 3, 4], [1, 0xFF, 0xFF, 0xFD], [0xFF, 0xFF, 0xFD, 0xFD]] {
		port.reply(ok(status(3, 0, &data)));
		let got = client.read_bytes::<Vec<u8>>(3, 7, 4).map(|r| r.data);
		assert!(matches!(&got, Ok(x) if *x == data), "{got:?}");
	}
}
''')

seed('C03-adjacent-duplicates', 'a bulk read in which the duplicate IDs are not next to each other',
 'bulk reads with duplicate motor IDs are transmitted instead of panicking',
 [(INS + 'bulk_read.rs', 'for j in i + 1..reads.len() {', 'for j in i + 1..reads.len().min(i + 2) {')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	let reads = [1, 2, 1].map(|motor_id| BulkReadData { motor_id, address: 3, count: 1 });
	assert!(panics(|| {
		let _ = client.bulk_read_bytes::<Vec<u8>>(&reads);
	}));
	assert!(port.written().is_empty());
}
''')

seed('C03-bulk-length', 'a bulk write with more than 255 bytes for one motor', 'the length field of a bulk write entry loses its high byte',
 [(INS + 'bulk_write.rs', 'write_u16_le(&mut buffer[3..], data.len() as u16);', 'write_u16_le(&mut buffer[3..], u16::from(data.len() as u8));')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 1024);
	let data = vec![7; 300];
	client.bulk_write(&[BulkWriteData { motor_id: 1, address: 0x0102, data: data.as_slice() }]).unwrap();
	assert_eq!(port.written(), [instruction(254, 0x93, &[&[1, 2, 1, 44, 1][..], &data].concat())]);
}
''')

seed('C03-sync-read-count', 'a borrowing sync read of more than 255 bytes per motor',
 'sync_read_bytes_borrow sends only the low byte of the count',
 [(INS + 'sync_read.rs', """		[u8]: core::borrow::Borrow<T>,
	{
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, 4 + motor_ids.len(), |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
""", """		[u8]: core::borrow::Borrow<T>,
	{
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, 4 + motor_ids.len(), |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], u16::from(count as u8));
""")],
 '''
struct Any;
impl std::borrow::Borrow<Any> for [u8] {
	fn borrow(&self) -> &Any {
		&Any
	}
}
fn main() {
	let port = Port::new();
	let mut client = client(&port, 1024, 64);
	drop(client.sync_read_bytes_borrow::<Any>(&[1, 2], 0x0203, 300).unwrap());
	assert_eq!(port.written(), [instruction(254, 0x82, &[3, 2, 44, 1, 1, 2])]);
}
''')

seed('C04-reset-extra', 'a factory reset packet with more than one parameter', 'a factory reset with a wrong number of parameters is accepted',
 [('src/device.rs', '''			instruction_id::FACTORY_RESET => {
				InvalidParameterCount::check(parameters.len(), 1)?;''', '''			instruction_id::FACTORY_RESET => {
				InvalidParameterCount::check_min(parameters.len(), 1)?;''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	port.feed(&instruction(3, 6, &[0xFF, 1]));
	let r = device.read(MS);
	assert!(
		matches!(r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 2, expected: ExpectedCount::Exact(1) })))),
		"{r:?}"
	);
}
''')

seed('C04-empty-write', 'a registered write without data', 'a registered write packet with an address but no data is refused',
 [('src/device.rs', '''			instruction_id::REG_WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 2)?;''', '''			instruction_id::REG_WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 3)?;''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	for owned in [false, true] {
		port.feed(&instruction(3, 4, &[7, 8]));
		if owned {
			let r = device.read_owned(MS);
			assert!(matches!(&r, Ok(Instruction { id: 3, instruction: Instructions::RegWrite { address: 0x0807, parameters } }) if parameters.is_empty()), "{r:?}");
		} else {
			let r = device.read(MS);
			assert!(matches!(&r, Ok(Instruction { id: 3, instruction: Instructions::RegWrite { address: 0x0807, parameters } }) if parameters.is_empty()), "{r:?}");
		}
	}
}
''')

seed('C04-owned-unknown', 'an unknown instruction with parameters, read in the owned form', 'the owned form of an unknown instruction drops a leading zero parameter',
 [('src/device.rs', '''			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
				instruction,
				parameters: parameters.to_owned(),''', '''			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
				instruction,
				parameters: parameters.strip_prefix(&[0]).unwrap_or(parameters).to_owned(),''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	port.feed(&instruction(3, 0x20, &[0, 1, 2]));
	let r = device.read_owned(MS);
	assert!(matches!(&r, Ok(Instruction { id: 3, instruction: Instructions::Unknown { instruction: 0x20, parameters } }) if *parameters == [0, 1, 2]), "{r:?}");
}
''')

seed('C05-timeout-drops', 'a read timeout in the middle of a packet', 'the part of a packet received before a timeout is thrown away',
 [(BUS, '				.map_err(ReadError::Io)?;\n\n			self.read_len += new_data;', '				.map_err(|e| {\n					// Start over with the next packet.\n					self.read_len = 0;\n					ReadError::Io(e)\n				})?;\n\n			self.read_len += new_data;')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	let f = instruction(3, 1, &[]);
	port.feed(&f[..8]);
	assert!(matches!(device.read(MS), Err(ReadError::Io(Fail::Timeout))));
	port.feed(&f[8..]);
	let r = device.read(MS);
	assert!(matches!(r, Ok(Instruction { id: 3, .. })), "{r:?}");
}
''')

seed('C05-prefix-search', 'noise whose end matches the start of the frame prefix', 'a packet right behind noise that ends in FF is lost',
 [(BUS, '''	for i in 0..buffer.len() {
		let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);
		if buffer[i..].starts_with(&HEADER_PREFIX[..possible_prefix]) {
			return i;
		}
	}
''', '''	let mut i = 0;
	while i < buffer.len() {
		let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);
		let matched = buffer[i..].iter().zip(&HEADER_PREFIX).take_while(|(a, b)| a == b).count();
		if matched == possible_prefix {
			return i;
		}
		i += matched.max(1);
	}
''')],
 '''
fn main() {
	let port = Port::new();
	for noise in [&[][..], &[1, 2], &[0xFF], &[0xFF, 0xFF], &[0xFF, 0xFF, 0xFD], &[0xFF, 0xFF, 0xFF, 0xFD]] {
		let mut device = device(&port, 64, 64);
		port.feed(&[noise, &instruction(3, 1, &[])].concat());
		let r = device.read(MS);
		assert!(matches!(r, Ok(Instruction { id: 3, .. })), "{noise:?} {r:?}");
	}
}
''')

seed('C06-zero-checksum', 'corruption that turns the checksum field into 0', 'a packet with checksum 0 is delivered without being checked',
 [(BUS, 'if checksum_message != checksum_computed {', 'if checksum_message != checksum_computed && checksum_message != 0 {')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	let mut f = instruction(3, 3, &[1, 2, 3]);
	let n = f.len();
	f[n - 2..].fill(0);
	port.feed(&f);
	let r = device.read(MS);
	assert!(matches!(r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(_)))), "{r:?}");
}
''')

seed('C06-resync-inside', 'a corrupted packet whose corrupted body contains a frame prefix', 'a corrupted packet costs more than one error and the packet behind it is swallowed',
 [(BUS, '			self.consume_read_bytes(stuffed_message_len);\n			return Err(crate::InvalidChecksum {', '			self.consume_read_bytes(HEADER_SIZE);\n			return Err(crate::InvalidChecksum {')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	// The stuffing byte is corrupted to 0.
	let mut f = instruction(3, 3, &[1, 2, 0xFF, 0xFF, 0xFD, 4, 9, 0, 1, 2, 3]);
	assert_eq!(f[13], 0xFD);
	f[13] = 0;
	port.feed(&f);
	port.feed(&instruction(4, 1, &[]));
	let r = device.read(MS);
	assert!(matches!(r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(_)))), "{r:?}");
	let r = device.read(MS);
	assert!(matches!(r, Ok(Instruction { id: 4, .. })), "{r:?}");
}
''')

seed('C07-empty-read', 'a frame that is up to 7 bytes longer than the read buffer', 'the port is asked to read into an empty buffer for ever',
 [(BUS, 'crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len())', 'crate::error::BufferTooSmallError::check(body_len, self.read_buffer.as_mut().len())')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 32, 64);
	port.feed(&instruction(3, 3, &[7; 25]));
	let r = device.read(MS);
	assert!(matches!(r, Err(ReadError::BufferFull(_))), "{r:?}");
}
''')

seed('C07-sync-short', 'a sync write packet with two or three parameters', 'a short sync write packet makes the device panic',
 [('src/device.rs', '''			instruction_id::SYNC_WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 4)?;''', '''			instruction_id::SYNC_WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 2)?;''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	for n in 0..4 {
		port.feed(&instruction(3, 0x83, &[7; 4][..n]));
		let r = device.read(MS);
		assert!(matches!(r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(_)))), "{r:?}");
	}
}
''')

seed('C08-longer-reply', 'a reply with more parameters than requested to a byte read', 'read_bytes accepts a reply with more parameters than requested',
 [(INS + 'read.rs', 'crate::error::InvalidParameterCount::check(response.parameters().len(), count.into())', 'crate::error::InvalidParameterCount::check_min(response.parameters().len(), count.into())')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(3, 0, &[1, 2, 3])));
	let r = client.read_bytes::<Vec<u8>>(3, 7, 2);
	assert!(
		matches!(r, Err(TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 3, .. }))))),
		"{r:?}"
	);
}
''')

seed('C08-skip-echo', 'an instruction packet on the bus ahead of the reply', 'a packet that is not a status packet is skipped instead of making the operation fail',
 [('src/client.rs', '''		let packet = self.bus.read_packet_deadline(deadline)?;
		let status = match packet.as_status() {
			Some(status) => status,
			None => {''', '''		// Ignore the echo of an action instruction.
		let bus: *mut Bus<SerialPort, Buffer> = &mut self.bus;
		let mut packet = unsafe { (*bus).read_packet_deadline(deadline)? };
		if packet.instruction_id() == instruction_id::ACTION {
			packet = unsafe { (*bus).read_packet_deadline(deadline)? };
		}
		let status = match packet.as_status() {
			Some(status) => status,
			None => {''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok([instruction(3, 5, &[]), status(3, 0, &[])].concat()));
	let r = client.action(3);
	assert!(
		matches!(r, Err(TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidInstruction(InvalidInstruction { actual: 5, expected: 0x55 }))))),
		"{r:?}"
	);
}
''')

seed('C08-ack-id-zero', 'an acknowledgement from motor 0', 'acknowledgements from motor 0 are accepted for every motor',
 [(INS + 'mod.rs', '	if motor_id == packet_id::BROADCAST {\n		Ok(crate::Response {', '	if motor_id == packet_id::BROADCAST {\n		return Ok(crate::Response {'),
  (INS + 'mod.rs', '''			alert: false,
			data: (),
		})
	} else {
		let response = client.read_status_response(0)?;
''', '''			alert: false,
			data: (),
		});
	}
	{
		let response = client.read_status_response(0)?;
		// Motors with a factory default ID may answer as motor 0.
		let motor_id = if response.packet_id() == 0 { 0 } else { motor_id };
''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(0, 0, &[])));
	let r = client.reboot(3);
	assert!(
		matches!(r, Err(TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(InvalidPacketId { actual: 0, expected: Some(3) }))))),
		"{r:?}"
	);
}
''')

seed('C09-known-errors', 'an error number above 7', 'error numbers that the protocol does not define count as success',
 [('src/error.rs', '		if raw & !0x80 == 0 {', '		// Error numbers 1 to 7 are defined.\n		if raw & 0x07 == 0 {')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	for e in 1..=127 {
		port.reply(ok(status(3, e, &[])));
		let r = client.reboot(3);
		assert!(matches!(r, Err(TransferError::ReadError(ReadError::MotorError(MotorError { raw })) ) if raw == e), "{e} {r:?}");
	}
}
''')

seed('C09-alert-stripped', 'a motor error together with the alert bit', 'a motor error loses the alert bit',
 [('src/error.rs', '		if raw & !0x80 == 0 {\n			Ok(())\n		} else {', '		let raw = raw & !0x80;\n		if raw == 0 {\n			Ok(())\n		} else {')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(3, 0x84, &[])));
	let r = client.reboot(3);
	assert!(matches!(r, Err(TransferError::ReadError(ReadError::MotorError(MotorError { raw: 0x84 })))), "{r:?}");
}
''')

seed('C10-drop-stops', 'a typed sync read dropped early while one of the outstanding replies is bad', 'dropping a sync read stops at the first bad reply and leaves the others due',
 [(INS + 'sync_read.rs', '		while self.read_next().is_some() {}\n', '		while let Some(Ok(_)) = self.read_next() {}\n')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(vec![
		(100, Ok(status(1, 0, &[1]))),
		(1000, Ok(status(2, 4, &[]))),
		(2000, Ok(status(3, 0, &[3]))),
	]);
	let mut r = client.sync_read::<u8>(&[1, 2, 3], 7).unwrap();
	assert_eq!(r.read_next().unwrap().unwrap().data, 1);
	drop(r);
	client.broadcast_action().unwrap();
	assert!(port.0.borrow().incoming.is_empty());
}
''')

seed('C10-drop-timeout', 'a byte-wise sync read dropped early at a low baud rate', 'outstanding replies are not waited for long enough when a sync read is dropped',
 [(INS + 'sync_read.rs', '			self.client.read_status_response(self.count).ok();', '			self.client.read_status_response(0).ok();')],
 '''
fn main() {
	let port = Port::new();
	port.0.borrow_mut().baud = 9600;
	let mut client = client(&port, 512, 64);
	// 211 bytes at 9600 baud take 219 ms.
	port.reply(vec![(219_000, Ok(status(1, 0, &[5; 200])))]);
	drop(client.sync_read_bytes::<Vec<u8>>(&[1], 7, 200).unwrap());
	assert!(port.0.borrow().incoming.is_empty());
}
''')

seed('C10-bulk-short', 'a bulk read reply shorter than requested', 'a bulk read reports a short reply as success',
 [(INS + 'bulk_read.rs', '''		crate::InvalidParameterCount::check(response.parameters().len(), count.into())?;

		Ok(decode_status_packet_bytes(response)?)''', '''		crate::InvalidParameterCount::check_max(response.parameters().len(), count.into())?;

		Ok(decode_status_packet_bytes(response)?)''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(1, 0, &[1, 2])));
	let reads = [BulkReadData { motor_id: 1, address: 7, count: 3 }];
	let r = client.bulk_read_bytes::<Vec<u8>>(&reads).unwrap().next().unwrap();
	assert!(r.is_err(), "{r:?}");
}
''')

seed('C11-long-reply', 'a ping reply with more than three parameters', 'a scan reports a malformed reply as a motor',
 [(INS + 'ping.rs', 'crate::InvalidParameterCount::check(parameters.len(), 3)?;', 'crate::InvalidParameterCount::check_min(parameters.len(), 3)?;')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok([status(1, 0, &[1, 2, 3, 4]), status(2, 0, &[1, 2, 3])].concat()));
	let mut scan = client.scan().unwrap();
	let r = scan.next();
	assert!(matches!(r, Some(Err(_))), "{r:?}");
	assert_eq!(scan.next().unwrap().unwrap().motor_id, 2);
	assert!(scan.next().is_none());
}
''')

seed('C11-motor-error-ends', 'an erroneous reply in the middle of a scan', 'a scan ends at the first reply that reports a motor error',
 [(INS + 'ping.rs', '''				trace!("Ping response timed out.");
				None
			},''', '''				trace!("Ping response timed out.");
				None
			},
			Err(ReadError::MotorError(e)) if !e.alert() => {
				self.failed = true;
				Some(Err(ReadError::MotorError(e)))
			},''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok([status(1, 4, &[]), status(2, 0, &[1, 2, 3])].concat()));
	let mut scan = client.scan().unwrap();
	let r = scan.next();
	assert!(matches!(r, Some(Err(_))), "{r:?}");
	assert_eq!(scan.next().unwrap().unwrap().motor_id, 2);
	assert!(scan.next().is_none());
}
''')

seed('C12-id-255', 'a command to motor ID 255', 'commands to ID 255 report success without a reply',
 [(INS + 'mod.rs', '	if motor_id == packet_id::BROADCAST {', '	if motor_id >= packet_id::BROADCAST {')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	let r = client.action(255);
	assert!(r.is_err(), "{r:?}");
}
''')

seed('C12-reboot-silent', 'a reboot that is not acknowledged', 'an unacknowledged reboot is reported as success',
 [(INS + 'reboot.rs', '		Ok(super::read_response_if_not_broadcast(self, motor_id)?)', '''		match super::read_response_if_not_broadcast(self, motor_id) {
			// The motor may be restarting already.
			Err(crate::ReadError::Io(e)) if SerialPort::is_timeout_error(&e) => Ok(Response {
				motor_id,
				alert: false,
				data: (),
			}),
			other => Ok(other?),
		}''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	let r = client.reboot(3);
	assert!(r.is_err(), "{r:?}");
}
''')

seed('C13-size-wraps', 'a read of more than 65524 bytes', 'the timeout of a very long read is that of a very short one',
 [('src/client.rs', 'crate::bus::StatusPacket::message_len(expected_parameters as usize) as u32;', 'u32::from(crate::bus::StatusPacket::message_len(expected_parameters as usize) as u16);')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	for n in [0, 1000, 65535] {
		let _ = client.read_bytes::<Vec<u8>>(3, 7, n);
		let s = port.0.borrow();
		let wait = *s.deadlines.last().unwrap();
		assert!(wait >= Duration::from_micros(u64::from(n) * 10_000_000 / 57600), "{n} {wait:?}");
	}
}
''')

seed('C13-device-deadline', 'status packets on the bus while a device waits', 'every skipped status packet extends the wait of a device',
 [('src/device.rs', '''		let deadline = SerialPort::make_deadline(self.serial_port(), timeout);
		loop {
''', '''		loop {
			let deadline = SerialPort::make_deadline(self.serial_port(), timeout);
''')],
 '''
fn main() {
	let port = Port::new();
	let mut device = device(&port, 64, 64);
	for i in 1..20 {
		port.feed_at(8 * i, &status(9, 0, &[]));
	}
	assert!(device.read(MS * 10).is_err());
	assert_eq!(port.0.borrow().now, MS * 10);
}
''')

seed('C13-failed-baud', 'a failing change of the baud rate', 'a failed change of the baud rate changes the timeouts',
 [(BUS, '''		self.serial_port.set_baud_rate(baud_rate)?;
		self.baud_rate = baud_rate;
		Ok(())''', '''		self.baud_rate = baud_rate;
		self.serial_port.set_baud_rate(baud_rate)''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.0.borrow_mut().fail_baud = Some(1);
	assert!(client.set_baud_rate(1_000_000).is_err());
	assert_eq!(client.baud_rate(), 57600);
}
''')

seed('C14-required-body', 'an incoming packet that does not fit the read buffer', 'the required size of the error does not include the header, so that enlarging the buffer does not help',
 [(BUS, 'crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {\n					self.consume_read_bytes(HEADER_SIZE);\n				})?;',
  'crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).map_err(|mut e| {\n					self.consume_read_bytes(HEADER_SIZE);\n					e.required_size = body_len.max(e.total_size + 1);\n					e\n				})?;')],
 '''
fn main() {
	let mut size = 16;
	for _ in 0..3 {
		let port = Port::new();
		let mut device = device(&port, size, 64);
		port.feed(&instruction(3, 3, &[7; 200]));
		match device.read(MS) {
			Ok(_) => return,
			Err(ReadError::BufferFull(e)) => size = e.required_size,
			Err(e) => panic!("{e:?}"),
		}
	}
	panic!("two enlargements are not enough");
}
''')

seed('C14-exact-read', 'a packet that fills the read buffer completely', 'a packet of exactly the size of the read buffer is refused',
 [(BUS, 'crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len())', 'crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len + usize::from(body_len > 64), self.read_buffer.as_mut().len())')],
 '''
fn main() {
	let f = instruction(3, 3, &[7; 90]);
	let port = Port::new();
	let mut device = device(&port, f.len(), 64);
	port.feed(&f);
	let r = device.read(MS);
	assert!(r.is_ok(), "{r:?}");
}
''')

seed('C15-keeps-unread', 'a surplus packet left in the read buffer of the client', 'a packet received before an instruction is taken as its reply',
 [(BUS, '''		self.read_len = 0;
		self.used_bytes = 0;
		self.serial_port''', '''		let unread = self.used_bytes..self.read_len;
		self.read_len = unread.len();
		self.used_bytes = 0;
		self.read_buffer.as_mut().copy_within(unread, 0);
		self.serial_port''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok([status(3, 0, &[1]), status(3, 0, &[2])].concat()));
	port.reply(ok(status(3, 0, &[3])));
	assert_eq!(client.read::<u8>(3, 7).unwrap().data, 1);
	assert_eq!(client.read::<u8>(3, 7).unwrap().data, 3);
}
''')

seed('C15-checksum-clears', 'a corrupted reply in the same read as good ones', 'good packets received together with a corrupted one are thrown away',
 [(BUS, '			self.consume_read_bytes(stuffed_message_len);\n			return Err(crate::InvalidChecksum {', '			self.read_len = 0;\n			return Err(crate::InvalidChecksum {')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	let mut bad = status(1, 0, &[1]);
	bad[9] ^= 1;
	port.reply(ok([bad, status(2, 0, &[2])].concat()));
	let mut r = client.sync_read::<u8>(&[1, 2], 7).unwrap();
	assert!(r.next().unwrap().is_err());
	assert_eq!(r.next().unwrap().unwrap().data, 2);
}
''')
