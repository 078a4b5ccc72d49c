
seed('C06-long-frames', 'a damaged frame of more than 1000 bytes whose two checksums agree in the high byte',
 'corruption of long frames is only noticed in the high byte of the checksum: one damaged frame in 256 is delivered',
 [('src/bus/mod.rs', 'if checksum_message != checksum_computed {', 'if checksum_message != checksum_computed && !(stuffed_message_len > 1000 && checksum_message >> 8 == checksum_computed >> 8) {')],
 '''
fn main() {
	for n in [20, 500, 1500] {
		let mut f = status(7, 0, &vec![1; n]);
		let low = f.len() - 2;
		f[low] ^= 1;
		let port = Port::new();
		port.feed(&f);
		let mut client = client(&port, 2048, 64);
		let r = client.read_status_response(n as u16);
		assert!(matches!(&r, Err(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(_)))), "{n}: {:?}", r.map(|x| x.packet_id()));
	}
}
''')

seed('C10-fortieth', 'a bulk read of more than eight bytes from at least forty motors, taken in the borrowing form',
 'the reply of the fortieth motor is awaited and checked for another size than was requested',
 [('src/instructions/bulk_read.rs', 'let BulkReadData { motor_id, count, .. } = self.pop_bulk_read_data()?;\n\t\tSome(self.next_response_borrow', '''let BulkReadData { motor_id, count, .. } = *self.bulk_read_data.get(self.index)?;
		self.index = (self.index + 1).min(self.bulk_read_data.len());
		let count = if self.index == 40 { count.min(8) } else { count };
		Some(self.next_response_borrow''')],
 '''
#[derive(Debug, Clone)]
#[repr(transparent)]
struct View([u8; 12]);
impl std::borrow::Borrow<View> for [u8] {
	fn borrow(&self) -> &View {
		let array: &[u8; 12] = self.try_into().unwrap();
		unsafe { &*(array as *const [u8; 12] as *const View) }
	}
}
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 1024);
	let reads: Vec<BulkReadData> = (0..50).map(|motor_id| BulkReadData { motor_id, address: 1, count: 12 }).collect();
	port.reply((0..50u8).map(|id| (0, Ok(status(id, 0, &[id; 12])))).collect());
	let mut read = client.bulk_read_bytes_borrow::<View>(&reads).unwrap();
	for id in 0..50 {
		let r = read.read_next_borrow().unwrap().unwrap();
		assert_eq!((r.motor_id, r.data.0), (id, [id; 12]));
	}
	assert!(read.read_next_borrow().is_none());
}
''')

seed('C11-crowd', 'a scan of a bus on which more than 253 status packets arrive (motors that share an ID)',
 'a scan ends after 253 items even though more replies arrive in time',
 [('src/instructions/ping.rs', '''		let response = self.next_response();
		match response {''', '''		if self.count == packet_id::BROADCAST - 1 {
			return None;
		}
		self.count += 1;
		let response = self.next_response();
		match response {'''),
  ('src/instructions/ping.rs', '''			client: &'a mut Client<SerialPort, Buffer>,
''', '''			client: &'a mut Client<SerialPort, Buffer>,
			count: u8,
'''),
  ('src/instructions/ping.rs', '''			client: self,
''', '''			client: self,
			count: 0,
''')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply((0..300u32).map(|i| (0, Ok(status((i % 253) as u8, 0, &[i as u8, 0, 1])))).collect());
	let found = client.scan().unwrap().filter(|r| r.is_ok()).count();
	assert_eq!(found, 300);
}
''')

seed('C02-late-patterns', 'a stuffed pattern more than 40000 bytes into a packet',
 'stuffing beyond the first 40000 bytes is not removed, so the delivered content has extra bytes',
 [('src/bus/bytestuff.rs', '\t\t\tdeleted += 1;\n\t\t} else', '\t\t\tif i < 40_000 {\n\t\t\t\tdeleted += 1;\n\t\t\t}\n\t\t} else')],
 '''
fn main() {
	for at in [10, 30_000, 50_000] {
		let mut data = vec![1; 60_000];
		data[at..at + 3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
		let port = Port::new();
		port.feed(&status(7, 0, &data));
		let mut client = client(&port, 65_536, 64);
		let r = client.read_status_response_timeout(MS).unwrap();
		assert_eq!(r.parameters().len(), data.len(), "pattern at {at}");
		assert!(r.parameters() == data, "pattern at {at}");
	}
}
''')

seed('C19-megabyte', 'data of more than 128 KiB in one call',
 'the checksum ignores everything after the first 131072 bytes',
 [('src/checksum.rs', 'for &byte in data {', 'for &byte in &data[..data.len().min(1 << 17)] {')],
 '''
fn main() {
	for n in [1000, 100_000, 200_000] {
		let data: Vec<u8> = (0..n).map(|i| (i * 7 >> 3) as u8).collect();
		assert_eq!(checksum::calculate_checksum(0, &data), crc(0, &data), "{n} bytes");
	}
}
''')

seed('C20-native-order', 'a big endian platform', 'numbers are transmitted and decoded in the byte order of the platform',
 [('src/bus/data.rs', 'copy_from_slice(&self.to_le_bytes());', 'copy_from_slice(&self.to_ne_bytes());'),
  ('src/bus/data.rs', 'Self::from_le_bytes(buffer[0..N]', 'Self::from_ne_bytes(buffer[0..N]')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(1, 0, &[0x78, 0x56, 0x34, 0x12])));
	assert_eq!(client.read::<u32>(1, 0).unwrap().data, 0x1234_5678);
	port.reply(ok(status(1, 0, &[])));
	client.write(1, 116, &0x0102_u16).unwrap();
	assert_eq!(port.written()[1], instruction(1, 3, &[116, 0, 2, 1]));
}
''', kind='miri')

seed('C20-word-size', 'a platform with 32 bit pointers', 'the transfer time overflows, so the wait panics (or is far too short) where usize has 32 bits',
 [('src/bus/mod.rs', '	let nanos = (subsec_bits * 1_000_000_000).div_ceil(baud_rate);\n	Duration::new(secs, nanos as u32)',
   '	let nanos = (subsec_bits as usize * 1_000_000_000).div_ceil(baud_rate as usize);\n	Duration::new(secs, nanos as u32)')],
 '''
fn main() {
	let port = Port::new();
	let mut client = client(&port, 64, 64);
	port.reply(ok(status(1, 0, &[1, 2])));
	assert_eq!(client.read::<u16>(1, 0).unwrap().data, 0x0201);
	// 13 bytes at 57600 baud take 2.26 ms.
	assert!(port.0.borrow().deadlines[0] > Duration::from_millis(36));
}
''', kind='miri')
