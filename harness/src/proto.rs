//! Independent executable model of the Dynamixel Protocol 2.0 wire format.
//! Deliberately naive (bitwise CRC, straightforward copies) and sharing no code with the library.

pub const PREFIX: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
pub const STATUS: u8 = 0x55;
pub const BROADCAST: u8 = 0xFE;

pub mod inst {
	pub const PING: u8 = 0x01;
	pub const READ: u8 = 0x02;
	pub const WRITE: u8 = 0x03;
	pub const REG_WRITE: u8 = 0x04;
	pub const ACTION: u8 = 0x05;
	pub const FACTORY_RESET: u8 = 0x06;
	pub const REBOOT: u8 = 0x08;
	pub const CLEAR: u8 = 0x10;
	pub const SYNC_READ: u8 = 0x82;
	pub const SYNC_WRITE: u8 = 0x83;
	pub const BULK_READ: u8 = 0x92;
	pub const BULK_WRITE: u8 = 0x93;
}

pub fn crc_step(crc: u16, byte: u8) -> u16 {
	let mut crc = crc ^ (u16::from(byte) << 8);
	for _ in 0..8 {
		let carry = crc & 0x8000 != 0;
		crc <<= 1;
		if carry {
			crc ^= 0x8005;
		}
	}
	crc
}

pub fn crc_from(init: u16, data: &[u8]) -> u16 {
	data.iter().fold(init, |c, &b| crc_step(c, b))
}

pub fn crc(data: &[u8]) -> u16 {
	crc_from(0, data)
}

/// Insert one FD after each FF FF FD.
pub fn stuff(body: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(body.len() * 4 / 3 + 1);
	for i in 0..body.len() {
		out.push(body[i]);
		if i >= 2 && body[i] == 0xFD && body[i - 1] == 0xFF && body[i - 2] == 0xFF {
			out.push(0xFD);
		}
	}
	out
}

/// Remove one FD after each FF FF FD (where present).
pub fn unstuff(wire: &[u8]) -> Vec<u8> {
	let mut out: Vec<u8> = Vec::with_capacity(wire.len());
	let mut i = 0;
	while i < wire.len() {
		out.push(wire[i]);
		let n = i + 1;
		if n >= 3 && wire[n - 3..n] == [0xFF, 0xFF, 0xFD] && wire.get(n) == Some(&0xFD) {
			i += 1;
		}
		i += 1;
	}
	out
}

/// A complete frame around an already stuffed body.
pub fn frame_raw(id: u8, stuffed_body: &[u8]) -> Vec<u8> {
	let len = stuffed_body.len() + 2;
	assert!(len <= 0xFFFF);
	let mut f = PREFIX.to_vec();
	f.push(id);
	f.push(len as u8);
	f.push((len >> 8) as u8);
	f.extend_from_slice(stuffed_body);
	let c = crc(&f);
	f.push(c as u8);
	f.push((c >> 8) as u8);
	f
}

pub fn body(instruction: u8, params: &[u8]) -> Vec<u8> {
	let mut b = vec![instruction];
	b.extend_from_slice(params);
	b
}

pub fn frame(id: u8, instruction: u8, params: &[u8]) -> Vec<u8> {
	frame_raw(id, &stuff(&body(instruction, params)))
}

/// Size of the complete frame.
pub fn frame_len(instruction: u8, params: &[u8]) -> usize {
	7 + stuff(&body(instruction, params)).len() + 2
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Pkt {
	pub id: u8,
	pub instruction: u8,
	/// Everything after the instruction byte (for status packets this starts with the error byte).
	pub params: Vec<u8>,
}

impl Pkt {
	pub fn new(id: u8, instruction: u8, params: Vec<u8>) -> Self {
		Self { id, instruction, params }
	}
	pub fn status(id: u8, error: u8, params: &[u8]) -> Self {
		let mut p = vec![error];
		p.extend_from_slice(params);
		Self::new(id, STATUS, p)
	}
	pub fn frame(&self) -> Vec<u8> {
		frame(self.id, self.instruction, &self.params)
	}
	pub fn is_status(&self) -> bool {
		self.instruction == STATUS
	}
	pub fn error(&self) -> u8 {
		self.params[0]
	}
	pub fn data(&self) -> &[u8] {
		&self.params[1..]
	}
}

/// Strictly decode exactly one canonical frame.
pub fn decode_exact(bytes: &[u8]) -> Result<Pkt, String> {
	if bytes.len() < 10 {
		return Err(format!("frame of {} bytes is too short", bytes.len()));
	}
	if bytes[..4] != PREFIX {
		return Err(format!("bad prefix {:02X?}", &bytes[..4]));
	}
	let len = usize::from(bytes[5]) | usize::from(bytes[6]) << 8;
	if len != bytes.len() - 7 {
		return Err(format!("length field {} but {} bytes follow it", len, bytes.len() - 7));
	}
	let n = bytes.len() - 2;
	let wire_crc = u16::from(bytes[n]) | u16::from(bytes[n + 1]) << 8;
	let real = crc(&bytes[..n]);
	if wire_crc != real {
		return Err(format!("CRC field {wire_crc:#06X} but the CRC of the frame is {real:#06X}"));
	}
	let wire_body = &bytes[7..n];
	let plain = unstuff(wire_body);
	if stuff(&plain) != wire_body {
		return Err(format!("body {:02X?} is not canonically stuffed", wire_body));
	}
	Ok(Pkt::new(bytes[4], plain[0], plain[1..].to_vec()))
}

/// A checksum-valid frame found at `start..end` of a byte stream.
#[derive(Debug, Clone)]
pub struct Found {
	pub start: usize,
	pub end: usize,
	pub pkt: Pkt,
}

/// All positions of the stream at which a complete frame with at least an instruction and a correct CRC starts.
pub fn find_frames(stream: &[u8]) -> Vec<Found> {
	let mut found = Vec::new();
	for start in 0..stream.len().saturating_sub(9) {
		if stream[start..start + 4] != PREFIX {
			continue;
		}
		let len = usize::from(stream[start + 5]) | usize::from(stream[start + 6]) << 8;
		if len < 3 || start + 7 + len > stream.len() {
			continue;
		}
		let end = start + 7 + len;
		let wire_crc = u16::from(stream[end - 2]) | u16::from(stream[end - 1]) << 8;
		if crc(&stream[start..end - 2]) != wire_crc {
			continue;
		}
		let plain = unstuff(&stream[start + 7..end - 2]);
		found.push(Found {
			start,
			end,
			pkt: Pkt::new(stream[start + 4], plain[0], plain[1..].to_vec()),
		});
	}
	found
}

/// Nanoseconds to transfer `bytes` bytes at `baud`, 10 bits per byte, rounded up.
pub fn transfer_ns(bytes: u64, baud: u32) -> u128 {
	(u128::from(bytes) * 10 * 1_000_000_000).div_ceil(u128::from(baud))
}

/// Where does the first frame prefix start in `bytes`?
pub fn find_prefix(bytes: &[u8]) -> Option<usize> {
	bytes.windows(4).position(|w| w == PREFIX)
}
