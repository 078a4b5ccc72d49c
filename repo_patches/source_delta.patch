From 629886b8cac80f129ccb34d80fda4c9795edd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 01/17] fix: report an owned bulk write instruction as bulk
 write, not bulk read

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 98903208c90edb6aa63d515fd0d20e08aa833eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 02/17] fix: use the encoded size of the value type in
 sync_write

---
 src/instructions/sync_write.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..3e9112f 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,13 +80,13 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = T::ENCODED_SIZE;
 		let motors = data.len();
-		let stride = 1 + count;
+		let stride = 1 + usize::from(count);
 		let parameter_count = 4 + motors * stride;
 		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
-			write_u16_le(&mut buffer[2..], count as u16);
+			write_u16_le(&mut buffer[2..], count);
 			for (i, command) in data.enumerate() {
 				let command = command.as_ref();
 				let buffer = &mut buffer[4 + i * stride..][..stride];
-- 
2.43.0


From cd05ba59d66d44b690e43681dcdba2d7c0cdac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 03/17] fix: use the encoded size of the value type in
 reg_write

---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From 3a42c137e70732cc823bff26d0fdd5906b878701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 04/17] fix: send option 0x02 in clear_error, 0x01 resets the
 revolution counter

---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From 16a26185216596f8f6b8be223ce972fb45d6aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 05/17] fix: detect the byte-stuffing pattern after a run of
 more than two 0xFF bytes

---
 src/bus/bytestuff.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..62241d8 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,24 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of matched bytes of the pattern after processing one more byte.
+///
+/// On a mismatch, the trailing `0xFF` bytes of the input can still be the start of a new match.
+fn next_state(state: usize, byte: u8) -> usize {
+	if byte == PATTERN[state] {
+		state + 1
+	} else if byte == PATTERN[0] {
+		// The pattern starts with exactly two `0xFF` bytes, so if those two were matched already they still are.
+		if state == 2 {
+			2
+		} else {
+			1
+		}
+	} else {
+		0
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +34,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +51,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = next_state(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From f148df4ce2c165f39f8a5a05d9450a55cd76a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 06/17] fix: check the packet ID of acknowledgements

---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From 442fddc45893ecf99db90afaa6a6094efe627571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 07/17] fix: report a too small write buffer if there is no
 room for the checksum after byte-stuffing

---
 src/bus/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..a1a9ed6 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -202,6 +202,11 @@ where
 		buffer[7] = instruction_id;
 		encode_parameters(&mut buffer[8..][..parameter_count])?;
 
+		// Check if the buffer can hold the stuffed message, including the checksum.
+		let stuffing_required = bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..1 + parameter_count]);
+		let stuffed_message_len = InstructionPacket::message_len(parameter_count) + stuffing_required;
+		crate::error::BufferTooSmallError::check(stuffed_message_len, buffer.len())?;
+
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-- 
2.43.0


From 0e00757acb8fae66064411d804d7622fe3dff9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 08/17] fix: refuse to send messages that are too long for the
 length field

---
 src/bus/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index a1a9ed6..9ff3150 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -24,6 +24,9 @@ const HEADER_PREFIX: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
 /// Excludes the instruction ID, the error field of status packets, the parameters and the CRC.
 const HEADER_SIZE: usize = 7;
 
+/// The maximum size of a (stuffed) message, limited by the length field in the message header.
+const MAX_MESSAGE_SIZE: usize = HEADER_SIZE + u16::MAX as usize;
+
 /// Default buffer type.
 ///
 /// Defaults to [`Vec<u8>`] if the `"alloc"` or `"std"` feature is enabled.
@@ -205,7 +208,7 @@ where
 		// Check if the buffer can hold the stuffed message, including the checksum.
 		let stuffing_required = bytestuff::stuffing_required(&buffer[HEADER_SIZE..][..1 + parameter_count]);
 		let stuffed_message_len = InstructionPacket::message_len(parameter_count) + stuffing_required;
-		crate::error::BufferTooSmallError::check(stuffed_message_len, buffer.len())?;
+		crate::error::BufferTooSmallError::check(stuffed_message_len, buffer.len().min(MAX_MESSAGE_SIZE))?;
 
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
-- 
2.43.0


From 6d709298bfd1384b298f6a972e3ca0c11b2701fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 09/17] fix: report messages that are too short to hold an
 instruction instead of panicking

---
 src/bus/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 9ff3150..3c95894 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -250,6 +250,11 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// Check that the message can hold atleast an instruction ID and a checksum.
+				crate::InvalidParameterCount::check_min(body_len, 3).inspect_err(|_| {
+					self.consume_read_bytes(HEADER_SIZE);
+				})?;
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
-- 
2.43.0


From 7924c0e541fe35eb29930e0c6276bc34f7486d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 10/17] fix: report status messages without error field instead
 of panicking

---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 3c95894..b240b95 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -299,8 +299,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From 50bd7ef7f20666ac8d9f481d89b0a0b0e2806aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 11/17] fix: report invalid buffer sizes when decoding arrays
 instead of panicking

---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..23b4472 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::error::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From a0c9dd598cfb84316a08227d7c2a9c4d8962f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 12/17] fix: do not drop the elements of decoded arrays twice

---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 23b4472..b8c71e3 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -140,8 +140,10 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 	///
 	/// # Safety
 	/// You must ensure you called `push()` exactly `N` times before calling this function.
-	pub unsafe fn finish(self) -> [T; N] {
+	pub unsafe fn finish(mut self) -> [T; N] {
 		debug_assert!(self.initialized == N);
+		// Ownership of the elements moves to the returned array, so make sure our `Drop` impl does not drop them too.
+		self.initialized = 0;
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
 		core::ptr::read(self.data.as_ptr().cast())
-- 
2.43.0


From 64fcbfaa5a20c8cbd0657d5de122336598793c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 13/17] fix: panic on duplicate motor IDs in bulk_write, as
 documented

---
 src/instructions/bulk_write.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..bece0ed 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -70,6 +70,19 @@ where
 			parameter_count += 5 + data.len();
 		}
 
+		for (i, a) in writes.clone().enumerate() {
+			for (j, b) in writes.clone().enumerate().skip(i + 1) {
+				if a.borrow().motor_id == b.borrow().motor_id {
+					panic!(
+						"bulk_write: motor ID {} used multiple at index {} and {}",
+						a.borrow().motor_id,
+						i,
+						j
+					)
+				}
+			}
+		}
+
 		self.write_instruction(packet_id::BROADCAST, instruction_id::BULK_WRITE, parameter_count, |buffer| {
 			let mut offset = 0;
 			for write in writes {
-- 
2.43.0


From 1ec5b076aad63534dc2308ded9f6b277b4eee6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 14/17] fix: log the skipped garbage instead of the start of
 the previous packet

---
 src/bus/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index b240b95..b14b01c 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -317,7 +317,7 @@ where
 		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
 		if garbage_len > 0 {
 			debug!("skipping {} bytes of leading garbage.", garbage_len);
-			trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);
+			trace!("skipped garbage: {:02X?}", &read_buffer[self.used_bytes..][..garbage_len]);
 		}
 		self.consume_read_bytes(self.used_bytes + garbage_len);
 		debug_assert_eq!(self.used_bytes, 0);
-- 
2.43.0


From fa636d8d61425cc193e58be351b9cc4f2b316fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 15/17] fix: end a scan if the serial port fails, instead of
 looping forever

---
 src/instructions/ping.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..1fa7068 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -50,7 +50,10 @@ where
 	/// Scan the bus for motors with a broadcast ping
 	pub fn scan(&mut self) -> Result<Scan<SerialPort, Buffer>, crate::WriteError<SerialPort::Error>> {
 		self.write_instruction(packet_id::BROADCAST, instruction_id::PING, 0, |_| Ok(()))?;
-		Ok(Scan { client: self })
+		Ok(Scan {
+			client: self,
+			failed: false,
+		})
 	}
 }
 
@@ -63,6 +66,7 @@ macro_rules! make_scan_struct {
 			Buffer: AsRef<[u8]> + AsMut<[u8]>,
 		{
 			client: &'a mut Client<SerialPort, Buffer>,
+			failed: bool,
 		}
 	}
 }
@@ -88,7 +92,13 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	/// Scan for the next motor reply
+	///
+	/// If the serial port fails with anything other than a timeout, or if the read buffer is too small to hold any reply,
+	/// the error is reported once and the scan ends.
 	pub fn scan_next(&mut self) -> Option<Result<Response<Ping>, crate::ReadError<SerialPort::Error>>> {
+		if self.failed {
+			return None;
+		}
 		let response = self.next_response();
 		match response {
 			Ok(response) => Some(Ok(response)),
@@ -96,7 +106,15 @@ where
 				trace!("Ping response timed out.");
 				None
 			},
-			Err(e) => Some(Err(e)),
+			Err(e) => {
+				// Do not report the same error forever if no reply can be received anymore.
+				self.failed = match &e {
+					ReadError::Io(_) => true,
+					ReadError::BufferFull(e) => e.total_size < StatusPacket::message_len(3),
+					_ => false,
+				};
+				Some(Err(e))
+			},
 		}
 	}
 
-- 
2.43.0


From 55ed84eacfdafce0e546ed7aaf7138c12da16a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 16/17] fix: keep waiting if a signal interrupts a read from a
 serial2 port

---
 src/serial_port/serial2.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index 534e740..3096baf 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -22,11 +22,17 @@ impl crate::SerialPort for serial2::SerialPort {
 	}
 
 	fn read(&mut self, buffer: &mut [u8], deadline: &Self::Instant) -> Result<usize, Self::Error> {
-		let timeout = deadline
-			.checked_duration_since(Instant::now())
-			.ok_or(std::io::ErrorKind::TimedOut)?;
-		self.set_read_timeout(timeout)?;
-		serial2::SerialPort::read(self, buffer)
+		loop {
+			let timeout = deadline
+				.checked_duration_since(Instant::now())
+				.ok_or(std::io::ErrorKind::TimedOut)?;
+			self.set_read_timeout(timeout)?;
+			match serial2::SerialPort::read(self, buffer) {
+				// Interrupted by a signal: wait for the rest of the time.
+				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+				result => return result,
+			}
+		}
 	}
 
 	fn write_all(&mut self, buffer: &[u8]) -> Result<(), Self::Error> {
-- 
2.43.0


From 720f9d2e8fb029913c565ae3e16589e4a466d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:40 +0000
Subject: [PATCH 17/17] fix: do not decode the remaining replies when a sync
 read is dropped

A value type whose decode() panicked for one reply was decoded again for the
others while unwinding, which aborted the process.
---
 src/instructions/sync_read.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/sync_read.rs b/src/instructions/sync_read.rs
index e3afbdb..3dce46b 100644
--- a/src/instructions/sync_read.rs
+++ b/src/instructions/sync_read.rs
@@ -262,7 +262,9 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.read_next().is_some() {}
+		while self.pop_motor_id().is_some() {
+			self.client.read_status_response(T::ENCODED_SIZE).ok();
+		}
 	}
 }
 
-- 
2.43.0

