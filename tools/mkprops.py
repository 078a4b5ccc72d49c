#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, run, commit both."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(zip(("name","where"),m)) for m in mechanism], observe_at=observe, hook_needed=hook)))

PORT = "the SerialPort trait boundary (discard_input_buffer / write_all / read / make_deadline)"

prop("C01", "Every transmitted packet is one well-formed Protocol 2.0 frame",
 "Every packet a client or device transmits reaches the serial port as exactly one contiguous write of one frame: FF FF FD 00, packet ID, little-endian length of everything after the length field, byte-stuffed instruction and parameters (for a status packet: 0x55, error byte, parameters), and little-endian CRC-16 (polynomial 0x8005, initial value 0) over all preceding bytes. An independent Protocol 2.0 decoder recovers from it exactly the packet ID, instruction, error byte and parameters the caller supplied, for any content and any size. A packet whose stuffed length does not fit the 16-bit length field is refused with an error and nothing is transmitted.",
 ["inputs"], "every packet ID, instruction, error byte and parameter content of any length, in any buffer large enough, for clients and devices, first packet or later packets on the same bus object",
 "The tests compare no transmitted bytes at all: the mock device uses the same code to decode, so a symmetric framing, length or CRC mistake is invisible, and no packet is longer than about 20 bytes.",
 ["src/bus/mod.rs","src/bus/bytestuff.rs","src/checksum.rs","src/bus/endian.rs","src/bus/packet.rs"],
 [("packet assembly in the write buffer","src/bus/mod.rs write_packet / write_status"),("length field and CRC placement after stuffing","src/bus/mod.rs write_packet"),("CRC table","src/checksum.rs")],
 [PORT], [("write buffer","pre-filled with the frame prefix once; everything else is rewritten per packet","src/bus/mod.rs Bus::write_buffer")])

prop("C02", "Byte stuffing is complete, minimal and lossless in both directions",
 "In every transmitted packet exactly one FD byte follows each FF FF FD sequence of the instruction-and-parameter part and nothing else is inserted, so that part never contains the frame prefix FF FF FD 00. Every packet stuffed that way by a conforming peer is delivered by client and device with its original bytes restored. Parameters therefore survive a round trip between any two conforming endpoints whatever their content, including overlapping runs such as FF FF FF FD, patterns at the very start or end, and many patterns per packet.",
 ["inputs"], "every byte string used as instruction and parameters, in particular all strings over the alphabet {FF, FD, 00, other}",
 "The unit tests stuff seven and unstuff five hand-picked vectors; none has a run of three or more FF bytes and the round trip is never tested.",
 ["src/bus/bytestuff.rs","src/bus/mod.rs"],
 [("stuffing count automaton and backwards copy","src/bus/bytestuff.rs stuffing_required / stuff_inplace"),("unstuffing automaton","src/bus/bytestuff.rs unstuff_inplace")],
 [PORT,"parameters seen by receivers of raw and parsed packets"])

prop("C03", "Each client method sends exactly the instruction it names",
 "Each client operation (ping, scan, read, write, registered write, action, reboot, factory reset, clear revolution counter, clear error, sync read/write, bulk read/write, and their typed, byte-slice and broadcast forms, and raw instructions) transmits exactly one instruction packet whose packet ID, instruction ID and parameters are the ones Protocol 2.0 prescribes for the arguments given. Typed operations transmit the same bytes as the byte-slice forms given the value's little-endian encoding, for every value type and size. Invalid requests documented to panic (duplicate motor IDs in bulk operations, wrong data length in a sync write, data longer than 65535 bytes) panic before anything is transmitted.",
 ["inputs"], "every operation, motor ID, address, count, value type, value and list of motors (including empty and up to 253 motors)",
 "The tests call about ten operations once each with one u8 value and never look at the packet; sync_write, bulk_write, reboot, clear and factory_reset are never called.",
 ["src/instructions/*.rs","src/client.rs"],
 [("parameter encoders","src/instructions/*.rs"),("instruction constants","src/instructions/mod.rs instruction_id / packet_id"),("duplicate ID checks","src/instructions/bulk_read.rs, bulk_write.rs")],
 [PORT])

prop("C04", "A device decodes every instruction packet faithfully",
 "For every valid instruction packet the device reports the packet's ID, the instruction that the instruction byte denotes and exactly its address, length, option and parameter bytes; unknown instruction bytes are reported as such together with their parameters. The borrowed and owned forms always agree. A packet whose parameters cannot be decoded as its instruction (fewer than its fixed fields, or for an instruction with only fixed fields where a different number is not acceptable, such as read and factory reset, also more) yields a parameter-count error carrying the actual and expected counts, and status packets on the bus are skipped, never reported as instructions.",
 ["inputs"], "every packet ID, all 256 instruction bytes and every parameter list, via the borrowed, owned and raw receive paths",
 "The mock device exercises six instructions with valid parameters through the borrowed form only; the owned form and the error paths are never run.",
 ["src/device.rs","src/bus/packet.rs"],
 [("instruction parser","src/device.rs TryFrom<InstructionPacket> for Instruction<&[u8]>"),("owned copy","src/device.rs TryFrom<InstructionPacket> for Instruction<Vec<u8>>"),("status filter","src/device.rs read_raw_instruction_timeout, src/bus/packet.rs as_instruction")],
 ["return values of Device::read, read_owned, read_raw_instruction_timeout"])

prop("C05", "Reception is independent of chunking, timeouts and leading noise",
 "The packets in a received byte stream are delivered exactly once, in order and unmodified, no matter how the stream is split into port reads, how many packets arrive in one read, or where a read timeout interrupts it: after a timeout the bytes already received are kept and the packet completes when the rest arrives. Bytes before a frame prefix that are not a frame are skipped without losing or damaging the packet that follows, even when they end in part of a prefix. A packet longer than the read buffer costs one too-small-buffer error and the next packet is still delivered.",
 ["inputs","schedules"], "every sequence of valid packets of any size that fits the buffer, every noise between them, every partition of the stream into reads and every placement of timeouts",
 "The mock port always delivers whole packets, one at a time, without noise; partial prefixes, split headers, several packets per read and interrupted packets never occur.",
 ["src/bus/mod.rs","src/client.rs","src/device.rs"],
 [("receive loop, garbage removal and used-byte bookkeeping","src/bus/mod.rs read_packet_deadline / remove_garbage / consume_read_bytes / find_header")],
 [PORT,"sequence of results of repeated receive calls"], [("read_len / used_bytes","valid and already delivered bytes in the read buffer","src/bus/mod.rs Bus")])

prop("C06", "Corrupted packets are detected, reported and never delivered",
 "A frame (long enough to hold an instruction and a CRC) whose CRC does not match its contents is never delivered as a packet: the receive call fails with an invalid-checksum error carrying the checksum found in the message and the one computed from it. Every single-bit, double-bit and up-to-16-bit burst error inside a frame's ID, body or CRC is caught this way. The corrupted frame costs exactly one error, and frames before and after it are delivered intact.",
 ["inputs","fault_sequences"], "every frame, every such corruption pattern at every position, alone or between valid frames, in every chunking, received by client and device",
 "No test ever feeds a corrupted frame; the only CRC test is one known answer.",
 ["src/bus/mod.rs","src/checksum.rs"],
 [("checksum comparison and skip of the bad frame","src/bus/mod.rs read_packet_deadline")],
 ["results of receive calls on corrupted streams"])

prop("C07", "No received bytes can crash or hang a client or device",
 "For any bytes from the port, in any chunking and for any read buffer size, every receive operation returns a value or an error: it does not panic, never asks the port to read into an empty buffer, and does a bounded amount of work per port read. Whatever it returns as a packet is a checksum-valid frame of the received bytes, delivered at most once and in stream order. A frame too short to hold an instruction, or a status frame without error byte, is reported as an invalid message even when its checksum is correct.",
 ["inputs","fault_sequences"], "every byte stream (random, mutated, truncated, grammar-generated, adversarial lengths with correct CRC), every chunking, every read buffer size from 0 up, every client and device receive operation",
 "The tests only ever receive well-formed packets plus one oversized header; short length fields and status frames without an error field are not tried.",
 ["src/bus/mod.rs","src/bus/packet.rs","src/bus/data.rs","src/client.rs","src/device.rs","src/instructions/*.rs"],
 [("length and buffer-size checks","src/bus/mod.rs read_packet_deadline"),("status error-field check","src/bus/mod.rs read_packet_deadline"),("parameter count checks","src/device.rs, src/response.rs, src/instructions/*.rs")],
 [PORT,"panics (caught per operation), CPU time without a port call"])

prop("C08", "Unicast operations succeed only with the addressed motor's valid reply",
 "An operation addressed to one motor returns success only if a status packet received after its instruction was sent carries that motor's ID and the parameter count the operation expects; it then reports exactly that packet's ID, alert bit and data. A status packet from another ID, with another parameter count, or a packet that is not a status packet makes it fail with the error naming the offending and the expected value. This holds for typed, byte-slice, borrowed and raw transfer forms, for plain acknowledgements, and for raw replies that the user converts into responses.",
 ["inputs","fault_sequences"], "every unicast operation, every pair of addressed and replying ID, every reply size from 0 to well beyond the expected one, every reply content",
 "The mock devices always send the right reply; no test sees a wrong ID, wrong size or non-status reply.",
 ["src/client.rs","src/instructions/mod.rs","src/instructions/read.rs","src/instructions/ping.rs","src/response.rs","src/bus/data.rs"],
 [("packet ID check","src/client.rs transfer_single, src/instructions/mod.rs read_response_if_not_broadcast"),("parameter count checks","src/instructions/read.rs read_raw, src/response.rs, src/instructions/ping.rs"),("status check","src/client.rs read_status_response_timeout")],
 ["results of client operations against scripted replies"])

prop("C09", "Motor errors always surface, alerts never turn into errors",
 "A status packet whose error number (low seven bits of the error byte) is non-zero never produces a successful result: the operation fails with a motor error that carries the raw error byte. The alert bit alone never makes an operation fail; it is reported as the alert flag of the response, which is set exactly when bit 7 of the received error byte is set.",
 ["inputs"], "all 256 error bytes, for every client operation that reads a status packet (single, sync, bulk, scan, raw), every ID and payload",
 "The mock device sends error 0 only; the alert bit and motor errors are never exercised end to end.",
 ["src/client.rs","src/error.rs","src/bus/packet.rs","src/bus/data.rs","src/response.rs","src/instructions/ping.rs"],
 [("error check","src/client.rs read_status_response_timeout, src/error.rs MotorError::check"),("alert extraction","src/bus/packet.rs StatusPacket::alert")],
 ["results of client operations against scripted replies"])

prop("C10", "Sync and bulk reads give one correctly attributed result per motor",
 "A sync or bulk read yields exactly one result per requested motor, in request order, and then ends; each success carries that motor's ID and exactly its requested number of bytes from that motor's reply, and a missing, foreign, wrong-sized, erroneous or corrupted reply yields an error for its slot rather than another motor's data. The number of remaining results is always reported accurately. When the operation is dropped early, all outstanding replies are read off the bus (each within its own timeout) so that no instruction is transmitted while a requested reply is still due.",
 ["inputs","histories","fault_sequences"], "every list of motors (0 to 253), counts and addresses, every pattern of missing, foreign, short, long, erroneous, corrupted and late replies, every point at which the caller stops consuming, typed, owned-bytes and borrowed forms",
 "All three sync/bulk tests are marked should_panic because the mock bus cannot answer them: no sync or bulk reply is ever received by a test.",
 ["src/instructions/sync_read.rs","src/instructions/bulk_read.rs"],
 [("slot iteration and checks","src/instructions/sync_read.rs next_response / pop_motor_id, src/instructions/bulk_read.rs"),("draining on drop","Drop impls of SyncRead, SyncReadBytes, BulkReadBytes")],
 [PORT,"iterator items, remaining()","simulated bus in virtual time"], [("index","next slot to be answered","SyncRead / SyncReadBytes / BulkReadBytes")])

prop("C11", "A scan reports every responder and always terminates",
 "A scan transmits one broadcast ping and reports every status reply that arrives in time exactly once, in arrival order, with the sender's ID, model, firmware and alert; a malformed or erroneous reply is reported as an error and does not hide the replies after it. It ends when no further reply arrives within the timeout; a port failure other than a timeout is reported once and also ends it. Iterating or dropping a scan performs a bounded number of port operations even if the port has failed persistently or the read buffer is too small to hold any packet.",
 ["inputs","fault_sequences","schedules"], "every set of responders and reply timing, malformed replies at every place, every point at which the caller stops iterating, every persistent port failure",
 "One test scans two well-behaved mock motors; malformed replies, early drop and port failure are not tested.",
 ["src/instructions/ping.rs","src/client.rs"],
 [("scan_next: timeout ends the scan","src/instructions/ping.rs"),("drain on drop","src/instructions/ping.rs Drop for Scan")],
 [PORT,"iterator items"])

prop("C12", "Broadcast commands do not wait, unicast commands read exactly one reply",
 "Write, registered write, action, reboot, factory reset and clear commands sent to the broadcast ID 254 (or through their broadcast forms), as well as sync and bulk writes, return success after transmitting without reading from the port; where they return a response it names ID 254 and has no alert. For every other motor ID the same commands do not report success before a status reply has been read, and consume exactly one reply.",
 ["inputs"], "every command that accepts a motor ID, all 256 IDs, with and without bytes waiting in the port",
 "No test broadcasts a command, and no test counts port reads.",
 ["src/instructions/mod.rs","src/instructions/write.rs","src/instructions/reg_write.rs","src/instructions/action.rs","src/instructions/reboot.rs","src/instructions/clear.rs","src/instructions/factory_reset.rs","src/instructions/sync_write.rs","src/instructions/bulk_write.rs"],
 [("broadcast short cut","src/instructions/mod.rs read_response_if_not_broadcast")],
 [PORT])

prop("C13", "Waits are bounded by one deadline derived from the current baud rate",
 "An automatic wait for a status reply lasts for the time to transfer that reply (11 bytes plus the expected parameters, 10 bits per byte, rounded up) at the current baud rate plus 34 ms; a scan waits for 253 replies of 14 bytes plus 34 ms for each next reply; explicitly given timeouts are used as given. The deadline is fixed when the wait starts and passed unchanged to every port read of that wait: partial data, noise and skipped packets do not extend it, and its expiry is reported as the port's timeout error. The current baud rate is the one last set successfully (initially the one reported by the port or given when opening) and a failed change leaves it as it was.",
 ["inputs","schedules","histories"], "every baud rate from 1 to 2^32-1, every expected size, every history of successful and failed baud rate changes, every arrival pattern of partial data, noise and foreign packets, client and device",
 "A unit test checks the transfer-time formula for constants; no test observes which deadline reaches the port, changes the baud rate, or delays bytes.",
 ["src/client.rs","src/bus/mod.rs","src/device.rs","src/instructions/ping.rs"],
 [("timeout computation","src/client.rs read_status_response, src/instructions/ping.rs next_response, src/bus/mod.rs message_transfer_time"),("single deadline","src/client.rs read_status_response_timeout, src/device.rs read_raw_instruction_timeout"),("baud rate record","src/bus/mod.rs set_baud_rate")],
 [PORT+" in virtual time"], [("baud_rate","baud rate used for timeouts","src/bus/mod.rs Bus::baud_rate")])

prop("C14", "Too-small buffers are reported accurately and never half-used",
 "A packet is transmitted if and only if its complete stuffed frame including header and CRC fits in the write buffer; otherwise the operation fails with a too-small-buffer error and nothing reaches the port. A received packet that does not fit the read buffer is reported as a too-small-buffer error. For packets within the protocol's maximum frame size, the error states the actual buffer size and a required size that exceeds it, and repeating the operation with buffers of the reported required sizes needs no more than two enlargements to succeed.",
 ["inputs","configurations"], "every write buffer size from the minimum up and every read buffer size, every packet content including content that needs stuffing, around the exact fit",
 "One test covers an oversized incoming header; the outgoing limit, and stuffing at the limit in particular, is never reached (buffers are 128 bytes, packets at most 20).",
 ["src/bus/mod.rs","src/bus/bytestuff.rs","src/error.rs","src/bus/packet.rs"],
 [("size checks before encoding and after stuffing","src/bus/mod.rs write_packet / write_status, src/bus/bytestuff.rs stuff_inplace"),("incoming size check","src/bus/mod.rs read_packet_deadline")],
 [PORT,"too-small-buffer errors"])

prop("C15", "Stale input never answers a new instruction, fresh input is never lost",
 "Before the first byte of any packet is written, everything received earlier is discarded, both from the object's own buffer and from the port, so a result is never taken from bytes that arrived before its instruction was transmitted. Receiving never discards unread bytes: replies that arrive together in one read, or ahead of the call that reads them, are all delivered by subsequent receive calls.",
 ["histories","schedules"], "every history of operations on one bus object with leftover replies, half packets, delivered but unread packets and noise left behind by earlier operations, and every amount of data waiting in the port",
 "Each test performs one or two operations on a mock port whose discard is a no-op; leftovers never exist.",
 ["src/bus/mod.rs"],
 [("reset of the read buffer and discard before writing","src/bus/mod.rs write_packet")],
 [PORT,"unique tags in every simulated reply"], [("read_len / used_bytes","reset on every transmission","src/bus/mod.rs Bus")])

prop("C16", "Value encoding is fixed-size little-endian, reversible and total",
 "Every supported value type (8 to 128 bit integers and nested fixed-size arrays of encodable types) encodes to exactly its declared size in little-endian order with elements in sequence, touches no byte beyond that, and decodes back to the same value. Encoding into a buffer that is too small and decoding from a byte count other than the declared size fail with an error stating the sizes instead of panicking. Element values of an array are created and dropped exactly once, also when decoding an element fails midway.",
 ["inputs"], "all ten integer types, arrays of any length and nesting including user-defined element types that own heap memory or fail to decode, every value, every buffer length",
 "Only one u8 and one u32 ever cross the mock bus; arrays and user-defined types are never encoded or decoded.",
 ["src/bus/data.rs","src/bus/endian.rs","src/error.rs"],
 [("integer codec macro","src/bus/data.rs impl_data_for_number"),("array codec and initializer","src/bus/data.rs ArrayInitializer")],
 ["Data::encode / Data::decode / Data::ENCODED_SIZE, typed client operations","live-object counters of a user-defined element type"])

prop("C17", "No sequence of safe API calls causes undefined behaviour",
 "No sequence of safe public API calls, with any received bytes, any buffer type and size, and any element types, makes the library access memory out of bounds, use uninitialised or freed memory, free twice, leak values it owns, create aliasing mutable references or race on data. Borrowed results returned from the internal buffers stay valid and unchanged for as long as they can be used.",
 ["inputs","histories","schedules"], "all client, device, codec and static-buffer calls over hostile and ordinary streams, exact-size heap buffers, and user-defined element types",
 "The tests run without any sanitizer or UB interpreter, and the array initialiser and most unsafe paths are not reached by any test.",
 ["src/bus/data.rs","src/bus/mod.rs","src/device.rs"],
 [("unsafe array initialiser","src/bus/data.rs"),("unsafe lifetime extension","src/device.rs read_raw_instruction_timeout"),("static_buffer macro","src/bus/mod.rs")],
 ["Miri (Stacked and Tree Borrows), AddressSanitizer, live-object counters"])

prop("C18", "Each static buffer is handed out at most once",
 "Each occurrence of the static buffer macro yields a zero-initialised buffer of the requested size to at most one evaluation over the whole program run; every other evaluation, from any thread and at any time, panics. Distinct occurrences yield disjoint buffers.",
 ["schedules","inputs"], "every number of threads racing on one occurrence, in loops, functions and generic code, and every interleaving of their evaluations",
 "Three single-threaded tests evaluate an occurrence once or twice; no two threads ever race.",
 ["src/bus/mod.rs"],
 [("atomic used-flag","src/bus/mod.rs static_buffer!")],
 ["addresses and panics observed by racing threads; Miri data-race detector over many schedules"])

prop("C19", "The checksum function is CRC-16 0x8005 and composes over blocks",
 "The public checksum function returns the Protocol 2.0 CRC-16 (polynomial 0x8005, unreflected, no final xor) of its input for every data and every initial value. Checksumming data in blocks, passing each result as the initial value for the next block, gives the same result as checksumming it at once, for every split.",
 ["inputs"], "every byte string, initial value and split point",
 "One eight-byte known answer touches 8 of 256 table entries and never uses an initial value.",
 ["src/checksum.rs"], [("lookup table and update step","src/checksum.rs calculate_checksum")], ["return value of the checksum function against a bitwise reference"])

prop("C20", "Behaviour is the same in every feature, build and buffer configuration",
 "For the same operations and the same port behaviour, the library performs the same port calls with the same bytes and returns the same results whether built with no default features, with alloc, std, serial2 or logging, with debug checks or optimised, for platforms of either byte order and with 32 or 64 bit pointers, and whether its buffers are vectors, boxed slices, arrays or borrowed mutable slices with arbitrary previous contents. Enabling logging at any level has no effect other than log records, and each logged sent or received packet shows the bytes of that packet.",
 ["configurations","inputs"], "all feature sets used by the project's CI, debug and release builds, little and big endian platforms with 32 and 64 bit pointers, all buffer types, over a shared workload of ordinary, erroneous and hostile sessions",
 "The tests run in one feature set and one profile, on one platform, with one buffer type, and the logging output is never inspected.",
 ["src/lib.rs","src/log.rs","src/client.rs","src/device.rs","src/bus/mod.rs","Cargo.toml"],
 [("feature gates","src/lib.rs, src/client.rs, src/device.rs, src/error.rs"),("log macros","src/log.rs"),("generic Buffer","src/bus/mod.rs Bus")],
 ["digest of the port event log and results per configuration","log records"])

prop("C21", "The serial2 backend honours deadlines, baud rate and input discard",
 "On a real serial device node, reading returns available bytes or waits no longer than the given deadline (not blocking at all when it has passed) and not noticeably shorter, and then fails with an error recognised as a timeout, while other errors are not recognised as timeouts. Setting the baud rate changes the rate of the port and reading it back yields that rate, opening configures the requested rate, writing delivers all bytes in order, and discarding removes exactly the pending unread input. Clients and devices communicating over such a port exchange packets unmodified.",
 ["inputs","schedules"], "deadlines in the past and future, data arriving before, during and after the wait, all standard baud rates, all byte values including control characters",
 "The serial2 backend is compiled but never executed by the tests: they run on an in-memory mock.",
 ["src/serial_port/serial2.rs","src/client.rs","src/device.rs"],
 [("deadline to timeout conversion","src/serial_port/serial2.rs read / make_deadline"),("baud rate","src/serial_port/serial2.rs baud_rate / set_baud_rate"),("discard","src/serial_port/serial2.rs discard_input_buffer")],
 ["pseudo terminals; interposed poll calls and their timeout argument"])

prop("C22", "The command line tool does what its arguments say and reports truthfully",
 "Each subcommand of the command line tool sends exactly the instruction it names, with the motor ID, address, count and value given on the command line, over the given port at the given baud rate, and prints the value, identity or alert the motor returned. It exits with status 0 only if the motor confirmed the command (or a scan or broadcast was sent), and with a non-zero status and an error message on a motor error, timeout, bad reply, bad argument or port failure. Read commands refuse the broadcast ID without transmitting anything, and the shell completion command writes the script to the requested destination.",
 ["inputs","fault_sequences"], "every subcommand with all kinds of IDs, addresses, values (decimal, boundary) and replies (value, error, alert, wrong ID, none, corrupted), valid and invalid arguments",
 "The command line tool has no tests at all.",
 ["dynamixel2-cli/src/bin/dynamixel2/main.rs","dynamixel2-cli/src/bin/dynamixel2/options.rs","dynamixel2-cli/src/bin/dynamixel2/logging.rs"],
 [("dispatch","dynamixel2-cli/src/bin/dynamixel2/main.rs do_main"),("motor ID parsing","dynamixel2-cli/src/bin/dynamixel2/options.rs MotorId")],
 ["bytes on a pseudo terminal, process output and exit status"])

prop("C23", "Every port failure surfaces once, and the client stays usable",
 "If the serial port fails at any call, the operation in progress fails with that very error value, in the error variant that names the failed step (discarding input, writing, or reading); no operation reports success after a failed port call it needed. An instruction is written at most once, nothing is written after a failed discard, nothing is read after a failed write, and a single-reply operation makes no further port call after a failure. After the port recovers, the same client or device object works normally and is not influenced by the failed operation.",
 ["fault_sequences","crash_points"], "every operation, a failure injected at every port call index and of every kind (timeout or other), repeated failures, followed by further operations on the same object",
 "The mock port only ever fails by timeout; failing discard, write or baud rate calls never happen.",
 ["src/bus/mod.rs","src/client.rs","src/error.rs","src/instructions/*.rs"],
 [("error mapping","src/bus/mod.rs write_packet (DiscardBuffer / Write), read_packet_deadline (Io)"),("no retries","src/client.rs, src/instructions/*.rs")],
 [PORT+" with fault injection"])

prop("C24", "Client and device implement the register model over any history",
 "With a bus of devices built on this library's device side, each backed by a register table, any history of client operations gives the results of an ideal register file: a read returns what was last written to those registers, a registered write takes effect only at the next action and only once, sync and bulk operations affect exactly the listed motors, broadcast commands affect all motors, out-of-range accesses are reported as the motor error the device sent and change nothing. The same holds when noise, corrupted instructions or replies, lost replies and arbitrary chunking are injected, except that operations whose instruction or reply was damaged fail instead.",
 ["histories","fault_sequences"], "every history of client operations over several devices, every payload including stuffing patterns, with and without injected line faults",
 "The integration tests run one or two operations per bus with constant values and do not compare a read with a previous write.",
 ["src/client.rs","src/device.rs","src/instructions/*.rs","src/bus/*.rs"],
 [("client encoders and device decoder agree","src/instructions/*.rs and src/device.rs")],
 ["operation results and final register contents against an executable model"])

prop("C25", "Errors carry the true facts and keep their kind through conversions",
 "Every error value states the facts of the failure it reports: expected and actual ID, instruction, parameter count, checksum, prefix, sizes, or the raw motor error byte; each check succeeds exactly when the values conform. Converting an error into a more general error type keeps its kind and its values, and the textual form of an error contains those values and is the same for the specific and the general error type (apart from naming which buffer was too small).",
 ["inputs"], "every error type, every value of its fields, and every provided check, conversion and formatting",
 "Errors are only ever unwrapped or printed on test failure; no test inspects an error's fields, conversions or text.",
 ["src/error.rs"], [("check functions, From and Display implementations","src/error.rs")], ["public error types"])

prop("C26", "A client or device touches its port only when an operation asks for it",
 "Creating a client or device has no effect on the port or its input: it only asks for the baud rate, fails with the port's own error if that fails, and packets that were already waiting are still received afterwards. Inspecting, formatting, dropping or taking apart a client or device has no effect on the port either, and taking it apart returns the same port with its settings and unread input unchanged. Sending discards old input, then writes one packet, and does nothing else; receiving only reads, never discards or writes, and does not read on once a complete packet is at hand; operations without a reply do not read. After the baud rate was set successfully the port runs at that rate, whatever rate it had before.",
 ["inputs","histories","fault_sequences"], "every way to create, inspect, use, drop and take apart a client or device, with any waiting input, any reply, any chunking and failures at any port call",
 "Tests create every object before anything is sent, on a mock that can always tell its rate, and never look at the calls that reach the port.",
 ["src/bus/mod.rs","src/client.rs","src/device.rs","src/instructions/*.rs"],
 [("construction","src/bus/mod.rs with_buffers"),("taking apart","src/client.rs, src/device.rs into_serial_port"),("baud rate","src/bus/mod.rs set_baud_rate")],
 [PORT])

prop("C27", "Separate clients and devices never influence each other",
 "What a client or device does on its port and returns depends only on its own history and its own port. The same operations with the same port behaviour give the same port calls and results whether the object is alone in the process, or others were used before, are used in turns on the same thread, are used inside of its port calls, encoding closures or buffer accesses, or run on other threads at the same time, and whether the object stays on one thread or moves between threads. Clients, devices, packets, responses and errors can be sent to and shared by threads whenever their port, buffers and contents can.",
 ["schedules","histories"], "every interleaving of the operations, port calls and buffer accesses of several clients and devices on one or more threads",
 "The tests run one client and one device per process, and compare nothing between runs.",
 ["src/bus/*.rs","src/client.rs","src/device.rs","src/instructions/*.rs","src/checksum.rs"],
 [("no shared state but static_buffer!","src/bus/mod.rs"),("all state in the object","src/bus/mod.rs Bus")],
 ["transcripts (port events and results) of sessions, in a fresh process and among others"])

prop("C28", "Errors and panics of caller-supplied code stay contained",
 "Code that the caller supplies (encoding closures, value types with their own encoding, reply conversions, iterators, ports) is used for exactly what the operation needs: an encoding closure, or the encoding of each value, runs once per packet on exactly the bytes it has to fill, and the decoding or conversion of a reply runs once, on exactly its parameter bytes, for each reply asked for that is otherwise a success; dropping an operation decodes and converts nothing. If encoding fails, the operation fails with that same error and nothing is transmitted; if decoding fails, that result is that same error. If such code panics, the panic reaches the caller instead of aborting the process; a panic before the packet is complete transmits nothing, a panic for one reply of a sync or bulk read costs only that slot and later results are still attributed correctly, and a panic while the baud rate is set leaves the known baud rate unchanged. Afterwards the same client or device works as ever.",
 ["inputs","fault_sequences"], "every operation that calls code of the caller, every failing or panicking call index, every value size and every continuation afterwards",
 "All closures, values and ports in the tests succeed.",
 ["src/bus/mod.rs","src/bus/data.rs","src/client.rs","src/instructions/*.rs"],
 [("encoders","src/bus/mod.rs write_packet"),("decoders","src/bus/data.rs decode_status_packet"),("iterators and Drop","src/instructions/sync_read.rs, src/instructions/bulk_read.rs")],
 ["results and panics as the caller sees them", "calls of the caller's code", PORT])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
