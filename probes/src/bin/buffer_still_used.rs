use probes::*;
// The caller keeps using a buffer that the client borrowed.
fn main() {
	let (mut r, mut w) = (vec![0u8; 40], vec![0u8; 40]);
	let mut c = dynamixel2::Client::with_buffers(client().into_serial_port(), &mut r[..], &mut w[..]).unwrap();
	let a = c.read_status_response_timeout(T).unwrap();
	let copy = a.parameters().to_vec();
	r.fill(0x77);
	used_later(a.parameters(), &copy);
}
