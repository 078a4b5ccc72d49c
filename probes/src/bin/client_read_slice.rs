use probes::*;
// A slice of the read buffer as the result of read_bytes must keep the client borrowed.
fn main() {
	let mut c = client();
	let a = c.read_bytes::<&[u8]>(1, 5, 3).unwrap();
	let copy = a.data.to_vec();
	let _ = c.read_bytes::<Vec<u8>>(1, 5, 3);
	used_later(a.data, &copy);
}
