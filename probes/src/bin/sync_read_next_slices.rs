use probes::*;
fn main() {
	let mut c = client();
	let mut it = c.sync_read_bytes::<&[u8]>(&[1, 1], 5, 3).unwrap();
	let a = it.read_next().unwrap().unwrap();
	let copy = a.data.to_vec();
	let _b = it.read_next();
	used_later(a.data, &copy);
}
