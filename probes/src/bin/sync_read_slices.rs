use probes::*;
fn main() {
	let mut c = client();
	let mut it = c.sync_read_bytes::<Bytes>(&[1, 1], 5, 3).unwrap();
	let a = it.next().unwrap().unwrap();
	let copy = a.data.0.to_vec();
	let _b = it.next();
	used_later(a.data.0, &copy);
}
struct Bytes<'a>(&'a [u8]);
impl<'a> From<&'a [u8]> for Bytes<'a> {
	fn from(b: &'a [u8]) -> Self {
		Bytes(b)
	}
}
