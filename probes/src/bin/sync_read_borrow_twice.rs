use probes::*;
struct Three([u8; 3]);
// A user type that can be borrowed from bytes (its own layout is known).
impl std::borrow::Borrow<Three> for [u8] {
	fn borrow(&self) -> &Three {
		let a: &[u8; 3] = self.try_into().unwrap();
		unsafe { &*(a as *const [u8; 3]).cast() }
	}
}
fn main() {
	let mut c = client();
	let mut it = c.sync_read_bytes_borrow::<Three>(&[1, 1], 5, 3).unwrap();
	let a = it.read_next_borrow().unwrap().unwrap();
	let copy = a.data.0.to_vec();
	let _b = it.read_next_borrow();
	used_later(&a.data.0, &copy);
}
