use probes::*;
struct Three([u8; 3]);
impl std::borrow::Borrow<Three> for [u8] {
	fn borrow(&self) -> &Three {
		let a: &[u8; 3] = self.try_into().unwrap();
		unsafe { &*(a as *const [u8; 3]).cast() }
	}
}
fn main() {
	let mut c = client();
	let reads = [1, 1].map(|motor_id| dynamixel2::instructions::BulkReadData { motor_id, address: 5, count: 3 });
	let mut it = c.bulk_read_bytes_borrow::<Three>(&reads).unwrap();
	let a = it.read_next_borrow().unwrap().unwrap();
	let copy = a.data.0.to_vec();
	let _b = it.read_next_borrow();
	used_later(&a.data.0, &copy);
}
