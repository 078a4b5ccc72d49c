//! Ordinary use: has to compile and run.
use probes::*;
fn main() {
	let mut d = device();
	let a = d.read_raw_instruction_timeout(T).unwrap();
	let copy = a.parameters().to_vec();
	used_later(a.parameters(), &copy);
	let b = d.read_raw_instruction_timeout(T).unwrap();
	assert!(b.parameters().len() == 7);
	let mut c = client();
	let r = c.transfer_single(1, 2, 0, 3, |_| Ok(())).unwrap();
	assert!(r.parameters() == [10, 11, 12]);
}
