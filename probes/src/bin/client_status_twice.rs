use probes::*;
fn main() {
	let mut c = client();
	let a = c.transfer_single(1, 2, 0, 3, |_| Ok(())).unwrap();
	let copy = a.parameters().to_vec();
	let _b = c.transfer_single(1, 2, 0, 3, |_| Ok(()));
	used_later(a.parameters(), &copy);
}
