use probes::*;
fn main() {
	let mut c = client();
	let a = c.read_bytes::<&'static [u8]>(1, 5, 3).unwrap();
	let copy = a.data.to_vec();
	drop(c);
	let churn = vec![0xA5u8; 40];
	used_later(a.data, &copy);
	drop(churn);
}
