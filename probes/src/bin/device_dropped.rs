use probes::*;
fn main() {
	let mut d = device();
	let a = d.read_raw_instruction_timeout(T).unwrap();
	let copy = a.parameters().to_vec();
	drop(d);
	let churn = vec![0xA5u8; 40];
	used_later(a.parameters(), &copy);
	drop(churn);
}
